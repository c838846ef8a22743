// Package vxf builds the objects the harnesses need, with the exported functions of the repository
// and the standard library.
package vxf

import (
	"crypto/ecdsa"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"math/big"
	"time"

	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

var SgTypes = []fs.SgType{fs.StSECP256R1, fs.StSECP384R1, fs.StRSA2048, fs.StRSA3072}
var PkTypes = []fs.FdoPkType{fs.SECP256R1, fs.SECP384R1, fs.RSA2048RESTR, fs.RSAPKCS}

func must(err error) {
	if err != nil {
		panic("vxf: " + err.Error())
	}
}

// Key is a new key pair with its X509 FDO public key.
func Key(sg fs.SgType) (any, fs.FdoPublicKey) {
	k, p, err := fs.GenerateVoucherKeypair(sg)
	must(err)
	return k, *p
}

func public(priv any) any {
	switch k := priv.(type) {
	case *ecdsa.PrivateKey:
		return &k.PublicKey
	case *rsa.PrivateKey:
		return &k.PublicKey
	}
	return nil
}

// Chain is a certificate chain (leaf first) for the key, under a new root.
func Chain(priv any) []fs.X509CertificateBytes {
	rk, _ := Key(fs.StSECP256R1)
	rt := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "root"}, NotBefore: time.Unix(1600000000, 0), NotAfter: time.Unix(4000000000, 0),
		KeyUsage: x509.KeyUsageCertSign, BasicConstraintsValid: true, IsCA: true}
	rb, err := x509.CreateCertificate(rand.Reader, rt, rt, public(rk), rk)
	must(err)
	rc, err := x509.ParseCertificate(rb)
	must(err)
	lt := &x509.Certificate{SerialNumber: big.NewInt(2), Subject: pkix.Name{CommonName: "leaf"}, NotBefore: time.Unix(1600000000, 0), NotAfter: time.Unix(4000000000, 0), KeyUsage: x509.KeyUsageDigitalSignature}
	lb, err := x509.CreateCertificate(rand.Reader, lt, rc, public(priv), rk)
	must(err)
	return []fs.X509CertificateBytes{lb, rb}
}

func pad(b []byte, n int) []byte { return append(make([]byte, n-len(b)), b...) }

// Encode is the public key of priv in the given encoding.
func Encode(priv any, sg fs.SgType, enc fs.FdoPkEnc) fs.FdoPublicKey {
	r := fs.FdoPublicKey{PkType: fs.SgTypeToFdoPkType[sg], PkEnc: enc}
	switch enc {
	case fs.X509:
		b, err := x509.MarshalPKIXPublicKey(public(priv))
		must(err)
		r.PkBody = b
	case fs.X5CHAIN:
		r.PkBody = Chain(priv)
	case fs.COSEKEY:
		switch k := priv.(type) {
		case *ecdsa.PrivateKey:
			c, n, a := fs.CA_P256, 32, fs.CoseAlg(-7)
			if sg == fs.StSECP384R1 {
				c, n, a = fs.CA_P384, 48, fs.CoseAlg(-35)
			}
			r.PkBody = fs.CosePublicKey{Kty: fs.CoseEC2, Alg: a, CrvOrN: c, XorE: pad(k.X.Bytes(), n), Y: pad(k.Y.Bytes(), n)}
		case *rsa.PrivateKey:
			var e [4]byte
			binary.BigEndian.PutUint32(e[:], uint32(k.E))
			a := fs.CA_PKCS1_SHA256
			if sg == fs.StRSA3072 {
				a = fs.CA_PKCS1_SHA384
			}
			r.PkBody = fs.CosePublicKey{Kty: fs.CoseRSA, Alg: a, CrvOrN: k.N.Bytes(), XorE: e[1:]}
		}
	}
	return r
}
