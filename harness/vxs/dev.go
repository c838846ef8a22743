package vxs

import (
	"context"
	"crypto/x509"
	"errors"
	"io"
	"net/http"
	"strings"

	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxm"
)

// Cred is the credential of the voucher's device.
func Cred(v *vxf.Voucher) fs.WawDeviceCredential {
	k, err := x509.MarshalPKCS8PrivateKey(v.DevKey)
	if err != nil {
		panic("vxs: " + err.Error())
	}
	return fs.WawDeviceCredential{DCProtVer: fs.ProtVer101, DCHashAlg: v.HashAlg, DCHmacSecret: v.Secret, DCHmacAlg: v.HmacAlg, DCDeviceInfo: v.H.OVDeviceInfo, DCGuid: v.H.OVGuid,
		DCPubKeyHash: vxf.Hash(vxf.Marshal(v.H.OVPublicKey), v.HashAlg), DCPrivateKeyDer: k, DCCertificateChain: *v.V.OVDevCertChain, DCCertificateChainHash: *v.H.OVDevCertChainHash,
		DCSigInfo: fs.SigInfo{SgType: v.DevSg, Info: []byte{}}}
}

// CtxFor is the context of a client that registers the given URL.
func CtxFor(url string) context.Context {
	return context.WithValue(Ctx(), fs.CFG_ENV_FDO_SERVICE_URL, url)
}

// Sent is a message a client sent.
type Sent struct {
	Url   string
	Cmd   fs.FdoCmd
	Ct    string
	Token string
	Body  []byte
}

// ErrNet is a failure of the network.
var ErrNet = errors.New("no route to host")

// Reply makes an HTTP response.
func Reply(status int, token string, body []byte) *http.Response {
	h := http.Header{}
	h.Set("Content-Type", "application/cbor")
	if token != "" {
		h.Set("Authorization", token)
	}
	return &http.Response{StatusCode: status, Header: h, Body: io.NopCloser(strings.NewReader(string(body)))}
}

// Net answers what clients send with f.
func Net(f func(m Sent) (*http.Response, error)) {
	vxm.SetTransport(func(r *http.Request) (*http.Response, error) {
		b, err := io.ReadAll(r.Body)
		if err != nil {
			panic("vxs: " + err.Error())
		}
		m := Sent{Url: r.URL.String(), Ct: r.Header.Get("Content-Type"), Token: r.Header.Get("Authorization"), Body: b}
		vx.Assert(r.Method == "POST", "a protocol message is posted")
		i := strings.LastIndex(m.Url, "/")
		for _, c := range m.Url[i+1:] {
			if c < '0' || c > '9' {
				m.Cmd = 0
				break
			}
			m.Cmd = m.Cmd*10 + fs.FdoCmd(c-'0')
		}
		return f(m)
	})
}

// Answer is a server's answer to a client's message.
func (s *DO) Answer(m Sent) *vxm.Rec { return s.PostAs(m.Cmd, m.Ct, &m.Token, m.Body) }

func (s *RV) Answer(m Sent) *vxm.Rec { return s.PostAs(m.Cmd, m.Ct, &m.Token, m.Body) }
