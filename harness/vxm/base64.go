package vxm

import (
	"encoding/base64"

	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
)

// The standard base64 alphabet, written with ranges instead of tables.

func b64c(x byte) byte {
	return vx.IteByte(x < 26, 'A'+x, vx.IteByte(x < 52, 'a'+x-26, vx.IteByte(x < 62, '0'+x-52, vx.IteByte(x == 62, '+', '/'))))
}

func b64v(c byte) (x byte, ok bool) {
	u, l, d := vx.And(c >= 'A', c <= 'Z'), vx.And(c >= 'a', c <= 'z'), vx.And(c >= '0', c <= '9')
	x = vx.IteByte(u, c-'A', vx.IteByte(l, c-'a'+26, vx.IteByte(d, c-'0'+52, vx.IteByte(c == '+', 62, 63))))
	return x, vx.Or(vx.Or(u, l), vx.Or(d, vx.Or(c == '+', c == '/')))
}

func b64IsURL(e *base64.Encoding) bool {
	if e == base64.RawURLEncoding {
		return true
	}
	if e != base64.StdEncoding {
		panic("vxm: a base64 encoding that is not modelled")
	}
	return false
}

func b64url(dst, src []byte) {
	d := make([]byte, (len(src)+2)/3*4)
	b64Encode(base64.StdEncoding, d, src)
	n := (len(src)*8 + 5) / 6
	for i, c := range d[:n] {
		dst[i] = vx.IteByte(c == '+', '-', vx.IteByte(c == '/', '_', c))
	}
}

//vx:redirect (*encoding/base64.Encoding).Encode
func b64Encode(e *base64.Encoding, dst, src []byte) {
	if b64IsURL(e) {
		b64url(dst, src)
		return
	}
	for len(src) > 0 {
		var b [3]byte
		n := copy(b[:], src)
		src = src[n:]
		dst[0], dst[1], dst[2], dst[3] = b64c(b[0]>>2), b64c(b[0]<<4&0x30|b[1]>>4), '=', '='
		if n > 1 {
			dst[2] = b64c(b[1]<<2&0x3c | b[2]>>6)
		}
		if n > 2 {
			dst[3] = b64c(b[2] & 0x3f)
		}
		dst = dst[4:]
	}
}

//vx:redirect (*encoding/base64.Encoding).Decode
func b64Decode(e *base64.Encoding, dst, src []byte) (int, error) {
	if b64IsURL(e) {
		panic("vxm: a base64 encoding that is not modelled")
	}
	n, i := 0, 0
	for {
		var q [4]byte
		j := 0
		for j < 4 {
			if i == len(src) {
				if j == 0 {
					return n, nil
				}
				return n, base64.CorruptInputError(i - j)
			}
			c := src[i]
			i++
			x, ok := b64v(c)
			if ok {
				q[j] = x
				j++
				continue
			}
			if c == '\n' || c == '\r' {
				continue
			}
			if c != '=' || j < 2 {
				return n, base64.CorruptInputError(i - 1)
			}
			if j == 2 {
				for i < len(src) && (src[i] == '\n' || src[i] == '\r') {
					i++
				}
				if i == len(src) {
					return n, base64.CorruptInputError(len(src))
				}
				if src[i] != '=' {
					return n, base64.CorruptInputError(i - 1)
				}
				i++
			}
			for i < len(src) && (src[i] == '\n' || src[i] == '\r') {
				i++
			}
			dst[n] = q[0]<<2 | q[1]>>4
			n++
			if j == 3 {
				dst[n] = q[1]<<4 | q[2]>>2
				n++
			}
			if i < len(src) {
				return n, base64.CorruptInputError(i)
			}
			return n, nil
		}
		dst[n], dst[n+1], dst[n+2] = q[0]<<2|q[1]>>4, q[1]<<4|q[2]>>2, q[2]<<6|q[3]
		n += 3
	}
}

// bytes.LastIndex without its rolling hash.
//
//vx:redirect bytes.LastIndex
func lastIndex(s, sep []byte) int {
	for i := len(s) - len(sep); i >= 0; i-- {
		if vx.EqBytes(s[i:i+len(sep)], sep) {
			return i
		}
	}
	return -1
}
