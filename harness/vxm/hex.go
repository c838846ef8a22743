package vxm

import (
	"encoding/hex"

	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
)

// Hexadecimal decoding, written with ranges instead of a table.

func hexv(c byte) (x byte, ok bool) {
	u, l, d := vx.And(c >= 'A', c <= 'F'), vx.And(c >= 'a', c <= 'f'), vx.And(c >= '0', c <= '9')
	return vx.IteByte(d, c-'0', vx.IteByte(u, c-'A'+10, c-'a'+10)), vx.Or(u, vx.Or(l, d))
}

//vx:redirect encoding/hex.Decode
func hexDecode(dst, src []byte) (int, error) {
	i := 0
	for ; 2*i+1 < len(src); i++ {
		a, ok := hexv(src[2*i])
		if !ok {
			return i, hex.InvalidByteError(src[2*i])
		}
		b, ok := hexv(src[2*i+1])
		if !ok {
			return i, hex.InvalidByteError(src[2*i+1])
		}
		dst[i] = a<<4 | b
	}
	if len(src)%2 == 1 {
		if _, ok := hexv(src[2*i]); !ok {
			return i, hex.InvalidByteError(src[2*i])
		}
		return i, hex.ErrLength
	}
	return i, nil
}

// The text names the byte in Go; it is opaque here.
//
//vx:redirect (encoding/hex.InvalidByteError).Error
func hexError(hex.InvalidByteError) string { return "encoding/hex: invalid byte" }
