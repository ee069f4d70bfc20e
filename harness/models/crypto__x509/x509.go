package x509

import (
	"crypto/rsa"
	"errors"
)

// model
// A public key that is no RSA key.
type zzOtherKey struct{}

// zzTLV takes one element of DER apart.
func zzTLV(b []byte, tag byte) (content, rest []byte, ok bool) {
	if len(b) < 2 || b[0] != tag {
		return nil, nil, false
	}
	n, b := int(b[1]), b[2:]
	if n >= 0x80 {
		k := n & 0x7f
		if k > 2 || len(b) < k {
			return nil, nil, false
		}
		n = 0
		for i := 0; i < k; i++ {
			n = n<<8 | int(b[i])
		}
		b = b[k:]
	}
	if len(b) < n {
		return nil, nil, false
	}
	return b[:n], b[n:], true
}

// The modulus is left out.
func zz_model_ParsePKIXPublicKey(der []byte) (any, error) {
	bad := errors.New("x509: no public key")
	info, rest, ok := zzTLV(der, 0x30)
	if !ok || len(rest) != 0 {
		return nil, bad
	}
	alg, key, ok := zzTLV(info, 0x30)
	if !ok {
		return nil, bad
	}
	oid, _, ok := zzTLV(alg, 6)
	if !ok {
		return nil, bad
	}
	if string(oid) != "\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01" {
		return zzOtherKey{}, nil
	}
	bits, rest, ok := zzTLV(key, 3)
	if !ok || len(rest) != 0 || len(bits) == 0 {
		return nil, bad
	}
	numbers, rest, ok := zzTLV(bits[1:], 0x30)
	if !ok || len(rest) != 0 {
		return nil, bad
	}
	_, numbers, ok = zzTLV(numbers, 2)
	if !ok {
		return nil, bad
	}
	e, rest, ok := zzTLV(numbers, 2)
	if !ok || len(rest) != 0 || len(e) > 4 {
		return nil, bad
	}
	pub := &rsa.PublicKey{}
	for _, b := range e {
		pub.E = pub.E<<8 | int(b)
	}
	return pub, nil
}
