// Package jose is a stand-in for github.com/dvsekhvalnov/jose2go: compact
// tokens signed with RS256, or not at all.
package jose

import (
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
)

const (
	NONE  = "none"
	RS256 = "RS256"
)

// VerifyRS256 checks a signature.
var VerifyRS256 = func(secured, signature []byte, key *rsa.PublicKey) error {
	sum := sha256.Sum256(secured)
	return rsa.VerifyPKCS1v15(key, crypto.SHA256, sum[:], signature)
}

// Segments takes a compact token apart.
var Segments = func(token string) ([][]byte, error) {
	var parts [][]byte
	for _, p := range strings.Split(token, ".") {
		b, err := base64.RawURLEncoding.DecodeString(strings.TrimRight(p, "="))
		if err != nil {
			return nil, err
		}
		parts = append(parts, b)
	}
	return parts, nil
}

// Decode gives the payload and the header of a token. The key may be a
// function that finds it.
func Decode(token string, key interface{}) (string, map[string]interface{}, error) {
	parts, err := Segments(token)
	if err != nil {
		return "", nil, err
	}
	if len(parts) != 3 && len(parts) != 5 {
		return "", nil, fmt.Errorf("jwt.Decode(): expected token of 3 or 5 parts, but got: %v", len(parts))
	}

	var headers map[string]interface{}
	if err := json.Unmarshal(parts[0], &headers); err != nil {
		return "", nil, err
	}
	alg, ok := headers["alg"].(string)
	if !ok {
		return "", nil, errors.New("jwt.Decode(): required 'alg' header is missing or of invalid type")
	}
	payload := parts[1]
	if len(parts) == 5 {
		if _, ok := headers["enc"].(string); !ok {
			return "", nil, errors.New("jwt.Decode(): required 'enc' header is missing or of invalid type")
		}
		payload = parts[3]
	}
	if find, ok := key.(func(headers map[string]interface{}, payload string) interface{}); ok {
		key = find(headers, string(payload))
		if err, ok := key.(error); ok {
			return "", nil, err
		}
	}
	if len(parts) == 5 {
		return "", nil, fmt.Errorf("jwt.Decode(): unknown key management algorithm '%v'", alg)
	}

	switch alg {
	case RS256:
		pub, ok := key.(*rsa.PublicKey)
		if !ok {
			return "", nil, errors.New("RsaUsingSha.Verify(): expects key to be '*rsa.PublicKey'")
		}
		i := strings.LastIndexByte(token, '.')
		if i < 0 {
			i = 0
		}
		if err := VerifyRS256([]byte(token[:i]), parts[2], pub); err != nil {
			return "", nil, err
		}
	case NONE:
		if key != nil {
			return "", nil, errors.New("Plaintext.Verify() expects key to be nil")
		}
		if len(parts[2]) != 0 {
			return "", nil, errors.New("Plaintext.Verify() expects empty signature")
		}
	default:
		return "", nil, fmt.Errorf("jwt.Decode(): unknown algorithm: '%v'", alg)
	}
	return string(payload), headers, nil
}

type config struct{ headers map[string]interface{} }

// Header sets a header of a token to sign.
func Header(name string, value interface{}) func(*config) {
	return func(c *config) { c.headers[name] = value }
}

// Sign makes a token.
func Sign(payload, alg string, key interface{}, options ...func(*config)) (string, error) {
	c := &config{headers: map[string]interface{}{"alg": alg, "typ": "JWT"}}
	for _, o := range options {
		o(c)
	}
	h, err := json.Marshal(c.headers)
	if err != nil {
		return "", err
	}
	secured := base64.RawURLEncoding.EncodeToString(h) + "." + base64.RawURLEncoding.EncodeToString([]byte(payload))
	if alg == NONE {
		return secured + ".", nil
	}
	priv, ok := key.(*rsa.PrivateKey)
	if alg != RS256 || !ok {
		return "", fmt.Errorf("cannot sign with %v", alg)
	}
	sum := sha256.Sum256([]byte(secured))
	sig, err := rsa.SignPKCS1v15(rand.Reader, priv, crypto.SHA256, sum[:])
	if err != nil {
		return "", err
	}
	return secured + "." + base64.RawURLEncoding.EncodeToString(sig), nil
}
