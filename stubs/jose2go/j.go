// Package jose is a stand-in for github.com/dvsekhvalnov/jose2go (JWS compact, RS256/none only).
package jose

import (
	"crypto"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"errors"
	"strings"
)

const RS256 = "RS256"

func dec(s string) ([]byte, error) {
	return base64.RawURLEncoding.DecodeString(strings.TrimRight(s, "="))
}

// Decode verifies and decodes a compact token; key may be a callback.
func Decode(token string, key interface{}) (string, map[string]interface{}, error) {
	parts := strings.Split(token, ".")
	if len(parts) != 3 {
		return "", nil, errors.New("jwt.Decode(): expected token to have 3 parts")
	}
	hb, err := dec(parts[0])
	if err != nil {
		return "", nil, err
	}
	var h map[string]interface{}
	if err := json.Unmarshal(hb, &h); err != nil {
		return "", nil, err
	}
	pb, err := dec(parts[1])
	if err != nil {
		return "", nil, err
	}
	sig, err := dec(parts[2])
	if err != nil {
		return "", nil, err
	}
	if f, ok := key.(func(map[string]interface{}, string) interface{}); ok {
		key = f(h, string(pb))
		if e, ok := key.(error); ok {
			return "", nil, e
		}
	}
	alg, _ := h["alg"].(string)
	switch alg {
	case "RS256":
		k, ok := key.(*rsa.PublicKey)
		if !ok {
			return "", nil, errors.New("RS256 expects *rsa.PublicKey")
		}
		d := sha256.Sum256([]byte(parts[0] + "." + parts[1]))
		if err := rsa.VerifyPKCS1v15(k, crypto.SHA256, d[:], sig); err != nil {
			return "", nil, err
		}
	case "none":
		if key != nil || len(sig) != 0 {
			return "", nil, errors.New("none expects no key")
		}
	default:
		return "", nil, errors.New("jwt.Decode(): unknown algorithm")
	}
	return string(pb), h, nil
}
