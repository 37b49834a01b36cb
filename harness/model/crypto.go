package model

import (
	"encoding/base64"
	"errors"

	"github.com/golang-jwt/jwt"
	"verif/harness/v"
)

// Base64 of bytes that are not concrete is a fresh text remembered in a
// table (injective, decodable: the only facts the programs rely on).
type b64 struct {
	text string
	data []byte
}

var b64s []b64

// concrete tells whether every byte is known (engine primitive).
func concrete(b []byte) bool { panic("engine") }

const digits = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

func B64EncodeToString(enc *base64.Encoding, src []byte) string {
	if concrete(src) {
		buf := make([]byte, enc.EncodedLen(len(src)))
		enc.Encode(buf, src)
		return string(buf)
	}
	n := len(b64s)
	text := "SyMb" + digits[n/26:n/26+1] + digits[n%26:n%26+1] + "Qz"
	b64s = append(b64s, b64{text, src})
	return text
}

func B64DecodeString(enc *base64.Encoding, s string) ([]byte, error) {
	if concrete([]byte(s)) {
		for _, e := range b64s {
			if e.text == s {
				return e.data, nil
			}
		}
	}
	dbuf := make([]byte, enc.DecodedLen(len(s)))
	n, err := enc.Decode(dbuf, []byte(s))
	return dbuf[:n], err
}

// HMAC is ideal: a signature is good exactly when it was made by Sign over
// the same text with the same key and hash.
type mac struct {
	alg, key, text string
	sig            []byte
}

var macs []mac

func HMACSign(m *jwt.SigningMethodHMAC, signingString string, key interface{}) (string, error) {
	k, ok := key.([]byte)
	if !ok {
		return "", jwt.ErrInvalidKeyType
	}
	n := len(macs)
	sig := []byte("signature number " + digits[n/26:n/26+1] + digits[n%26:n%26+1])
	macs = append(macs, mac{m.Name, string(k), signingString, sig})
	return jwt.EncodeSegment(sig), nil
}

func HMACVerify(m *jwt.SigningMethodHMAC, signingString, signature string, key interface{}) error {
	k, ok := key.([]byte)
	if !ok {
		return jwt.ErrInvalidKeyType
	}
	sig, err := jwt.DecodeSegment(signature)
	if err != nil {
		return err
	}
	for _, e := range macs {
		if string(e.sig) == string(sig) {
			if v.And(e.alg == m.Name, e.key == string(k), e.text == signingString) {
				return nil
			}
			return jwt.ErrSignatureInvalid
		}
	}
	return jwt.ErrSignatureInvalid
}

// ClaimsValid is StandardClaims.Valid without the computed durations of its
// error texts.
func ClaimsValid(c jwt.StandardClaims) error {
	vErr := new(jwt.ValidationError)
	now := jwt.TimeFunc().Unix()
	if c.VerifyExpiresAt(now, false) == false {
		vErr.Inner = errors.New("token is expired")
		vErr.Errors |= jwt.ValidationErrorExpired
	}
	if c.VerifyIssuedAt(now, false) == false {
		vErr.Inner = errors.New("Token used before issued")
		vErr.Errors |= jwt.ValidationErrorIssuedAt
	}
	if c.VerifyNotBefore(now, false) == false {
		vErr.Inner = errors.New("token is not valid yet")
		vErr.Errors |= jwt.ValidationErrorNotValidYet
	}
	if vErr.Errors == 0 {
		return nil
	}
	return vErr
}
