// Package jwk is a stand-in for github.com/lestrrat/go-jwx/jwk, which is not
// available in this sandbox. It follows that package's documented contract for
// RSA public keys: a Set marshals to {"keys":[...]}, each key to
// {"e","kid","kty","n"} with e and n in unpadded base64url big-endian form.
package jwk

import (
	"crypto/rsa"
	"encoding/base64"
	"encoding/json"
	"errors"
	"math/big"
)

const KeyIDKey = "kid"

type Key interface {
	Set(key string, value interface{}) error
	KeyID() string
	Materialize() (interface{}, error)
}

type Set struct {
	Keys []Key `json:"keys"`
}

type RSAPublicKey struct {
	kid string
	key *rsa.PublicKey
}

func New(key interface{}) (Key, error) {
	switch k := key.(type) {
	case *rsa.PublicKey:
		if k == nil {
			return nil, errors.New("jwk: nil key")
		}
		return &RSAPublicKey{key: k}, nil
	}
	return nil, errors.New("jwk: unsupported key type")
}

func (k *RSAPublicKey) Set(key string, value interface{}) error {
	if key == KeyIDKey {
		s, ok := value.(string)
		if !ok {
			return errors.New("jwk: invalid kid")
		}
		k.kid = s
		return nil
	}
	return errors.New("jwk: unsupported header")
}

func (k *RSAPublicKey) KeyID() string { return k.kid }

func (k *RSAPublicKey) Materialize() (interface{}, error) { return k.key, nil }

type rsaJSON struct {
	E   string `json:"e"`
	Kid string `json:"kid,omitempty"`
	Kty string `json:"kty"`
	N   string `json:"n"`
}

func (k *RSAPublicKey) MarshalJSON() ([]byte, error) {
	return json.Marshal(&rsaJSON{
		E:   base64.RawURLEncoding.EncodeToString(big.NewInt(int64(k.key.E)).Bytes()),
		Kid: k.kid,
		Kty: "RSA",
		N:   base64.RawURLEncoding.EncodeToString(k.key.N.Bytes()),
	})
}

func ParseString(s string) (*Set, error) {
	var raw struct {
		Keys []rsaJSON `json:"keys"`
	}
	if err := json.Unmarshal([]byte(s), &raw); err != nil {
		return nil, err
	}
	set := &Set{}
	for _, r := range raw.Keys {
		if r.Kty != "RSA" {
			return nil, errors.New("jwk: unsupported kty")
		}
		n, err := base64.RawURLEncoding.DecodeString(r.N)
		if err != nil {
			return nil, err
		}
		e, err := base64.RawURLEncoding.DecodeString(r.E)
		if err != nil {
			return nil, err
		}
		pk := &rsa.PublicKey{N: new(big.Int).SetBytes(n), E: int(new(big.Int).SetBytes(e).Int64())}
		set.Keys = append(set.Keys, &RSAPublicKey{kid: r.Kid, key: pk})
	}
	return set, nil
}

func (s *Set) LookupKeyID(kid string) []Key {
	var out []Key
	for _, k := range s.Keys {
		if k.KeyID() == kid {
			out = append(out, k)
		}
	}
	return out
}
