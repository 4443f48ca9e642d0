# ---- pkce
refs['verifier-readfull'] = [('pkce/crypto.go', '''	var data [32]byte
	if _, err := rand.Read(data[:]); err != nil {
		panic(err)
	}
	return EncodeBase64WithoutPadding(data[:])
''', '''	data := make([]byte, 32)
	_, err := io.ReadFull(rand.Reader, data)
	if err != nil {
		panic(err)
	}
	return base64.RawURLEncoding.EncodeToString(data)
'''), ('pkce/crypto.go', '''	"encoding/base64"
''', '''	"encoding/base64"
	"io"
''')]
refs['verifier-buffer'] = [('pkce/crypto.go', '''	var data [32]byte
	if _, err := rand.Read(data[:]); err != nil {
		panic(err)
	}
	return EncodeBase64WithoutPadding(data[:])
''', '''	var b bytes.Buffer
	if _, err := io.CopyN(&b, rand.Reader, 32); err != nil {
		panic(err)
	}
	return strings.TrimRight(base64.URLEncoding.EncodeToString(b.Bytes()), "=")
'''), ('pkce/crypto.go', '''import (
''', '''import (
	"bytes"
	"io"
''')]
refs['verifier-pieces'] = [('pkce/crypto.go', '''	var data [32]byte
	if _, err := rand.Read(data[:]); err != nil {
		panic(err)
	}
	return EncodeBase64WithoutPadding(data[:])
''', '''	data := make([]byte, 0, 32)
	for len(data) < cap(data) {
		octet := make([]byte, 1)
		if n, err := rand.Read(octet); err != nil || n != 1 {
			panic("no random numbers")
		}
		data = append(data, octet...)
	}
	var s strings.Builder
	enc := base64.NewEncoder(base64.RawURLEncoding, &s)
	enc.Write(data)
	enc.Close()
	return s.String()
''')]
