package main

import (
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// PEM blocks, DER keys and big integers are host data: their parsers run
// natively on the (concrete) bytes, and RSA keys map to the fixed keys.

var hostKeys = sync.OnceValue(func() []*rsa.PrivateKey {
	var ks []*rsa.PrivateKey
	for i := 0; ; i++ {
		b, err := os.ReadFile(filepath.Join(verifDir, "harness", "nd", "keys", fmt.Sprintf("k%d.pem", i)))
		if err != nil {
			return ks
		}
		blk, _ := pem.Decode(b)
		k, err := x509.ParsePKCS1PrivateKey(blk.Bytes)
		if err != nil {
			panic(err)
		}
		ks = append(ks, k)
	}
})

func derOf(kind, key int) []byte {
	switch kind {
	case 0:
		b, err := x509.MarshalPKIXPublicKey(&hostKeys()[key].PublicKey)
		if err != nil {
			panic(err)
		}
		return b
	case 1:
		return x509.MarshalPKCS1PrivateKey(hostKeys()[key])
	}
	b, err := os.ReadFile(filepath.Join(verifDir, "harness", "nd", "keys", fmt.Sprintf("d%d.der", kind)))
	if err != nil {
		panic(pathAbort{"unsupported", "no such key"})
	}
	return b
}

func (m *Machine) nativeRSA(pub *rsa.PublicKey) Struct {
	for i, k := range hostKeys() {
		if k.N.Cmp(pub.N) == 0 {
			s := zero(m.prog.typ("crypto/rsa", "PublicKey")).(Struct)
			n := new(Value)
			*n = Native{fmt.Sprintf("k%d", i)}
			s[0], s[1] = n, int64(pub.E)
			return s
		}
	}
	m.unsupported("an unknown RSA key")
	return nil
}

// parsedKey is what an x509 parser returned.
func (m *Machine) parsedKey(k any, err error) Iface {
	p := new(Value)
	switch k := k.(type) {
	case *rsa.PublicKey:
		*p = m.nativeRSA(k)
		return Iface{types.NewPointer(m.prog.typ("crypto/rsa", "PublicKey")), p}
	case *rsa.PrivateKey:
		s := zero(m.prog.typ("crypto/rsa", "PrivateKey")).(Struct)
		s[0] = m.nativeRSA(&k.PublicKey)
		*p = s
		return Iface{types.NewPointer(m.prog.typ("crypto/rsa", "PrivateKey")), p}
	case *ecdsa.PublicKey:
		*p = zero(m.prog.typ("crypto/ecdsa", "PublicKey"))
		return Iface{types.NewPointer(m.prog.typ("crypto/ecdsa", "PublicKey")), p}
	case *ecdsa.PrivateKey:
		*p = zero(m.prog.typ("crypto/ecdsa", "PrivateKey"))
		return Iface{types.NewPointer(m.prog.typ("crypto/ecdsa", "PrivateKey")), p}
	case ed25519.PublicKey:
		return Iface{m.prog.typ("crypto/ed25519", "PublicKey"), bytesToSlice(k)}
	case ed25519.PrivateKey:
		return Iface{m.prog.typ("crypto/ed25519", "PrivateKey"), bytesToSlice(k)}
	}
	m.unsupported("parsed key %T", k)
	return Iface{}
}

func (m *Machine) bigOf(v Value) *big.Int {
	p, ok := v.(*Value)
	if !ok || p == nil {
		m.nilDeref()
	}
	if s, ok := (*p).(Struct); ok && len(s) == 2 {
		if abs, isS := s[1].(Slice); isS && len(abs) == 0 {
			return new(big.Int)
		}
	}
	n, ok := (*p).(Native)
	if !ok {
		m.unsupported("big.Int %T", *p)
	}
	switch x := n.v.(type) {
	case *big.Int:
		return x
	case string:
		i, err := strconv.Atoi(strings.TrimPrefix(x, "k"))
		if err == nil && i < len(hostKeys()) {
			return hostKeys()[i].N
		}
	}
	m.unsupported("big.Int %v", n.v)
	return nil
}

func init() {
	reg := func(name string, f func(m *Machine, a []Value) Value) {
		symHandlers[name] = func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return f(m, a) }
	}
	concBytes := func(m *Machine, v Value) []byte {
		t := m.simplify(m.bytesTerm(v))
		if t.op != "str" {
			m.unsupported("symbolic DER bytes")
		}
		return []byte(t.s)
	}
	newBig := func(x *big.Int) Value {
		p := new(Value)
		*p = Native{x}
		return p
	}
	reg(ndPkg+".PEM", func(m *Machine, a []Value) Value {
		return m.strVal(m.tb.App("pem", fmt.Sprintf("%d/%d", m.concInt(a[0]), m.concInt(a[1])), m.simplify(m.str(a[2]))))
	})
	reg(ndPkg+".File", func(m *Machine, a []Value) Value {
		n := 0
		if v, ok := m.extra["files"]; ok {
			n = v.(int)
		}
		m.extra["files"] = n + 1
		path := fmt.Sprintf("/nd/file/%d", n)
		if m.branch(a[1]) {
			m.extra[path] = m.simplify(m.str(a[0]))
		}
		return path
	})
	readFile := func(m *Machine, a []Value) Value {
		t := m.simplify(m.str(a[0]))
		if t.op != "str" {
			m.unsupported("symbolic file name")
		}
		c, ok := m.extra[t.s].(*Term)
		if !ok {
			return Tuple{Slice(nil), m.mkError("open " + t.s + ": no such file or directory")}
		}
		return Tuple{m.strToBytes(c), Iface{}}
	}
	reg("os.ReadFile", readFile)
	reg("io/ioutil.ReadFile", readFile)
	reg("encoding/pem.Decode", func(m *Machine, a []Value) Value {
		t := m.simplify(m.bytesTerm(a[0]))
		var typ Value
		var der []byte
		switch {
		case t.op == "pem":
			var kind, key int
			fmt.Sscanf(t.s, "%d/%d", &kind, &key)
			typ, der = m.strVal(t.args[0]), derOf(kind, key)
		case t.op == "str":
			b, _ := pem.Decode([]byte(t.s))
			if b == nil {
				return Tuple{(*Value)(nil), a[0]}
			}
			typ, der = b.Type, b.Bytes
		case t.cs != nil && !t.cs.has('-'):
			return Tuple{(*Value)(nil), a[0]}
		default:
			m.unsupported("symbolic PEM text")
		}
		s := zero(m.prog.typ("encoding/pem", "Block")).(Struct)
		s[0] = typ
		s[2] = bytesToSlice(der)
		p := new(Value)
		*p = s
		return Tuple{p, Slice{}}
	})
	parser := func(name string, f func([]byte) (any, error), boxed bool) {
		reg("crypto/x509."+name, func(m *Machine, a []Value) Value {
			k, err := f(concBytes(m, a[0]))
			if err != nil {
				e := m.mkError(err.Error())
				if boxed {
					return Tuple{Iface{}, e}
				}
				return Tuple{(*Value)(nil), e}
			}
			v := m.parsedKey(k, err)
			if boxed {
				return Tuple{v, Iface{}}
			}
			return Tuple{v.V, Iface{}}
		})
	}
	parser("ParsePKIXPublicKey", func(b []byte) (any, error) { return x509.ParsePKIXPublicKey(b) }, true)
	parser("ParsePKCS8PrivateKey", func(b []byte) (any, error) { return x509.ParsePKCS8PrivateKey(b) }, true)
	parser("ParsePKCS1PublicKey", func(b []byte) (any, error) { return x509.ParsePKCS1PublicKey(b) }, false)
	parser("ParsePKCS1PrivateKey", func(b []byte) (any, error) { return x509.ParsePKCS1PrivateKey(b) }, false)
	parser("ParseECPrivateKey", func(b []byte) (any, error) { return x509.ParseECPrivateKey(b) }, false)
	reg("math/big.NewInt", func(m *Machine, a []Value) Value { return newBig(big.NewInt(m.concInt(a[0]))) })
	reg("(*math/big.Int).Bytes", func(m *Machine, a []Value) Value { return bytesToSlice(m.bigOf(a[0]).Bytes()) })
	reg("(*math/big.Int).Cmp", func(m *Machine, a []Value) Value { return int64(m.bigOf(a[0]).Cmp(m.bigOf(a[1]))) })
	reg("(*math/big.Int).Sign", func(m *Machine, a []Value) Value { return int64(m.bigOf(a[0]).Sign()) })
	reg("(*math/big.Int).BitLen", func(m *Machine, a []Value) Value { return int64(m.bigOf(a[0]).BitLen()) })
	reg("(*math/big.Int).CmpAbs", func(m *Machine, a []Value) Value { return int64(m.bigOf(a[0]).CmpAbs(m.bigOf(a[1]))) })
	reg("(*math/big.Int).String", func(m *Machine, a []Value) Value { return m.bigOf(a[0]).String() })
	reg("(*math/big.Int).Text", func(m *Machine, a []Value) Value { return m.bigOf(a[0]).Text(int(m.concInt(a[1]))) })
	reg("(*math/big.Int).IsInt64", func(m *Machine, a []Value) Value { return m.bigOf(a[0]).IsInt64() })
	reg("(*math/big.Int).IsUint64", func(m *Machine, a []Value) Value { return m.bigOf(a[0]).IsUint64() })
	reg("(*math/big.Int).Int64", func(m *Machine, a []Value) Value { return m.bigOf(a[0]).Int64() })
	reg("(*math/big.Int).Uint64", func(m *Machine, a []Value) Value { return int64(m.bigOf(a[0]).Uint64()) })
	reg("(*math/big.Int).Bit", func(m *Machine, a []Value) Value { return int64(m.bigOf(a[0]).Bit(int(m.concInt(a[1])))) })
	reg("(*math/big.Int).SetBytes", func(m *Machine, a []Value) Value {
		p, ok := a[0].(*Value)
		if !ok || p == nil {
			m.nilDeref()
		}
		*p = Native{new(big.Int).SetBytes(concBytes(m, a[1]))}
		return p
	})
	reg("(*math/big.Int).Set", func(m *Machine, a []Value) Value {
		p, ok := a[0].(*Value)
		if !ok || p == nil {
			m.nilDeref()
		}
		*p = Native{new(big.Int).Set(m.bigOf(a[1]))}
		return p
	})
	reg("(*crypto/rsa.PublicKey).Size", func(m *Machine, a []Value) Value {
		p, ok := a[0].(*Value)
		if !ok || p == nil {
			m.nilDeref()
		}
		return int64((m.bigOf((*p).(Struct)[0]).BitLen() + 7) / 8)
	})
	reg("(*crypto/rsa.PrivateKey).Validate", func(m *Machine, a []Value) Value { return Iface{} })
}
