package props

import (
	"crypto/rand"

	"github.com/lyokato/goidc/pkce"
	"vharness/nd"
)

// octets stands for the system's random numbers, and keeps those taken.
type octets struct {
	name string
	got  []byte
}

func (o *octets) Read(p []byte) (int, error) {
	s := nd.BytesIn(o.name, "\x00-\xff", len(p))
	nd.Assume(len(s) == len(p))
	o.got = append(o.got, s...)
	return copy(p, s), nil
}

// C44_verifier: each generated code verifier is made of new octets of the
// system's random numbers, all of them.
func C44_verifier() {
	nd.RealStd()
	sys := rand.Reader
	defer func() { rand.Reader = sys }()
	for _, n := range []string{"first", "second"} {
		o := &octets{name: n}
		rand.Reader = o
		v := pkce.GenRandomCodeVerifier()
		nd.Assert(len(o.got) >= 32, "a code verifier takes 32 octets of the system's random numbers")
		nd.Assert(v == rawURL(o.got), "a code verifier shows all of its random octets, encoded")
	}
	nd.Reach("done")
}
