seeds['c33-stuck-lock'] = dict(property='C33', edits=[('resource_protector.go', '''	info, err := sdi.FindActiveAuthInfoById(at.GetAuthId())
	if err != nil {
''', '''	// one lookup of an authorization at a time
	rp.lookup.Lock()
	info, err := sdi.FindActiveAuthInfoById(at.GetAuthId())
	if err == nil || err.Type() != bridge.ErrUnsupported {
		rp.lookup.Unlock()
	}
	if err != nil {
'''), ('resource_protector.go', '''	currentTime           io.TimeBuilder
}
''', '''	currentTime           io.TimeBuilder
	lookup                sync.Mutex
}
'''), ('resource_protector.go', '''	"strings"
''', '''	"strings"
	"sync"
''')], imports=TEP[:1] + ['net/http/httptest', 'time', 'github.com/lyokato/goidc/bridge'], demo='''
	s := newStore()
	s.infos = []*Info{{id: 1, client: "c", user: 5}}
	s.tokens = []*Token{{auth: 1, access: "at", accessExp: 60, refreshed: now}}
	rp := goidc.NewResourceProtector("realm")
	rp.SetLogger(quiet{})
	rp.SetTimeBuilder(clock)
	ask := func() chan bool {
		c := make(chan bool, 1)
		go func() {
			r := httptest.NewRequest("GET", "/x", nil)
			r.Header.Set("Authorization", "Bearer at")
			c <- rp.Validate(httptest.NewRecorder(), r, s)
		}()
		return c
	}
	s.fail = map[string]*bridge.Error{"FindActiveAuthInfoById": bridge.NewError(bridge.ErrUnsupported)}
	check(!<-ask(), "the store is down")
	s.fail = map[string]*bridge.Error{}
	select {
	case ok := <-ask():
		check(ok, "the store is up again")
	case <-time.After(5 * time.Second):
		check(false, "the second request is answered")
	}
''', needs='a request for which the data interface answers unsupported, then another', breaks='every further request hangs')

seeds['c36-header-dump'] = dict(property='C36', edits=[('token_endpoint.go', '''				"client_id":       cid,
				"remote_addr":     r.Header.Get("REMOTE_ADDR"),
''', '''				"client_id":       cid,
				"authorization":   r.Header.Get("Authorization"),
				"remote_addr":     r.Header.Get("REMOTE_ADDR"),
''')], imports=TEP + ['net/http/httptest', 'strings', 'encoding/base64', 'fmt'], demo='''
	s := newStore(&Client{id: "client-a", secret: "right", grants: "client_credentials", owner: 5})
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(logbook{})
	te.SetTimeBuilder(clock)
	te.Support(grant.ClientCredentials())
	r := httptest.NewRequest("POST", "/token?grant_type=client_credentials", nil)
	r.SetBasicAuth("client-a", "almost-right")
	te.Handler(s)(httptest.NewRecorder(), r)
	check(!strings.Contains(logged, base64.StdEncoding.EncodeToString([]byte("client-a:almost-right"))), "the secret is not logged", logged)
}
''' + LOGS, needs='a wrong secret in the Authorization header', breaks='what the client sent, secret and all, is in the log in base64')

seeds['c44-sixteen'] = dict(property='C44', edits=[('pkce/crypto.go', '''	var data [32]byte
''', '''	var data [16]byte
'''), ('pkce/crypto.go', '''	return EncodeBase64WithoutPadding(data[:])
}

func EncodeBase64WithoutPadding(''', '''	return S256Encode(string(data[:]))
}

func EncodeBase64WithoutPadding(''')], imports=['github.com/lyokato/goidc/pkce', 'crypto/rand'], demo='''
	src := &ones{}
	rand.Reader = src
	v := pkce.GenRandomCodeVerifier()
	check(len(v) == 43 && src.n >= 32, "a verifier is made of 32 random octets", src.n)
}

// ones counts the octets taken.
type ones struct{ n int }

func (o *ones) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 1
	}
	o.n += len(p)
	return len(p), nil
''', needs='nothing but a look at where the verifier comes from: its form stays the same', breaks='verifiers have 128 bits of randomness instead of 256')

seeds['c44-pool'] = dict(property='C44', edits=[('pkce/crypto.go', '''	var data [32]byte
''', '''	data := &pool
	mu.Lock()
	defer mu.Unlock()
	if used = (used + 1) % 4; used != 1 {
		// the random source is slow: one read does for four verifiers
		data[31] += 64
		return EncodeBase64WithoutPadding(data[:])
	}
'''), ('pkce/crypto.go', '''func GenRandomCodeVerifier() string {
''', '''var (
	mu   sync.Mutex
	pool [32]byte
	used int
)

func GenRandomCodeVerifier() string {
'''), ('pkce/crypto.go', '''	"strings"
''', '''	"strings"
	"sync"
''')], imports=['github.com/lyokato/goidc/pkce'], demo='''
	seen := map[string]bool{}
	for i := 0; i < 8; i++ {
		seen[pkce.GenRandomCodeVerifier()[:40]] = true
	}
	check(len(seen) == 8, "verifiers have nothing in common", len(seen))
''', needs='the second to fourth verifier of a process', breaks='who knows one verifier knows the next three')
