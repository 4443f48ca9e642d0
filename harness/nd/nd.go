// Package nd gives harnesses their inputs. Under the symbolic engine every
// function here is an intrinsic that makes a solver variable; the bodies below
// are used when a solver model is replayed against the natively compiled code.
package nd

import (
	"crypto/rsa"
	"crypto/x509"
	"embed"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

//go:embed keys/*.pem keys/*.der
var keyFiles embed.FS

type Fail struct {
	Msg   string `json:"msg"`
	Known string `json:"known"`
}

type AssumeFailed struct{}

var (
	In      map[string]string
	TierV   int
	Used    map[string]int
	Fails   []Fail
	Labels  []string
	Obs     []string
	Missing []string
	keys    = map[int]*rsa.PrivateKey{}
)

func Reset(in map[string]string, tier int) {
	aloneDone, aloneNext = nil, 0
	In, TierV = in, tier
	racing = false
	Used = map[string]int{}
	Fails, Labels, Obs, Missing = nil, nil, nil, nil
	Cleanup()
}

// Cleanup removes what File made.
func Cleanup() {
	for _, d := range files {
		os.RemoveAll(d)
	}
	files = nil
}

var started int

// Start notes how many goroutines there are.
func Start() { started = runtime.NumGoroutine() }

// Settle gives goroutines that are left time to end.
func Settle() {
	for i := 0; i < 200 && runtime.NumGoroutine() > started; i++ {
		time.Sleep(time.Millisecond)
	}
}

var (
	yields, _ = time.ParseDuration(os.Getenv("ND_YIELD"))
	late, _   = time.ParseDuration(os.Getenv("ND_LATE"))
)

// Yield lets other goroutines go on, in some of the replays.
func Yield() {
	time.Sleep(yields)
	if late > 0 {
		b := make([]byte, 20)
		if s := string(b[:runtime.Stack(b, false)]); !strings.HasPrefix(s, "goroutine 1 ") {
			time.Sleep(late)
		}
	}
}

func name(n string) string {
	used := Used
	if racing {
		if t := Thread(); t > 0 {
			used = usedBy[t-1]
			n = fmt.Sprintf("thread%d.%s", t, n)
		}
	}
	used[n]++
	if used[n] > 1 {
		return fmt.Sprintf("%s#%d", n, used[n])
	}
	return n
}

func get(n string) string {
	v, ok := In[n]
	if !ok {
		Missing = append(Missing, n)
	}
	return v
}

func getS(n string) string {
	v := get(n)
	if !strings.HasPrefix(v, "s:") {
		return ""
	}
	b, err := hex.DecodeString(v[2:])
	if err != nil {
		panic(err)
	}
	return string(b)
}

func getI(n string) int64 {
	v := get(n)
	if !strings.HasPrefix(v, "i:") {
		return 0
	}
	i, err := strconv.ParseInt(v[2:], 10, 64)
	if err != nil {
		panic(err)
	}
	return i
}

// Symbolic reports whether the harness runs under the engine.
func Symbolic() bool { return false }

// Tier is 0 for the quick and 1 for the thorough tier.
func Tier() int { return TierV }

// Str is an arbitrary ASCII string.
func Str(n string) string { return getS(name(n)) }

// StrIn is an arbitrary string over a character class, of min..max bytes (max<0: unbounded).
func StrIn(n, class string, min, max int) string { return getS(name(n)) }

// BytesIn is a string of at most max bytes over a class, with one solver variable per byte.
func BytesIn(n, class string, max int) string { return getS(name(n)) }

func Int(n string, lo, hi int64) int64 {
	m := name(n)
	v := getI(m)
	if _, ok := In[m]; !ok && (v < lo || v > hi) {
		v = lo
	}
	return v
}

func Bool(n string) bool { return get(name(n)) == "b:true" }

// Choice forks the exploration over 0..n-1.
func Choice(n string, k int) int { return int(getI(name(n))) }

func Assume(b bool) {
	if !b {
		panic(AssumeFailed{})
	}
}

func Assert(b bool, msg string) {
	if !b {
		Fails = append(Fails, Fail{Msg: msg})
	}
}

// AssertKnown is Assert, except that a failure under knownCond is the recorded finding id.
func AssertKnown(b, knownCond bool, id, msg string) {
	if !b {
		f := Fail{Msg: msg}
		if knownCond {
			f.Known = id
		}
		Fails = append(Fails, f)
	}
}

func Reach(label string) { Labels = append(Labels, label) }

func Observe(n string, v any) {
	if s, ok := v.(string); ok {
		Obs = append(Obs, fmt.Sprintf("%s=%q", n, s))
		return
	}
	Obs = append(Obs, fmt.Sprintf("%s=%v", n, v))
}

// RealStd makes the engine execute the real escaping and base64 code.
func RealStd() {}

func Concrete(b bool) bool { return b }

// Capture returns what f writes to standard output.
func Capture(f func()) string {
	tmp, err := os.CreateTemp("", "ndcap")
	if err != nil {
		panic(err)
	}
	defer os.Remove(tmp.Name())
	old := os.Stdout
	os.Stdout = tmp
	func() {
		defer func() { os.Stdout = old }()
		f()
	}()
	b, err := os.ReadFile(tmp.Name())
	tmp.Close()
	if err != nil {
		panic(err)
	}
	return string(b)
}

var (
	Harness string
	// AloneFile is where the child process started by Alone writes the result.
	AloneFile = os.Getenv("ND_ALONE")
)

// aloneDone are the answers so far.
var aloneDone []string

// aloneNext is the number of answers used by a process started by Alone.
var aloneNext int

// Alone returns f's answer in a fresh process state: nothing f does, to its
// arguments or to package variables, is visible afterwards.
func Alone(f func() string) string {
	if AloneFile != "" {
		var done []string
		json.Unmarshal([]byte(os.Getenv("ND_ALONE_DONE")), &done)
		if aloneNext < len(done) {
			aloneNext++
			return done[aloneNext-1]
		}
		s := f()
		Settle()
		if err := os.WriteFile(AloneFile, []byte("="+s), 0o600); err != nil {
			panic(err)
		}
		os.Exit(0)
	}
	dir, err := os.MkdirTemp("", "ndalone")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	b, _ := json.Marshal(map[string]any{"harness": Harness, "inputs": In, "tier": TierV})
	if err := os.WriteFile(dir+"/in.json", b, 0o600); err != nil {
		panic(err)
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(exe, dir+"/in.json")
	was, _ := json.Marshal(aloneDone)
	cmd.Env = append(os.Environ(), "ND_ALONE="+dir+"/out", "ND_ALONE_DONE="+string(was))
	msg, _ := cmd.CombinedOutput()
	out, err := os.ReadFile(dir + "/out")
	if err != nil {
		panic("Alone: " + string(msg))
	}
	aloneDone = append(aloneDone, string(out[1:]))
	return string(out[1:])
}

// RSAKey is the i-th fixed RSA key pair.
func RSAKey(i int) *rsa.PrivateKey {
	if k := keys[i]; k != nil {
		return k
	}
	b, err := keyFiles.ReadFile(fmt.Sprintf("keys/k%d.pem", i))
	if err != nil {
		panic(err)
	}
	blk, _ := pem.Decode(b)
	k, err := x509.ParsePKCS1PrivateKey(blk.Bytes)
	if err != nil {
		panic(err)
	}
	keys[i] = k
	return k
}

// And, Or, Not, Implies and Iff are plain connectives that the engine turns
// into one term, instead of forking as && and || do.
func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

func Not(b bool) bool        { return !b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// PEM is a PEM block of the type holding a DER key: 0 the PKIX form of public
// RSA key i, 1 the PKCS#1 form of private key i, else keys/d<kind>.der.
func PEM(kind, i int, typ string) string {
	var b []byte
	var err error
	switch kind {
	case 0:
		b, err = x509.MarshalPKIXPublicKey(&RSAKey(i).PublicKey)
	case 1:
		b = x509.MarshalPKCS1PrivateKey(RSAKey(i))
	default:
		b, err = keyFiles.ReadFile(fmt.Sprintf("keys/d%d.der", kind))
	}
	if err != nil {
		panic(err)
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: b}))
}

var files []string

// File is the path of a file with the content, or of no file.
func File(content string, exists bool) string {
	d, err := os.MkdirTemp("", "ndfile")
	if err != nil {
		panic(err)
	}
	files = append(files, d)
	if exists {
		if err := os.WriteFile(d+"/f", []byte(content), 0o600); err != nil {
			panic(err)
		}
	}
	return d + "/f"
}

// Open adds to the maps, under every key that is not known or present, a list
// of one arbitrary string.
func Open(n string, known []string, maps ...map[string][]string) {
	pre := name(n) + ":"
	skip := map[string]bool{}
	for _, k := range known {
		skip[k] = true
	}
	for in := range In {
		k, ok := strings.CutPrefix(in, pre)
		if !ok || skip[k] {
			continue
		}
		for _, m := range maps {
			if _, ok := m[k]; !ok {
				m[k] = []string{getS(in)}
			}
		}
	}
}

var (
	racing bool // the threads of Race run
	usedBy [2]map[string]int
)

// Thr makes a thread: what it runs, and its own objects.
type Thr func() (run func(), own any)

// Race runs the threads that mk makes, without synchronisation between them:
// they must not race for memory. Replayed natively, they run one after the
// other, unless the race detector is on.
func Race(mk func() (Thr, Thr)) {
	n, on := raceErrors()
	rounds := 1
	if on {
		rounds = 40
	}
	used := map[string]int{}
	for k, v := range Used {
		used[k] = v
	}
	for i := 0; i < rounds; i++ {
		Used = map[string]int{}
		for k, v := range used {
			Used[k] = v
		}
		a, b := mk()
		usedBy = [2]map[string]int{{}, {}}
		f, _ := a()
		if !on {
			racing = true
			thread1(f)
			// the model may not need the second thread
			was := len(Missing)
			func() {
				defer func() {
					if e := recover(); e != nil && len(Missing) == was {
						panic(e)
					}
				}()
				racing = false
				g, _ := b()
				racing = true
				if len(Missing) == was {
					thread2(g)
				}
			}()
			racing = false
			Missing = Missing[:was]
			return
		}
		g, _ := b()
		racing = true
		ts := []func(){func() { thread1(f) }, func() { thread2(g) }}
		if i%2 == 1 {
			ts[0], ts[1] = ts[1], ts[0]
		}
		var wg sync.WaitGroup
		bad := make([]any, 2)
		for j, t := range ts {
			wg.Add(1)
			go func(j int, t func()) {
				defer wg.Done()
				defer func() { bad[j] = recover() }()
				t()
			}(j, t)
		}
		wg.Wait()
		racing = false
		for _, e := range bad {
			if e != nil {
				panic(e)
			}
		}
	}
	m, _ := raceErrors()
	Assert(m == n, "no data race")
}

//go:noinline
func thread1(f func()) { f() }

//go:noinline
func thread2(f func()) { f() }

// Wrote runs f and tells whether it wrote to memory that shared or a package
// reaches, but own does not.
func Wrote(own, shared any, f func()) bool {
	f()
	return get(name("wrote")) == "b:true"
}

// Made tells whether part, a base64 text, occurs in whole. Under the engine
// that does not count other texts that happen to be equal to it.
func Made(whole, part string) bool { return part != "" && strings.Contains(whole, part) }

// Elsewhere runs f as another goroutine, while the caller waits. Executions on
// which f has to wait for a lock that the caller holds are left out.
func Elsewhere(f func()) { f() }

// SystemTime is the system's time, of any value under the engine.
func SystemTime(n string) int64 {
	name(n)
	return time.Now().Unix()
}

// Wait lets two seconds of the system's time pass.
func Wait() { time.Sleep(2 * time.Second) }

// Thread is 1 or 2 in the first or second function of Race, and 0 outside.
func Thread() int {
	b := make([]byte, 1<<16)
	s := string(b[:runtime.Stack(b, false)])
	switch {
	case strings.Contains(s, "nd.thread1("):
		return 1
	case strings.Contains(s, "nd.thread2("):
		return 2
	}
	return 0
}
