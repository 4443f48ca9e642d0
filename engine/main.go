package main

import (
	"bufio"
	"bytes"
	"crypto"
	"crypto/rsa"
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var verifDir = "/verif"

var rsaKeys = map[string]*rsa.PrivateKey{}
var rsaMu sync.Mutex

func realRSASig(id string, digest string) any {
	i := strings.IndexByte(id, '/')
	if i < 0 {
		return nil
	}
	rsaMu.Lock()
	k := rsaKeys[id[:i]]
	if k == nil {
		b, err := os.ReadFile(filepath.Join(verifDir, "harness/nd/keys", id[:i]+".pem"))
		if err != nil {
			rsaMu.Unlock()
			return nil
		}
		blk, _ := pem.Decode(b)
		k, err = x509.ParsePKCS1PrivateKey(blk.Bytes)
		if err != nil {
			rsaMu.Unlock()
			return nil
		}
		rsaKeys[id[:i]] = k
	}
	rsaMu.Unlock()
	var h crypto.Hash
	switch id[i+1:] {
	case "sha1":
		h = crypto.SHA1
	case "sha256":
		h = crypto.SHA256
	case "sha384":
		h = crypto.SHA384
	case "sha512":
		h = crypto.SHA512
	}
	s, err := rsa.SignPKCS1v15(nil, k, h, []byte(digest))
	if err != nil {
		return nil
	}
	return string(s)
}

func goEnv() []string {
	return append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GO111MODULE=on", "GOWORK=off", "GOFLAGS=-mod=mod", "GOSUMDB=off", "CGO_ENABLED=0")
}

type loadResult struct {
	prog  *Program
	props *ssa.Package
}

func load() (*loadResult, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: filepath.Join(verifDir, "harness"), Env: goEnv()}
	pkgs, err := packages.Load(cfg, "./props")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 12 {
			errs = errs[:12]
		}
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, now: time.Now().Unix()}
	for _, pkg := range prog.AllPackages() {
		p.pkgs[pkg.Pkg.Path()] = pkg
	}
	seen := map[*packages.Package]bool{}
	var visit func(q *packages.Package)
	visit = func(q *packages.Package) {
		if seen[q] {
			return
		}
		seen[q] = true
		var ks []string
		for k := range q.Imports {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			visit(q.Imports[k])
		}
		if isTargetPkg(q.PkgPath) || strings.HasPrefix(q.PkgPath, "vharness") || strings.HasPrefix(q.PkgPath, "github.com/golang-jwt/") {
			if s := p.pkgs[q.PkgPath]; s != nil {
				s.Build()
				p.eager = append(p.eager, s)
			}
		}
	}
	for _, q := range pkgs {
		visit(q)
	}
	ep := prog.ImportedPackage("errors")
	p.errorStr = types.NewPointer(ep.Type("errorString").Type())
	return &loadResult{p, sp[0]}, nil
}

// ---------- native replay

type replayReq struct {
	Harness string            `json:"harness"`
	Inputs  map[string]string `json:"inputs"`
	Tier    int               `json:"tier"`
}
type replayFail struct {
	Msg   string `json:"msg"`
	Known string `json:"known"`
}
type replayRes struct {
	Fails   []replayFail `json:"fails"`
	Panic   string       `json:"panic"`
	Assume  bool         `json:"assume"`
	Reach   []string     `json:"reach"`
	Obs     []string     `json:"obs"`
	Missing []string     `json:"missing"`
	Err     string       `json:"err"`
}

var replayBin string

func buildReplay() error {
	cmd := exec.Command("go", "build", "-o", replayBin, "./cmd/replay")
	cmd.Dir = filepath.Join(verifDir, "harness")
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	return nil
}

func runReplay(reqs []replayReq) []replayRes { return runReplayBin(replayBin, reqs) }

var raceBuild struct {
	sync.Once
	err error
}

// runRace replays a data race with the race detector, several times.
func runRace(q replayReq) (r replayRes) {
	bin := replayBin + "-race"
	raceBuild.Do(func() {
		cmd := exec.Command("go", "build", "-race", "-o", bin, "./cmd/replay")
		cmd.Dir = filepath.Join(verifDir, "harness")
		cmd.Env = append(goEnv(), "CGO_ENABLED=1", "GORACE=exitcode=0")
		if out, err := cmd.CombinedOutput(); err != nil {
			raceBuild.err = fmt.Errorf("%v: %s", err, clip(string(out), 300))
		}
	})
	if raceBuild.err != nil {
		return replayRes{Err: "race build: " + raceBuild.err.Error()}
	}
	for i := 0; i < 6; i++ {
		r = runReplayBin(bin, []replayReq{q})[0]
		if len(r.Fails) > 0 || r.Panic != "" || r.Err != "" {
			break
		}
	}
	return r
}

func runReplayBin(bin string, reqs []replayReq, env ...string) []replayRes {
	res := make([]replayRes, len(reqs))
	if len(reqs) == 0 {
		return res
	}
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	for _, r := range reqs {
		enc.Encode(r)
	}
	cmd := exec.Command("timeout", "60", bin)
	cmd.Stdin = &in
	cmd.Dir = os.TempDir()
	cmd.Env = append(os.Environ(), env...)
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	n := 0
	sc := bufio.NewScanner(bytes.NewReader(out))
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() && n < len(res) {
		line := sc.Bytes()
		if !bytes.HasPrefix(line, []byte("@@")) {
			continue
		}
		if e := json.Unmarshal(line[2:], &res[n]); e != nil {
			res[n].Err = e.Error()
		}
		n++
	}
	for ; n < len(res); n++ {
		res[n].Err = fmt.Sprintf("replay process ended: %v %s", err, clip(errb.String(), 300))
	}
	return res
}

// ---------- known findings

type knownFinding struct{ prop, id, text string }

// known_findings.txt lines: "known: property=C12 id=<id> text" and "fixed: property=..".
func knownFindings() map[string]knownFinding {
	out := map[string]knownFinding{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) < 3 {
			continue
		}
		k := knownFinding{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "id="), f[2]}
		out[k.id] = k
	}
	return out
}

// ---------- main

func showInputs(in map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range in {
		if strings.HasPrefix(v, "s:") {
			b, _ := hex.DecodeString(v[2:])
			out[k] = strconv.Quote(string(b))
		} else {
			out[k] = v[2:]
		}
	}
	return out
}

func main() {
	prop := flag.String("property", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	only := flag.String("only", "", "run only harness functions containing this text")
	verbose := flag.Bool("v", false, "verbose")
	workers := flag.Int("workers", 0, "workers")
	maxPaths := flag.Int("maxpaths", 0, "stop after this many paths per harness")
	secs := flag.Int("seconds", 0, "time budget")
	dir := flag.String("verif", "/verif", "verif directory")
	rb := flag.String("replaybin", "", "replay binary")
	first := flag.Bool("first", false, "stop at the first violation")
	listf := flag.Bool("list", false, "list harness functions")
	flag.Parse()
	verifDir = *dir
	start := time.Now()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	replayBin = *rb
	if replayBin == "" {
		d, err := os.MkdirTemp("", "vreplay")
		if err != nil {
			fmt.Println("error:", err)
			os.Exit(2)
		}
		defer os.RemoveAll(d)
		replayBin = filepath.Join(d, "replay")
	}
	var berr error
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		if *rb == "" {
			berr = buildReplay()
		}
	}()
	lr, err := load()
	wg.Wait()
	code := 2
	if err != nil || berr != nil {
		fmt.Println("error: the tree does not load:", err, berr)
		os.RemoveAll(filepath.Dir(replayBin))
		os.Exit(2)
	}
	if *tier == "thorough" {
		lr.prog.tier = 1
	}
	var fns []*ssa.Function
	for name, mem := range lr.props.Members {
		if f, ok := mem.(*ssa.Function); ok && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 && len(name) > 4 && name[0] == 'C' && name[3] == '_' {
			if *prop != "" && !strings.Contains(*prop, name[:3]) {
				continue
			}
			if *only != "" && !strings.Contains(name, *only) {
				continue
			}
			fns = append(fns, f)
		}
	}
	// several properties can be named, to be checked in that order
	sort.Slice(fns, func(i, j int) bool {
		a, b := fns[i].Name(), fns[j].Name()
		if x, y := strings.Index(*prop, a[:3]), strings.Index(*prop, b[:3]); x != y {
			return x < y
		}
		return a < b
	})
	if *listf {
		for _, f := range fns {
			fmt.Println(f.Name())
		}
		os.Exit(0)
	}
	c := &checker{prop: *prop, tier: *tier, seed: seed, lr: lr, verbose: *verbose, start: start, loadT: time.Since(start), known: knownFindings()}
	c.workers = *workers
	if c.workers == 0 {
		c.workers = runtime.NumCPU()
		if c.workers > 8 {
			c.workers = 8
		}
	}
	c.maxPaths, c.first, c.multi = *maxPaths, *first, len(*prop) != 3
	c.seconds = *secs
	if c.seconds == 0 {
		c.seconds = 240
		if *tier == "thorough" {
			c.seconds = 720
		}
	}
	code = c.run(fns)
	if *rb == "" {
		os.RemoveAll(filepath.Dir(replayBin))
	}
	os.Exit(code)
}

type checker struct {
	prop, tier string
	first      bool // stop at the first violation
	multi      bool // several properties: no evidence is written
	seed       int
	lr         *loadResult
	verbose    bool
	workers    int
	maxPaths   int
	seconds    int
	start      time.Time
	loadT      time.Duration
	known      map[string]knownFinding

	paths, completed, infeasible, queries, unknown int
	branches, asserts, discharged, steps           int64
	cacheHits                                      int
	solverTime                                     time.Duration
	funcs                                          map[string]bool
	reach                                          map[string]int
	samples                                        []string
	bounds                                         map[string]int
	notes                                          map[string]int
	validated, mismatched, witnesses               int
	violations                                     []string
	knownHit                                       map[string]string
	spurious                                       int
	perHarness                                     []map[string]any
	mismatchNotes                                  []string
}

func (c *checker) run(fns []*ssa.Function) int {
	c.funcs, c.reach, c.bounds, c.notes, c.knownHit = map[string]bool{}, map[string]int{}, map[string]int{}, map[string]int{}, map[string]string{}
	deadline := c.start.Add(time.Duration(c.seconds) * time.Second)
	for i, fn := range fns {
		if c.multi {
			c.prop = fn.Name()[:3]
		}
		if c.first && len(c.violations) > 0 {
			break
		}
		left := time.Until(deadline)
		if left < time.Second {
			c.bounds["time budget: harness "+fn.Name()+" not explored"]++
			continue
		}
		share := left / time.Duration(len(fns)-i)
		if share < 20*time.Second {
			share = min(20*time.Second, left)
		}
		if i < len(fns)-1 && share < left/2 {
			share = left / 2
		}
		c.harness(fn, time.Now().Add(share))
		if len(c.violations) >= 5 {
			break
		}
	}
	c.writeEvidence()
	for _, l := range sortedCounts(c.bounds) {
		fmt.Printf("REDUCED-BOUND property=%s %s\n", c.prop, clip(l, 300))
	}
	if c.verbose {
		for _, l := range sortedCounts(c.notes) {
			fmt.Println("note:", clip(l, 500))
		}
	}
	for _, l := range c.mismatchNotes {
		fmt.Println("ENCODING-MISMATCH", clip(l, 700))
	}
	for _, id := range sortedKeys(c.knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.knownHit[id], c.known[id].text)
	}
	fmt.Printf("%s %s: %d paths (%d completed), %d branch decisions, %d assertions, %d queries, solver %.1fs, %d witnesses replayed (%d agree), load %.1fs, wall %.1fs\n", c.prop, c.tier,
		c.paths, c.completed, c.branches, c.asserts, c.queries, c.solverTime.Seconds(), c.witnesses, c.validated, c.loadT.Seconds(), time.Since(c.start).Seconds())
	if len(c.violations) > 0 {
		for _, v := range c.violations {
			fmt.Println(v)
		}
		return 1
	}
	if c.completed == 0 {
		fmt.Println("error: no path was explored to its end")
		return 2
	}
	return 0
}

func (c *checker) harness(fn *ssa.Function, deadline time.Time) {
	t0 := time.Now()
	opt := options{solverMS: 8000, workers: c.workers, budget: 4000000, deadline: deadline, verbose: c.verbose, maxPaths: c.maxPaths, maxWit: 40}
	ex := newExplorer(c.lr.prog, fn, opt)
	var mu sync.Mutex
	confirmed := 0
	var pending sync.WaitGroup
	ex.onCand = func(cd *Candidate) {
		pending.Add(1)
		defer pending.Done()
		ok := c.confirm(fn.Name(), cd, &mu)
		mu.Lock()
		if ok {
			confirmed++
		}
		stop := confirmed >= 2 || confirmed > 0 && c.first
		mu.Unlock()
		if stop {
			ex.stop()
		}
	}
	ex.run()
	pending.Wait()
	c.paths += ex.paths
	c.completed += ex.completed
	c.infeasible += ex.infeasible
	c.queries += ex.queries
	c.solverTime += ex.solverTime
	c.branches += ex.branches
	c.asserts += ex.asserts
	c.discharged += ex.discharged
	c.steps += ex.steps
	c.cacheHits += ex.cacheHits
	c.unknown += ex.solverUnk
	for f := range ex.funcs {
		c.funcs[f] = true
	}
	for r, n := range ex.reachCount {
		c.reach[fn.Name()+":"+r] += n
	}
	for _, s := range ex.sampleConds {
		if len(c.samples) < 8 {
			c.samples = append(c.samples, fn.Name()+": "+s)
		}
	}
	for k, n := range ex.unsupported {
		c.bounds[fn.Name()+": path outside the encoding: "+k] += n
	}
	for k, n := range ex.internal {
		c.bounds[fn.Name()+": INTERNAL "+k] += n
	}
	for k, n := range ex.reducedN {
		c.bounds[fn.Name()+": "+k] += n
	}
	for k, n := range ex.incomplet {
		c.bounds[fn.Name()+": "+k] += n
	}
	if ex.timedOut {
		c.bounds[fn.Name()+": exploration stopped by the time/path budget with paths left"] += len(ex.stack)
	}
	for k, n := range ex.notes {
		c.notes[fn.Name()+": "+k] += n
	}
	// replay the witnesses of completed paths natively
	var reqs []replayReq
	for _, w := range ex.witnesses {
		reqs = append(reqs, replayReq{w.Harness, w.Inputs, c.lr.prog.tier})
	}
	agree := 0
	for i, r := range runReplay(reqs) {
		w := ex.witnesses[i]
		c.witnesses++
		switch {
		case r.Err != "" || r.Assume || len(r.Missing) > 0:
			c.mismatched++
			c.mismatchNotes = append(c.mismatchNotes, fmt.Sprintf("%s: witness replay: err=%q assume=%v missing=%v inputs=%v", w.Harness, r.Err, r.Assume, r.Missing, showInputs(w.Inputs)))
		case r.Panic != "" || c.hasNew(r.Fails):
			// a concrete execution of the real code violates the property
			r = runReplay(reqs[i : i+1])[0]
			if r.Panic == "" && !c.hasNew(r.Fails) {
				c.mismatched++
				c.mismatchNotes = append(c.mismatchNotes, fmt.Sprintf("%s: a failure among many replays does not occur alone, inputs=%v", w.Harness, showInputs(w.Inputs)))
				continue
			}
			c.report(w.Harness, w.Inputs, r, "found by replaying a witness")
		case strings.Join(r.Reach, ",") != strings.Join(w.Reach, ",") || !obsEq(r.Obs, w.Obs):
			c.mismatched++
			c.mismatchNotes = append(c.mismatchNotes, fmt.Sprintf("%s: reach native=%v model=%v obs native=%v model=%v inputs=%v", w.Harness, r.Reach, w.Reach, r.Obs, w.Obs, showInputs(w.Inputs)))
		default:
			c.validated++
			agree++
		}
	}
	c.perHarness = append(c.perHarness, map[string]any{"harness": fn.Name(), "paths": ex.paths, "completed": ex.completed, "cut_by_assumption": ex.infeasible, "queries": ex.queries, "solver_s": ex.solverTime.Seconds(),
		"wall_s": time.Since(t0).Seconds(), "witnesses": len(reqs), "witnesses_agree": agree, "reached": ex.reachCount, "assertions": ex.asserts})
	if c.verbose {
		fmt.Printf("%s: paths=%d completed=%d infeasible=%d viol=%d queries=%d cachehits=%d solver=%.1fs wall=%.1fs wit=%d/%d steps=%d\n", fn.Name(), ex.paths, ex.completed, ex.infeasible, ex.violEnd, ex.queries, ex.cacheHits, ex.solverTime.Seconds(), time.Since(t0).Seconds(), agree, len(reqs), ex.steps)
		for _, r := range sortedCounts(ex.reachCount) {
			fmt.Println("   reach", r)
		}
	}
}

func obsEq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !strings.HasSuffix(b[i], "=?") {
			return false
		}
	}
	return true
}

func (c *checker) hasNew(fs []replayFail) bool {
	for _, f := range fs {
		if k, ok := c.known[f.Known]; f.Known == "" || !ok || k.prop != c.prop {
			return true
		}
	}
	return false
}

func (c *checker) report(h string, in map[string]string, r replayRes, how string) {
	dir := filepath.Join(verifDir, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	n := len(c.violations) + 1
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.prop, n))
	b, _ := json.MarshalIndent(map[string]any{"harness": h, "inputs": in, "shown": showInputs(in), "fails": r.Fails, "panic": r.Panic, "how": how, "tier": c.lr.prog.tier}, "", " ")
	os.WriteFile(path, b, 0o644)
	msg := r.Panic
	if r.Err != "" {
		msg = how + ": " + r.Err
	}
	if len(r.Fails) > 0 {
		msg = r.Fails[0].Msg
	}
	c.violations = append(c.violations, fmt.Sprintf("counterexample in %s: %s\nVIOLATION property=%s replay=%s", h, clip(msg, 300), c.prop, path))
	if c.verbose {
		fmt.Printf("   inputs %v\n", showInputs(in))
	}
}

// confirm replays a candidate against the real code.
func (c *checker) confirm(h string, cd *Candidate, mu *sync.Mutex) bool {
	q := replayReq{h, cd.Inputs, c.lr.prog.tier}
	var r replayRes
	if strings.HasPrefix(cd.Msg, "no data race") {
		r = runRace(q)
	} else {
		r = runReplay([]replayReq{q})[0]
		// goroutines and maps: other orders too
		for i := 1; i < 20 && cd.Any && r.Err == "" && r.Panic == "" && !c.hasNew(r.Fails); i++ {
			env := []string{"GOMAXPROCS=1", "GOMAXPROCS=8", "ND_YIELD=1ms", "GOMAXPROCS=1"}[i%4]
			if cd.Late && i%4 == 3 {
				env = "ND_LATE=6s"
			}
			if cd.Late && i > 8 {
				break
			}
			r = runReplayBin(replayBin, []replayReq{q}, env)[0]
		}
	}
	mu.Lock()
	defer mu.Unlock()
	if r.Err == "" && r.Assume {
		// an assumption about inputs the model lacks, as they come after the failure
		for _, f := range r.Fails {
			if f.Msg == cd.Msg && c.hasNew([]replayFail{f}) {
				r.Assume = false
			}
		}
	}
	if r.Err == "" && !r.Assume {
		if r.Panic != "" || c.hasNew(r.Fails) {
			if len(c.violations) < 5 {
				c.report(h, cd.Inputs, r, "solver counterexample, confirmed by replay")
			}
			return true
		}
		for _, f := range r.Fails {
			if f.Known != "" {
				c.knownHit[f.Known] = c.prop
				return false
			}
		}
	}
	if r.Err != "" && strings.Contains(r.Err, "replay process ended") && (strings.Contains(r.Err, "fatal error") || cd.Gor && strings.Contains(r.Err, "panic:")) {
		c.report(h, cd.Inputs, r, "the process died")
		return true
	}
	c.spurious++
	c.bounds[fmt.Sprintf("%s: solver model not confirmed by replay (%s, exact=%v)", h, clip(cd.Msg, 120), cd.Exact)]++
	if c.verbose {
		fmt.Printf("UNCONFIRMED %s %q at %s exact=%v\n   inputs %v\n   replay %+v\n", h, cd.Msg, cd.Pos, cd.Exact, showInputs(cd.Inputs), r)
	}
	return false
}

func (c *checker) writeEvidence() {
	if c.multi {
		return
	}
	fs := sortedKeys(c.funcs)
	cov := map[string]any{
		"states": c.paths, "transitions": c.branches, "traces_validated_against_impl": c.validated,
		"samples": c.samples, "functions_encoded": fs, "functions_encoded_count": len(fs),
		"paths_completed": c.completed, "paths_cut_by_assumption": c.infeasible,
		"queries_discharged": c.queries, "query_cache_hits": c.cacheHits, "solver_unknown": c.unknown, "solver_s": c.solverTime.Seconds(), "solver": "z3-new (SMT-LIB2 over pipe)",
		"assertions_checked": c.asserts, "assertions_discharged": c.discharged, "ssa_instructions_executed": c.steps,
		"witnesses_replayed": c.witnesses, "witness_mismatches": c.mismatched, "unconfirmed_models": c.spurious,
		"reached": c.reach, "per_harness": c.perHarness, "reduced_bounds": sortedCounts(c.bounds),
		"bounds":  boundsText(c.prop, c.tier),
		"meaning": "states = symbolic paths of the harness over the real code, transitions = symbolic branch decisions made on them, traces_validated_against_impl = solver-produced witness inputs whose native execution matched the encoding's reach labels and observed outputs",
	}
	ev := map[string]any{"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking", "coverage": cov, "assumptions": assumptions, "wall_s": time.Since(c.start).Seconds(), "violations": len(c.violations)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", c.prop+".json"), b, 0o644)
}

var assumptions = []string{
	"string inputs are ASCII and of a stated character class, except where the bounds say that other bytes occur",
	"integers that stand for times, lifetimes and ids lie in the ranges the harness states (at most 2^53)",
	"each form parameter occurs at most once, except where the bounds say otherwise (C42: any number of times)",
	"the code's maps are iterated in insertion order or, all of a path's, backwards",
	"goroutines of the code switch only where they block or end; a new one runs at once, or when its creator waits; timers fire before or after what else can run",
	"hash, HMAC and RSA signatures are ideal: injective, and unforgeable without the key",
	"url/html/JSON/base64/strconv.Quote encoders behave by their documented contracts (injective, inverted by their decoders); dedicated byte-level harnesses execute the real encoders",
	"DataInterface answers are arbitrary values of its Go types with error types in {0,1,2}",
}

func boundsText(prop, tier string) []string {
	b, err := os.ReadFile(filepath.Join(verifDir, "bounds.json"))
	if err != nil {
		return nil
	}
	var m map[string][]string
	json.Unmarshal(b, &m)
	return append(append([]string(nil), m["*"]...), m[prop]...)
}
