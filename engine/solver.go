package main

import (
	"bufio"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// slowMS: queries taking longer are printed (VERIF_SLOW, for development)
var slowMS, _ = strconv.Atoi(os.Getenv("VERIF_SLOW"))

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return []string{"unsat", "sat", "unknown"}[r] }

// Solver drives one z3 process over a pipe.
type Solver struct {
	tb      *Table
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	emitted int // number of tb.newDecls emitted
	queries int
	time    time.Duration
	unknown int
	timeout int // ms
	dead    bool
	trace   io.Writer
	big     string
}

func newSolver(tb *Table, timeoutMS int) *Solver {
	s := &Solver{tb: tb, timeout: timeoutMS}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.emitted = 0
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.timeout)
	fmt.Fprint(s.in, "(declare-fun |$rank| (String) Int)\n(define-fun |$lt| ((a String) (b String)) Bool (< (|$rank| a) (|$rank| b)))\n")
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.close()
	s.start()
}

// check decides the conjunction; wanted terms are evaluated when sat.
func (s *Solver) check(as []*Term, want []*Term) (Result, []string) {
	t0 := time.Now()
	defer func() { s.time += time.Since(t0) }()
	s.queries++
	if s.queries%5000 == 0 {
		s.restart() // keep the process small
	}
	for try := 0; try < 2; try++ {
		r, v, err := s.check1(as, want)
		if err == nil {
			if r == Unknown {
				s.unknown++
				s.restart()
			}
			return r, v
		}
		s.restart()
	}
	s.unknown++
	return Unknown, nil
}

func (s *Solver) check1(as []*Term, want []*Term) (Result, []string, error) {
	var sb strings.Builder
	sb.WriteString("(push)\n")
	var body strings.Builder
	for _, a := range as {
		body.WriteString("(assert " + s.tb.SMT(a) + ")\n")
	}
	if txt := body.String(); len(want) == 0 && strings.Contains(txt, "(str.< ") {
		// Decide with string order abstracted to an injective rank (a
		// relaxation: unsat answers carry over); models use the real order.
		var ax strings.Builder
		args := ltArgs(as)
		for i, a := range args {
			for j := 0; j < i; j++ {
				b := args[j]
				x, y := s.tb.SMT(a), s.tb.SMT(b)
				if a.op == "str" && b.op == "str" {
					op := "<"
					if a.s > b.s {
						op = ">"
					}
					fmt.Fprintf(&ax, "(assert (%s (|$rank| %s) (|$rank| %s)))\n", op, x, y)
					continue
				}
				fmt.Fprintf(&ax, "(assert (= (= %s %s) (= (|$rank| %s) (|$rank| %s))))\n", x, y, x, y)
			}
		}
		body.Reset()
		body.WriteString(ax.String())
		body.WriteString(strings.ReplaceAll(txt, "(str.< ", "(|$lt| "))
	}
	var ws []string
	for _, w := range want {
		ws = append(ws, s.tb.SMT(w))
	}
	for ; s.emitted < len(s.tb.newDecls); s.emitted++ {
		sb.WriteString(s.tb.newDecls[s.emitted])
		sb.WriteByte('\n')
	}
	sb.WriteString(body.String())
	sb.WriteString("(check-sat)\n")
	if s.trace != nil {
		io.WriteString(s.trace, sb.String())
	}
	timer := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond*3+2*time.Second, func() { s.cmd.Process.Kill() })
	defer timer.Stop()
	t1 := time.Now()
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		return Unknown, nil, err
	}
	line, err := s.readLine()
	if err != nil {
		return Unknown, nil, err
	}
	if d := time.Since(t1); slowMS > 0 && d > time.Duration(slowMS)*time.Millisecond {
		fmt.Fprintf(os.Stderr, "SLOW %.1fs %s\n%s\n", d.Seconds(), line, sb.String())
	}
	var r Result
	switch line {
	case "sat":
		r = Sat
	case "unsat":
		r = Unsat
	case "unknown", "timeout":
		r = Unknown
	default:
		panic("z3: " + line + "\n" + sb.String())
	}
	var vals []string
	if r == Sat && len(ws) > 0 {
		io.WriteString(s.in, "(get-value ("+strings.Join(ws, " ")+"))\n")
		txt, err := s.readSexp()
		if err != nil {
			return Unknown, nil, err
		}
		vals = parseValues(txt, len(ws))
		if vals == nil {
			panic("z3 values: " + txt)
		}
	}
	if _, err := io.WriteString(s.in, "(pop)\n"); err != nil {
		return r, vals, nil
	}
	return r, vals, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth, inStr, inBar, started := 0, false, false, false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		switch {
		case inStr:
			if b == '"' {
				inStr = false
			}
		case inBar:
			if b == '|' {
				inBar = false
			}
		case b == '"':
			inStr = true
		case b == '|':
			inBar = true
		case b == '(':
			depth++
			started = true
		case b == ')':
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

// parseValues extracts the second component of each ((term value) ...) pair as text.
func parseValues(txt string, n int) []string {
	pos := 0
	skip := func() {
		for pos < len(txt) && (txt[pos] == ' ' || txt[pos] == '\n' || txt[pos] == '\t' || txt[pos] == '\r') {
			pos++
		}
	}
	sexp := func() string {
		skip()
		st := pos
		if pos >= len(txt) {
			return ""
		}
		if txt[pos] != '(' {
			if txt[pos] == '"' {
				pos++
				for pos < len(txt) {
					if txt[pos] == '"' {
						if pos+1 < len(txt) && txt[pos+1] == '"' {
							pos += 2
							continue
						}
						break
					}
					pos++
				}
				pos++
				return txt[st:pos]
			}
			if txt[pos] == '|' {
				pos++
				for txt[pos] != '|' {
					pos++
				}
				pos++
				return txt[st:pos]
			}
			for pos < len(txt) && !strings.ContainsRune(" \n\t()", rune(txt[pos])) {
				pos++
			}
			return txt[st:pos]
		}
		d := 0
		inS, inB := false, false
		for pos < len(txt) {
			c := txt[pos]
			pos++
			if inS {
				if c == '"' {
					inS = false
				}
				continue
			}
			if inB {
				if c == '|' {
					inB = false
				}
				continue
			}
			switch c {
			case '"':
				inS = true
			case '|':
				inB = true
			case '(':
				d++
			case ')':
				d--
				if d == 0 {
					return txt[st:pos]
				}
			}
		}
		return txt[st:pos]
	}
	skip()
	if pos >= len(txt) || txt[pos] != '(' {
		return nil
	}
	pos++
	var out []string
	for i := 0; i < n; i++ {
		skip()
		if pos >= len(txt) || txt[pos] != '(' {
			return nil
		}
		pos++
		sexp()
		out = append(out, sexp())
		skip()
		pos++ // ')'
	}
	return out
}

// parseVal turns a solver value into bool / int64 / string.
func parseVal(v string, sort Sort) (any, bool) {
	switch sort {
	case SBool:
		return v == "true", true
	case SInt:
		neg := false
		v = strings.TrimSpace(v)
		if strings.HasPrefix(v, "(-") {
			neg = true
			v = strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(v, "(-"), ")"))
		}
		if neg {
			v = "-" + v
		}
		i, err := strconv.ParseInt(v, 10, 64)
		return i, err == nil
	case SStr:
		return unSMTStr(v)
	}
	if strings.HasPrefix(v, "#x") {
		u, err := strconv.ParseUint(v[2:], 16, 64)
		return int64(u), err == nil
	}
	if strings.HasPrefix(v, "#b") {
		u, err := strconv.ParseUint(v[2:], 2, 64)
		return int64(u), err == nil
	}
	return nil, false
}

func unSMTStr(v string) (string, bool) {
	if len(v) < 2 || v[0] != '"' {
		return "", false
	}
	v = strings.ReplaceAll(v[1:len(v)-1], `""`, `"`)
	var sb strings.Builder
	ok := true
	for i := 0; i < len(v); i++ {
		if v[i] == '\\' && i+1 < len(v) && v[i+1] == 'u' {
			if i+2 < len(v) && v[i+2] == '{' {
				j := strings.IndexByte(v[i:], '}')
				if j > 0 {
					n, err := strconv.ParseUint(v[i+3:i+j], 16, 32)
					if err == nil {
						if n > 255 {
							ok = false
						}
						sb.WriteByte(byte(n))
						i += j
						continue
					}
				}
			} else if i+5 < len(v) {
				n, err := strconv.ParseUint(v[i+2:i+6], 16, 32)
				if err == nil {
					if n > 255 {
						ok = false
					}
					sb.WriteByte(byte(n))
					i += 5
					continue
				}
			}
		}
		sb.WriteByte(v[i])
	}
	return sb.String(), ok
}

func realHash(op, s string) string {
	switch op {
	case "sha1":
		h := sha1.Sum([]byte(s))
		return string(h[:])
	case "sha256":
		h := sha256.Sum256([]byte(s))
		return string(h[:])
	case "sha384":
		h := sha512.Sum384([]byte(s))
		return string(h[:])
	case "sha512":
		h := sha512.Sum512([]byte(s))
		return string(h[:])
	}
	panic("realHash " + op)
}

// ---- symbol sets (for slicing)

type symSet []int // sorted term ids of vars and UF head ids

func (tb *Table) syms(t *Term) symSet {
	if t.symsDone {
		return t.symset
	}
	m := map[int]bool{}
	var add func(x *Term)
	add = func(x *Term) {
		for _, i := range tb.syms(x) {
			m[i] = true
		}
	}
	if t.op == "var" {
		m[t.id] = true
	}
	for _, a := range t.args {
		add(a)
	}
	for _, p := range t.lin {
		add(p.t)
	}
	out := make(symSet, 0, len(m))
	for i := range m {
		out = append(out, i)
	}
	sort.Ints(out)
	t.symset, t.symsDone = out, true
	return out
}

func (a symSet) intersects(b symSet) bool {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i] == b[j] {
			return true
		}
		if a[i] < b[j] {
			i++
		} else {
			j++
		}
	}
	return false
}

func (a symSet) union(b symSet) symSet {
	out := make(symSet, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i] < b[j]:
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

// ltArgs lists the operands of the str.< terms in as.
func ltArgs(as []*Term) []*Term {
	seen := map[*Term]bool{}
	in := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
			if t.op == "str.<" && !in[a] {
				in[a] = true
				out = append(out, a)
			}
		}
		for _, l := range t.lin {
			walk(l.t)
		}
	}
	for _, a := range as {
		walk(a)
	}
	return out
}
