package smt

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// printer -------------------------------------------------------------------

type printer struct {
	sb   *strings.Builder
	done map[*T]string
	decl map[string]bool
	ndef int
}

func sortName(w int) string {
	switch {
	case w == 0:
		return "Bool"
	case w < 0:
		return "S"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (p *printer) ref(t *T) string {
	if s, ok := p.done[t]; ok {
		return s
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, p.ref(a))
	}
	var e string
	bin := func(op string) string { return "(" + op + " " + strings.Join(as, " ") + ")" }
	switch t.Op {
	case OConst:
		if t.W == 0 {
			e = "false"
			if t.Val == 1 {
				e = "true"
			}
		} else {
			e = fmt.Sprintf("(_ bv%d %d)", t.Val, t.W)
		}
		p.done[t] = e
		return e
	case OApp:
		nm := "|" + t.Name + "|"
		if !p.decl[t.Name] {
			p.decl[t.Name] = true
			ai := apps[t.Name]
			var ss []string
			for _, w := range ai.argw {
				ss = append(ss, sortName(w))
			}
			fmt.Fprintf(p.sb, "(declare-fun %s (%s) %s)\n", nm, strings.Join(ss, " "), sortName(t.W))
		}
		if len(as) == 0 {
			e = nm
		} else {
			e = bin(nm)
		}
		if t.declRange && t.W > 0 {
			s := p.def(t, e)
			p.done[t] = s
			if t.W == 64 {
				fmt.Fprintf(p.sb, "(assert (and (bvsle (_ bv%d 64) %s) (bvsle %s (_ bv%d 64))))\n", uint64(t.Lo), s, s, uint64(t.Hi))
			} else {
				fmt.Fprintf(p.sb, "(assert (and (bvule (_ bv%d %d) %s) (bvule %s (_ bv%d %d))))\n", uint64(t.Lo), t.W, s, s, uint64(t.Hi), t.W)
			}
			return s
		}
	case ONot:
		e = bin("not")
	case OAnd:
		e = bin("and")
	case OOr:
		e = bin("or")
	case OEq:
		e = bin("=")
	case OSlt:
		// narrow when both nonneg and bounded
		e = bin("bvslt")
		a, b := t.Args[0], t.Args[1]
		if a.Lo >= 0 && b.Lo >= 0 {
			h := a.Hi
			if b.Hi > h {
				h = b.Hi
			}
			n := bitsFor(h)
			if n < 60 {
				e = fmt.Sprintf("(bvult ((_ extract %d 0) %s) ((_ extract %d 0) %s))", n-1, as[0], n-1, as[1])
			}
		}
	case OIte:
		e = bin("ite")
	case OLin:
		var parts []string
		if t.Val != 0 {
			parts = append(parts, fmt.Sprintf("(_ bv%d %d)", t.Val, t.W))
		}
		for i := range t.Args {
			k := t.Coefs[i]
			switch {
			case k == 1:
				parts = append(parts, as[i])
			case k == mask(t.W):
				parts = append(parts, "(bvneg "+as[i]+")")
			default:
				parts = append(parts, fmt.Sprintf("(bvmul (_ bv%d %d) %s)", k, t.W, as[i]))
			}
		}
		if len(parts) == 1 {
			e = parts[0]
		} else {
			e = "(bvadd " + strings.Join(parts, " ") + ")"
		}
	case OMul:
		e = bin("bvmul")
	case OUDiv, OURem:
		op := "bvudiv"
		if t.Op == OURem {
			op = "bvurem"
		}
		e = bin(op)
		a, b := t.Args[0], t.Args[1]
		if a.Lo >= 0 && b.Lo > 0 {
			h := a.Hi
			if b.Hi > h && b.Op == OConst {
				h = b.Hi
			}
			if b.Op != OConst && b.Hi > h {
				h = b.Hi
			}
			n := bitsFor(h)
			if n < t.W {
				e = fmt.Sprintf("((_ zero_extend %d) (%s ((_ extract %d 0) %s) ((_ extract %d 0) %s)))", t.W-n, op, n-1, as[0], n-1, as[1])
			}
		}
	case OSDiv:
		e = bin("bvsdiv")
	case OSRem:
		e = bin("bvsrem")
	case OBAnd:
		e = bin("bvand")
	case OBOr:
		e = bin("bvor")
	case OBXor:
		e = bin("bvxor")
	case OShl:
		e = bin("bvshl")
	case OLShr:
		e = bin("bvlshr")
	case OAShr:
		e = bin("bvashr")
	case OConcat:
		e = as[0]
		for _, a := range as[1:] {
			e = "(concat " + e + " " + a + ")"
		}
	case OExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.Val>>8, t.Val&0xff, as[0])
	case OZExt:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.W-t.Args[0].W, as[0])
	case OSExt:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.Args[0].W, as[0])
	}
	s := p.def(t, e)
	p.done[t] = s
	return s
}

func bitsFor(h int64) int {
	n := 1
	for n < 63 && h>>uint(n) != 0 {
		n++
	}
	return n
}

func (p *printer) def(t *T, e string) string {
	if len(e) < 24 {
		return e
	}
	p.ndef++
	s := fmt.Sprintf("t%d", p.ndef)
	fmt.Fprintf(p.sb, "(define-fun %s () %s %s)\n", s, sortName(t.W), e)
	return s
}

// Query -----------------------------------------------------------------------

// Script renders "asserts" as an SMT-LIB script without check-sat; names maps requested terms to their printed reference.
func Script(asserts []*T, want []*T) (script string, refs []string) {
	p := &printer{sb: &strings.Builder{}, done: map[*T]string{}, decl: map[string]bool{}}
	p.sb.WriteString("(declare-sort S 0)\n")
	for _, a := range asserts {
		r := p.ref(a)
		fmt.Fprintf(p.sb, "(assert %s)\n", r)
	}
	for _, w := range want {
		refs = append(refs, p.ref(w))
	}
	return p.sb.String(), refs
}

type atomset map[*T]struct{}

var (
	atomMemo = map[*T][]*T{}
	atomMu   sync.Mutex
)

// atoms returns application subterms (memoised).
func atoms(t *T) []*T {
	if r, ok := atomMemo[t]; ok {
		return r
	}
	m := map[*T]struct{}{}
	for _, a := range t.Args {
		for _, x := range atoms(a) {
			m[x] = struct{}{}
		}
	}
	if t.Op == OApp {
		m[t] = struct{}{}
	}
	r := make([]*T, 0, len(m))
	for x := range m {
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	atomMemo[t] = r
	return r
}

// Relevant filters facts by shared application terms with the seeds.
func Relevant(facts []*T, seeds []*T) []*T {
	atomMu.Lock()
	defer atomMu.Unlock()
	in := atomset{}
	var work []*T
	add := func(t *T) {
		for _, a := range atoms(t) {
			if _, ok := in[a]; !ok {
				in[a] = struct{}{}
				work = append(work, a)
			}
		}
	}
	idx := map[*T][]int{}
	for i, f := range facts {
		for _, a := range atoms(f) {
			idx[a] = append(idx[a], i)
		}
	}
	taken := make([]bool, len(facts))
	for _, s := range seeds {
		add(s)
	}
	for len(work) > 0 {
		a := work[len(work)-1]
		work = work[:len(work)-1]
		for _, i := range idx[a] {
			if !taken[i] {
				taken[i] = true
				add(facts[i])
			}
		}
	}
	var out []*T
	for i, f := range facts {
		if taken[i] || f == False {
			out = append(out, f)
		}
	}
	return out
}

// Solver processes ---------------------------------------------------------------

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

type Backend struct {
	Name string
	Args []string
	// timeout option template
	Timeout func(ms int) string
	mu      sync.Mutex
	free    []*proc
	Calls   int64
	Nanos   int64
}

var Backends = []*Backend{
	{Name: "z3-new", Args: []string{"z3-new", "-in"}, Timeout: func(ms int) string { return fmt.Sprintf("(set-option :timeout %d)\n", ms) }},
	{Name: "z3", Args: []string{"z3", "-in"}, Timeout: func(ms int) string { return fmt.Sprintf("(set-option :timeout %d)\n", ms) }},
	{Name: "cvc5", Args: []string{"cvc5", "--incremental", "--produce-models"}, Timeout: func(ms int) string { return fmt.Sprintf("(set-option :tlimit-per %d)\n", ms) }},
}

func (b *Backend) get() (*proc, error) {
	b.mu.Lock()
	if n := len(b.free); n > 0 {
		p := b.free[n-1]
		b.free = b.free[:n-1]
		b.mu.Unlock()
		return p, nil
	}
	b.mu.Unlock()
	c := exec.Command(b.Args[0], b.Args[1:]...)
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &proc{c, in, bufio.NewReaderSize(out, 1<<20)}, nil
}
func (b *Backend) put(p *proc) {
	b.mu.Lock()
	b.free = append(b.free, p)
	b.mu.Unlock()
}
func (p *proc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	go p.cmd.Wait()
}

// readResp reads until the sentinel.
func (p *proc) readUntil(sentinel string) (string, error) {
	var sb strings.Builder
	for {
		l, err := p.out.ReadString('\n')
		if err != nil {
			return sb.String(), err
		}
		if strings.Contains(l, sentinel) {
			return sb.String(), nil
		}
		sb.WriteString(l)
	}
}

type Result struct {
	Status  string // unsat, sat, unknown
	Values  []uint64
	Backend string
	Output  string
}

// Check checks satisfiability of the conjunction.
func (b *Backend) Check(asserts []*T, want []*T, ms int) Result {
	script, refs := Script(asserts, want)
	return b.CheckScript(script, refs, ms)
}

func (b *Backend) CheckScript(script string, refs []string, ms int) Result {
	return b.run("QF_UFBV", script, refs, ms)
}

// CheckInt decides an integer script; "sat" says something about the bit-vector problem only when it is exact.
func (b *Backend) CheckInt(script string, refs []string, exact bool, ms int) Result {
	return b.CheckIntSeed(script, refs, exact, ms, 0)
}

// CheckIntSeed is CheckInt with a random seed: another order of the same search.
func (b *Backend) CheckIntSeed(script string, refs []string, exact bool, ms, seed int) Result {
	if seed != 0 {
		script = fmt.Sprintf("(set-option :smt.random_seed %d)\n", seed) + script
	} else if b.Name == "z3-new" {
		script = "(set-option :smt.random_seed 0)\n" + script
	}
	r := b.run("QF_UFNIA", script, refs, ms)
	r.Backend += "/int"
	if r.Status == "sat" && !exact {
		r.Status = "unknown"
	}
	return r
}

// slots keeps the solvers from sharing processors, so that a time limit means the same however much there is to do.
var slots = make(chan bool, max(2, runtime.NumCPU()))

func (b *Backend) run(logic, script string, refs []string, ms int) Result {
	slots <- true
	defer func() { <-slots }()
	t0 := time.Now()
	defer func() { atomic.AddInt64(&b.Nanos, int64(time.Since(t0))); atomic.AddInt64(&b.Calls, 1) }()
	p, err := b.get()
	if err != nil {
		return Result{Status: "unknown", Output: err.Error(), Backend: b.Name}
	}
	done := make(chan struct{})
	timer := time.AfterFunc(time.Duration(ms)*time.Millisecond*2+10*time.Second, func() {
		select {
		case <-done:
		default:
			p.cmd.Process.Kill()
		}
	})
	defer timer.Stop()
	defer close(done)
	hdr := "(reset)\n(set-option :produce-models true)\n" + b.Timeout(ms) + "(set-logic " + logic + ")\n"
	go io.WriteString(p.in, hdr+script+"(check-sat)\n(echo \"@@1\")\n")
	o, err := p.readUntil("@@1")
	if err != nil {
		p.kill()
		return Result{Status: "unknown", Output: o + err.Error(), Backend: b.Name}
	}
	st := "unknown"
	for _, l := range strings.Split(o, "\n") {
		switch strings.TrimSpace(l) {
		case "sat":
			st = "sat"
		case "unsat":
			st = "unsat"
		}
	}
	if strings.Contains(o, "error") {
		p.kill()
		return Result{Status: "unknown", Output: o, Backend: b.Name}
	}
	r := Result{Status: st, Backend: b.Name, Output: strings.TrimSpace(o)}
	if st == "sat" && len(refs) > 0 {
		for i := 0; i < len(refs); i += 500 {
			j := i + 500
			if j > len(refs) {
				j = len(refs)
			}
			io.WriteString(p.in, "(get-value ("+strings.Join(refs[i:j], " ")+"))\n(echo \"@@2\")\n")
			o, err := p.readUntil("@@2")
			if err != nil {
				p.kill()
				return Result{Status: "unknown", Output: o, Backend: b.Name}
			}
			vals := parseValues(o, j-i)
			if vals == nil {
				p.kill()
				return Result{Status: "unknown", Output: "bad model: " + o, Backend: b.Name}
			}
			r.Values = append(r.Values, vals...)
		}
	}
	b.put(p)
	return r
}

// parseValues parses ((expr val) (expr val) ...).
func parseValues(o string, n int) []uint64 {
	toks := tokenize(o)
	// top-level list of pairs
	pos := 0
	if len(toks) == 0 || toks[0] != "(" {
		return nil
	}
	pos = 1
	var out []uint64
	skip := func() {
		if toks[pos] != "(" {
			pos++
			return
		}
		d := 0
		for {
			if toks[pos] == "(" {
				d++
			} else if toks[pos] == ")" {
				d--
			}
			pos++
			if d == 0 {
				return
			}
		}
	}
	for len(out) < n {
		if pos >= len(toks) || toks[pos] != "(" {
			return nil
		}
		pos++
		skip()
		// value
		t := toks[pos]
		var v uint64
		switch {
		case strings.HasPrefix(t, "#x"):
			fmt.Sscanf(t[2:], "%x", &v)
			pos++
		case strings.HasPrefix(t, "#b"):
			for _, c := range t[2:] {
				v = v<<1 | uint64(c-'0')
			}
			pos++
		case t == "true":
			v = 1
			pos++
		case t == "false":
			pos++
		case t == "(":
			// (_ bvN w)
			if toks[pos+1] == "_" {
				fmt.Sscanf(toks[pos+2], "bv%d", &v)
			} else if toks[pos+1] == "-" {
				fmt.Sscanf(toks[pos+2], "%d", &v)
				v = -v
			}
			skip()
		default:
			fmt.Sscanf(t, "%d", &v)
			pos++
		}
		if pos >= len(toks) || toks[pos] != ")" {
			return nil
		}
		pos++
		out = append(out, v)
	}
	return out
}

func tokenize(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|')
			out = append(out, s[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

// KillAll terminates solver processes.
func KillAll() {
	for _, b := range Backends {
		b.mu.Lock()
		for _, p := range b.free {
			p.kill()
		}
		b.free = nil
		b.mu.Unlock()
	}
}
