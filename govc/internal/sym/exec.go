package sym

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"govc/internal/smt"
)

type State struct {
	G *T
	H Heap
	E map[ssa.Value]Val // values of left loops, per exit
}

func (s *State) fork(g *T) State { return State{G: g, H: s.H.clone(), E: s.E} }

func strip(m map[ssa.Value]Val, nl *natLoop) map[ssa.Value]Val {
	r := map[ssa.Value]Val{}
	for v, x := range m {
		if i, ok := v.(ssa.Instruction); !ok || !nl.blocks[i.Block()] {
			r[v] = x
		}
	}
	return r
}

// Obligation is a proof obligation.
type Obligation struct {
	Name   string
	Kind   string
	Fn     string
	Pos    string
	NFacts int
	Facts  []*T // snapshot
	Defs   []*T // definitions of named terms
	Goal   *T
	G      *T
	User   bool
	Cover  bool
}

type Exec struct {
	W              *World
	facts          []*T
	factSet        map[*T]bool
	obls           []*Obligation
	ntriv          int
	nobj           int
	nseq           int
	nfresh         map[string]int
	loopStack      []*Loop
	named          map[*T]*T
	defs           []*T
	pruned         map[string]*Slice
	symMemo        map[string]Val
	lits           map[string]*Str
	touchLog       []touch
	touched        map[touch]bool
	depth          int
	fnStack        []*ssa.Function
	followed       []*Loop
	hint           *T
	Loops          []*Loop
	params         []Param
	Inlined        map[string]bool
	visited        map[*ssa.Function]bool
	Modelled       map[string]bool
	Contracts      map[string]bool
	Using          map[*ssa.Function]bool // callees replaced by their contracts
	kUse           int
	lemma          string
	tokObjs        map[*Obj][]*Obj
	nopanic        bool
	skolem         int
	steps          int
	globals        map[*ssa.Global]*Obj
	assumeMode     int
	HoudiniQueries int
	stepLost       bool                    // constStep had candidates, none shown
	unrolled       map[*ssa.BasicBlock]int // rounds of a loop unrolled with the solver
	pinned         []*T                    // the lengths pin found
	unproved       map[provePair]bool      // what proveAny could not show
	stepSeen       []*T                    // constant steps above 1 of the loops so far
	LoopNotes      []string
	path           string
	pathIDs        map[string]int
	ctrs           []*T
	occ            map[string]int
	quiet          int
	ifConst        map[*ssa.BasicBlock]bool
	watchIf        []*ssa.BasicBlock
	inField        bool
	accObjs        map[string]*Obj
	loopMemo       map[string]*loopMemo
	instrIDs       map[ssa.Instruction]int
	curInstr       ssa.Instruction
}

type tokenPos = token.Pos

// Param is a universally quantified lemma parameter.
type Param struct {
	Name string
	Kind string // bytes,int,bool,string
	Typ  types.Type
	V    Val
	T    *T
	Len  *T
	Cap  *T
	Obj  *Obj
	Uf   string
}

func NewExec(w *World, lemma string) *Exec {
	return &Exec{W: w, factSet: map[*T]bool{}, nfresh: map[string]int{}, named: map[*T]*T{}, pruned: map[string]*Slice{}, symMemo: map[string]Val{}, lits: map[string]*Str{}, touched: map[touch]bool{}, Inlined: map[string]bool{}, visited: map[*ssa.Function]bool{}, Modelled: map[string]bool{}, Contracts: map[string]bool{}, Using: map[*ssa.Function]bool{}, lemma: lemma, tokObjs: map[*Obj][]*Obj{}, globals: map[*ssa.Global]*Obj{}, pathIDs: map[string]int{}, occ: map[string]int{}, ifConst: map[*ssa.BasicBlock]bool{}, accObjs: map[string]*Obj{}, loopMemo: map[string]*loopMemo{}, instrIDs: map[ssa.Instruction]int{}, path: "p0"}
}

func (e *Exec) addFact(f *T) {
	if f.IsTrue() || e.factSet[f] {
		return
	}
	if f.Op == smt.OAnd {
		for _, c := range f.Args {
			e.addFact(c)
		}
		return
	}
	e.factSet[f] = true
	e.facts = append(e.facts, f)
}
func (e *Exec) assume(g, c *T) { e.addFact(smt.Implies(g, c)) }

// AllFacts are the facts an obligation may use.
func (o *Obligation) AllFacts() []*T {
	if len(o.Defs) == 0 {
		return o.Facts
	}
	return append(append([]*T{}, o.Defs...), o.Facts...)
}

// nameBig gives a large term a name, a function of the loop counters in it.
func (e *Exec) nameBig(t *T) *T {
	if n, ok := e.named[t]; ok {
		return n
	}
	n := t
	if size(t, 24) >= 24 {
		var ctrs []*T
		seen := map[*T]bool{}
		var walk func(x *T)
		walk = func(x *T) {
			if seen[x] {
				return
			}
			seen[x] = true
			if x.Op == smt.OApp && len(x.Args) == 0 && strings.HasSuffix(x.Name, "!k") {
				ctrs = append(ctrs, x)
			}
			for _, a := range x.Args {
				walk(a)
			}
		}
		walk(t)
		nm := fmt.Sprintf("at%d_%s", len(e.named), e.lemma)
		smt.DeclareRange(nm, t.Lo, t.Hi)
		n = smt.App(nm, t.W, ctrs...)
		e.defs = append(e.defs, smt.Eq(n, t))
		e.named[n] = n
	}
	e.named[t] = n
	return n
}

// size counts the nodes of t, up to max.
func size(t *T, max int) int {
	n := 0
	seen := map[*T]bool{}
	var walk func(x *T)
	walk = func(x *T) {
		if n >= max || seen[x] {
			return
		}
		seen[x] = true
		n++
		for _, a := range x.Args {
			walk(a)
		}
	}
	walk(t)
	return n
}

type mark struct{ f, o, triv int }

func (e *Exec) mark() mark { return mark{len(e.facts), len(e.obls), e.ntriv} }
func (e *Exec) rollback(m mark) {
	for _, f := range e.facts[m.f:] {
		delete(e.factSet, f)
	}
	e.facts = e.facts[:m.f]
	e.obls = e.obls[:m.o]
	e.ntriv = m.triv
	// touched instances may have lost their facts
	for t := range e.touched {
		delete(e.touched, t)
	}
}

// fresh returns a fresh uninterpreted value depending on the enclosing generic loop counters.
// freshName names an arbitrary value by the call path it arises at, so that re-executing the same loop iteration
// gives the same value and different places give different ones.
func (e *Exec) freshName(base string) string {
	k := base + "@" + e.path + "|" + e.instrID()
	e.occ[k]++
	return fmt.Sprintf("%s!%s!%s_%d", base, e.lemma, e.pathKey(k), e.occ[k])
}
func (e *Exec) instrID() string {
	if e.curInstr == nil {
		return "0"
	}
	id, ok := e.instrIDs[e.curInstr]
	if !ok {
		id = len(e.instrIDs) + 1
		e.instrIDs[e.curInstr] = id
	}
	return fmt.Sprint(id)
}
func (e *Exec) loopArgs() []*T              { return e.ctrs }
func (e *Exec) fresh(base string, w int) *T { return smt.App(e.freshName(base), w, e.loopArgs()...) }

func (e *Exec) check(st *State, kind string, cond *T, pos token.Pos) {
	g := st.G
	c := smt.SimpUnder(cond, g)
	goal := smt.Implies(g, c)
	if goal.IsTrue() {
		if e.quiet == 0 {
			e.ntriv++
		}
		return
	}
	if e.quiet > 0 {
		e.addFact(goal)
		return
	}
	e.oblige(kind, "", goal, g, pos)
	e.addFact(goal)
}

func (e *Exec) oblige(kind, name string, goal, g *T, pos token.Pos) *Obligation {
	fn := "lemma"
	if len(e.fnStack) > 0 {
		fn = shortFn(e.fnStack[len(e.fnStack)-1])
	}
	o := &Obligation{Kind: kind, Fn: fn, Pos: e.W.pos(pos), NFacts: len(e.facts), Goal: goal, G: g}
	o.Facts = e.facts[:len(e.facts):len(e.facts)]
	o.Defs = e.defs[:len(e.defs):len(e.defs)]
	if name == "" {
		name = fn + "/" + kind
	} else {
		o.User = true
	}
	o.Name = e.lemma + ":" + name
	e.obls = append(e.obls, o)
	return o
}

func shortFn(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, "github.com/way-platform/tachograph-go/", "")
	return s
}

// Frame -----------------------------------------------------------------------

type frame struct {
	fn   *ssa.Function
	env  map[ssa.Value]Val
	bind []Val
	args []Val
	rets []retEdge
	cfg  *cfg
}

type retEdge struct {
	st State
	v  Val
}

type edge struct {
	from, to *ssa.BasicBlock
	st       State
	phis     map[*ssa.Phi]Val // values carried (nil: evaluate from env at merge)
}

// liveOut lists the values defined in the loop and used after it.
func (nl *natLoop) liveOut() []ssa.Value {
	if nl.lcDone {
		return nl.lc
	}
	nl.lcDone = true
	for b := range nl.blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !nl.blocks[r.Block()] {
					nl.lc = append(nl.lc, v)
					break
				}
			}
		}
	}
	return nl.lc
}

type natLoop struct {
	lc     []ssa.Value
	lcDone bool
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *natLoop
}

type cfg struct {
	rpo   []*ssa.BasicBlock
	num   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*natLoop // by header
	inner map[*ssa.BasicBlock]*natLoop // innermost loop of block
}

var cfgMemo = map[*ssa.Function]*cfg{}

func cfgOf(f *ssa.Function) *cfg {
	if c, ok := cfgMemo[f]; ok {
		return c
	}
	c := &cfg{num: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*natLoop{}, inner: map[*ssa.BasicBlock]*natLoop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		c.num[post[i]] = len(c.rpo)
		c.rpo = append(c.rpo, post[i])
	}
	for _, u := range c.rpo {
		for _, h := range u.Succs {
			if h.Dominates(u) {
				l := c.loops[h]
				if l == nil {
					l = &natLoop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					c.loops[h] = l
				}
				var work []*ssa.BasicBlock
				if !l.blocks[u] {
					l.blocks[u] = true
					work = append(work, u)
				}
				for len(work) > 0 {
					b := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range b.Preds {
						if !l.blocks[p] && seen[p] {
							l.blocks[p] = true
							work = append(work, p)
						}
					}
				}
			} else if c.num[h] <= c.num[u] {
				unsup("irreducible control flow in %s", f)
			}
		}
	}
	for _, l := range c.loops {
		for _, m := range c.loops {
			if l != m && m.blocks[l.header] && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
		for b := range l.blocks {
			if c.inner[b] == nil || len(l.blocks) < len(c.inner[b].blocks) {
				c.inner[b] = l
			}
		}
	}
	cfgMemo[f] = c
	return c
}

// mergeStates merges edge states; returns merged state and relative guards.
func (e *Exec) mergeStates(sts []State) (State, []*T) {
	if len(sts) == 1 {
		return State{G: sts[0].G, H: sts[0].H.clone(), E: sts[0].E}, []*T{smt.True}
	}
	common := map[*T]bool{}
	for _, c := range smt.Conjuncts(sts[0].G) {
		common[c] = true
	}
	for _, s := range sts[1:] {
		cur := map[*T]bool{}
		for _, c := range smt.Conjuncts(s.G) {
			if common[c] {
				cur[c] = true
			}
		}
		common = cur
	}
	var rel []*T
	var gs []*T
	for _, s := range sts {
		var k []*T
		for _, c := range smt.Conjuncts(s.G) {
			if !common[c] {
				k = append(k, c)
			}
		}
		rel = append(rel, smt.And(k...))
		gs = append(gs, s.G)
	}
	g := smt.Or(gs...)
	h := sts[len(sts)-1].H.clone()
	for i := len(sts) - 2; i >= 0; i-- {
		for o, c := range sts[i].H {
			if d, ok := h[o]; ok {
				if c != d {
					h[o] = e.mergeContent(rel[i], c, d)
				}
			} else {
				// not present in the other heap: object born on this path, or changed frozen object
				if o.Frozen != nil || o.Lazy != nil {
					h[o] = e.mergeContent(rel[i], c, e.get(Heap{}, o))
				} else {
					h[o] = c
				}
			}
		}
		// objects with frozen content modified only in the accumulated heap
		for o, d := range h {
			if _, ok := sts[i].H[o]; !ok && (o.Frozen != nil || o.Lazy != nil) {
				h[o] = e.mergeContent(rel[i], e.get(Heap{}, o), d)
			}
		}
	}
	var lc map[ssa.Value]Val
	for i := len(sts) - 1; i >= 0; i-- {
		for v, x := range sts[i].E {
			if lc == nil {
				lc = map[ssa.Value]Val{}
			}
			if y, ok := lc[v]; ok {
				x = e.ite(rel[i], x, y)
			}
			lc[v] = x
		}
	}
	return State{G: g, H: h, E: lc}, rel
}

// Call executes fn on args.
func (e *Exec) callFn(fn *ssa.Function, args []Val, bind []Val, st *State) Val {
	if len(fn.Blocks) == 0 {
		unsup("no body: %s", fn)
	}
	if e.depth > 60 {
		unsup("call depth")
	}
	nrec := 0
	for _, f := range e.fnStack {
		if f == fn {
			nrec++
		}
		if nrec > 5 {
			unsup("recursion: %s", fn)
		}
	}
	e.depth++
	e.fnStack = append(e.fnStack, fn)
	path, ci := e.path, e.curInstr
	e.path = e.pathKey(path + "|c" + e.instrID() + "|" + fn.String())
	defer func() {
		e.depth--
		e.fnStack = e.fnStack[:len(e.fnStack)-1]
		e.path, e.curInstr = path, ci
	}()
	e.Inlined[shortFn(fn)] = true
	e.visited[fn] = true
	fr := &frame{fn: fn, env: map[ssa.Value]Val{}, bind: bind, args: args, cfg: cfgOf(fn)}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = bind[i]
	}
	g0 := st.G
	in := edge{to: fn.Blocks[0], st: State{G: st.G, H: st.H}}
	ex, _ := e.runRegion(fr, nil, []edge{in})
	if len(ex) != 0 {
		panic("exits from function region")
	}
	if len(fr.rets) == 0 {
		st.G = smt.False
		return e.zero(resType(fn.Signature))
	}
	var sts []State
	for _, r := range fr.rets {
		sts = append(sts, r.st)
	}
	m, rel := e.mergeStates(sts)
	v := fr.rets[len(fr.rets)-1].v
	for i := len(fr.rets) - 2; i >= 0; i-- {
		v = e.ite(rel[i], fr.rets[i].v, v)
	}
	st.H = m.H
	st.G = g0
	return v
}

func resType(s *types.Signature) types.Type {
	if s.Results().Len() == 1 {
		return s.Results().At(0).Type()
	}
	return s.Results()
}

// runRegion executes the blocks of a region (function or loop body). Returns edges leaving the region and back edges to the loop header.
func (e *Exec) runRegion(fr *frame, lp *natLoop, in []edge) (exits, backs []edge) {
	pending := map[*ssa.BasicBlock][]edge{}
	inRegion := func(b *ssa.BasicBlock) bool { return lp == nil || lp.blocks[b] }
	for _, x := range in {
		pending[x.to] = append(pending[x.to], x)
	}
	first := true
	route := func(x edge) {
		if x.st.G.IsFalse() {
			return
		}
		switch {
		case lp != nil && x.to == lp.header:
			backs = append(backs, x)
		case !inRegion(x.to):
			exits = append(exits, x)
		default:
			pending[x.to] = append(pending[x.to], x)
		}
	}
	for _, b := range fr.cfg.rpo {
		if !inRegion(b) {
			continue
		}
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		delete(pending, b)
		if nl := fr.cfg.loops[b]; nl != nil && nl != lp {
			for _, x := range e.execLoop(fr, nl, es) {
				route(x)
			}
			continue
		}
		if nl := fr.cfg.inner[b]; nl != nil && nl != lp && nl.header != b {
			// block of a nested loop reached without its header: cannot happen in natural loops
			if lp == nil || nl.parent == lp || nl != lp {
				panic("block in nested loop reached outside header: " + fr.fn.String() + " " + b.String())
			}
		}
		var st State
		if lp != nil && b == lp.header && first {
			st = e.enterBlock(fr, b, es)
			first = false
		} else {
			st = e.enterBlock(fr, b, es)
		}
		for _, x := range e.execBlock(fr, b, st) {
			route(x)
		}
	}
	return
}

// enterBlock merges incoming edges and assigns phis.
func (e *Exec) enterBlock(fr *frame, b *ssa.BasicBlock, es []edge) State {
	var sts []State
	for _, x := range es {
		sts = append(sts, x.st)
	}
	st, rel := e.mergeStates(sts)
	type pv struct {
		p *ssa.Phi
		v Val
	}
	var out []pv
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var v Val
		for i := len(es) - 1; i >= 0; i-- {
			w := e.phiIn(fr, p, es[i])
			if i == len(es)-1 {
				v = w
			} else {
				v = e.ite(rel[i], w, v)
			}
		}
		out = append(out, pv{p, v})
	}
	for v, x := range st.E {
		fr.env[v] = x
	}
	for _, x := range out {
		fr.env[x.p] = x.v
	}
	return st
}

func (e *Exec) phiIn(fr *frame, p *ssa.Phi, x edge) Val {
	if x.phis != nil {
		return x.phis[p]
	}
	for i, pr := range p.Block().Preds {
		if pr == x.from {
			return e.val(fr, p.Edges[i])
		}
	}
	panic("phi edge")
}

// capture evaluates the phi operands of x.to for this edge now.
func (e *Exec) capture(fr *frame, x *edge) {
	if x.phis != nil {
		return
	}
	x.phis = map[*ssa.Phi]Val{}
	for _, in := range x.to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range x.to.Preds {
			if pr == x.from {
				x.phis[p] = e.val(fr, p.Edges[i])
			}
		}
	}
}

func (e *Exec) execBlock(fr *frame, b *ssa.BasicBlock, st State) []edge {
	for _, in := range b.Instrs {
		e.steps++
		e.curInstr = in
		if st.G.IsFalse() {
			return nil
		}
		switch x := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := smt.SimpUnder(e.scalar(fr, x.Cond), st.G)
			if n := len(e.watchIf); n > 0 && e.watchIf[n-1] == b && !c.IsConst() {
				panic(notConst{b})
			}
			g := st.G
			gt, gf := smt.And(g, c), smt.And(g, smt.Not(c))
			var out []edge
			if !gt.IsFalse() {
				h := st.H
				if !gf.IsFalse() {
					h = st.H.clone()
				}
				out = append(out, edge{from: b, to: b.Succs[0], st: State{gt, h, st.E}})
			}
			if !gf.IsFalse() {
				out = append(out, edge{from: b, to: b.Succs[1], st: State{gf, st.H, st.E}})
			}
			for i := range out {
				e.capture(fr, &out[i])
			}
			return out
		case *ssa.Jump:
			x2 := edge{from: b, to: b.Succs[0], st: st}
			e.capture(fr, &x2)
			return []edge{x2}
		case *ssa.Return:
			var v Val
			if len(x.Results) == 1 {
				v = e.val(fr, x.Results[0])
			} else {
				var t Tuple
				for _, r := range x.Results {
					t = append(t, e.val(fr, r))
				}
				v = t
			}
			fr.rets = append(fr.rets, retEdge{st, v})
			return nil
		case *ssa.Panic:
			e.check(&st, "panic", smt.False, x.Pos())
			return nil
		default:
			e.instr(fr, in, &st)
		}
	}
	return nil
}

func (e *Exec) scalar(fr *frame, v ssa.Value) *T {
	x := e.val(fr, v)
	t, ok := x.(*T)
	if !ok {
		if u, ok := x.(*Unk); ok {
			unsup("use of unknown value: %s", u.Why)
		}
		unsup("scalar expected for %s, got %T", v, x)
	}
	return t
}

func (e *Exec) val(fr *frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return &Fn{A: []FAlt{{G: smt.True, F: x}}}
	case *ssa.Global:
		return e.global(x)
	case *ssa.Builtin:
		return &Host{Kind: "builtin", V: x.Name()}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s (%s) in %s", v.Name(), v, fr.fn))
	}
	return r
}

func (e *Exec) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return smt.Bool(constant.BoolVal(c.Value))
	case constant.String:
		return e.strLit(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if u, ok := constant.Uint64Val(c.Value); ok {
				return smt.BV(u, e.width(c.Type()))
			}
			i, _ := constant.Int64Val(c.Value)
			return smt.BV(uint64(i), e.width(c.Type()))
		}
	}
	return &Unk{"constant " + c.String()}
}

func (e *Exec) global(g *ssa.Global) Val {
	o, ok := e.globals[g]
	if !ok {
		o = e.newObj(OCell, g.Type().(*types.Pointer).Elem(), "global "+g.String())
		o.Loops = nil
		o.Protected = true
		o.Frozen = e.globalInit(g)
		e.globals[g] = o
	}
	return &Ptr{A: []PAlt{{G: smt.True, O: o}}}
}

func (e *Exec) globalInit(g *ssa.Global) interface{} {
	t := g.Type().(*types.Pointer).Elem()
	full := g.String()
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return &Iface{A: []IAlt{{G: smt.True, Typ: t, V: &Unk{full}, ID: "sentinel:" + full}}}
	}
	switch full {
	case "encoding/binary.BigEndian", "encoding/binary.LittleEndian":
		return &Struct{Typ: t}
	}
	if strings.Contains(full, "/proto/gen/") {
		return &Host{Kind: "ext", V: full}
	}
	// scalar constants assigned once in init
	if v, ok := e.W.constInit(e, g); ok {
		return v
	}
	return &Host{Kind: "global", V: full}
}

// Memory --------------------------------------------------------------------------

func (e *Exec) alts(p *Ptr, st *State, pos token.Pos, what string) []PAlt {
	var r []PAlt
	for _, a := range p.A {
		g := smt.SimpUnder(a.G, st.G)
		if g.IsFalse() {
			continue
		}
		if a.O == nil {
			e.check(st, "nil", smt.Not(g), pos)
			continue
		}
		a.G = g
		r = append(r, a)
	}
	return r
}

func (e *Exec) asPtr(v Val) *Ptr {
	p, ok := v.(*Ptr)
	if !ok {
		if u, ok := v.(*Unk); ok {
			unsup("pointer from unknown: %s", u.Why)
		}
		unsup("pointer expected, got %T", v)
	}
	return p
}
func (e *Exec) asSlice(v Val) *Slice {
	p, ok := v.(*Slice)
	if !ok {
		if u, ok := v.(*Unk); ok {
			unsup("slice from unknown: %s", u.Why)
		}
		unsup("slice expected, got %T", v)
	}
	return p
}

func (e *Exec) load(p *Ptr, st *State, typ types.Type, pos token.Pos) Val {
	as := e.alts(p, st, pos, "load")
	if len(as) == 0 {
		return e.zero(typ)
	}
	var v Val
	for i := len(as) - 1; i >= 0; i-- {
		w := e.loadPath(st, as[i].O, typ, as[i].Path)
		if v == nil {
			v = w
		} else {
			v = e.ite(as[i].G, w, v)
		}
	}
	return v
}

func (e *Exec) loadPath(st *State, o *Obj, typ types.Type, path []Step) Val {
	c := e.get(st.H, o)
	switch o.Kind {
	case OMsg:
		m := c.(*Msg)
		if len(path) == 0 {
			return &Host{Kind: "msgvalue", V: m}
		}
		f := o.Typ.Underlying().(*types.Struct).Field(path[0].F)
		v := e.field(m, f.Name(), f.Type())
		return e.nav(v, path[1:])
	case OBytes, OList:
		s := c.(*Seq)
		if len(path) == 0 {
			// whole array
			if at, ok := o.Typ.Underlying().(*types.Array); ok {
				if o.Kind == OBytes {
					return &ByteArr{Seq: s, N: at.Len()}
				}
				return &ListArr{Seq: s, N: at.Len()}
			}
			unsup("load of whole backing array")
		}
		return e.nav(e.At(s, path[0].I), path[1:])
	}
	return e.nav(c, path)
}

func (e *Exec) nav(v Val, path []Step) Val {
	for i, s := range path {
		switch x := v.(type) {
		case *Struct:
			v = x.F[s.F]
		case *ByteArr:
			v = e.At(x.Seq, s.I)
		case *ListArr:
			v = e.At(x.Seq, s.I)
		case *Host:
			if x.Kind == "msgvalue" {
				unsup("message value navigation")
			}
			unsup("navigate host %s", x.Kind)
		default:
			unsup("navigate %T", v)
		}
		_ = i
	}
	return v
}

func (e *Exec) setNav(v Val, path []Step, w Val) Val {
	if len(path) == 0 {
		return w
	}
	s := path[0]
	switch x := v.(type) {
	case *Struct:
		n := &Struct{Typ: x.Typ, F: append([]Val{}, x.F...)}
		n.F[s.F] = e.setNav(x.F[s.F], path[1:], w)
		return n
	case *ByteArr:
		return &ByteArr{Seq: e.seqStore(x.Seq, s.I, w), N: x.N}
	case *ListArr:
		if len(path) > 1 {
			w = e.setNav(e.At(x.Seq, s.I), path[1:], w)
		}
		return &ListArr{Seq: e.seqStore(x.Seq, s.I, w), N: x.N}
	}
	unsup("store into %T", v)
	return nil
}

func (e *Exec) seqStore(s *Seq, i *T, v Val) *Seq {
	if s.Kind == SStore && s.Idx == i {
		s = s.A
	}
	return e.newSeq(&Seq{Kind: SStore, A: s, Idx: i, V: v, Elem: s.Elem})
}

func (e *Exec) store(p *Ptr, v Val, st *State, pos token.Pos) {
	for _, a := range e.alts(p, st, pos, "store") {
		e.storePath(st, a.G, a.O, a.Path, v, pos)
	}
}

func (e *Exec) storePath(st *State, g *T, o *Obj, path []Step, v Val, pos token.Pos) {
	if o.Inst {
		if o.leaf == nil {
			unsup("write to a per-iteration object %s outside its loop", o)
		}
		e.mayWrite(o)
	}
	if o.Protected {
		e.frame(st, g, o, pos, "write")
	}
	c := e.get(st.H, o)
	var n interface{}
	switch o.Kind {
	case OMsg:
		m := c.(*Msg)
		if len(path) == 0 {
			if h, ok := v.(*Host); ok && h.Kind == "msgvalue" {
				n = h.V
				break
			}
			if s, ok := v.(*Struct); ok {
				_ = s
				n = &Msg{F: map[string]Val{}, Has: map[string]*T{}}
				break
			}
			unsup("store of whole message")
		}
		f := o.Typ.Underlying().(*types.Struct).Field(path[0].F)
		nm := m.clone()
		if len(path) > 1 {
			v = e.setNav(e.field(m, f.Name(), f.Type()), path[1:], v)
		}
		nm.F[f.Name()] = v
		n = nm
	case OBytes, OList:
		s := c.(*Seq)
		if len(path) == 0 {
			switch a := v.(type) {
			case *ByteArr:
				n = a.Seq
			case *ListArr:
				n = a.Seq
			default:
				unsup("array store of %T", v)
			}
			break
		}
		if len(path) > 1 {
			v = e.setNav(e.At(s, path[0].I), path[1:], v)
		}
		n = e.seqStore(s, path[0].I, v)
	default:
		n = e.setNav(c, path, v)
	}
	st.H[o] = e.mergeContent(g, n, c)
}

// frame raises the obligation that protected memory is not written.
func (e *Exec) frame(st *State, g *T, o *Obj, pos token.Pos, how string) {
	s := State{G: smt.And(st.G, g), H: st.H}
	e.check(&s, "frame:"+how, smt.False, pos)
}

// Instructions -----------------------------------------------------------------------

func (e *Exec) alloc(t types.Type, name string, st *State) *Obj {
	var o *Obj
	switch u := t.Underlying().(type) {
	case *types.Array:
		if isByte(u.Elem()) {
			o = e.newObj(OBytes, t, name)
			st.H[o] = e.newSeq(&Seq{Kind: SZero})
		} else {
			o = e.newObj(OList, t, name)
			st.H[o] = e.newSeq(&Seq{Kind: SZero, Elem: u.Elem()})
		}
		o.Len = smt.Int(u.Len())
		return o
	}
	if isMsgType(t) {
		o = e.newObj(OMsg, t, name)
		st.H[o] = &Msg{F: map[string]Val{}, Has: map[string]*T{}}
		return o
	}
	o = e.newObj(OCell, t, name)
	st.H[o] = e.zero(t)
	return o
}

func (e *Exec) instr(fr *frame, in ssa.Instruction, st *State) {
	pos := in.Pos()
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		o := e.alloc(x.Type().(*types.Pointer).Elem(), x.Comment, st)
		fr.env[x] = &Ptr{A: []PAlt{{G: smt.True, O: o}}}
	case *ssa.BinOp:
		fr.env[x] = e.binop(x.Op, e.val(fr, x.X), e.val(fr, x.Y), x.X.Type(), x.Y.Type(), st, pos)
	case *ssa.UnOp:
		v := e.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			fr.env[x] = e.load(e.asPtr(v), st, x.Type(), pos)
		case token.NOT:
			fr.env[x] = smt.Not(e.scalar(fr, x.X))
		case token.SUB:
			fr.env[x] = smt.Neg(e.scalar(fr, x.X))
		case token.XOR:
			fr.env[x] = smt.BNot(e.scalar(fr, x.X))
		default:
			unsup("unop %s", x.Op)
		}
	case *ssa.Store:
		e.store(e.asPtr(e.val(fr, x.Addr)), e.val(fr, x.Val), st, pos)
	case *ssa.FieldAddr:
		p := e.asPtr(e.val(fr, x.X))
		n := &Ptr{}
		for _, a := range e.alts(p, st, pos, "field") {
			a.Path = append(append([]Step{}, a.Path...), Step{F: x.Field})
			n.A = append(n.A, a)
		}
		fr.env[x] = n
	case *ssa.Field:
		v := e.val(fr, x.X)
		s, ok := v.(*Struct)
		if !ok {
			unsup("field of %T", v)
		}
		fr.env[x] = s.F[x.Field]
	case *ssa.IndexAddr:
		i := e.toInt(e.scalar(fr, x.Index), x.Index.Type())
		v := e.val(fr, x.X)
		n := &Ptr{}
		switch y := v.(type) {
		case *Slice:
			l := e.sliceLen(y, st)
			e.check(st, "index", smt.And(smt.Sle(smt.Int(0), i), smt.Slt(i, l)), pos)
			for _, a := range y.A {
				g := smt.SimpUnder(a.G, st.G)
				if g.IsFalse() || a.O == nil {
					continue
				}
				n.A = append(n.A, PAlt{G: g, O: a.O, Path: []Step{{F: -1, I: smt.Add(a.Off, i)}}})
			}
		case *Ptr:
			at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			e.check(st, "index", smt.And(smt.Sle(smt.Int(0), i), smt.Slt(i, smt.Int(at.Len()))), pos)
			for _, a := range e.alts(y, st, pos, "index") {
				a.Path = append(append([]Step{}, a.Path...), Step{F: -1, I: i})
				n.A = append(n.A, a)
			}
		default:
			unsup("indexaddr of %T", v)
		}
		fr.env[x] = n
	case *ssa.Index:
		i := e.toInt(e.scalar(fr, x.Index), x.Index.Type())
		switch y := e.val(fr, x.X).(type) {
		case *Str:
			e.check(st, "index", smt.And(smt.Sle(smt.Int(0), i), smt.Slt(i, y.Len)), pos)
			fr.env[x] = e.At(y.Seq, smt.Add(y.Off, i))
		case *ByteArr:
			e.check(st, "index", smt.And(smt.Sle(smt.Int(0), i), smt.Slt(i, smt.Int(y.N))), pos)
			fr.env[x] = e.At(y.Seq, i)
		case *ListArr:
			e.check(st, "index", smt.And(smt.Sle(smt.Int(0), i), smt.Slt(i, smt.Int(y.N))), pos)
			fr.env[x] = e.At(y.Seq, i)
		default:
			unsup("index of %T", y)
		}
	case *ssa.Lookup:
		unsup("map lookup")
	case *ssa.Slice:
		fr.env[x] = e.sliceOp(fr, x, st)
	case *ssa.Convert:
		fr.env[x] = e.convert(e.val(fr, x.X), x.X.Type(), x.Type(), st)
	case *ssa.ChangeType:
		fr.env[x] = e.val(fr, x.X)
	case *ssa.ChangeInterface:
		fr.env[x] = e.val(fr, x.X)
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer")
	case *ssa.MakeInterface:
		v := e.val(fr, x.X)
		fr.env[x] = &Iface{A: []IAlt{{G: smt.True, Typ: x.X.Type(), V: v, ID: errID(x.X.Type())}}}
	case *ssa.TypeAssert:
		fr.env[x] = e.typeAssert(x, e.val(fr, x.X), st)
	case *ssa.Extract:
		v := e.val(fr, x.Tuple)
		t, ok := v.(Tuple)
		if !ok {
			if u, ok := v.(*Unk); ok {
				fr.env[x] = u
				return
			}
			unsup("extract of %T", v)
		}
		fr.env[x] = t[x.Index]
	case *ssa.MakeSlice:
		ln := e.toInt(e.scalar(fr, x.Len), x.Len.Type())
		cp := e.toInt(e.scalar(fr, x.Cap), x.Cap.Type())
		el := x.Type().Underlying().(*types.Slice).Elem()
		e.check(st, "makeslice", smt.And(smt.Sle(smt.Int(0), ln), smt.Sle(ln, cp), smt.Sle(cp, smt.Int(maxLen))), pos)
		fr.env[x] = e.makeSlice(el, ln, cp, st, "make")
	case *ssa.MakeClosure:
		var b []Val
		for _, y := range x.Bindings {
			b = append(b, e.val(fr, y))
		}
		fr.env[x] = &Fn{A: []FAlt{{G: smt.True, F: x.Fn.(*ssa.Function), Bind: b}}}
	case *ssa.Call:
		v := e.call(fr, &x.Call, st, x, pos)
		if l, ok := v.(*Slice); ok && len(e.fnStack) == 1 {
			v = e.prune(l, st.G)
		}
		fr.env[x] = v
	case *ssa.RunDefers:
	case *ssa.Defer:
		unsup("defer")
	case *ssa.MultiConvert:
		unsup("multiconvert")
	default:
		unsup("instruction %T in %s", in, fr.fn)
	}
}

func errID(t types.Type) string {
	if types.Implements(t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
		return "err"
	}
	return ""
}

func (e *Exec) makeSlice(el types.Type, ln, cp *T, st *State, name string) *Slice {
	var o *Obj
	if isByte(el) {
		o = e.newObj(OBytes, el, name)
		st.H[o] = e.newSeq(&Seq{Kind: SZero})
	} else {
		o = e.newObj(OList, el, name)
		st.H[o] = e.newSeq(&Seq{Kind: SZero, Elem: el})
	}
	o.Len = cp
	return &Slice{Elem: el, A: []SAlt{{G: smt.True, O: o, Off: smt.Int(0), Len: ln, Cap: cp}}}
}

func (e *Exec) toInt(t *T, typ types.Type) *T {
	if t.W == 64 {
		return t
	}
	if isUnsigned(typ) {
		return smt.ZExt(t, 64)
	}
	return smt.SExt(t, 64)
}

func (e *Exec) sliceLen(s *Slice, st *State) *T {
	var r *T
	for i := len(s.A) - 1; i >= 0; i-- {
		a := s.A[i]
		g := smt.SimpUnder(a.G, st.G)
		if g.IsFalse() {
			continue
		}
		if r == nil {
			r = a.Len
		} else {
			r = smt.Ite(g, a.Len, r)
		}
	}
	if r == nil {
		return smt.Int(0)
	}
	return r
}
func (e *Exec) sliceCap(s *Slice, st *State) *T {
	var r *T
	for i := len(s.A) - 1; i >= 0; i-- {
		a := s.A[i]
		g := smt.SimpUnder(a.G, st.G)
		if g.IsFalse() {
			continue
		}
		if r == nil {
			r = a.Cap
		} else {
			r = smt.Ite(g, a.Cap, r)
		}
	}
	if r == nil {
		return smt.Int(0)
	}
	return r
}
func (e *Exec) sliceNil(s *Slice, st *State) *T {
	r := smt.False
	for _, a := range s.A {
		if a.O == nil {
			r = smt.Or(r, smt.SimpUnder(a.G, st.G))
		}
	}
	return r
}

// viewSeq gives a sequence and offset for reading slice s in state st.
func (e *Exec) viewSeq(s *Slice, st *State) (*Seq, *T) {
	var seq *Seq
	off := smt.Int(0)
	for i := len(s.A) - 1; i >= 0; i-- {
		a := s.A[i]
		g := smt.SimpUnder(a.G, st.G)
		if g.IsFalse() || a.O == nil {
			continue
		}
		c := e.get(st.H, a.O).(*Seq)
		if seq == nil {
			seq, off = c, a.Off
		} else if seq == c && off == a.Off {
		} else {
			seq = e.seqIte(g, e.shift(c, a.Off), e.shift(seq, off))
			off = smt.Int(0)
		}
	}
	if seq == nil {
		z := &Seq{Kind: SZero}
		if !isByte(s.Elem) {
			z.Elem = s.Elem
		}
		return e.newSeq(z), smt.Int(0)
	}
	return seq, off
}

func (e *Exec) sliceOp(fr *frame, x *ssa.Slice, st *State) Val {
	v := e.val(fr, x.X)
	pos := x.Pos()
	opt := func(y ssa.Value) *T {
		if y == nil {
			return nil
		}
		return e.toInt(e.scalar(fr, y), y.Type())
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	if lo == nil {
		lo = smt.Int(0)
	}
	switch y := v.(type) {
	case *Str:
		if hi == nil {
			hi = y.Len
		}
		e.check(st, "slice", smt.And(smt.Sle(smt.Int(0), lo), smt.Sle(lo, hi), smt.Sle(hi, y.Len)), pos)
		return &Str{Seq: y.Seq, Off: smt.Add(y.Off, lo), Len: smt.Sub(hi, lo)}
	case *Ptr:
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := smt.Int(at.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		e.check(st, "slice", smt.And(smt.Sle(smt.Int(0), lo), smt.Sle(lo, hi), smt.Sle(hi, mx), smt.Sle(mx, n)), pos)
		r := &Slice{Elem: at.Elem()}
		for _, a := range e.alts(y, st, pos, "slice") {
			if len(a.Path) != 0 {
				unsup("slice of embedded array")
			}
			r.A = append(r.A, SAlt{G: a.G, O: a.O, Off: lo, Len: smt.Sub(hi, lo), Cap: smt.Sub(mx, lo)})
		}
		return r
	case *Slice:
		return e.reslice(y, lo, hi, mx, st, pos)
	}
	if u, ok := v.(*Unk); ok {
		unsup("slice of unknown %s", u.Why)
	}
	unsup("slice of %T", v)
	return nil
}

func (e *Exec) reslice(y *Slice, lo, hi, mx *T, st *State, pos token.Pos) *Slice {
	r := &Slice{Elem: y.Elem}
	if hi == nil {
		hi = e.sliceLen(y, st)
	}
	cp := e.sliceCap(y, st)
	if mx == nil {
		mx = cp
	}
	e.check(st, "slice", smt.And(smt.Sle(smt.Int(0), lo), smt.Sle(lo, hi), smt.Sle(hi, mx), smt.Sle(mx, cp)), pos)
	for _, a := range y.A {
		g := smt.SimpUnder(a.G, st.G)
		if g.IsFalse() {
			continue
		}
		if a.O == nil {
			a.G = g
			r.A = append(r.A, a)
			continue
		}
		m := smt.Sub(mx, lo)
		r.A = append(r.A, SAlt{G: g, O: a.O, Off: smt.Add(a.Off, lo), Len: smt.Sub(hi, lo), Cap: m})
	}
	return r
}

func (e *Exec) convert(v Val, from, to types.Type, st *State) Val {
	switch t := to.Underlying().(type) {
	case *types.Basic:
		if t.Info()&types.IsInteger != 0 {
			s, ok := v.(*T)
			if !ok {
				return &Unk{"convert"}
			}
			w := e.width(to)
			if w == s.W {
				return s
			}
			if w < s.W {
				return smt.Extract(s, w-1, 0)
			}
			if isUnsigned(from) {
				return smt.ZExt(s, w)
			}
			return smt.SExt(s, w)
		}
		if t.Info()&types.IsString != 0 {
			switch y := v.(type) {
			case *Slice:
				q, off := e.viewSeq(y, st)
				return &Str{Seq: q, Off: off, Len: e.sliceLen(y, st)}
			case *Str:
				return y
			case *T:
				return e.opaqueStr(smt.App(fmt.Sprintf("runestr%d", y.W), -1, y))
			}
		}
		return &Unk{"convert to " + t.String()}
	case *types.Slice:
		switch y := v.(type) {
		case *Str:
			if !isByte(t.Elem()) {
				unsup("string to rune slice")
			}
			o := e.newObj(OBytes, t.Elem(), "strbytes")
			st.H[o] = y.Seq
			return &Slice{Elem: t.Elem(), A: []SAlt{{G: smt.True, O: o, Off: y.Off, Len: y.Len, Cap: y.Len}}}
		case *Slice:
			return y
		}
	case *types.Pointer:
		return v
	}
	return &Unk{"convert to " + to.String()}
}

func (e *Exec) typeAssert(x *ssa.TypeAssert, v Val, st *State) Val {
	i, ok := v.(*Iface)
	if !ok {
		unsup("typeassert of %T", v)
	}
	okT := smt.False
	var val Val
	for _, a := range i.A {
		g := smt.SimpUnder(a.G, st.G)
		if g.IsFalse() || a.Typ == nil {
			continue
		}
		match := false
		if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			match = types.AssignableTo(a.Typ, x.AssertedType)
			if match {
				okT = smt.Or(okT, g)
				w := &Iface{A: []IAlt{{G: smt.True, Typ: a.Typ, V: a.V, ID: a.ID}}}
				if val == nil {
					val = w
				} else {
					val = e.ite(g, w, val)
				}
			}
			continue
		}
		match = types.Identical(a.Typ, x.AssertedType)
		if match {
			okT = smt.Or(okT, g)
			if val == nil {
				val = a.V
			} else {
				val = e.ite(g, a.V, val)
			}
		}
	}
	if !x.CommaOk {
		e.check(st, "typeassert", okT, x.Pos())
		if val == nil {
			return e.zero(x.AssertedType)
		}
		return val
	}
	z := e.zero(x.AssertedType)
	if val == nil {
		val = z
	} else {
		val = e.ite(okT, val, z)
	}
	return Tuple{val, okT}
}

// errNil is the condition that an interface value is nil.
func (e *Exec) ifaceNil(v Val) *T {
	i, ok := v.(*Iface)
	if !ok {
		unsup("interface expected, got %T", v)
	}
	r := smt.False
	for _, a := range i.A {
		if a.Typ == nil {
			r = smt.Or(r, a.G)
		}
	}
	return r
}

func (e *Exec) binop(op token.Token, a, b Val, ta, tb types.Type, st *State, pos token.Pos) Val {
	if x, ok := a.(*T); ok {
		y, ok := b.(*T)
		if !ok {
			unsup("binop mixed")
		}
		uns := isUnsigned(ta)
		switch op {
		case token.ADD:
			return smt.Add(x, y)
		case token.SUB:
			return smt.Sub(x, y)
		case token.MUL:
			return smt.Mul(x, y)
		case token.QUO, token.REM:
			e.check(st, "div", smt.Not(smt.Eq(y, smt.BV(0, y.W))), pos)
			if uns {
				if op == token.QUO {
					return smt.UDiv(x, y)
				}
				return smt.URem(x, y)
			}
			if op == token.QUO {
				return smt.SDiv(x, y)
			}
			return smt.SRem(x, y)
		case token.AND:
			return smt.BAnd(x, y)
		case token.OR:
			return smt.BOr(x, y)
		case token.XOR:
			return smt.BXor(x, y)
		case token.AND_NOT:
			return smt.BAnd(x, smt.BNot(y))
		case token.SHL, token.SHR:
			// shift count may have another width
			var c *T
			big := smt.False
			if y.W > x.W {
				big = smt.Not(smt.Ult(y, smt.BV(uint64(x.W), y.W)))
				c = smt.Extract(y, x.W-1, 0)
			} else {
				c = smt.ZExt(y, x.W)
			}
			if !isUnsigned(tb) && !y.IsConst() {
				e.check(st, "shift", smt.Sle(smt.BV(0, y.W), y), pos)
			}
			if op == token.SHL {
				return smt.Ite(big, smt.BV(0, x.W), smt.Shl(x, c))
			}
			if uns {
				return smt.Ite(big, smt.BV(0, x.W), smt.LShr(x, c))
			}
			return smt.Ite(big, smt.AShr(x, smt.BV(uint64(x.W-1), x.W)), smt.AShr(x, c))
		case token.EQL:
			return smt.Eq(x, y)
		case token.NEQ:
			return smt.Not(smt.Eq(x, y))
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if op == token.GTR || op == token.LEQ {
				x, y = y, x
			}
			var r *T
			if uns {
				r = smt.Ult(x, y)
			} else {
				r = smt.Slt(x, y)
			}
			if op == token.LEQ || op == token.GEQ {
				return smt.Not(r)
			}
			return r
		}
		unsup("binop %s", op)
	}
	if op == token.EQL || op == token.NEQ {
		r := e.eqVal(a, b, st)
		if op == token.NEQ {
			return smt.Not(r)
		}
		return r
	}
	if s, ok := a.(*Str); ok && op == token.ADD {
		t := b.(*Str)
		n := e.newSeq(&Seq{Kind: SCat, A: s.Seq, Off: s.Off, N: s.Len, B: t.Seq, BOff: t.Off})
		return &Str{Seq: n, Off: smt.Int(0), Len: smt.Add(s.Len, t.Len)}
	}
	unsup("binop %s on %T", op, a)
	return nil
}

// eqVal is Go's == on the given values.
func (e *Exec) eqVal(a, b Val, st *State) *T {
	switch x := a.(type) {
	case *T:
		return smt.Eq(x, b.(*T))
	case *Ptr:
		y := b.(*Ptr)
		r := smt.False
		for _, p := range x.A {
			for _, q := range y.A {
				if p.O == q.O && samePath(p.Path, q.Path) {
					r = smt.Or(r, smt.And(p.G, q.G))
				} else if p.O == q.O && p.O != nil && len(p.Path) == len(q.Path) {
					unsup("pointer comparison with symbolic paths")
				}
			}
		}
		return r
	case *Slice:
		y := b.(*Slice)
		if len(y.A) == 1 && y.A[0].O == nil {
			return e.sliceNil(x, st)
		}
		if len(x.A) == 1 && x.A[0].O == nil {
			return e.sliceNil(y, st)
		}
		unsup("slice comparison")
	case *Fn:
		y := b.(*Fn)
		nilOf := func(f *Fn) *T {
			r := smt.False
			for _, p := range f.A {
				if p.F == nil {
					r = smt.Or(r, p.G)
				}
			}
			return r
		}
		if len(y.A) == 1 && y.A[0].F == nil {
			return nilOf(x)
		}
		return nilOf(y)
	case *Iface:
		y := b.(*Iface)
		r := smt.False
		for _, p := range x.A {
			for _, q := range y.A {
				g := smt.And(p.G, q.G)
				if g.IsFalse() {
					continue
				}
				switch {
				case p.Typ == nil && q.Typ == nil:
					r = smt.Or(r, g)
				case p.Typ == nil || q.Typ == nil:
				case p.ID != "" || q.ID != "":
					if strings.HasPrefix(p.ID, "sentinel:") && p.ID == q.ID {
						r = smt.Or(r, g)
					} else if p.ID == q.ID {
						r = smt.Or(r, smt.And(g, e.fresh("erreq", 0)))
					}
				case types.Identical(p.Typ, q.Typ):
					r = smt.Or(r, smt.And(g, e.eqVal(p.V, q.V, st)))
				}
			}
		}
		return r
	case *Str:
		return e.strEq(x, b.(*Str))
	case *Struct:
		y := b.(*Struct)
		r := smt.True
		for i := range x.F {
			r = smt.And(r, e.eqVal(x.F[i], y.F[i], st))
		}
		return r
	case *ByteArr:
		y := b.(*ByteArr)
		r := smt.True
		for i := int64(0); i < x.N; i++ {
			r = smt.And(r, smt.Eq(e.atB(x.Seq, smt.Int(i)), e.atB(y.Seq, smt.Int(i))))
		}
		return r
	}
	unsup("== on %T", a)
	return nil
}

func (e *Exec) strEq(x, y *Str) *T {
	if x == y {
		return smt.True
	}
	if x.Op != nil && y.Op != nil {
		if x.Len.IsConst() && y.Len.IsConst() && x.Len != y.Len {
			return smt.False
		}
		return smt.Eq(x.Op, y.Op)
	}
	if x.Seq == y.Seq && x.Off == y.Off {
		return smt.Eq(x.Len, y.Len)
	}
	n := int64(-1)
	if x.Len.IsConst() {
		n = x.Len.Signed()
	} else if y.Len.IsConst() {
		n = y.Len.Signed()
	}
	if n >= 0 && n <= 256 {
		r := smt.Eq(x.Len, y.Len)
		for i := int64(0); i < n; i++ {
			r = smt.And(r, smt.Eq(e.atB(x.Seq, smt.AddC(x.Off, i)), e.atB(y.Seq, smt.AddC(y.Off, i))))
		}
		return r
	}
	return smt.Eq(e.strOp(x), e.strOp(y))
}

// strOp gives an identity term for a string.
func (e *Exec) strOp(s *Str) *T {
	if s.Op != nil {
		return s.Op
	}
	return e.rangeOp(s.Seq, s.Off, s.Len)
}

// bytesEq gives the equality of two byte ranges as a goal (positive) condition: fully expanded when short.
func (e *Exec) rangeEq(a *Seq, ao *T, b *Seq, bo *T, n int64) *T {
	r := smt.True
	for i := int64(0); i < n; i++ {
		r = smt.And(r, smt.Eq(e.atB(a, smt.AddC(ao, i)), e.atB(b, smt.AddC(bo, i))))
	}
	return r
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var Debug = os.Getenv("GOVC_DEBUG") != ""

func dbg(f string, a ...interface{}) {
	if Debug {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
