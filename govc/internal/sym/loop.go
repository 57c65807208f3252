package sym

import (
	"fmt"
	"go/types"
	"os"
	"slices"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"govc/internal/smt"
)

// Loop is one loop in one calling context. Its state at the start of iteration c is a function of c: every
// variable the body changes is a leaf whose value at c is either a closed form or an uninterpreted function of c.
// Obligations are generated once, for an arbitrary iteration K; the code after the loop continues from iteration N,
// the one that leaves; other iterations are instantiated when an element they appended is read.
type Loop struct {
	Key    string
	Name   string
	K, N   *T
	nl     *natLoop
	fr     *frame
	st0    State
	g0     *T
	phi    []*ssa.Phi
	phiL   map[*ssa.Phi]*leaf
	objL   map[*Obj]*leaf
	leaves []*leaf
	ctrs   []*T
	path   string
	fnst   []*ssa.Function
	insts  map[*T]*inst
	invs   []*cand
	depth  int
	stats  *LoopNote
}

type LoopNote struct {
	Where string
	Modes []string
	Invs  int
}

type inst struct {
	facts []*T
	delta map[string]delta
	vals  map[string]Val // what the iteration stored into a filled sequence
	busy  bool
}

// instFail reports an iteration whose contribution refers to itself.
type instFail struct {
	L    *Loop
	leaf *leaf
}

type delta struct {
	seq      *Seq
	off, len *T
}

type leaf struct {
	of    types.Type // the pointer a part of a message carried as a value belongs to
	id    string
	mode  string // same, uf, lin, struct, acc, win, iface, msg, seq, unk
	entry Val
	w     int
	step  *T
	subs  []*leaf
	keys  []string // message fields
	has   map[string]*leaf
	acc   *Acc
	obj   *Obj
	typ   types.Type
	demot bool
	off   *T // fill, rev: the first index written
	hi    *T // rev: the last index
	rng   bool
}

type loopMemo struct {
	modes    map[string]modeRec
	invs     []*cand
	ctrs     []*T
	unrolled bool
}
type modeRec struct {
	mode  string
	step  *T
	demot bool
	rng   bool
}

type cand struct {
	kind string // ge0, geEntry, le, ge, diff, sum, x
	a, b string
	bnd  *T
	off  int64
	ol   *Loop // x: a loop that ran before
	sm   map[*T]*T
}

func (c *cand) String() string { return fmt.Sprintf("%s(%s,%s,%v,%d)", c.kind, c.a, c.b, c.bnd, c.off) }

const unrollMax = 400

func (e *Exec) execLoop(fr *frame, nl *natLoop, in []edge) []edge {
	for i := range in {
		e.capture(fr, &in[i])
	}
	st0 := e.enterBlock(fr, nl.header, in)
	var phis []*ssa.Phi
	phi0 := map[*ssa.Phi]Val{}
	for _, x := range nl.header.Instrs {
		p, ok := x.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		phi0[p] = fr.env[p]
	}
	key := e.pathKey(fmt.Sprintf("%s|loop%d", e.path, nl.header.Index))
	mk := e.mark()
	nrets := len(fr.rets)
	if ex, ok := e.tryUnroll(fr, nl, st0, phi0); ok {
		return ex
	}
	e.rollback(mk)
	fr.rets = fr.rets[:nrets]
	for _, p := range phis {
		fr.env[p] = phi0[p]
	}
	for _, p := range phis {
		if bt, ok := p.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			// strings grown in a loop: unrolled while another iteration is possible
			if ex, ok := e.tryUnrollSym(fr, nl, st0, phi0, 24); ok {
				return ex
			}
			e.rollback(mk)
			fr.rets = fr.rets[:nrets]
			for _, p := range phis {
				fr.env[p] = phi0[p]
			}
			break
		}
	}
	exits := e.genericLoop(fr, nl, st0, phis, phi0, key)
	for i := range exits {
		m := strip(st0.E, nl)
		for v, x := range exits[i].st.E {
			m[v] = x
		}
		exits[i].st.E = m
	}
	return exits
}

// tryUnroll executes the loop concretely when its header condition folds to a constant each time round.
func (e *Exec) tryUnroll(fr *frame, nl *natLoop, st0 State, phi0 map[*ssa.Phi]Val) ([]edge, bool) {
	return e.unroll(fr, nl, st0, phi0, 0)
}

// tryUnrollSym executes up to max iterations; it succeeds when the solver shows that no further one is possible.
func (e *Exec) tryUnrollSym(fr *frame, nl *natLoop, st0 State, phi0 map[*ssa.Phi]Val, max int) ([]edge, bool) {
	return e.unroll(fr, nl, st0, phi0, max)
}

func (e *Exec) unroll(fr *frame, nl *natLoop, st0 State, phi0 map[*ssa.Phi]Val, max int) ([]edge, bool) {
	last := nl.header.Instrs[len(nl.header.Instrs)-1]
	if _, ok := last.(*ssa.If); !ok {
		return nil, false
	}
	path := e.path
	defer func() { e.path = path }()
	var exits []edge
	in := strip(st0.E, nl)
	cur := []edge{{to: nl.header, st: State{G: st0.G, H: st0.H.clone(), E: in}, phis: phi0}}
	for it := 0; it < unrollMax && (max == 0 || it < max); it++ {
		e.path = e.pathKey(fmt.Sprintf("%s|u%d", path, it))
		delete(e.ifConst, nl.header)
		m := e.mark()
		nx := len(exits)
		var ex, backs []edge
		ok := true
		if max == 0 {
			e.watchIf = append(e.watchIf, nl.header)
			ex, backs, ok = e.runRegionWatch(fr, nl, cur)
			e.watchIf = e.watchIf[:len(e.watchIf)-1]
		} else {
			ex, backs = e.runRegion(fr, nl, cur)
			var live []edge
			for _, b := range backs {
				// no use asking before the round the loop ended in last time
				if it+1 < e.unrolled[nl.header] || !e.prove(smt.Not(b.st.G), 2000) {
					live = append(live, b)
				}
			}
			backs = live
			if len(backs) == 0 {
				if e.unrolled == nil {
					e.unrolled = map[*ssa.BasicBlock]int{}
				}
				e.unrolled[nl.header] = it + 1
			}
		}
		if !ok {
			_ = m
			_ = nx
			return nil, false
		}
		if lo := nl.liveOut(); len(lo) > 0 {
			for i := range ex {
				m := map[ssa.Value]Val{}
				for v, x := range ex[i].st.E {
					m[v] = x
				}
				for _, v := range lo {
					if _, set := m[v]; set {
						continue
					}
					if x, ok := fr.env[v]; ok {
						m[v] = x
					}
				}
				ex[i].st.E = m
			}
		}
		exits = append(exits, ex...)
		if len(backs) == 0 {
			return exits, true
		}
		for i := range backs {
			backs[i].st.E = strip(backs[i].st.E, nl)
		}
		cur = backs
	}
	return nil, false
}

type notConst struct{ b *ssa.BasicBlock }

func (e *Exec) runRegionWatch(fr *frame, nl *natLoop, in []edge) (ex, backs []edge, ok bool) {
	d, fs, pth, ls, ct, q := e.depth, len(e.fnStack), e.path, len(e.loopStack), len(e.ctrs), e.quiet
	w := len(e.watchIf)
	defer func() {
		if r := recover(); r != nil {
			if nc, is := r.(notConst); is && nc.b == nl.header {
				e.depth, e.fnStack, e.path, e.loopStack, e.ctrs, e.quiet = d, e.fnStack[:fs], pth, e.loopStack[:ls], e.ctrs[:ct], q
				e.watchIf = e.watchIf[:w]
				ok = false
				return
			}
			panic(r)
		}
	}()
	ex, backs = e.runRegion(fr, nl, in)
	return ex, backs, true
}

func (e *Exec) pathKey(s string) string {
	id, ok := e.pathIDs[s]
	if !ok {
		id = len(e.pathIDs) + 1
		e.pathIDs[s] = id
	}
	return fmt.Sprintf("p%d", id)
}

func (e *Exec) genericLoop(fr *frame, nl *natLoop, st0 State, phis []*ssa.Phi, phi0 map[*ssa.Phi]Val, key string) []edge {
	L := &Loop{Key: key, Name: "L" + key[1:] + "_" + e.lemma, nl: nl, fr: fr, st0: State{G: st0.G, H: st0.H.clone()}, g0: st0.G, phi: phis, phiL: map[*ssa.Phi]*leaf{}, objL: map[*Obj]*leaf{}, path: key, insts: map[*T]*inst{}}
	L.ctrs = append(L.ctrs, e.ctrs...)
	L.fnst = append(L.fnst, e.fnStack...)
	L.depth = e.depth
	smt.DeclareRange(L.Name+"!k", 0, maxLen)
	L.K = smt.App(L.Name+"!k", 64)
	smt.DeclareRange(L.Name+"!n", 0, maxLen)
	L.N = smt.App(L.Name+"!n", 64, L.ctrs...)
	env0 := make(map[ssa.Value]Val, len(fr.env))
	for k, v := range fr.env {
		env0[k] = v
	}
	L.fr = &frame{fn: fr.fn, env: env0, bind: fr.bind, args: fr.args, cfg: fr.cfg}
	memo := e.loopMemo[key]
	for _, p := range phis {
		L.phiL[p] = e.newLeaf(L, p.Name(), phi0[p], p.Type(), memo)
	}
	if memo != nil {
		// objects known to be modified: found again by analysing a quiet pass below
	}
	R := func(c *T) *T { return smt.App(L.Name+"!reach", 0, append(append([]*T{}, L.ctrs...), c)...) }
	where := fmt.Sprintf("%s (%s)", shortFn(fr.fn), e.W.pos(firstPos(nl.header)))
	gk := smt.And(L.g0, R(L.K))
	m0 := e.mark()
	var back State
	var backPhi map[*ssa.Phi]Val
	noBack, deadTested := false, false
	// passes until the modes are stable
	settled := false
	for pass := 0; pass < 14; pass++ {
		e.rollback(m0)
		L.insts = map[*T]*inst{}
		hdr, backs, bad := e.bodyTry(L, L.K, gk)
		if bad != nil {
			switch bad.mode {
			case "mptr":
				e.toBox(L, bad)
			case "fill":
				dbg("leaf %s refers to itself", bad.id)
				bad.mode = "seq"
			default:
				dbg("leaf %s refers to itself", bad.id)
				bad.giveUp()
			}
			continue
		}
		if len(backs) == 0 {
			noBack = true
			break
		}
		back, backPhi = e.mergeBacks(L, backs)
		if Debug {
			var ms []string
			for _, l := range e.flat(L) {
				ms = append(ms, l.id+":"+l.mode)
			}
			dbg("pass %d %s: %v", pass, L.Name, ms)
		}
		e.stepLost = false
		if !e.refine(L, hdr, back, backPhi) {
			settled = true
			break
		}
		if e.stepLost && !deadTested {
			deadTested = true
			if e.proveAny(gk, smt.False) == 0 {
				dbg("loop %s is never reached", L.Name)
				for _, l := range e.flat(L) {
					if l.mode == "acc" || l.mode == "fill" {
						l.giveUp()
					}
				}
				noBack = true
				break
			}
		}
	}
	if !noBack && !settled {
		unsup("loop analysis does not settle in %s", where)
	}
	if !noBack {
		bps := map[string]Val{}
		for _, p := range phis {
			bps[L.phiL[p].id] = backPhi[p]
		}
		e.exclusive(L, bps, back)
	}
	note := &LoopNote{Where: where}
	for _, l := range e.flat(L) {
		note.Modes = append(note.Modes, l.id+":"+l.mode)
	}
	L.stats = note
	if e.quiet == 0 {
		// invariants
		if !noBack {
			L.invs = e.houdini(L, gk, back, backPhi)
			for _, c := range L.invs {
				if l := L.find(c.a, e); c.kind == "rng" && l.mode == "uf" {
					l.rng = true
					smt.DeclareRange(L.Name+"."+l.id+"~", -rngMax, rngMax)
					for k := range e.accObjs {
						if strings.HasPrefix(k, fmt.Sprintf("%p|", L)) {
							delete(e.accObjs, k)
						}
					}
				}
			}
		}
		e.rollback(m0)
		L.insts = map[*T]*inst{}
		note.Invs = len(L.invs)
		e.LoopNotes = append(e.LoopNotes, fmt.Sprintf("%s modes=%v invariants=%d", where, note.Modes, note.Invs))
		for _, l := range e.flat(L) {
			if l.mode == "lin" && l.step.IsConst() && l.step.Signed() > 1 && !slices.Contains(e.stepSeen, l.step) {
				e.stepSeen = append(e.stepSeen, l.step)
			}
		}
		dbg("loop %s %s: %v inv=%v", L.Name, where, note.Modes, L.invs)
		mm := &loopMemo{invs: L.invs, ctrs: L.ctrs, modes: map[string]modeRec{}}
		for _, l := range e.flat(L) {
			mm.modes[l.id] = modeRec{l.mode, l.step, l.demot, l.rng}
		}
		e.loopMemo[key] = mm
		// base case
		for _, c := range L.invs {
			goal := smt.Implies(L.g0, e.candAt(L, c, smt.Int(0)))
			if !goal.IsTrue() {
				e.obligeK("invariant-base", goal, L.g0, nl)
			} else {
				e.ntriv++
			}
		}
		// generic iteration, with obligations
		e.addFact(smt.Implies(R(L.K), smt.Sle(smt.Int(0), L.K)))
		e.assumeInv(L, gk, L.K)
		_, backs := e.bodyAt(L, L.K, gk, false)
		if len(backs) > 0 {
			back, backPhi = e.mergeBacks(L, backs)
			for _, c := range L.invs {
				goal := smt.Implies(smt.And(gk, back.G), e.candBack(L, c, back, backPhi))
				if !goal.IsTrue() {
					e.obligeK("invariant-step", goal, gk, nl)
				} else {
					e.ntriv++
				}
			}
			e.termination(L, gk, back, backPhi)
		}
	} else if memo != nil {
		e.rollback(m0)
		L.insts = map[*T]*inst{}
		from, to := memo.ctrs, L.ctrs
		sm := map[*T]*T{}
		for i := range from {
			if i < len(to) && from[i] != to[i] {
				sm[from[i]] = to[i]
			}
		}
		for _, c := range memo.invs {
			d := *c
			d.sm = sm
			if d.bnd != nil && len(sm) > 0 {
				d.bnd = smt.NewSubst(sm).Apply(d.bnd)
			}
			L.invs = append(L.invs, &d)
		}
	} else {
		e.rollback(m0)
		L.insts = map[*T]*inst{}
	}
	// leaving iteration
	e.Loops = append(e.Loops, L)
	e.assumeInv(L, L.g0, L.N)
	if len(e.followed) > 0 && len(L.ctrs) == 0 {
		e.hintAt(e.followed, L.N)
	}
	exits := e.exitPass(fr, L)
	if len(e.followed) > 0 && len(L.ctrs) == 0 {
		for _, f := range e.followed {
			if len(f.ctrs) == 0 {
				e.hintAt([]*Loop{L}, f.N)
			}
		}
	}
	return exits
}

func firstPos(b *ssa.BasicBlock) (p tokenPos) {
	for _, i := range b.Instrs {
		if i.Pos() != 0 {
			return i.Pos()
		}
	}
	return 0
}

func (e *Exec) obligeK(kind string, goal, g *T, nl *natLoop) {
	if e.quiet > 0 {
		return
	}
	e.oblige(kind, "", goal, g, firstPos(nl.header))
}

// bodyAt runs one iteration at counter c. It returns the header heap and the back edges.
func (e *Exec) bodyAt(L *Loop, c, g *T, quiet bool) (Heap, []edge) {
	env := make(map[ssa.Value]Val, len(L.fr.env))
	for k, v := range L.fr.env {
		env[k] = v
	}
	f := &frame{fn: L.fr.fn, env: env, bind: L.fr.bind, args: L.fr.args, cfg: L.fr.cfg}
	h, phis := e.headerState(L, c)
	hdr := h.clone()
	saved := e.enterLoop(L, c, quiet)
	defer e.leaveLoop(saved)
	_, backs := e.runRegion(f, L.nl, []edge{{to: L.nl.header, st: State{G: g, H: h}, phis: phis}})
	return hdr, backs
}

// bodyTry is a quiet bodyAt; it returns a leaf whose value refers to itself, if there is one.
func (e *Exec) bodyTry(L *Loop, c, g *T) (h Heap, backs []edge, bad *leaf) {
	d, fs, pth, ls, ct, q := e.depth, e.fnStack, e.path, e.loopStack, e.ctrs, e.quiet
	w, tl, occ := e.watchIf, e.touchLog, e.occ
	defer func() {
		if r := recover(); r != nil {
			if f, is := r.(instFail); is && f.L == L {
				e.depth, e.fnStack, e.path, e.loopStack, e.ctrs, e.quiet = d, fs, pth, ls, ct, q
				e.watchIf, e.touchLog, e.occ = w, tl, occ
				bad = f.leaf
				return
			}
			panic(r)
		}
	}()
	h, backs = e.bodyAt(L, c, g, true)
	return h, backs, nil
}

func (e *Exec) exitPass(fr *frame, L *Loop) []edge {
	h, phis := e.headerState(L, L.N)
	saved := e.enterLoop(L, L.N, true)
	defer e.leaveLoop(saved)
	nr := len(fr.rets)
	exits, _ := e.runRegion(fr, L.nl, []edge{{to: L.nl.header, st: State{G: L.g0, H: h}, phis: phis}})
	if len(fr.rets) != nr {
		panic("return inside a loop region")
	}
	// iteration N is the one that leaves the loop (that there is one is the termination obligation)
	left := smt.False
	for i := range exits {
		left = smt.Or(left, exits[i].st.G)
		e.capture(fr, &exits[i])
	}
	e.addFact(smt.Implies(L.g0, left))
	for _, o := range sortedObjs(L.objL) {
		if l := L.objL[o]; l.mode == "rev" {
			if q := e.reversed(L, l); q != nil {
				for i := range exits {
					if exits[i].st.H[o] == h[o] {
						exits[i].st.H[o] = q
					}
				}
			}
		}
	}
	return exits
}

// reversed is the whole list in reverse order, when the loop went to the middle of it; nil when that is not shown.
func (e *Exec) reversed(L *Loop, l *leaf) *Seq {
	q := l.entry.(*Seq)
	if q.Kind != SAcc || l.off == nil || l.off != smt.Int(0) {
		return nil
	}
	n := e.scalarAt(q.Acc.L, q.Acc.leaf.subs[0], q.K)
	if smt.AddC(l.hi, 1) != n || !e.prove(smt.Implies(L.g0, smt.Sle(smt.Sub(l.hi, L.N), L.N)), 3000) {
		return nil
	}
	hi := l.hi
	return e.memoSeq(L, l, smt.Int(-1), &Seq{Kind: SFun, Off: smt.Int(0), N: hi, Elem: q.Elem, Fun: func(i *T) Val { return e.At(q, smt.Sub(hi, i)) }})
}

// prune drops the alternatives of a list that the path excludes.
func (e *Exec) prune(s *Slice, g *T) *Slice {
	if len(s.A) < 2 || isByte(s.Elem) {
		return s
	}
	n := 0
	for _, a := range s.A {
		n += size(a.G, 40)
	}
	if n < 40 {
		return s
	}
	key := fmt.Sprintf("%p|%d", s, g.ID)
	if r, ok := e.pruned[key]; ok {
		return r
	}
	r := &Slice{Elem: s.Elem}
	for _, a := range s.A {
		if x := smt.SimpUnder(a.G, g); !x.IsFalse() && (x.IsTrue() || !e.prove(smt.Implies(g, smt.Not(x)), 3000)) {
			r.A = append(r.A, a)
		}
	}
	dbg("pruned %d alternatives to %d", len(s.A), len(r.A))
	if len(r.A) == 2 {
		for i, a := range r.A {
			if b := r.A[1-i]; a.O == nil && b.O != nil {
				if z := smt.Eq(b.Len, smt.Int(0)); e.prove(smt.Implies(g, smt.Eq(z, a.G)), 3000) {
					r.A[i].G, r.A[1-i].G = z, smt.Not(z)
					dbg("  nil only when empty")
				}
			}
		}
	}
	if len(r.A) == 1 {
		r.A[0].G = smt.True
	}
	e.pruned[key] = r
	return r
}

func (e *Exec) headerState(L *Loop, c *T) (Heap, map[*ssa.Phi]Val) {
	h := L.st0.H.clone()
	for _, o := range sortedObjs(L.objL) {
		l := L.objL[o]
		h[o] = e.leafAt(L, l, c)
	}
	phis := map[*ssa.Phi]Val{}
	for _, p := range L.phi {
		v := e.leafAt(L, L.phiL[p], c)
		phis[p] = v
		e.installAcc(L, L.phiL[p], c, h)
	}
	for _, o := range sortedObjs(L.objL) {
		e.installAcc(L, L.objL[o], c, h)
	}
	return h, phis
}

func sortedObjs(m map[*Obj]*leaf) []*Obj {
	var r []*Obj
	for o := range m {
		r = append(r, o)
	}
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && r[j].ID < r[j-1].ID; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

type ctxSave struct {
	ctrs  []*T
	path  string
	fnst  []*ssa.Function
	depth int
	quiet int
	loops []*Loop
	occ   map[string]int
	watch []*ssa.BasicBlock
}

func (e *Exec) enterLoop(L *Loop, c *T, quiet bool) ctxSave {
	s := ctxSave{e.ctrs, e.path, e.fnStack, e.depth, e.quiet, e.loopStack, e.occ, e.watchIf}
	e.ctrs = append(append([]*T{}, L.ctrs...), c)
	e.path = L.path
	e.fnStack = append([]*ssa.Function{}, L.fnst...)
	e.depth = L.depth
	e.occ = map[string]int{}
	e.loopStack = append(append([]*Loop{}, s.loops...), L)
	if quiet {
		e.quiet++
	}
	return s
}
func (e *Exec) leaveLoop(s ctxSave) {
	e.ctrs, e.path, e.fnStack, e.depth, e.quiet, e.loopStack, e.occ, e.watchIf = s.ctrs, s.path, s.fnst, s.depth, s.quiet, s.loops, s.occ, s.watch
}

func (e *Exec) mergeBacks(L *Loop, backs []edge) (State, map[*ssa.Phi]Val) {
	var sts []State
	for _, b := range backs {
		sts = append(sts, b.st)
	}
	m, rel := e.mergeStates(sts)
	ph := map[*ssa.Phi]Val{}
	for _, p := range L.phi {
		var v Val
		for i := len(backs) - 1; i >= 0; i-- {
			w := backs[i].phis[p]
			if v == nil {
				v = w
			} else {
				v = e.ite(rel[i], w, v)
			}
		}
		ph[p] = e.norm(v, m.G)
	}
	return m, ph
}

// Leaves ------------------------------------------------------------------------------

func (e *Exec) newLeaf(L *Loop, id string, entry Val, typ types.Type, memo *loopMemo) *leaf {
	if t, ok := entry.(*T); ok {
		entry = smt.SimpUnder(t, L.st0.G)
	}
	l := &leaf{id: id, entry: entry, mode: "same", typ: typ}
	switch x := entry.(type) {
	case *T:
		l.w = x.W
		l.mode = "uf"
		if n, ok := typ.(*types.Named); ok {
			l.of = n
		}
		if x.W == 0 && x.IsConst() {
			l.mode = "same"
		}
	case *Struct:
		l.mode = "struct"
		for i, f := range x.F {
			var ft types.Type
			if st, ok := x.typ(); ok {
				ft = st.Field(i).Type()
			}
			l.subs = append(l.subs, e.newLeaf(L, fmt.Sprintf("%s.%d", id, i), f, ft, memo))
		}
	}
	if memo != nil {
		if r, ok := memo.modes[id]; ok {
			switch r.mode {
			case "lin", "uf":
				l.mode, l.demot = r.mode, r.demot
				if r.mode == "lin" {
					l.mode = "uf" // rediscovered
				}
			}
		}
	}
	return l
}

func (s *Struct) typ() (*types.Struct, bool) {
	if s.Typ == nil {
		return nil, false
	}
	st, ok := s.Typ.Underlying().(*types.Struct)
	return st, ok
}

func (e *Exec) flat(L *Loop) []*leaf {
	var r []*leaf
	var walk func(l *leaf)
	walk = func(l *leaf) {
		r = append(r, l)
		for _, s := range l.subs {
			walk(s)
		}
	}
	for _, p := range L.phi {
		walk(L.phiL[p])
	}
	for _, o := range sortedObjs(L.objL) {
		walk(L.objL[o])
	}
	return r
}

func (e *Exec) uf(L *Loop, id string, w int, c *T) *T {
	return smt.App(L.Name+"."+id, w, append(append([]*T{}, L.ctrs...), c)...)
}

func (e *Exec) scalarAt(L *Loop, l *leaf, c *T) *T {
	switch l.mode {
	case "same":
		return l.entry.(*T)
	case "lin":
		var k *T
		if l.w == 64 {
			k = c
		} else {
			k = smt.Extract(c, l.w-1, 0)
		}
		return smt.Add(l.entry.(*T), smt.Mul(l.step, k))
	}
	if c.IsConst() && c.Val == 0 {
		return l.entry.(*T)
	}
	id := l.id
	if e.ranged(L, l) {
		id += "~"
	}
	return e.uf(L, id, l.w, c)
}

// ranged reports whether the leaf was shown to stay within the bounds of lengths: its function is then declared
// with that range.
func (e *Exec) ranged(L *Loop, l *leaf) bool {
	if l.rng {
		return true
	}
	if m := e.loopMemo[L.Key]; m != nil && m.modes[l.id].rng {
		l.rng = true
		smt.DeclareRange(L.Name+"."+l.id+"~", -rngMax, rngMax)
	}
	return l.rng
}

const rngMax = 2 * maxLen

// leafAt is the value of a leaf at the start of iteration c (a heap content for object leaves).
func (e *Exec) leafAt(L *Loop, l *leaf, c *T) interface{} {
	switch l.mode {
	case "same":
		return l.entry
	case "uf", "lin":
		return e.scalarAt(L, l, c)
	case "struct":
		x := l.entry.(*Struct)
		n := &Struct{Typ: x.Typ}
		for _, s := range l.subs {
			n.F = append(n.F, e.leafAt(L, s, c))
		}
		return n
	case "iface":
		g := e.scalarAt(L, l.subs[0], c)
		return &Iface{A: []IAlt{{G: g}, {G: smt.Not(g), Typ: types.Universe.Lookup("error").Type(), V: &Unk{"loop error"}, ID: "err"}}}
	case "win":
		x := l.entry.(*Slice)
		off, ln, cp := e.scalarAt(L, l.subs[0], c), e.scalarAt(L, l.subs[1], c), e.scalarAt(L, l.subs[2], c)
		return &Slice{Elem: x.Elem, A: []SAlt{{G: smt.True, O: l.obj, Off: off, Len: ln, Cap: cp}}}
	case "acc":
		x := l.entry.(*Slice)
		ln := e.scalarAt(L, l.subs[0], c)
		r := &Slice{Elem: x.Elem}
		z := smt.Int(0)
		en := e.sliceNil(x, &L.st0)
		ng := smt.And(en, smt.Eq(ln, z))
		if !ng.IsFalse() {
			r.A = append(r.A, SAlt{G: ng, Off: z, Len: z, Cap: z})
		}
		if !ng.IsTrue() {
			o := e.accObj(L, l, c)
			r.A = append(r.A, SAlt{G: smt.Not(ng), O: o, Off: z, Len: ln, Cap: ln})
		}
		return r
	case "msg":
		m := l.entry.(*Msg).clone()
		for i, k := range l.keys {
			m.F[k] = e.leafAt(L, l.subs[i], c)
		}
		for k, hl := range l.has {
			m.Has[k] = e.scalarAt(L, hl, c)
		}
		return m
	case "fill":
		x := l.entry.(*Seq)
		off := l.off
		if off == nil {
			off = smt.Int(0)
		}
		return e.memoSeq(L, l, c, &Seq{Kind: SFill, A: x, Off: off, K: c, Fill: l, FillL: L, Elem: x.Elem})
	case "rev":
		x := l.entry.(*Seq)
		lo, hi := l.off, l.hi
		if lo == nil {
			lo, hi = smt.Int(0), smt.Int(0)
		}
		return e.memoSeq(L, l, c, &Seq{Kind: SRev, A: x, Off: lo, N: hi, K: c, Elem: x.Elem})
	case "seq":
		// arbitrary content
		s := &Seq{Kind: SBase, Name: L.Name + "." + l.id, Args: append(append([]*T{}, L.ctrs...), c)}
		s.Elem = l.entry.(*Seq).Elem
		return e.newSeq(s)
	case "any":
		if c.IsConst() && c.Val == 0 {
			return l.entry
		}
		v := e.symVal(l.entry.(*Slice).typ(), L.Name+"."+l.id, append(append([]*T{}, L.ctrs...), c))
		for _, a := range v.(*Slice).A {
			if a.O != nil {
				a.O.Protected, a.O.Inst = false, true
			}
		}
		return v
	case "mptr", "box":
		return e.msgPtrAt(L, l, c)
	case "unk":
		return &Unk{"value changed by loop at " + L.Name + " leaf " + l.id}
	}
	panic("leaf mode " + l.mode)
}

// accObj is the backing object of an accumulator at iteration c; its content is frozen.
func (e *Exec) accObj(L *Loop, l *leaf, c *T) *Obj {
	k := fmt.Sprintf("%p|%s|%d", L, l.id, c.ID)
	if o, ok := e.accObjs[k]; ok {
		return o
	}
	x := l.entry.(*Slice)
	kind := OList
	s := &Seq{Kind: SAcc, Acc: l.acc, K: c, Elem: x.Elem}
	if isByte(x.Elem) {
		kind = OBytes
		s.Elem = nil
	}
	o := e.newObj(kind, x.Elem, "acc")
	o.Loops = nil
	o.Frozen = e.newSeq(s)
	e.accObjs[k] = o
	return o
}

func (e *Exec) installAcc(L *Loop, l *leaf, c *T, h Heap) {}

// norm simplifies a value under a guard.
func (e *Exec) norm(v Val, g *T) Val {
	switch x := v.(type) {
	case *T:
		return smt.SimpUnder(x, g)
	case *Ptr:
		n := &Ptr{}
		for _, a := range x.A {
			a.G = smt.SimpUnder(a.G, g)
			if !a.G.IsFalse() {
				n.A = append(n.A, a)
			}
		}
		return n
	case *Slice:
		n := &Slice{Elem: x.Elem}
		for _, a := range x.A {
			a.G = smt.SimpUnder(a.G, g)
			if !a.G.IsFalse() {
				a.Off, a.Len, a.Cap = smt.SimpUnder(a.Off, g), smt.SimpUnder(a.Len, g), smt.SimpUnder(a.Cap, g)
				n.A = append(n.A, a)
			}
		}
		return n
	case *Iface:
		n := &Iface{}
		for _, a := range x.A {
			a.G = smt.SimpUnder(a.G, g)
			if !a.G.IsFalse() {
				n.A = append(n.A, a)
			}
		}
		return n
	case *Struct:
		n := &Struct{Typ: x.Typ}
		for _, f := range x.F {
			n.F = append(n.F, e.norm(f, g))
		}
		return n
	}
	return v
}

func (e *Exec) sameVal(a, b Val) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *T:
		return false
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok || len(x.A) != len(y.A) {
			return false
		}
		for i := range x.A {
			if x.A[i].O != y.A[i].O || x.A[i].G != y.A[i].G || !samePath(x.A[i].Path, y.A[i].Path) {
				return false
			}
		}
		return true
	case *Slice:
		y, ok := b.(*Slice)
		if !ok || len(x.A) != len(y.A) {
			return false
		}
		for i := range x.A {
			if x.A[i] != y.A[i] {
				return false
			}
		}
		return true
	case *Iface:
		y, ok := b.(*Iface)
		if !ok || len(x.A) != len(y.A) {
			return false
		}
		for i := range x.A {
			p, q := x.A[i], y.A[i]
			if p.G != q.G || (p.Typ == nil) != (q.Typ == nil) || p.ID != q.ID {
				return false
			}
			if p.Typ != nil && p.ID == "" && !e.sameVal(p.V, q.V) {
				return false
			}
			if p.ID == "err" && p.V != q.V {
				return false
			}
		}
		return true
	case *Struct:
		y, ok := b.(*Struct)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !e.sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *Str:
		y, ok := b.(*Str)
		return ok && ((x.Op != nil && x.Op == y.Op) || (x.Seq == y.Seq && x.Off == y.Off && x.Len == y.Len))
	case *ByteArr:
		y, ok := b.(*ByteArr)
		return ok && x.Seq == y.Seq
	case *ListArr:
		y, ok := b.(*ListArr)
		return ok && x.Seq == y.Seq
	case *Fn:
		y, ok := b.(*Fn)
		return ok && len(x.A) == 1 && len(y.A) == 1 && x.A[0].F == y.A[0].F && len(x.A[0].Bind) == 0 && len(y.A[0].Bind) == 0
	case *Unk:
		_, ok := b.(*Unk)
		return ok
	case *Host:
		y, ok := b.(*Host)
		return ok && x.Kind == y.Kind && x.V == y.V
	}
	return false
}

// refine compares the state at the back edge with the leaf modes; it returns true when a mode changed.
func (e *Exec) refine(L *Loop, hdr Heap, back State, bp map[*ssa.Phi]Val) bool {
	ch := false
	for _, p := range L.phi {
		if e.refineLeaf(L, L.phiL[p], bp[p], back) {
			ch = true
		}
	}
	// heap
	var objs []*Obj
	for o := range back.H {
		objs = append(objs, o)
	}
	for i := 1; i < len(objs); i++ {
		for j := i; j > 0 && objs[j].ID < objs[j-1].ID; j-- {
			objs[j], objs[j-1] = objs[j-1], objs[j]
		}
	}
	for _, o := range objs {
		old, was := hdr[o]
		if !was {
			if o.Frozen == nil && o.Lazy == nil {
				continue // born in the body
			}
			if o.Inst {
				continue
			}
			old = e.get(Heap{}, o)
		}
		nw := back.H[o]
		if nw == old && L.objL[o] == nil {
			continue
		}
		l := L.objL[o]
		if l == nil {
			l = e.newObjLeaf(L, o, old, nw)
			L.objL[o] = l
			ch = true
			continue
		}
		if e.refineObj(L, l, o, hdr, nw, back) {
			ch = true
		}
	}
	return ch
}

func (e *Exec) newObjLeaf(L *Loop, o *Obj, old, nw interface{}) *leaf {
	id := fmt.Sprintf("o%s", e.objKey(L, o))
	switch x := old.(type) {
	case *Msg:
		l := &leaf{id: id, mode: "msg", entry: x, obj: o, has: map[string]*leaf{}}
		e.msgKeys(L, l, x, nw.(*Msg))
		return l
	case *Seq:
		return &leaf{id: id, mode: "fill", entry: x, obj: o}
	default:
		return e.newLeaf(L, id, old, o.Typ, nil)
	}
}

// objKey names an object deterministically within its loop context.
func (e *Exec) objKey(L *Loop, o *Obj) string {
	n := 0
	for range L.objL {
		n++
	}
	return fmt.Sprintf("%d_%s", n, clean(o.Name))
}

func (e *Exec) msgKeys(L *Loop, l *leaf, old, nw *Msg) bool {
	ch := false
	has := func(k string) bool {
		for _, x := range l.keys {
			if x == k {
				return true
			}
		}
		return false
	}
	for _, k := range sortedVals(nw.F) {
		v := nw.F[k]
		if has(k) || old.F[k] == v {
			continue
		}
		ft := fieldType(l.obj.Typ, k)
		ev := e.field(old, k, ft)
		l.keys = append(l.keys, k)
		l.subs = append(l.subs, e.newLeaf(L, l.id+"."+k, ev, ft, nil))
		ch = true
	}
	for k, v := range nw.Has {
		if l.has[k] != nil || hasOf(old, k) == v {
			continue
		}
		l.has[k] = &leaf{id: l.id + "." + k + "?has", mode: "uf", entry: hasOf(old, k), w: 0}
		ch = true
	}
	return ch
}

func sortedVals(m map[string]Val) []string {
	t := map[string]bool{}
	for k := range m {
		t[k] = true
	}
	return sortedKeys(t)
}

func fieldType(t types.Type, k string) types.Type {
	for _, fi := range msgFields(t) {
		if fi.Name == k {
			return fi.Typ
		}
	}
	unsup("field %s of %s", k, t)
	return nil
}

func (e *Exec) refineObj(L *Loop, l *leaf, o *Obj, hdr Heap, nw interface{}, back State) bool {
	switch l.mode {
	case "msg":
		m := nw.(*Msg)
		ch := e.msgKeys(L, l, l.entryMsgHdr(e, L), m)
		for i, k := range l.keys {
			v := e.norm(e.field(m, k, fieldType(o.Typ, k)), back.G)
			if e.refineLeaf(L, l.subs[i], v, back) {
				ch = true
			}
		}
		return ch
	case "fill":
		return e.refineFill(L, l, hdr[o], nw, back)
	case "rev":
		return e.refineRev(L, l, hdr[o], nw, back)
	case "seq":
		return false
	}
	return e.refineLeaf(L, l, e.norm(nw, back.G), back)
}

// memoSeq keeps one sequence per leaf state, so that its reads are shared.
func (e *Exec) memoSeq(L *Loop, l *leaf, c *T, s *Seq) *Seq {
	k := fmt.Sprintf("%p|%s|%s|%d|%d", L, l.id, l.mode, c.ID, s.Off.ID)
	if s.N != nil {
		k += fmt.Sprintf("|%d", s.N.ID)
	}
	if o, ok := e.accObjs[k]; ok {
		return o.Frozen.(*Seq)
	}
	q := e.newSeq(s)
	e.accObjs[k] = &Obj{Frozen: q}
	return q
}

// pastIf drops the alternatives of a conditional sequence that a guard excludes.
func (e *Exec) pastIf(q *Seq, g *T, prove bool) *Seq {
	for q.Kind == SIte {
		c := smt.SimpUnder(q.C, g)
		if c.IsTrue() {
			q = q.A
		} else if c.IsFalse() {
			q = q.B
		} else if !prove {
			break
		} else if w := e.proveAny(g, c, smt.Not(c)); w == 0 {
			q = q.A
		} else if w == 1 {
			q = q.B
		} else {
			break
		}
	}
	return q
}

// refineFill checks that every iteration stores one element, the one after the last iteration's.
func (e *Exec) refineFill(L *Loop, l *leaf, hdr, nw interface{}, back State) bool {
	q, ok := nw.(*Seq)
	if ok {
		q = e.pastIf(q, back.G, true)
	}
	if ok && q == hdr {
		return false
	}
	if ok && q.Kind == SStore && q.A == hdr {
		off := smt.Sub(q.Idx, L.K)
		if !e.varies(L, off) {
			if l.off == off {
				return false
			}
			if l.off == nil {
				l.off = off
				return true
			}
		}
	}
	if ok && q.Kind == SCopy && q.A == hdr {
		// a block of fixed length, after the last iteration's
		if n := smt.SimpUnder(q.N, back.G); n.IsConst() && n.Signed() > 0 && n.Signed() <= 1<<16 {
			off := smt.Sub(smt.SimpUnder(q.Off, back.G), smt.Mul(n, L.K))
			if !e.varies(L, off) {
				if l.off == off && l.step == n {
					return false
				}
				if l.off == nil {
					l.off, l.step = off, n
					return true
				}
			}
		}
	}
	l.mode, l.off, l.step = "rev", nil, nil
	return true
}

// refineRev checks that iteration c exchanges the elements lo+c and hi-c.
func (e *Exec) refineRev(L *Loop, l *leaf, hdr, nw interface{}, back State) bool {
	q, ok := nw.(*Seq)
	if ok {
		q = e.pastIf(q, back.G, true)
	}
	var first *Seq
	if ok && q.Kind == SStore {
		first = e.pastIf(q.A, back.G, true)
	}
	if first != nil && first.Kind == SStore && first.A == hdr {
		h := hdr.(*Seq)
		i, v, j, w := first.Idx, first.V, q.Idx, q.V
		if e.varies(L, smt.Sub(i, L.K)) {
			i, v, j, w = j, w, i, v
		}
		lo, hi := smt.Sub(i, L.K), smt.Add(j, L.K)
		if !e.varies(L, lo) && !e.varies(L, hi) && e.sameVal(e.At(h, j), v) && e.sameVal(e.At(h, i), w) {
			if l.off == lo && l.hi == hi {
				if e.proveG(back.G, smt.And(smt.Sle(i, j), smt.Sle(smt.Int(0), lo), smt.Sle(hi, smt.Int(maxLen)))) {
					return false
				}
			} else if l.off == nil {
				l.off, l.hi = lo, hi
				return true
			}
		}
	}
	l.mode = "seq"
	return true
}

// fillAt reads element i of a sequence a loop fills.
func (e *Exec) fillAt(s *Seq, i *T) Val {
	l, L := s.Fill, s.FillL
	i = e.nameBig(i)
	end := s.K
	if l.step != nil {
		end = smt.Mul(l.step, s.K)
	}
	in := smt.And(smt.Sle(s.Off, i), smt.Slt(i, smt.Add(s.Off, end)))
	if in.IsFalse() || l.off == nil {
		return e.At(s.A, i)
	}
	j := smt.Sub(i, s.Off)
	var r *T
	if l.step != nil {
		j, r = e.divide(L, l, j, l.step, i)
	}
	it := e.instanceOf(L, j, l)
	e.touchLog = append(e.touchLog, touch{L, j})
	var v Val
	if l.step != nil {
		d, ok := it.delta[l.id]
		if !ok {
			unsup("no block stored by iteration to %s", l.id)
		}
		v = e.At(d.seq, smt.Add(d.off, r))
	} else {
		w, ok := it.vals[l.id]
		if !ok {
			unsup("no element stored by iteration to %s", l.id)
		}
		v = w
	}
	if in.IsTrue() {
		return v
	}
	return e.ite(in, v, e.At(s.A, i))
}

// instanceOf is instance, with the leaf whose content asked for it.
func (e *Exec) instanceOf(L *Loop, j *T, l *leaf) *inst {
	busy := 0
	for _, x := range L.insts {
		if x.busy {
			busy++
		}
	}
	if in, ok := L.insts[j]; ok && in.busy || !ok && busy >= 4 {
		panic(instFail{L, l})
	}
	return e.instance(L, j)
}

// giveUp makes the leaf's value arbitrary.
func (l *leaf) giveUp() {
	l.mode = "unk"
	if _, ok := l.entry.(*Slice); ok {
		l.mode, l.subs = "any", nil
	}
}

func (s *Slice) typ() types.Type { return types.NewSlice(s.Elem) }

func (l *leaf) entryMsgHdr(e *Exec, L *Loop) *Msg { return e.leafAt(L, l, L.K).(*Msg) }

func (e *Exec) refineLeaf(L *Loop, l *leaf, bv Val, back State) bool {
	switch l.mode {
	case "unk", "any":
		return false
	case "seq":
		return false
	case "struct":
		s, ok := bv.(*Struct)
		if !ok {
			l.mode = "unk"
			return true
		}
		ch := false
		for i := range l.subs {
			if e.refineLeaf(L, l.subs[i], s.F[i], back) {
				ch = true
			}
		}
		return ch
	case "uf", "lin":
		t, ok := bv.(*T)
		if !ok {
			if _, isU := bv.(*Unk); isU {
				l.mode = "unk"
				return true
			}
			unsup("loop variable %s becomes %T", l.id, bv)
		}
		if l.mode == "uf" && !l.demot {
			cur := e.scalarAt(L, l, L.K)
			if t == cur {
				l.mode = "same"
				return true
			}
			if l.w > 0 {
				d := smt.Sub(t, cur)
				if !e.varies(L, d) {
					l.mode, l.step = "lin", d
					return true
				}
				if c := e.constStep(d, back.G); c != nil {
					l.mode, l.step = "lin", c
					return true
				}
			}
			return false
		}
		if l.mode == "lin" {
			if d := smt.Sub(t, e.scalarAt(L, l, L.K)); d != l.step && (!l.step.IsConst() || e.constStep(d, back.G) != l.step) {
				l.mode, l.demot = "uf", true
				return true
			}
		}
		return false
	case "same":
		if e.sameVal(e.norm(l.entry, back.G), bv) {
			return false
		}
		switch x := l.entry.(type) {
		case *T:
			l.mode, l.demot = "uf", true
			return true
		case *Slice:
			y, ok := bv.(*Slice)
			if !ok {
				l.mode = "unk"
				return true
			}
			return e.sliceMode(L, l, x, y, back)
		case *Iface:
			if _, ok := bv.(*Iface); !ok {
				l.mode = "unk"
				return true
			}
			l.mode = "iface"
			l.subs = []*leaf{{id: l.id + "?nil", mode: "uf", entry: e.ifaceNil(x), w: 0}}
			return true
		}
		if x, ok := l.entry.(*Ptr); ok {
			e.ptrMode(L, l, x, bv, back)
			return true
		}
		dbg("leaf %s unk: %T", l.id, l.entry)
		l.mode = "unk"
		return true
	case "mptr":
		p, ok := bv.(*Ptr)
		var n, c *T
		if ok {
			for _, a := range p.A {
				if a.O != nil && (L.objL[a.O] != nil || a.O.leaf != nil && a.O.leaf.mode == "box") {
					ok = false
				}
			}
		}
		if ok {
			n, c, ok = e.ptrOp(p, &back)
		}
		if !ok {
			dbg("leaf %s unk: content", l.id)
			l.mode, l.subs = "unk", nil
			return true
		}
		ch := e.refineLeaf(L, l.subs[0], n, back)
		return e.refineLeaf(L, l.subs[1], c, back) || ch
	case "box":
		return e.refineBox(L, l, bv, back)
	case "iface":
		return e.refineLeaf(L, l.subs[0], smt.SimpUnder(e.ifaceNil(bv), back.G), back)
	case "win":
		y := bv.(*Slice)
		if len(y.A) != 1 || y.A[0].O != l.obj {
			l.mode = "unk"
			return true
		}
		a := y.A[0]
		ch := false
		for i, t := range []*T{a.Off, a.Len, a.Cap} {
			if e.refineLeaf(L, l.subs[i], t, back) {
				ch = true
			}
		}
		return ch
	case "acc":
		y, ok := bv.(*Slice)
		if !ok {
			l.mode = "unk"
			return true
		}
		if _, ok := e.strip(L, l, L.K, y, back); !ok {
			dbg("acc %s does not strip", l.id)
			l.giveUp()
			return true
		}
		return e.refineLeaf(L, l.subs[0], smt.SimpUnder(e.sliceLen(y, &back), back.G), back)
	}
	panic("refine " + l.mode)
}

func (e *Exec) sliceMode(L *Loop, l *leaf, x, y *Slice, back State) bool {
	// window over one object
	var nx []SAlt
	for _, a := range x.A {
		if !smt.SimpUnder(a.G, L.g0).IsFalse() {
			nx = append(nx, a)
		}
	}
	if len(nx) == 1 && len(y.A) == 1 && nx[0].O != nil && y.A[0].O == nx[0].O {
		l.mode, l.obj = "win", nx[0].O
		for i, t := range []*T{nx[0].Off, nx[0].Len, nx[0].Cap} {
			l.subs = append(l.subs, &leaf{id: fmt.Sprintf("%s.w%d", l.id, i), mode: "uf", entry: t, w: 64})
		}
		return true
	}
	l.mode = "acc"
	l.subs = []*leaf{{id: l.id + ".len", mode: "uf", entry: e.sliceLen(x, &L.st0), w: 64}}
	smt.DeclareRange(L.Name+"."+l.id+".len", 0, maxLen)
	l.acc = &Acc{L: L, Name: l.id, Elem: x.Elem, Entry: x, EntryLen: l.subs[0].entry.(*T)}
	l.acc.leaf = l
	eq, eo := e.viewSeq(x, &L.st0)
	l.acc.entrySeq, l.acc.entryOff = eq, eo
	return true
}

// varies reports whether t depends on the iteration.
func (e *Exec) varies(L *Loop, t *T) bool {
	v := false
	memo := map[*T]bool{}
	var walk func(x *T)
	walk = func(x *T) {
		if v || memo[x] {
			return
		}
		memo[x] = true
		if x == L.K {
			v = true
			return
		}
		for _, a := range x.Args {
			walk(a)
		}
	}
	walk(t)
	return v
}

// strip computes what iteration c appended to the accumulator.
func (e *Exec) strip(L *Loop, l *leaf, c *T, y *Slice, back State) (delta, bool) {
	lenK := e.scalarAt(L, l.subs[0], c)
	z := smt.Int(0)
	var d delta
	have := false
	for i := len(y.A) - 1; i >= 0; i-- {
		a := y.A[i]
		var x delta
		if a.O == nil {
			x = delta{e.zeroSeqOf(y.Elem), z, z}
		} else {
			if !(a.Off.IsConst() && a.Off.Val == 0) {
				dbg("acc strip: offset %s", a.Off)
				return d, false
			}
			q := e.get(back.H, a.O).(*Seq)
			sq, ok := e.stripSeq(l, c, q, lenK)
			if !ok && lenK == z {
				sq, ok = q, true // nothing before it
			}
			if !ok {
				dbg("acc strip: seq kind %d off %v n %v lenK %v inner %d", q.Kind, q.Off, q.N, lenK, func() SeqKind {
					if q.A != nil {
						return q.A.Kind
					}
					return -1
				}())
				return d, false
			}
			x = delta{sq, z, smt.Sub(a.Len, lenK)}
			if sq == nil {
				x.seq = e.zeroSeqOf(y.Elem)
				if x.len != z {
					return d, false
				}
			}
		}
		if !have {
			d, have = x, true
		} else {
			d = delta{e.seqIte(a.G, x.seq, d.seq), z, smt.Ite(a.G, x.len, d.len)}
		}
	}
	return d, have
}

// stripSeq returns the content after the accumulator prefix (offset 0), nil when q is the prefix itself.
func (e *Exec) stripSeq(l *leaf, c *T, q *Seq, lenK *T) (*Seq, bool) {
	if q.Kind == SAcc && q.Acc == l.acc && q.K == c {
		return nil, true
	}
	switch q.Kind {
	case SCat:
		if !(q.Off.IsConst() && q.Off.Val == 0) {
			return nil, false
		}
		in, ok := e.stripSeq(l, c, q.A, lenK)
		if !ok {
			return nil, false
		}
		n := smt.Sub(q.N, lenK)
		if in == nil {
			if !(n.IsConst() && n.Val == 0) {
				return nil, false
			}
			return e.shift(q.B, q.BOff), true
		}
		return e.newSeq(&Seq{Kind: SCat, A: in, Off: smt.Int(0), N: n, B: q.B, BOff: q.BOff, Elem: q.Elem}), true
	case SIte:
		a, ok1 := e.stripSeq(l, c, q.A, lenK)
		b, ok2 := e.stripSeq(l, c, q.B, lenK)
		if !ok1 || !ok2 {
			return nil, false
		}
		if a == nil && b == nil {
			return nil, true
		}
		if a == nil {
			return b, true
		}
		if b == nil {
			return a, true
		}
		return e.seqIte(q.C, a, b), true
	case SStore:
		a, ok := e.stripSeq(l, c, q.A, lenK)
		if !ok || a == nil {
			return nil, false
		}
		i := smt.Sub(q.Idx, lenK)
		if i.Lo < 0 {
			return nil, false
		}
		return e.newSeq(&Seq{Kind: SStore, A: a, Idx: i, V: q.V, Elem: q.Elem}), true
	case SCopy:
		a, ok := e.stripSeq(l, c, q.A, lenK)
		if !ok || a == nil {
			return nil, false
		}
		i := smt.Sub(q.Off, lenK)
		if i.Lo < 0 {
			return nil, false
		}
		return e.newSeq(&Seq{Kind: SCopy, A: a, B: q.B, Off: i, N: q.N, BOff: q.BOff, Elem: q.Elem}), true
	}
	return nil, false
}

// divide gives quotient and rest of rel by the constant st; i names the element asked for.
func (e *Exec) divide(L *Loop, l *leaf, rel, st, i *T) (j, r *T) {
	j = smt.UDiv(rel, st)
	if j.Op != smt.OUDiv {
		return j, smt.Sub(rel, smt.Mul(st, j))
	}
	nm := L.Name + "." + l.id + "!div"
	smt.DeclareRange(nm, 0, maxLen)
	j = smt.App(nm, 64, append(append([]*T{}, L.ctrs...), i)...)
	r = smt.Sub(rel, smt.Mul(st, j))
	e.addFact(smt.Implies(smt.And(smt.Sle(smt.Int(0), rel), smt.Sle(rel, smt.Int(maxLen))), smt.And(smt.Sle(smt.Int(0), r), smt.Slt(r, st))))
	return j, r
}

// accAt reads element i of an accumulator.
func (e *Exec) accAt(s *Seq, i *T) Val {
	a := s.Acc
	l := a.leaf
	i = e.nameBig(i)
	rel := smt.Sub(i, a.EntryLen)
	old := smt.Slt(i, a.EntryLen)
	if old.IsTrue() {
		return e.At(a.entrySeq, smt.Add(a.entryOff, i))
	}
	var j, r *T
	ll := l.subs[0]
	switch {
	case ll.mode == "lin" && ll.step.IsConst() && ll.step.Signed() == 1:
		j, r = rel, smt.Int(0)
	case ll.mode == "lin" && ll.step.IsConst() && ll.step.Signed() > 1:
		j, r = e.divide(a.L, l, rel, ll.step, i)
	case ll.mode == "same":
		return e.At(a.entrySeq, smt.Add(a.entryOff, i))
	default:
		nm := a.L.Name + "." + l.id + "!idx"
		smt.DeclareRange(nm, 0, maxLen)
		j = smt.App(nm, 64, append(append([]*T{}, a.L.ctrs...), s.K, i)...)
		lj := e.scalarAt(a.L, ll, j)
		lj1 := e.scalarAt(a.L, ll, smt.AddC(j, 1))
		r = smt.Sub(i, lj)
		e.addFact(smt.Implies(smt.And(smt.Sle(a.EntryLen, i), smt.Slt(i, e.scalarAt(a.L, ll, s.K))), smt.And(smt.Sle(smt.Int(0), j), smt.Slt(j, s.K), smt.Sle(lj, i), smt.Slt(i, lj1))))
		if k := e.hint; k != nil {
			// only one iteration appends the element
			lk, lk1 := e.scalarAt(a.L, ll, k), e.scalarAt(a.L, ll, smt.AddC(k, 1))
			e.addFact(smt.Implies(smt.And(smt.Sle(smt.Int(0), k), smt.Slt(k, s.K), smt.Sle(lk, i), smt.Slt(i, lk1)), smt.Eq(j, k)))
		}
	}
	in := e.instanceOf(a.L, j, l)
	e.touchLog = append(e.touchLog, touch{a.L, j})
	d, ok := in.delta[l.id]
	if !ok {
		unsup("no contribution of iteration to %s", l.id)
	}
	v := e.At(d.seq, smt.Add(d.off, r))
	if old.IsFalse() {
		return v
	}
	return e.ite(old, e.At(a.entrySeq, smt.Add(a.entryOff, i)), v)
}

func (e *Exec) touchInst(l *Loop, j *T) { e.instance(l, j) }

// instance executes iteration j of the loop (j below the exit count) and records its contributions and facts.
func (e *Exec) instance(L *Loop, j *T) *inst {
	if in, ok := L.insts[j]; ok {
		if in.busy {
			unsup("self-referential loop iteration")
		}
		for _, f := range in.facts {
			e.addFact(f)
		}
		return in
	}
	in := &inst{busy: true, delta: map[string]delta{}, vals: map[string]Val{}}
	L.insts[j] = in
	defer func() {
		if in.busy {
			delete(L.insts, j)
		}
	}()
	if len(L.insts) > 60 {
		dbg("instances of %s: %v", L.Name, func() (r []*T) {
			for k := range L.insts {
				r = append(r, k)
			}
			return r[:8]
		}())
		unsup("too many iterations instantiated")
	}
	n0 := len(e.facts)
	g := smt.And(L.g0, smt.Sle(smt.Int(0), j), smt.Slt(j, L.N))
	e.assumeInv(L, g, j)
	hdr, backs := e.bodyAt(L, j, g, true)
	if len(backs) == 0 {
		e.addFact(smt.Not(g))
		for _, l := range e.flat(L) {
			if l.mode == "acc" {
				x := l.entry.(*Slice)
				in.delta[l.id] = delta{e.zeroSeqOf(x.Elem), smt.Int(0), smt.Int(0)}
			}
			if l.mode == "fill" && l.step != nil {
				in.delta[l.id] = delta{e.newSeq(&Seq{Kind: SZero, Elem: l.entry.(*Seq).Elem}), smt.Int(0), smt.Int(0)}
			} else if l.mode == "fill" {
				if x := l.entry.(*Seq); x.Elem == nil {
					in.vals[l.id] = smt.BV(0, 8)
				} else {
					in.vals[l.id] = e.zero(x.Elem)
				}
			}
		}
		in.busy = false
		in.facts = append(in.facts, e.facts[n0:]...)
		return in
	}
	back, bp := e.mergeBacks(L, backs)
	e.addFact(smt.Implies(g, back.G))
	j1 := smt.AddC(j, 1)
	e.assumeInv(L, g, j1)
	e.stepFacts(L, g, j1, back, bp)
	// freeze the objects of the iteration
	for o, c := range back.H {
		if _, was := hdr[o]; was || o.Frozen != nil {
			continue
		}
		if o.Volatile {
			s := c.(*Seq)
			o.Frozen = e.newSeq(&Seq{Kind: SBase, Name: e.freshName("overwritten"), Args: append(append([]*T{}, L.ctrs...), j), Elem: s.Elem})
		} else {
			o.Frozen = c
		}
		o.Inst = true
	}
	var walk func(l *leaf, v Val)
	walk = func(l *leaf, v Val) {
		switch l.mode {
		case "struct":
			for i := range l.subs {
				walk(l.subs[i], v.(*Struct).F[i])
			}
		case "msg":
			m := v.(*Msg)
			for i, k := range l.keys {
				walk(l.subs[i], e.norm(e.field(m, k, fieldType(l.obj.Typ, k)), back.G))
			}
		case "box":
			n, alts, ok := e.boxContent(L, l, v, back)
			if !ok {
				unsup("content of %s", l.id)
			}
			for i, k := range l.keys {
				walk(l.subs[1+i], e.boxField(n, alts, k, fieldType(l.typ.Underlying().(*types.Pointer).Elem(), k), back))
			}
		case "acc":
			d, ok := e.strip(L, l, j, v.(*Slice), back)
			if !ok {
				unsup("contribution of iteration to %s", l.id)
			}
			in.delta[l.id] = d
		}
	}
	for _, p := range L.phi {
		walk(L.phiL[p], bp[p])
	}
	for o, l := range L.objL {
		if l.mode == "fill" {
			q := back.H[o].(*Seq)
			if q.Kind == SIte { // the other alternative was shown impossible
				q = e.pastIf(q, back.G, true)
			}
			if q.Kind == SStore {
				in.vals[l.id] = q.V
			}
			if q.Kind == SCopy {
				in.delta[l.id] = delta{q.B, q.BOff, q.N}
			}
			continue
		}
		walk(l, e.norm(back.H[o], back.G))
	}
	in.busy = false
	in.facts = append(in.facts, e.facts[n0:]...)
	return in
}

// stepFacts relates the functions at j+1 with the values computed by iteration j.
func (e *Exec) stepFacts(L *Loop, g, j1 *T, back State, bp map[*ssa.Phi]Val) {
	for _, s := range e.scalarLeaves(L, back, bp) {
		if s.l.mode == "uf" {
			e.addFact(smt.Implies(g, smt.Eq(e.scalarAt(L, s.l, j1), s.v)))
		}
	}
}

type leafVal struct {
	l *leaf
	v *T
}

// scalarLeaves pairs the scalar leaves with their values at the back edge.
func (e *Exec) scalarLeaves(L *Loop, back State, bp map[*ssa.Phi]Val) []leafVal {
	var r []leafVal
	var walk func(l *leaf, v Val)
	walk = func(l *leaf, v Val) {
		switch l.mode {
		case "uf", "lin":
			if t, ok := v.(*T); ok {
				r = append(r, leafVal{l, t})
			}
		case "struct":
			if s, ok := v.(*Struct); ok {
				for i := range l.subs {
					walk(l.subs[i], s.F[i])
				}
			}
		case "msg":
			m := v.(*Msg)
			for i, k := range l.keys {
				walk(l.subs[i], e.norm(e.field(m, k, fieldType(l.obj.Typ, k)), back.G))
			}
			for k, hl := range l.has {
				walk(hl, hasOf(m, k))
			}
		case "mptr":
			n, c, ok := e.ptrOp(v.(*Ptr), &back)
			if !ok {
				unsup("content of %s", l.id)
			}
			walk(l.subs[0], n)
			walk(l.subs[1], c)
		case "box":
			n, alts, ok := e.boxContent(L, l, v, back)
			if !ok {
				unsup("content of %s", l.id)
			}
			walk(l.subs[0], n)
			for i, k := range l.keys {
				walk(l.subs[1+i], e.boxField(n, alts, k, fieldType(l.typ.Underlying().(*types.Pointer).Elem(), k), back))
			}
		case "iface":
			walk(l.subs[0], e.ifaceNil(v))
		case "win":
			if s, ok := v.(*Slice); ok && len(s.A) == 1 {
				walk(l.subs[0], s.A[0].Off)
				walk(l.subs[1], s.A[0].Len)
				walk(l.subs[2], s.A[0].Cap)
			}
		case "acc":
			walk(l.subs[0], smt.SimpUnder(e.sliceLen(v.(*Slice), &back), back.G))
		}
	}
	for _, p := range L.phi {
		walk(L.phiL[p], bp[p])
	}
	for _, o := range sortedObjs(L.objL) {
		walk(L.objL[o], e.norm(back.H[o], back.G))
	}
	return r
}

// Invariants ---------------------------------------------------------------------------

func (L *Loop) find(id string, e *Exec) *leaf {
	for _, l := range e.flat(L) {
		if l.id == id {
			return l
		}
	}
	return nil
}

func (e *Exec) candOf(L *Loop, c *cand, j *T, val func(id string) *T) *T {
	a := val(c.a)
	if a == nil {
		return smt.True
	}
	switch c.kind {
	case "ge0":
		return smt.Sle(smt.Int(0), a)
	case "rng":
		return smt.And(smt.Sle(smt.Int(-rngMax), a), smt.Sle(a, smt.Int(rngMax)))
	case "geE":
		return smt.Sle(L.find(c.a, e).entry.(*T), a)
	case "leE":
		return smt.Sle(a, L.find(c.a, e).entry.(*T))
	case "le":
		return smt.Sle(a, smt.AddC(c.bnd, c.off))
	case "kle":
		return smt.Sle(j, smt.AddC(c.bnd, c.off))
	case "ge":
		return smt.Sle(smt.AddC(c.bnd, c.off), a)
	case "eq":
		return smt.Eq(a, c.bnd)
	case "diff", "sum":
		b := val(c.b)
		if b == nil {
			return smt.True
		}
		ea, eb := L.find(c.a, e).entry.(*T), L.find(c.b, e).entry.(*T)
		if c.kind == "diff" {
			return smt.Eq(smt.Sub(a, ea), smt.Sub(b, eb))
		}
		return smt.Eq(smt.Add(a, b), smt.Add(ea, eb))
	case "x":
		// the same distance covered as the other loop in as many iterations
		bl := c.ol.find(c.b, e)
		if bl == nil {
			return smt.True
		}
		b, eb := e.scalarAt(c.ol, bl, j), bl.entry.(*T)
		if len(c.sm) > 0 {
			b, eb = smt.NewSubst(c.sm).Apply(b), smt.NewSubst(c.sm).Apply(eb)
		}
		return smt.Eq(smt.Sub(a, L.find(c.a, e).entry.(*T)), smt.Sub(b, eb))
	case "xe":
		// the same as in the other loop
		bl := c.ol.find(c.b, e)
		if bl == nil {
			return smt.True
		}
		b := e.scalarAt(c.ol, bl, j)
		if len(c.sm) > 0 {
			b = smt.NewSubst(c.sm).Apply(b)
		}
		if id := strings.TrimSuffix(c.a, "?msg"); id != c.a {
			if n := val(id + "?nil"); n != nil {
				return smt.Or(n, smt.Eq(a, b)) // a nil pointer has no content
			}
		}
		return smt.Eq(a, b)
	case "imp":
		b := val(c.b)
		if b == nil {
			return smt.True
		}
		return smt.Or(smt.Not(a), b)
	case "true":
		return a
	case "false":
		return smt.Not(a)
	}
	panic("cand")
}

func (e *Exec) candAt(L *Loop, c *cand, j *T) *T {
	return e.candOf(L, c, j, func(id string) *T {
		l := L.find(id, e)
		if l == nil || (l.mode != "uf" && l.mode != "lin") {
			if l != nil && l.mode == "same" {
				if t, ok := l.entry.(*T); ok {
					return t
				}
			}
			return nil
		}
		return e.scalarAt(L, l, j)
	})
}

func (e *Exec) candBack(L *Loop, c *cand, back State, bp map[*ssa.Phi]Val) *T {
	vs := map[string]*T{}
	for _, s := range e.scalarLeaves(L, back, bp) {
		vs[s.l.id] = s.v
	}
	return e.candOf(L, c, smt.AddC(L.K, 1), func(id string) *T { return vs[id] })
}

func (e *Exec) assumeInv(L *Loop, g, j *T) {
	for _, c := range L.invs {
		e.addFact(smt.Implies(g, e.candAt(L, c, j)))
	}
}

// constStep finds a constant that d equals whenever g holds.
func (e *Exec) constStep(d, g *T) *T {
	var cs []*T
	seen := map[*T]bool{}
	var walk func(t *T, n int)
	walk = func(t *T, n int) {
		if n > 12 || seen[t] {
			return
		}
		seen[t] = true
		if t.IsConst() {
			if t.W == d.W && t.Val != 0 {
				cs = append(cs, t)
			}
			return
		}
		if t.Op == smt.OIte {
			walk(t.Args[1], n+1)
			walk(t.Args[2], n+1)
		}
	}
	d = smt.SimpUnder(d, g)
	if d.IsConst() {
		return d
	}
	walk(d, 0)
	if len(cs) > 4 {
		return nil
	}
	for _, c := range e.stepSeen {
		if c.W == d.W && !slices.Contains(cs, c) {
			cs = append(cs, c)
		}
	}
	if len(cs) > 8 {
		cs = cs[:8]
	}
	eqs := make([]*T, len(cs))
	for i, c := range cs {
		eqs[i] = smt.Eq(d, c)
	}
	if w := e.proveAny(g, eqs...); w >= 0 {
		return cs[w]
	}
	e.stepLost = len(cs) > 0
	return nil
}

func (e *Exec) prove(goal *T, ms int) bool {
	return e.proveAll([]*T{goal}, ms)[0]
}

// proveG proves that g implies c, by the conjuncts of g alone or with all facts.
func (e *Exec) proveG(g, c *T) bool { return e.proveAny(g, c) == 0 }

type provePair struct {
	g, c  *T
	facts int
}

// proveAny tells which of the alternatives g implies, -1 when none is shown.
func (e *Exec) proveAny(g *T, cs ...*T) int {
	var goals []*T
	var idx []int
	for i, c := range cs {
		if !e.unproved[provePair{g, c, len(e.facts)}] {
			goals, idx = append(goals, smt.Implies(g, c)), append(idx, i)
		}
	}
	f := e.facts
	e.facts = nil
	for i, ok := range e.proveAll(goals, 600) {
		if ok {
			e.facts = f
			return idx[i]
		}
	}
	e.facts = f
	for i, ok := range e.proveAll(goals, 3000) {
		if ok {
			return idx[i]
		}
	}
	if e.unproved == nil {
		e.unproved = map[provePair]bool{}
	}
	for _, i := range idx {
		_ = i
	}
	return -1
}

func count(bs []bool) (n int) {
	for _, b := range bs {
		if b {
			n++
		}
	}
	return
}

// proveAll decides several goals under the same facts.
func (e *Exec) proveAll(goals []*T, ms int, more ...int) []bool {
	t0 := time.Now()
	out := make([]bool, len(goals))
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	facts := append(e.defs[:len(e.defs):len(e.defs)], e.facts...)
	for i, goal := range goals {
		if goal.IsTrue() || goal.IsFalse() {
			out[i] = goal.IsTrue()
			continue
		}
		e.HoudiniQueries++
		neg := smt.Not(goal)
		ms := ms
		if more != nil {
			ms = more[i]
		}
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			as := append(append([]*T{}, smt.Relevant(facts, []*T{neg})...), neg)
			is, _, exact := smt.IntScript(as, nil)
			if d := os.Getenv("GOVC_PROVEDUMP"); d != "" {
				var sb strings.Builder
				for _, f := range as {
					fmt.Fprintf(&sb, "[%d] %s\n", size(f, 5000), f)
				}
				os.WriteFile(fmt.Sprintf("%s/f%d_%d.txt", d, e.HoudiniQueries, i), []byte(sb.String()), 0o644)
			}
			if d := os.Getenv("GOVC_PROVEDUMP"); d != "" {
				os.WriteFile(fmt.Sprintf("%s/q%d_%d.int.smt2", d, e.HoudiniQueries, i), []byte(is+"(check-sat)\n"), 0o644)
			}
			// run times vary widely with the order of the search: restart it a few times
			for j, d := 0, min(ms/2, 4000); d > 0; j, d = j+1, min(ms/2-4000*(j+1), 4000) {
				switch smt.Backends[0].CheckIntSeed(is, nil, exact, d, j).Status {
				case "unsat":
					out[i] = true
					return
				case "sat":
					return
				}
			}
			script, _ := smt.Script(as, nil)
			if d := os.Getenv("GOVC_PROVEDUMP"); d != "" {
				os.WriteFile(fmt.Sprintf("%s/p%d_%d.int.smt2", d, e.HoudiniQueries, i), []byte(is+"(check-sat)\n"), 0o644)
				os.WriteFile(fmt.Sprintf("%s/p%d_%d.smt2", d, e.HoudiniQueries, i), []byte(script+"(check-sat)\n"), 0o644)
			}
			out[i] = smt.Backends[0].CheckScript(script, nil, ms).Status == "unsat"
		}()
	}
	wg.Wait()
	dbg("  prove %d goals, %d hold, %.1f s", len(goals), count(out), time.Since(t0).Seconds())
	return out
}

// bounds collects loop-invariant terms the leaf is compared with in the body.
func (e *Exec) bounds(L *Loop, v *T, conds []*T) (out []*T) {
	seen := map[*T]bool{}
	memo := map[*T]bool{}
	add := func(b *T) {
		if !seen[b] && !e.varies(L, b) {
			seen[b] = true
			out = append(out, b)
		}
	}
	var walk func(t *T)
	walk = func(t *T) {
		if memo[t] {
			return
		}
		memo[t] = true
		if (t.Op == smt.OSlt || t.Op == smt.OEq) && t.Args[0].W == 64 {
			d := smt.Sub(t.Args[0], t.Args[1])
			add(smt.Sub(v, d))
			add(smt.Add(v, d))
		}
		if t.Op == smt.OApp {
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, c := range conds {
		walk(c)
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return
}

func (e *Exec) houdini(L *Loop, gk *T, back State, bp map[*ssa.Phi]Val) []*cand {
	ls := e.scalarLeaves(L, back, bp)
	var cs []*cand
	var conds []*T
	conds = append(conds, back.G)
	var plens []*T
	for _, p := range e.params {
		if p.Len != nil {
			plens = append(plens, p.Len)
		}
	}
	for _, s := range ls {
		if s.l.w == 0 {
			cs = append(cs, &cand{kind: "true", a: s.l.id}, &cand{kind: "false", a: s.l.id})
			if box := strings.TrimSuffix(s.l.id, "?nil"); box != s.l.id {
				for _, t := range ls {
					if f := strings.TrimPrefix(t.l.id, box+"."); t.l.w == 0 && f != t.l.id && !strings.Contains(f, ".") && strings.HasSuffix(f, "?nil") {
						cs = append(cs, &cand{kind: "imp", a: s.l.id, b: t.l.id}) // no message, nothing in it
					}
				}
			}
			continue
		}
		if s.l.w != 64 {
			if x := s.l; x.w > 1 && x.mode == "lin" && x.step.IsConst() && x.step.Val == 1 && x.entry.(*T).IsConst() && x.entry.(*T).Val == 0 {
				// a narrower counter does not wrap
				for _, b := range e.bounds(L, smt.ZExt(e.scalarAt(L, x, L.K), 64), conds) {
					cs = append(cs, &cand{kind: "kle", a: x.id, bnd: b}, &cand{kind: "kle", a: x.id, bnd: b, off: 1})
				}
			}
			continue
		}
		if s.l.mode == "uf" {
			if e.scalarAt(L, s.l, L.K).Hi > rngMax {
				cs = append(cs, &cand{kind: "rng", a: s.l.id})
			}
			cs = append(cs, &cand{kind: "ge0", a: s.l.id}, &cand{kind: "geE", a: s.l.id}, &cand{kind: "leE", a: s.l.id})
		}
		v := e.scalarAt(L, s.l, L.K)
		seen := map[string]bool{}
		addB := func(b *T, off int64) {
			t := smt.AddC(b, off)
			k := fmt.Sprint(t.ID)
			if seen[k] {
				return
			}
			seen[k] = true
			cs = append(cs, &cand{kind: "le", a: s.l.id, bnd: b, off: off})
			if s.l.mode == "uf" || s.l.step.Hi < 0 {
				cs = append(cs, &cand{kind: "ge", a: s.l.id, bnd: b, off: off})
			}
		}
		for _, b := range e.bounds(L, v, conds) {
			addB(b, 0)
			if s.l.mode == "lin" && s.l.step.IsConst() {
				st := s.l.step.Signed()
				if st != 1 && st < 4096 && st > 0 {
					addB(b, st)
					addB(b, st-1)
				} else if st == 1 {
					addB(b, 1)
				}
			}
		}
		for _, b := range plens {
			addB(b, 0)
		}
	}
	// relations between leaves
	for i := range ls {
		for j := i + 1; j < len(ls); j++ {
			a, b := ls[i].l, ls[j].l
			if a.w != 64 || b.w != 64 || (a.mode == "lin" && b.mode == "lin") {
				continue
			}
			cs = append(cs, &cand{kind: "diff", a: a.id, b: b.id}, &cand{kind: "sum", a: a.id, b: b.id})
		}
	}
	// the loops that ran before, iteration by iteration
	seenL := map[string]bool{L.Key: true}
	for i := len(e.Loops) - 1; i >= 0 && len(seenL) < 6; i-- {
		o := e.Loops[i]
		if seenL[o.Key] || len(o.ctrs) > len(L.ctrs) {
			continue
		}
		pre := true
		for k := range o.ctrs {
			pre = pre && o.ctrs[k] == L.ctrs[k]
		}
		if !pre {
			continue
		}
		seenL[o.Key] = true
		for _, s := range ls {
			if s.l.w == 64 && s.l.mode == "lin" && s.l.step.IsConst() && s.l.step.Signed() == 1 {
				cs = append(cs, &cand{kind: "le", a: s.l.id, bnd: smt.Add(o.N, s.l.entry.(*T)), ol: o})
			}
			if s.l.of != nil && s.l.mode == "uf" {
				for _, b := range e.flat(o) {
					if b.of != nil && b.mode == "uf" && b.w == s.l.w && types.Identical(b.of, s.l.of) {
						cs = append(cs, &cand{kind: "xe", a: s.l.id, b: b.id, ol: o})
					}
				}
			}
			if s.l.w != 64 || s.l.mode != "uf" {
				continue
			}
			for _, b := range e.flat(o) {
				if _, ok := b.entry.(*T); ok && b.w == 64 && b.mode == "uf" {
					cs = append(cs, &cand{kind: "x", a: s.l.id, b: b.id, ol: o})
				}
			}
		}
	}
	// base
	var keep []*cand
	var gs []*T
	for _, c := range cs {
		gs = append(gs, smt.Implies(L.g0, e.candAt(L, c, smt.Int(0))))
	}
	for i, ok := range e.proveAll(gs, 1500) {
		if ok {
			keep = append(keep, cs[i])
		}
	}
	// step, to a fixed point; what messages hold comes after which are there
	m := e.mark()
	e.addFact(smt.Implies(gk, smt.Sle(smt.Int(0), L.K)))
	var later []*cand
	nilOf := func(c *cand) string {
		return fmt.Sprintf("%s|%s|%p", strings.TrimSuffix(c.a, "?msg"), strings.TrimSuffix(c.b, "?msg"), c.ol)
	}
	has := map[string]bool{}
	for _, c := range keep {
		if c.kind == "xe" && strings.HasSuffix(c.a, "?nil") {
			has[fmt.Sprintf("%s|%s|%p", strings.TrimSuffix(c.a, "?nil"), strings.TrimSuffix(c.b, "?nil"), c.ol)] = true
		}
	}
	var first []*cand
	for _, c := range keep {
		if c.kind == "xe" && strings.HasSuffix(c.a, "?msg") {
			if has[nilOf(c)] {
				later = append(later, c)
			}
			continue
		}
		first = append(first, c)
	}
	keep = first
	for {
		base := e.mark()
		for _, c := range keep {
			e.addFact(smt.Implies(gk, e.candAt(L, c, L.K)))
		}
		var next []*cand
		var gs []*T
		for _, c := range keep {
			gs = append(gs, smt.Implies(smt.And(gk, back.G), e.candBack(L, c, back, bp)))
		}
		ms := make([]int, len(gs))
		for i, c := range keep {
			ms[i] = 2500
			switch {
			case c.kind == "xe" && strings.HasSuffix(c.a, "?msg"):
				ms[i] = 60000 // whole messages, and few are wrong
			case c.kind == "x", c.kind == "xe":
				ms[i] = 30000
			case c.ol != nil:
				ms[i] = 15000
			}
		}
		for i, ok := range e.proveAll(gs, 0, ms...) {
			if ok {
				next = append(next, keep[i])
			} else {
				dbg("  drop %s (%d of %d)", keep[i], i, e.HoudiniQueries)
			}
		}
		e.rollback(base)
		if len(next) == len(keep) {
			if len(later) == 0 {
				break
			}
			has = map[string]bool{}
			for _, c := range keep {
				if c.kind == "xe" && strings.HasSuffix(c.a, "?nil") {
					has[fmt.Sprintf("%s|%s|%p", strings.TrimSuffix(c.a, "?nil"), strings.TrimSuffix(c.b, "?nil"), c.ol)] = true
				}
			}
			for _, c := range later {
				if has[nilOf(c)] {
					next = append(next, c)
				}
			}
			later = nil
			if len(next) == len(keep) {
				break
			}
		}
		keep = next
	}
	e.rollback(m)
	return keep
}

// termination emits the obligation that some measure decreases.
func (e *Exec) termination(L *Loop, gk *T, back State, bp map[*ssa.Phi]Val) {
	ls := e.scalarLeaves(L, back, bp)
	g := smt.And(gk, back.G)
	var first *T
	try := func(c *T) bool {
		goal := smt.Implies(g, c)
		if first == nil {
			first = goal
		}
		if e.prove(goal, 3000) {
			if goal.IsTrue() {
				e.ntriv++
			} else {
				e.obligeK("termination", goal, gk, L.nl)
			}
			return true
		}
		return false
	}
	var bs []*T
	for _, p := range e.params {
		if p.Len != nil {
			bs = append(bs, p.Len)
		}
	}
	for _, mode := range []string{"lin", "uf"} {
		for _, s := range ls {
			if s.l.mode != mode || s.l.w != 64 {
				continue
			}
			v := e.scalarAt(L, s.l, L.K)
			cands := append(append([]*T{}, e.bounds(L, v, []*T{back.G})...), bs...)
			for _, b := range cands {
				if try(smt.And(smt.Sle(v, b), smt.Slt(v, s.v))) {
					return
				}
			}
			for _, b := range append(cands, smt.Int(0)) {
				if try(smt.And(smt.Sle(b, v), smt.Slt(s.v, v))) {
					return
				}
			}
		}
	}
	for _, s := range ls {
		// narrower counters
		if s.l.w > 0 && s.l.w < 64 && s.l.mode == "lin" && s.l.step.IsConst() && s.l.step.Val != 0 {
			v := smt.ZExt(e.scalarAt(L, s.l, L.K), 64)
			if try(smt.Slt(v, smt.ZExt(s.v, 64))) {
				return
			}
		}
	}
	if first == nil {
		first = smt.Implies(g, smt.False)
	}
	e.obligeK("termination", first, gk, L.nl)
}
