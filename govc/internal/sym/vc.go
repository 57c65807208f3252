package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"

	"govc/internal/smt"
)

// lemma intrinsics (package internal/vc of the overlay)

func (e *Exec) litString(v Val) string {
	s, ok := v.(*Str)
	if !ok || s.Seq.Kind != SConst {
		unsup("assertion name must be a literal")
	}
	return string(s.Seq.Bytes)
}

func (e *Exec) userAssert(st *State, name string, cond *T, pos token.Pos) {
	c := smt.SimpUnder(cond, st.G)
	goal := smt.Implies(st.G, c)
	if e.quiet > 0 {
		e.addFact(goal)
		return
	}
	o := e.oblige("assert", name, goal, st.G, pos)
	_ = o
	e.addFact(goal)
}

func (e *Exec) vcCall(nm string, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
	switch nm {
	case "Assume":
		c := scalars(e, a[0])
		if e.kUse > 0 {
			// a precondition: the caller's duty
			q := e.quiet
			e.quiet -= e.kUse
			e.userAssert(st, "precondition", c, pos)
			e.quiet = q
			return Tuple{}
		}
		e.assume(st.G, c)
		st.G = smt.And(st.G, c)
		return Tuple{}
	case "Assert":
		e.userAssert(st, e.litString(a[1]), scalars(e, a[0]), pos)
		return Tuple{}
	case "AssertBytes":
		if e.kUse > 0 {
			unsup("byte string postcondition used by a caller")
		}
		e.assertBytes(st, e.litString(a[2]), e.asSlice(a[0]), e.asSlice(a[1]), pos)
		return Tuple{}
	case "AssertString":
		e.userAssert(st, e.litString(a[2]), e.strEq(a[0].(*Str), a[1].(*Str)), pos)
		return Tuple{}
	case "AssertMsg":
		if e.kUse > 0 {
			unsup("deep equality postcondition used by a caller")
		}
		n := e.litString(a[2])
		e.assertDeep(st, n, unwrap(a[0]), unwrap(a[1]), pos, 0)
		return Tuple{}
	case "Reach":
		if e.quiet == 0 {
			o := e.oblige("cover", e.litString(a[0]), smt.Not(st.G), st.G, pos)
			o.Cover = true
		}
		return Tuple{}
	case "Snap":
		// a copy of the bytes as they are now
		s := e.asSlice(a[0])
		q, off := e.viewSeq(s, st)
		l := e.sliceLen(s, st)
		o := e.newObj(OBytes, s.Elem, "snap")
		st.H[o] = e.shift(q, off)
		return &Slice{Elem: s.Elem, A: []SAlt{{G: smt.True, O: o, Off: smt.Int(0), Len: l, Cap: l}}}
	case "Owned":
		// no part of the slice lies in memory that may still change
		s := e.asSlice(a[0])
		r := smt.True
		for _, x := range s.A {
			if x.O != nil && x.O.Volatile {
				r = smt.And(r, smt.Not(x.G))
			}
		}
		return r
	}
	if nm == "At" {
		// a hint: the facts of the iterations with this number
		if e.quiet == 0 || len(e.loopStack) > 0 {
			e.hint = scalars(e, a[0])
			e.hintAt(append([]*Loop(nil), e.Loops...), scalars(e, a[0]))
		}
		return Tuple{}
	}
	if nm == "Follow" {
		// a hint: the loops so far go on in step with those to come
		e.followed = append([]*Loop(nil), e.Loops...)
		return Tuple{}
	}
	unsup("vc.%s", nm)
	return nil
}

// hintAt instantiates iteration j of the loops that can have one.
func (e *Exec) hintAt(ls []*Loop, j *T) {
	seen := map[string]bool{}
	for _, l := range ls {
		if len(l.ctrs) == 0 && !seen[l.Key] {
			seen[l.Key] = true
			func() {
				defer func() {
					if r := recover(); r != nil {
						_, ok := r.(Unsupported)
						if _, f := r.(instFail); !ok && !f {
							panic(r)
						}
						delete(l.insts, j)
					}
				}()
				in := e.instance(l, j)
				if j.IsConst() {
					return
				}
				for _, lf := range e.flat(l) {
					// what is appended to stays as long as it is
					if d, ok := in.delta[lf.id]; ok && lf.mode == "acc" && lf.subs[0].mode == "uf" && d.len.Lo >= 0 {
						j1 := smt.AddC(j, 1)
						e.addFact(smt.Implies(smt.And(l.g0, smt.Sle(smt.Int(0), j), smt.Slt(j, l.N)), smt.Sle(e.scalarAt(l, lf.subs[0], j1), e.scalarAt(l, lf.subs[0], l.N))))
					}
				}
			}()
		}
	}
}

func unwrap(v Val) Val {
	if i, ok := v.(*Iface); ok && len(i.A) == 1 && i.A[0].Typ != nil && i.A[0].ID == "" {
		return i.A[0].V
	}
	return v
}

func (e *Exec) skolemIdx(name string) *T {
	n := e.freshName("sk_" + clean(name))
	smt.DeclareRange(n, 0, maxLen)
	return smt.App(n, 64, e.loopArgs()...)
}

func (e *Exec) assertBytes(st *State, name string, x, y *Slice, pos token.Pos) {
	lx, ly := e.sliceLen(x, st), e.sliceLen(y, st)
	e.userAssert(st, name+"/len", smt.Eq(lx, ly), pos)
	qx, ox := e.viewSeq(x, st)
	qy, oy := e.viewSeq(y, st)
	if qx == qy && ox == oy {
		return
	}
	n := int64(-1)
	if lx.IsConst() {
		n = lx.Signed()
	} else if ly.IsConst() {
		n = ly.Signed()
	}
	if n >= 0 && n <= 64 {
		var cs []*T
		for i := int64(0); i < n; i++ {
			cs = append(cs, smt.Eq(e.atB(qx, smt.AddC(ox, i)), e.atB(qy, smt.AddC(oy, i))))
		}
		e.userAssert(st, name+"/bytes", smt.And(cs...), pos)
		return
	}
	i := e.skolemIdx(name)
	s2 := State{G: smt.And(st.G, smt.Slt(i, lx), smt.Slt(i, ly)), H: st.H}
	if s2.G.IsFalse() {
		return
	}
	bx, by := e.atB(qx, smt.Add(ox, i)), e.atB(qy, smt.Add(oy, i))
	e.userAssertQ(&s2, name+"/bytes", smt.Eq(bx, by), pos)
}

// userAssertQ asserts a statement about an arbitrary index without keeping it as a fact.
func (e *Exec) userAssertQ(st *State, name string, cond *T, pos token.Pos) {
	if e.quiet > 0 {
		return
	}
	e.oblige("assert", name, smt.Implies(st.G, smt.SimpUnder(cond, st.G)), st.G, pos)
}

// assertDeep asserts deep equality of two values.
func (e *Exec) assertDeep(st *State, name string, x, y Val, pos token.Pos, depth int) {
	if depth > 12 {
		unsup("deep equality nesting")
	}
	if e.quiet > 0 {
		return
	}
	switch a := x.(type) {
	case *T:
		e.userAssertQ(st, name, smt.Eq(a, y.(*T)), pos)
	case *Str:
		e.userAssertQ(st, name, e.strEq(a, y.(*Str)), pos)
	case *Slice:
		b := e.asSlice(y)
		if isByte(a.Elem) {
			e.assertBytes(st, name, a, b, pos)
			return
		}
		lx, ly := e.sliceLen(a, st), e.sliceLen(b, st)
		e.userAssert(st, name+"/len", smt.Eq(lx, ly), pos)
		qx, ox := e.viewSeq(a, st)
		qy, oy := e.viewSeq(b, st)
		if qx == qy && ox == oy {
			return
		}
		if (lx.IsConst() && lx.Val == 0) || (ly.IsConst() && ly.Val == 0) {
			return
		}
		i := e.skolemIdx(name)
		s2 := State{G: smt.And(st.G, smt.Slt(i, lx), smt.Slt(i, ly)), H: st.H}
		if s2.G.IsFalse() {
			return
		}
		vx, vy := e.At(qx, smt.Add(ox, i)), e.At(qy, smt.Add(oy, i))
		e.assertDeep(&s2, name+"[]", vx, vy, pos, depth+1)
	case *Ptr:
		b := e.asPtr(y)
		a2 := e.norm(a, st.G).(*Ptr)
		b2 := e.norm(b, st.G).(*Ptr)
		if e.sameVal(a2, b2) && len(a2.A) == 1 {
			return
		}
		e.userAssertQ(st, name+"/nil", smt.Eq(e.ptrNil(a2), e.ptrNil(b2)), pos)
		var typ types.Type
		for _, p := range append(append([]PAlt{}, a2.A...), b2.A...) {
			if p.O != nil {
				typ = p.O.Typ
			}
		}
		if typ == nil {
			return
		}
		s2 := State{G: smt.And(st.G, smt.Not(e.ptrNil(a2)), smt.Not(e.ptrNil(b2))), H: st.H}
		if s2.G.IsFalse() {
			return
		}
		if _, cx, ok := e.ptrOp(a2, &s2); ok && depth == 0 {
			if _, cy, ok := e.ptrOp(b2, &s2); ok && (opaqueContent(cx) || opaqueContent(cy)) {
				// both are known as wholes: results of contracts, or merges of them
				e.userAssertQ(&s2, name, smt.Eq(cx, cy), pos)
				return
			}
		}
		if !isMsgType(typ) {
			unsup("deep equality of pointer to %s", typ)
		}
		for _, f := range msgFields(typ) {
			if f.Has && f.Scalar {
				hx, hy := e.hasField(a2, f.Name, &s2), e.hasField(b2, f.Name, &s2)
				if hx != hy {
					e.userAssertQ(&s2, name+"."+f.Name+"?", smt.Eq(hx, hy), pos)
				}
			}
			vx := e.getField(a2, f.Name, f.Typ, &s2, true)
			vy := e.getField(b2, f.Name, f.Typ, &s2, true)
			if vx == vy {
				continue
			}
			e.assertDeep(&s2, name+"."+f.Name, vx, vy, pos, depth+1)
		}
	case *Struct:
		b := y.(*Struct)
		for i := range a.F {
			e.assertDeep(st, fmt.Sprintf("%s.%d", name, i), a.F[i], b.F[i], pos, depth+1)
		}
	case *ByteArr:
		e.userAssertQ(st, name, e.eqVal(x, y, st), pos)
	case *Iface:
		b, ok := y.(*Iface)
		if !ok {
			unsup("deep equality of mixed values")
		}
		e.userAssertQ(st, name+"/nil", smt.Eq(e.ifaceNil(a), e.ifaceNil(b)), pos)
	case *Unk:
		unsup("deep equality of unknown (%s)", a.Why)
	default:
		unsup("deep equality of %T", x)
	}
}

func (e *Exec) hasField(p *Ptr, f string, st *State) *T {
	r := smt.False
	for _, a := range p.A {
		g := smt.SimpUnder(a.G, st.G)
		if g.IsFalse() || a.O == nil {
			continue
		}
		r = smt.Or(r, smt.And(g, hasOf(e.get(st.H, a.O).(*Msg), f)))
	}
	return smt.SimpUnder(r, st.G)
}

// Lemma parameters ------------------------------------------------------------------------

func (e *Exec) lemmaParam(p *ssa.Parameter) Val {
	t := p.Type()
	nm := "in_" + p.Name() + "!" + e.lemma
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if isByte(u.Elem()) {
			ln, cn := nm+"?len", nm+"?cap"
			smt.DeclareRange(ln, 0, maxLen)
			smt.DeclareRange(cn, 0, maxLen)
			l, c := smt.App(ln, 64), smt.App(cn, 64)
			o := e.newObj(OBytes, u.Elem(), nm)
			o.Protected = !strings.HasPrefix(p.Name(), "dst")
			o.Frozen = e.newSeq(&Seq{Kind: SBase, Name: nm})
			e.addFact(smt.Sle(l, c))
			nilG := smt.App(nm+"?nil", 0)
			z := smt.Int(0)
			e.addFact(smt.Implies(nilG, smt.And(smt.Eq(l, z), smt.Eq(c, z))))
			e.params = append(e.params, Param{Name: p.Name(), Kind: "bytes", Typ: t, Len: l, Cap: c, Obj: o, Uf: nm})
			return &Slice{Elem: u.Elem(), A: []SAlt{{G: nilG, Off: z, Len: z, Cap: z}, {G: smt.Not(nilG), O: o, Off: z, Len: l, Cap: c}}}
		}
	case *types.Basic:
		v := e.symVal(t, nm, nil)
		k := "int"
		if u.Info()&types.IsBoolean != 0 {
			k = "bool"
		} else if u.Info()&types.IsString != 0 {
			k = "string"
		}
		pr := Param{Name: p.Name(), Kind: k, Typ: t, V: v}
		if x, ok := v.(*T); ok {
			pr.T = x
		}
		e.params = append(e.params, pr)
		return v
	}
	v := e.symVal(t, nm, nil)
	e.params = append(e.params, Param{Name: p.Name(), Kind: "other", Typ: t, V: v})
	return v
}

// RunLemma generates the obligations of one lemma function.
func (e *Exec) RunLemma(fn *ssa.Function) ([]*Obligation, error) {
	return e.guarded(func() {
		st := &State{G: smt.True, H: Heap{}}
		var args []Val
		for _, p := range fn.Params {
			args = append(args, e.lemmaParam(p))
		}
		e.callFn(fn, args, nil, st)
	})
}

func (e *Exec) guarded(run func()) (obls []*Obligation, err error) {
	defer func() {
		if r := recover(); r != nil {
			if _, f := r.(instFail); f {
				r = Unsupported{"a loop's state refers to itself"}
			}
			if u, ok := r.(Unsupported); ok {
				where := ""
				for i := len(e.fnStack) - 1; i >= 0 && i >= len(e.fnStack)-4; i-- {
					where += " < " + shortFn(e.fnStack[i])
				}
				p := "-"
				if e.curInstr != nil {
					p = e.W.pos(e.curInstr.Pos())
				}
				err = fmt.Errorf("outside the engine's reach: %s (at %s%s)", u.Msg, p, where)
				return
			}
			if os.Getenv("GOVC_DEBUG") != "" {
				panic(r)
			}
			p := "-"
			if e.curInstr != nil {
				p = e.W.pos(e.curInstr.Pos())
			}
			err = fmt.Errorf("engine failure: %v (at %s)", r, p)
		}
	}()
	run()
	return e.obls, nil
}

func (e *Exec) Params() []Param { return e.params }
func (e *Exec) Facts() []*T     { return e.facts }
func (e *Exec) Trivial() int    { return e.ntriv }
