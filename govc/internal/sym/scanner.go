package sym

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"govc/internal/smt"
)

const scanMax = 65536 // bufio.MaxScanTokenSize

// The model of bufio.Scanner over an in-memory reader. The cell holds
// [data, pos, split, token, err, done]. A Scan behaves as split on everything that is left, provided split
// gives the same answer on a longer prefix once it answers at all (an obligation), and the 64 KiB buffer
// limit is not hit. Every token lives in memory the scanner may overwrite at the next Scan.
func initScanner(m map[string]model) {
	scanOf := func(e *Exec, v Val, st *State) (*Obj, *Struct) { return e.readerOf(v, st) }
	m["bufio.NewScanner"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		i := a[0].(*Iface)
		if len(i.A) != 1 {
			unsup("scanner over ambiguous reader")
		}
		_, r := e.readerOf(i.A[0].V, st)
		o := e.newObj(OCell, nil, "bufio.Scanner")
		st.H[o] = &Struct{F: []Val{r.F[0], r.F[1], &Fn{A: []FAlt{{G: smt.True}}}, e.nilSlice(types.Typ[types.Uint8]), e.nilErr(), smt.False, &Host{Kind: "const", V: int64(scanMax)}}}
		return &Ptr{A: []PAlt{{G: smt.True, O: o}}}
	}
	m["(*bufio.Scanner).Split"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		o, s := scanOf(e, a[0], st)
		n := &Struct{F: append([]Val{}, s.F...)}
		n.F[2] = a[1]
		st.H[o] = n
		return Tuple{}
	}
	m["(*bufio.Scanner).Buffer"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		o, s := scanOf(e, a[0], st)
		if b := e.asSlice(a[1]); !e.sliceNil(b, st).IsTrue() {
			unsup("Scanner.Buffer with a buffer of the caller")
		}
		n := &Struct{F: append([]Val{}, s.F...)}
		mx, ok := a[2].(*T)
		if !ok || !mx.IsConst() || mx.Signed() < 1 {
			unsup("Scanner with a variable token size limit")
		}
		n.F[6] = &Host{Kind: "const", V: mx.Signed()}
		st.H[o] = n
		return Tuple{}
	}
	m["(*bufio.Scanner).Bytes"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		_, s := scanOf(e, a[0], st)
		return s.F[3]
	}
	m["(*bufio.Scanner).Err"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		_, s := scanOf(e, a[0], st)
		return s.F[4]
	}
	m["(*bufio.Scanner).Scan"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		o, s := scanOf(e, a[0], st)
		if !smt.SimpUnder(s.F[5].(*T), st.G).IsFalse() {
			unsup("Scan after the end")
		}
		for _, t := range e.tokObjs[o] {
			if c, ok := st.H[t]; ok {
				q := c.(*Seq)
				st.H[t] = e.newSeq(&Seq{Kind: SBase, Name: e.freshName("overwritten"), Args: e.loopArgs(), Elem: q.Elem})
			}
		}
		data := e.asSlice(s.F[0])
		p := s.F[1].(*T)
		max := smt.Int(s.F[6].(*Host).V.(int64))
		q, off := e.viewSeq(data, st)
		rem := smt.Sub(e.sliceLen(data, st), p)
		byt := types.Typ[types.Uint8]
		buf := e.newObj(OBytes, byt, "scanbuf")
		buf.Protected, buf.Volatile = true, true
		st.H[buf] = e.shift(q, smt.Add(off, p))
		e.tokObjs[o] = append(e.tokObjs[o], buf)
		fv, ok := s.F[2].(*Fn)
		if !ok {
			unsup("scanner split function")
		}
		view := func(n *T) *Slice {
			return &Slice{Elem: byt, A: []SAlt{{G: smt.True, O: buf, Off: smt.Int(0), Len: n, Cap: max}}}
		}
		rt := types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Int]), types.NewVar(0, nil, "", types.NewSlice(byt)), types.NewVar(0, nil, "", types.Universe.Lookup("error").Type()))
		type res struct {
			adv *T
			tok *Slice
			err Val
		}
		run := func(n *T, eof *T, g *T) res {
			s2 := State{G: smt.And(st.G, g), H: st.H.clone()}
			if s2.G.IsFalse() {
				return res{smt.Int(0), e.nilSlice(byt), e.nilErr()}
			}
			t := e.callDyn(fv, []Val{view(n), eof}, &s2, pos, rt).(Tuple)
			return res{t[0].(*T), e.asSlice(t[1]), t[2]}
		}
		more := func(r res) *T {
			return smt.And(e.ifaceNil(r.err), e.sliceNil(r.tok, st), smt.Eq(r.adv, smt.Int(0)))
		}
		some := smt.Slt(smt.Int(0), rem)
		P := smt.Ite(smt.Sle(rem, max), rem, max)
		A := run(P, smt.False, some)
		moreA := smt.Or(smt.Not(some), more(A))
		// any shorter prefix: asks for more or answers the same
		qn := e.freshName("prefix")
		smt.DeclareRange(qn, 1, max.Signed())
		qt := smt.App(qn, 64, e.loopArgs()...)
		gq := smt.And(some, smt.Slt(qt, P))
		B := run(qt, smt.False, gq)
		same := smt.And(smt.Eq(e.ifaceNil(B.err), e.ifaceNil(A.err)), smt.Eq(B.adv, A.adv), e.sameWindow(B.tok, A.tok, st))
		sub := State{G: smt.And(st.G, gq, smt.Not(more(B))), H: st.H}
		e.check(&sub, "scanner-prefix", smt.And(smt.Not(moreA), same), pos)
		tooLong := smt.And(some, moreA, smt.Sle(max, rem))
		C := run(rem, smt.True, smt.And(moreA, smt.Not(tooLong)))
		adv := smt.Ite(moreA, C.adv, A.adv)
		tok := e.ite(moreA, C.tok, A.tok).(*Slice)
		err := e.ite(moreA, C.err, A.err)
		errNil := e.ifaceNil(err)
		// advance errors
		bad := smt.And(errNil, smt.Or(smt.Slt(adv, smt.Int(0)), smt.Slt(rem, adv)))
		tokNil := e.sliceNil(tok, st)
		// nil token with progress would make Scan loop internally: outside the model
		sub2 := State{G: smt.And(st.G, smt.Not(moreA), smt.Not(tooLong), errNil, tokNil), H: st.H}
		e.check(&sub2, "scanner-nil-token", smt.Eq(adv, smt.Int(0)), pos)
		ok1 := smt.SimpUnder(smt.And(smt.Not(tooLong), errNil, smt.Not(bad), smt.Not(tokNil)), st.G)
		// at the end of input an empty token with no progress repeats (the scanner panics after 100)
		sub3 := State{G: smt.And(st.G, ok1), H: st.H}
		e.check(&sub3, "scanner-progress", smt.Slt(smt.Int(0), adv), pos)
		fail := smt.Or(tooLong, smt.Not(errNil), bad)
		nerr := e.errIf(smt.SimpUnder(fail, st.G), "err")
		st.H[o] = &Struct{F: []Val{data, smt.Ite(ok1, smt.Add(p, adv), p), s.F[2], tok, nerr, smt.Not(ok1), s.F[6]}}
		return ok1
	}
}

// sameWindow: two slices denote the same memory range.
func (e *Exec) sameWindow(a, b *Slice, st *State) *T {
	r := smt.False
	for _, x := range a.A {
		for _, y := range b.A {
			if x.O != y.O {
				continue
			}
			r = smt.Or(r, smt.And(x.G, y.G, smt.Eq(x.Off, y.Off), smt.Eq(x.Len, y.Len)))
		}
	}
	return r
}
