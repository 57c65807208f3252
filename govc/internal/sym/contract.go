package sym

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"govc/internal/smt"
)

// Contract is a specification of one function: K takes its arguments and then its results, assumes the
// precondition and asserts the postcondition. Proving runs the body and then K; a caller that uses the contract
// sees arbitrary results restricted by K only. The results of a pure function depend on its arguments only.
type Contract struct {
	Name string
	Real *ssa.Function
	K    *ssa.Function
	Pure bool
	// Assumed contracts are not proved: they say no more than that the function returns, what it returns depends
	// on its arguments alone, and K.
	Assumed bool
}

func (e *Exec) callContract(c *Contract, args []Val, st *State) Val {
	e.Contracts[c.Name] = true
	name := e.freshName("res_" + c.Name)
	targs := e.loopArgs()
	if c.Pure {
		name, targs = "pure_"+c.Name, nil
		for _, a := range args {
			targs = e.flatten(a, st, targs)
		}
	}
	sig := c.Real.Signature
	var outs Tuple
	for i := 0; i < sig.Results().Len(); i++ {
		outs = append(outs, e.result(sig.Results().At(i).Type(), fmt.Sprintf("%s.%d", name, i), targs))
	}
	for _, v := range outs {
		if p, ok := v.(*Ptr); ok {
			for _, a := range p.A {
				if a.O != nil && a.O.Kind == OMsg {
					st.H[a.O], a.O.Frozen = a.O.Frozen, nil
				}
			}
		}
	}
	all := append(append([]Val{}, args...), outs...)
	e.quiet++
	e.kUse++
	e.callFn(c.K, all, nil, st)
	e.kUse--
	e.quiet--
	if len(outs) == 1 {
		return outs[0]
	}
	return outs
}

// result is an arbitrary result of a call: memory it points to belongs to the caller.
func (e *Exec) result(t types.Type, name string, args []*T) Val {
	v := e.symVal1(t, name, args)
	own := func(o *Obj) {
		if o != nil {
			o.Protected = false
			o.Loops = append([]*Loop(nil), e.loopStack...)
		}
	}
	switch x := v.(type) {
	case *Ptr:
		for _, a := range x.A {
			own(a.O)
			if a.O != nil && a.O.Kind == OMsg {
				a.O.Frozen = opaqueMsg(a.O.Typ, smt.App("msg!"+clean(name), -1, args...))
			}
		}
	case *Slice:
		for _, a := range x.A {
			own(a.O)
		}
	}
	return v
}

// flatten gives terms that determine the value of v.
func (e *Exec) flatten(v Val, st *State, out []*T) []*T {
	switch x := v.(type) {
	case *T:
		return append(out, x)
	case *Str:
		return append(out, e.strOp(x))
	case *Slice:
		if !isByte(x.Elem) {
			unsup("pure function of a list")
		}
		q, off := e.viewSeq(x, st)
		l := smt.SimpUnder(e.sliceLen(x, st), st.G)
		q, off = e.peel(q, off, l, st.G)
		if q.Kind == SBase {
			return append(out, smt.App("base!"+clean(q.Name), -1, q.Args...), off, l)
		}
		return append(out, smt.App(fmt.Sprintf("seq!%d", q.id), -1, e.loopArgs()...), off, l)
	case *Struct:
		for _, f := range x.F {
			out = e.flatten(f, st, out)
		}
		return out
	case *Iface:
		n := e.norm(x, st.G).(*Iface)
		r := smt.App("iface!nil", -1)
		for _, a := range n.A {
			if a.Typ == nil {
				continue
			}
			if a.ID == "" || a.ID == "err" {
				unsup("pure function of an interface of type %s", a.Typ)
			}
			r = smt.Ite(a.G, smt.App("iface!"+clean(a.ID), -1), r)
		}
		return append(out, r)
	case *Ptr:
		n, c, ok := e.ptrOp(e.norm(x, st.G).(*Ptr), st)
		if !ok {
			unsup("pure function of a pointer")
		}
		return append(out, c, n)
	}
	unsup("pure function of a %T", v)
	return nil
}

// RunContract generates the obligations that the function's body satisfies its contract.
func (e *Exec) RunContract(c *Contract) ([]*Obligation, error) {
	return e.guarded(func() {
		st := &State{G: smt.True, H: Heap{}}
		var args []Val
		for _, p := range c.Real.Params {
			args = append(args, e.lemmaParam(p))
		}
		h0 := map[*Obj]bool{}
		for _, p := range e.params {
			if p.Obj != nil {
				h0[p.Obj] = true
			}
		}
		n0 := e.nobj
		v := e.callFn(c.Real, args, nil, st)
		for o := range st.H {
			if h0[o] || o.Protected && o.ID <= n0 || o.Name == "global" {
				unsup("%s changes %s: not covered by its contract", c.Name, o)
			}
		}
		res := Tuple{v}
		if t, ok := v.(Tuple); ok {
			res = t
		}
		e.callFn(c.K, append(append([]Val{}, args...), res...), nil, st)
	})
}

// peel finds the bytes [off, off+l) of q in what q was copied from.
func (e *Exec) peel(q *Seq, off, l, g *T) (*Seq, *T) {
	holds := func(a, b *T) bool { return smt.SimpUnder(smt.Sle(a, b), g).IsTrue() }
	for {
		end := smt.Add(off, l)
		switch {
		case q.Kind == SCat && holds(smt.Int(0), off) && holds(end, q.N):
			q, off = q.A, smt.Add(off, q.Off)
		case q.Kind == SCat && holds(q.N, off):
			q, off = q.B, smt.Add(smt.Sub(off, q.N), q.BOff)
		case q.Kind == SCopy && holds(q.Off, off) && holds(end, smt.Add(q.Off, q.N)):
			q, off = q.B, smt.Add(smt.Sub(off, q.Off), q.BOff)
		case q.Kind == SCopy && (holds(end, q.Off) || holds(smt.Add(q.Off, q.N), off)):
			q = q.A
		default:
			return q, smt.SimpUnder(off, g)
		}
	}
}
