package sym

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"govc/internal/smt"
)

// hostOp gives an identity term for a host value.
func (e *Exec) hostOp(h *Host) *T {
	switch h.Kind {
	case "ite":
		i := h.V.(hostIte)
		return smt.Ite(i.c, e.hostOp(i.a), e.hostOp(i.b))
	case "global":
		return smt.App("global!"+clean(h.V.(string)), -1)
	case "op":
		return h.V.(*T)
	}
	unsup("identity of host %s", h.Kind)
	return nil
}

func initCrypto(m map[string]model) {
	// golang.org/x/text: decoding with a character map is a function of the map and the bytes, and never fails
	m["(*golang.org/x/text/encoding/charmap.Charmap).NewDecoder"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		h, ok := a[0].(*Host)
		if !ok {
			unsup("character map %T", a[0])
		}
		return &Host{Kind: "op", V: e.hostOp(h)}
	}
	m["(*golang.org/x/text/encoding.Decoder).String"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		h, ok := a[0].(*Host)
		if !ok {
			unsup("decoder %T", a[0])
		}
		return Tuple{e.opaqueStr(smt.App("charmap_decode", -1, e.hostOp(h), e.strOp(a[1].(*Str)))), e.nilErr()}
	}
	// encoding/asn1: an element is a header and contents at the start of the bytes; where they end, and whether
	// the bytes are an element of the wanted type at all, is a function of the bytes
	asn := func(e *Exec, b *Slice, to Val, st *State, pos token.Pos) Val {
		p, ok := unwrap(to).(*Ptr)
		if !ok || len(p.A) != 1 || p.A[0].O == nil {
			unsup("asn1 target %T", to)
		}
		t := p.A[0].O.Typ
		kind := "raw"
		if n, ok := t.(*types.Named); !ok || n.Obj().Name() != "RawValue" {
			kind = "oid"
			if !ok || n.Obj().Name() != "ObjectIdentifier" {
				unsup("asn1 target %s", t)
			}
		}
		op := e.bytesOp(b, st)
		l := e.sliceLen(b, st)
		bad := smt.App("asn1_bad_"+kind, 0, op)
		h, k := smt.App("asn1_head", 64, op), smt.App("asn1_end", 64, op)
		smt.DeclareRange("asn1_head", 0, 1<<40)
		smt.DeclareRange("asn1_end", 0, 1<<40)
		ok1 := smt.Not(bad)
		e.assume(smt.And(st.G, ok1), smt.And(smt.Sle(smt.Int(2), h), smt.And(smt.Sle(h, k), smt.Sle(k, l))))
		cut := func(lo, hi *T) *Slice { return e.window(b, lo, hi) }
		var v Val
		if kind == "raw" {
			v = &Struct{Typ: t, F: []Val{smt.App("asn1_class", 64, op), smt.App("asn1_tag", 64, op), smt.App("asn1_compound", 0, op), cut(h, k), cut(smt.Int(0), k)}}
		} else {
			v = e.symVal1(t, "asn1_oid", []*T{op})
		}
		e.store(p, e.ite(ok1, v, e.load(p, st, t, pos)), st, pos)
		return Tuple{e.ite(ok1, cut(k, l), e.nilSlice(types.Typ[types.Uint8])), e.errIf(bad, "err")}
	}
	m["encoding/asn1.Unmarshal"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		return asn(e, e.asSlice(a[0]), a[1], st, pos)
	}
	m["(encoding/asn1.ObjectIdentifier).String"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		s := e.asSlice(a[0])
		q, off := e.viewSeq(s, st)
		var id *T
		if q.Kind == SBase {
			id = smt.App("base!"+clean(q.Name), -1, q.Args...)
		} else {
			id = smt.App(fmt.Sprintf("seq!%d", q.id), -1, e.loopArgs()...)
		}
		return e.opaqueStr(smt.App("oid_string", -1, id, off, e.sliceLen(s, st)))
	}
}

// window is b[lo:hi] for bounds known to be in order.
func (e *Exec) window(b *Slice, lo, hi *T) *Slice {
	r := &Slice{Elem: b.Elem}
	for _, a := range b.A {
		if a.O == nil {
			r.A = append(r.A, a)
			continue
		}
		r.A = append(r.A, SAlt{G: a.G, O: a.O, Off: smt.Add(a.Off, lo), Len: smt.Sub(hi, lo), Cap: smt.Sub(a.Cap, lo)})
	}
	return r
}
