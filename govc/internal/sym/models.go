package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"slices"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"govc/internal/smt"
)

type model func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val

var models map[string]model

func (e *Exec) beRead(s *Slice, n int, st *State, pos token.Pos) *T {
	l := e.sliceLen(s, st)
	e.check(st, "index", smt.Sle(smt.Int(int64(n)), l), pos)
	q, off := e.viewSeq(s, st)
	var ps []*T
	for i := 0; i < n; i++ {
		ps = append(ps, e.atB(q, smt.AddC(off, int64(i))))
	}
	return smt.Concat(ps...)
}

func beSeq(e *Exec, v *T) *Seq {
	s := &Seq{Kind: SList}
	n := v.W / 8
	vals := make([]*T, n)
	for i := 0; i < n; i++ {
		vals[i] = smt.Extract(v, v.W-1-8*i, v.W-8-8*i)
		s.Vals = append(s.Vals, vals[i])
	}
	return e.newSeq(s)
}

func scalars(e *Exec, a Val) *T {
	t, ok := a.(*T)
	if !ok {
		if u, ok := a.(*Unk); ok {
			unsup("unknown scalar: %s", u.Why)
		}
		unsup("scalar argument expected, got %T", a)
	}
	return t
}

// bytesOp gives an identity term for a byte string: equal terms mean equal contents.
func (e *Exec) bytesOp(s *Slice, st *State) *T {
	q, off := e.viewSeq(s, st)
	return e.rangeOp(q, off, e.sliceLen(s, st))
}

// resolve looks through copies: the range [off, off+l) of the result equals that of q.
func (e *Exec) resolve(q *Seq, off, l *T) (*Seq, *T) {
	for {
		switch q.Kind {
		case SCat:
			if q.N != nil && q.N.IsConst() && q.N.Val == 1<<62 {
				q, off = q.A, smt.Add(off, q.Off)
				continue
			}
			return q, off
		case SCopy:
			if off == q.Off && l == q.N {
				q, off = q.B, q.BOff
				continue
			}
			if off.IsConst() && q.Off.IsConst() && q.N.IsConst() && l.IsConst() && off.Signed() >= q.Off.Signed() && off.Signed()+l.Signed() <= q.Off.Signed()+q.N.Signed() {
				q, off = q.B, smt.AddC(q.BOff, off.Signed()-q.Off.Signed())
				continue
			}
			return q, off
		}
		return q, off
	}
}

// rangeOp gives an identity term for a range of bytes.
func (e *Exec) rangeOp(q *Seq, off, l *T) *T {
	if l.IsConst() && l.Signed() <= 512 {
		n := l.Signed()
		var as []*T
		allc := true
		var bs []byte
		for i := int64(0); i < n; i++ {
			a := e.atB(q, smt.AddC(off, i))
			as = append(as, a)
			if !a.IsConst() {
				allc = false
			} else {
				bs = append(bs, byte(a.Val))
			}
		}
		if allc {
			return smt.App("lit!"+clean(string(bs)), -1)
		}
		return smt.App(fmt.Sprintf("bytes2str_%d", n), -1, as...)
	}
	q, off = e.resolve(q, off, l)
	if lo, op, cut := trimRange(l); lo != nil {
		// what is left of a range by a trim, when it is taken out of that very range
		var whole *T
		if n, ok := strings.CutPrefix(op.Name, "bytes2str_"); ok {
			k, _ := strconv.Atoi(n)
			whole = smt.Int(int64(k))
		} else if strings.HasPrefix(op.Name, "range!") {
			whole = op.Args[len(op.Args)-1]
		} else {
			whole = smt.App("strlen", 64, op)
		}
		if whole != nil && e.rangeOp(q, smt.Sub(off, lo), whole) == op {
			return smt.App("trimmed", -1, op, cut)
		}
	}
	if q.Kind == SIte {
		return smt.Ite(q.C, e.rangeOp(q.A, smt.SimpUnder(off, q.C), smt.SimpUnder(l, q.C)), e.rangeOp(q.B, smt.SimpUnder(off, smt.Not(q.C)), smt.SimpUnder(l, smt.Not(q.C))))
	}
	if q.Kind == SBase && q.Name == "strbyte" && off.IsConst() && off.Val == 0 && l.Op == smt.OApp && l.Name == "strlen" && l.Args[0] == q.Args[0] {
		return q.Args[0]
	}
	if q.Kind == SBase {
		as := append(append([]*T{}, q.Args...), off, l)
		return smt.App("range!"+clean(q.Name), -1, as...)
	}
	as := append(append([]*T{}, e.ctrs...), off, l)
	return smt.App(fmt.Sprintf("range_%d", q.id), -1, as...)
}

// trimRange recognises the length trim_hi - trim_lo of a trimmed range.
func trimRange(l *T) (lo, op, cut *T) {
	if l.Op != smt.OLin || l.Val != 0 || len(l.Args) != 2 {
		return
	}
	h, o := l.Args[0], l.Args[1]
	hc, oc := l.Coefs[0], l.Coefs[1]
	if h.Op == smt.OApp && h.Name == "trim_lo" {
		h, o, hc, oc = o, h, oc, hc
	}
	if h.Op != smt.OApp || o.Op != smt.OApp || h.Name != "trim_hi" || o.Name != "trim_lo" || int64(hc) != 1 || int64(oc) != -1 || h.Args[0] != o.Args[0] || h.Args[1] != o.Args[1] {
		return
	}
	return o, h.Args[0], h.Args[1]
}

func init() {
	models = map[string]model{}
	m := models
	for _, w := range []int{16, 32, 64} {
		n := w / 8
		for _, pre := range []string{"(encoding/binary.bigEndian)"} {
			m[fmt.Sprintf("%s.Uint%d", pre, w)] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
				return e.beRead(e.asSlice(a[1]), n, st, pos)
			}
			m[fmt.Sprintf("%s.PutUint%d", pre, w)] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
				s := e.asSlice(a[1])
				e.check(st, "index", smt.Sle(smt.Int(int64(n)), e.sliceLen(s, st)), pos)
				e.writeRange(s, smt.Int(0), beSeq(e, scalars(e, a[2])), smt.Int(0), smt.Int(int64(n)), st, pos)
				return Tuple{}
			}
			m[fmt.Sprintf("%s.AppendUint%d", pre, w)] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
				return e.appendSeq(e.asSlice(a[1]), beSeq(e, scalars(e, a[2])), smt.Int(0), smt.Int(int64(n)), st, pos)
			}
		}
	}
	errF := func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val { return e.mkErr("err") }
	m["fmt.Errorf"] = errF
	m["errors.New"] = errF
	m["errors.Join"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		s := e.asSlice(a[0])
		l := e.sliceLen(s, st)
		q, off := e.viewSeq(s, st)
		if !l.IsConst() {
			// nil exactly when every element is nil: arbitrary when empty-or-all-nil is unknown, nil if empty
			nn := e.fresh("joinnil", 0)
			e.assume(st.G, smt.Implies(smt.Eq(l, smt.Int(0)), nn))
			return e.errIf(smt.Not(nn), "err")
		}
		c := smt.False
		for i := int64(0); i < l.Signed(); i++ {
			c = smt.Or(c, smt.Not(e.ifaceNil(e.At(q, smt.AddC(off, i)))))
		}
		return e.errIf(c, "err")
	}
	m["errors.Is"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		return smt.And(smt.Not(e.ifaceNil(a[0])), e.fresh("errorsis", 0))
	}
	m["fmt.Sprintf"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		return e.sprintf(a, st)
	}
	m["bytes.Clone"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		s := e.asSlice(a[0])
		isNil := smt.SimpUnder(e.sliceNil(s, st), st.G)
		q, off := e.viewSeq(s, st)
		l := e.sliceLen(s, st)
		o := e.newObj(OBytes, s.Elem, "clone")
		st.H[o] = e.shift(q, off)
		z := smt.Int(0)
		r := &Slice{Elem: s.Elem}
		if !isNil.IsFalse() {
			r.A = append(r.A, SAlt{G: isNil, Off: z, Len: z, Cap: z})
		}
		r.A = append(r.A, SAlt{G: smt.Not(isNil), O: o, Off: z, Len: l, Cap: l})
		return r
	}
	m["bytes.Equal"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		return e.bytesEqual(e.asSlice(a[0]), e.asSlice(a[1]), st)
	}
	m["bytes.Trim"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		// a subslice of the argument: bounds are a function of the content
		s := e.asSlice(a[0])
		l := e.sliceLen(s, st)
		op := e.bytesOp(s, st)
		cut := e.strOp(a[1].(*Str))
		smt.DeclareRange("trim_lo", 0, maxLen)
		smt.DeclareRange("trim_hi", 0, maxLen)
		lo, hi := smt.App("trim_lo", 64, op, cut), smt.App("trim_hi", 64, op, cut)
		e.assume(st.G, smt.And(smt.Sle(lo, hi), smt.Sle(hi, l)))
		r := e.reslice(s, lo, hi, nil, st, pos)
		// Go returns nil when nothing is left; nilness is not observable through the callers' use (string conversion)
		return r
	}
	m["bytes.NewReader"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		o := e.newObj(OCell, nil, "bytes.Reader")
		st.H[o] = &Struct{F: []Val{a[0], smt.Int(0)}}
		return &Ptr{A: []PAlt{{G: smt.True, O: o}}}
	}
	m["(*bytes.Reader).Len"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		o, s := e.readerOf(a[0], st)
		_ = o
		return smt.Sub(e.sliceLen(s.F[0].(*Slice), st), s.F[1].(*T))
	}
	m["(*bytes.Reader).Read"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		n, err := e.readerRead(a[0], e.asSlice(a[1]), st, pos)
		return Tuple{n, err}
	}
	m["encoding/binary.Read"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		r := a[0].(*Iface).A[0].V
		dst := a[2].(*Iface)
		if len(dst.A) != 1 {
			unsup("binary.Read target")
		}
		p := e.asPtr(dst.A[0].V)
		el := dst.A[0].Typ.Underlying().(*types.Pointer).Elem()
		w := e.width(el)
		n := int64(w / 8)
		o, s := e.readerOf(r, st)
		data := s.F[0].(*Slice)
		p0 := s.F[1].(*T)
		l := e.sliceLen(data, st)
		rem := smt.Sub(l, p0)
		ok := smt.Sle(smt.Int(n), rem)
		q, off := e.viewSeq(data, st)
		var ps []*T
		for i := int64(0); i < n; i++ {
			ps = append(ps, e.atB(q, smt.AddC(smt.Add(off, p0), i)))
		}
		v := smt.Concat(ps...)
		old := e.load(p, st, el, pos).(*T)
		e.store(p, smt.Ite(ok, v, old), st, pos)
		np := smt.Ite(ok, smt.AddC(p0, n), l)
		st.H[o] = &Struct{F: []Val{data, np}}
		return e.errIf(smt.Not(ok), "err")
	}
	m["time.Unix"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		z := e.zero(fn.Signature.Results().At(0).Type()).(*Struct)
		ns := scalars(e, a[1])
		if !ns.IsConst() || ns.Val != 0 {
			unsup("time.Unix with nanoseconds")
		}
		return &Struct{Typ: z.Typ, F: []Val{smt.Int(0), smt.AddC(scalars(e, a[0]), unixOff), z.F[2]}}
	}
	m["time.Date"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		z := e.zero(fn.Signature.Results().At(0).Type()).(*Struct)
		y, mo, d, h, mi, s, ns := scalars(e, a[0]), scalars(e, a[1]), scalars(e, a[2]), scalars(e, a[3]), scalars(e, a[4]), scalars(e, a[5]), scalars(e, a[6])
		days := smt.App("civil_days", 64, y, mo, d)
		if y.IsConst() && mo.IsConst() && d.IsConst() {
			days = smt.Int(civil(y.Signed(), mo.Signed(), d.Signed()))
		}
		sec := smt.Add(smt.Mul(days, smt.Int(86400)), smt.Add(smt.Mul(h, smt.Int(3600)), smt.Add(smt.Mul(mi, smt.Int(60)), s)))
		return &Struct{Typ: z.Typ, F: []Val{ns, smt.AddC(sec, unixOff), z.F[2]}}
	}
	m["(time.Time).Add"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		t := a[0].(*Struct)
		d := scalars(e, a[1])
		if !t.F[0].(*T).IsConst() || t.F[0].(*T).Val != 0 {
			unsup("Time.Add with nanoseconds")
		}
		// only whole-second durations: d = 1e9 * s
		if d.Op == smt.OLin && d.Val == 0 && len(d.Args) == 1 && d.Coefs[0] == 1000000000 {
			return &Struct{Typ: t.Typ, F: []Val{t.F[0], smt.Add(t.F[1].(*T), d.Args[0]), t.F[2]}}
		}
		if d.IsConst() && d.Signed()%1000000000 == 0 {
			return &Struct{Typ: t.Typ, F: []Val{t.F[0], smt.AddC(t.F[1].(*T), d.Signed()/1000000000), t.F[2]}}
		}
		unsup("Time.Add with symbolic duration %s", d)
		return nil
	}
	m["(time.Time).UTC"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val { return a[0] }
	m["(time.Time).Unix"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		return smt.AddC(a[0].(*Struct).F[1].(*T), -unixOff)
	}
	strUF := func(name string) model {
		return func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
			var as []*T
			for _, x := range a {
				switch y := x.(type) {
				case *Str:
					as = append(as, e.strOp(y))
				case *T:
					as = append(as, y)
				default:
					unsup("%s argument %T", name, x)
				}
			}
			return e.opaqueStr(smt.App(name, -1, as...))
		}
	}
	for _, n := range []string{"strings.TrimRight", "strings.TrimSpace", "strings.Trim", "strings.ToValidUTF8", "strings.TrimLeft"} {
		m[n] = strUF(n)
	}
	m["unicode/utf8.ValidString"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		return smt.App("validutf8", 0, e.strOp(a[0].(*Str)))
	}
	m["encoding/hex.EncodeToString"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		s := e.asSlice(a[0])
		q, off := e.viewSeq(s, st)
		l := e.sliceLen(s, st)
		dig := func(n *T) *T { // 4-bit
			z := smt.ZExt(n, 8)
			return smt.Ite(smt.Ult(n, smt.BV(10, 4)), smt.AddC(z, 48), smt.AddC(z, 87))
		}
		sq := e.newSeq(&Seq{Kind: SFun, Fun: func(i *T) Val {
			b := e.atB(q, smt.Add(off, smt.LShr(i, smt.Int(1))))
			hi, lo := dig(smt.Extract(b, 7, 4)), dig(smt.Extract(b, 3, 0))
			return smt.Ite(smt.Eq(smt.BAnd(i, smt.Int(1)), smt.Int(0)), hi, lo)
		}})
		return &Str{Seq: sq, Off: smt.Int(0), Len: smt.Mul(l, smt.Int(2))}
	}
	m["strconv.ParseInt"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		s := a[0].(*Str)
		base, bits := scalars(e, a[1]), scalars(e, a[2])
		if !s.Len.IsConst() {
			s = &Str{Seq: s.Seq, Off: s.Off, Len: e.pin(s.Len, st.G, 32)}
		}
		if !s.Len.IsConst() || s.Len.Signed() > 18 || !base.IsConst() || base.Val != 10 || !bits.IsConst() || bits.Val != 64 {
			op := e.strOp(s)
			bad := smt.App("parseint_err", 0, op)
			return Tuple{smt.App("parseint", 64, op), e.errIf(bad, "err")}
		}
		n := s.Len.Signed()
		if n == 0 {
			return Tuple{smt.Int(0), e.mkErr("err")}
		}
		ok := smt.True
		v := smt.Int(0)
		signed := smt.False
		neg := smt.False
		for i := int64(0); i < n; i++ {
			c := e.atB(s.Seq, smt.AddC(s.Off, i))
			d := smt.And(smt.Ule(smt.BV('0', 8), c), smt.Ule(c, smt.BV('9', 8)))
			if i == 0 {
				neg = smt.Eq(c, smt.BV('-', 8))
				signed = smt.Or(neg, smt.Eq(c, smt.BV('+', 8)))
				if n > 1 {
					d = smt.Or(d, signed)
				} else {
					signed = smt.False
				}
			}
			ok = smt.And(ok, d)
			// digit value with a declared small range
			dv := e.digit(c)
			if i == 0 {
				dv = smt.Ite(signed, smt.Int(0), dv)
			}
			v = smt.Add(smt.Mul(v, smt.Int(10)), dv)
		}
		v = smt.Ite(neg, smt.Neg(v), v)
		return Tuple{smt.Ite(ok, v, smt.Int(0)), e.errIf(smt.Not(ok), "err")}
	}
	m["strconv.Itoa"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		return e.itoa(scalars(e, a[0]))
	}
	m["encoding/hex.AppendDecode"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		dst, src := e.asSlice(a[0]), e.asSlice(a[1])
		q, off := e.viewSeq(src, st)
		l := e.pin(e.sliceLen(src, st), st.G, 32)
		if !l.IsConst() || l.Signed() > 64 {
			unsup("hex.AppendDecode with symbolic length")
		}
		n := l.Signed()
		nib := func(c *T) (*T, *T) {
			d := smt.And(smt.Ule(smt.BV('0', 8), c), smt.Ule(c, smt.BV('9', 8)))
			u := smt.And(smt.Ule(smt.BV('A', 8), c), smt.Ule(c, smt.BV('F', 8)))
			w := smt.And(smt.Ule(smt.BV('a', 8), c), smt.Ule(c, smt.BV('f', 8)))
			v := smt.Ite(d, smt.AddC(c, -48), smt.Ite(u, smt.AddC(c, -55), smt.AddC(c, -87)))
			return smt.Extract(v, 3, 0), smt.Or(d, u, w)
		}
		ok := smt.True
		sq := &Seq{Kind: SList}
		for i := int64(0); i+1 < n; i += 2 {
			h, k1 := nib(e.atB(q, smt.AddC(off, i)))
			w, k2 := nib(e.atB(q, smt.AddC(off, i+1)))
			ok = smt.And(ok, k1, k2)
			sq.Vals = append(sq.Vals, smt.Concat(h, w))
		}
		if n%2 == 1 {
			ok = smt.False
		}
		r := e.appendSeq(dst, e.newSeq(sq), smt.Int(0), smt.Int(n/2), st, pos)
		return Tuple{r, e.errIf(smt.Not(ok), "err")}
	}
	m["google.golang.org/protobuf/proto.HasExtension"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		return e.extLookup(a[0], a[1], st, func(v *EnumValue, ext string) Val {
			_, ok := v.Ext[ext]
			_, isM := v.Msg[ext]
			return smt.Bool(ok || isM)
		})
	}
	m["google.golang.org/protobuf/proto.GetExtension"] = func(e *Exec, fn *ssa.Function, a []Val, st *State, pos token.Pos) Val {
		return e.extLookup(a[0], a[1], st, func(v *EnumValue, ext string) Val {
			x, ok := v.Ext[ext]
			kind := e.W.ExtKinds[ext]
			switch kind {
			case "bool":
				return &Iface{A: []IAlt{{G: smt.True, Typ: types.Typ[types.Bool], V: smt.Bool(ok && x != 0)}}}
			case "int32":
				return &Iface{A: []IAlt{{G: smt.True, Typ: types.Typ[types.Int32], V: smt.BV(uint64(x), 32)}}}
			}
			if strings.HasPrefix(kind, "*") {
				t := e.W.namedByProto(kind[1:])
				if t == nil {
					unsup("extension kind %s", kind)
				}
				pt := types.NewPointer(t)
				r := Val(&Ptr{A: []PAlt{{G: smt.True}}})
				if m, ok := v.Msg[ext]; ok {
					k := fmt.Sprintf("annotation|%p|%s", v, ext)
					c, ok := e.symMemo[k]
					if !ok {
						c = e.treeVal(pt, m)
						e.symMemo[k] = c
					}
					r = c
				}
				return &Iface{A: []IAlt{{G: smt.True, Typ: pt, V: r}}}
			}
			t := e.W.namedByProto(kind)
			if t == nil {
				unsup("extension kind %s", kind)
			}
			return &Iface{A: []IAlt{{G: smt.True, Typ: t, V: smt.BV(uint64(x), 32)}}}
		})
	}
	initScanner(m)
	initCrypto(m)
}

// digit is the decimal value of an ASCII digit character (arbitrary but in 0..9 otherwise).
func (e *Exec) digit(c *T) *T {
	if c.IsConst() {
		d := int64(c.Val) - '0'
		if d < 0 || d > 9 {
			d = 0
		}
		return smt.Int(d)
	}
	// low nibble of an ASCII digit; clamp to keep the range small
	n := smt.Extract(c, 3, 0)
	// look through hex digit construction: ite(n<10, n+48, n+87)
	if c.Op == smt.OIte && c.Args[0].Op == smt.OSlt {
		x := c.Args[1]
		if x.Op == smt.OLin && x.Val == 48 && len(x.Args) == 1 && x.Coefs[0] == 1 {
			return smt.ZExt(x.Args[0], 64)
		}
	}
	return smt.ZExt(n, 64)
}

func (e *Exec) itoa(v *T) Val {
	if v.IsConst() {
		return e.strLit(fmt.Sprint(v.Signed()))
	}
	dbg("itoa %s", v)
	// decimal digits for 0 <= v < 10^10; otherwise opaque
	op := smt.App("itoa", -1, v)
	s := e.opaqueStr(op)
	max := 10
	pow := int64(1)
	in := smt.And(smt.Sle(smt.Int(0), v))
	var dg []*T
	nd := smt.Int(int64(max))
	p := int64(1)
	for i := 0; i < max; i++ {
		p *= 10
	}
	e.addFact(smt.Implies(smt.Not(smt.Slt(v, smt.Int(p))), smt.Slt(smt.Int(int64(max)), s.Len)))
	e.addFact(smt.Implies(smt.Not(in), smt.Slt(smt.Int(1), s.Len)))
	in = smt.And(in, smt.Slt(v, smt.Int(p)))
	// digits from least significant, tied to the value
	smt.DeclareRange("dec_digit", 0, 9)
	sum := smt.Int(0)
	for i := 0; i < max; i++ {
		dg = append(dg, smt.App("dec_digit", 64, v, smt.Int(int64(i))))
		sum = smt.Add(sum, smt.Mul(dg[i], smt.Int(pow)))
		pow *= 10
	}
	e.addFact(smt.Implies(in, smt.Eq(v, sum)))
	// decimal representations are unique
	decimal := func(c, l *T) {
		if l.Op != smt.OLin || l.Val != 0 || len(l.Args) > max {
			return
		}
		ds := make([]*T, max)
		for i := range ds {
			ds[i] = smt.Int(0)
		}
		for k, a := range l.Args {
			p, i := uint64(1), 0
			for i < max && p != uint64(l.Coefs[k]) {
				p *= 10
				i++
			}
			if i == max {
				return
			}
			ds[i] = a
			c = smt.And(c, smt.Sle(smt.Int(0), a), smt.Sle(a, smt.Int(9)))
		}
		for i := range ds {
			e.addFact(smt.Implies(c, smt.Eq(dg[i], ds[i])))
		}
	}
	if v.Op == smt.OIte {
		decimal(v.Args[0], v.Args[1])
		decimal(smt.Not(v.Args[0]), v.Args[2])
	} else {
		decimal(smt.True, v)
	}
	zero := smt.True
	nd = smt.Int(int64(max))
	for i := max - 1; i >= 1; i-- {
		zero = smt.And(zero, smt.Eq(dg[i], smt.Int(0)))
		nd = smt.Ite(zero, smt.Int(int64(i)), nd)
		pow /= 10
		e.addFact(smt.Implies(in, smt.Eq(zero, smt.Slt(v, smt.Int(pow/10*10)))))
	}
	sq := e.newSeq(&Seq{Kind: SFun, Fun: func(i *T) Val {
		// char i (from the left) = digit nd-1-i
		k := smt.AddC(smt.Sub(nd, i), -1)
		r := smt.BV('0', 8)
		for j := max - 1; j >= 0; j-- {
			r = smt.Ite(smt.Eq(k, smt.Int(int64(j))), smt.AddC(smt.Extract(dg[j], 7, 0), '0'), r)
		}
		return smt.Ite(in, r, smt.App("strbyte", 8, op, i))
	}})
	return &Str{Seq: sq, Off: smt.Int(0), Len: smt.Ite(in, nd, s.Len)}
}

func civil(y, m, d int64) int64 {
	if m <= 2 {
		y--
	}
	era := floor(y, 400)
	yoe := y - era*400
	mp := (m + 9) % 12
	doy := (153*mp+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 719468
}
func floor(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

func (e *Exec) sprintf(a []Val, st *State) Val {
	f := a[0].(*Str)
	op := e.strOp(f)
	s := e.asSlice(a[1])
	l := e.sliceLen(s, st)
	if l.IsConst() {
		q, off := e.viewSeq(s, st)
		as := []*T{op}
		nm := "sprintf"
		for i := int64(0); i < l.Signed(); i++ {
			v, ok := e.At(q, smt.AddC(off, i)).(*Iface)
			if !ok || len(v.A) != 1 {
				return e.opaqueStr(e.fresh("sprintf_any", -1))
			}
			switch x := v.A[0].V.(type) {
			case *T:
				as = append(as, x)
				nm += fmt.Sprintf("_%d", x.W)
			case *Str:
				as = append(as, e.strOp(x))
				nm += "_s"
			case *Slice:
				if !isByte(x.Elem) {
					return e.opaqueStr(e.fresh("sprintf_any", -1))
				}
				as = append(as, e.bytesOp(x, st))
				nm += "_b"
			default:
				return e.opaqueStr(e.fresh("sprintf_any", -1))
			}
		}
		return e.opaqueStr(smt.App(nm, -1, as...))
	}
	return e.opaqueStr(e.fresh("sprintf_any", -1))
}

func (e *Exec) readerOf(v Val, st *State) (*Obj, *Struct) {
	p := e.asPtr(v)
	var o *Obj
	for _, a := range p.A {
		if smt.SimpUnder(a.G, st.G).IsFalse() {
			continue
		}
		if o != nil || a.O == nil {
			unsup("ambiguous reader")
		}
		o = a.O
	}
	return o, e.get(st.H, o).(*Struct)
}

func (e *Exec) readerRead(rv Val, buf *Slice, st *State, pos token.Pos) (*T, Val) {
	o, s := e.readerOf(rv, st)
	data := s.F[0].(*Slice)
	p0 := s.F[1].(*T)
	l := e.sliceLen(data, st)
	bl := e.sliceLen(buf, st)
	rem := smt.Sub(l, p0)
	n := smt.Ite(smt.Slt(rem, bl), rem, bl)
	q, off := e.viewSeq(data, st)
	e.writeRange(buf, smt.Int(0), q, smt.Add(off, p0), n, st, pos)
	st.H[o] = &Struct{F: []Val{data, smt.Add(p0, n)}}
	eof := smt.Sle(rem, smt.Int(0))
	return n, e.errIf(eof, "sentinel:io.EOF")
}

// bytesEqual: exact for short constant lengths, otherwise an uninterpreted answer with a witness axiom.
func (e *Exec) bytesEqual(x, y *Slice, st *State) *T {
	lx, ly := e.sliceLen(x, st), e.sliceLen(y, st)
	qx, ox := e.viewSeq(x, st)
	qy, oy := e.viewSeq(y, st)
	n := int64(-1)
	if lx.IsConst() {
		n = lx.Signed()
	} else if ly.IsConst() {
		n = ly.Signed()
	}
	if n >= 0 && n <= 256 {
		r := smt.Eq(lx, ly)
		if r.IsFalse() {
			return r
		}
		return smt.And(r, e.rangeEq(qx, ox, qy, oy, n))
	}
	if qx == qy && ox == oy {
		return smt.Eq(lx, ly)
	}
	return smt.Eq(e.rangeOp(qx, ox, lx), e.rangeOp(qy, oy, ly))
}

func (e *Exec) extLookup(opts, ext Val, st *State, f func(v *EnumValue, ext string) Val) Val {
	oi, ok := opts.(*Iface)
	if !ok {
		unsup("extension options %T", opts)
	}
	xi, ok := ext.(*Iface)
	var h *Host
	if ok {
		h, _ = xi.A[0].V.(*Host)
	} else {
		h, _ = ext.(*Host)
	}
	if h == nil || h.Kind != "ext" {
		unsup("extension type %T", ext)
	}
	name := h.V.(string)
	name = name[strings.LastIndex(name, ".")+1:]
	name = strings.TrimPrefix(name, "E_")
	var r Val
	for i := len(oi.A) - 1; i >= 0; i-- {
		a := oi.A[i]
		g := smt.SimpUnder(a.G, st.G)
		if g.IsFalse() || a.Typ == nil {
			continue
		}
		ho, ok := a.V.(*Host)
		if !ok {
			unsup("extension on %T", a.V)
		}
		var rec func(h *Host) Val
		rec = func(h *Host) Val {
			switch h.Kind {
			case "enumopts":
				v := h.V.(*enumValRef)
				return f(&v.tab.Values[v.i], name)
			case "ite":
				i := h.V.(hostIte)
				return e.ite(i.c, rec(i.a), rec(i.b))
			}
			unsup("extension on host %s", h.Kind)
			return nil
		}
		x := rec(ho)
		if r == nil {
			r = x
		} else {
			r = e.ite(g, x, r)
		}
	}
	return r
}

// pin replaces a term by the constant it is shown to equal on this path, if there is one below max.
func (e *Exec) pin(l, g *T, max int64) *T {
	if l.IsConst() {
		return l
	}
	for first := 0; first < 2; first++ { // first the values found before
		var goals, cs []*T
		for c := int64(0); c <= max; c++ {
			k := smt.Int(c)
			if slices.Contains(e.pinned, k) != (first == 0) {
				continue
			}
			if eq := smt.SimpUnder(smt.Eq(l, k), g); !eq.IsFalse() {
				goals, cs = append(goals, smt.Implies(g, eq)), append(cs, k)
			}
		}
		for i, ok := range e.proveAll(goals, 4000-2000*first) {
			if ok {
				if first > 0 {
					e.pinned = append(e.pinned, cs[i])
				}
				return cs[i]
			}
		}
	}
	return l
}
