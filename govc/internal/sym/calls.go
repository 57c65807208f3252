package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"govc/internal/smt"
)

func (e *Exec) call(fr *frame, c *ssa.CallCommon, st *State, site ssa.Instruction, pos token.Pos) Val {
	if c.IsInvoke() {
		recv := e.val(fr, c.Value)
		var args []Val
		for _, a := range c.Args {
			args = append(args, e.val(fr, a))
		}
		return e.invoke(recv, c.Method, args, st, pos)
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.val(fr, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(b.Name(), c, args, st, pos)
	}
	if fn := c.StaticCallee(); fn != nil {
		var bind []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, y := range mc.Bindings {
				bind = append(bind, e.val(fr, y))
			}
		}
		return e.callStatic(fn, args, bind, st, pos)
	}
	fv, ok := e.val(fr, c.Value).(*Fn)
	if !ok {
		unsup("dynamic call of %T", e.val(fr, c.Value))
	}
	return e.callDyn(fv, args, st, pos, resType(c.Signature()))
}

func (e *Exec) callDyn(fv *Fn, args []Val, st *State, pos token.Pos, rt types.Type) Val {
	var outs []State
	var vals []Val
	g0 := st.G
	for _, a := range fv.A {
		g := smt.SimpUnder(a.G, g0)
		if g.IsFalse() {
			continue
		}
		if a.F == nil {
			s := *st
			s.G = g0
			e.check(&s, "nil-func", smt.Not(g), pos)
			continue
		}
		s := State{G: smt.And(g0, g), H: st.H.clone()}
		v := e.callStatic(a.F, args, a.Bind, &s, pos)
		outs = append(outs, s)
		vals = append(vals, v)
	}
	if len(outs) == 0 {
		return e.zero(rt)
	}
	m, rel := e.mergeStates(outs)
	v := vals[len(vals)-1]
	for i := len(vals) - 2; i >= 0; i-- {
		v = e.ite(rel[i], vals[i], v)
	}
	st.H = m.H
	st.G = g0
	return v
}

func (e *Exec) callStatic(fn *ssa.Function, args []Val, bind []Val, st *State, pos token.Pos) Val {
	name := fn.String()
	if o := fn.Origin(); o != nil && o != fn {
		name = o.String()
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		pkg = fn.Origin().Pkg.Pkg.Path()
	}
	if strings.HasSuffix(pkg, "/internal/vc") {
		return e.vcCall(fn.Name(), fn, args, st, pos)
	}
	if strings.Contains(pkg, "/proto/gen/") || pkg == "google.golang.org/protobuf/types/known/timestamppb" {
		return e.protoCall(fn, args, st, pos)
	}
	if c := e.W.Contracts[fn]; c != nil && e.Using[fn] {
		return e.callContract(c, args, st)
	}
	if len(fn.Blocks) > 0 && (e.W.inRepo(pkg) || strings.HasPrefix(fn.Synthetic, "bound method") || strings.HasPrefix(fn.Synthetic, "instance of") || fn.Parent() != nil || fn.Synthetic != "") {
		return e.callFn(fn, args, bind, st)
	}
	if m, ok := models[name]; ok {
		e.Modelled[name] = true
		return m(e, fn, args, st, pos)
	}
	unsup("external function %s", name)
	return nil
}

// builtins ----------------------------------------------------------------------

func (e *Exec) builtin(name string, c *ssa.CallCommon, args []Val, st *State, pos token.Pos) Val {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case *Slice:
			return e.sliceLen(x, st)
		case *Str:
			return x.Len
		case *ByteArr:
			return smt.Int(x.N)
		case *Ptr:
			at := c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return smt.Int(at.Len())
		case *ListArr:
			return smt.Int(x.N)
		}
	case "cap":
		if x, ok := args[0].(*Slice); ok {
			return e.sliceCap(x, st)
		}
	case "append":
		s := e.asSlice(args[0])
		switch t := args[1].(type) {
		case *Slice:
			q, off := e.viewSeq(t, st)
			return e.appendSeq(s, q, off, e.sliceLen(t, st), st, pos)
		case *Str:
			return e.appendSeq(s, t.Seq, t.Off, t.Len, st, pos)
		}
	case "copy":
		d := e.asSlice(args[0])
		var q *Seq
		var off, n *T
		switch t := args[1].(type) {
		case *Slice:
			q, off = e.viewSeq(t, st)
			n = e.sliceLen(t, st)
		case *Str:
			q, off, n = t.Seq, t.Off, t.Len
		}
		dl := e.sliceLen(d, st)
		m := smt.Ite(smt.Slt(n, dl), n, dl)
		e.writeRange(d, smt.Int(0), q, off, m, st, pos)
		return m
	case "ssa:wrapnilchk":
		return args[0]
	case "min", "max":
		r := args[0].(*T)
		uns := isUnsigned(c.Args[0].Type())
		for _, a := range args[1:] {
			y := a.(*T)
			var lt *T
			if uns {
				lt = smt.Ult(r, y)
			} else {
				lt = smt.Slt(r, y)
			}
			if name == "min" {
				r = smt.Ite(lt, r, y)
			} else {
				r = smt.Ite(lt, y, r)
			}
		}
		return r
	case "print", "println":
		return Tuple{}
	case "clear":
		d := e.asSlice(args[0])
		e.writeRange(d, smt.Int(0), e.zeroSeqOf(d.Elem), smt.Int(0), e.sliceLen(d, st), st, pos)
		return Tuple{}
	}
	unsup("builtin %s", name)
	return nil
}

func (e *Exec) zeroSeqOf(el types.Type) *Seq {
	z := &Seq{Kind: SZero}
	if !isByte(el) {
		z.Elem = el
	}
	return e.newSeq(z)
}

// appendSeq models append with value semantics: the result is a fresh backing array. Memory owned by
// somebody else must not be reachable by an in-place append (frame obligation).
func (e *Exec) appendSeq(s *Slice, q *Seq, off, n *T, st *State, pos token.Pos) *Slice {
	if n.IsConst() && n.Val == 0 {
		return s
	}
	sl := e.sliceLen(s, st)
	for _, a := range s.A {
		g := smt.SimpUnder(a.G, st.G)
		if g.IsFalse() || a.O == nil {
			continue
		}
		if a.O.Protected {
			sub := State{G: smt.And(st.G, g), H: st.H}
			e.check(&sub, "frame:append", smt.Or(smt.Sle(n, smt.Int(0)), smt.Slt(smt.Sub(a.Cap, a.Len), n)), pos)
			continue
		}
		// local array with spare capacity: the in-place write is visible through other slices of it
		if a.O.Len != nil && a.Cap != a.Len && !a.O.Inst {
			inplace := smt.SimpUnder(smt.And(g, smt.Sle(n, smt.Sub(a.Cap, a.Len))), st.G)
			if !inplace.IsFalse() {
				if _, ok := st.H[a.O]; ok {
					old := e.get(st.H, a.O).(*Seq)
					nw := e.newSeq(&Seq{Kind: SCopy, A: old, B: q, Off: smt.Add(a.Off, a.Len), N: n, BOff: off, Elem: old.Elem})
					st.H[a.O] = e.seqIte(inplace, nw, old)
				}
			}
		}
	}
	base, boff := e.viewSeq(s, st)
	nl := smt.Add(sl, n)
	var o *Obj
	cat := &Seq{Kind: SCat, A: base, Off: boff, N: sl, B: q, BOff: off}
	if isByte(s.Elem) {
		o = e.newObj(OBytes, s.Elem, "append")
	} else {
		o = e.newObj(OList, s.Elem, "append")
		cat.Elem = s.Elem
	}
	if sl.IsConst() && sl.Val == 0 {
		if off.IsConst() && off.Val == 0 {
			st.H[o] = q
		} else {
			st.H[o] = e.shift(q, off)
		}
	} else {
		st.H[o] = e.newSeq(cat)
	}
	r := &Slice{Elem: s.Elem}
	isNil := smt.And(e.sliceNil(s, st), smt.Eq(nl, smt.Int(0)))
	isNil = smt.SimpUnder(isNil, st.G)
	z := smt.Int(0)
	if !isNil.IsFalse() {
		r.A = append(r.A, SAlt{G: isNil, Off: z, Len: z, Cap: z})
	}
	r.A = append(r.A, SAlt{G: smt.Not(isNil), O: o, Off: z, Len: nl, Cap: nl})
	return r
}

// writeRange writes n elements of q (from off) at index at of slice d.
func (e *Exec) writeRange(d *Slice, at *T, q *Seq, off, n *T, st *State, pos token.Pos) {
	if n.IsConst() && n.Val == 0 {
		return
	}
	for _, a := range d.A {
		g := smt.SimpUnder(a.G, st.G)
		if g.IsFalse() || a.O == nil {
			continue
		}
		if a.O.Inst {
			unsup("write to per-iteration object outside its loop")
		}
		if a.O.Protected {
			sub := State{G: smt.And(st.G, g), H: st.H}
			e.check(&sub, "frame:copy", smt.Sle(n, smt.Int(0)), pos)
		}
		old := e.get(st.H, a.O).(*Seq)
		nw := e.newSeq(&Seq{Kind: SCopy, A: old, B: q, Off: smt.Add(a.Off, at), N: n, BOff: off, Elem: old.Elem})
		st.H[a.O] = e.seqIte(g, nw, old)
	}
}

// errors ------------------------------------------------------------------------

func (e *Exec) mkErr(id string) *Iface {
	return &Iface{A: []IAlt{{G: smt.True, Typ: types.Universe.Lookup("error").Type(), V: &Unk{"error value"}, ID: id}}}
}
func (e *Exec) nilErr() *Iface { return &Iface{A: []IAlt{{G: smt.True}}} }
func (e *Exec) errIf(c *T, id string) Val {
	return e.ite(c, e.mkErr(id), e.nilErr())
}

// protobuf messages ----------------------------------------------------------------

type fieldInfo struct {
	Name   string
	Typ    types.Type
	Has    bool
	Scalar bool
}

var fieldsMemo = map[types.Type][]fieldInfo{}

func msgFields(t types.Type) []fieldInfo {
	if f, ok := fieldsMemo[t]; ok {
		return f
	}
	ms := types.NewMethodSet(types.NewPointer(t))
	var out []fieldInfo
	for i := 0; i < ms.Len(); i++ {
		n := ms.At(i).Obj().Name()
		sig := ms.At(i).Type().(*types.Signature)
		if strings.HasPrefix(n, "Get") && sig.Params().Len() == 0 && sig.Results().Len() == 1 {
			fn := n[3:]
			if ms.Lookup(nil, "Set"+fn) == nil && ms.Lookup(nil, "Has"+fn) == nil && !isTimestamp(t) {
				continue
			}
			fi := fieldInfo{Name: fn, Typ: sig.Results().At(0).Type()}
			fi.Has = ms.Lookup(nil, "Has"+fn) != nil
			switch fi.Typ.Underlying().(type) {
			case *types.Basic:
				fi.Scalar = true
			}
			out = append(out, fi)
		}
	}
	fieldsMemo[t] = out
	return out
}

func isTimestamp(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "google.golang.org/protobuf/types/known/timestamppb"
}

const unixOff = int64(62135596800)

func (e *Exec) protoCall(fn *ssa.Function, args []Val, st *State, pos token.Pos) Val {
	sig := fn.Signature
	nm := fn.Name()
	if sig.Recv() == nil {
		if fn.String() == "google.golang.org/protobuf/types/known/timestamppb.New" {
			t, ok := args[0].(*Struct)
			if !ok {
				return &Unk{"timestamp of unknown time"}
			}
			pt := sig.Results().At(0).Type().(*types.Pointer).Elem()
			o := e.newObj(OMsg, pt, "ts")
			ns := t.F[0].(*T)
			st.H[o] = &Msg{F: map[string]Val{"Seconds": smt.AddC(t.F[1].(*T), -unixOff), "Nanos": smt.Extract(ns, 31, 0)}, Has: map[string]*T{}}
			return &Ptr{A: []PAlt{{G: smt.True, O: o}}}
		}
		unsup("proto function %s", fn)
	}
	rt := sig.Recv().Type()
	if p, ok := rt.(*types.Pointer); ok {
		mt := p.Elem()
		if strings.HasSuffix(mt.(*types.Named).Obj().Name(), "_builder") {
			unsup("builder %s", fn)
		}
		ptr := e.asPtr(args[0])
		switch {
		case isTimestamp(mt) && nm == "AsTime":
			sec := e.getField(ptr, "Seconds", types.Typ[types.Int64], st, true).(*T)
			ns := e.getField(ptr, "Nanos", types.Typ[types.Int32], st, true).(*T)
			z := e.zero(sig.Results().At(0).Type()).(*Struct)
			return &Struct{Typ: z.Typ, F: []Val{smt.SExt(ns, 64), smt.AddC(sec, unixOff), z.F[2]}}
		case strings.HasPrefix(nm, "Get"):
			return e.getField(ptr, nm[3:], sig.Results().At(0).Type(), st, true)
		case strings.HasPrefix(nm, "Has"):
			f := nm[3:]
			var ft types.Type
			for _, fi := range msgFields(mt) {
				if fi.Name == f {
					ft = fi.Typ
				}
			}
			if ft == nil {
				unsup("Has for %s", nm)
			}
			r := smt.False
			for _, a := range ptr.A {
				g := smt.SimpUnder(a.G, st.G)
				if g.IsFalse() || a.O == nil {
					continue
				}
				m := e.get(st.H, a.O).(*Msg)
				var h *T
				if _, ok := ft.Underlying().(*types.Pointer); ok {
					h = smt.Not(e.ptrNil(e.field(m, f, ft)))
				} else {
					h = hasOf(m, f)
				}
				r = smt.Or(r, smt.And(g, h))
			}
			return r
		case strings.HasPrefix(nm, "Set"), strings.HasPrefix(nm, "Clear"):
			set := strings.HasPrefix(nm, "Set")
			f := strings.TrimPrefix(strings.TrimPrefix(nm, "Set"), "Clear")
			var ft types.Type
			for _, fi := range msgFields(mt) {
				if fi.Name == f {
					ft = fi.Typ
				}
			}
			if ft == nil {
				unsup("setter %s", nm)
			}
			for _, a := range e.alts(ptr, st, pos, "set") {
				if a.O.Inst {
					e.mayWrite(a.O)
				}
				if a.O.Protected {
					e.frame(st, a.G, a.O, pos, "set")
				}
				m := e.get(st.H, a.O).(*Msg)
				n := m.clone()
				if set {
					v := args[1]
					if sl, ok := v.(*Slice); ok && isByte(sl.Elem) {
						// nil becomes empty
						v = e.nonNil(sl, st)
						n.Has[f] = smt.True
					} else if _, ok := ft.Underlying().(*types.Basic); ok {
						n.Has[f] = smt.True
					}
					n.F[f] = v
				} else {
					n.F[f] = e.zero(ft)
					n.Has[f] = smt.False
				}
				st.H[a.O] = e.mergeContent(a.G, n, m)
			}
			return Tuple{}
		case nm == "String":
			return e.opaqueStr(e.fresh("msgstring", -1))
		case nm == "ProtoReflect":
			return &Iface{A: []IAlt{{G: smt.True, Typ: rt, V: &Host{Kind: "protoreflect", V: ptr}}}}
		}
		unsup("message method %s", fn)
	}
	// enum methods
	switch nm {
	case "Number":
		return args[0]
	case "Descriptor":
		return &Iface{A: []IAlt{{G: smt.True, Typ: rt, V: &Host{Kind: "enumdesc", V: rt.(*types.Named)}}}}
	case "String":
		return e.opaqueStr(smt.App("enumstr!"+rt.String(), -1, args[0].(*T)))
	case "Enum":
		o := e.newObj(OCell, rt, "enum")
		st.H[o] = args[0]
		return &Ptr{A: []PAlt{{G: smt.True, O: o}}}
	}
	unsup("enum method %s", fn)
	return nil
}

func (e *Exec) nonNil(s *Slice, st *State) *Slice {
	n := &Slice{Elem: s.Elem}
	for _, a := range s.A {
		if a.O == nil {
			if smt.SimpUnder(a.G, st.G).IsFalse() {
				continue
			}
			o := e.newObj(OBytes, s.Elem, "empty")
			st.H[o] = e.newSeq(&Seq{Kind: SZero})
			a.O = o
		}
		n.A = append(n.A, a)
	}
	return n
}

func (e *Exec) ptrNil(v Val) *T {
	p := e.asPtr(v)
	r := smt.False
	for _, a := range p.A {
		if a.O == nil {
			r = smt.Or(r, a.G)
		}
	}
	return r
}

// getField reads a message field through a getter (nil receiver gives the default).
func (e *Exec) getField(p *Ptr, f string, ft types.Type, st *State, nilOK bool) Val {
	var r Val
	for i := len(p.A) - 1; i >= 0; i-- {
		a := p.A[i]
		g := smt.SimpUnder(a.G, st.G)
		if g.IsFalse() {
			continue
		}
		var v Val
		if a.O == nil {
			v = e.zero(ft)
		} else {
			if len(a.Path) != 0 {
				unsup("message inside aggregate")
			}
			m, ok := e.get(st.H, a.O).(*Msg)
			if !ok {
				unsup("not a message: %s", a.O)
			}
			v = e.field(m, f, ft)
			if _, ok := ft.Underlying().(*types.Basic); ok && !isTimestamp(a.O.Typ) {
				h := hasOf(m, f)
				if !h.IsTrue() {
					v = e.ite(h, v, e.zero(ft))
				}
			}
		}
		if r == nil {
			r = v
		} else {
			r = e.ite(g, v, r)
		}
	}
	if r == nil {
		return e.zero(ft)
	}
	return r
}

// Interface method calls -----------------------------------------------------------

func (e *Exec) invoke(recv Val, m *types.Func, args []Val, st *State, pos token.Pos) Val {
	i, ok := recv.(*Iface)
	if !ok {
		if u, ok := recv.(*Unk); ok {
			unsup("invoke on unknown %s", u.Why)
		}
		unsup("invoke on %T", recv)
	}
	rt := resType(m.Type().(*types.Signature))
	var outs []State
	var vals []Val
	g0 := st.G
	for _, a := range i.A {
		g := smt.SimpUnder(a.G, g0)
		if g.IsFalse() {
			continue
		}
		if a.Typ == nil {
			e.check(st, "nil-interface", smt.Not(g), pos)
			continue
		}
		s := State{G: smt.And(g0, g), H: st.H.clone()}
		v := e.invokeAlt(a, m, args, &s, pos, rt)
		outs = append(outs, s)
		vals = append(vals, v)
	}
	if len(outs) == 0 {
		return e.zero(rt)
	}
	mst, rel := e.mergeStates(outs)
	v := vals[len(vals)-1]
	for i := len(vals) - 2; i >= 0; i-- {
		v = e.ite(rel[i], vals[i], v)
	}
	st.H = mst.H
	st.G = g0
	return v
}

func (e *Exec) invokeAlt(a IAlt, m *types.Func, args []Val, st *State, pos token.Pos, rt types.Type) Val {
	nm := m.Name()
	if h, ok := a.V.(*Host); ok {
		return e.hostInvoke(h, nm, args, st, pos, rt)
	}
	if nm == "Error" && a.ID != "" {
		return e.opaqueStr(e.fresh("errstring", -1))
	}
	if u, ok := a.V.(*Unk); ok {
		if a.ID != "" {
			// unknown dynamic type (interface parameter): the outcome is arbitrary, a function of the arguments
			return e.unknownMethod(a.ID, nm, args, st, rt)
		}
		unsup("method %s on unknown %s", nm, u.Why)
	}
	fn := e.W.Prog.LookupMethod(a.Typ, m.Pkg(), nm)
	if fn == nil {
		unsup("method %s of %s not found", nm, a.Typ)
	}
	return e.callStatic(fn, append([]Val{a.V}, args...), nil, st, pos)
}

// unknownMethod models a call through an interface whose dynamic type is arbitrary.
func (e *Exec) unknownMethod(id, nm string, args []Val, st *State, rt types.Type) Val {
	var as []*T
	for _, a := range args {
		switch x := a.(type) {
		case *T:
			as = append(as, x)
		case *Str:
			as = append(as, e.strOp(x))
		}
	}
	e.Modelled["interface method "+nm+" (arbitrary outcome)"] = true
	name := id + "." + nm
	for _, a := range as {
		name += fmt.Sprintf("_%d", a.W)
	}
	return e.symVal(rt, name, as)
}

func (e *Exec) hostInvoke(h *Host, nm string, args []Val, st *State, pos token.Pos, rt types.Type) Val {
	hostIface := func(kind string, v interface{}) Val {
		return &Iface{A: []IAlt{{G: smt.True, Typ: rt, V: &Host{Kind: kind, V: v}}}}
	}
	switch h.Kind {
	case "ite":
		x := h.V.(hostIte)
		a := e.hostInvoke(x.a, nm, args, st, pos, rt)
		b := e.hostInvoke(x.b, nm, args, st, pos, rt)
		return e.ite(x.c, a, b)
	case "enumdesc":
		switch nm {
		case "Values":
			return hostIface("enumvals", h.V)
		case "FullName":
			return e.opaqueStr(smt.App("enumname", -1))
		}
	case "enumvals":
		tab := e.W.enumTable(h.V.(*types.Named))
		switch nm {
		case "Len":
			return smt.Int(int64(len(tab.Values)))
		case "Get":
			i := args[0].(*T)
			if !i.IsConst() {
				unsup("symbolic enum index")
			}
			return hostIface("enumval", &enumValRef{tab, int(i.Val)})
		case "ByNumber":
			n := args[0].(*T)
			r := Val(&Iface{A: []IAlt{{G: smt.True}}})
			ifc := &Iface{}
			none := smt.True
			for i := range tab.Values {
				c := smt.Eq(n, smt.BV(uint64(int64(tab.Values[i].Number)), 32))
				if c.IsFalse() {
					continue
				}
				dup := false
				for j := 0; j < i; j++ {
					if tab.Values[j].Number == tab.Values[i].Number {
						dup = true
					}
				}
				if dup {
					continue
				}
				ifc.A = append(ifc.A, IAlt{G: c, Typ: rt, V: &Host{Kind: "enumval", V: &enumValRef{tab, i}}})
				none = smt.And(none, smt.Not(c))
			}
			ifc.A = append(ifc.A, IAlt{G: none})
			_ = r
			return ifc
		}
	case "enumval":
		v := h.V.(*enumValRef)
		switch nm {
		case "Number":
			return smt.BV(uint64(int64(v.tab.Values[v.i].Number)), 32)
		case "Options":
			return hostIface("enumopts", v)
		case "Name", "FullName":
			return e.opaqueStr(smt.App("enumvalname", -1))
		}
	}
	unsup("method %s on host %s", nm, h.Kind)
	return nil
}

type enumValRef struct {
	tab *EnumTable
	i   int
}
