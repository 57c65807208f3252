// Package sym is a symbolic executor and verification-condition generator over go/ssa.
package sym

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"govc/internal/smt"
)

type T = smt.T

// Val is one of *T, *Str, *Ptr, *Slice, *Iface, *Fn, *Struct, Tuple, *ByteArr, *ListArr, *Host, *Unk.
type Val interface{}

type Str struct {
	Seq *Seq
	Off *T
	Len *T
	Op  *T // non-nil: opaque string identified by an uninterpreted term (Seq is derived from it)
}

type PAlt struct {
	G    *T
	O    *Obj // nil: nil pointer
	Path []Step
}

// Step is a field number (F>=0) or an index term.
type Step struct {
	F int
	I *T
}

type Ptr struct{ A []PAlt }

type SAlt struct {
	G             *T
	O             *Obj // nil: nil slice
	Off, Len, Cap *T
}

type Slice struct {
	A    []SAlt
	Elem types.Type
}

type IAlt struct {
	G   *T
	Typ types.Type // nil: nil interface
	V   Val
	// error classes: identity for sentinel comparisons
	ID string
}

type Iface struct{ A []IAlt }

type FAlt struct {
	G    *T
	F    *ssa.Function // nil with Host=="" : nil func
	Bind []Val
}

type Fn struct{ A []FAlt }

type Struct struct {
	Typ types.Type
	F   []Val
}

type Tuple []Val

// ByteArr is a byte array value; ListArr another array value.
type ByteArr struct {
	Seq *Seq
	N   int64
}
type ListArr struct {
	Seq *Seq
	N   int64
}

type Host struct {
	Kind string
	V    interface{}
}

// Unk is an unusable value: using it is unsupported.
type Unk struct{ Why string }

// Obj is a heap object.
type ObjKind int

const (
	OCell  ObjKind = iota // a variable of any type: content Val
	OBytes                // byte backing array: content *Seq
	OList                 // non-byte backing array: content *Seq
	OMsg                  // protobuf message: content *Msg
)

type Obj struct {
	ID        int
	Kind      ObjKind
	Typ       types.Type
	Name      string
	Loops     []*Loop // generic loops it was born in
	Frozen    interface{}
	Lazy      func() interface{}
	Protected bool // memory owned by somebody else: in-place append and writes are violations
	Dirty     bool
	Len       *T // array length for backing objects created from arrays/make
	Volatile  bool
	Inst      bool  // instance of a per-iteration object
	leaf      *leaf // the loop variable whose message this is
	leafL     *Loop
}

func (o *Obj) String() string { return fmt.Sprintf("%s#%d", o.Name, o.ID) }

// Msg is the immutable content of a message object.
type Msg struct {
	F    map[string]Val // field values
	Has  map[string]*T  // explicit presence of scalar fields
	Base string         // non-empty: symbolic message, unset fields are uninterpreted functions
	Args []*T
}

func (m *Msg) clone() *Msg {
	n := &Msg{F: make(map[string]Val, len(m.F)+1), Has: make(map[string]*T, len(m.Has)+1), Base: m.Base, Args: m.Args}
	for k, v := range m.F {
		n.F[k] = v
	}
	for k, v := range m.Has {
		n.Has[k] = v
	}
	return n
}

// Sequences -------------------------------------------------------------------

type SeqKind int

const (
	SBase  SeqKind = iota // uninterpreted: at(i) = sym(Name, Args..., i)
	SConst                // literal bytes
	SZero                 // zero values
	SList                 // literal values
	SStore                // A with A[Idx]=V
	SCopy                 // A with [Off,Off+N) replaced by B[BOff...]
	SIte                  // C ? A : B
	SCat                  // A[AOff..AOff+ALen) ++ B[BOff...]
	SAcc                  // accumulator of loop at count K
	SFun                  // native function of index
	SFill                 // A with [Off,Off+K) filled by the first K iterations of a loop
	SRev                  // A with the first and last K elements of [Off,N] exchanged
)

type Seq struct {
	id                     int
	Kind                   SeqKind
	Elem                   types.Type // nil: bytes
	Name                   string
	Args                   []*T
	Bytes                  []byte
	Vals                   []Val
	A, B                   *Seq
	Idx, Off, N, BOff, Len *T
	V                      Val
	C                      *T
	Acc                    *Acc
	K                      *T
	Fun                    func(i *T) Val
	Fill                   *leaf
	FillL                  *Loop
	memo                   map[*T]seqMemo
}

type seqMemo struct {
	v Val
	t []touch
}

type touch struct {
	l *Loop
	j *T
}

// Acc describes an append-only accumulator of a loop.
type Acc struct {
	L        *Loop
	Name     string
	Elem     types.Type
	Entry    *Slice
	EntryLen *T
	LenAt    func(j *T) *T // length at iteration j
	Stride   *T            // constant stride or nil
	Delta    *Seq          // generic: content appended in iteration k
	DeltaOff *T
	DeltaLen *T
	Args     []*T // outer loop counters
	leaf     *leaf
	entrySeq *Seq
	entryOff *T
}

type Heap map[*Obj]interface{}

func (h Heap) clone() Heap {
	n := make(Heap, len(h)+4)
	for k, v := range h {
		n[k] = v
	}
	return n
}

// Unsupported aborts the current lemma: the construct is outside the engine's reach.
type Unsupported struct{ Msg string }

func unsup(f string, a ...interface{}) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

func (e *Exec) newObj(k ObjKind, t types.Type, name string) *Obj {
	e.nobj++
	o := &Obj{ID: e.nobj, Kind: k, Typ: t, Name: name}
	o.Loops = append(o.Loops, e.loopStack...)
	return o
}

func (e *Exec) get(h Heap, o *Obj) interface{} {
	if c, ok := h[o]; ok {
		return c
	}
	if o.Frozen != nil {
		return o.Frozen
	}
	if o.Lazy != nil {
		o.Frozen = o.Lazy()
		return o.Frozen
	}
	unsup("no content for object %s", o)
	return nil
}

func (e *Exec) newSeq(s *Seq) *Seq {
	e.nseq++
	s.id = e.nseq
	return s
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

// At reads element i.
func (e *Exec) At(s *Seq, i *T) Val {
	if s.memo == nil {
		s.memo = map[*T]seqMemo{}
	}
	if m, ok := s.memo[i]; ok {
		for _, t := range m.t {
			e.touchInst(t.l, t.j)
		}
		return m.v
	}
	n0 := len(e.touchLog)
	v := e.at(s, i)
	s.memo[i] = seqMemo{v, append([]touch(nil), e.touchLog[n0:]...)}
	if n0 == 0 {
		e.touchLog = e.touchLog[:0]
	}
	return v
}

func (e *Exec) atB(s *Seq, i *T) *T {
	v := e.At(s, i)
	t, ok := v.(*T)
	if !ok {
		unsup("byte read of non-scalar %T", v)
	}
	return t
}

func (e *Exec) at(s *Seq, i *T) Val {
	switch s.Kind {
	case SBase:
		if s.Elem == nil {
			return smt.App(s.Name, 8, append(append([]*T{}, s.Args...), i)...)
		}
		return e.symVal(s.Elem, s.Name+"@", append(append([]*T{}, s.Args...), i))
	case SConst:
		if i.IsConst() {
			k := i.Signed()
			if k >= 0 && k < int64(len(s.Bytes)) {
				return smt.BV(uint64(s.Bytes[k]), 8)
			}
			return smt.BV(0, 8)
		}
		r := smt.BV(0, 8)
		if len(s.Bytes) > 1024 {
			return smt.App(fmt.Sprintf("const%d", s.id), 8, i)
		}
		for k := len(s.Bytes) - 1; k >= 0; k-- {
			r = smt.Ite(smt.Eq(i, smt.Int(int64(k))), smt.BV(uint64(s.Bytes[k]), 8), r)
		}
		return r
	case SZero:
		if s.Elem == nil {
			return smt.BV(0, 8)
		}
		return e.zero(s.Elem)
	case SList:
		if i.IsConst() {
			k := i.Signed()
			if k >= 0 && k < int64(len(s.Vals)) {
				return s.Vals[k]
			}
			return e.zeroElem(s)
		}
		r := e.zeroElem(s)
		if len(s.Vals) > 0 {
			r = s.Vals[len(s.Vals)-1]
		}
		for k := len(s.Vals) - 2; k >= 0; k-- {
			r = e.ite(smt.Eq(i, smt.Int(int64(k))), s.Vals[k], r)
		}
		return r
	case SStore:
		c := smt.Eq(i, s.Idx)
		if c.IsTrue() {
			return s.V
		}
		if c.IsFalse() {
			return e.At(s.A, i)
		}
		return e.ite(c, s.V, e.At(s.A, i))
	case SCopy:
		c := smt.And(smt.Sle(s.Off, i), smt.Slt(i, smt.Add(s.Off, s.N)))
		if c.IsFalse() {
			return e.At(s.A, i)
		}
		b := e.At(s.B, smt.Add(smt.Sub(i, s.Off), s.BOff))
		if c.IsTrue() {
			return b
		}
		return e.ite(c, b, e.At(s.A, i))
	case SIte:
		return e.ite(s.C, e.At(s.A, i), e.At(s.B, i))
	case SCat:
		c := smt.Slt(i, s.N)
		if c.IsTrue() {
			return e.At(s.A, smt.Add(i, s.Off))
		}
		b := func() Val { return e.At(s.B, smt.Add(smt.Sub(i, s.N), s.BOff)) }
		if c.IsFalse() {
			return b()
		}
		return e.ite(c, e.At(s.A, smt.Add(i, s.Off)), b())
	case SFun:
		return s.Fun(i)
	case SAcc:
		return e.accAt(s, i)
	case SFill:
		return e.fillAt(s, i)
	case SRev:
		c := smt.And(smt.Sle(s.Off, i), smt.Sle(i, s.N), smt.Or(smt.Slt(i, smt.Add(s.Off, s.K)), smt.Slt(smt.Sub(s.N, s.K), i)))
		return e.At(s.A, smt.Ite(c, smt.Sub(smt.Add(s.Off, s.N), i), i))
	}
	panic("seq kind")
}

func (e *Exec) zeroElem(s *Seq) Val {
	if s.Elem == nil {
		return smt.BV(0, 8)
	}
	return e.zero(s.Elem)
}

func (e *Exec) seqIte(c *T, a, b *Seq) *Seq {
	if a == b || c.IsTrue() {
		return a
	}
	if c.IsFalse() {
		return b
	}
	return e.newSeq(&Seq{Kind: SIte, C: c, A: a, B: b, Elem: a.Elem})
}

// Zero and symbolic values -----------------------------------------------------

func (e *Exec) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return &Unk{"unsafe pointer"}
		case u.Info()&types.IsBoolean != 0:
			return smt.False
		case u.Info()&types.IsString != 0:
			return e.strLit("")
		case u.Info()&types.IsInteger != 0:
			return smt.BV(0, e.width(t))
		case u.Info()&types.IsFloat != 0:
			return &Unk{"float"}
		case u.Kind() == types.UntypedNil:
			return &Ptr{A: []PAlt{{G: smt.True}}}
		}
		return &Unk{"basic " + u.String()}
	case *types.Pointer:
		return &Ptr{A: []PAlt{{G: smt.True}}}
	case *types.Slice:
		return e.nilSlice(u.Elem())
	case *types.Interface:
		return &Iface{A: []IAlt{{G: smt.True}}}
	case *types.Signature:
		return &Fn{A: []FAlt{{G: smt.True}}}
	case *types.Struct:
		if h := hostStruct(t); h != "" {
			return &Host{Kind: h + "-zero"}
		}
		s := &Struct{Typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, e.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if isByte(u.Elem()) {
			return &ByteArr{Seq: e.newSeq(&Seq{Kind: SZero}), N: u.Len()}
		}
		return &ListArr{Seq: e.newSeq(&Seq{Kind: SZero, Elem: u.Elem()}), N: u.Len()}
	case *types.Map, *types.Chan:
		return &Unk{"map/chan"}
	case *types.Tuple:
		var r Tuple
		for i := 0; i < u.Len(); i++ {
			r = append(r, e.zero(u.At(i).Type()))
		}
		return r
	}
	return &Unk{"zero of " + t.String()}
}

func (e *Exec) nilSlice(elem types.Type) *Slice {
	z := smt.Int(0)
	return &Slice{A: []SAlt{{G: smt.True, Off: z, Len: z, Cap: z}}, Elem: elem}
}

func hostStruct(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "math/big.Int":
			return "bigint"
		}
	}
	return ""
}

func isMsgType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	p := n.Obj().Pkg().Path()
	if strings.HasSuffix(n.Obj().Name(), "_builder") {
		return false
	}
	return strings.Contains(p, "/proto/gen/") || p == "google.golang.org/protobuf/types/known/timestamppb"
}

func (e *Exec) width(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		unsup("width of %s", t)
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	}
	unsup("width of %s", t)
	return 0
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

const maxLen = int64(1) << 40 // address-space bound on lengths (assumption listed in evidence)

// symVal is an arbitrary value of type t, a function of (name, args).
func (e *Exec) symVal(t types.Type, name string, args []*T) Val {
	key := name + "|"
	for _, a := range args {
		key += fmt.Sprintf("%d,", a.ID)
	}
	if v, ok := e.symMemo[key]; ok {
		return v
	}
	v := e.symVal1(t, name, args)
	e.symMemo[key] = v
	return v
}

func (e *Exec) symVal1(t types.Type, name string, args []*T) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return smt.App(name, 0, args...)
		case u.Info()&types.IsInteger != 0:
			return smt.App(name, e.width(t), args...)
		case u.Info()&types.IsString != 0:
			return e.opaqueStr(smt.App(name, -1, args...))
		}
	case *types.Pointer:
		nilG := smt.App(name+"?nil", 0, args...)
		el := u.Elem()
		var o *Obj
		if isMsgType(el) {
			o = e.newObj(OMsg, el, name)
			o.Loops = nil
			o.Frozen = &Msg{F: map[string]Val{}, Has: map[string]*T{}, Base: name, Args: args}
		} else {
			o = e.newObj(OCell, el, name)
			o.Loops = nil
			o.Lazy = func() interface{} { return e.symVal(el, name+".*", args) }
		}
		o.Protected = true
		return &Ptr{A: []PAlt{{G: nilG}, {G: smt.Not(nilG), O: o}}}
	case *types.Slice:
		ln := name + "?len"
		smt.DeclareRange(ln, 0, maxLen)
		l := smt.App(ln, 64, args...)
		o := e.newObj(OBytes, u.Elem(), name)
		o.Loops = nil
		o.Protected = true
		s := &Seq{Kind: SBase, Name: name, Args: args}
		if !isByte(u.Elem()) {
			o.Kind = OList
			s.Elem = u.Elem()
		}
		o.Frozen = e.newSeq(s)
		nilG := smt.App(name+"?nil", 0, args...)
		if e.inField && isByte(u.Elem()) {
			nilG = smt.Not(smt.App(name+"?has", 0, args...))
		}
		z := smt.Int(0)
		return &Slice{Elem: u.Elem(), A: []SAlt{{G: nilG, Off: z, Len: z, Cap: z}, {G: smt.Not(nilG), O: o, Off: z, Len: l, Cap: l}}}
	case *types.Interface:
		nilG := smt.App(name+"?nil", 0, args...)
		return &Iface{A: []IAlt{{G: nilG}, {G: smt.Not(nilG), Typ: types.Universe.Lookup("error").Type(), V: &Unk{"dynamic " + name}, ID: name}}}
	case *types.Struct:
		s := &Struct{Typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, e.symVal(u.Field(i).Type(), name+"."+u.Field(i).Name(), args))
		}
		return s
	case *types.Array:
		s := &Seq{Kind: SBase, Name: name, Args: args}
		if isByte(u.Elem()) {
			return &ByteArr{Seq: e.newSeq(s), N: u.Len()}
		}
		s.Elem = u.Elem()
		return &ListArr{Seq: e.newSeq(s), N: u.Len()}
	case *types.Tuple:
		var r Tuple
		for i := 0; i < u.Len(); i++ {
			r = append(r, e.symVal(u.At(i).Type(), fmt.Sprintf("%s.%d", name, i), args))
		}
		return r
	}
	return &Unk{"symbolic " + t.String()}
}

func (e *Exec) strLit(s string) *Str {
	if v, ok := e.lits[s]; ok {
		return v
	}
	v := &Str{Seq: e.newSeq(&Seq{Kind: SConst, Bytes: []byte(s)}), Off: smt.Int(0), Len: smt.Int(int64(len(s))), Op: smt.App("lit!"+clean(s), -1)}
	e.lits[s] = v
	return v
}

func clean(s string) string {
	r := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '|' || c == '\\' || c < 32 || c > 126 {
			r = append(r, []byte(fmt.Sprintf("~%02x", c))...)
		} else {
			r = append(r, c)
		}
	}
	return string(r)
}

func (e *Exec) opaqueStr(op *T) *Str {
	ln := "strlen"
	smt.DeclareRange(ln, 0, maxLen)
	return &Str{Seq: e.newSeq(&Seq{Kind: SBase, Name: "strbyte", Args: []*T{op}}), Off: smt.Int(0), Len: smt.App(ln, 64, op), Op: op}
}

// Merging ------------------------------------------------------------------------

func (e *Exec) ite(c *T, a, b Val) Val {
	if c.IsTrue() {
		return a
	}
	if c.IsFalse() {
		return b
	}
	if _, tup := a.(Tuple); !tup && a == b {
		return a
	}
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if u, ok := a.(*Unk); ok {
		return u
	}
	if u, ok := b.(*Unk); ok {
		return u
	}
	if _, ok := a.(*lazyIte); ok {
		return &lazyIte{c, a, b}
	}
	if _, ok := b.(*lazyIte); ok {
		return &lazyIte{c, a, b}
	}
	nc := smt.Not(c)
	switch x := a.(type) {
	case *T:
		return smt.Ite(c, x, b.(*T))
	case *Ptr:
		y := b.(*Ptr)
		var r []PAlt
		add := func(p PAlt, g *T) {
			p.G = smt.And(g, p.G)
			if p.G.IsFalse() {
				return
			}
			for i := range r {
				if r[i].O == p.O && samePath(r[i].Path, p.Path) {
					r[i].G = smt.Or(r[i].G, p.G)
					return
				}
			}
			r = append(r, p)
		}
		for _, p := range x.A {
			add(p, c)
		}
		for _, p := range y.A {
			add(p, nc)
		}
		return &Ptr{A: r}
	case *Slice:
		y := b.(*Slice)
		var r []SAlt
		add := func(p SAlt, g *T) {
			p.G = smt.And(g, p.G)
			if p.G.IsFalse() {
				return
			}
			for i := range r {
				if r[i].O == p.O {
					if r[i].Off == p.Off && r[i].Len == p.Len && r[i].Cap == p.Cap {
						r[i].G = smt.Or(r[i].G, p.G)
						return
					}
					q := r[i]
					r[i] = SAlt{G: smt.Or(q.G, p.G), O: p.O, Off: smt.Ite(p.G, p.Off, q.Off), Len: smt.Ite(p.G, p.Len, q.Len), Cap: smt.Ite(p.G, p.Cap, q.Cap)}
					return
				}
			}
			r = append(r, p)
		}
		for _, p := range x.A {
			add(p, c)
		}
		for _, p := range y.A {
			add(p, nc)
		}
		return &Slice{A: r, Elem: x.Elem}
	case *Iface:
		y := b.(*Iface)
		var r []IAlt
		add := func(p IAlt, g *T) {
			p.G = smt.And(g, p.G)
			if p.G.IsFalse() {
				return
			}
			for i := range r {
				if r[i].Typ == nil && p.Typ == nil {
					r[i].G = smt.Or(r[i].G, p.G)
					return
				}
				if r[i].Typ != nil && p.Typ != nil && types.Identical(r[i].Typ, p.Typ) {
					if isErrVal(r[i]) && isErrVal(p) {
						if r[i].ID == p.ID {
							r[i].G = smt.Or(r[i].G, p.G)
							return
						}
						continue
					}
					v := e.ite(p.G, p.V, r[i].V)
					r[i] = IAlt{G: smt.Or(r[i].G, p.G), Typ: p.Typ, V: v, ID: r[i].ID}
					return
				}
			}
			r = append(r, p)
		}
		for _, p := range x.A {
			add(p, c)
		}
		for _, p := range y.A {
			add(p, nc)
		}
		return &Iface{A: r}
	case *Fn:
		y := b.(*Fn)
		var r []FAlt
		for _, p := range x.A {
			p.G = smt.And(c, p.G)
			r = append(r, p)
		}
		for _, p := range y.A {
			p.G = smt.And(nc, p.G)
			done := false
			for i := range r {
				if r[i].F == p.F && len(p.Bind) == 0 {
					r[i].G = smt.Or(r[i].G, p.G)
					done = true
				}
			}
			if !done {
				r = append(r, p)
			}
		}
		return &Fn{A: r}
	case *Struct:
		y, ok := b.(*Struct)
		if !ok {
			return &Unk{"merge struct/host"}
		}
		s := &Struct{Typ: x.Typ}
		for i := range x.F {
			s.F = append(s.F, e.ite(c, x.F[i], y.F[i]))
		}
		return s
	case Tuple:
		y := b.(Tuple)
		var r Tuple
		for i := range x {
			r = append(r, e.ite(c, x[i], y[i]))
		}
		return r
	case *Str:
		y := b.(*Str)
		if x.Op != nil && x.Op == y.Op {
			return x
		}
		n := &Str{Len: smt.Ite(c, x.Len, y.Len), Off: smt.Int(0)}
		if x.Seq == y.Seq && x.Off == y.Off {
			n.Seq, n.Off = x.Seq, x.Off
		} else {
			n.Seq = e.seqIte(c, e.shift(x.Seq, x.Off), e.shift(y.Seq, y.Off))
		}
		if x.Op != nil && y.Op != nil {
			n.Op = smt.Ite(c, x.Op, y.Op)
		}
		return n
	case *ByteArr:
		y := b.(*ByteArr)
		return &ByteArr{Seq: e.seqIte(c, x.Seq, y.Seq), N: x.N}
	case *ListArr:
		y := b.(*ListArr)
		return &ListArr{Seq: e.seqIte(c, x.Seq, y.Seq), N: x.N}
	case *Seq:
		return e.seqIte(c, x, b.(*Seq))
	case *Msg:
		return e.msgIte(c, x, b.(*Msg))
	case *Host:
		y, ok := b.(*Host)
		if ok && x.Kind == y.Kind && x.V == y.V {
			return x
		}
		if ok && x.Kind == "bigint" && y.Kind == "bigint" {
			return &Host{Kind: "bigint", V: smt.Ite(c, x.V.(*T), y.V.(*T))}
		}
		if ok {
			return &Host{Kind: "ite", V: hostIte{c, x, y}}
		}
		return &Unk{"merge of host values"}
	}
	unsup("ite of %T", a)
	return nil
}

type hostIte struct {
	c    *T
	a, b *Host
}

func isErrVal(a IAlt) bool { return a.ID != "" }

func samePath(a, b []Step) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (e *Exec) shift(s *Seq, off *T) *Seq {
	if off.IsConst() && off.Val == 0 {
		return s
	}
	// at(i) = s.at(i+off)
	z := smt.Int(0)
	return e.newSeq(&Seq{Kind: SCat, A: s, Off: off, N: smt.Int(1 << 62), B: s, BOff: z, Elem: s.Elem})
}

func (e *Exec) msgIte(c *T, a, b *Msg) *Msg {
	if a == b {
		return a
	}
	n := &Msg{F: map[string]Val{}, Has: map[string]*T{}, Base: a.Base, Args: a.Args}
	if a.Base != b.Base {
		unsup("merge of unrelated messages")
	}
	for k, v := range a.F {
		if w, ok := b.F[k]; ok {
			n.F[k] = e.ite(c, v, w)
		} else {
			n.F[k] = &lazyIte{c, v, nil}
		}
	}
	for k, w := range b.F {
		if _, ok := a.F[k]; !ok {
			n.F[k] = &lazyIte{c, nil, w}
		}
	}
	for k := range a.Has {
		n.Has[k] = nil
	}
	for k := range b.Has {
		n.Has[k] = nil
	}
	for k := range n.Has {
		n.Has[k] = smt.Ite(c, hasOf(a, k), hasOf(b, k))
	}
	return n
}

func hasOf(m *Msg, k string) *T {
	if t, ok := m.Has[k]; ok {
		return t
	}
	if m.Base != "" {
		return smt.App(m.Base+"."+k+"?has", 0, m.Args...)
	}
	return smt.False
}

// lazyIte is a field merged with an unset side (nil): resolved on read with the field's type.
type lazyIte struct {
	c    *T
	a, b Val
}

// field reads a raw field value with the default for its type.
func (e *Exec) field(m *Msg, name string, t types.Type) Val {
	v, ok := m.F[name]
	if !ok {
		if m.Base != "" {
			return e.symField(t, m, name)
		}
		return e.zero(t)
	}
	return e.resolveLazy(m, v, name, t)
}

// symField is an input message's field. A bytes field is nil exactly when it is not set.
func (e *Exec) symField(t types.Type, m *Msg, name string) Val {
	e.inField = true
	defer func() { e.inField = false }()
	return e.symVal(t, m.Base+"."+name, m.Args)
}

func (e *Exec) resolveLazy(m *Msg, v Val, name string, t types.Type) Val {
	if l, ok := v.(*lazyIte); ok {
		def := func(x Val) Val {
			if x == nil {
				if m.Base != "" {
					return e.symField(t, m, name)
				}
				return e.zero(t)
			}
			return e.resolveLazy(m, x, name, t)
		}
		return e.ite(l.c, def(l.a), def(l.b))
	}
	return v
}

// mergeContent merges heap contents of one object.
func (e *Exec) mergeContent(c *T, a, b interface{}) interface{} {
	if a == b {
		return a
	}
	switch x := a.(type) {
	case *Seq:
		return e.seqIte(c, x, b.(*Seq))
	case *Msg:
		return e.msgIte(c, x, b.(*Msg))
	}
	return e.ite(c, a, b)
}
