package sym

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"govc/internal/smt"
)

// Messages as values. A message's content is one term of the uninterpreted sort: what it was made from, and the
// fields set since. Equal terms mean equal contents.

const opaqueBase = "m@"

func opaqueMsg(t types.Type, content *T) *Msg {
	return &Msg{F: map[string]Val{}, Has: map[string]*T{}, Base: opaqueBase + clean(typeKey(t)), Args: []*T{content}}
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// msgOp is the content of a message; ok is false when a field is beyond it.
func (e *Exec) msgOp(m *Msg, typ types.Type, st *State) (t *T, ok bool) {
	switch {
	case strings.HasPrefix(m.Base, opaqueBase):
		t = m.Args[0]
	case m.Base != "":
		t = smt.App("msg!"+clean(m.Base), -1, m.Args...)
	default:
		t = smt.App("new!"+clean(typeKey(typ)), -1)
	}
	keys := map[string]bool{}
	for k := range m.F {
		keys[k] = true
	}
	for k := range m.Has {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		args := []*T{t}
		if f := fieldType(typ, k); f != nil {
			v, isF := m.F[k]
			if isF {
				v = e.resolveLazy(m, v, k, f)
				a, ok := e.valOp(v, st)
				if !ok {
					return nil, false
				}
				args = append(args, a...)
			}
		}
		if h, is := m.Has[k]; is && h != nil {
			args = append(args, h)
		}
		nm := "set!" + clean(typeKey(typ)) + "." + k
		for _, a := range args[1:] {
			nm += fmt.Sprintf("_%d", a.W)
		}
		t = smt.App(nm, -1, args...)
	}
	return t, true
}

// valOp gives terms that determine a value.
func (e *Exec) valOp(v Val, st *State) ([]*T, bool) {
	switch x := v.(type) {
	case *T:
		return []*T{x}, true
	case *Str:
		return []*T{e.strOp(x)}, true
	case *Slice:
		if !isByte(x.Elem) {
			return nil, false
		}
		r := smt.App("bytes!nil", -1)
		for i := len(x.A) - 1; i >= 0; i-- {
			a := x.A[i]
			t := smt.App("bytes!nil", -1)
			if a.O != nil {
				q, ok := e.get(st.H, a.O).(*Seq)
				if !ok {
					return nil, false
				}
				b := smt.App(fmt.Sprintf("seq!%d_%d", q.id, len(e.loopArgs())), -1, e.loopArgs()...)
				switch q.Kind {
				case SBase:
					b = smt.App("base!"+clean(q.Name), -1, q.Args...)
				case SZero:
					b = smt.App("base!zeros", -1)
				}
				t = smt.Ite(smt.Eq(a.Len, smt.Int(0)), smt.App("bytes!empty", -1), smt.App("bytes!", -1, b, a.Off, a.Len))
			}
			r = smt.Ite(a.G, t, r)
		}
		return []*T{r}, true
	case *Struct:
		var out []*T
		for _, f := range x.F {
			a, ok := e.valOp(f, st)
			if !ok {
				return nil, false
			}
			out = append(out, a...)
		}
		return out, true
	case *Ptr:
		n, c, ok := e.ptrOp(x, st)
		return []*T{n, c}, ok
	}
	return nil, false
}

// ptrOp is a pointer to a message, as a nil flag and a content.
func (e *Exec) ptrOp(p *Ptr, st *State) (nl, c *T, ok bool) {
	nl, c = smt.False, nil
	for i := len(p.A) - 1; i >= 0; i-- {
		a := p.A[i]
		if smt.SimpUnder(a.G, st.G).IsFalse() {
			continue
		}
		if a.O == nil {
			nl = smt.Or(nl, a.G)
			continue
		}
		if len(a.Path) != 0 || a.O.Kind != OMsg {
			return nil, nil, false
		}
		t, ok := e.msgOp(e.get(st.H, a.O).(*Msg), a.O.Typ, st)
		if !ok {
			return nil, nil, false
		}
		if c == nil {
			c = t
		} else {
			c = smt.Ite(a.G, t, c)
		}
	}
	if c == nil {
		c = smt.App("none!", -1)
	}
	return smt.SimpUnder(nl, st.G), smt.SimpUnder(c, st.G), true
}

// Loop-carried pointers to messages ---------------------------------------------------------

// ptrMode chooses how a pointer the body changes is carried: as a value (mptr) until the body writes through it, then
// as the only reference to a message that is part of the loop's state (box).
func (e *Exec) ptrMode(L *Loop, l *leaf, x *Ptr, bv Val, back State) {
	l.mode = "unk"
	pt, ok := l.typ.Underlying().(*types.Pointer)
	if !ok || !isMsgType(pt.Elem()) {
		dbg("leaf %s unk: pointer to %v", l.id, l.typ)
		return
	}
	n, c, ok := e.ptrOp(x, &L.st0)
	if !ok {
		return
	}
	l.mode = "mptr"
	l.subs = []*leaf{{id: l.id + "?nil", mode: "uf", entry: n, of: pt}, {id: l.id + "?msg", mode: "uf", entry: c, w: -1, of: pt}}
}

func (e *Exec) leafObj(L *Loop, l *leaf, c *T, m func() *Msg) *Obj {
	k := fmt.Sprintf("%p|%s|%s|%d", L, l.id, l.mode, c.ID)
	if l.mode == "box" {
		k += "|" + strings.Join(l.keys, ",")
	}
	if o, ok := e.accObjs[k]; ok {
		o.Frozen = m()
		return o
	}
	o := e.newObj(OMsg, l.typ.Underlying().(*types.Pointer).Elem(), "loop_"+l.id)
	o.Loops = nil
	o.Inst = true
	o.leaf, o.leafL = l, L
	o.Frozen = m()
	e.accObjs[k] = o
	return o
}

func (e *Exec) msgPtrAt(L *Loop, l *leaf, c *T) Val {
	if c.IsConst() && c.Val == 0 {
		return l.entry
	}
	n := e.scalarAt(L, l.subs[0], c)
	if n.IsTrue() {
		return &Ptr{A: []PAlt{{G: smt.True}}}
	}
	o := e.leafObj(L, l, c, func() *Msg {
		if l.mode == "mptr" {
			return opaqueMsg(l.typ.Underlying().(*types.Pointer).Elem(), e.scalarAt(L, l.subs[1], c))
		}
		m := &Msg{F: map[string]Val{}, Has: map[string]*T{}}
		for i, k := range l.keys {
			m.F[k] = e.leafAt(L, l.subs[1+i], c).(Val)
		}
		return m
	})
	if n.IsFalse() {
		return &Ptr{A: []PAlt{{G: smt.True, O: o}}}
	}
	return &Ptr{A: []PAlt{{G: n}, {G: smt.Not(n), O: o}}}
}

// mayWrite is called before a message carried by a loop is written to.
func (e *Exec) mayWrite(o *Obj) {
	if o.leaf == nil {
		unsup("set on a per-iteration object")
	}
	if o.leaf.mode == "mptr" {
		for _, l := range e.loopStack {
			if l == o.leafL {
				panic(instFail{o.leafL, o.leaf})
			}
		}
		unsup("set on a message carried by a loop")
	}
}

// toBox turns a message carried as a value into one carried by reference.
func (e *Exec) toBox(L *Loop, l *leaf) {
	l.mode = "unk"
	x, ok := l.entry.(*Ptr)
	if !ok || !e.ptrNil(x).IsTrue() && !smt.SimpUnder(e.ptrNil(x), L.g0).IsTrue() {
		return
	}
	l.mode = "box"
	l.keys = nil
	l.subs = l.subs[:1]
}

// boxContent is the message a box refers to at the back edge. All alternatives must be the box's own message or one
// made in this iteration, and nothing else may refer to them.
func (e *Exec) boxContent(L *Loop, l *leaf, v Val, back State) (n *T, alts []PAlt, ok bool) {
	p, is := v.(*Ptr)
	if !is {
		return nil, nil, false
	}
	p = e.norm(p, back.G).(*Ptr)
	n = smt.False
	for _, a := range p.A {
		if a.O == nil {
			n = smt.Or(n, a.G)
			continue
		}
		own := a.O.leaf == l
		born := a.O.Frozen == nil && a.O.Lazy == nil && len(a.O.Loops) > 0 && a.O.Loops[len(a.O.Loops)-1] == L
		if len(a.Path) != 0 || a.O.Kind != OMsg || !own && !born {
			dbg("box %s: %v", l.id, a.O)
			return nil, nil, false
		}
		if m := e.get(back.H, a.O).(*Msg); m.Base != "" {
			return nil, nil, false
		}
		alts = append(alts, a)
	}
	return n, alts, true
}

func (e *Exec) boxKeys(alts []PAlt, st State) []string {
	ks := map[string]bool{}
	for _, a := range alts {
		m := e.get(st.H, a.O).(*Msg)
		for k := range m.F {
			ks[k] = true
		}
		for k := range m.Has {
			ks[k] = true
		}
	}
	return sortedKeys(ks)
}

func (e *Exec) boxField(n *T, alts []PAlt, k string, t types.Type, st State) Val {
	var r Val
	if _, ok := t.Underlying().(*types.Pointer); ok && !n.IsFalse() {
		r = e.zero(t) // no message, nothing in it
	}
	for i := len(alts) - 1; i >= 0; i-- {
		v := e.field(e.get(st.H, alts[i].O).(*Msg), k, t)
		if r == nil {
			r = v
		} else {
			r = e.ite(alts[i].G, v, r)
		}
	}
	if r == nil {
		return e.zero(t)
	}
	return e.norm(r, st.G)
}

func (e *Exec) refineBox(L *Loop, l *leaf, bv Val, back State) bool {
	n, alts, ok := e.boxContent(L, l, bv, back)
	if !ok {
		l.mode = "unk"
		return true
	}
	typ := l.typ.Underlying().(*types.Pointer).Elem()
	ch := e.refineLeaf(L, l.subs[0], n, back)
	have := map[string]bool{}
	for _, k := range l.keys {
		have[k] = true
	}
	grow := false
	for _, k := range e.boxKeys(alts, back) {
		if !have[k] {
			grow = true
			ft := fieldType(typ, k)
			if _, basic := ft.Underlying().(*types.Basic); basic {
				l.mode = "unk" // presence of scalars is not carried
				return true
			}
			l.keys = append(l.keys, k)
			l.subs = append(l.subs, e.newLeaf(L, l.id+"."+k, e.zero(ft), ft, nil))
		}
	}
	if grow {
		return true
	}
	for i, k := range l.keys {
		if e.refineLeaf(L, l.subs[1+i], e.boxField(n, alts, k, fieldType(typ, k), back), back) {
			ch = true
		}
	}
	return ch
}

// exclusive checks that nothing but the box's own variable refers to its message at the back edge.
func (e *Exec) exclusive(L *Loop, bp map[string]Val, back State) {
	owner := map[*Obj]string{}
	for id, v := range bp {
		if l := L.find(id, e); l != nil && l.mode == "box" {
			for _, a := range v.(*Ptr).A {
				if a.O == nil {
					continue
				}
				if w, ok := owner[a.O]; ok && w != id {
					unsup("%s is carried by two loop variables", a.O)
				}
				owner[a.O] = id
			}
		}
	}
	if len(owner) == 0 {
		return
	}
	seen := map[interface{}]bool{}
	var walk func(v interface{}, self string)
	walk = func(v interface{}, self string) {
		switch x := v.(type) {
		case nil, *T, *Str, *Unk:
			return
		case *Ptr:
			for _, a := range x.A {
				if a.O != nil {
					if w, ok := owner[a.O]; ok && w != self {
						unsup("%s is referred to twice", a.O)
					}
				}
			}
		case *Struct:
			for _, f := range x.F {
				walk(f, "")
			}
		case Tuple:
			for _, f := range x {
				walk(f, "")
			}
		case *Iface:
			for _, a := range x.A {
				walk(a.V, "")
			}
		case *lazyIte:
			walk(x.a, "")
			walk(x.b, "")
		case *Msg:
			if seen[x] {
				return
			}
			seen[x] = true
			for _, f := range x.F {
				walk(f, "")
			}
		case *Seq:
			if seen[x] {
				return
			}
			seen[x] = true
			walk(x.V, "")
			if x.A != nil {
				walk(x.A, "")
			}
			if x.B != nil {
				walk(x.B, "")
			}
			for _, v := range x.Vals {
				walk(v, "")
			}
		}
	}
	var objs []*Obj
	for o := range back.H {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].ID < objs[j].ID })
	for _, o := range objs {
		walk(back.H[o], "")
	}
	for id, v := range bp {
		walk(v, id)
	}
}

// opaqueContent reports whether the content of a message derives from one that is known only as a whole.
func opaqueContent(c *T) bool {
	switch {
	case c.Op == smt.OIte:
		return opaqueContent(c.Args[1]) || opaqueContent(c.Args[2])
	case c.Op != smt.OApp || strings.HasPrefix(c.Name, "new!") || strings.HasPrefix(c.Name, "none!"):
		return false
	case strings.HasPrefix(c.Name, "set!"):
		return opaqueContent(c.Args[0])
	}
	return true
}
