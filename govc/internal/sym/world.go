package sym

import (
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"

	"govc/internal/smt"
)

const RepoPath = "github.com/way-platform/tachograph-go"

type EnumValue struct {
	Number int32
	Name   string
	Ext    map[string]int64
	Msg    map[string]interface{} // message-valued annotations
}
type EnumTable struct {
	Type   string
	Values []EnumValue
}

// World is what all lemmas share: the program, its enumeration tables and the contracts.
type World struct {
	Prog      *ssa.Program
	Contracts map[*ssa.Function]*Contract
	ExtKinds  map[string]string
	Enums     map[string]*EnumTable
	Dir       string
	stored    map[*ssa.Global]int
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := w.Prog.Fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(w.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return f + ":" + itoaN(q.Line)
}

func itoaN(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	return s
}

func (w *World) inRepo(pkg string) bool {
	return pkg == RepoPath || strings.HasPrefix(pkg, RepoPath+"/")
}

// constInit gives the value of a package variable assigned once, in init, from a constant.
func (w *World) constInit(e *Exec, g *ssa.Global) (interface{}, bool) {
	if g.Pkg == nil || !w.inRepo(g.Pkg.Pkg.Path()) {
		return nil, false
	}
	if w.stored == nil {
		w.stored = map[*ssa.Global]int{}
	}
	n := 0
	var val ssa.Value
	for _, m := range g.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					n++
					val = s.Val
				}
			}
		}
	}
	if n == 0 {
		return e.zero(g.Type().(*types.Pointer).Elem()), true
	}
	if n != 1 {
		return nil, false
	}
	if c, ok := val.(*ssa.Const); ok {
		if c.Value == nil || c.Value.Kind() == constant.Int || c.Value.Kind() == constant.String || c.Value.Kind() == constant.Bool {
			return e.constVal(c), true
		}
	}
	return nil, false
}

func typeName(t *types.Named) string { return t.Obj().Pkg().Path() + "." + t.Obj().Name() }

func (w *World) enumTable(t *types.Named) *EnumTable {
	tab, ok := w.Enums[typeName(t)]
	if !ok {
		unsup("no enumeration table for %s", t)
	}
	return tab
}

func (w *World) namedByProto(kind string) types.Type {
	i := strings.LastIndex(kind, ".")
	if i < 0 {
		return nil
	}
	for _, p := range w.Prog.AllPackages() {
		if p.Pkg.Path() == kind[:i] {
			if o := p.Pkg.Scope().Lookup(kind[i+1:]); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

var _ = smt.True

// treeVal builds the value of a message-valued annotation.
func (e *Exec) treeVal(t types.Type, v interface{}) Val {
	switch x := v.(type) {
	case float64:
		return smt.BV(uint64(int64(x)), e.width(t))
	case bool:
		return smt.Bool(x)
	case []interface{}:
		el := t.Underlying().(*types.Slice).Elem()
		s := &Seq{Kind: SList, Elem: el}
		for _, y := range x {
			s.Vals = append(s.Vals, e.treeVal(el, y))
		}
		o := e.newObj(OList, el, "annotation")
		o.Loops, o.Protected = nil, true
		o.Frozen = e.newSeq(s)
		n := smt.Int(int64(len(x)))
		return &Slice{Elem: el, A: []SAlt{{G: smt.True, O: o, Off: smt.Int(0), Len: n, Cap: n}}}
	case map[string]interface{}:
		el := t.Underlying().(*types.Pointer).Elem()
		m := &Msg{F: map[string]Val{}, Has: map[string]*T{}}
		for k, y := range x {
			ft := fieldType(el, k)
			m.F[k] = e.treeVal(ft, y)
			if _, ok := ft.Underlying().(*types.Basic); ok {
				m.Has[k] = smt.True
			}
		}
		o := e.newObj(OMsg, el, "annotation")
		o.Loops, o.Protected = nil, true
		o.Frozen = m
		return &Ptr{A: []PAlt{{G: smt.True, O: o}}}
	}
	unsup("annotation %T", v)
	return nil
}
