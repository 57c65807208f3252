package sym

import (
	"encoding/hex"
	"fmt"
	"go/constant"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"govc/internal/smt"
)

// Arg is a concrete lemma argument (the same JSON as vc.Arg).
type Arg struct {
	Kind  string `json:"kind"`
	Hex   string `json:"hex,omitempty"`
	Spare int    `json:"spare,omitempty"`
	Nil   bool   `json:"nil,omitempty"`
	Int   string `json:"int,omitempty"`
	Str   string `json:"str,omitempty"`
	Name  string `json:"name,omitempty"`

	Fields []Arg `json:"fields,omitempty"`
}

// Wanted lists the terms whose values determine the lemma's arguments.
func (e *Exec) Wanted(asserts []*T) []*T {
	seen := map[*T]bool{}
	var out []*T
	add := func(t *T) {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	byUf := map[string]bool{}
	for _, p := range e.params {
		if p.Len != nil {
			add(p.Len)
			add(p.Cap)
			add(smt.App(p.Uf+"?nil", 0))
			byUf[p.Uf] = true
		} else if p.T != nil {
			add(p.T)
		} else if s, ok := p.V.(*Struct); ok {
			for _, f := range s.F {
				if t, ok := f.(*T); ok {
					add(t)
				}
			}
		}
	}
	memo := map[*T]bool{}
	var walk func(t *T)
	n := 0
	walk = func(t *T) {
		if memo[t] {
			return
		}
		memo[t] = true
		for _, a := range t.Args {
			walk(a)
		}
		if t.Op == smt.OApp && byUf[t.Name] && n < 3000 {
			n++
			add(t)
			add(t.Args[0])
		}
	}
	for _, a := range asserts {
		walk(a)
	}
	return out
}

// ModelArgs turns the values of the wanted terms into arguments.
func (e *Exec) ModelArgs(want []*T, vals []uint64) []Arg {
	if len(vals) != len(want) {
		return nil
	}
	v := map[*T]uint64{}
	for i, t := range want {
		v[t] = vals[i]
	}
	var out []Arg
	for _, p := range e.params {
		switch p.Kind {
		case "bytes":
			n, c := int64(v[p.Len]), int64(v[p.Cap])
			if n < 0 || n > 1<<20 {
				return nil
			}
			b := make([]byte, n)
			for t, x := range v {
				if t.Op == smt.OApp && t.Name == p.Uf {
					var i int64
					if t.Args[0].IsConst() {
						i = t.Args[0].Signed()
					} else {
						i = int64(v[t.Args[0]])
					}
					if i >= 0 && i < n {
						b[i] = byte(x)
					}
				}
			}
			sp := c - n
			if sp < 0 || sp > 1<<16 {
				sp = 0
			}
			a := Arg{Kind: "bytes", Name: p.Name, Hex: hex.EncodeToString(b), Spare: int(sp)}
			if v[smt.App(p.Uf+"?nil", 0)] == 1 {
				a = Arg{Kind: "bytes", Name: p.Name, Nil: true}
			}
			out = append(out, a)
		case "int", "bool":
			out = append(out, intArg(p.Name, p.T, p.Typ, v))
		case "other", "string":
			a := Arg{Kind: "free", Name: p.Name}
			if s, ok := p.V.(*Struct); ok {
				a.Kind = "struct"
				st := p.Typ.Underlying().(*types.Struct)
				for i, f := range s.F {
					t, ok := f.(*T)
					if !ok {
						a = Arg{Kind: "free", Name: p.Name}
						break
					}
					a.Fields = append(a.Fields, intArg(st.Field(i).Name(), t, st.Field(i).Type(), v))
				}
			}
			out = append(out, a)
		default:
			return nil
		}
	}
	return out
}

func intArg(name string, t *T, typ types.Type, v map[*T]uint64) Arg {
	x := v[t]
	if t.W == 0 {
		return Arg{Kind: "bool", Name: name, Int: fmt.Sprint(x)}
	}
	s := fmt.Sprint(int64(x))
	if !isUnsigned(typ) && t.W < 64 {
		sh := uint(64 - t.W)
		s = fmt.Sprint(int64(x<<sh) >> sh)
	}
	if isUnsigned(typ) {
		s = fmt.Sprint(x)
	}
	return Arg{Kind: "int", Name: name, Int: s}
}

// Consts lists the integer constants in the code a lemma ran, as hints for the search.
func (e *Exec) Consts() []int64 {
	seen := map[int64]bool{}
	for fn := range e.visited {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
						if x, ok := constant.Int64Val(c.Value); ok && x > 1 && x < 200000 {
							seen[x] = true
						}
					}
				}
			}
		}
	}
	var r []int64
	for x := range seen {
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}
