package smt

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// IntScript renders the conjunction over the integers: a term of width 64 stands for its signed value, a narrower one
// for its unsigned value. Where the bounds of a term show that its computation cannot overflow, the translation is
// exact; elsewhere the term is an integer within its bounds, of which only equality of equal terms is known. Every
// bit-vector model is thus an integer model, and an unsatisfiable script refutes the conjunction. When no term had to
// be given up (exact), an integer model is a bit-vector model too.
func IntScript(asserts, want []*T) (script string, refs []string, exact bool) {
	return intScript(asserts, want, false)
}

// IntScriptNL is IntScript with the products of variables kept.
func IntScriptNL(asserts, want []*T) (script string, refs []string, exact bool) {
	return intScript(asserts, want, true)
}

func intScript(asserts, want []*T, nl bool) (script string, refs []string, exact bool) {
	p := &intPrinter{nl: nl, sb: &strings.Builder{}, done: map[*T]string{}, decl: map[string]bool{}}
	p.sb.WriteString("(declare-sort S 0)\n")
	for _, a := range asserts {
		r := p.ref(a)
		fmt.Fprintf(p.sb, "(assert %s)\n", r)
	}
	for _, w := range want {
		refs = append(refs, p.ref(w))
	}
	return p.sb.String(), refs, !p.inexact
}

type intPrinter struct {
	inexact, nl bool
	ndef        int
	sb          *strings.Builder
	done        map[*T]string
	decl        map[string]bool
}

func productRange(a, b *T) (lo, hi *big.Int) {
	for _, x := range []int64{a.Lo, a.Hi} {
		for _, y := range []int64{b.Lo, b.Hi} {
			v := new(big.Int).Mul(big.NewInt(x), big.NewInt(y))
			if lo == nil || v.Cmp(lo) < 0 {
				lo = v
			}
			if hi == nil || v.Cmp(hi) > 0 {
				hi = v
			}
		}
	}
	return
}

func num(v int64) string {
	if v < 0 {
		if v == -1<<63 {
			return "(- 9223372036854775808)"
		}
		return "(- " + strconv.FormatInt(-v, 10) + ")"
	}
	return strconv.FormatInt(v, 10)
}

func isort(w int) string {
	switch {
	case w == 0:
		return "Bool"
	case w < 0:
		return "S"
	}
	return "Int"
}

func (p *intPrinter) bound(t *T, s string) {
	lo, hi := t.Lo, t.Hi
	if t.W > 0 {
		fmt.Fprintf(p.sb, "(assert (and (<= %s %s) (<= %s %s)))\n", num(lo), s, s, num(hi))
	}
}

// abstract gives the term as a function of its arguments of which nothing but its bounds is known.
func (p *intPrinter) abstract(t *T, as []string) string {
	nm := fmt.Sprintf("abs!%d!%d!%d!%d", t.Op, t.W, t.Val, len(as))
	if t.Op == OApp {
		nm = t.Name
	} else {
		p.inexact = true
		for _, a := range t.Args {
			nm += fmt.Sprintf("!%d", a.W)
		}
		for _, k := range t.Coefs {
			nm += fmt.Sprintf("!%d", k)
		}
	}
	if !p.decl[nm] {
		p.decl[nm] = true
		var ss []string
		for _, a := range t.Args {
			ss = append(ss, isort(a.W))
		}
		fmt.Fprintf(p.sb, "(declare-fun |%s| (%s) %s)\n", nm, strings.Join(ss, " "), isort(t.W))
	}
	e := "|" + nm + "|"
	if len(as) > 0 {
		e = "(" + e + " " + strings.Join(as, " ") + ")"
	}
	s := p.def(t, e)
	p.bound(t, s)
	return s
}

func (p *intPrinter) def(t *T, e string) string {
	if len(e) < 24 {
		return e
	}
	p.ndef++
	s := fmt.Sprintf("t%d", p.ndef)
	fmt.Fprintf(p.sb, "(define-fun %s () %s %s)\n", s, isort(t.W), e)
	return s
}

func pow2(n int) int64 { return int64(1) << uint(n) }

// signedOf gives the signed value of a term of width w whose unsigned value is s.
func signedOf(a *T, s string) string {
	if a.W == 64 || a.Hi < pow2(a.W-1) {
		return s
	}
	return fmt.Sprintf("(ite (>= %s %s) (- %s %s) %s)", s, num(pow2(a.W-1)), s, num(pow2(a.W)), s)
}

func (p *intPrinter) ref(t *T) string {
	if s, ok := p.done[t]; ok {
		return s
	}
	as := make([]string, len(t.Args))
	for i, a := range t.Args {
		as[i] = p.ref(a)
	}
	s := p.term(t, as)
	p.done[t] = s
	return s
}

func (p *intPrinter) term(t *T, as []string) string {
	bin := func(op string) string { return p.def(t, "("+op+" "+strings.Join(as, " ")+")") }
	arg := func(i int) *T { return t.Args[i] }
	nonneg := func(i int) bool { return arg(i).W < 64 || arg(i).Lo >= 0 }
	switch t.Op {
	case OConst:
		if t.W == 0 {
			if t.Val == 1 {
				return "true"
			}
			return "false"
		}
		if t.W == 64 {
			return num(int64(t.Val))
		}
		return num(int64(t.Val))
	case OApp:
		return p.abstract(t, as)
	case ONot:
		return bin("not")
	case OAnd:
		return bin("and")
	case OOr:
		return bin("or")
	case OEq:
		return bin("=")
	case OIte:
		return bin("ite")
	case OSlt:
		return p.def(t, "(< "+signedOf(arg(0), as[0])+" "+signedOf(arg(1), as[1])+")")
	case OLin:
		lo, hi := linRange(t.W, t.Val, t.Args, t.Coefs)
		fits := lo.IsInt64() && hi.IsInt64()
		parts := []string{}
		if c := sgn(t.W, t.Val); c != 0 {
			parts = append(parts, num(c))
		}
		for i := range t.Args {
			k := sgn(t.W, t.Coefs[i])
			if k == 1 {
				parts = append(parts, as[i])
			} else {
				parts = append(parts, "(* "+num(k)+" "+as[i]+")")
			}
		}
		e := parts[0]
		if len(parts) > 1 {
			e = "(+ " + strings.Join(parts, " ") + ")"
		}
		if t.W == 64 && !fits {
			// wraps around
			p.ndef++
			v := fmt.Sprintf("t%d", p.ndef)
			fmt.Fprintf(p.sb, "(declare-const %s Int)\n(declare-const q%d Int)\n(assert (= %s (+ %s (* 18446744073709551616 q%d))))\n", v, p.ndef, e, v, p.ndef)
			p.bound(t, v)
			return v
		}
		if t.W < 64 && !(fits && lo.Int64() >= 0 && hi.Int64() <= int64(mask(t.W))) {
			e = fmt.Sprintf("(mod %s %s)", e, num(pow2(t.W)))
		}
		return p.def(t, e)
	case OUDiv, OURem:
		if nonneg(0) && arg(1).Op == OConst && arg(1).Val != 0 && (arg(1).W < 64 || int64(arg(1).Val) > 0) {
			if t.Op == OUDiv {
				return bin("div")
			}
			return bin("mod")
		}
	case OSDiv, OSRem:
		if arg(0).Lo >= 0 && (arg(0).W == 64 || arg(0).Hi < pow2(arg(0).W-1)) && arg(1).Op == OConst && sgn(arg(1).W, arg(1).Val) > 0 {
			if t.Op == OSDiv {
				return bin("div")
			}
			return bin("mod")
		}
		if arg(0).W == 64 && arg(1).Op == OConst && int64(arg(1).Val) > 0 {
			a, c := as[0], as[1]
			if t.Op == OSDiv {
				return p.def(t, fmt.Sprintf("(ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))", a, a, c, a, c))
			}
			return p.def(t, fmt.Sprintf("(ite (>= %s 0) (mod %s %s) (- (mod (- %s) %s)))", a, a, c, a, c))
		}
	case OLShr:
		if nonneg(0) && arg(1).Op == OConst && arg(1).Val < 62 {
			return p.def(t, fmt.Sprintf("(div %s %s)", as[0], num(pow2(int(arg(1).Val)))))
		}
	case OMul:
		if p.nl && t.W == 64 && len(as) == 2 {
			lo, hi := productRange(arg(0), arg(1))
			if lo.IsInt64() && hi.IsInt64() {
				return bin("*")
			}
		}
	case OConcat:
		if t.W <= 62 {
			var parts []string
			sh := 0
			for i := len(t.Args) - 1; i >= 0; i-- {
				if !(t.Args[i].Op == OConst && t.Args[i].Val == 0) {
					if sh == 0 {
						parts = append(parts, as[i])
					} else {
						parts = append(parts, "(* "+num(pow2(sh))+" "+as[i]+")")
					}
				}
				sh += t.Args[i].W
			}
			if len(parts) == 1 {
				return p.def(t, parts[0])
			}
			return p.def(t, "(+ "+strings.Join(parts, " ")+")")
		}
	case OExtract:
		hi, lo := int(t.Val>>8), int(t.Val&0xff)
		if hi < 62 {
			e := as[0]
			if lo > 0 {
				e = fmt.Sprintf("(div %s %s)", e, num(pow2(lo)))
			}
			if !nonneg(0) || arg(0).Hi >= pow2(hi+1) {
				e = fmt.Sprintf("(mod %s %s)", e, num(pow2(hi-lo+1)))
			}
			return p.def(t, e)
		}
	case OZExt:
		return as[0]
	case OSExt:
		a := arg(0)
		if t.W == 64 {
			return p.def(t, signedOf(a, as[0]))
		}
		if a.Hi < pow2(a.W-1) {
			return as[0]
		}
		return p.def(t, fmt.Sprintf("(ite (>= %s %s) (+ %s %s) %s)", as[0], num(pow2(a.W-1)), as[0], num(pow2(t.W)-pow2(a.W)), as[0]))
	}
	return p.abstract(t, as)
}
