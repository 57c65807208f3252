// Package smt implements hash-consed terms over booleans, bit-vectors and one
// uninterpreted sort, with exact machine-integer semantics and normalising constructors.
package smt

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OApp      // uninterpreted function / variable (no args)
	ONot
	OAnd
	OOr
	OEq
	OSlt
	OIte
	OLin // linear combination modulo 2^w: val + sum coefs[i]*args[i]
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OConcat
	OExtract // hi=val>>8, lo=val&0xff
	OZExt
	OSExt
)

// T is a hash-consed term. W is the width: 0 Bool, 1..64 bit-vector, -1 uninterpreted sort.
type T struct {
	ID    int
	Op    Op
	W     int
	Val   uint64
	Name  string
	Args  []*T
	Coefs []uint64
	// math range: value interpreted as unsigned for W<64, signed for W==64.
	Lo, Hi int64
	// for applications with a declared range
	declRange bool
	size      int
	neg       *T     // cached negation
	epoch     uint64 // mark used while simplifying a disjunction
}

var epoch uint64

type appInfo struct {
	w      int
	argw   []int
	hasR   bool
	lo, hi int64
}

var (
	tab   = map[string]*T{}
	nall  int
	apps  = map[string]*appInfo{}
	True  *T
	False *T
)

func init() {
	True = mk(&T{Op: OConst, W: 0, Val: 1})
	False = mk(&T{Op: OConst, W: 0, Val: 0})
}

// Session is a term table of its own: what one lemma's verification conditions look like does not depend
// on the lemmas before it. Identifiers stay unique across sessions, so terms of two sessions never meet
// under one key.
type Session struct {
	tab  map[string]*T
	apps map[string]*appInfo
	ctx  map[*T]*SimpCtx
}

func NewSession() *Session {
	s := &Session{tab: map[string]*T{}, apps: map[string]*appInfo{}, ctx: map[*T]*SimpCtx{}}
	for _, t := range []*T{True, False} {
		s.tab[key(t)] = t
	}
	return s
}

// Use makes the session current.
func (s *Session) Use() {
	tab, apps, ctxMemo = s.tab, s.apps, s.ctx
	atomMu.Lock()
	atomMemo = map[*T][]*T{}
	atomMu.Unlock()
}

func NumTerms() int { return nall }

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func fullRange(w int) (int64, int64) {
	if w >= 64 {
		return -1 << 63, 1<<63 - 1
	}
	if w <= 0 {
		return 0, 1
	}
	return 0, int64(mask(w))
}

func key(t *T) string {
	var b []byte
	b = append(b, byte(t.Op), byte(t.W+2))
	b = strconv.AppendUint(b, t.Val, 36)
	b = append(b, '|')
	b = append(b, t.Name...)
	for i, a := range t.Args {
		b = append(b, ',')
		b = strconv.AppendInt(b, int64(a.ID), 36)
		if t.Coefs != nil {
			b = append(b, '*')
			b = strconv.AppendUint(b, t.Coefs[i], 36)
		}
	}
	return string(b)
}

func mk(t *T) *T {
	k := key(t)
	if x, ok := tab[k]; ok {
		return x
	}
	t.ID = nall
	t.computeRange()
	t.size = 1
	for _, a := range t.Args {
		t.size += a.size
		if t.size > 1<<40 {
			t.size = 1 << 40
		}
	}
	nall++
	tab[k] = t
	return t
}

func clampI(b *big.Int) (int64, bool) {
	if b.IsInt64() {
		return b.Int64(), true
	}
	return 0, false
}

// linRange computes the mathematical interval of a linear combination, as big ints.
func linRange(w int, c uint64, args []*T, coefs []uint64) (lo, hi *big.Int) {
	lo = sgnBig(w, c)
	hi = new(big.Int).Set(lo)
	for i, a := range args {
		k := sgnBig(w, coefs[i])
		x := new(big.Int).Mul(k, big.NewInt(a.Lo))
		y := new(big.Int).Mul(k, big.NewInt(a.Hi))
		if k.Sign() < 0 {
			x, y = y, x
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
	}
	return
}

// sgnBig interprets coefficient c of width w as a signed number.
func sgnBig(w int, c uint64) *big.Int {
	return big.NewInt(sgn(w, c))
}
func sgn(w int, c uint64) int64 {
	if w >= 64 {
		return int64(c)
	}
	if c>>(uint(w)-1)&1 == 1 {
		return int64(c) - int64(1)<<uint(w)
	}
	return int64(c)
}

func (t *T) computeRange() {
	lo, hi := fullRange(t.W)
	switch t.Op {
	case OConst:
		if t.W == 64 {
			lo, hi = int64(t.Val), int64(t.Val)
		} else {
			lo, hi = int64(t.Val), int64(t.Val)
		}
	case OApp:
		if ai := apps[t.Name]; ai != nil && ai.hasR {
			lo, hi = ai.lo, ai.hi
			t.declRange = true
		}
	case OIte:
		a, b := t.Args[1], t.Args[2]
		lo, hi = a.Lo, a.Hi
		if b.Lo < lo {
			lo = b.Lo
		}
		if b.Hi > hi {
			hi = b.Hi
		}
	case OLin:
		l, h := linRange(t.W, t.Val, t.Args, t.Coefs)
		if l.IsInt64() && h.IsInt64() {
			a, b := l.Int64(), h.Int64()
			if t.W >= 64 || (a >= 0 && b <= int64(mask(t.W))) {
				lo, hi = a, b
			}
		}
	case OMul:
		a, b := t.Args[0], t.Args[1]
		if a.Lo >= 0 && b.Lo >= 0 {
			h := new(big.Int).Mul(big.NewInt(a.Hi), big.NewInt(b.Hi))
			if h.IsInt64() && (t.W >= 64 || h.Int64() <= int64(mask(t.W))) {
				lo, hi = a.Lo*b.Lo, h.Int64()
			}
		}
	case OUDiv:
		a, b := t.Args[0], t.Args[1]
		if a.Lo >= 0 && b.Op == OConst && b.Val != 0 && b.Lo > 0 {
			lo, hi = a.Lo/b.Lo, a.Hi/b.Lo
		} else if a.Lo >= 0 && b.Lo > 0 {
			lo, hi = 0, a.Hi
		}
	case OURem:
		a, b := t.Args[0], t.Args[1]
		if a.Lo >= 0 && b.Lo > 0 {
			lo, hi = 0, b.Hi-1
			if a.Hi < hi {
				hi = a.Hi
			}
		}
	case OSDiv, OSRem:
		if a, b := t.Args[0], t.Args[1]; t.W == 64 && b.Op == OConst && b.Lo > 0 {
			if t.Op == OSDiv {
				lo, hi = a.Lo/b.Lo, a.Hi/b.Lo
			} else {
				lo, hi = 1-b.Lo, b.Lo-1
				if a.Lo >= 0 {
					lo = 0
				}
			}
		}
	case OBAnd:
		a, b := t.Args[0], t.Args[1]
		if t.W < 64 || (a.Lo >= 0 && b.Lo >= 0) {
			lo = 0
			hi = a.Hi
			if b.Hi < hi {
				hi = b.Hi
			}
		} else if a.Lo >= 0 {
			lo, hi = 0, a.Hi
		} else if b.Lo >= 0 {
			lo, hi = 0, b.Hi
		}
	case OBOr, OBXor:
		a, b := t.Args[0], t.Args[1]
		if a.Lo >= 0 && b.Lo >= 0 {
			lo = 0
			m := a.Hi
			if b.Hi > m {
				m = b.Hi
			}
			n := 0
			for m>>uint(n) != 0 {
				n++
			}
			if n < 63 {
				h := int64(1)<<uint(n) - 1
				if h < hi || t.W >= 64 {
					hi = h
				}
			}
		}
	case OLShr:
		a, b := t.Args[0], t.Args[1]
		if a.Lo >= 0 && b.Op == OConst {
			if b.Val >= 64 {
				lo, hi = 0, 0
			} else {
				lo, hi = a.Lo>>b.Val, a.Hi>>b.Val
			}
		}
	case OZExt:
		lo, hi = t.Args[0].Lo, t.Args[0].Hi
	case OSExt:
		a := t.Args[0]
		half := int64(1) << uint(a.W-1)
		if a.Hi < half {
			lo, hi = a.Lo, a.Hi
		} else if t.W == 64 {
			lo, hi = -half, half-1
		}
	}
	t.Lo, t.Hi = lo, hi
}

// Constructors ------------------------------------------------------------

func Bool(b bool) *T {
	if b {
		return True
	}
	return False
}

func BV(v uint64, w int) *T { return mk(&T{Op: OConst, W: w, Val: v & mask(w)}) }
func Int(v int64) *T        { return BV(uint64(v), 64) }

func (t *T) IsConst() bool { return t.Op == OConst }
func (t *T) IsTrue() bool  { return t == True }
func (t *T) IsFalse() bool { return t == False }
func (t *T) Size() int     { return t.size }

// Signed returns the constant's value as a signed number.
func (t *T) Signed() int64 { return sgn(t.W, t.Val) }

// DeclareRange must be called before the first use of name.
func DeclareRange(name string, lo, hi int64) {
	ai := apps[name]
	if ai == nil {
		ai = &appInfo{w: -2}
		apps[name] = ai
	}
	ai.hasR, ai.lo, ai.hi = true, lo, hi
}

func App(name string, w int, args ...*T) *T {
	ai := apps[name]
	if ai == nil || ai.w == -2 {
		if ai == nil {
			ai = &appInfo{}
			apps[name] = ai
		}
		ai.w = w
		for _, a := range args {
			ai.argw = append(ai.argw, a.W)
		}
	} else {
		if ai.w != w || len(ai.argw) != len(args) {
			panic(fmt.Sprintf("App %s redeclared with different signature", name))
		}
		for i, a := range args {
			if ai.argw[i] != a.W {
				panic(fmt.Sprintf("App %s arg %d width %d, want %d", name, i, a.W, ai.argw[i]))
			}
		}
	}
	return mk(&T{Op: OApp, W: w, Name: name, Args: args})
}

func Not(a *T) *T {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.Op == ONot:
		return a.Args[0]
	}
	if a.neg == nil {
		a.neg = mk(&T{Op: ONot, Args: []*T{a}})
	}
	return a.neg
}

func collect(op Op, in []*T, out map[*T]bool) {
	for _, a := range in {
		if a.Op == op {
			collect(op, a.Args, out)
		} else {
			out[a] = true
		}
	}
}

func sorted(m map[*T]bool) []*T {
	r := make([]*T, 0, len(m))
	for t := range m {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

// bound literals: returns (term, isUpper, const) for Slt(x, c) / Not(Slt(x,c)) shapes
func And(in ...*T) *T {
	m := map[*T]bool{}
	collect(OAnd, in, m)
	delete(m, True)
	if m[False] {
		return False
	}
	for a := range m {
		if a.Op == ONot && m[a.Args[0]] {
			return False
		}
	}
	// unit propagation into Or members
	changed := true
	for changed {
		changed = false
		var ors []*T
		for a := range m {
			if a.Op == OOr {
				ors = append(ors, a)
			}
		}
		sort.Slice(ors, func(i, j int) bool { return ors[i].ID < ors[j].ID })
		for _, a := range ors {
			if a.Op == OOr {
				var rest []*T
				hit, drop := false, false
				for _, d := range a.Args {
					if m[d] {
						hit = true
						break
					}
					nd := Not(d)
					if m[nd] || (nd.Op == OAnd && allIn(nd.Args, m)) {
						drop = true
						continue
					}
					if d.Op == OAnd {
						// contains a negated literal?
						bad := false
						for _, e := range d.Args {
							if m[Not(e)] {
								bad = true
							}
						}
						if bad {
							drop = true
							continue
						}
						var keep []*T
						for _, e := range d.Args {
							if !m[e] {
								keep = append(keep, e)
							}
						}
						if len(keep) == 0 {
							hit = true
							break
						}
						if len(keep) < len(d.Args) {
							drop = true
							rest = append(rest, And(keep...))
							continue
						}
					}
					rest = append(rest, d)
				}
				if hit {
					delete(m, a)
					changed = true
					break
				}
				if drop {
					delete(m, a)
					x := Or(rest...)
					if x == False {
						return False
					}
					if x != True {
						t := map[*T]bool{}
						collect(OAnd, []*T{x}, t)
						for y := range t {
							m[y] = true
						}
					}
					changed = true
					break
				}
			}
		}
		if changed {
			for a := range m {
				if a.Op == ONot && m[a.Args[0]] {
					return False
				}
			}
		}
	}
	if conflictBounds(m) {
		return False
	}
	l := sorted(m)
	switch len(l) {
	case 0:
		return True
	case 1:
		return l[0]
	}
	return mk(&T{Op: OAnd, Args: l})
}

// conflictBounds detects x==c1 & x==c2 and simple contradictions.
func conflictBounds(m map[*T]bool) bool {
	var eq map[*T]*T
	for a := range m {
		if a.Op == OEq {
			x, c := a.Args[0], a.Args[1]
			if x.Op == OConst {
				x, c = c, x
			}
			if c.Op == OConst {
				if eq == nil {
					eq = map[*T]*T{}
				}
				if o, ok := eq[x]; ok && o != c {
					return true
				}
				eq[x] = c
			}
		}
	}
	return false
}

func allIn(l []*T, m map[*T]bool) bool {
	for _, a := range l {
		if !m[a] {
			return false
		}
	}
	return true
}

func conjuncts(a *T) []*T {
	if a.Op == OAnd {
		return a.Args
	}
	return []*T{a}
}

// Conjuncts returns the top-level conjuncts of a.
func Conjuncts(a *T) []*T {
	if a == True {
		return nil
	}
	return conjuncts(a)
}

func Or(in ...*T) *T {
	m := map[*T]bool{}
	collect(OOr, in, m)
	delete(m, False)
	if m[True] {
		return True
	}
	for {
		for a := range m {
			if m[Not(a)] {
				return True
			}
		}
		l := sorted(m)
		switch len(l) {
		case 0:
			return False
		case 1:
			return l[0]
		}
		// factor common conjuncts
		common := map[*T]bool{}
		for _, c := range conjuncts(l[0]) {
			common[c] = true
		}
		for _, a := range l[1:] {
			cur := map[*T]bool{}
			for _, c := range conjuncts(a) {
				if common[c] {
					cur[c] = true
				}
			}
			common = cur
			if len(common) == 0 {
				break
			}
		}
		if len(common) > 0 {
			var rest []*T
			for _, a := range l {
				var k []*T
				for _, c := range conjuncts(a) {
					if !common[c] {
						k = append(k, c)
					}
				}
				rest = append(rest, And(k...))
			}
			return And(append(sorted(common), Or(rest...))...)
		}
		// pairwise: X&c | X&!c => X ; absorption; c | (!c & X) => c | X
		changed := false
		for j := 0; j < len(l); j++ {
			b := conjuncts(l[j])
			epoch++
			ep := epoch
			for _, x := range b {
				x.epoch = ep
			}
			for i := 0; i < len(l); i++ {
				if i == j || l[i] == nil {
					continue
				}
				a := conjuncts(l[i])
				if len(a) > len(b) {
					continue
				}
				miss, neg := 0, (*T)(nil)
				for _, x := range a {
					if x.epoch == ep {
						continue
					}
					miss++
					if miss > 1 {
						break
					}
					if n := Not(x); n.epoch == ep {
						neg = n
					}
				}
				if miss == 0 { // a subset of b: b absorbed
					delete(m, l[j])
					l[j] = nil
					changed = true
					break
				} else if miss == 1 && neg != nil {
					// a = S&x, b = S&R&!x  =>  b simplifies to S&R
					var k []*T
					for _, x := range b {
						if x != neg {
							k = append(k, x)
						}
					}
					delete(m, l[j])
					n := And(k...)
					l[j] = nil
					if n.Op == OOr {
						for _, y := range n.Args {
							m[y] = true
						}
					} else {
						m[n] = true
					}
					changed = true
					break
				}
			}
		}
		if m[True] {
			return True
		}
		if !changed {
			return mk(&T{Op: OOr, Args: l})
		}
	}
}

func Implies(a, b *T) *T { return Or(Not(a), b) }

func Ite(c, a, b *T) *T {
	if a == b || c == True {
		return a
	}
	if c == False {
		return b
	}
	if a.W != b.W {
		panic(fmt.Sprintf("ite width mismatch %d %d", a.W, b.W))
	}
	if a.W == 0 {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
		return Or(And(c, a), And(Not(c), b))
	}
	if c.Op == ONot {
		return Ite(c.Args[0], b, a)
	}
	if c.Op == OEq && c.Args[0].W == a.W && a.W > 8 {
		if (c.Args[0] == a && c.Args[1] == b) || (c.Args[0] == b && c.Args[1] == a) {
			return b
		}
		if b.Op == OLin || a.Op == OLin {
			d := Sub(a, b)
			if d == Sub(c.Args[0], c.Args[1]) || d == Sub(c.Args[1], c.Args[0]) {
				return b
			}
		}
	}
	if c.Op == OEq && a.Op == OConst && a.W > 8 && c.Args[0].W != a.W {
		// if x == v then f(v) else f(x), for f linear over a wider x
		x, v := c.Args[0], c.Args[1]
		if x.Op == OConst {
			x, v = v, x
		}
		z, k, add := b, uint64(1), uint64(0)
		if b.Op == OLin && len(b.Args) == 1 {
			z, k, add = b.Args[0], b.Coefs[0], b.Val
		}
		if v.Op == OConst && z.Op == OZExt && z.Args[0] == x && BV(k*v.Val+add, a.W) == a {
			return b
		}
	}
	if b.Op == OIte && b.Args[0] == c {
		return Ite(c, a, b.Args[2])
	}
	if a.Op == OIte && a.Args[0] == c {
		return Ite(c, a.Args[1], b)
	}
	if b.Op == OIte && b.Args[1] == a {
		return Ite(Or(c, b.Args[0]), a, b.Args[2])
	}
	return mk(&T{Op: OIte, W: a.W, Args: []*T{c, a, b}})
}

// Linear arithmetic ------------------------------------------------------

type linear struct {
	w int
	c uint64
	m map[*T]uint64
}

func newLin(w int) *linear { return &linear{w: w, m: map[*T]uint64{}} }

func (l *linear) add(t *T, k uint64) {
	mk := mask(l.w)
	k &= mk
	if k == 0 {
		return
	}
	switch t.Op {
	case OConst:
		l.c = (l.c + k*t.Val) & mk
	case OLin:
		l.c = (l.c + k*t.Val) & mk
		for i, a := range t.Args {
			l.addAtom(a, k*t.Coefs[i])
		}
	default:
		l.addAtom(t, k)
	}
}
func (l *linear) addAtom(t *T, k uint64) {
	v := (l.m[t] + k) & mask(l.w)
	if v == 0 {
		delete(l.m, t)
	} else {
		l.m[t] = v
	}
}
func (l *linear) term() *T {
	if len(l.m) == 0 {
		return BV(l.c, l.w)
	}
	ts := make([]*T, 0, len(l.m))
	for t := range l.m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	if len(ts) == 1 && l.c == 0 && l.m[ts[0]] == 1 {
		return ts[0]
	}
	cs := make([]uint64, len(ts))
	for i, t := range ts {
		cs[i] = l.m[t]
	}
	return mk(&T{Op: OLin, W: l.w, Val: l.c, Args: ts, Coefs: cs})
}

func Add(a, b *T) *T { return lin2(a, 1, b, 1) }
func Sub(a, b *T) *T { return lin2(a, 1, b, ^uint64(0)) }
func Neg(a *T) *T    { l := newLin(a.W); l.add(a, ^uint64(0)); return l.term() }
func lin2(a *T, x uint64, b *T, y uint64) *T {
	if a.W != b.W {
		panic(fmt.Sprintf("add width mismatch %d %d", a.W, b.W))
	}
	// distribute over ite with constant differing branches is left to the solver
	l := newLin(a.W)
	l.add(a, x)
	l.add(b, y)
	return l.term()
}
func AddC(a *T, c int64) *T { return Add(a, BV(uint64(c), a.W)) }

func Mul(a, b *T) *T {
	if a.Op == OConst {
		a, b = b, a
	}
	if b.Op == OConst {
		l := newLin(a.W)
		l.add(a, b.Val)
		return l.term()
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(&T{Op: OMul, W: a.W, Args: []*T{a, b}})
}

// nowrapLin returns the mathematical linear view of t (as 64-bit signed math) if it does not wrap.
func (t *T) mathOK() bool { return true }

// Slt: signed less-than on 64-bit terms.
func Slt(a, b *T) *T {
	if a.W != b.W {
		panic(fmt.Sprintf("slt width mismatch %d %d", a.W, b.W))
	}
	if a.W < 64 {
		// compare via sign extension
		return Slt(SExt(a, 64), SExt(b, 64))
	}
	if a == b {
		return False
	}
	if a.Hi < b.Lo {
		return True
	}
	if a.Lo >= b.Hi {
		return False
	}
	// both sides are exact mathematically if their linear forms do not wrap (ranges computed)
	if exactLin(a) && exactLin(b) {
		l := newLin(64)
		l.add(a, 1)
		l.add(b, ^uint64(0))
		lo, hi := big.NewInt(int64(l.c)), big.NewInt(int64(l.c))
		g := uint64(0)
		for t, k := range l.m {
			x := new(big.Int).Mul(big.NewInt(int64(k)), big.NewInt(t.Lo))
			y := new(big.Int).Mul(big.NewInt(int64(k)), big.NewInt(t.Hi))
			if int64(k) < 0 {
				x, y = y, x
			}
			lo.Add(lo, x)
			hi.Add(hi, y)
			ak := k
			if int64(k) < 0 {
				ak = -k
			}
			g = gcd(g, ak)
		}
		if hi.Sign() < 0 {
			return True
		}
		if lo.Sign() >= 0 {
			return False
		}
		if lo.IsInt64() && hi.IsInt64() {
			// canonical: pos < neg + c, constants right
			c := -int64(l.c) // sum(k*t) < c
			if g > 1 {
				// sum(k/g*t) < ceil(c/g)
				q := floorDiv(c, int64(g))
				if q*int64(g) != c {
					q++
				}
				c = q
				for t, k := range l.m {
					l.m[t] = uint64(int64(k) / int64(g))
				}
			}
			pos, neg := newLin(64), newLin(64)
			for t, k := range l.m {
				if int64(k) > 0 {
					pos.addAtom(t, k)
				} else {
					neg.addAtom(t, -k)
				}
			}
			if len(pos.m) > 0 && len(neg.m) == 0 {
				p := pos.term()
				if exactLin(p) {
					return mk(&T{Op: OSlt, Args: []*T{p, Int(c)}})
				}
			} else if len(pos.m) == 0 {
				// -n < c  <=>  !(n < 1-c)   (n > -c  <=> !(n <= -c) <=> !(n < -c+1))
				n := neg.term()
				if exactLin(n) {
					return Not(mk(&T{Op: OSlt, Args: []*T{n, Int(1 - c)}}))
				}
			} else {
				// sum pos - sum neg < c. Make smallest-ID atom positive for canonicity.
				min := (*T)(nil)
				for t := range l.m {
					if min == nil || t.ID < min.ID {
						min = t
					}
				}
				if _, ok := pos.m[min]; ok {
					neg.c = uint64(c)
					p, n := pos.term(), neg.term()
					if exactLin(p) && exactLin(n) {
						return mk(&T{Op: OSlt, Args: []*T{p, n}})
					}
				} else {
					// pos - neg < c <=> !(pos - neg >= c) <=> !(neg - pos <= -c) <=> !(neg - pos < 1-c)
					pos.c = uint64(1 - c)
					p, n := pos.term(), neg.term()
					if exactLin(p) && exactLin(n) {
						return Not(mk(&T{Op: OSlt, Args: []*T{n, p}}))
					}
				}
			}
		}
	}
	return mk(&T{Op: OSlt, Args: []*T{a, b}})
}

func gcd(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if (a%b != 0) && ((a < 0) != (b < 0)) {
		q--
	}
	return q
}

// exactLin reports whether t's linear form evaluates without wrap-around.
func exactLin(t *T) bool {
	if t.W != 64 {
		return false
	}
	if t.Op != OLin {
		return true
	}
	l, h := linRange(64, t.Val, t.Args, t.Coefs)
	return l.IsInt64() && h.IsInt64()
}

func Sle(a, b *T) *T { return Not(Slt(b, a)) }
func Ult(a, b *T) *T {
	if a.W < 64 {
		return Slt(ZExt(a, 64), ZExt(b, 64))
	}
	if a.Lo >= 0 && b.Lo >= 0 {
		return Slt(a, b)
	}
	if b.Op == OConst && int64(b.Val) > 0 {
		// 0 <= a < b
		return And(Not(Slt(a, Int(0))), Slt(a, b))
	}
	// flip sign bit
	m := BV(1<<63, 64)
	return mk(&T{Op: OSlt, Args: []*T{BXor(a, m), BXor(b, m)}})
}
func Ule(a, b *T) *T { return Not(Ult(b, a)) }

func Eq(a, b *T) *T {
	if a == b {
		return True
	}
	if a.W != b.W {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.W, b.W))
	}
	if a.W == 0 {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
		return Or(And(a, b), And(Not(a), Not(b)))
	}
	if a.W > 0 {
		if a.Op == OConst && b.Op == OConst {
			return False
		}
		if a.Hi < b.Lo || b.Hi < a.Lo {
			return False
		}
		if a.Op == OConst {
			a, b = b, a
		}
		if b.Op == OConst {
			switch a.Op {
			case OZExt:
				if b.Val > mask(a.Args[0].W) {
					return False
				}
				return Eq(a.Args[0], BV(b.Val, a.Args[0].W))
			case OConcat:
				// split when some piece is constant
				var cs []*T
				pos := a.W
				some := false
				for _, p := range a.Args {
					pos -= p.W
					c := BV(b.Val>>uint(pos), p.W)
					if p.Op == OConst {
						some = true
					}
					cs = append(cs, Eq(p, c))
				}
				_ = some
				return And(cs...)
			case OIte:
				if a.Args[1].Op == OConst || a.Args[2].Op == OConst {
					return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
				}
			case OSExt:
				x := a.Args[0]
				if SExt(BV(b.Val, x.W), a.W) != b {
					return False
				}
				return Eq(x, BV(b.Val, x.W))
			}
		}
		if a.Op == OZExt && b.Op == OZExt && a.Args[0].W == b.Args[0].W {
			return Eq(a.Args[0], b.Args[0])
		}
		if a.Op == OConcat && b.Op == OConcat && len(a.Args) == len(b.Args) {
			same := true
			for i := range a.Args {
				if a.Args[i].W != b.Args[i].W {
					same = false
				}
			}
			if same {
				var cs []*T
				for i := range a.Args {
					cs = append(cs, Eq(a.Args[i], b.Args[i]))
				}
				return And(cs...)
			}
		}
		if a.Op == OLin || b.Op == OLin {
			l := newLin(a.W)
			l.add(a, 1)
			l.add(b, ^uint64(0))
			if len(l.m) == 0 {
				return Bool(l.c == 0)
			}
			if a.W == 64 {
				lo, hi := big.NewInt(int64(l.c)), big.NewInt(int64(l.c))
				for t, k := range l.m {
					x := new(big.Int).Mul(big.NewInt(int64(k)), big.NewInt(t.Lo))
					y := new(big.Int).Mul(big.NewInt(int64(k)), big.NewInt(t.Hi))
					if int64(k) < 0 {
						x, y = y, x
					}
					lo.Add(lo, x)
					hi.Add(hi, y)
				}
				// value is a true integer in [lo,hi]; modular zero iff integer zero when |.|<2^64
				if lo.IsInt64() && hi.IsInt64() && (lo.Sign() > 0 || hi.Sign() < 0) {
					return False
				}
			}
			// canonical sides: smallest ID atom positive
			min := (*T)(nil)
			for t := range l.m {
				if min == nil || t.ID < min.ID {
					min = t
				}
			}
			if sgn(a.W, l.m[min]) < 0 {
				for t, k := range l.m {
					l.m[t] = -k & mask(a.W)
				}
				l.c = -l.c & mask(a.W)
			}
			pos, neg := newLin(a.W), newLin(a.W)
			for t, k := range l.m {
				if sgn(a.W, k) > 0 {
					pos.addAtom(t, k)
				} else {
					neg.addAtom(t, -k)
				}
			}
			neg.c = -l.c & mask(a.W)
			a, b = pos.term(), neg.term()
			if a.Op != OLin && b.Op != OLin {
				return Eq(a, b)
			}
			return mk(&T{Op: OEq, Args: []*T{a, b}})
		}
	}
	if a.W == -1 && a.Op == OApp && b.Op == OApp && strings.HasPrefix(a.Name, "lit!") && strings.HasPrefix(b.Name, "lit!") {
		return False
	}
	if a.Op != OConst && b.Op != OConst && a.ID > b.ID {
		a, b = b, a
	}
	return mk(&T{Op: OEq, Args: []*T{a, b}})
}

// Division ----------------------------------------------------------------

func UDiv(a, b *T) *T {
	if a.Op == OConst && b.Op == OConst && b.Val != 0 {
		return BV(a.Val/b.Val, a.W)
	}
	if b.Op == OConst && b.Val == 1 {
		return a
	}
	if b.Op == OConst && b.Val != 0 && b.Val&(b.Val-1) == 0 {
		n := 0
		for b.Val>>uint(n) != 1 {
			n++
		}
		return LShr(a, BV(uint64(n), a.W))
	}
	if b.Op == OConst && b.Val != 0 && a.Op == OLin && a.Lo >= 0 {
		// (c*x + r)/c with exact linear form
		if q, r, ok := splitLin(a, b.Val); ok {
			if r.Hi < int64(b.Val) && r.Lo >= 0 && r.W == 64 {
				return q
			}
		}
	}
	return mk(&T{Op: OUDiv, W: a.W, Args: []*T{a, b}})
}

// splitLin writes a = c*q + r where q collects the coefficients divisible by c.
func splitLin(a *T, c uint64) (q, r *T, ok bool) {
	if a.W != 64 || !exactLin(a) || a.Op != OLin {
		return nil, nil, false
	}
	ql, rl := newLin(64), newLin(64)
	cc := int64(c)
	qc := floorDiv(int64(a.Val), cc)
	ql.c = uint64(qc)
	rl.c = uint64(int64(a.Val) - qc*cc)
	n := 0
	for i, t := range a.Args {
		k := int64(a.Coefs[i])
		if k%cc == 0 {
			ql.addAtom(t, uint64(k/cc))
			n++
		} else {
			rl.addAtom(t, uint64(k))
		}
	}
	if n == 0 && qc == 0 {
		return nil, nil, false
	}
	return ql.term(), rl.term(), true
}

func URem(a, b *T) *T {
	if a.Op == OConst && b.Op == OConst && b.Val != 0 {
		return BV(a.Val%b.Val, a.W)
	}
	if b.Op == OConst && b.Val == 1 {
		return BV(0, a.W)
	}
	if b.Op == OConst && b.Val != 0 && b.Val&(b.Val-1) == 0 {
		return BAnd(a, BV(b.Val-1, a.W))
	}
	if b.Op == OConst && b.Val != 0 && a.Lo >= 0 {
		if _, r, ok := splitLin(a, b.Val); ok {
			if r.Hi < int64(b.Val) && r.Lo >= 0 {
				return r
			}
		}
	}
	return mk(&T{Op: OURem, W: a.W, Args: []*T{a, b}})
}
func nonneg(a *T) bool {
	if a.W == 64 {
		return a.Lo >= 0
	}
	return a.Hi < int64(1)<<uint(a.W-1)
}
func SDiv(a, b *T) *T {
	if nonneg(a) && nonneg(b) {
		return UDiv(a, b)
	}
	if a.Op == OConst && b.Op == OConst && b.Val != 0 {
		return BV(uint64(a.Signed()/b.Signed()), a.W)
	}
	return mk(&T{Op: OSDiv, W: a.W, Args: []*T{a, b}})
}
func SRem(a, b *T) *T {
	if nonneg(a) && nonneg(b) {
		return URem(a, b)
	}
	if a.Op == OConst && b.Op == OConst && b.Val != 0 {
		return BV(uint64(a.Signed()%b.Signed()), a.W)
	}
	return mk(&T{Op: OSRem, W: a.W, Args: []*T{a, b}})
}

// Bits ----------------------------------------------------------------------

// pieces returns a big-endian list of pieces.
func pieces(t *T) []*T {
	switch t.Op {
	case OConcat:
		return t.Args
	case OZExt:
		return append([]*T{BV(0, t.W-t.Args[0].W)}, pieces(t.Args[0])...)
	}
	return []*T{t}
}

func Concat(ps ...*T) *T {
	var out []*T
	for _, p := range ps {
		for _, q := range pieces(p) {
			if len(out) > 0 {
				l := out[len(out)-1]
				if l.Op == OConst && q.Op == OConst && l.W+q.W <= 64 {
					out[len(out)-1] = BV(l.Val<<uint(q.W)|q.Val, l.W+q.W)
					continue
				}
				// adjacent extracts
				lb, lh, ll := exparts(l)
				qb, qh, ql := exparts(q)
				if lb == qb && ll == qh+1 && lb.Op != OConst {
					out[len(out)-1] = Extract(lb, lh, ql)
					continue
				}
			}
			out = append(out, q)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, p := range out {
		w += p.W
	}
	if w > 64 {
		panic("concat too wide")
	}
	if out[0].Op == OConst && out[0].Val == 0 {
		rest := Concat(out[1:]...)
		return mkZExt(rest, w)
	}
	return mk(&T{Op: OConcat, W: w, Args: out})
}

func exparts(t *T) (b *T, hi, lo int) {
	if t.Op == OExtract {
		return t.Args[0], int(t.Val >> 8), int(t.Val & 0xff)
	}
	return t, t.W - 1, 0
}

func mkZExt(t *T, w int) *T {
	if t.W == w {
		return t
	}
	if t.Op == OZExt {
		return mkZExt(t.Args[0], w)
	}
	if t.Op == OConst {
		return BV(t.Val, w)
	}
	return mk(&T{Op: OZExt, W: w, Args: []*T{t}})
}

func ZExt(t *T, w int) *T {
	if t.W == w {
		return t
	}
	switch t.Op {
	case OLin:
		// push through if the linear form does not wrap (unsigned)
		l, h := linRange(t.W, t.Val, t.Args, t.Coefs)
		if l.Sign() >= 0 && h.IsInt64() && h.Int64() <= int64(mask(t.W)) {
			n := newLin(w)
			n.c = uint64(sgn(t.W, t.Val)) & mask(w)
			for i, a := range t.Args {
				n.add(ZExt(a, w), uint64(sgn(t.W, t.Coefs[i]))&mask(w))
			}
			return n.term()
		}
	case OIte:
		if t.Args[1].Op == OConst || t.Args[2].Op == OConst {
			return Ite(t.Args[0], ZExt(t.Args[1], w), ZExt(t.Args[2], w))
		}
	}
	return mkZExt(t, w)
}

func SExt(t *T, w int) *T {
	if t.W == w {
		return t
	}
	if t.Op == OConst {
		return BV(uint64(t.Signed()), w)
	}
	if t.Hi < int64(1)<<uint(t.W-1) {
		return ZExt(t, w)
	}
	if t.Op == OIte && (t.Args[1].Op == OConst || t.Args[2].Op == OConst) {
		return Ite(t.Args[0], SExt(t.Args[1], w), SExt(t.Args[2], w))
	}
	if t.Op == OSExt {
		return SExt(t.Args[0], w)
	}
	return mk(&T{Op: OSExt, W: w, Args: []*T{t}})
}

func Extract(t *T, hi, lo int) *T {
	if lo == 0 && hi == t.W-1 {
		return t
	}
	w := hi - lo + 1
	switch t.Op {
	case OConst:
		return BV(t.Val>>uint(lo), w)
	case OExtract:
		b, _, l := exparts(t)
		return Extract(b, l+hi, l+lo)
	case OZExt:
		a := t.Args[0]
		if lo >= a.W {
			return BV(0, w)
		}
		if hi < a.W {
			return Extract(a, hi, lo)
		}
		return mkZExt(Extract(a, a.W-1, lo), w)
	case OSExt:
		a := t.Args[0]
		if hi < a.W {
			return Extract(a, hi, lo)
		}
		if lo == 0 {
			return SExt(a, w)
		}
	case OConcat:
		var out []*T
		pos := t.W
		for _, p := range t.Args {
			ph := pos - 1
			pl := pos - p.W
			pos = pl
			if pl > hi || ph < lo {
				continue
			}
			h, l := ph, pl
			if h > hi {
				h = hi
			}
			if l < lo {
				l = lo
			}
			out = append(out, Extract(p, h-pl, l-pl))
		}
		return Concat(out...)
	case OIte:
		return Ite(t.Args[0], Extract(t.Args[1], hi, lo), Extract(t.Args[2], hi, lo))
	case OLin:
		if lo == 0 {
			n := newLin(w)
			n.c = t.Val & mask(w)
			for i, a := range t.Args {
				n.add(Extract(a, hi, 0), t.Coefs[i])
			}
			return n.term()
		}
	case OBAnd, OBOr, OBXor:
		x, y := Extract(t.Args[0], hi, lo), Extract(t.Args[1], hi, lo)
		switch t.Op {
		case OBAnd:
			return BAnd(x, y)
		case OBOr:
			return BOr(x, y)
		default:
			return BXor(x, y)
		}
	case OMul:
		if lo == 0 {
			return Mul(Extract(t.Args[0], hi, 0), Extract(t.Args[1], hi, 0))
		}
	}
	return mk(&T{Op: OExtract, W: w, Val: uint64(hi)<<8 | uint64(lo), Args: []*T{t}})
}

func Shl(a, b *T) *T {
	if b.Op == OConst {
		if b.Val >= uint64(a.W) {
			return BV(0, a.W)
		}
		n := int(b.Val)
		if n == 0 {
			return a
		}
		if a.Op == OConst {
			return BV(a.Val<<uint(n), a.W)
		}
		return Concat(Extract(a, a.W-1-n, 0), BV(0, n))
	}
	return mk(&T{Op: OShl, W: a.W, Args: []*T{a, b}})
}
func LShr(a, b *T) *T {
	if b.Op == OConst {
		if b.Val >= uint64(a.W) {
			return BV(0, a.W)
		}
		n := int(b.Val)
		if n == 0 {
			return a
		}
		return mkZExt(Extract(a, a.W-1, n), a.W)
	}
	return mk(&T{Op: OLShr, W: a.W, Args: []*T{a, b}})
}
func AShr(a, b *T) *T {
	if nonneg(a) {
		return LShr(a, b)
	}
	if b.Op == OConst {
		n := b.Val
		if n >= uint64(a.W) {
			n = uint64(a.W) - 1
		}
		if n == 0 {
			return a
		}
		if a.Op == OConst {
			return BV(uint64(a.Signed()>>n), a.W)
		}
		return SExt(Extract(a, a.W-1, int(n)), a.W)
	}
	return mk(&T{Op: OAShr, W: a.W, Args: []*T{a, b}})
}

func cutPoints(a, b *T) []int {
	m := map[int]bool{0: true}
	for _, t := range []*T{a, b} {
		pos := t.W
		for _, p := range pieces(t) {
			m[pos] = true
			if p.Op == OConst {
				// also cut constants at bit runs
				base := pos - p.W
				for i := 1; i < p.W; i++ {
					if (p.Val>>uint(i))&1 != (p.Val>>uint(i-1))&1 {
						m[base+i] = true
					}
				}
			}
			pos -= p.W
		}
	}
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(r)))
	return r
}

func bitop(op Op, a, b *T) *T {
	if a.W != b.W {
		panic("bitop width")
	}
	if a.Op == OConst && b.Op == OConst {
		switch op {
		case OBAnd:
			return BV(a.Val&b.Val, a.W)
		case OBOr:
			return BV(a.Val|b.Val, a.W)
		default:
			return BV(a.Val^b.Val, a.W)
		}
	}
	if a == b {
		if op == OBXor {
			return BV(0, a.W)
		}
		return a
	}
	if a.Op == OConst {
		a, b = b, a
	}
	// ite with constant arms against constant
	if a.Op == OIte && b.Op == OConst && a.Args[1].Op == OConst && a.Args[2].Op == OConst {
		return Ite(a.Args[0], bitop(op, a.Args[1], b), bitop(op, a.Args[2], b))
	}
	if b.Op == OConst || a.Op == OConcat || a.Op == OZExt || b.Op == OConcat || b.Op == OZExt {
		cp := cutPoints(a, b)
		if len(cp) > 2 || b.Op == OConst {
			var out []*T
			okAll := true
			for i := 0; i+1 < len(cp); i++ {
				x, y := Extract(a, cp[i]-1, cp[i+1]), Extract(b, cp[i]-1, cp[i+1])
				r := bitAtom(op, x, y)
				if r == nil {
					if len(cp) == 2 {
						okAll = false
						break
					}
					r = mkBit(op, x, y)
				}
				out = append(out, r)
			}
			if okAll {
				return Concat(out...)
			}
		}
	}
	return mkBit(op, a, b)
}
func mkBit(op Op, a, b *T) *T {
	if r := bitAtom(op, a, b); r != nil {
		return r
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(&T{Op: op, W: a.W, Args: []*T{a, b}})
}
func bitAtom(op Op, x, y *T) *T {
	if x.Op == OConst {
		x, y = y, x
	}
	if x == y {
		if op == OBXor {
			return BV(0, x.W)
		}
		return x
	}
	if y.Op != OConst {
		return nil
	}
	if x.Op == OConst {
		return bitop(op, x, y)
	}
	switch {
	case y.Val == 0:
		if op == OBAnd {
			return y
		}
		return x
	case y.Val == mask(y.W):
		if op == OBAnd {
			return x
		}
		if op == OBOr {
			return y
		}
	}
	return nil
}
func BAnd(a, b *T) *T { return bitop(OBAnd, a, b) }
func BOr(a, b *T) *T  { return bitop(OBOr, a, b) }
func BXor(a, b *T) *T { return bitop(OBXor, a, b) }
func BNot(a *T) *T    { return BXor(a, BV(mask(a.W), a.W)) }

// rebuild applies the smart constructor of t to new args.
func rebuild(t *T, args []*T) *T {
	switch t.Op {
	case OApp:
		return App(t.Name, t.W, args...)
	case ONot:
		return Not(args[0])
	case OAnd:
		return And(args...)
	case OOr:
		return Or(args...)
	case OEq:
		return Eq(args[0], args[1])
	case OSlt:
		return Slt(args[0], args[1])
	case OIte:
		return Ite(args[0], args[1], args[2])
	case OLin:
		l := newLin(t.W)
		l.c = t.Val
		for i, a := range args {
			l.add(a, t.Coefs[i])
		}
		return l.term()
	case OMul:
		return Mul(args[0], args[1])
	case OUDiv:
		return UDiv(args[0], args[1])
	case OURem:
		return URem(args[0], args[1])
	case OSDiv:
		return SDiv(args[0], args[1])
	case OSRem:
		return SRem(args[0], args[1])
	case OBAnd:
		return BAnd(args[0], args[1])
	case OBOr:
		return BOr(args[0], args[1])
	case OBXor:
		return BXor(args[0], args[1])
	case OShl:
		return Shl(args[0], args[1])
	case OLShr:
		return LShr(args[0], args[1])
	case OAShr:
		return AShr(args[0], args[1])
	case OConcat:
		return Concat(args...)
	case OExtract:
		return Extract(args[0], int(t.Val>>8), int(t.Val&0xff))
	case OZExt:
		return ZExt(args[0], t.W)
	case OSExt:
		return SExt(args[0], t.W)
	}
	return t
}

// Subst is a memoised simultaneous substitution of terms.
type Subst struct {
	M    map[*T]*T
	memo map[*T]*T
}

func NewSubst(m map[*T]*T) *Subst { return &Subst{M: m, memo: map[*T]*T{}} }

func (s *Subst) Apply(t *T) *T {
	if r, ok := s.M[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	args := make([]*T, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = s.Apply(a)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
		if r.Op != OConst && r != t {
			if q, ok := s.M[r]; ok {
				r = q
			}
		}
	}
	s.memo[t] = r
	return r
}

// Contains reports whether any term of set occurs in t.
func Contains(t *T, x *T, memo map[*T]bool) bool {
	if t == x {
		return true
	}
	if t.ID < x.ID || len(t.Args) == 0 {
		return false
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := false
	for _, a := range t.Args {
		if Contains(a, x, memo) {
			r = true
			break
		}
	}
	memo[t] = r
	return r
}

// SimpCtx is a simplification context from a conjunction of literals.
type SimpCtx struct{ s *Subst }

var ctxMemo = map[*T]*SimpCtx{}

func CtxOf(g *T) *SimpCtx {
	if c, ok := ctxMemo[g]; ok {
		return c
	}
	m := map[*T]*T{}
	var addLit func(l *T)
	addLit = func(l *T) {
		if l.Op == ONot {
			x := l.Args[0]
			m[x] = False
			return
		}
		m[l] = True
		if l.Op == OEq {
			a, b := l.Args[0], l.Args[1]
			if a.Op == OConst {
				a, b = b, a
			}
			if b.Op == OConst && a.Op != OConst {
				if a.W > 0 {
					m[a] = b
				}
				if a.Op == OLin && len(a.Args) == 1 && a.Coefs[0] == 1 {
					m[a.Args[0]] = Sub(b, BV(a.Val, a.W))
				}
			}
		}
	}
	for _, l := range Conjuncts(g) {
		addLit(l)
	}
	c := &SimpCtx{s: NewSubst(m)}
	ctxMemo[g] = c
	return c
}

func (c *SimpCtx) Simp(t *T) *T { return c.s.Apply(t) }

// SimpUnder simplifies t assuming g.
func SimpUnder(t, g *T) *T {
	if g == True || t.Op == OConst {
		return t
	}
	return CtxOf(g).Simp(t)
}

// Printing -------------------------------------------------------------------

func (t *T) String() string { return t.str(0) }

func (t *T) str(d int) string {
	if d > 12 {
		return "..."
	}
	switch t.Op {
	case OConst:
		if t.W == 0 {
			if t.Val == 1 {
				return "true"
			}
			return "false"
		}
		if t.W == 64 {
			return strconv.FormatInt(int64(t.Val), 10)
		}
		return fmt.Sprintf("%d:%d", t.Val, t.W)
	case OApp:
		if len(t.Args) == 0 {
			return t.Name
		}
		var s []string
		for _, a := range t.Args {
			s = append(s, a.str(d+1))
		}
		return t.Name + "(" + strings.Join(s, ",") + ")"
	case OLin:
		var s []string
		for i, a := range t.Args {
			k := sgn(t.W, t.Coefs[i])
			if k == 1 {
				s = append(s, a.str(d+1))
			} else {
				s = append(s, fmt.Sprintf("%d*%s", k, a.str(d+1)))
			}
		}
		if t.Val != 0 {
			s = append(s, strconv.FormatInt(sgn(t.W, t.Val), 10))
		}
		return "(" + strings.Join(s, "+") + ")"
	case OExtract:
		return fmt.Sprintf("%s[%d:%d]", t.Args[0].str(d+1), t.Val>>8, t.Val&0xff)
	}
	names := map[Op]string{ONot: "!", OAnd: "and", OOr: "or", OEq: "=", OSlt: "<", OIte: "ite", OMul: "mul", OUDiv: "udiv", OURem: "urem", OSDiv: "sdiv", OSRem: "srem", OBAnd: "&", OBOr: "|", OBXor: "^", OShl: "shl", OLShr: "lshr", OAShr: "ashr", OConcat: "cat", OZExt: "zext", OSExt: "sext"}
	var s []string
	for _, a := range t.Args {
		s = append(s, a.str(d+1))
	}
	return "(" + names[t.Op] + " " + strings.Join(s, " ") + ")"
}
