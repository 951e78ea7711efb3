package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sorts and operators of the term language. Go integers are encoded as
// mathematical integers carrying a proven interval; wherever an operation's
// interval leaves the Go type's range an explicit wrap-around term is built, so
// machine-word semantics are kept exactly.
type Sort uint8

const (
	SBool Sort = iota
	SInt
	SReal
)

type Op uint8

const (
	OConst  Op = iota
	OVar       // name
	OLin       // c + sum coef*atom
	OMono      // product of atoms with exponents
	OIte       // args: cond, a, b (Int/Real/Bool)
	ONot       // bool
	OAnd       // bool n-ary
	OOr        // bool n-ary
	OLe        // lin <= 0
	OLt        // lin < 0 (Real only)
	OEq        // lin == 0
	OToReal    // int -> real
	ODiv       // floor div by positive const k
	OMod       // mod by positive const k
	ODivV      // floor-div general (SMT div semantics) args a,b
	OFloor     // Real -> Int floor
	OBitOp     // bitwise on non-negative ints, k: 0 and,1 or,2 xor, width in pos
	OHexCh     // hex char of t at pos
	OInv       // real inverse of a sum
	OUF        // uninterpreted application: name, args
)

type LT struct {
	k *big.Rat
	a *Term
}

type Term struct {
	id   int
	op   Op
	sort Sort
	args []*Term
	name string
	k    *big.Int // ODiv/OMod
	pos  int
	exps []int // OMono
	c    *big.Rat
	lin  []LT
	b    bool // bool const
	lo   *big.Rat
	hi   *big.Rat
	size int
	// evaluation memo
	evEpoch int
	evR     *big.Rat
	evB     bool
	// printing memo
	defName string
	vs      []uint64 // variables occurring in the term
	vsOK    bool
	vidx    int
}

type TermCtx struct {
	tab   map[string]*Term
	next  int
	True  *Term
	False *Term
	vars  map[string]*Term
	epoch int
	small map[int64]*Term
	nvar  int
}

// varSet is the set of variables (and uninterpreted functions) of a term.
func (c *TermCtx) varSet(t *Term) []uint64 {
	if t.vsOK {
		return t.vs
	}
	var r []uint64
	set := func(i int) {
		for len(r) <= i/64 {
			r = append(r, 0)
		}
		r[i/64] |= 1 << (i % 64)
	}
	or := func(x []uint64) {
		for len(r) < len(x) {
			r = append(r, 0)
		}
		for i, w := range x {
			r[i] |= w
		}
	}
	switch t.op {
	case OVar:
		set(t.vidx)
	case OUF:
		k, ok := c.vars["uf!"+t.name]
		if !ok {
			k = &Term{vidx: c.nvar}
			c.nvar++
			c.vars["uf!"+t.name] = k
		}
		set(k.vidx)
	}
	for _, a := range t.args {
		or(c.varSet(a))
	}
	for _, l := range t.lin {
		or(c.varSet(l.a))
	}
	t.vs = r
	t.vsOK = true
	return r
}

func meets(a, b []uint64) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[string]*Term{}, vars: map[string]*Term{}, small: map[int64]*Term{}}
	c.True = c.mk("#t", &Term{op: OConst, sort: SBool, b: true})
	c.False = c.mk("#f", &Term{op: OConst, sort: SBool, b: false})
	return c
}

func (c *TermCtx) mk(key string, t *Term) *Term {
	if o, ok := c.tab[key]; ok {
		return o
	}
	t.id = c.next
	c.next++
	sz := 1
	for _, a := range t.args {
		sz += a.size
	}
	for _, a := range t.lin {
		sz += a.a.size
	}
	t.size = sz
	c.tab[key] = t
	return t
}

var ratZero = new(big.Rat)
var ratOne = big.NewRat(1, 1)

func ratInt(i int64) *big.Rat { return new(big.Rat).SetInt64(i) }

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *TermCtx) constNum(v *big.Rat, s Sort) *Term {
	pfx := "i"
	if s == SReal {
		pfx = "r"
	}
	return c.mk(pfx+v.RatString(), &Term{op: OConst, sort: s, c: v, lo: v, hi: v})
}

func (c *TermCtx) Int(v int64) *Term {
	if t, ok := c.small[v]; ok {
		return t
	}
	t := c.constNum(ratInt(v), SInt)
	c.small[v] = t
	return t
}
func (c *TermCtx) IntBig(v *big.Int) *Term { return c.constNum(new(big.Rat).SetInt(v), SInt) }
func (c *TermCtx) Real(v *big.Rat) *Term   { return c.constNum(v, SReal) }

func (c *TermCtx) Var(name string, s Sort, lo, hi *big.Rat) *Term {
	if t, ok := c.vars[name]; ok {
		return t
	}
	t := c.mk("v:"+name, &Term{op: OVar, sort: s, name: name, lo: lo, hi: hi, vidx: c.nvar})
	c.nvar++
	c.vars[name] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

// ---- linear forms -------------------------------------------------------

// parts returns constant and linear parts of a numeric term.
func parts(t *Term) (*big.Rat, []LT) {
	switch t.op {
	case OConst:
		return t.c, nil
	case OLin:
		return t.c, t.lin
	}
	return ratZero, []LT{{ratOne, t}}
}

func intervalScale(k, lo, hi *big.Rat) (*big.Rat, *big.Rat) {
	var a, b *big.Rat
	if lo != nil {
		a = new(big.Rat).Mul(k, lo)
	}
	if hi != nil {
		b = new(big.Rat).Mul(k, hi)
	}
	if k.Sign() < 0 {
		return b, a
	}
	return a, b
}

func (c *TermCtx) mkLin(k *big.Rat, l []LT, s Sort) *Term {
	if len(l) == 0 {
		return c.constNum(k, s)
	}
	l = c.digitCollapse(k, l, s)
	if len(l) == 0 {
		return c.constNum(k, s)
	}
	if len(l) == 1 && k.Sign() == 0 && l[0].k.Cmp(ratOne) == 0 {
		return l[0].a
	}
	var sb strings.Builder
	if s == SReal {
		sb.WriteString("LR")
	} else {
		sb.WriteString("LI")
	}
	sb.WriteString(k.RatString())
	lo, hi := k, k
	for _, x := range l {
		fmt.Fprintf(&sb, "|%s*%d", x.k.RatString(), x.a.id)
		a, b := intervalScale(x.k, x.a.lo, x.a.hi)
		if lo != nil && a != nil {
			lo = new(big.Rat).Add(lo, a)
		} else {
			lo = nil
		}
		if hi != nil && b != nil {
			hi = new(big.Rat).Add(hi, b)
		} else {
			hi = nil
		}
	}
	return c.mk(sb.String(), &Term{op: OLin, sort: s, c: k, lin: l, lo: lo, hi: hi})
}

// digitCollapse rewrites sum_i base^i * ((t div base^i) mod base) over all
// digits of t into t, so that printing and re-parsing a number is the identity
// syntactically.
func (c *TermCtx) digitCollapse(k *big.Rat, l []LT, s Sort) []LT {
	if s != SInt || len(l) < 2 {
		return l
	}
	for _, x := range l {
		u, w, ok := isDigit0(x.a)
		if !ok || w < 2 {
			continue
		}
		// need digits 1..w-1 with coef x.k*10^i
		idx := []int{}
		found := true
		coef := new(big.Rat).Set(x.k)
		for p := 0; p < w && found; p++ {
			f := -1
			for j, y := range l {
				uu, pp, ok := isDigit10(y.a)
				if ok && uu == u && pp == p && y.k.Cmp(coef) == 0 {
					f = j
					break
				}
			}
			if f < 0 {
				found = false
			} else {
				idx = append(idx, f)
			}
			coef = new(big.Rat).Mul(coef, ratInt(10))
		}
		if !found {
			continue
		}
		drop := map[int]bool{}
		for _, i := range idx {
			drop[i] = true
		}
		var rest []LT
		for j, y := range l {
			if !drop[j] {
				rest = append(rest, y)
			}
		}
		// add x.k * u
		uc, ul := parts(u)
		if uc.Sign() != 0 {
			return l // keep simple
		}
		return addLists(rest, ul, x.k)
	}
	return l
}

// digit terms: OMod(ODiv(u,10^p),10) or OMod(u,10) or, for the top digit, ODiv(u,10^p) with range <10
func isDigit10(t *Term) (u *Term, p int, ok bool) {
	if t.op == OMod && t.k.IsInt64() && t.k.Int64() == 10 {
		a := t.args[0]
		if a.op == ODiv {
			if pp, ok := pow10(a.k); ok {
				return a.args[0], pp, true
			}
		}
		return a, 0, true
	}
	if t.op == ODiv {
		if pp, ok := pow10(t.k); ok && t.lo != nil && t.hi != nil && t.lo.Sign() >= 0 && t.hi.Cmp(ratInt(9)) <= 0 {
			return t.args[0], pp, true
		}
	}
	return nil, 0, false
}

// isDigit0: lowest digit; returns number of digits w of u (by interval)
func isDigit0(t *Term) (*Term, int, bool) {
	u, p, ok := isDigit10(t)
	if !ok || p != 0 || u.lo == nil || u.lo.Sign() < 0 || u.hi == nil {
		return nil, 0, false
	}
	return u, len(floorInt(u.hi).String()), true
}

func pow10(k *big.Int) (int, bool) {
	s := k.String()
	if s[0] != '1' || strings.Trim(s[1:], "0") != "" {
		return 0, false
	}
	return len(s) - 1, true
}

func addLists(a, b []LT, kb *big.Rat) []LT {
	out := make([]LT, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		if j == len(b) || (i < len(a) && a[i].a.id < b[j].a.id) {
			out = append(out, a[i])
			i++
			continue
		}
		kk := new(big.Rat).Mul(b[j].k, kb)
		if i < len(a) && a[i].a == b[j].a {
			kk.Add(kk, a[i].k)
			i++
		}
		if kk.Sign() != 0 {
			out = append(out, LT{kk, b[j].a})
		}
		j++
	}
	return out
}

// AddK returns a + k*b.
func (c *TermCtx) AddK(a, b *Term, k *big.Rat) *Term {
	if a.isConst() && b.isConst() {
		return c.constNum(new(big.Rat).Add(a.c, new(big.Rat).Mul(k, b.c)), a.sort)
	}
	ac, al := parts(a)
	bc, bl := parts(b)
	return c.mkLin(new(big.Rat).Add(ac, new(big.Rat).Mul(k, bc)), addLists(al, bl, k), a.sort)
}
func (c *TermCtx) Add(a, b *Term) *Term { return c.AddK(a, b, ratOne) }
func (c *TermCtx) Sub(a, b *Term) *Term { return c.AddK(a, b, big.NewRat(-1, 1)) }
func (c *TermCtx) Scale(a *Term, k *big.Rat) *Term {
	return c.AddK(c.constNum(ratZero, a.sort), a, k)
}
func (c *TermCtx) Neg(a *Term) *Term { return c.Scale(a, big.NewRat(-1, 1)) }

// Mul: polynomial product.
func (c *TermCtx) Mul(a, b *Term) *Term {
	if a.isConst() {
		return c.Scale(b, a.c)
	}
	if b.isConst() {
		return c.Scale(a, b.c)
	}
	if q := c.divByInv(a, b); q != nil {
		return q
	}
	if q := c.divByInv(b, a); q != nil {
		return q
	}
	ac, al := parts(a)
	bc, bl := parts(b)
	// ite distribution is not attempted
	res := c.constNum(new(big.Rat).Mul(ac, bc), a.sort)
	if ac.Sign() != 0 {
		res = c.Add(res, c.mkLin(ratZero, scaleList(bl, ac), a.sort))
	}
	if bc.Sign() != 0 {
		res = c.Add(res, c.mkLin(ratZero, scaleList(al, bc), a.sort))
	}
	for _, x := range al {
		for _, y := range bl {
			res = c.AddK(res, c.mono(x.a, y.a), new(big.Rat).Mul(x.k, y.k))
		}
	}
	return res
}

// monomial of a polynomial: exponents by atom.
type monom struct {
	k  *big.Rat
	ex map[*Term]int
	d  int
}

func polyOf(t *Term) ([]monom, bool) {
	k, l := parts(t)
	var out []monom
	if k.Sign() != 0 {
		out = append(out, monom{k, map[*Term]int{}, 0})
	}
	for _, x := range l {
		at, ex := monoParts(x.a)
		m := monom{x.k, map[*Term]int{}, 0}
		for i, a := range at {
			if ex[i] < 0 {
				return nil, false
			}
			m.ex[a] += ex[i]
			m.d += ex[i]
		}
		out = append(out, m)
	}
	return out, true
}

// more: graded lexicographic order of monomials.
func (m monom) more(o monom) bool {
	if m.d != o.d {
		return m.d > o.d
	}
	var best *Term
	for _, e := range []map[*Term]int{m.ex, o.ex} {
		for a := range e {
			if m.ex[a] != o.ex[a] && (best == nil || a.id < best.id) {
				best = a
			}
		}
	}
	return best != nil && m.ex[best] > o.ex[best]
}

func lead(p []monom) monom {
	b := p[0]
	for _, x := range p[1:] {
		if x.more(b) {
			b = x
		}
	}
	return b
}

// divByInv: p * (k / n) where n divides the polynomial p exactly, else nil.
func (c *TermCtx) divByInv(p, i *Term) *Term {
	ik, il := parts(i)
	if ik.Sign() != 0 || len(il) != 1 || il[0].a.op != OInv {
		return nil
	}
	n := il[0].a.args[0]
	np, ok := polyOf(n)
	if !ok {
		return nil
	}
	ln := lead(np)
	q := c.constNum(ratZero, SReal)
	for rest := p; ; {
		if rest.isConst() && rest.c.Sign() == 0 {
			return c.Scale(q, il[0].k)
		}
		rp, ok := polyOf(rest)
		if !ok || len(rp) > 60 {
			return nil
		}
		lr := lead(rp)
		var at []*Term
		var ex []int
		for a, e := range lr.ex {
			if e -= ln.ex[a]; e < 0 {
				return nil
			} else if e > 0 {
				at, ex = append(at, a), append(ex, e)
			}
		}
		for a := range ln.ex {
			if lr.ex[a] < ln.ex[a] {
				return nil
			}
		}
		f := c.Scale(c.mkMono(at, ex, SReal), new(big.Rat).Quo(lr.k, ln.k))
		q = c.Add(q, f)
		rest = c.Sub(rest, c.Mul(f, n))
	}
}

func scaleList(l []LT, k *big.Rat) []LT {
	o := make([]LT, len(l))
	for i, x := range l {
		o[i] = LT{new(big.Rat).Mul(x.k, k), x.a}
	}
	return o
}

func monoParts(t *Term) ([]*Term, []int) {
	if t.op == OMono {
		return t.args, t.exps
	}
	return []*Term{t}, []int{1}
}

func (c *TermCtx) mkMono(at []*Term, ex []int, s Sort) *Term {
	type ae struct {
		a *Term
		e int
	}
	m := map[*Term]int{}
	for i, a := range at {
		m[a] += ex[i]
	}
	var l []ae
	for a, e := range m {
		if e != 0 {
			l = append(l, ae{a, e})
		}
	}
	if len(l) == 0 {
		return c.constNum(ratOne, s)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].a.id < l[j].a.id })
	if len(l) == 1 && l[0].e == 1 {
		return l[0].a
	}
	var sb strings.Builder
	sb.WriteString("M")
	if s == SReal {
		sb.WriteString("R")
	}
	t := &Term{op: OMono, sort: s}
	nonneg := true
	lo, hi := ratOne, ratOne
	for _, x := range l {
		fmt.Fprintf(&sb, "|%d^%d", x.a.id, x.e)
		t.args = append(t.args, x.a)
		t.exps = append(t.exps, x.e)
		if x.e%2 != 0 && (x.a.lo == nil || x.a.lo.Sign() < 0) {
			nonneg = false
		}
		for e := 0; e < x.e; e++ {
			lo, hi = mulIv(lo, hi, x.a.lo, x.a.hi)
		}
		if x.e < 0 {
			lo, hi = nil, nil
		}
	}
	t.lo, t.hi = lo, hi
	if nonneg && t.lo == nil {
		t.lo = ratZero
	}
	return c.mk(sb.String(), t)
}

func mulIv(al, ah, bl, bh *big.Rat) (*big.Rat, *big.Rat) {
	if al == nil || ah == nil || bl == nil || bh == nil {
		if al != nil && al.Sign() >= 0 && bl != nil && bl.Sign() >= 0 {
			return new(big.Rat).Mul(al, bl), nil
		}
		return nil, nil
	}
	var lo, hi *big.Rat
	for _, x := range []*big.Rat{al, ah} {
		for _, y := range []*big.Rat{bl, bh} {
			p := new(big.Rat).Mul(x, y)
			if lo == nil || p.Cmp(lo) < 0 {
				lo = p
			}
			if hi == nil || p.Cmp(hi) > 0 {
				hi = p
			}
		}
	}
	return lo, hi
}

func (c *TermCtx) mono(x, y *Term) *Term {
	xa, xe := monoParts(x)
	ya, ye := monoParts(y)
	return c.mkMono(append(append([]*Term{}, xa...), ya...), append(append([]int{}, xe...), ye...), x.sort)
}

// Inv: 1/t for a Real term known to be non-zero on this path.
func (c *TermCtx) Inv(t *Term) *Term {
	if t.isConst() {
		return c.Real(new(big.Rat).Inv(t.c))
	}
	k, l := parts(t)
	if k.Sign() == 0 && len(l) == 1 {
		at, ex := monoParts(l[0].a)
		ne := make([]int, len(ex))
		for i := range ex {
			ne[i] = -ex[i]
		}
		return c.Scale(c.mkMono(at, ne, SReal), new(big.Rat).Inv(l[0].k))
	}
	// normalise leading coefficient
	lead := l[0].k
	n := c.Scale(t, new(big.Rat).Inv(lead))
	a := c.mk(fmt.Sprintf("inv%d", n.id), &Term{op: OInv, sort: SReal, args: []*Term{n}})
	return c.Scale(a, new(big.Rat).Inv(lead))
}

func floorInt(r *big.Rat) *big.Int {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(r.Num(), r.Denom(), m)
	return q
}

// Div: floor division by a positive constant.
func (c *TermCtx) Div(a *Term, k *big.Int) *Term {
	if k.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if t := c.mapTree(a, func(x *Term) *Term { return c.Div(x, k) }); t != nil {
		return t
	}
	if a.isConst() {
		return c.IntBig(floorInt(new(big.Rat).Quo(a.c, new(big.Rat).SetInt(k))))
	}
	if a.lo != nil && a.hi != nil {
		l, h := floorInt(new(big.Rat).Quo(a.lo, new(big.Rat).SetInt(k))), floorInt(new(big.Rat).Quo(a.hi, new(big.Rat).SetInt(k)))
		if l.Cmp(h) == 0 {
			return c.IntBig(l)
		}
	}
	if a.op == ODiv {
		return c.Div(a.args[0], new(big.Int).Mul(a.k, k))
	}
	// split linear form: (k*X + r) div k = X + r div k
	ac, al := parts(a)
	kr := new(big.Rat).SetInt(k)
	var m, rest []LT
	for _, x := range al {
		q := new(big.Rat).Quo(x.k, kr)
		if q.IsInt() {
			m = append(m, LT{q, x.a})
		} else {
			rest = append(rest, x)
		}
	}
	qc := floorInt(new(big.Rat).Quo(ac, kr))
	if len(m) > 0 || (qc.Sign() != 0 && a.op == OLin) {
		rc := new(big.Rat).Sub(ac, new(big.Rat).Mul(kr, new(big.Rat).SetInt(qc)))
		r := c.mkLin(rc, rest, SInt)
		return c.Add(c.mkLin(new(big.Rat).SetInt(qc), m, SInt), c.Div(r, k))
	}
	t := &Term{op: ODiv, sort: SInt, args: []*Term{a}, k: k}
	if a.lo != nil {
		t.lo = new(big.Rat).SetInt(floorInt(new(big.Rat).Quo(a.lo, kr)))
	}
	if a.hi != nil {
		t.hi = new(big.Rat).SetInt(floorInt(new(big.Rat).Quo(a.hi, kr)))
	}
	return c.mk(fmt.Sprintf("div%d/%s", a.id, k), t)
}

// mapTree applies f to the constants of a choice between constants, or is nil
// if a is something else.
func (c *TermCtx) mapTree(a *Term, f func(*Term) *Term) *Term {
	k, l := parts(a)
	if a.sort != SInt || len(l) != 1 || l[0].a.op != OIte {
		return nil
	}
	n := 0
	var all func(t *Term) bool
	all = func(t *Term) bool {
		if n++; n > 400 {
			return false
		}
		if t.op == OIte {
			return all(t.args[1]) && all(t.args[2])
		}
		return t.isConst()
	}
	if !all(l[0].a) {
		return nil
	}
	done := map[*Term]*Term{}
	var mp func(t *Term) *Term
	mp = func(t *Term) *Term {
		r := done[t]
		switch {
		case r != nil:
		case t.op == OIte:
			r = c.Ite(t.args[0], mp(t.args[1]), mp(t.args[2]))
		default:
			r = f(c.Add(c.Scale(t, l[0].k), c.constNum(k, SInt)))
		}
		done[t] = r
		return r
	}
	return mp(l[0].a)
}

func (c *TermCtx) Mod(a *Term, k *big.Int) *Term {
	if t := c.mapTree(a, func(x *Term) *Term { return c.Mod(x, k) }); t != nil {
		return t
	}
	kr := new(big.Rat).SetInt(k)
	if a.isConst() {
		return c.IntBig(new(big.Int).Mod(a.c.Num(), k))
	}
	if a.lo != nil && a.hi != nil {
		l, h := floorInt(new(big.Rat).Quo(a.lo, kr)), floorInt(new(big.Rat).Quo(a.hi, kr))
		if l.Cmp(h) == 0 {
			return c.Sub(a, c.IntBig(new(big.Int).Mul(l, k)))
		}
	}
	// drop multiples of k
	ac, al := parts(a)
	var rest []LT
	for _, x := range al {
		r := new(big.Rat).SetInt(new(big.Int).Mod(x.k.Num(), k))
		if r.Sign() != 0 {
			rest = append(rest, LT{r, x.a})
		}
	}
	rc := new(big.Rat).SetInt(new(big.Int).Mod(ac.Num(), k))
	n := c.mkLin(rc, rest, SInt)
	if n.isConst() {
		return c.IntBig(new(big.Int).Mod(n.c.Num(), k))
	}
	if n != a {
		return c.Mod(n, k)
	}
	if a.op == OMod {
		if new(big.Int).Mod(a.k, k).Sign() == 0 {
			return c.Mod(a.args[0], k)
		}
	}
	t := &Term{op: OMod, sort: SInt, args: []*Term{a}, k: k, lo: ratZero, hi: new(big.Rat).SetInt(new(big.Int).Sub(k, big.NewInt(1)))}
	return c.mk(fmt.Sprintf("mod%d/%s", a.id, k), t)
}

func (c *TermCtx) DivV(a, b *Term) *Term {
	return c.mk(fmt.Sprintf("divv%d/%d", a.id, b.id), &Term{op: ODivV, sort: SInt, args: []*Term{a, b}})
}

func (c *TermCtx) ToReal(a *Term) *Term {
	if a.sort == SReal {
		return a
	}
	ac, al := parts(a)
	if al == nil {
		return c.Real(ac)
	}
	var l []LT
	for _, x := range al {
		l = append(l, LT{x.k, c.toRealAtom(x.a)})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].a.id < l[j].a.id })
	return c.mkLin(ac, l, SReal)
}

func (c *TermCtx) toRealAtom(a *Term) *Term {
	if a.op == OMono {
		var at []*Term
		for _, x := range a.args {
			at = append(at, c.toRealAtom(x))
		}
		return c.mkMono(at, a.exps, SReal)
	}
	return c.mk(fmt.Sprintf("toreal%d", a.id), &Term{op: OToReal, sort: SReal, args: []*Term{a}, lo: a.lo, hi: a.hi})
}

// IntOf: if a Real term is provably the image of an integer term, return it.
func (c *TermCtx) IntOf(a *Term) (*Term, bool) {
	ac, al := parts(a)
	if !ac.IsInt() {
		return nil, false
	}
	var l []LT
	for _, x := range al {
		if !x.k.IsInt() {
			return nil, false
		}
		switch x.a.op {
		case OToReal:
			l = append(l, LT{x.k, x.a.args[0]})
		case OMono:
			var at []*Term
			for i, y := range x.a.args {
				if y.op != OToReal || x.a.exps[i] < 0 {
					return nil, false
				}
				at = append(at, y.args[0])
			}
			m := c.mkMono(at, x.a.exps, SInt)
			l = append(l, LT{x.k, m})
		case OIte:
			p, ok := c.IntOf(x.a.args[1])
			if !ok {
				return nil, false
			}
			q, ok := c.IntOf(x.a.args[2])
			if !ok {
				return nil, false
			}
			l = append(l, LT{x.k, c.Ite(x.a.args[0], p, q)})
		default:
			return nil, false
		}
	}
	res := c.constNum(ac, SInt)
	for _, x := range l {
		res = c.AddK(res, x.a, x.k)
	}
	return res, true
}

func (c *TermCtx) Floor(a *Term) *Term {
	if a.isConst() {
		return c.IntBig(floorInt(a.c))
	}
	if t, ok := c.IntOf(a); ok {
		return t
	}
	// (linear with common denominator D over integers): floor = (D*a) div D
	if d := c.commonDen(a); d != nil {
		n := c.Scale(a, new(big.Rat).SetInt(d))
		if t, ok := c.IntOf(n); ok {
			return c.Div(t, d)
		}
	}
	t := &Term{op: OFloor, sort: SInt, args: []*Term{a}}
	if a.lo != nil {
		t.lo = new(big.Rat).SetInt(floorInt(a.lo))
	}
	if a.hi != nil {
		t.hi = new(big.Rat).SetInt(floorInt(a.hi))
	}
	return c.mk(fmt.Sprintf("floor%d", a.id), t)
}

// commonDen returns the lcm of coefficient denominators.
func (c *TermCtx) commonDen(a *Term) *big.Int {
	ac, al := parts(a)
	d := new(big.Int).Set(ac.Denom())
	for _, x := range al {
		e := x.k.Denom()
		g := new(big.Int).GCD(nil, nil, d, e)
		d.Mul(d, new(big.Int).Div(e, g))
	}
	return d
}

// ---- comparisons -----------------------------------------------------------

func (c *TermCtx) normLin(d *Term, eq bool) *Term {
	// scale so that coefs are coprime integers; positive scaling (sign too for eq)
	k, l := parts(d)
	if len(l) == 0 {
		return d
	}
	den := c.commonDen(d)
	num := new(big.Int)
	for _, x := range l {
		n := new(big.Int).Mul(x.k.Num(), new(big.Int).Div(den, x.k.Denom()))
		num.GCD(nil, nil, num, n.Abs(n))
	}
	_ = k
	s := new(big.Rat).SetFrac(den, num)
	if eq && l[0].k.Sign() < 0 {
		s.Neg(s)
	}
	if s.Cmp(ratOne) == 0 {
		return d
	}
	r := c.ScaleRaw(d, s)
	return r
}

// ScaleRaw scales also the constant, permitting (for Int sort) rational constants.
func (c *TermCtx) ScaleRaw(d *Term, s *big.Rat) *Term {
	k, l := parts(d)
	return c.mkLin(new(big.Rat).Mul(k, s), scaleList(l, s), d.sort)
}

func (c *TermCtx) Le(a, b *Term) *Term { // a <= b
	if a == b {
		return c.True
	}
	if a.sort != b.sort {
		a, b = c.ToReal(a), c.ToReal(b)
	}
	d := c.Sub(a, b)
	if d.isConst() {
		return c.Bool(d.c.Sign() <= 0)
	}
	if d.hi != nil && d.hi.Sign() <= 0 {
		return c.True
	}
	if d.lo != nil && d.lo.Sign() > 0 {
		return c.False
	}
	if d.sort == SReal {
		if n := c.normLin(d, false); true {
			if id, ok := c.intScaled(n); ok {
				d = id
			}
		}
	}
	if d.sort == SInt {
		k, l := parts(d)
		den := new(big.Int)
		for _, x := range l {
			den.GCD(nil, nil, den, new(big.Int).Abs(x.k.Num()))
		}
		if den.Cmp(big.NewInt(1)) != 0 {
			s := new(big.Rat).SetFrac(big.NewInt(1), den)
			kk := new(big.Rat).Mul(k, s)
			// sum + kk <= 0  <=> sum <= floor(-kk)
			f := floorInt(new(big.Rat).Neg(kk))
			d = c.mkLin(new(big.Rat).SetInt(new(big.Int).Neg(f)), scaleList(l, s), SInt)
		}
	} else {
		d = c.normLin(d, false)
	}
	return c.mk(fmt.Sprintf("le%d", d.id), &Term{op: OLe, sort: SBool, args: []*Term{d}})
}

// intScaled: a normalised real linear form over integer atoms (with integer or
// rational constant) as an Int form for <=: sum + k <= 0, constant rounded up.
func (c *TermCtx) intScaled(n *Term) (*Term, bool) {
	k, l := parts(n)
	if len(l) == 0 {
		return nil, false
	}
	z := c.mkLin(ratZero, l, SReal)
	t, ok := c.IntOf(z)
	if !ok {
		return nil, false
	}
	f := floorInt(new(big.Rat).Neg(k))
	return c.Sub(t, c.IntBig(f)), true
}

func (c *TermCtx) Lt(a, b *Term) *Term {
	if a.sort != b.sort {
		a, b = c.ToReal(a), c.ToReal(b)
	}
	return c.Not(c.Le(b, a))
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sort == SBool {
		if a.isConst() {
			a, b = b, a
		}
		if b == c.True {
			return a
		}
		if b == c.False {
			return c.Not(a)
		}
		return c.Or(c.And(a, b), c.And(c.Not(a), c.Not(b)))
	}
	if a.sort != b.sort {
		a, b = c.ToReal(a), c.ToReal(b)
	}
	d := c.Sub(a, b)
	if d.isConst() {
		return c.Bool(d.c.Sign() == 0)
	}
	if (d.lo != nil && d.lo.Sign() > 0) || (d.hi != nil && d.hi.Sign() < 0) {
		return c.False
	}
	d = c.normLin(d, true)
	if d.sort == SReal {
		k, l := parts(d)
		if t, ok := c.IntOf(c.mkLin(ratZero, l, SReal)); ok {
			if !k.IsInt() {
				return c.False
			}
			d = c.Add(t, c.constNum(k, SInt))
			d = c.normLin(d, true)
		}
	}
	if d.sort == SInt {
		if k, _ := parts(d); !k.IsInt() {
			return c.False
		}
	}
	if d.isConst() {
		return c.Bool(d.c.Sign() == 0)
	}
	// single ite atom against constant: push inside
	if k, l := parts(d); len(l) == 1 && l[0].a.op == OIte {
		it := l[0].a
		if it.args[1].isConst() || it.args[2].isConst() {
			want := c.constNum(new(big.Rat).Quo(new(big.Rat).Neg(k), l[0].k), it.sort)
			if it.sort == SReal || want.c.IsInt() {
				return c.Ite(it.args[0], c.Eq(it.args[1], want), c.Eq(it.args[2], want))
			}
		}
	}
	return c.mk(fmt.Sprintf("eq%d", d.id), &Term{op: OEq, sort: SBool, args: []*Term{d}})
}

// ---- booleans ----------------------------------------------------------------

func (c *TermCtx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.Bool(!a.b)
	case ONot:
		return a.args[0]
	case OLe:
		d := a.args[0]
		if d.sort == SInt { // not (d<=0) <=> -d+1 <= 0
			n := c.Add(c.Neg(d), c.Int(1))
			return c.mk(fmt.Sprintf("le%d", n.id), &Term{op: OLe, sort: SBool, args: []*Term{n}})
		}
	}
	return c.mk(fmt.Sprintf("not%d", a.id), &Term{op: ONot, sort: SBool, args: []*Term{a}})
}

func (c *TermCtx) nary(op Op, xs []*Term) *Term {
	unit, zero := c.True, c.False
	if op == OOr {
		unit, zero = c.False, c.True
	}
	m := map[*Term]bool{}
	var l []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit || m[x] {
			return true
		}
		if x == zero || m[c.Not(x)] {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		m[x] = true
		l = append(l, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(l) == 0 {
		return unit
	}
	if len(l) == 1 {
		return l[0]
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	var sb strings.Builder
	if op == OAnd {
		sb.WriteString("and")
	} else {
		sb.WriteString("or")
	}
	for _, x := range l {
		fmt.Fprintf(&sb, ",%d", x.id)
	}
	return c.mk(sb.String(), &Term{op: op, sort: SBool, args: l})
}

func (c *TermCtx) And(xs ...*Term) *Term { return c.nary(OAnd, xs) }
func (c *TermCtx) Or(xs ...*Term) *Term  { return c.nary(OOr, xs) }

func (c *TermCtx) Ite(g, a, b *Term) *Term {
	if g == c.True || a == b {
		return a
	}
	if g == c.False {
		return b
	}
	if a.sort == SBool {
		return c.Or(c.And(g, a), c.And(c.Not(g), b))
	}
	if a.sort != b.sort {
		a, b = c.ToReal(a), c.ToReal(b)
	}
	if g.op == ONot {
		return c.Ite(g.args[0], b, a)
	}
	t := &Term{op: OIte, sort: a.sort, args: []*Term{g, a, b}}
	if a.lo != nil && b.lo != nil {
		t.lo = a.lo
		if b.lo.Cmp(t.lo) < 0 {
			t.lo = b.lo
		}
	}
	if a.hi != nil && b.hi != nil {
		t.hi = a.hi
		if b.hi.Cmp(t.hi) > 0 {
			t.hi = b.hi
		}
	}
	return c.mk(fmt.Sprintf("ite%d,%d,%d", g.id, a.id, b.id), t)
}

func (c *TermCtx) HexCh(t *Term, pos int) *Term {
	if t.isConst() {
		d := new(big.Int).Rsh(t.c.Num(), uint(4*pos))
		d.And(d, big.NewInt(15))
		return c.Int(int64("0123456789abcdef"[d.Int64()]))
	}
	return c.mk(fmt.Sprintf("hex%d.%d", t.id, pos), &Term{op: OHexCh, sort: SInt, args: []*Term{t}, pos: pos, lo: ratInt('0'), hi: ratInt('f')})
}

// BitOp over non-negative ints below 2^width. kind 0 and, 1 or, 2 xor.
func (c *TermCtx) BitOp(kind int, a, b *Term, width int) *Term {
	hi := new(big.Int).Lsh(big.NewInt(1), uint(width))
	hi.Sub(hi, big.NewInt(1))
	return c.mk(fmt.Sprintf("bit%d.%d(%d,%d)", kind, width, a.id, b.id), &Term{op: OBitOp, sort: SInt, args: []*Term{a, b}, pos: width, k: big.NewInt(int64(kind)), lo: ratZero, hi: new(big.Rat).SetInt(hi)})
}

// UF: an uninterpreted application, used for stubs that must be functional in
// their arguments.
func (c *TermCtx) UF(name string, s Sort, args ...*Term) *Term {
	key := "uf:" + name
	for _, a := range args {
		key += fmt.Sprintf(",%d", a.id)
	}
	return c.mk(key, &Term{op: OUF, sort: s, name: name, args: args})
}

// ---- evaluation under a model -----------------------------------------------

type Model map[string]*big.Rat // bools as 0/1

type evalErr struct{ msg string }

func (c *TermCtx) NewEpoch() { c.epoch++ }

// Eval evaluates t under m (missing variables: nearest value to 0 in range).
// Call NewEpoch when the model changes.
func (c *TermCtx) evalNum(t *Term, m Model) *big.Rat {
	if t.op == OConst {
		return t.c
	}
	if t.evEpoch == c.epoch && t.evR != nil {
		return t.evR
	}
	var r *big.Rat
	switch t.op {
	case OVar:
		v, ok := m[t.name]
		if !ok {
			v = ratZero
			if t.lo != nil && t.lo.Sign() > 0 {
				v = t.lo
			} else if t.hi != nil && t.hi.Sign() < 0 {
				v = t.hi
			}
		}
		r = v
	case OLin:
		r = new(big.Rat).Set(t.c)
		for _, x := range t.lin {
			r.Add(r, new(big.Rat).Mul(x.k, c.evalNum(x.a, m)))
		}
	case OMono:
		r = big.NewRat(1, 1)
		for i, a := range t.args {
			v := c.evalNum(a, m)
			e := t.exps[i]
			if e < 0 {
				if v.Sign() == 0 {
					panic(evalErr{"division by zero in model"})
				}
				v = new(big.Rat).Inv(v)
				e = -e
			}
			for ; e > 0; e-- {
				r.Mul(r, v)
			}
		}
	case OIte:
		if c.evalBool(t.args[0], m) {
			r = c.evalNum(t.args[1], m)
		} else {
			r = c.evalNum(t.args[2], m)
		}
	case OToReal:
		r = c.evalNum(t.args[0], m)
	case ODiv:
		r = new(big.Rat).SetInt(floorInt(new(big.Rat).Quo(c.evalNum(t.args[0], m), new(big.Rat).SetInt(t.k))))
	case OMod:
		r = new(big.Rat).SetInt(new(big.Int).Mod(c.evalNum(t.args[0], m).Num(), t.k))
	case ODivV:
		a, b := c.evalNum(t.args[0], m), c.evalNum(t.args[1], m)
		if b.Sign() == 0 {
			panic(evalErr{"division by zero in model"})
		}
		q := new(big.Int).Div(a.Num(), b.Num())
		r = new(big.Rat).SetInt(q)
	case OFloor:
		r = new(big.Rat).SetInt(floorInt(c.evalNum(t.args[0], m)))
	case OHexCh:
		d := new(big.Int).Rsh(c.evalNum(t.args[0], m).Num(), uint(4*t.pos))
		d.And(d, big.NewInt(15))
		r = ratInt(int64("0123456789abcdef"[d.Int64()]))
	case OBitOp:
		a, b := c.evalNum(t.args[0], m).Num(), c.evalNum(t.args[1], m).Num()
		z := new(big.Int)
		switch t.k.Int64() {
		case 0:
			z.And(a, b)
		case 1:
			z.Or(a, b)
		case 2:
			z.Xor(a, b)
		}
		r = new(big.Rat).SetInt(z)
	case OInv:
		v := c.evalNum(t.args[0], m)
		if v.Sign() == 0 {
			panic(evalErr{"division by zero in model"})
		}
		r = new(big.Rat).Inv(v)
	case OUF:
		key := t.name
		for _, a := range t.args {
			key += "," + c.evalNum(a, m).RatString()
		}
		v, ok := m["uf:"+key]
		if !ok {
			panic(evalErr{"uf"})
		}
		r = v
	default:
		panic(fmt.Sprintf("evalNum op %d", t.op))
	}
	t.evEpoch, t.evR = c.epoch, r
	return r
}

func (c *TermCtx) evalBool(t *Term, m Model) bool {
	switch t.op {
	case OConst:
		return t.b
	case OVar:
		v, ok := m[t.name]
		return ok && v.Sign() != 0
	case ONot:
		return !c.evalBool(t.args[0], m)
	case OAnd:
		for _, a := range t.args {
			if !c.evalBool(a, m) {
				return false
			}
		}
		return true
	case OOr:
		for _, a := range t.args {
			if c.evalBool(a, m) {
				return true
			}
		}
		return false
	case OLe:
		return c.evalNum(t.args[0], m).Sign() <= 0
	case OEq:
		return c.evalNum(t.args[0], m).Sign() == 0
	}
	panic(fmt.Sprintf("evalBool op %d", t.op))
}

func (c *TermCtx) TryEvalBool(t *Term, m Model) (v bool, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(evalErr); is {
				ok = false
				return
			}
			panic(e)
		}
	}()
	return c.evalBool(t, m), true
}

func (c *TermCtx) TryEvalNum(t *Term, m Model) (v *big.Rat, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(evalErr); is {
				ok = false
				return
			}
			panic(e)
		}
	}()
	return c.evalNum(t, m), true
}
