package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(m *M, caller *frame, fn *ssa.Function, args []Val) Val

// Payloads stored in field 0 of math/big structures.
type ratP struct{ t *Term } // Real
type bigP struct {
	t   *Term // Int value, or nil when lazily num/denom of r
	num *Term // numerator of this rational
	den *Term // denominator of this rational
}

func ratPayload(m *M, p *Val) (*Term, bool) {
	s, ok := (*p).(Struct)
	if !ok || len(s) == 0 {
		return nil, false
	}
	switch x := s[0].(type) {
	case *ratP:
		return x.t, true
	case *bigP:
		if x.t != nil {
			return x.t, true
		}
	}
	return nil, false
}

func (m *M) rat(v Val) *Term {
	p, ok := v.(*Val)
	if !ok {
		panic(unsupported{fmt.Sprintf("rat of %T", v)})
	}
	if p == nil {
		m.nilDeref()
	}
	s := (*p).(Struct)
	if x, ok := s[0].(*ratP); ok {
		return x.t
	}
	if _, ok := s[0].(Struct); ok {
		return m.ctx.Real(ratZero)
	}
	panic(unsupported{fmt.Sprintf("rat payload %T", s[0])})
}

func (m *M) setRat(v Val, t *Term) Val {
	p := v.(*Val)
	if p == nil {
		m.nilDeref()
	}
	s := (*p).(Struct)
	s[0] = &ratP{t}
	return v
}

func (m *M) newRat(t *Term) Val {
	var v Val = Struct{&ratP{t}, nil}
	return &v
}

func (m *M) bigp(v Val) *bigP {
	p, ok := v.(*Val)
	if !ok {
		panic(unsupported{fmt.Sprintf("bigint of %T", v)})
	}
	if p == nil {
		m.nilDeref()
	}
	s := (*p).(Struct)
	switch x := s[0].(type) {
	case *bigP:
		return x
	case bool:
		return &bigP{t: m.ctx.Int(0)}
	}
	panic(unsupported{fmt.Sprintf("bigint payload %T", s[0])})
}

func (m *M) setBig(v Val, t *Term) Val {
	p := v.(*Val)
	if p == nil {
		m.nilDeref()
	}
	(*p).(Struct)[0] = &bigP{t: t}
	return v
}

func (m *M) newBig(b *bigP) Val {
	var v Val = Struct{b, nil}
	return &v
}

// ratParts: numerator and denominator in lowest terms. The denominator is made
// concrete by deciding the gcd with the (constant) common denominator.
func (m *M) ratParts(r *Term) (num *Term, den *big.Int) {
	r = m.flatRat(r)
	if r.isConst() {
		return m.ctx.IntBig(r.c.Num()), r.c.Denom()
	}
	if t, ok := m.ctx.IntOf(r); ok {
		return t, big.NewInt(1)
	}
	d := m.ctx.commonDen(r)
	n, ok := m.ctx.IntOf(m.ctx.Scale(r, new(big.Rat).SetInt(d)))
	if !ok {
		panic(unsupported{"numerator/denominator of a rational without constant common denominator"})
	}
	// g = gcd(n,d), one prime after the other
	primes, _ := divisors(d)
	c := m.ctx
	isMul := func(k *big.Int) *Term { return c.Eq(c.Mod(n, k), c.Int(0)) }
	g := big.NewInt(1)
	for _, pr := range primes {
		p := big.NewInt(pr)
		var pows []*big.Int
		for x, r := big.NewInt(1), new(big.Int).Set(d); ; x = new(big.Int).Mul(x, p) {
			pows = append(pows, x)
			q, rem := new(big.Int).QuoRem(r, p, new(big.Int))
			if rem.Sign() != 0 {
				break
			}
			r = q
		}
		conds := make([]*Term, len(pows))
		for i, x := range pows {
			conds[i] = isMul(x)
			if i+1 < len(pows) {
				conds[i] = c.And(conds[i], c.Not(isMul(pows[i+1])))
			}
		}
		g.Mul(g, pows[m.choose(conds)])
	}
	return c.Div(n, g), new(big.Int).Div(d, g)
}

// flatRat makes the denominators of a quotient of symbolic values concrete.
func (m *M) flatRat(r *Term) *Term {
	c := m.ctx
	k, l := parts(r)
	fix := func(t *Term) *big.Rat {
		d := c.commonDen(t)
		n, ok := c.IntOf(c.Scale(t, new(big.Rat).SetInt(d)))
		if !ok {
			panic(unsupported{"quotient by something which is not a rational"})
		}
		v := new(big.Rat).SetInt64(m.forkInt(n, 200))
		return v.Inv(v.Quo(v, new(big.Rat).SetInt(d)))
	}
	found := false
	out := c.constNum(k, SReal)
	for _, x := range l {
		at, ex := monoParts(x.a)
		f := new(big.Rat).Set(x.k)
		var nat []*Term
		var nex []int
		for i, a := range at {
			switch {
			case a.op == OInv && ex[i] > 0:
				found = true
				v := fix(a.args[0])
				for e := 0; e < ex[i]; e++ {
					f.Mul(f, v)
				}
			case ex[i] < 0:
				found = true
				v := fix(a)
				for e := 0; e > ex[i]; e-- {
					f.Mul(f, v)
				}
			default:
				nat, nex = append(nat, a), append(nex, ex[i])
			}
		}
		out = c.AddK(out, c.mkMono(nat, nex, SReal), f)
	}
	if !found {
		return r
	}
	return out
}

// divisors gives the prime factors and all divisors of d in order.
func divisors(d *big.Int) (primes, ds []int64) {
	if !d.IsInt64() {
		panic(unsupported{"denominator too large"})
	}
	r := d.Int64()
	ds = []int64{1}
	for p := int64(2); r > 1; p++ {
		if p > 1000000 {
			panic(unsupported{"denominator too large"})
		}
		if r%p != 0 {
			continue
		}
		primes = append(primes, p)
		n, pw := len(ds), int64(1)
		for r%p == 0 {
			r /= p
			pw *= p
			for _, x := range ds[:n] {
				ds = append(ds, x*pw)
			}
		}
		if len(ds) > 1000 {
			panic(unsupported{"denominator with too many divisors"})
		}
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i] < ds[j] })
	return
}

// bint: the integer value of a big.Int
func (m *M) bint(v Val) *Term {
	b := m.bigp(v)
	if b.t != nil {
		return b.t
	}
	if b.num != nil {
		n, _ := m.ratParts(b.num)
		return n
	}
	return m.denTerm(b.den)
}

// denTerm is the denominator of a rational in lowest terms, as one term.
func (m *M) denTerm(r *Term) *Term {
	c := m.ctx
	r = m.flatRat(r)
	if r.isConst() {
		return c.IntBig(r.c.Denom())
	}
	if _, ok := c.IntOf(r); ok {
		return c.Int(1)
	}
	d := c.commonDen(r)
	n, ok := c.IntOf(c.Scale(r, new(big.Rat).SetInt(d)))
	if !ok {
		panic(unsupported{"denominator of a rational without constant common denominator"})
	}
	_, ds := divisors(d)
	D := d.Int64()
	t := c.Int(D)
	for _, g := range ds[1:] {
		t = c.Ite(c.Eq(c.Mod(n, big.NewInt(g)), c.Int(0)), c.Int(D/g), t)
	}
	return t
}

// fixDen makes a denominator concrete; later uses see the one chosen here.
func (m *M) fixDen(v Val) {
	if b := m.bigp(v); b.den != nil {
		_, d := m.ratParts(b.den)
		m.setBig(v, m.ctx.IntBig(d))
	}
}

func (m *M) signOf(t *Term) Val {
	c := m.ctx
	if t.isConst() {
		return int64(t.c.Sign())
	}
	z := c.constNum(ratZero, t.sort)
	r := c.Ite(c.Lt(z, t), c.Int(1), c.Ite(c.Eq(t, z), c.Int(0), c.Int(-1)))
	return m.fromTerm(r, int64(0))
}

func (m *M) bsign(v Val) Val {
	b := m.bigp(v)
	switch {
	case b.t != nil:
		return m.signOf(b.t)
	case b.num != nil:
		return m.signOf(b.num)
	}
	return int64(1)
}

func (m *M) cmpOf(a, b *Term) Val {
	c := m.ctx
	r := c.Ite(c.Lt(a, b), c.Int(-1), c.Ite(c.Eq(a, b), c.Int(0), c.Int(1)))
	return m.fromTerm(r, int64(0))
}

func (m *M) nonZero(t *Term) bool {
	return !m.branch(m.ctx.Eq(t, m.ctx.constNum(ratZero, t.sort)))
}

func (m *M) bigPanic(msg string) {
	if m.pure > 0 {
		panic(impure{"panic"})
	}
	panic(targetPanic{Iface{typString, msg}, m.where()})
}

// ratDecimal renders a rational with prec decimals (half away from zero, as
// big.Rat.FloatString does).
func (m *M) ratDecimal(r *Term, prec int) Val {
	if r.isConst() {
		return r.c.FloatString(prec)
	}
	c := m.ctx
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(prec)), nil)
	x := c.Scale(r, new(big.Rat).SetInt(p))
	n, exact := c.IntOf(x)
	neg := m.branch(c.Lt(r, c.Real(ratZero)))
	if neg {
		x = c.Neg(x)
	}
	if exact {
		if neg {
			n = c.Neg(n)
		}
	} else {
		n = c.Floor(c.Add(x, c.Real(big.NewRat(1, 2))))
	}
	// FloatString prints the sign of the rational even when it rounds to zero
	var out []Val
	if neg {
		out = append(out, uint64('-'))
	}
	if prec == 0 {
		return mkStr(append(out, m.digits(n, 1)...))
	}
	ip := c.Div(n, p)
	fp := c.Mod(n, p)
	out = append(out, m.digits(ip, 1)...)
	out = append(out, uint64('.'))
	out = append(out, m.digitsN(fp, prec)...)
	return mkStr(out)
}

// digits prints a non-negative term with at least min digits.
func (m *M) digits(n *Term, min int) []Val {
	c := m.ctx
	if n.isConst() {
		s := n.c.Num().String()
		for len(s) < min {
			s = "0" + s
		}
		return strBytes(s)
	}
	if n.hi == nil {
		panic(unsupported{"printing an unbounded integer"})
	}
	max := len(floorInt(n.hi).String())
	if max < min {
		max = min
	}
	if max > 40 {
		panic(unsupported{"printing a very large integer"})
	}
	conds := []*Term{}
	for w := min; w <= max; w++ {
		lo := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(w-1)), nil)
		hi := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(w)), nil)
		var cs []*Term
		if w > min {
			cs = append(cs, c.Le(c.IntBig(lo), n))
		}
		if w < max {
			cs = append(cs, c.Lt(n, c.IntBig(hi)))
		}
		conds = append(conds, c.And(cs...))
	}
	w := min + m.choose(conds)
	return m.digitsN(n, w)
}

// digitsN prints exactly w digits of n (which must be < 10^w).
func (m *M) digitsN(n *Term, w int) []Val {
	c := m.ctx
	out := make([]Val, w)
	for i := 0; i < w; i++ {
		p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(w-1-i)), nil)
		d := c.Mod(c.Div(n, p), big.NewInt(10))
		b := c.Add(d, c.Int('0'))
		if b.isConst() {
			out[i] = b.c.Num().Uint64()
		} else {
			out[i] = b
		}
	}
	return out
}

func (m *M) intDecimal(t *Term) []Val {
	c := m.ctx
	if t.isConst() {
		return strBytes(t.c.Num().String())
	}
	if t.lo != nil && t.lo.Sign() >= 0 {
		return m.digits(t, 1)
	}
	if m.branch(c.Lt(t, c.Int(0))) {
		n := c.Neg(t)
		if n.hi == nil {
			panic(unsupported{"unbounded"})
		}
		return append([]Val{uint64('-')}, m.digits(n, 1)...)
	}
	return m.digits(t, 1)
}

func (m *M) ratToFloat(r *Term) Val {
	if r.isConst() {
		f, _ := r.c.Float64()
		return Tuple{f, new(big.Rat).SetFloat64(f).Cmp(r.c) == 0}
	}
	if v, ok := m.tryRounded(r); ok {
		return Tuple{v, true}
	}
	// inexact: keep the exact rational as an approximation of the double
	return Tuple{&SymF{r}, false}
}

func (m *M) tryRounded(r *Term) (v Val, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(unsupported); is {
				ok = false
				return
			}
			panic(e)
		}
	}()
	return m.roundedFloat(r), true
}

func concBig(t *Term) (*big.Int, bool) {
	if t.isConst() {
		return t.c.Num(), true
	}
	return nil, false
}

func init() {
	I := intrinsics
	R := "(*math/big.Rat)."
	B := "(*math/big.Int)."
	I["math/big.NewRat"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		n, d := m.term(a[0]), m.term(a[1])
		if !m.nonZero(d) {
			m.bigPanic("division by zero")
		}
		c := m.ctx
		return m.newRat(c.Mul(c.ToReal(n), c.Inv(c.ToReal(d))))
	}
	bin := func(f func(m *M, a, b *Term) *Term) intrinsic {
		return func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
			return m.setRat(a[0], f(m, m.rat(a[1]), m.rat(a[2])))
		}
	}
	I[R+"Add"] = bin(func(m *M, a, b *Term) *Term { return m.ctx.Add(a, b) })
	I[R+"Sub"] = bin(func(m *M, a, b *Term) *Term { return m.ctx.Sub(a, b) })
	I[R+"Mul"] = bin(func(m *M, a, b *Term) *Term { return m.ctx.Mul(a, b) })
	I[R+"Quo"] = bin(func(m *M, a, b *Term) *Term {
		if !m.nonZero(b) {
			m.bigPanic("division by zero")
		}
		return m.ctx.Mul(a, m.ctx.Inv(b))
	})
	un := func(f func(m *M, a *Term) *Term) intrinsic {
		return func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
			return m.setRat(a[0], f(m, m.rat(a[1])))
		}
	}
	I[R+"Neg"] = un(func(m *M, a *Term) *Term { return m.ctx.Neg(a) })
	I[R+"Set"] = un(func(m *M, a *Term) *Term { return a })
	I[R+"Abs"] = un(func(m *M, a *Term) *Term {
		return m.ctx.Ite(m.ctx.Lt(a, m.ctx.Real(ratZero)), m.ctx.Neg(a), a)
	})
	I[R+"Inv"] = un(func(m *M, a *Term) *Term {
		if !m.nonZero(a) {
			m.bigPanic("division by zero")
		}
		return m.ctx.Inv(a)
	})
	I[R+"SetInt64"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		return m.setRat(a[0], m.ctx.ToReal(m.term(a[1])))
	}
	I[R+"SetUint64"] = I[R+"SetInt64"]
	I[R+"SetInt"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		return m.setRat(a[0], m.ctx.ToReal(m.bint(a[1])))
	}
	frac := func(m *M, z Val, n, d *Term) Val {
		if !m.nonZero(d) {
			m.bigPanic("division by zero")
		}
		c := m.ctx
		return m.setRat(z, c.Mul(c.ToReal(n), c.Inv(c.ToReal(d))))
	}
	I[R+"SetFrac64"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		return frac(m, a[0], m.term(a[1]), m.term(a[2]))
	}
	I[R+"SetFrac"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		return frac(m, a[0], m.bint(a[1]), m.bint(a[2]))
	}
	I[R+"SetFloat64"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		switch f := a[1].(type) {
		case float64:
			r := new(big.Rat).SetFloat64(f)
			if r == nil {
				return (*Val)(nil)
			}
			return m.setRat(a[0], m.ctx.Real(r))
		case *SymF:
			return m.setRat(a[0], f.t)
		}
		panic(unsupported{"SetFloat64"})
	}
	I[R+"SetString"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		s, ok := a[1].(string)
		if !ok {
			return m.symRatString(a[0], a[1])
		}
		r, good := new(big.Rat).SetString(s)
		if !good {
			return Tuple{(*Val)(nil), false}
		}
		m.setRat(a[0], m.ctx.Real(r))
		return Tuple{a[0], true}
	}
	I[R+"Sign"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return m.signOf(m.rat(a[0])) }
	I[R+"Cmp"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return m.cmpOf(m.rat(a[0]), m.rat(a[1])) }
	I[R+"IsInt"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		r := m.rat(a[0])
		if r.isConst() {
			return r.c.IsInt()
		}
		if _, ok := m.ctx.IntOf(r); ok {
			return true
		}
		d := m.ctx.commonDen(r)
		n, ok := m.ctx.IntOf(m.ctx.Scale(r, new(big.Rat).SetInt(d)))
		if !ok {
			panic(unsupported{"IsInt"})
		}
		return m.boolVal(m.ctx.Eq(m.ctx.Mod(n, d), m.ctx.Int(0)))
	}
	I[R+"Num"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		r := m.rat(a[0])
		if t, ok := m.ctx.IntOf(r); ok {
			return m.newBig(&bigP{t: t})
		}
		if r.isConst() {
			return m.newBig(&bigP{t: m.ctx.IntBig(r.c.Num())})
		}
		return m.newBig(&bigP{num: r})
	}
	I[R+"Denom"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		r := m.rat(a[0])
		if r.isConst() {
			return m.newBig(&bigP{t: m.ctx.IntBig(r.c.Denom())})
		}
		if _, ok := m.ctx.IntOf(r); ok || m.den1 {
			return m.newBig(&bigP{t: m.ctx.Int(1)})
		}
		return m.newBig(&bigP{den: r})
	}
	I[R+"Float64"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return m.ratToFloat(m.rat(a[0])) }
	I[R+"FloatString"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		return m.ratDecimal(m.flatRat(m.rat(a[0])), int(m.forkVal(a[1], 40)))
	}
	I[R+"FloatPrec"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		r := m.rat(a[0])
		if r.isConst() {
			n, e := r.c.FloatPrec()
			return Tuple{int64(n), e}
		}
		_, d := m.ratParts(r)
		n, e := new(big.Rat).SetFrac(big.NewInt(1), d).FloatPrec()
		return Tuple{int64(n), e}
	}
	str := func(slash bool) intrinsic {
		return func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
			if p, ok := a[0].(*Val); ok && p == nil {
				m.nilDeref()
			}
			n, d := m.ratParts(m.rat(a[0]))
			b := m.intDecimal(n)
			if slash || d.Cmp(big.NewInt(1)) != 0 {
				b = append(b, strBytes("/"+d.String())...)
			}
			return mkStr(b)
		}
	}
	I[R+"String"] = str(true)
	I[R+"RatString"] = str(false)

	I["math/big.NewInt"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		return m.newBig(&bigP{t: m.term(a[0])})
	}
	ibin := func(f func(m *M, a, b *Term) *Term) intrinsic {
		return func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
			return m.setBig(a[0], f(m, m.bint(a[1]), m.bint(a[2])))
		}
	}
	I[B+"Add"] = ibin(func(m *M, a, b *Term) *Term { return m.ctx.Add(a, b) })
	I[B+"Sub"] = ibin(func(m *M, a, b *Term) *Term { return m.ctx.Sub(a, b) })
	I[B+"Mul"] = ibin(func(m *M, a, b *Term) *Term { return m.ctx.Mul(a, b) })
	cdiv := func(m *M, b *Term) *big.Int {
		if !m.nonZero(b) {
			m.bigPanic("division by zero")
		}
		d, ok := concBig(b)
		if !ok {
			d = big.NewInt(m.forkInt(b, 64))
		}
		return d
	}
	// dividing makes a denominator concrete
	dbin := func(f func(m *M, a, b *Term) *Term) intrinsic {
		return func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
			m.fixDen(a[1])
			m.fixDen(a[2])
			return m.setBig(a[0], f(m, m.bint(a[1]), m.bint(a[2])))
		}
	}
	I[B+"Quo"] = dbin(func(m *M, a, b *Term) *Term { return m.truncDiv(a, cdiv(m, b)) })
	I[B+"Rem"] = dbin(func(m *M, a, b *Term) *Term { return m.truncRem(a, cdiv(m, b)) })
	euclid := func(m *M, a, b *Term) (*Term, *Term) {
		d := cdiv(m, b)
		ad := new(big.Int).Abs(d)
		q := m.ctx.Div(a, ad)
		if d.Sign() < 0 {
			q = m.ctx.Neg(q)
		}
		return q, m.ctx.Mod(a, ad)
	}
	I[B+"Div"] = dbin(func(m *M, a, b *Term) *Term { q, _ := euclid(m, a, b); return q })
	I[B+"Mod"] = dbin(func(m *M, a, b *Term) *Term { _, r := euclid(m, a, b); return r })
	I[B+"DivMod"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		m.fixDen(a[1])
		m.fixDen(a[2])
		q, r := euclid(m, m.bint(a[1]), m.bint(a[2]))
		m.setBig(a[0], q)
		m.setBig(a[3], r)
		return Tuple{a[0], a[3]}
	}
	I[B+"QuoRem"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		m.fixDen(a[1])
		m.fixDen(a[2])
		x := m.bint(a[1])
		d := cdiv(m, m.bint(a[2]))
		q := m.truncDiv(x, d)
		m.setBig(a[3], m.truncRem(x, d))
		m.setBig(a[0], q)
		return Tuple{a[0], a[3]}
	}
	I[B+"GCD"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		m.fixDen(a[3])
		m.fixDen(a[4])
		x, ok1 := concBig(m.bint(a[3]))
		y, ok2 := concBig(m.bint(a[4]))
		if !ok1 || !ok2 {
			panic(unsupported{"symbolic GCD"})
		}
		return m.setBig(a[0], m.ctx.IntBig(new(big.Int).GCD(nil, nil, x, y)))
	}
	I[B+"Exp"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		x, ok1 := concBig(m.bint(a[1]))
		y, ok2 := concBig(m.bint(a[2]))
		if !ok1 || !ok2 {
			panic(unsupported{"symbolic Exp"})
		}
		var mod *big.Int
		if p, ok := a[3].(*Val); ok && p != nil {
			mod, _ = concBig(m.bint(a[3]))
		}
		return m.setBig(a[0], m.ctx.IntBig(new(big.Int).Exp(x, y, mod)))
	}
	I[B+"Neg"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return m.setBig(a[0], m.ctx.Neg(m.bint(a[1]))) }
	I[B+"Abs"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		t := m.bint(a[1])
		return m.setBig(a[0], m.ctx.Ite(m.ctx.Lt(t, m.ctx.Int(0)), m.ctx.Neg(t), t))
	}
	I[B+"Set"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		m.fixDen(a[1])
		return m.setBig(a[0], m.bint(a[1]))
	}
	I[B+"SetInt64"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return m.setBig(a[0], m.term(a[1])) }
	I[B+"SetUint64"] = I[B+"SetInt64"]
	I[B+"SetString"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		s, ok := a[1].(string)
		if !ok {
			return m.symIntString(a[0], strBytes(a[1]), concI(a[2]))
		}
		r, good := new(big.Int).SetString(s, int(a[2].(int64)))
		if !good {
			return Tuple{(*Val)(nil), false}
		}
		m.setBig(a[0], m.ctx.IntBig(r))
		return Tuple{a[0], true}
	}
	I[B+"Sign"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return m.bsign(a[0]) }
	I[B+"Cmp"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		x, y := m.bigp(a[0]), m.bigp(a[1])
		// comparison of a numerator with zero needs no reduction
		if x.num != nil && y.t != nil && y.t.isConst() && y.t.c.Sign() == 0 {
			return m.signOf(x.num)
		}
		return m.cmpOf(m.bint(a[0]), m.bint(a[1]))
	}
	I[B+"CmpAbs"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		ab := func(t *Term) *Term { return m.ctx.Ite(m.ctx.Lt(t, m.ctx.Int(0)), m.ctx.Neg(t), t) }
		return m.cmpOf(ab(m.bint(a[0])), ab(m.bint(a[1])))
	}
	I[B+"Int64"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return m.intVal(2+4, m.bint(a[0])) }
	I[B+"Uint64"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return m.intVal(11, m.bint(a[0])) }
	I[B+"IsInt64"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		t := m.bint(a[0])
		lo, hi := kindRange(6)
		return m.boolVal(m.ctx.And(m.ctx.Le(m.ctx.IntBig(lo), t), m.ctx.Le(t, m.ctx.IntBig(hi))))
	}
	I[B+"String"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		if p, ok := a[0].(*Val); ok && p == nil {
			return "<nil>"
		}
		return mkStr(m.intDecimal(m.bint(a[0])))
	}
	I[B+"Text"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		if b, ok := a[1].(int64); !ok || b != 10 {
			if v, ok := concBig(m.bint(a[0])); ok {
				return v.Text(int(b))
			}
			panic(unsupported{"Int.Text base"})
		}
		return mkStr(m.intDecimal(m.bint(a[0])))
	}
	I[B+"BitLen"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		m.fixDen(a[0])
		v, ok := concBig(m.bint(a[0]))
		if !ok {
			x, c := m.bint(a[0]), m.ctx
			for _, k := range []int{31, 63, 127} {
				p := c.IntBig(new(big.Int).Lsh(big.NewInt(1), uint(k)))
				if !m.branch(c.And(c.Lt(x, p), c.Lt(c.Neg(p), x))) {
					continue
				}
				n := c.Int(0)
				for i := 0; i < k; i++ {
					q := c.IntBig(new(big.Int).Lsh(big.NewInt(1), uint(i)))
					n = c.Add(n, c.Ite(c.And(c.Lt(x, q), c.Lt(c.Neg(q), x)), c.Int(0), c.Int(1)))
				}
				return m.intVal(types.Int, n)
			}
			panic(unsupported{"symbolic BitLen"})
		}
		return int64(v.BitLen())
	}
	I[B+"ProbablyPrime"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		m.fixDen(a[0])
		v, ok := concBig(m.bint(a[0]))
		if !ok {
			panic(unsupported{"symbolic prime"})
		}
		return v.ProbablyPrime(20)
	}
}

// symRatString parses a symbolic decimal "[+-]digits[.digits]".
func (m *M) symRatString(z, s Val) Val {
	b := strBytes(s)
	c := m.ctx
	i := 0
	bad := Tuple{(*Val)(nil), false}
	is := func(v Val, ch byte) bool { return m.branch(c.Eq(m.term(v), c.Int(int64(ch)))) }
	neg := false
	if len(b) == 0 {
		return bad
	}
	if is(b[0], '-') {
		neg = true
		i++
	} else if is(b[0], '+') {
		i++
	}
	val := c.Int(0)
	scale := 0
	dot := false
	nd := 0
	for ; i < len(b); i++ {
		t := m.term(b[i])
		dig := c.And(c.Le(c.Int('0'), t), c.Le(t, c.Int('9')))
		if m.branch(dig) {
			d := c.Sub(t, c.Int('0'))
			val = c.Add(c.Scale(val, ratInt(10)), d)
			nd++
			if dot {
				scale++
			}
			continue
		}
		if !dot && is(b[i], '.') {
			dot = true
			continue
		}
		// other syntax (exponents, fractions, underscores) is not modelled
		set := "eEpP_/xXoObB"
		var os []*Term
		for j := 0; j < len(set); j++ {
			os = append(os, c.Eq(t, c.Int(int64(set[j]))))
		}
		if m.branch(c.Or(os...)) {
			panic(unsupported{"symbolic rational syntax"})
		}
		return bad
	}
	if nd == 0 {
		return bad
	}
	if neg {
		val = c.Neg(val)
	}
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(scale)), nil)
	m.setRat(z, c.Scale(c.ToReal(val), new(big.Rat).SetFrac(big.NewInt(1), p)))
	return Tuple{z, true}
}

var _ = strings.Join
