package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a target value:
//
//	bool | *Term(SBool)          booleans
//	int64 | *Term(SInt)          signed integers
//	uint64 | *Term(SInt)         unsigned integers (incl. uintptr)
//	float64 | *SymF              floats (SymF: exactly known real)
//	string | *SymStr             strings (SymStr: concrete length, symbolic bytes)
//	*Val                         pointers (address of a memory slot)
//	Struct, Array, []Val         aggregates; slices share backing arrays
//	*MapV, Iface, *Closure, Tuple, *ChanV
type Val = interface{}

type Struct []Val
type Array []Val
type Tuple []Val

type SymF struct{ t *Term }
type SymStr struct{ b []Val }

type Iface struct {
	t types.Type
	v Val
}

type Closure struct {
	fn   *ssa.Function
	env  []Val
	host func(m *M, args []Val) Val
	bi   *ssa.Builtin
}

type mapEnt struct {
	k, v Val
	dead bool
}

type MapV struct {
	ents []*mapEnt
	idx  map[interface{}]*mapEnt // concrete keys
	nsym int                     // live entries with symbolic keys
	n    int
}

type ChanV struct {
	buf    []Val
	cap    int
	closed bool
}

type mapIter struct {
	m    *MapV
	ord  []*mapEnt
	i    int
	seen int // number of m.ents already covered
}

type strIter struct {
	b []Val
	i int
}

func isSignedKind(k types.BasicKind) bool {
	switch k {
	case types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.UntypedInt, types.UntypedRune:
		return true
	}
	return false
}

func intWidth(k types.BasicKind) uint {
	switch k {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func isIntType(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsInteger != 0
}
func isFloatType(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsFloat != 0
}
func isStringType(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsString != 0
}
func isBoolType(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsBoolean != 0
}

func wrapConc(k types.BasicKind, v int64) Val {
	w := intWidth(k)
	if isSignedKind(k) {
		sh := 64 - w
		return v << sh >> sh
	}
	u := uint64(v)
	if w < 64 {
		u &= (1 << w) - 1
	}
	return u
}

func zero(t types.Type) Val {
	switch t := t.(type) {
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			return (*Val)(nil)
		}
		if t.Kind() == types.UntypedNil {
			return nil
		}
		switch {
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			if isSignedKind(t.Kind()) {
				return int64(0)
			}
			return uint64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		case t.Info()&types.IsString != 0:
			return ""
		}
	case *types.Pointer:
		return (*Val)(nil)
	case *types.Array:
		a := make(Array, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Named, *types.Alias, *types.TypeParam:
		return zero(t.Underlying())
	case *types.Interface:
		return Iface{}
	case *types.Slice:
		return []Val(nil)
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	}
	panic(unsupported{fmt.Sprintf("zero of %T %v", t, t)})
}

func copyVal(v Val) Val {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	}
	return v
}

// store writes v into *p keeping the addresses of sub-slots stable.
func store(p *Val, v Val) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(v) {
			for i := range v {
				store(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(v) {
			for i := range v {
				store(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

// ---- strings ----

func strBytes(v Val) []Val {
	switch v := v.(type) {
	case string:
		b := make([]Val, len(v))
		for i := 0; i < len(v); i++ {
			b[i] = uint64(v[i])
		}
		return b
	case *SymStr:
		return v.b
	}
	panic(unsupported{fmt.Sprintf("strBytes %T", v)})
}

func mkStr(b []Val) Val {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			return &SymStr{append([]Val{}, b...)}
		}
	}
	o := make([]byte, len(b))
	for i, x := range b {
		o[i] = byte(x.(uint64))
	}
	return string(o)
}

func strLen(v Val) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	}
	panic(unsupported{fmt.Sprintf("strLen %T", v)})
}

func strConcat(a, b Val) Val {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	return mkStr(append(append([]Val{}, strBytes(a)...), strBytes(b)...))
}

func strSlice(v Val, lo, hi int) Val {
	switch v := v.(type) {
	case string:
		return v[lo:hi]
	case *SymStr:
		return mkStr(v.b[lo:hi])
	}
	panic("strSlice")
}

// ---- terms of values ----

func (m *M) term(v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case int64:
		return m.ctx.Int(v)
	case uint64:
		if v <= math.MaxInt64 {
			return m.ctx.Int(int64(v))
		}
		return m.ctx.IntBig(new(big.Int).SetUint64(v))
	case bool:
		return m.ctx.Bool(v)
	}
	panic(unsupported{fmt.Sprintf("term of %T", v)})
}

func (m *M) boolVal(t *Term) Val {
	if t.isConst() {
		return t.b
	}
	return t
}

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

func kindRange(k types.BasicKind) (lo, hi *big.Int) {
	w := intWidth(k)
	if isSignedKind(k) {
		hi = new(big.Int).Lsh(big.NewInt(1), w-1)
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, big.NewInt(1))
		return
	}
	hi = new(big.Int).Lsh(big.NewInt(1), w)
	hi.Sub(hi, big.NewInt(1))
	return new(big.Int), hi
}

type kr struct{ lo, hi *big.Rat }

var kindRangesTab = func() map[types.BasicKind]kr {
	r := map[types.BasicKind]kr{}
	for k := types.Int; k <= types.Uintptr; k++ {
		a, b := kindRange(k)
		r[k] = kr{new(big.Rat).SetInt(a), new(big.Rat).SetInt(b)}
	}
	return r
}()

// intVal converts a mathematical integer term to a value of kind k, inserting
// the machine wrap-around where the interval does not exclude it.
func (m *M) intVal(k types.BasicKind, t *Term) Val {
	if t.isConst() {
		n := t.c.Num()
		if n.IsInt64() {
			return wrapConc(k, n.Int64())
		}
		x := new(big.Int).Mod(n, two64)
		return wrapConc(k, int64(x.Uint64()))
	}
	r := kindRangesTab[k]
	if t.lo != nil && t.hi != nil && t.lo.Cmp(r.lo) >= 0 && t.hi.Cmp(r.hi) <= 0 {
		return t
	}
	w := new(big.Int).Lsh(big.NewInt(1), intWidth(k))
	if isSignedKind(k) {
		half := m.ctx.IntBig(new(big.Int).Lsh(big.NewInt(1), intWidth(k)-1))
		return m.intVal2(k, m.ctx.Sub(m.ctx.Mod(m.ctx.Add(t, half), w), half))
	}
	return m.intVal2(k, m.ctx.Mod(t, w))
}
func (m *M) intVal2(k types.BasicKind, t *Term) Val {
	if t.isConst() {
		return m.intVal(k, t)
	}
	return t
}

func (m *M) realOf(v Val) *Term {
	switch v := v.(type) {
	case *SymF:
		return v.t
	case float64:
		if math.IsNaN(v) || math.IsInf(v, 0) {
			panic(unsupported{"NaN/Inf with symbolic float"})
		}
		return m.ctx.Real(new(big.Rat).SetFloat64(v))
	}
	panic(unsupported{fmt.Sprintf("real of %T", v)})
}

// exactF: a real term known exactly representable as float64.
func (m *M) floatVal(t *Term) Val {
	if t.isConst() {
		f, _ := t.c.Float64()
		return f
	}
	return &SymF{t}
}

func isSymVal(v Val) bool {
	switch v := v.(type) {
	case *Term, *SymStr, *SymF:
		return true
	case Struct:
		for _, x := range v {
			if isSymVal(x) {
				return true
			}
		}
	case Array:
		for _, x := range v {
			if isSymVal(x) {
				return true
			}
		}
	case Iface:
		return isSymVal(v.v)
	}
	return false
}

// concrete map key
func hashKey(v Val) (interface{}, bool) {
	switch v := v.(type) {
	case bool, int64, uint64, float64, string:
		return v, true
	case *Val, *MapV, *ChanV, *Closure:
		return v, true
	case Iface:
		if v.t == nil {
			return "nil-iface", true
		}
		k, ok := hashKey(v.v)
		if !ok {
			return nil, false
		}
		return "if:" + v.t.String() + fmt.Sprintf(":%T:%v", k, k), true
	case Struct:
		return aggKey(v)
	case Array:
		return aggKey(v)
	}
	return nil, false
}

func aggKey(v []Val) (interface{}, bool) {
	var sb strings.Builder
	for _, x := range v {
		k, ok := hashKey(x)
		if !ok {
			return nil, false
		}
		s := fmt.Sprintf("%v", k)
		fmt.Fprintf(&sb, "%T:%d:%s|", k, len(s), s)
	}
	return "agg:" + sb.String(), true
}

// strLess builds a < b over byte vectors as one boolean term.
func (m *M) strLess(a, b Val) *Term {
	x, y := strBytes(a), strBytes(b)
	c := m.ctx
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	// process chunks from the left so fixed-width numerals compare numerically
	type chunk struct{ lt, eq *Term }
	var chs []chunk
	i := 0
	for i < n {
		if x[i] == y[i] {
			i++
			continue
		}
		if lt, eq, w := m.numChunk(x, y, i, n); w > 0 {
			chs = append(chs, chunk{lt, eq})
			i += w
			continue
		}
		tx, ty := m.term(x[i]), m.term(y[i])
		chs = append(chs, chunk{c.Lt(tx, ty), c.Eq(tx, ty)})
		i++
	}
	res := c.Bool(len(x) < len(y))
	for j := len(chs) - 1; j >= 0; j-- {
		res = c.Or(chs[j].lt, c.And(chs[j].eq, res))
	}
	return res
}

// numChunk recognises equal-width printed numerals at position i in both
// strings and compares the numbers instead of the digits.
func (m *M) numChunk(x, y []Val, i, n int) (lt, eq *Term, w int) {
	if isHexCh(x[i]) || isHexCh(y[i]) {
		ux, wx := m.hexRun(x, i)
		uy, wy := m.hexRun(y, i)
		if ux == nil && uy != nil {
			ux, wx = m.hexConst(x, i, wy)
		}
		if uy == nil && ux != nil {
			uy, wy = m.hexConst(y, i, wx)
		}
		if ux != nil && uy != nil && wx == wy {
			return m.ctx.Lt(ux, uy), m.ctx.Eq(ux, uy), wx
		}
		return nil, nil, 0
	}
	ux, wx := m.numeralAt(x, i, n)
	uy, wy := m.numeralAt(y, i, n)
	w = wx
	if wy < w {
		w = wy
	}
	if ux == nil && uy == nil {
		return nil, nil, 0
	}
	if ux == nil {
		ux, wx = constNumeral(m, x, i, wy)
	}
	if uy == nil {
		uy, wy = constNumeral(m, y, i, wx)
	}
	if ux == nil || uy == nil || wx != wy || wx < 2 {
		return nil, nil, 0
	}
	return m.ctx.Lt(ux, uy), m.ctx.Eq(ux, uy), wx
}

func constNumeral(m *M, x []Val, i, w int) (*Term, int) {
	if i+w > len(x) {
		return nil, 0
	}
	s := ""
	for j := i; j < i+w; j++ {
		b, ok := x[j].(uint64)
		if !ok || b < '0' || b > '9' {
			return nil, 0
		}
		s += string(rune(b))
	}
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return nil, 0
	}
	return m.ctx.IntBig(n), w
}

func isHexCh(v Val) bool {
	t, ok := v.(*Term)
	return ok && t.op == OHexCh
}

func hexDigit(v Val) (int64, bool) {
	b, ok := v.(uint64)
	switch {
	case !ok:
		return 0, false
	case b >= '0' && b <= '9':
		return int64(b - '0'), true
	case b >= 'a' && b <= 'f':
		return int64(b-'a') + 10, true
	}
	return 0, false
}

// hexRun: the bytes from i on are constant hex digits followed by all the
// remaining hex digits of one term; returns the number they spell and the
// number of digits.
func (m *M) hexRun(x []Val, i int) (*Term, int) {
	c := m.ctx
	pre := new(big.Int)
	j := i
	for j < len(x) && !isHexCh(x[j]) {
		d, ok := hexDigit(x[j])
		if !ok {
			return nil, 0
		}
		pre.Lsh(pre, 4)
		pre.Add(pre, big.NewInt(d))
		j++
	}
	if j == len(x) {
		return nil, 0
	}
	h := x[j].(*Term)
	u, k := h.args[0], h.pos
	if j+k >= len(x) || u.lo == nil || u.hi == nil || u.lo.Sign() < 0 {
		return nil, 0
	}
	sh := uint(4 * (k + 1))
	top := new(big.Int).Rsh(floorInt(u.lo), sh)
	if top.Cmp(new(big.Int).Rsh(floorInt(u.hi), sh)) != 0 {
		return nil, 0
	}
	for l := 1; l <= k; l++ {
		if t, ok := x[j+l].(*Term); !ok || t.op != OHexCh || t.args[0] != u || t.pos != k-l {
			return nil, 0
		}
	}
	top.Lsh(top, sh)
	pre.Lsh(pre, sh)
	return c.Add(c.Sub(u, c.IntBig(top)), c.IntBig(pre)), j - i + k + 1
}

func (m *M) hexConst(x []Val, i, w int) (*Term, int) {
	if i+w > len(x) {
		return nil, 0
	}
	n := new(big.Int)
	for j := i; j < i+w; j++ {
		d, ok := hexDigit(x[j])
		if !ok {
			return nil, 0
		}
		n.Lsh(n, 4)
		n.Add(n, big.NewInt(d))
	}
	return m.ctx.IntBig(n), w
}

// numeralAt: bytes i.. are exactly the decimal digits of some term u, all of
// its digits (u < 10^w).
func (m *M) numeralAt(x []Val, i, n int) (*Term, int) {
	val := m.ctx.Int(0)
	for j := i; j < n; j++ {
		t, ok := x[j].(*Term)
		if !ok {
			break
		}
		d := m.ctx.Sub(t, m.ctx.Int('0'))
		if d.lo == nil || d.lo.Sign() < 0 || d.hi == nil || d.hi.Cmp(ratInt(9)) > 0 {
			break
		}
		if _, _, ok := isDigit10(d); !ok {
			break
		}
		val = m.ctx.Add(m.ctx.Scale(val, ratInt(10)), d)
		if j > i {
			if _, l := parts(val); len(l) == 1 {
				if _, _, ok := isDigit10(l[0].a); !ok {
					return val, j - i + 1
				}
			}
		}
	}
	return nil, 0
}

func (m *M) strEq(a, b Val) *Term {
	if strLen(a) != strLen(b) {
		return m.ctx.False
	}
	x, y := strBytes(a), strBytes(b)
	var cs []*Term
	for i := 0; i < len(x); i++ {
		if x[i] == y[i] {
			continue
		}
		if isHexCh(x[i]) || isHexCh(y[i]) {
			if _, eq, w := m.numChunk(x, y, i, len(x)); w > 0 {
				if eq == m.ctx.False {
					return eq
				}
				cs = append(cs, eq)
				i += w - 1
				continue
			}
		}
		t := m.ctx.Eq(m.term(x[i]), m.term(y[i]))
		if t == m.ctx.False {
			return t
		}
		cs = append(cs, t)
	}
	return m.ctx.And(cs...)
}

// eqVal: equality of two values of the same static type.
func (m *M) eqVal(a, b Val) *Term {
	c := m.ctx
	switch x := a.(type) {
	case bool:
		if y, ok := b.(bool); ok {
			return c.Bool(x == y)
		}
		return c.Eq(m.term(a), m.term(b))
	case int64:
		if y, ok := b.(int64); ok {
			return c.Bool(x == y)
		}
		return c.Eq(m.term(a), m.term(b))
	case uint64:
		if y, ok := b.(uint64); ok {
			return c.Bool(x == y)
		}
		return c.Eq(m.term(a), m.term(b))
	case *Term:
		return c.Eq(x, m.term(b))
	case float64:
		if y, ok := b.(float64); ok {
			return c.Bool(x == y)
		}
		return c.Eq(m.realOf(a), m.realOf(b))
	case *SymF:
		return c.Eq(x.t, m.realOf(b))
	case string, *SymStr:
		return m.strEq(a, b)
	case Struct:
		y := b.(Struct)
		var cs []*Term
		for i := range x {
			cs = append(cs, m.eqVal(x[i], y[i]))
		}
		return c.And(cs...)
	case Array:
		y := b.(Array)
		var cs []*Term
		for i := range x {
			cs = append(cs, m.eqVal(x[i], y[i]))
		}
		return c.And(cs...)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(unsupported{"iface compare"})
		}
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.False
		}
		if !types.Comparable(x.t) {
			m.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return m.eqVal(x.v, y.v)
	case *Val:
		y, ok := b.(*Val)
		return c.Bool(ok && x == y)
	case *Closure:
		y, _ := b.(*Closure)
		return c.Bool(x == y)
	case *MapV:
		y, _ := b.(*MapV)
		return c.Bool(x == y)
	case *ChanV:
		y, _ := b.(*ChanV)
		return c.Bool(x == y)
	case []Val:
		y, _ := b.([]Val)
		if x == nil || y == nil {
			return c.Bool(x == nil && y == nil)
		}
		panic(unsupported{"slice compare"})
	case complex128:
		y, _ := b.(complex128)
		return c.Bool(x == y)
	}
	panic(unsupported{fmt.Sprintf("eqVal %T %T", a, b)})
}

// ---- maps ----

func newMap() *MapV { return &MapV{idx: map[interface{}]*mapEnt{}} }

func (m *M) mapFind(mp *MapV, k Val) *mapEnt {
	if mp == nil {
		return nil
	}
	if f, ok := k.(float64); ok && math.IsNaN(f) {
		return nil
	}
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		m.rtPanic("hash of unhashable type " + i.t.String())
	}
	h, conc := hashKey(k)
	if conc {
		if e, ok := mp.idx[h]; ok {
			return e
		}
		if mp.nsym == 0 {
			return nil
		}
	}
	for _, e := range mp.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, c2 := hashKey(e.k); c2 {
				continue
			}
		}
		if m.branch(m.eqVal(e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *M) mapSet(mp *MapV, k, v Val) {
	if mp == nil {
		m.goPanicStr("assignment to entry in nil map")
	}
	if e := m.mapFind(mp, k); e != nil {
		e.v = v
		return
	}
	e := &mapEnt{k: copyVal(k), v: v}
	mp.ents = append(mp.ents, e)
	mp.n++
	if h, ok := hashKey(k); ok {
		mp.idx[h] = e
	} else {
		mp.nsym++
	}
}

func (m *M) mapDel(mp *MapV, k Val) {
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	e.dead = true
	mp.n--
	if h, ok := hashKey(e.k); ok {
		delete(mp.idx, h)
	} else {
		mp.nsym--
	}
}
