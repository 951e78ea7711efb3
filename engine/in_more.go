package main

// Further parts of the standard library, which a rewrite of the code may use.

import (
	"fmt"
	"go/types"
	"io/fs"
	"math"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
	"syscall"

	"golang.org/x/tools/go/ssa"
)

// deepEq is reflect.DeepEqual.
func (m *M) deepEq(a, b Val, t types.Type, depth int) *Term {
	c := m.ctx
	if depth > 40 {
		panic(unsupported{"DeepEqual of a deep value"})
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		x, ok1 := a.(Struct)
		y, ok2 := b.(Struct)
		if !ok1 || !ok2 {
			panic(unsupported{fmt.Sprintf("DeepEqual of %s", t)})
		}
		cs := []*Term{c.True}
		for i := range x {
			cs = append(cs, m.deepEq(x[i], y[i], u.Field(i).Type(), depth+1))
		}
		return c.And(cs...)
	case *types.Array:
		x, y := a.(Array), b.(Array)
		cs := []*Term{c.True}
		for i := range x {
			cs = append(cs, m.deepEq(x[i], y[i], u.Elem(), depth+1))
		}
		return c.And(cs...)
	case *types.Slice:
		x, y := sl(a), sl(b)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return c.False
		}
		cs := []*Term{c.True}
		for i := range x {
			cs = append(cs, m.deepEq(x[i], y[i], u.Elem(), depth+1))
		}
		return c.And(cs...)
	case *types.Map:
		x, _ := a.(*MapV)
		y, _ := b.(*MapV)
		if (x == nil) != (y == nil) {
			return c.False
		}
		if x == nil || x == y {
			return c.True
		}
		if x.n != y.n {
			return c.False
		}
		cs := []*Term{c.True}
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			o := m.mapFind(y, e.k)
			if o == nil {
				return c.False
			}
			cs = append(cs, m.deepEq(e.v, o.v, u.Elem(), depth+1))
		}
		return c.And(cs...)
	case *types.Pointer:
		x, ok1 := a.(*Val)
		y, ok2 := b.(*Val)
		if !ok1 || !ok2 {
			panic(unsupported{fmt.Sprintf("DeepEqual of %s", t)})
		}
		if x == y {
			return c.True
		}
		if x == nil || y == nil {
			return c.False
		}
		return m.deepEq(*x, *y, u.Elem(), depth+1)
	case *types.Interface:
		x, _ := a.(Iface)
		y, _ := b.(Iface)
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.False
		}
		return m.deepEq(x.v, y.v, x.t, depth+1)
	case *types.Signature:
		x, _ := a.(*Closure)
		y, _ := b.(*Closure)
		return c.Bool(x == nil && y == nil)
	}
	return m.eqVal(a, b)
}

// unwrapped are the errors directly below one.
func (m *M) unwrapped(c *frame, e Iface) []Iface {
	fn := m.hasMethod(e.t, "Unwrap")
	if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
		return nil
	}
	switch r := m.callFn(c, fn, []Val{e.v}, nil).(type) {
	case Iface:
		if r.t != nil {
			return []Iface{r}
		}
	case []Val:
		var o []Iface
		for _, x := range r {
			if i, ok := x.(Iface); ok && i.t != nil {
				o = append(o, i)
			}
		}
		return o
	}
	return nil
}

func (m *M) errorsIs(c *frame, e, t Iface) bool {
	if e.t == nil || t.t == nil {
		return e.t == nil && t.t == nil
	}
	if types.Identical(e.t, t.t) && types.Comparable(e.t) && m.branch(m.eqVal(e.v, t.v)) {
		return true
	}
	if strings.HasSuffix(e.t.String(), "syscall.Errno") {
		if n, ok := e.v.(uint64); ok {
			no := syscall.Errno(n)
			for name, want := range map[string]error{"ErrNotExist": fs.ErrNotExist, "ErrExist": fs.ErrExist, "ErrPermission": fs.ErrPermission} {
				if m.isOSErr(t, name) && no.Is(want) {
					return true
				}
			}
			return false
		}
	}
	if fn := m.hasMethod(e.t, "Is"); fn != nil && fn.Signature.Params().Len() == 1 && fn.Signature.Results().Len() == 1 {
		if m.branch(m.term(m.callFn(c, fn, []Val{e.v, t}, nil))) {
			return true
		}
	}
	for _, u := range m.unwrapped(c, e) {
		if m.errorsIs(c, u, t) {
			return true
		}
	}
	return false
}

// isOSErr says whether an error is one of the variables of internal/oserror.
func (m *M) isOSErr(t Iface, name string) bool {
	for _, pn := range []string{"internal/oserror", "io/fs", "os"} {
		pk := m.eng.prog.ImportedPackage(pn)
		if pk == nil || pk.Var(name) == nil {
			continue
		}
		p, ok := m.global(pk.Var(name)).(*Val)
		if !ok {
			continue
		}
		if g, ok := (*p).(Iface); ok && g.t != nil && types.Identical(g.t, t.t) && g.v == t.v {
			return true
		}
	}
	return false
}

func (m *M) errorsAs(c *frame, e Iface, elem types.Type, p *Val) bool {
	if e.t == nil {
		return false
	}
	if it, ok := elem.Underlying().(*types.Interface); ok {
		if types.Implements(e.t, it) {
			store(p, e)
			return true
		}
	} else if types.Identical(e.t, elem) {
		store(p, copyVal(e.v))
		return true
	}
	for _, u := range m.unwrapped(c, e) {
		if m.errorsAs(c, u, elem, p) {
			return true
		}
	}
	return false
}

// reAll are all the matches, at most n of them if it is not negative.
func (m *M) reAll(r *reObj, s []Val, n int) [][]int {
	var out [][]int
	prev := -1
	for pos := 0; pos <= len(s) && (n < 0 || len(out) < n); {
		a := m.reFind(r, s, pos)
		if a == nil {
			break
		}
		accept := true
		if a[1] == pos {
			// an empty match next to the last one does not count
			if a[0] == prev {
				accept = false
			}
			if pos < len(s) {
				_, w := m.decodeRune(s[pos:])
				pos += w
			} else {
				pos = len(s) + 1
			}
		} else {
			pos = a[1]
		}
		prev = a[1]
		if accept {
			out = append(out, a)
		}
	}
	return out
}

func (m *M) bitLen(v Val, max int) Val {
	if x, ok := v.(uint64); ok {
		return int64(bits.Len64(x))
	}
	t := m.term(v)
	for n := 0; n < max; n++ {
		if m.branch(m.ctx.Lt(t, m.ctx.IntBig(new(big.Int).Lsh(big.NewInt(1), uint(n))))) {
			return int64(n)
		}
	}
	return int64(max)
}

func init() {
	I := intrinsics
	I["reflect.DeepEqual"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		x, _ := a[0].(Iface)
		y, _ := a[1].(Iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		return m.boolVal(m.deepEq(x.v, y.v, x.t, 0))
	}
	I["errors.Is"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		e, _ := a[0].(Iface)
		t, _ := a[1].(Iface)
		return m.errorsIs(c, e, t)
	}
	I["errors.As"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		e, _ := a[0].(Iface)
		t, _ := a[1].(Iface)
		if t.t == nil {
			m.goPanicStr("errors: target cannot be nil")
		}
		pt, ok := t.t.Underlying().(*types.Pointer)
		p, ok2 := t.v.(*Val)
		if !ok || !ok2 || p == nil {
			m.goPanicStr("errors: target must be a non-nil pointer")
		}
		return m.errorsAs(c, e, pt.Elem(), p)
	}

	// ---- regexp ----
	X := "(*regexp.Regexp)."
	sub := func(s []Val, lo, hi int, str bool) Val {
		if lo < 0 {
			if str {
				return ""
			}
			return []Val(nil)
		}
		if str {
			return mkStr(s[lo:hi])
		}
		return append([]Val{}, s[lo:hi]...)
	}
	bytesIn := func(v Val, str bool) []Val {
		if str {
			return strBytes(v)
		}
		return sl(v)
	}
	for _, str := range []bool{true, false} {
		str, S := str, ""
		if str {
			S = "String"
		}
		I[X+"FindAll"+S] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
			s := bytesIn(a[1], str)
			var o []Val
			for _, c := range m.reAll(m.reOf(a[0]), s, int(concI(a[2]))) {
				o = append(o, sub(s, c[0], c[1], str))
			}
			return o
		}
		I[X+"FindAll"+S+"Index"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
			var o []Val
			for _, c := range m.reAll(m.reOf(a[0]), bytesIn(a[1], str), int(concI(a[2]))) {
				o = append(o, intList(c[:2]))
			}
			return o
		}
		I[X+"FindAll"+S+"Submatch"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
			s := bytesIn(a[1], str)
			var o []Val
			for _, c := range m.reAll(m.reOf(a[0]), s, int(concI(a[2]))) {
				var g []Val
				for i := 0; i+1 < len(c); i += 2 {
					g = append(g, sub(s, c[i], c[i+1], str))
				}
				o = append(o, g)
			}
			return o
		}
		I[X+"FindAll"+S+"SubmatchIndex"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
			var o []Val
			for _, c := range m.reAll(m.reOf(a[0]), bytesIn(a[1], str), int(concI(a[2]))) {
				o = append(o, intList(c))
			}
			return o
		}
		expand := func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
			var caps []int
			for _, x := range sl(a[4]) {
				caps = append(caps, int(concI(x)))
			}
			var tmpl string
			if str {
				tmpl = m.forkStr(a[2])
			} else {
				tmpl = m.forkStr(mkStr(sl(a[2])))
			}
			return m.expand(m.reOf(a[0]), append([]Val{}, sl(a[1])...), tmpl, bytesIn(a[3], str), caps)
		}
		I[X+"Expand"+S] = expand
	}
	I[X+"Match"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		return m.boolVal(m.reMatch(m.reOf(a[0]), sl(a[1])))
	}
	I[X+"Find"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		s := sl(a[1])
		c := m.reFind(m.reOf(a[0]), s, 0)
		if c == nil {
			return []Val(nil)
		}
		return append([]Val{}, s[c[0]:c[1]]...)
	}
	I[X+"FindIndex"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		c := m.reFind(m.reOf(a[0]), sl(a[1]), 0)
		if c == nil {
			return []Val(nil)
		}
		return intList(c[:2])
	}
	I[X+"FindSubmatch"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		s := sl(a[1])
		c := m.reFind(m.reOf(a[0]), s, 0)
		if c == nil {
			return []Val(nil)
		}
		var g []Val
		for i := 0; i+1 < len(c); i += 2 {
			g = append(g, sub(s, c[i], c[i+1], false))
		}
		return g
	}
	I[X+"FindSubmatchIndex"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		return intList(m.reFind(m.reOf(a[0]), sl(a[1]), 0))
	}
	asBytes := func(v Val) Val { return append([]Val{}, strBytes(v)...) }
	I[X+"ReplaceAll"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		src := sl(a[1])
		t := m.forkStr(mkStr(sl(a[2])))
		r := m.reOf(a[0])
		return asBytes(m.reReplace(r, mkStr(src), func(dst []Val, caps []int) []Val { return m.expand(r, dst, t, src, caps) }))
	}
	I[X+"ReplaceAllLiteral"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		return asBytes(m.reReplace(m.reOf(a[0]), mkStr(sl(a[1])), func(dst []Val, caps []int) []Val { return append(dst, sl(a[2])...) }))
	}
	I[X+"ReplaceAllFunc"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		src := sl(a[1])
		return asBytes(m.reReplace(m.reOf(a[0]), mkStr(src), func(dst []Val, caps []int) []Val {
			return append(dst, sl(m.call(c, a[2].(*Closure), []Val{append([]Val{}, src[caps[0]:caps[1]]...)}))...)
		}))
	}
	I[X+"SubexpIndex"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		return int64(m.reOf(a[0]).re.SubexpIndex(m.forkStr(a[1])))
	}
	I[X+"Longest"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { panic(unsupported{"Regexp.Longest"}) }
	I[X+"LiteralPrefix"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		s, full := m.reOf(a[0]).re.LiteralPrefix()
		return Tuple{s, full}
	}
	I[X+"Split"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		r := m.reOf(a[0])
		n := int(concI(a[2]))
		if n == 0 {
			return []Val(nil)
		}
		s := strBytes(a[1])
		if len(r.re.String()) > 0 && len(s) == 0 {
			return []Val{""}
		}
		var o []Val
		beg, end := 0, 0
		for _, c := range m.reAll(r, s, n) {
			if n > 0 && len(o) == n-1 {
				break
			}
			end = c[0]
			if c[1] != 0 {
				o = append(o, mkStr(s[beg:end]))
			}
			beg = c[1]
		}
		if end != len(s) {
			o = append(o, mkStr(s[beg:]))
		}
		return o
	}

	// ---- numbers ----
	half := big.NewRat(1, 2)
	toward := func(name string, nat func(float64) float64, add *big.Rat) {
		I["math."+name] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
			if x, ok := a[0].(float64); ok {
				return nat(x)
			}
			c, t := m.ctx, a[0].(*SymF).t
			k := c.Real(add)
			down := func(t *Term) *Term { return c.ToReal(c.Floor(c.Add(t, k))) }
			return m.floatVal(c.Ite(c.Lt(t, c.Real(ratZero)), c.Neg(down(c.Neg(t))), down(t)))
		}
	}
	toward("Trunc", math.Trunc, ratZero)
	toward("Round", math.Round, half)
	I["strconv.AppendInt"] = func(m *M, f *frame, fn *ssa.Function, a []Val) Val {
		return append(sl(a[0]), strBytes(I["strconv.FormatInt"](m, f, fn, a[1:]))...)
	}
	I["strconv.FormatUint"] = func(m *M, f *frame, fn *ssa.Function, a []Val) Val {
		if x, ok := a[0].(uint64); ok {
			return strconv.FormatUint(x, int(concI(a[1])))
		}
		return I["strconv.FormatInt"](m, f, fn, a)
	}
	for ap, sp := range map[string]string{"fmt.Append": "fmt.Sprint", "fmt.Appendf": "fmt.Sprintf", "fmt.Appendln": "fmt.Sprintln"} {
		sp := sp
		I[ap] = func(m *M, f *frame, fn *ssa.Function, a []Val) Val {
			return append(sl(a[0]), strBytes(I[sp](m, f, fn, a[1:]))...)
		}
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		I["sync/atomic.CompareAndSwap"+ty] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
			p := a[0].(*Val)
			if m.branch(m.eqVal(*p, a[1])) {
				*p = a[2]
				return true
			}
			return false
		}
		I["sync/atomic.Load"+ty] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return *(a[0].(*Val)) }
		I["sync/atomic.Store"+ty] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { *(a[0].(*Val)) = a[1]; return nil }
	}
	none := func(m *M, _ *frame, fn *ssa.Function, _ []Val) Val { return zeroResult(fn) }
	for _, n := range []string{"Add", "Done", "Wait"} {
		I["(*sync.WaitGroup)."+n] = none
	}
	I["(*sync.WaitGroup).Go"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		m.call(c, a[1].(*Closure), nil)
		return nil
	}
	I["math.Modf"] = func(m *M, c *frame, fn *ssa.Function, a []Val) Val {
		t := I["math.Trunc"](m, c, fn, a)
		if x, ok := a[0].(float64); ok {
			i, f := math.Modf(x)
			return Tuple{i, f}
		}
		return Tuple{t, m.floatVal(m.ctx.Sub(m.realOf(a[0]), m.realOf(t)))}
	}
	smap := func(m *M, p Val) *MapV {
		k := fmt.Sprintf("sync.Map %p", p.(*Val))
		mp, ok := m.state[k].(*MapV)
		if !ok {
			mp = newMap()
			m.state[k] = mp
		}
		return mp
	}
	SM := "(*sync.Map)."
	I[SM+"Load"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		if e := m.mapFind(smap(m, a[0]), a[1]); e != nil {
			return Tuple{e.v, true}
		}
		return Tuple{Iface{}, false}
	}
	I[SM+"Store"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { m.mapSet(smap(m, a[0]), a[1], a[2]); return nil }
	I[SM+"LoadOrStore"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		if e := m.mapFind(smap(m, a[0]), a[1]); e != nil {
			return Tuple{e.v, true}
		}
		m.mapSet(smap(m, a[0]), a[1], a[2])
		return Tuple{a[2], false}
	}
	I[SM+"Delete"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { m.mapDel(smap(m, a[0]), a[1]); return nil }
	I[SM+"Range"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		for _, e := range append([]*mapEnt{}, smap(m, a[0]).ents...) {
			if !e.dead && !m.branch(m.term(m.call(c, a[1].(*Closure), []Val{e.k, e.v}))) {
				break
			}
		}
		return nil
	}
	for _, n := range []string{"ErrNotExist", "ErrExist", "ErrPermission", "ErrInvalid", "ErrClosed"} {
		n := n
		specialGlobals["os."+n] = func(m *M) Val {
			return *(m.global(m.eng.prog.ImportedPackage("io/fs").Var(n)).(*Val))
		}
	}

	// ---- bits ----
	I["math/bits.Len"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return m.bitLen(a[0], 64) }
	I["math/bits.Len64"] = I["math/bits.Len"]

	// ---- scanning of texts ----
	scan := func(kind string) intrinsic {
		return func(m *M, c *frame, fn *ssa.Function, a []Val) Val {
			src := m.forkStr(a[0])
			rest, format := sl(a[len(a)-1]), ""
			if kind == "f" {
				format = m.forkStr(a[1])
			}
			var dst []interface{}
			var put []func()
			for _, x := range rest {
				i, _ := x.(Iface)
				if i.t == nil {
					panic(unsupported{"scan into nil"})
				}
				pt, ok := i.t.Underlying().(*types.Pointer)
				p, ok2 := i.v.(*Val)
				if !ok || !ok2 || m.hasMethod(i.t, "Scan") != nil {
					panic(unsupported{"scan into " + i.t.String()})
				}
				b, ok := pt.Elem().Underlying().(*types.Basic)
				if !ok {
					panic(unsupported{"scan into " + i.t.String()})
				}
				switch {
				case b.Kind() == types.Int32:
					var d int32
					d0 := m.scanInt(*p)
					d = int32(d0)
					dst = append(dst, &d)
					put = append(put, func() { *p = int64(d) })
				case b.Info()&types.IsString != 0:
					d := m.forkStr(*p)
					dst = append(dst, &d)
					put = append(put, func() { *p = d })
				case b.Kind() == types.Int || b.Kind() == types.Int64:
					d := m.scanInt(*p)
					dst = append(dst, &d)
					put = append(put, func() { *p = d })
				case b.Kind() == types.Uint || b.Kind() == types.Uint64:
					d, ok := (*p).(uint64)
					if !ok {
						panic(unsupported{"scan over a symbolic number"})
					}
					dst = append(dst, &d)
					put = append(put, func() { *p = d })
				case b.Kind() == types.Float64:
					d, ok := (*p).(float64)
					if !ok {
						panic(unsupported{"scan over a symbolic number"})
					}
					dst = append(dst, &d)
					put = append(put, func() { *p = d })
				default:
					panic(unsupported{"scan into " + i.t.String()})
				}
			}
			var n int
			var err error
			switch kind {
			case "f":
				n, err = fmt.Sscanf(src, format, dst...)
			case "ln":
				n, err = fmt.Sscanln(src, dst...)
			default:
				n, err = fmt.Sscan(src, dst...)
			}
			for _, f := range put {
				f()
			}
			var e Val = Iface{}
			if err != nil {
				if err.Error() == "EOF" {
					e = m.ioEOF()
				} else {
					e = m.newError(err.Error())
				}
			}
			return Tuple{int64(n), e}
		}
	}
	I["fmt.Sscanf"] = scan("f")
	I["fmt.Sscan"] = scan("")
	I["fmt.Sscanln"] = scan("ln")

	// ---- writing JSON ----
	type encoder struct {
		w              Val
		prefix, indent string
		raw            bool
	}
	J := "encoding/json."
	I[J+"NewEncoder"] = func(m *M, c *frame, fn *ssa.Function, a []Val) Val {
		if m.pure > 0 {
			panic(impure{"json"})
		}
		var v Val = &encoder{w: a[0]}
		return &v
	}
	E := "(*encoding/json.Encoder)."
	enc := func(v Val) *encoder { return (*(v.(*Val))).(*encoder) }
	I[E+"SetIndent"] = func(m *M, c *frame, fn *ssa.Function, a []Val) Val {
		enc(a[0]).prefix, enc(a[0]).indent = m.forkStr(a[1]), m.forkStr(a[2])
		return nil
	}
	I[E+"SetEscapeHTML"] = func(m *M, c *frame, fn *ssa.Function, a []Val) Val {
		enc(a[0]).raw = !m.branch(m.term(a[1]))
		return nil
	}
	I[E+"Encode"] = func(m *M, c *frame, fn *ssa.Function, a []Val) Val {
		if m.pure > 0 {
			panic(impure{"json"})
		}
		e := enc(a[0])
		b, err := func() ([]Val, Val) {
			m.jsonRaw = e.raw
			defer func() { m.jsonRaw = false }()
			return m.jsonMarshal(c, a[1])
		}()
		if x := err.(Iface); x.t != nil {
			return err
		}
		if e.prefix != "" || e.indent != "" {
			b = m.jsonIndent(b, e.prefix, e.indent)
		}
		w, _ := e.w.(Iface)
		if w.t == nil {
			m.nilDeref()
		}
		wr := m.hasMethod(w.t, "Write")
		if wr == nil {
			panic(unsupported{"Encoder writing to " + w.t.String()})
		}
		r := m.callFn(c, wr, []Val{w.v, append(b, uint64('\n'))}, nil).(Tuple)
		return r[1]
	}
	bufWrite := func(m *M, c *frame, dst Val, b []Val) {
		pk := m.eng.typ("bytes", "Buffer")
		fn := m.hasMethod(types.NewPointer(pk), "Write")
		m.callFn(c, fn, []Val{dst, b}, nil)
	}
	parsed := func(m *M, b []Val, f func()) (err Val) {
		defer func() {
			if e := recover(); e != nil {
				x, ok := e.(jsonFail)
				if !ok {
					panic(e)
				}
				err = x.err
			}
		}()
		m.jsonParse(b, true)
		f()
		return Iface{}
	}
	I[J+"Indent"] = func(m *M, c *frame, fn *ssa.Function, a []Val) Val {
		return parsed(m, sl(a[1]), func() {
			bufWrite(m, c, a[0], m.jsonIndent(sl(a[1]), m.forkStr(a[2]), m.forkStr(a[3])))
		})
	}
	I[J+"Compact"] = func(m *M, c *frame, fn *ssa.Function, a []Val) Val {
		return parsed(m, sl(a[1]), func() { bufWrite(m, c, a[0], m.jsonCompact(sl(a[1]))) })
	}
}

// scanInt makes a number concrete, one path for each value.
func (m *M) scanInt(v Val) int64 {
	if x, ok := v.(int64); ok {
		return x
	}
	panic(unsupported{"scan over a symbolic number"})
}

// symIntString reads an integer of symbolic characters.
func (m *M) symIntString(z Val, b []Val, base int64) Val {
	bad := Tuple{(*Val)(nil), false}
	if base != 10 {
		s := m.forkStr(mkStr(b))
		r, ok := new(big.Int).SetString(s, int(base))
		if !ok {
			return bad
		}
		m.setBig(z, m.ctx.IntBig(r))
		return Tuple{z, true}
	}
	c := m.ctx
	neg := false
	if len(b) > 0 {
		if m.byteIs(b[0], '-') {
			neg, b = true, b[1:]
		} else if m.byteIs(b[0], '+') {
			b = b[1:]
		}
	}
	if len(b) == 0 {
		return bad
	}
	val := c.Int(0)
	for _, x := range b {
		if !m.byteIn(x, '0', '9') {
			return bad
		}
		val = c.Add(c.Scale(val, big.NewRat(10, 1)), c.Sub(m.term(x), c.Int('0')))
	}
	if neg {
		val = c.Neg(val)
	}
	m.setBig(z, val)
	return Tuple{z, true}
}
