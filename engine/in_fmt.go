package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var typString = types.Typ[types.String]
var typError = types.Universe.Lookup("error").Type()

type fmtFlags struct {
	minus, plus, sharp, space, zero bool
	wid, prec                       int
	hasWid                          bool
}

// fmtr is a symbolic model of package fmt's formatting.
type fmtr struct {
	m       *M
	out     []Val
	wrapped []Val
	english bool   // x/text message printer: grouped digits
	lang    string // its language
}

func (f *fmtr) str(s string) { f.out = append(f.out, strBytes(s)...) }

func (f *fmtr) pad(b []Val, fl fmtFlags, numeric bool) {
	if !fl.hasWid {
		f.out = append(f.out, b...)
		return
	}
	n := f.m.runeCount(b)
	if n >= fl.wid {
		f.out = append(f.out, b...)
		return
	}
	p := make([]Val, fl.wid-n)
	for i := range p {
		p[i] = uint64(' ')
	}
	if fl.minus {
		f.out = append(append(f.out, b...), p...)
		return
	}
	if fl.zero && numeric {
		for i := range p {
			p[i] = uint64('0')
		}
		if len(b) > 0 {
			if c, ok := b[0].(uint64); ok && (c == '-' || c == '+') {
				f.out = append(f.out, b[0])
				b = b[1:]
			}
		}
		f.out = append(append(f.out, p...), b...)
		return
	}
	f.out = append(append(f.out, p...), b...)
}

func (m *M) runeCount(b []Val) int {
	n := 0
	for i := 0; i < len(b); {
		_, w := m.decodeRune(b[i:])
		i += w
		n++
	}
	return n
}

func (m *M) hasMethod(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	return m.eng.methodByName(t, name)
}

func (f *fmtr) value(i Iface, verb byte, fl fmtFlags, depth int) {
	m := f.m
	if i.t == nil {
		if verb == 'v' || verb == 's' {
			if verb == 's' {
				f.pad(strBytes("%!s(<nil>)"), fl, false)
			} else {
				f.pad(strBytes("<nil>"), fl, false)
			}
			return
		}
		f.str("%!" + string(verb) + "(<nil>)")
		return
	}
	if verb == 'T' {
		f.pad(strBytes(types.TypeString(i.t, func(p *types.Package) string { return p.Name() })), fl, false)
		return
	}
	if verb == 'v' && fl.sharp {
		if fn := m.hasMethod(i.t, "GoString"); fn != nil {
			f.pad(strBytes(m.callFn(nil, fn, []Val{i.v}, nil)), fl, false)
			return
		}
		if b, ok := i.t.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			verb, fl.sharp = 'q', false
		} else if !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 || b.Info()&types.IsUnsigned != 0 {
			panic(unsupported{"%#v"})
		} else {
			fl.sharp = false
		}
	}
	if o, ok := i.v.(*opaque); ok {
		f.pad(strBytes(o.String()), fl, false)
		return
	}
	// big numbers implement their own formatting
	ts := i.t.String()
	if ts == "*math/big.Int" && (verb == 'd' || verb == 's' || verb == 'v') {
		if p := i.v.(*Val); p == nil {
			f.pad(strBytes("<nil>"), fl, false)
		} else {
			f.pad(m.intDecimal(m.bint(i.v)), fl, true)
		}
		return
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if !fl.sharp {
			for _, name := range []string{"Error", "String"} {
				fn := m.hasMethod(i.t, name)
				if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 || !isStringType(fn.Signature.Results().At(0).Type()) {
					continue
				}
				if p, ok := i.v.(*Val); ok && p == nil {
					if ts == "*math/big.Rat" {
						f.str("%!v(PANIC=String method: runtime error: invalid memory address or nil pointer dereference)")
						return
					}
					f.pad(strBytes("<nil>"), fl, false)
					return
				}
				r := m.callFn(nil, fn, []Val{i.v}, nil)
				f.strVerb(r, verb, fl)
				return
			}
		}
	}
	switch u := i.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			f.strVerb(i.v, verb, fl)
			return
		case u.Info()&types.IsBoolean != 0:
			b := i.v
			if t, ok := b.(*Term); ok {
				b = m.branch(t)
			}
			f.pad(strBytes(fmt.Sprint(b)), fl, false)
			return
		case u.Info()&types.IsInteger != 0:
			f.intVerb(i.v, u, verb, fl)
			return
		case u.Info()&types.IsFloat != 0:
			f.floatVerb(i.v, verb, fl)
			return
		}
	case *types.Slice:
		if eb := basicOf(u.Elem()); eb != nil && eb.Kind() == types.Byte && (verb == 's' || verb == 'q' || verb == 'x') {
			f.strVerb(mkStr(i.v.([]Val)), verb, fl)
			return
		}
		f.list(u.Elem(), i.v.([]Val), verb, fl, depth)
		return
	case *types.Array:
		f.list(u.Elem(), i.v.(Array), verb, fl, depth)
		return
	case *types.Pointer:
		p, _ := i.v.(*Val)
		if p == nil {
			f.pad(strBytes("<nil>"), fl, false)
			return
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Slice, *types.Map:
				f.str("&")
				f.value(Iface{u.Elem(), *p}, verb, fl, depth+1)
				return
			}
		}
		f.str("0xc000010000")
		return
	case *types.Struct:
		f.str("{")
		s, ok := i.v.(Struct)
		if !ok {
			panic(unsupported{"format of opaque struct " + ts})
		}
		for k := 0; k < u.NumFields(); k++ {
			if k > 0 {
				f.str(" ")
			}
			if fl.plus || fl.sharp {
				f.str(u.Field(k).Name() + ":")
			}
			f.elem(u.Field(k).Type(), s[k], verb, fl, depth+1)
		}
		f.str("}")
		return
	case *types.Map:
		mp, _ := i.v.(*MapV)
		f.str("map[")
		if mp != nil {
			ents := m.sortedEnts(mp)
			for k, e := range ents {
				if k > 0 {
					f.str(" ")
				}
				f.elem(u.Key(), e.k, verb, fl, depth+1)
				f.str(":")
				f.elem(u.Elem(), e.v, verb, fl, depth+1)
			}
		}
		f.str("]")
		return
	case *types.Signature, *types.Chan:
		f.str("0x123456")
		return
	}
	panic(unsupported{fmt.Sprintf("fmt %%%c of %s", verb, ts)})
}

func (m *M) sortedEnts(mp *MapV) []*mapEnt {
	var l []*mapEnt
	for _, e := range mp.ents {
		if !e.dead {
			l = append(l, e)
		}
	}
	for i := 1; i < len(l); i++ {
		for j := i; j > 0; j-- {
			var lt bool
			switch a := l[j].k.(type) {
			case string, *SymStr:
				lt = m.branch(m.strLess(a, l[j-1].k))
			case int64, uint64, *Term:
				lt = m.branch(m.ctx.Lt(m.term(a), m.term(l[j-1].k)))
			default:
				panic(unsupported{"sorting map keys"})
			}
			if !lt {
				break
			}
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return l
}

func (f *fmtr) elem(t types.Type, v Val, verb byte, fl fmtFlags, depth int) {
	if _, ok := t.Underlying().(*types.Interface); ok {
		i, _ := v.(Iface)
		f.value(i, verb, fl, depth)
		return
	}
	f.value(Iface{t, v}, verb, fl, depth)
}

func (f *fmtr) list(el types.Type, l []Val, verb byte, fl fmtFlags, depth int) {
	f.str("[")
	for k, v := range l {
		if k > 0 {
			f.str(" ")
		}
		f.elem(el, v, verb, fl, depth+1)
	}
	f.str("]")
}

func (f *fmtr) strVerb(v Val, verb byte, fl fmtFlags) {
	m := f.m
	switch verb {
	case 's', 'v':
		b := strBytes(v)
		if fl.prec >= 0 && fl.prec < len(b) {
			n := 0
			i := 0
			for i < len(b) && n < fl.prec {
				_, w := m.decodeRune(b[i:])
				i += w
				n++
			}
			b = b[:i]
		}
		f.pad(b, fl, false)
	case 'q':
		f.pad(m.quote(v), fl, false)
	case 'x', 'X':
		if s, ok := v.(string); ok {
			f.pad(strBytes(fmt.Sprintf("%"+string(verb), s)), fl, false)
			return
		}
		f.pad(strBytes(fmt.Sprintf("%"+string(verb), f.m.forkStr(v))), fl, false)
	default:
		f.str("%!" + string(verb) + "(string=")
		f.out = append(f.out, strBytes(v)...)
		f.str(")")
	}
}

// quote models strconv.Quote.
func (m *M) quote(v Val) []Val {
	if s, ok := v.(string); ok {
		return strBytes(strconv.Quote(s))
	}
	c := m.ctx
	out := []Val{uint64('"')}
	b := strBytes(v)
	for i := 0; i < len(b); i++ {
		t, ok := b[i].(*Term)
		if !ok {
			j := i
			for j < len(b) {
				if _, ok := b[j].(*Term); ok {
					break
				}
				j++
			}
			s, _ := mkStr(b[i:j]).(string)
			q := strconv.Quote(s)
			out = append(out, strBytes(q[1:len(q)-1])...)
			i = j - 1
			continue
		}
		esc := c.Or(c.Eq(t, c.Int('"')), c.Eq(t, c.Int('\\')))
		plain := c.And(c.Not(esc), c.Le(c.Int(32), t), c.Lt(t, c.Int(127)))
		rest := c.And(c.Not(esc), c.Not(plain))
		switch m.choose([]*Term{plain, esc, rest}) {
		case 0:
			out = append(out, t)
		case 1:
			out = append(out, uint64('\\'), t)
		case 2:
			k := m.forkInt(t, 256)
			if k >= 128 {
				panic(unsupported{"quoting symbolic non-ASCII"})
			}
			q := strconv.Quote(string([]byte{byte(k)}))
			out = append(out, strBytes(q[1:len(q)-1])...)
		}
	}
	return append(out, uint64('"'))
}

func (f *fmtr) intVerb(v Val, u *types.Basic, verb byte, fl fmtFlags) {
	m := f.m
	switch x := v.(type) {
	case int64, uint64:
		spec := "%"
		if fl.plus {
			spec += "+"
		}
		if fl.minus {
			spec += "-"
		}
		if fl.sharp {
			spec += "#"
		}
		if fl.space {
			spec += " "
		}
		if fl.zero {
			spec += "0"
		}
		if f.english && (verb == 'd' || verb == 'v') {
			b := strBytes(fmt.Sprintf("%d", x))
			if fl.plus && b[0].(uint64) != '-' {
				b = append([]Val{uint64('+')}, b...)
			}
			f.pad(f.group(b), fl, true)
			return
		}
		if fl.hasWid {
			spec += strconv.Itoa(fl.wid)
		}
		if fl.prec >= 0 {
			spec += "." + strconv.Itoa(fl.prec)
		}
		f.str(fmt.Sprintf(spec+string(verb), x))
		return
	case *Term:
		switch verb {
		case 'd', 'v':
			c := m.ctx
			if fl.zero && !fl.minus && fl.hasWid && !f.english && x.lo != nil && x.lo.Sign() >= 0 && x.hi != nil {
				f.out = append(f.out, m.digits(x, fl.wid)...)
				return
			}
			_ = c
			b := m.intDecimal(x)
			if fl.plus {
				if ch, ok := b[0].(uint64); !ok || ch != '-' {
					b = append([]Val{uint64('+')}, b...)
				}
			}
			if f.english {
				b = f.group(b)
			}
			f.pad(b, fl, true)
			return
		case 'x':
			b := m.hexDigits(x, fl)
			f.pad(b, fl, true)
			return
		case 'c':
			f.pad(strBytes(m.runeToStr(x)), fl, false)
			return
		case 'q', 'U':
			k := m.forkInt(x, 256)
			f.str(fmt.Sprintf("%"+string(verb), rune(k)))
			return
		}
	}
	panic(unsupported{fmt.Sprintf("%%%c of symbolic integer", verb)})
}

// hexDigits prints x in hex, width known by a fork on magnitude.
func (m *M) hexDigits(x *Term, fl fmtFlags) []Val {
	c := m.ctx
	neg := false
	if x.lo == nil || x.lo.Sign() < 0 {
		if m.branch(c.Lt(x, c.Int(0))) {
			neg = true
			x = c.Neg(x)
		}
	}
	if x.hi == nil {
		panic(unsupported{"hex of unbounded"})
	}
	max := (floorInt(x.hi).BitLen() + 3) / 4
	if max == 0 {
		max = 1
	}
	min := 1
	if fl.zero && fl.hasWid && !neg {
		min = fl.wid
	}
	if fl.zero && fl.hasWid && neg {
		min = fl.wid - 1
	}
	if max < min {
		max = min
	}
	var conds []*Term
	for w := min; w <= max; w++ {
		lo := new(big.Int).Lsh(big.NewInt(1), uint(4*(w-1)))
		hi := new(big.Int).Lsh(big.NewInt(1), uint(4*w))
		var cs []*Term
		if w > min {
			cs = append(cs, c.Le(c.IntBig(lo), x))
		}
		if w < max {
			cs = append(cs, c.Lt(x, c.IntBig(hi)))
		}
		conds = append(conds, c.And(cs...))
	}
	w := min + m.choose(conds)
	var out []Val
	if neg {
		out = append(out, uint64('-'))
	}
	for i := w - 1; i >= 0; i-- {
		h := c.HexCh(x, i)
		if h.isConst() {
			out = append(out, h.c.Num().Uint64())
		} else {
			out = append(out, h)
		}
	}
	return out
}

// groupEnglish inserts thousands separators.
// numbers: separators of thousands and decimals by language.
var numbers = map[string][2]string{
	"": {",", "."}, "en": {",", "."}, "de": {".", ","}, "nl": {".", ","}, "fr": {"\u00a0", ","},
	// not languages the catalogue has: English
	"xx": {",", "."}, "C": {",", "."},
}

func (f *fmtr) group(b []Val) []Val {
	i := 0
	if len(b) > 0 {
		if c, ok := b[0].(uint64); ok && (c == '-' || c == '+') {
			i = 1
		}
	}
	j := i
	for j < len(b) {
		if c, ok := b[j].(uint64); ok && (c < '0' || c > '9') {
			break
		}
		j++
	}
	out := append([]Val{}, b[:i]...)
	for k := i; k < j; k++ {
		if k > i && (j-k)%3 == 0 {
			out = append(out, strBytes(numbers[f.lang][0])...)
		}
		out = append(out, b[k])
	}
	for ; j < len(b); j++ {
		if c, ok := b[j].(uint64); ok && c == '.' {
			out = append(out, strBytes(numbers[f.lang][1])...)
		} else {
			out = append(out, b[j])
		}
	}
	return out
}

func (f *fmtr) floatVerb(v Val, verb byte, fl fmtFlags) {
	m := f.m
	switch x := v.(type) {
	case float64:
		spec := "%"
		if fl.plus {
			spec += "+"
		}
		if fl.minus && !f.english {
			spec += "-"
		}
		if fl.zero && !f.english {
			spec += "0"
		}
		if fl.hasWid && !f.english {
			spec += strconv.Itoa(fl.wid)
		}
		if fl.prec >= 0 {
			spec += "." + strconv.Itoa(fl.prec)
		}
		s := fmt.Sprintf(spec+string(verb), x)
		if f.english {
			if verb != 'f' {
				panic(unsupported{"message printer float verb"})
			}
			f.pad(f.group(strBytes(s)), fl, true)
			return
		}
		f.str(s)
		return
	case *SymF:
		x = &SymF{m.flatRat(x.t)}
		if verb == 'v' || verb == 'g' || verb == 'G' || verb == 'e' {
			if i, ok := m.ctx.IntOf(x.t); ok && verb != 'e' && absBounded(x.t, ratInt(99999)) {
				f.pad(m.intDecimal(i), fl, true)
				return
			}
			if (verb == 'g' || verb == 'v') && !f.english && !fl.plus && (fl.prec == -1 || fl.prec == 15) {
				f.pad(strBytes(m.floatG(x.t, fl.prec)), fl, true)
				return
			}
			panic(unsupported{"%g of symbolic float"})
		}
		prec := fl.prec
		if prec < 0 {
			prec = 6
		}
		p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(prec)), nil)
		if _, ok := m.ctx.IntOf(m.ctx.Scale(x.t, new(big.Rat).SetInt(p))); !ok {
			// rounding: decimals of a double nearest to the exact value; only
			// ties could differ from rounding the exact value
			m.eng.note("decimal rendering of inexact doubles modelled by rounding the exact value half away from zero")
		}
		b := strBytes(m.ratDecimal(x.t, prec))
		if fl.plus {
			if ch, ok := b[0].(uint64); !ok || ch != '-' {
				b = append([]Val{uint64('+')}, b...)
			}
		}
		if f.english {
			b = f.group(b)
		}
		f.pad(b, fl, true)
		return
	}
	panic(unsupported{"float verb"})
}

func (f *fmtr) printf(format Val, args []Val) {
	m := f.m
	fs, ok := format.(string)
	if !ok {
		// symbolic format strings: only safe when no byte can be '%'
		for _, b := range strBytes(format) {
			if t, ok := b.(*Term); ok {
				if m.branch(m.ctx.Eq(t, m.ctx.Int('%'))) {
					panic(unsupported{"symbolic format directive"})
				}
			} else if b.(uint64) == '%' {
				panic(unsupported{"format with symbolic text"})
			}
		}
		f.out = append(f.out, strBytes(format)...)
		if len(args) > 0 {
			panic(unsupported{"extra args"})
		}
		return
	}
	ai := 0
	indexed := false
	next := func() (Iface, bool) {
		if ai < len(args) {
			i, _ := args[ai].(Iface)
			ai++
			return i, true
		}
		return Iface{}, false
	}
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			j := i
			for j < len(fs) && fs[j] != '%' {
				j++
			}
			f.str(fs[i:j])
			i = j - 1
			continue
		}
		i++
		fl := fmtFlags{prec: -1}
	flags:
		for ; i < len(fs); i++ {
			switch fs[i] {
			case '-':
				fl.minus = true
			case '+':
				fl.plus = true
			case '#':
				fl.sharp = true
			case '0':
				fl.zero = true
			case ' ':
				fl.space = true
			default:
				break flags
			}
		}
		if i < len(fs) && fs[i] == '*' {
			a, _ := next()
			fl.wid = int(m.forkVal(a.v, 128))
			fl.hasWid = true
			if fl.wid < 0 {
				fl.wid = -fl.wid
				fl.minus = true
				fl.zero = false
			}
			i++
		} else {
			for i < len(fs) && fs[i] >= '0' && fs[i] <= '9' {
				fl.wid = fl.wid*10 + int(fs[i]-'0')
				fl.hasWid = true
				i++
			}
		}
		if i < len(fs) && fs[i] == '.' {
			i++
			fl.prec = 0
			if i < len(fs) && fs[i] == '*' {
				a, _ := next()
				fl.prec = int(m.forkVal(a.v, 40))
				i++
			} else {
				for i < len(fs) && fs[i] >= '0' && fs[i] <= '9' {
					fl.prec = fl.prec*10 + int(fs[i]-'0')
					i++
				}
			}
		}
		if i >= len(fs) {
			f.str("%!(NOVERB)")
			break
		}
		verb := fs[i]
		if verb == '%' {
			f.str("%")
			continue
		}
		if verb == '[' {
			i++
			n := 0
			for i < len(fs) && fs[i] >= '0' && fs[i] <= '9' {
				n = n*10 + int(fs[i]-'0')
				i++
			}
			if i+1 >= len(fs) || fs[i] != ']' || n < 1 || n > len(args) || fs[i+1] == '%' {
				panic(unsupported{"indexed format"})
			}
			ai = n - 1
			indexed = true
			i++
			verb = fs[i]
		}
		a, ok := next()
		if !ok {
			f.str("%!" + string(verb) + "(MISSING)")
			continue
		}
		if verb == 'w' {
			f.wrapped = append(f.wrapped, a)
			verb = 'v'
		}
		f.value(a, verb, fl, 0)
	}
	if !indexed && ai < len(args) {
		f.str("%!(EXTRA ")
		for k := ai; k < len(args); k++ {
			if k > ai {
				f.str(", ")
			}
			i, _ := args[k].(Iface)
			if i.t == nil {
				f.str("<nil>")
				continue
			}
			f.str(types.TypeString(i.t, func(p *types.Package) string { return p.Name() }) + "=")
			f.value(i, 'v', fmtFlags{prec: -1}, 0)
		}
		f.str(")")
	}
}

func (f *fmtr) print(args []Val, ln bool) {
	prevStr := false
	for k, a := range args {
		i, _ := a.(Iface)
		isStr := i.t != nil && isStringType(i.t)
		if k > 0 && (ln || (!isStr && !prevStr)) {
			f.str(" ")
		}
		f.value(i, 'v', fmtFlags{prec: -1}, 0)
		prevStr = isStr
	}
	if ln {
		f.str("\n")
	}
}

func (m *M) fmtPrintf(format Val, args []Val) []Val {
	f := &fmtr{m: m}
	f.printf(format, args)
	return f.out
}

// writeTo calls w.Write(b).
func (m *M) writeTo(caller *frame, w Val, b []Val) Val {
	i, ok := w.(Iface)
	if !ok || i.t == nil {
		m.nilDeref()
	}
	if o, ok := i.v.(*opaque); ok {
		return o.method(m, "Write", []Val{b})
	}
	fn := m.hasMethod(i.t, "Write")
	if fn == nil {
		panic(unsupported{"no Write method on " + i.t.String()})
	}
	return m.callFn(caller, fn, []Val{i.v, b}, nil)
}

func sl(v Val) []Val {
	if v == nil {
		return nil
	}
	return v.([]Val)
}

func init() {
	I := intrinsics
	I["fmt.Sprintf"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		return mkStr(m.fmtPrintf(a[0], sl(a[1])))
	}
	I["fmt.Errorf"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		f := &fmtr{m: m}
		f.printf(a[0], sl(a[1]))
		if len(f.wrapped) > 0 {
			t := m.eng.typ("fmt", "wrapError")
			var v Val = Struct{mkStr(f.out), f.wrapped[0]}
			return Iface{types.NewPointer(t), &v}
		}
		return m.newError(mkStr(f.out))
	}
	I["fmt.Sprint"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		f := &fmtr{m: m}
		f.print(sl(a[0]), false)
		return mkStr(f.out)
	}
	I["fmt.Sprintln"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		f := &fmtr{m: m}
		f.print(sl(a[0]), true)
		return mkStr(f.out)
	}
	I["fmt.Fprintf"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		return m.writeTo(c, a[0], m.fmtPrintf(a[1], sl(a[2])))
	}
	I["fmt.Fprint"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		f := &fmtr{m: m}
		f.print(sl(a[1]), false)
		return m.writeTo(c, a[0], f.out)
	}
	I["fmt.Fprintln"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		f := &fmtr{m: m}
		f.print(sl(a[1]), true)
		return m.writeTo(c, a[0], f.out)
	}
	std := func(b []Val) Val { return Tuple{int64(len(b)), Iface{}} }
	I["fmt.Printf"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		return std(m.stdout(m.fmtPrintf(a[0], sl(a[1]))))
	}
	I["fmt.Print"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		f := &fmtr{m: m}
		f.print(sl(a[0]), false)
		return std(m.stdout(f.out))
	}
	I["fmt.Println"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		f := &fmtr{m: m}
		f.print(sl(a[0]), true)
		return std(m.stdout(f.out))
	}
}

func (m *M) stdout(b []Val) []Val {
	if m.pure == 0 {
		m.wrote(nil, b)
	} else if x, ok := m.state["vfs"]; ok && x.(*vfs).capture {
		panic(impure{"standard output"})
	}
	return b
}

func (m *M) newError(msg Val) Val {
	t := m.eng.typ("errors", "errorString")
	var v Val = Struct{msg}
	return Iface{types.NewPointer(t), &v}
}

var _ = strings.Join

func init() {
	I := intrinsics
	const msg = "golang.org/x/text/message"
	nop := func(m *M, _ *frame, fn *ssa.Function, a []Val) Val {
		return zeroResult(fn)
	}
	I[msg+"/catalog.NewBuilder"] = func(m *M, _ *frame, fn *ssa.Function, a []Val) Val {
		var v Val = zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		return &v
	}
	I[msg+"/catalog.Fallback"] = nop
	I["(*"+msg+"/catalog.Builder).SetString"] = nop
	I[msg+".MatchLanguage"] = func(m *M, _ *frame, fn *ssa.Function, a []Val) Val {
		for _, l := range sl(a[0]) {
			s, ok := l.(string)
			if !ok {
				panic(unsupported{"symbolic language"})
			}
			if _, ok := numbers[s]; !ok {
				panic(unsupported{"message printer of language " + s})
			}
			if m.pure > 0 {
				panic(impure{"language"})
			}
			m.state["lang"] = s
		}
		return zeroResult(fn)
	}
	I[msg+".NewPrinter"] = func(m *M, _ *frame, fn *ssa.Function, a []Val) Val {
		var v Val = zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		if m.pure > 0 {
			panic(impure{"language"})
		}
		if l, ok := m.state["lang"].(string); ok {
			m.state[fmt.Sprintf("lang%p", &v)] = l
			m.state["printers"] = append(anyList(m.state["printers"]), &v) // keeps the address
		}
		return &v
	}
	pf := func(m *M, pr, format Val, args []Val) []Val {
		f := &fmtr{m: m, english: true}
		if p, ok := pr.(*Val); ok {
			f.lang, _ = m.state[fmt.Sprintf("lang%p", p)].(string)
		}
		f.printf(format, args)
		return f.out
	}
	key := func(v Val) Val {
		// message.Reference is an interface{}: a format string here
		i, ok := v.(Iface)
		if !ok || i.t == nil || !isStringType(i.t) {
			panic(unsupported{"message key"})
		}
		return i.v
	}
	I["(*"+msg+".Printer).Sprintf"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		return mkStr(pf(m, a[0], key(a[1]), sl(a[2])))
	}
	I["(*"+msg+".Printer).Fprintf"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		return m.writeTo(c, a[1], pf(m, a[0], key(a[2]), sl(a[3])))
	}
}

func anyList(x interface{}) []interface{} {
	l, _ := x.([]interface{})
	return l
}
