package main

import (
	"go/types"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// A model of encoding/json over symbolic values: values are walked by their
// Go types, structure is concrete, and the characters of strings and digits
// of numbers may be symbolic.

// byteTest branches on a condition over one byte.
func (m *M) byteIs(b Val, c byte) bool {
	if x, ok := b.(uint64); ok {
		return byte(x) == c
	}
	return m.branch(m.ctx.Eq(m.term(b), m.ctx.Int(int64(c))))
}

func (m *M) byteIn(b Val, lo, hi byte) bool {
	if x, ok := b.(uint64); ok {
		return byte(x) >= lo && byte(x) <= hi
	}
	t := m.term(b)
	return m.branch(m.ctx.And(m.ctx.Le(m.ctx.Int(int64(lo)), t), m.ctx.Le(t, m.ctx.Int(int64(hi)))))
}

func (m *M) byteFork(b Val) byte { return byte(m.forkVal(b, 256)) }

// floatShortest is the shortest decimal text of a double which is the nearest
// to a decimal number of at most fifteen digits.
func (m *M) floatShortest(t *Term, small *big.Rat) Val {
	c := m.ctx
	if t.isConst() {
		f, _ := t.c.Float64()
		return strconv.FormatFloat(f, 'f', -1, 64)
	}
	den := c.commonDen(t)
	k := 0
	p := big.NewInt(1)
	for ; k <= 12; k++ {
		if den != nil && new(big.Int).Rem(p, den).Sign() == 0 {
			break
		}
		p.Mul(p, big.NewInt(10))
	}
	if den == nil || k > 12 {
		panic(unsupported{"shortest text of a symbolic double"})
	}
	n, ok := c.IntOf(c.Scale(t, new(big.Rat).SetInt(p)))
	if !ok || n.lo == nil || n.hi == nil {
		panic(unsupported{"shortest text of a symbolic double"})
	}
	lim := big.NewRat(1000000000000000, 1)
	if n.hi.Cmp(lim) >= 0 || n.lo.Cmp(new(big.Rat).Neg(lim)) <= 0 {
		panic(unsupported{"shortest text of a symbolic double of more than 15 digits"})
	}
	if new(big.Rat).SetFrac(big.NewInt(1), p).Cmp(small) < 0 {
		// exponents would be needed below this
		if m.branch(c.And(c.Lt(t, c.Real(small)), c.Lt(c.Neg(t), c.Real(small)), c.Not(c.Eq(t, c.Real(ratZero))))) {
			panic(unsupported{"shortest text of a symbolic double near zero"})
		}
	}
	for d := 0; d < k; d++ {
		q := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(k-d)), nil)
		if m.branch(c.Eq(c.Mod(n, q), c.Int(0))) {
			return m.ratDecimal(t, d)
		}
	}
	return m.ratDecimal(t, k)
}

// floatG is the text of a double as %g gives it, with the shortest or fifteen
// digits.
func (m *M) floatG(t *Term, prec int) Val {
	c := m.ctx
	if t.isConst() {
		f, _ := t.c.Float64()
		return strconv.FormatFloat(f, 'g', prec, 64)
	}
	if prec == -1 {
		lim := c.Real(ratInt(1000000))
		if m.branch(c.Or(c.Le(lim, t), c.Le(lim, c.Neg(t)))) {
			panic(unsupported{"shortest text of a symbolic double with an exponent"})
		}
	}
	return m.floatShortest(t, big.NewRat(1, 10000))
}

// floatFork makes a symbolic double concrete, one path for each value.
func (m *M) floatFork(t *Term) float64 {
	c := m.ctx
	if !t.isConst() {
		den := c.commonDen(t)
		if den == nil {
			panic(unsupported{"double of many values"})
		}
		n, ok := c.IntOf(c.Scale(t, new(big.Rat).SetInt(den)))
		if !ok {
			panic(unsupported{"double of many values"})
		}
		f, _ := new(big.Rat).SetFrac(big.NewInt(m.forkInt(n, 1000)), den).Float64()
		return f
	}
	f, _ := t.c.Float64()
	return f
}

// ---- encoding ----

type jsonFail struct{ err Val }

func (m *M) jsonErr(msg string) { panic(jsonFail{m.newError("json: " + msg)}) }

func (m *M) jsonString(out []Val, s Val) []Val {
	b := strBytes(s)
	lit := func(s string) { out = append(out, strBytes(s)...) }
	const hex = "0123456789abcdef"
	lit(`"`)
	for i := 0; i < len(b); {
		x := b[i]
		if _, ok := x.(uint64); !ok {
			if m.byteIn(x, 0x80, 0xff) || m.byteIn(x, 0, 0x1f) || m.byteIs(x, '"') || m.byteIs(x, '\\') || m.byteIs(x, '<') || m.byteIs(x, '>') || m.byteIs(x, '&') {
				x = uint64(m.byteFork(x))
			} else {
				out = append(out, x)
				i++
				continue
			}
		}
		c := byte(x.(uint64))
		switch {
		case c >= 0x80:
			var conc []byte
			for j := i; j < len(b) && j < i+4; j++ {
				if j == i {
					conc = append(conc, c)
				} else if m.byteIn(b[j], 0x80, 0xff) {
					conc = append(conc, m.byteFork(b[j]))
				} else {
					break
				}
			}
			r, w := utf8.DecodeRune(conc)
			switch {
			case r == utf8.RuneError && w == 1:
				lit(`\ufffd`)
			case r == 0x2028 || r == 0x2029:
				lit(`\u202` + string(hex[r&15]))
			default:
				for _, y := range conc[:w] {
					out = append(out, uint64(y))
				}
			}
			i += w
			continue
		case c == '"' || c == '\\':
			lit(`\` + string(rune(c)))
		case c == '\n':
			lit(`\n`)
		case c == '\r':
			lit(`\r`)
		case c == '\t':
			lit(`\t`)
		case c == '\b':
			lit(`\b`)
		case c == '\f':
			lit(`\f`)
		case c < 0x20 || !m.jsonRaw && (c == '<' || c == '>' || c == '&'):
			lit(`\u00` + string(hex[c>>4]) + string(hex[c&15]))
		default:
			out = append(out, x)
		}
		i++
	}
	lit(`"`)
	return out
}

func (m *M) jsonMethod(t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(t)
	s := ms.Lookup(nil, name)
	if s == nil {
		return nil
	}
	return m.eng.lookupMethod(t, s.Obj().(*types.Func))
}

func (m *M) jsonEmpty(t types.Type, v Val) bool {
	switch x := v.(type) {
	case string:
		return x == ""
	case *SymStr:
		return len(x.b) == 0
	case []Val:
		return len(x) == 0
	case Array:
		return len(x) == 0
	case *MapV:
		return x == nil || x.n == 0
	case *Val:
		return x == nil
	case Iface:
		return x.t == nil
	case bool:
		return !x
	case int64:
		return x == 0
	case uint64:
		return x == 0
	case float64:
		return x == 0
	case *SymF:
		return m.branch(m.ctx.Eq(x.t, m.ctx.Real(ratZero)))
	case *Term:
		if isBoolType(t) {
			return !m.branch(x)
		}
		return m.branch(m.ctx.Eq(x, m.ctx.Int(0)))
	}
	return false
}

type jsonField struct {
	i     int
	name  string
	empty bool
}

func jsonFields(s *types.Struct) []jsonField {
	var out []jsonField
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Embedded() {
			panic(unsupported{"JSON of embedded fields"})
		}
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(s.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		jf := jsonField{i: i, name: f.Name()}
		if parts[0] != "" {
			jf.name = parts[0]
		}
		for _, o := range parts[1:] {
			switch o {
			case "omitempty":
				jf.empty = true
			default:
				panic(unsupported{"JSON tag " + tag})
			}
		}
		out = append(out, jf)
	}
	return out
}

// jsonEnc appends the JSON of a value; addr is its address if it has one.
func (m *M) jsonEnc(c *frame, out []Val, t types.Type, v Val, addr *Val) []Val {
	lit := func(s string) { out = append(out, strBytes(s)...) }
	call := func(fn *ssa.Function, recv Val) []Val {
		r := m.callFn(c, fn, []Val{recv}, nil).(Tuple)
		if e, ok := r[1].(Iface); ok && e.t != nil {
			panic(jsonFail{r[1]})
		}
		raw := sl(r[0])
		m.jsonParse(raw, true)
		return append(out, m.jsonCompact(raw)...)
	}
	isPtr := func() bool { _, ok := t.Underlying().(*types.Pointer); return ok }
	if _, ok := t.Underlying().(*types.Interface); !ok {
		if fn := m.jsonMethod(t, "MarshalJSON"); fn != nil {
			if isPtr() && v.(*Val) == nil {
				lit("null")
				return out
			}
			return call(fn, copyVal(v))
		}
		if addr != nil && !isPtr() {
			if fn := m.jsonMethod(types.NewPointer(t), "MarshalJSON"); fn != nil {
				return call(fn, addr)
			}
		}
		if m.jsonMethod(t, "MarshalText") != nil || addr != nil && !isPtr() && m.jsonMethod(types.NewPointer(t), "MarshalText") != nil {
			panic(unsupported{"JSON of MarshalText"})
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			b, ok := v.(bool)
			if !ok {
				b = m.branch(v.(*Term))
			}
			lit(strconv.FormatBool(b))
			return out
		case u.Info()&types.IsInteger != 0:
			switch x := v.(type) {
			case int64:
				lit(strconv.FormatInt(x, 10))
			case uint64:
				lit(strconv.FormatUint(x, 10))
			default:
				out = append(out, m.intDecimal(m.term(v))...)
			}
			return out
		case u.Info()&types.IsFloat != 0:
			if f, ok := v.(float64); ok {
				if math.IsNaN(f) || math.IsInf(f, 0) {
					m.jsonErr("unsupported value: " + strconv.FormatFloat(f, 'g', -1, 64))
				}
				abs := math.Abs(f)
				format := byte('f')
				if abs != 0 && (abs < 1e-6 || abs >= 1e21) {
					format = 'e'
				}
				s := strconv.FormatFloat(f, format, -1, 64)
				if n := len(s); format == 'e' && n >= 4 && s[n-4] == 'e' && (s[n-3] == '-' || s[n-3] == '+') && s[n-2] == '0' {
					s = s[:n-2] + s[n-1:]
				}
				lit(s)
				return out
			}
			return append(out, strBytes(m.floatShortest(v.(*SymF).t, big.NewRat(1, 1000000)))...)
		case isJSONNumber(t):
			panic(unsupported{"a json.Number written"})
		case u.Info()&types.IsString != 0:
			return m.jsonString(out, v)
		}
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			lit("null")
			return out
		}
		return m.jsonEnc(c, out, i.t, i.v, nil)
	case *types.Pointer:
		p, ok := v.(*Val)
		if !ok {
			panic(unsupported{"JSON of " + t.String()})
		}
		if p == nil {
			lit("null")
			return out
		}
		return m.jsonEnc(c, out, u.Elem(), *p, p)
	case *types.Map:
		mp, _ := v.(*MapV)
		if mp == nil {
			lit("null")
			return out
		}
		if !isStringType(u.Key()) {
			panic(unsupported{"JSON of a map by " + u.Key().String()})
		}
		type kv struct {
			k string
			v Val
		}
		var l []kv
		for _, e := range mp.ents {
			if !e.dead {
				l = append(l, kv{m.forkStr(e.k), e.v})
			}
		}
		sort.SliceStable(l, func(i, j int) bool { return l[i].k < l[j].k })
		lit("{")
		for i, e := range l {
			if i > 0 {
				lit(",")
			}
			out = m.jsonString(out, e.k)
			lit(":")
			out = m.jsonEnc(c, out, u.Elem(), e.v, nil)
		}
		lit("}")
		return out
	case *types.Slice:
		s := sl(v)
		if b := basicOf(u.Elem()); b != nil && b.Kind() == types.Uint8 {
			panic(unsupported{"JSON of bytes"})
		}
		if v.([]Val) == nil {
			lit("null")
			return out
		}
		lit("[")
		for i := range s {
			if i > 0 {
				lit(",")
			}
			out = m.jsonEnc(c, out, u.Elem(), s[i], &s[i])
		}
		lit("]")
		return out
	case *types.Array:
		a := v.(Array)
		lit("[")
		for i := range a {
			if i > 0 {
				lit(",")
			}
			var ad *Val
			if addr != nil {
				ad = &a[i]
			}
			out = m.jsonEnc(c, out, u.Elem(), a[i], ad)
		}
		lit("]")
		return out
	case *types.Struct:
		s := v.(Struct)
		lit("{")
		first := true
		for _, f := range jsonFields(u) {
			ft := u.Field(f.i).Type()
			if f.empty && m.jsonEmpty(ft, s[f.i]) {
				continue
			}
			if !first {
				lit(",")
			}
			first = false
			out = m.jsonString(out, f.name)
			lit(":")
			var ad *Val
			if addr != nil {
				ad = &s[f.i]
			}
			out = m.jsonEnc(c, out, ft, s[f.i], ad)
		}
		lit("}")
		return out
	}
	m.jsonErr("unsupported type: " + t.String())
	return nil
}

// jsonCompact drops white space outside strings and escapes as Marshal does.
func (m *M) jsonCompact(b []Val) []Val {
	var out []Val
	in := false
	for i := 0; i < len(b); i++ {
		x := b[i]
		if !in {
			if m.byteIs(x, ' ') || m.byteIs(x, '\n') || m.byteIs(x, '\t') || m.byteIs(x, '\r') {
				continue
			}
			in = m.byteIs(x, '"')
			out = append(out, x)
			continue
		}
		switch {
		case m.byteIs(x, '"'):
			in = false
			out = append(out, x)
		case m.byteIs(x, '\\'):
			out = append(out, x, b[i+1])
			i++
		case !m.jsonRaw && (m.byteIs(x, '<') || m.byteIs(x, '>') || m.byteIs(x, '&')):
			out = append(out, strBytes(`\u00`+strconv.FormatUint(uint64(m.byteFork(x)), 16))...)
		default:
			out = append(out, x)
		}
	}
	return out
}

// jsonIndent lays compact JSON out over lines.
func (m *M) jsonIndent(b []Val, prefix, indent string) []Val {
	var out []Val
	depth := 0
	in := false
	nl := func() {
		out = append(out, strBytes("\n"+prefix+strings.Repeat(indent, depth))...)
	}
	for i := 0; i < len(b); i++ {
		x := b[i]
		if in {
			out = append(out, x)
			if m.byteIs(x, '\\') {
				i++
				out = append(out, b[i])
			} else if m.byteIs(x, '"') {
				in = false
			}
			continue
		}
		switch {
		case m.byteIs(x, '"'):
			in = true
			out = append(out, x)
		case m.byteIs(x, '{') || m.byteIs(x, '['):
			out = append(out, x)
			if i+1 < len(b) && (m.byteIs(b[i+1], '}') || m.byteIs(b[i+1], ']')) {
				i++
				out = append(out, b[i])
				continue
			}
			depth++
			nl()
		case m.byteIs(x, '}') || m.byteIs(x, ']'):
			depth--
			nl()
			out = append(out, x)
		case m.byteIs(x, ','):
			out = append(out, x)
			nl()
		case m.byteIs(x, ':'):
			out = append(out, x, uint64(' '))
		default:
			out = append(out, x)
		}
	}
	return out
}

// ---- parsing ----

type jnode struct {
	kind byte // n t f 0 " [ {
	raw  []Val
	str  Val
	num  []Val
	keys []Val
	kids []*jnode
}

type jparser struct {
	m *M
	b []Val
	i int
}

func (m *M) jsonParse(b []Val, whole bool) (*jnode, int) {
	p := &jparser{m: m, b: b}
	n := p.value()
	end := p.i
	if whole {
		p.ws()
		if p.i < len(b) {
			m.jsonErr("invalid character after top-level value")
		}
	}
	return n, end
}

func (p *jparser) ws() {
	for p.i < len(p.b) {
		x := p.b[p.i]
		if p.m.byteIs(x, ' ') || p.m.byteIs(x, '\n') || p.m.byteIs(x, '\t') || p.m.byteIs(x, '\r') {
			p.i++
			continue
		}
		return
	}
}

func (p *jparser) eof() {
	panic(jsonFail{p.m.newError("unexpected end of JSON input")})
}

func (p *jparser) value() *jnode {
	m := p.m
	p.ws()
	if p.i >= len(p.b) {
		p.eof()
	}
	start := p.i
	n := &jnode{}
	x := p.b[p.i]
	switch {
	case m.byteIs(x, '"'):
		n.kind = '"'
		n.str = p.str()
	case m.byteIs(x, '{'):
		n.kind = '{'
		p.i++
		p.ws()
		if p.i < len(p.b) && m.byteIs(p.b[p.i], '}') {
			p.i++
			break
		}
		for {
			p.ws()
			if p.i >= len(p.b) {
				p.eof()
			}
			if !m.byteIs(p.b[p.i], '"') {
				m.jsonErr("invalid character looking for beginning of object key string")
			}
			k := p.str()
			p.ws()
			p.need(':')
			v := p.value()
			n.keys = append(n.keys, k)
			n.kids = append(n.kids, v)
			if !p.more('}') {
				break
			}
		}
	case m.byteIs(x, '['):
		n.kind = '['
		p.i++
		p.ws()
		if p.i < len(p.b) && m.byteIs(p.b[p.i], ']') {
			p.i++
			break
		}
		for {
			n.kids = append(n.kids, p.value())
			if !p.more(']') {
				break
			}
		}
	case m.byteIs(x, 't'):
		n.kind = 't'
		p.word("true")
	case m.byteIs(x, 'f'):
		n.kind = 'f'
		p.word("false")
	case m.byteIs(x, 'n'):
		n.kind = 'n'
		p.word("null")
	case m.byteIs(x, '-') || m.byteIn(x, '0', '9'):
		n.kind = '0'
		p.number()
		n.num = p.b[start:p.i]
	default:
		m.jsonErr("invalid character looking for beginning of value")
	}
	n.raw = p.b[start:p.i]
	return n
}

func (p *jparser) need(c byte) {
	if p.i >= len(p.b) {
		p.eof()
	}
	if !p.m.byteIs(p.b[p.i], c) {
		p.m.jsonErr("invalid character")
	}
	p.i++
}

func (p *jparser) more(end byte) bool {
	p.ws()
	if p.i >= len(p.b) {
		p.eof()
	}
	if p.m.byteIs(p.b[p.i], end) {
		p.i++
		return false
	}
	p.need(',')
	return true
}

func (p *jparser) word(w string) {
	for i := 0; i < len(w); i++ {
		p.need(w[i])
	}
}

func (p *jparser) number() {
	m := p.m
	at := func() bool { return p.i < len(p.b) }
	digits := func() {
		if !at() {
			p.eof()
		}
		if !m.byteIn(p.b[p.i], '0', '9') {
			m.jsonErr("invalid character in numeric literal")
		}
		for at() && m.byteIn(p.b[p.i], '0', '9') {
			p.i++
		}
	}
	if m.byteIs(p.b[p.i], '-') {
		p.i++
	}
	if at() && m.byteIs(p.b[p.i], '0') {
		p.i++
	} else {
		digits()
	}
	if at() && m.byteIs(p.b[p.i], '.') {
		p.i++
		digits()
	}
	if at() && (m.byteIs(p.b[p.i], 'e') || m.byteIs(p.b[p.i], 'E')) {
		p.i++
		if at() && (m.byteIs(p.b[p.i], '+') || m.byteIs(p.b[p.i], '-')) {
			p.i++
		}
		digits()
	}
}

// str reads a string literal and gives what it stands for.
func (p *jparser) str() Val {
	m := p.m
	p.i++
	var out []Val
	for {
		if p.i >= len(p.b) {
			p.eof()
		}
		x := p.b[p.i]
		switch {
		case m.byteIs(x, '"'):
			p.i++
			return mkStr(out)
		case m.byteIs(x, '\\'):
			if p.i+1 >= len(p.b) {
				p.eof()
			}
			e := m.byteFork(p.b[p.i+1])
			p.i += 2
			switch e {
			case '"', '\\', '/':
				out = append(out, uint64(e))
			case 'n':
				out = append(out, uint64('\n'))
			case 't':
				out = append(out, uint64('\t'))
			case 'r':
				out = append(out, uint64('\r'))
			case 'b':
				out = append(out, uint64('\b'))
			case 'f':
				out = append(out, uint64('\f'))
			case 'u':
				r := p.hex4()
				if r >= 0xd800 && r < 0xe000 {
					panic(unsupported{"JSON surrogates"})
				}
				out = append(out, strBytes(string(r))...)
			default:
				m.jsonErr("invalid character in string escape code")
			}
		case m.byteIn(x, 0, 0x1f):
			m.jsonErr("invalid character in string literal")
		case m.byteIn(x, 0x80, 0xff):
			conc := []byte{m.byteFork(x)}
			for j := p.i + 1; j < len(p.b) && len(conc) < 4 && m.byteIn(p.b[j], 0x80, 0xbf); j++ {
				conc = append(conc, m.byteFork(p.b[j]))
			}
			r, w := utf8.DecodeRune(conc)
			out = append(out, strBytes(string(r))...)
			p.i += w
		default:
			out = append(out, x)
			p.i++
		}
	}
}

func (p *jparser) hex4() rune {
	if p.i+4 > len(p.b) {
		p.eof()
	}
	var s []byte
	for _, x := range p.b[p.i : p.i+4] {
		s = append(s, p.m.byteFork(x))
	}
	n, err := strconv.ParseUint(string(s), 16, 32)
	if err != nil {
		p.m.jsonErr("invalid character in \\u hexadecimal character escape")
	}
	p.i += 4
	return rune(n)
}

// ---- decoding ----

type jdec struct {
	m      *M
	c      *frame
	strict bool
	saved  Val
}

func (d *jdec) save(msg string) {
	if d.saved == nil {
		d.saved = d.m.newError("json: " + msg)
	}
}

func (d *jdec) number(b []Val) Val {
	s := mkStr(b)
	r := intrinsics["strconv.ParseFloat"](d.m, d.c, nil, []Val{s, int64(64)}).(Tuple)
	if e, ok := r[1].(Iface); ok && e.t != nil {
		d.save("cannot unmarshal number")
	}
	return r[0]
}

// anyVal decodes into an interface{}.
func (d *jdec) anyVal(n *jnode) Val {
	switch n.kind {
	case 'n':
		return Iface{}
	case 't', 'f':
		return Iface{types.Typ[types.Bool], n.kind == 't'}
	case '"':
		return Iface{types.Typ[types.String], n.str}
	case '0':
		return Iface{types.Typ[types.Float64], d.number(n.num)}
	case '[':
		s := make([]Val, len(n.kids))
		for i, k := range n.kids {
			s[i] = d.anyVal(k)
		}
		return Iface{types.NewSlice(anyType()), s}
	case '{':
		mp := newMap()
		for i, k := range n.kids {
			d.m.mapSet(mp, n.keys[i], d.anyVal(k))
		}
		return Iface{types.NewMap(types.Typ[types.String], anyType()), mp}
	}
	panic("json kind")
}

func isJSONNumber(t types.Type) bool { return t.String() == "encoding/json.Number" }

func anyType() types.Type { return types.NewInterfaceType(nil, nil) }

func (d *jdec) into(n *jnode, t types.Type, p *Val) {
	m := d.m
	pt, isPtr := t.Underlying().(*types.Pointer)
	if isPtr {
		if n.kind == 'n' {
			*p = (*Val)(nil)
			return
		}
		q, _ := (*p).(*Val)
		if q == nil {
			q = new(Val)
			*q = zero(pt.Elem())
			*p = q
		}
		d.into(n, pt.Elem(), q)
		return
	}
	it, isIface := t.Underlying().(*types.Interface)
	if isIface {
		if i, ok := (*p).(Iface); ok && i.t != nil && n.kind != 'n' {
			if e, ok := i.t.Underlying().(*types.Pointer); ok && i.v.(*Val) != nil {
				d.into(n, e.Elem(), i.v.(*Val))
				return
			}
		}
		if it.NumMethods() > 0 {
			d.save("cannot unmarshal into " + t.String())
			return
		}
		*p = d.anyVal(n)
		return
	}
	if fn := m.jsonMethod(types.NewPointer(t), "UnmarshalJSON"); fn != nil {
		r := m.callFn(d.c, fn, []Val{p, append([]Val(nil), n.raw...)}, nil)
		if e, ok := r.(Iface); ok && e.t != nil {
			panic(jsonFail{r})
		}
		return
	}
	if n.kind == 'n' {
		switch t.Underlying().(type) {
		case *types.Map, *types.Slice:
			store(p, zero(t))
		}
		return
	}
	bad := func() { d.save("cannot unmarshal into Go value of type " + t.String()) }
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0 && (n.kind == 't' || n.kind == 'f'):
			*p = n.kind == 't'
		case u.Info()&types.IsString != 0 && n.kind == '"':
			if isJSONNumber(t) {
				panic(unsupported{"a string read as a json.Number"})
			}
			*p = n.str
		case n.kind == '0' && isJSONNumber(t):
			*p = mkStr(n.num)
		case u.Info()&types.IsFloat != 0 && n.kind == '0':
			*p = d.number(n.num)
		case u.Info()&types.IsInteger != 0 && n.kind == '0':
			s := m.forkStr(mkStr(n.num))
			if isSignedKind(u.Kind()) {
				x, err := strconv.ParseInt(s, 10, int(intWidth(u.Kind())))
				if err != nil {
					bad()
					return
				}
				*p = x
			} else {
				x, err := strconv.ParseUint(s, 10, int(intWidth(u.Kind())))
				if err != nil {
					bad()
					return
				}
				*p = x
			}
		default:
			bad()
		}
	case *types.Slice:
		if n.kind != '[' {
			bad()
			return
		}
		old, _ := (*p).([]Val)
		s := make([]Val, len(n.kids))
		for i, k := range n.kids {
			s[i] = zero(u.Elem())
			if i < cap(old) {
				// elements which were there before are reused
				if x := old[:cap(old)][i]; x != nil {
					s[i] = copyVal(x)
				}
			}
			d.into(k, u.Elem(), &s[i])
		}
		*p = s
	case *types.Map:
		if n.kind != '{' {
			bad()
			return
		}
		if !isStringType(u.Key()) {
			panic(unsupported{"JSON map by " + u.Key().String()})
		}
		mp, _ := (*p).(*MapV)
		if mp == nil {
			mp = newMap()
			*p = mp
		}
		for i, k := range n.kids {
			var e Val = zero(u.Elem())
			d.into(k, u.Elem(), &e)
			m.mapSet(mp, n.keys[i], e)
		}
	case *types.Struct:
		if n.kind != '{' {
			bad()
			return
		}
		fs := jsonFields(u)
		s := (*p).(Struct)
		for i, k := range n.kids {
			key := m.forkStr(n.keys[i])
			f := -1
			for j := range fs {
				if fs[j].name == key {
					f = j
				}
			}
			if f < 0 {
				for j := range fs {
					if strings.EqualFold(fs[j].name, key) {
						f = j
						break
					}
				}
			}
			if f < 0 {
				if d.strict {
					d.save("unknown field " + strconv.Quote(key))
				}
				continue
			}
			d.into(k, u.Field(fs[f].i).Type(), &s[fs[f].i])
		}
	default:
		bad()
	}
}

// jsonUnmarshal decodes bytes into a pointer.
func (m *M) jsonUnmarshal(c *frame, b []Val, dst Val, strict, whole bool) (err Val, end int) {
	defer func() {
		if e := recover(); e != nil {
			f, ok := e.(jsonFail)
			if !ok {
				panic(e)
			}
			err = f.err
		}
	}()
	n, end := m.jsonParse(b, whole)
	i := dst.(Iface)
	if i.t == nil {
		m.jsonErr("Unmarshal(nil)")
	}
	pt, ok := i.t.Underlying().(*types.Pointer)
	if !ok || i.v.(*Val) == nil {
		m.jsonErr("Unmarshal(non-pointer " + i.t.String() + ")")
	}
	d := &jdec{m: m, c: c, strict: strict}
	if n.kind == 'n' || m.jsonMethod(i.t, "UnmarshalJSON") == nil {
		d.into(n, pt.Elem(), i.v.(*Val))
	} else {
		d.into(n, pt.Elem(), i.v.(*Val))
	}
	if d.saved != nil {
		return d.saved, end
	}
	return Iface{}, end
}

func (m *M) jsonMarshal(c *frame, v Val) (b []Val, err Val) {
	defer func() {
		if e := recover(); e != nil {
			f, ok := e.(jsonFail)
			if !ok {
				panic(e)
			}
			b, err = nil, f.err
		}
	}()
	i := v.(Iface)
	if i.t == nil {
		return strBytes("null"), Iface{}
	}
	b = m.jsonEnc(c, make([]Val, 0, 64), i.t, i.v, nil)
	return b, Iface{}
}

func init() {
	I := intrinsics
	J := "encoding/json."
	impureHere := func(m *M) {
		if m.pure > 0 {
			panic(impure{"json"})
		}
	}
	I[J+"Marshal"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		impureHere(m)
		b, err := m.jsonMarshal(c, a[0])
		return Tuple{b, err}
	}
	I[J+"MarshalIndent"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		impureHere(m)
		b, err := m.jsonMarshal(c, a[0])
		if e := err.(Iface); e.t != nil {
			return Tuple{b, err}
		}
		return Tuple{m.jsonIndent(b, m.forkStr(a[1]), m.forkStr(a[2])), err}
	}
	I[J+"Unmarshal"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		impureHere(m)
		err, _ := m.jsonUnmarshal(c, sl(a[0]), a[1], false, true)
		return err
	}
	I[J+"Valid"] = func(m *M, c *frame, _ *ssa.Function, a []Val) (r Val) {
		impureHere(m)
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(jsonFail); !ok {
					panic(e)
				}
				r = false
			}
		}()
		m.jsonParse(sl(a[0]), true)
		return true
	}
	// a decoder reads all of its input at once
	type decoder struct {
		b      []Val
		read   bool
		r      Val
		strict bool
	}
	I[J+"NewDecoder"] = func(m *M, c *frame, fn *ssa.Function, a []Val) Val {
		impureHere(m)
		var v Val = &decoder{r: a[0]}
		return &v
	}
	D := "(*encoding/json.Decoder)."
	I[D+"DisallowUnknownFields"] = func(m *M, c *frame, fn *ssa.Function, a []Val) Val {
		(*(a[0].(*Val))).(*decoder).strict = true
		return nil
	}
	I[D+"Decode"] = func(m *M, c *frame, fn *ssa.Function, a []Val) Val {
		impureHere(m)
		d := (*(a[0].(*Val))).(*decoder)
		if !d.read {
			d.read = true
			pk := m.eng.prog.ImportedPackage("io")
			if pk == nil || pk.Func("ReadAll") == nil {
				panic(unsupported{"io.ReadAll not loaded"})
			}
			r := m.callFn(c, pk.Func("ReadAll"), []Val{d.r}, nil).(Tuple)
			if e, ok := r[1].(Iface); ok && e.t != nil {
				return r[1]
			}
			d.b = sl(r[0])
		}
		empty := true
		for _, x := range d.b {
			if !(m.byteIs(x, ' ') || m.byteIs(x, '\n') || m.byteIs(x, '\t') || m.byteIs(x, '\r')) {
				empty = false
				break
			}
		}
		if empty {
			pk := m.eng.prog.ImportedPackage("io")
			return *(m.global(pk.Var("EOF")).(*Val))
		}
		err, end := m.jsonUnmarshal(c, d.b, a[1], d.strict, false)
		d.b = d.b[end:]
		return err
	}
}
