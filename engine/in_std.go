package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

// opaque is a host-side stand-in for an object the engine does not interpret.
type opaque struct {
	kind string
	call func(m *M, name string, args []Val) Val
	data map[string]interface{}
}

func (o *opaque) String() string { return "<" + o.kind + ">" }
func (o *opaque) method(m *M, name string, args []Val) Val {
	if o.call == nil {
		panic(unsupported{"method " + name + " of " + o.kind})
	}
	return o.call(m, name, args)
}

var specialGlobals = map[string]func(m *M) Val{}

func (m *M) allConc(a ...Val) bool {
	for _, x := range a {
		if isSymVal(x) {
			return false
		}
	}
	return true
}

// ---- classification of runes by tables computed from the real functions ----

type runeRange struct{ lo, hi int64 }

var runeTabs = map[string][]runeRange{}

func runeTab(name string, f func(rune) bool, lo, hi int64) []runeRange {
	var l []runeRange
	for r := lo; r <= hi; r++ {
		if f(rune(r)) {
			if n := len(l); n > 0 && l[n-1].hi == r-1 {
				l[n-1].hi = r
			} else {
				l = append(l, runeRange{r, r})
			}
		}
	}
	return l
}

func (m *M) runePred(name string, f func(rune) bool, v Val) Val {
	switch x := v.(type) {
	case int64:
		return f(rune(x))
	case *Term:
		lo, hi := int64(-1), int64(0x10ffff)
		if x.lo != nil && x.lo.Cmp(ratInt(lo)) > 0 {
			lo = floorInt(x.lo).Int64()
		}
		if x.hi != nil && x.hi.Cmp(ratInt(hi)) < 0 {
			hi = floorInt(x.hi).Int64()
		}
		key := fmt.Sprintf("%s/%d/%d", name, lo, hi)
		tabMu.Lock()
		t, ok := runeTabs[key]
		tabMu.Unlock()
		if !ok {
			t = runeTab(name, f, lo, hi)
			tabMu.Lock()
			runeTabs[key] = t
			tabMu.Unlock()
		}
		return m.boolVal(m.inRanges(x, t))
	}
	panic(unsupported{"rune predicate"})
}

func (m *M) inRanges(x *Term, t []runeRange) *Term {
	var os []*Term
	for _, r := range t {
		if r.lo == r.hi {
			os = append(os, m.ctx.Eq(x, m.ctx.Int(r.lo)))
		} else {
			os = append(os, m.ctx.And(m.ctx.Le(m.ctx.Int(r.lo), x), m.ctx.Le(x, m.ctx.Int(r.hi))))
		}
	}
	return m.ctx.Or(os...)
}

func (m *M) asciiMap(v Val, lo, hi byte, d int64) (Val, bool) {
	c := m.ctx
	switch x := v.(type) {
	case uint64:
		if x >= 0x80 {
			return nil, false
		}
		if byte(x) >= lo && byte(x) <= hi {
			return uint64(int64(x) + d), true
		}
		return x, true
	case int64:
		if x >= 0x80 || x < 0 {
			return nil, false
		}
		if byte(x) >= lo && byte(x) <= hi {
			return x + d, true
		}
		return x, true
	case *Term:
		if x.hi == nil || x.hi.Cmp(ratInt(128)) >= 0 || x.lo == nil || x.lo.Sign() < 0 {
			return nil, false
		}
		r := c.Ite(c.And(c.Le(c.Int(int64(lo)), x), c.Le(x, c.Int(int64(hi)))), c.Add(x, c.Int(d)), x)
		return r, true
	}
	return nil, false
}

func (m *M) asciiStrMap(v Val, lo, hi byte, d int64) Val {
	b := strBytes(v)
	o := make([]Val, len(b))
	for i, x := range b {
		y, ok := m.asciiMap(x, lo, hi, d)
		if !ok {
			if t, is := x.(*Term); is {
				if m.branch(m.ctx.Lt(t, m.ctx.Int(128))) {
					y = m.ctx.Ite(m.ctx.And(m.ctx.Le(m.ctx.Int(int64(lo)), t), m.ctx.Le(t, m.ctx.Int(int64(hi)))), m.ctx.Add(t, m.ctx.Int(d)), t)
					o[i] = y
					continue
				}
			}
			panic(unsupported{"case mapping of symbolic non-ASCII"})
		}
		o[i] = y
	}
	return mkStr(o)
}

// strFind: first index i>=0 such that match(i); -1 if none. Forks.
func (m *M) firstMatch(n int, match func(i int) *Term) int {
	var none []*Term
	var conds []*Term
	var idx []int
	for i := 0; i < n; i++ {
		t := match(i)
		if t == m.ctx.False {
			continue
		}
		conds = append(conds, m.ctx.And(append(append([]*Term{}, none...), t)...))
		idx = append(idx, i)
		if t == m.ctx.True {
			none = append(none, m.ctx.False)
			break
		}
		none = append(none, m.ctx.Not(t))
	}
	conds = append(conds, m.ctx.And(none...))
	idx = append(idx, -1)
	return idx[m.choose(conds)]
}

func (m *M) matchAt(b, s []Val, i int) *Term {
	if i+len(s) > len(b) {
		return m.ctx.False
	}
	return m.strEq(&SymStr{b[i : i+len(s)]}, &SymStr{s})
}

func (m *M) strIndexOf(b, s []Val) int {
	if len(s) == 0 {
		return 0
	}
	return m.firstMatch(len(b)-len(s)+1, func(i int) *Term { return m.matchAt(b, s, i) })
}

func bytesOf(v Val) []Val {
	if s, ok := v.([]Val); ok {
		return s
	}
	return strBytes(v)
}

func hostStr(v Val) string { return v.(string) }

// ---- regexp ----

type reObj struct {
	re   *regexp.Regexp
	prog *syntax.Prog
	cls  map[uint32][]runeRange
}

func (m *M) newRegexp(re *regexp.Regexp) Val {
	p, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		panic(unsupported{"regexp parse"})
	}
	prog, err := syntax.Compile(p.Simplify())
	if err != nil {
		panic(unsupported{"regexp compile"})
	}
	var v Val = &reObj{re: re, prog: prog, cls: map[uint32][]runeRange{}}
	return &v
}

func (m *M) reOf(v Val) *reObj {
	p, ok := v.(*Val)
	if !ok || p == nil {
		m.nilDeref()
	}
	r, ok := (*p).(*reObj)
	if !ok {
		panic(unsupported{"regexp value"})
	}
	return r
}

func (r *reObj) class(pc uint32) []runeRange {
	if c, ok := r.cls[pc]; ok {
		return c
	}
	in := &r.prog.Inst[pc]
	c := runeTab("", func(x rune) bool {
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1:
			return in.MatchRune(x)
		case syntax.InstRuneAny:
			return true
		case syntax.InstRuneAnyNotNL:
			return x != '\n'
		}
		return false
	}, 0, 127)
	r.cls[pc] = c
	return c
}

func (m *M) reStep(r *reObj, pc uint32, b Val) *Term {
	t := m.term(b)
	if t.hi == nil || t.hi.Cmp(ratInt(128)) >= 0 {
		if !m.branch(m.ctx.Lt(t, m.ctx.Int(128))) {
			panic(unsupported{"regexp over symbolic non-ASCII"})
		}
	}
	cl := r.class(pc)
	if t.isConst() {
		x := t.c.Num().Int64()
		for _, q := range cl {
			if x >= q.lo && x <= q.hi {
				return m.ctx.True
			}
		}
		return m.ctx.False
	}
	return m.inRanges(t, cl)
}

func (m *M) isWord(b Val) *Term {
	return m.inRanges(m.term(b), []runeRange{{'0', '9'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}})
}

func (m *M) emptyCond(op syntax.EmptyOp, s []Val, i int) *Term {
	c := m.ctx
	r := c.True
	if op&syntax.EmptyBeginText != 0 && i != 0 {
		return c.False
	}
	if op&syntax.EmptyEndText != 0 && i != len(s) {
		return c.False
	}
	if op&syntax.EmptyBeginLine != 0 && i != 0 {
		r = c.And(r, c.Eq(m.term(s[i-1]), c.Int('\n')))
	}
	if op&syntax.EmptyEndLine != 0 && i != len(s) {
		r = c.And(r, c.Eq(m.term(s[i]), c.Int('\n')))
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		a, b := c.False, c.False
		if i > 0 {
			a = m.isWord(s[i-1])
		}
		if i < len(s) {
			b = m.isWord(s[i])
		}
		diff := c.Or(c.And(a, c.Not(b)), c.And(c.Not(a), b))
		if op&syntax.EmptyWordBoundary != 0 {
			r = c.And(r, diff)
		} else {
			r = c.And(r, c.Not(diff))
		}
	}
	return r
}

// reMatch: does the expression match anywhere in s, as one boolean term
// (simulation of the automaton with a guard per state).
func (m *M) reMatch(r *reObj, s []Val) *Term {
	c := m.ctx
	n := len(r.prog.Inst)
	match := c.False
	cur := make([]*Term, n)
	for i := range cur {
		cur[i] = c.False
	}
	for i := 0; i <= len(s); i++ {
		// unanchored start
		st := make([]*Term, n)
		for k := range st {
			st[k] = c.False
		}
		var add func(pc uint32, g *Term, on map[uint32]bool)
		add = func(pc uint32, g *Term, on map[uint32]bool) {
			if g == c.False || on[pc] {
				return
			}
			in := &r.prog.Inst[pc]
			switch in.Op {
			case syntax.InstFail:
			case syntax.InstMatch:
				match = c.Or(match, g)
			case syntax.InstAlt, syntax.InstAltMatch:
				on[pc] = true
				add(in.Out, g, on)
				add(in.Arg, g, on)
				delete(on, pc)
			case syntax.InstCapture, syntax.InstNop:
				on[pc] = true
				add(in.Out, g, on)
				delete(on, pc)
			case syntax.InstEmptyWidth:
				on[pc] = true
				add(in.Out, c.And(g, m.emptyCond(syntax.EmptyOp(in.Arg), s, i)), on)
				delete(on, pc)
			default:
				st[pc] = c.Or(st[pc], g)
			}
		}
		for k := range cur {
			if cur[k] != c.False {
				add(uint32(k), cur[k], map[uint32]bool{})
			}
		}
		add(uint32(r.prog.Start), c.True, map[uint32]bool{})
		if match == c.True {
			return match
		}
		if i == len(s) {
			break
		}
		nx := make([]*Term, n)
		for k := range nx {
			nx[k] = c.False
		}
		for k := range st {
			if st[k] == c.False {
				continue
			}
			g := c.And(st[k], m.reStep(r, uint32(k), s[i]))
			if g == c.False {
				continue
			}
			o := r.prog.Inst[k].Out
			nx[o] = c.Or(nx[o], g)
		}
		cur = nx
	}
	return match
}

// reFind: leftmost-first submatches from position pos, deciding byte classes.
func (m *M) reFind(r *reObj, s []Val, pos int) []int {
	ncap := r.prog.NumCap
	for start := pos; start <= len(s); start++ {
		caps := make([]int, ncap)
		for i := range caps {
			caps[i] = -1
		}
		visited := map[[2]int]bool{}
		var bt func(pc uint32, i int) bool
		bt = func(pc uint32, i int) bool {
			k := [2]int{int(pc), i}
			if visited[k] {
				return false
			}
			visited[k] = true
			in := &r.prog.Inst[pc]
			switch in.Op {
			case syntax.InstFail:
				return false
			case syntax.InstMatch:
				if len(caps) > 1 {
					caps[1] = i
				}
				return true
			case syntax.InstAlt, syntax.InstAltMatch:
				return bt(in.Out, i) || bt(in.Arg, i)
			case syntax.InstNop:
				return bt(in.Out, i)
			case syntax.InstCapture:
				if int(in.Arg) < len(caps) {
					old := caps[in.Arg]
					caps[in.Arg] = i
					if bt(in.Out, i) {
						return true
					}
					caps[in.Arg] = old
					return false
				}
				return bt(in.Out, i)
			case syntax.InstEmptyWidth:
				if m.branch(m.emptyCond(syntax.EmptyOp(in.Arg), s, i)) {
					return bt(in.Out, i)
				}
				return false
			}
			if i >= len(s) {
				return false
			}
			if m.branch(m.reStep(r, pc, s[i])) {
				return bt(in.Out, i+1)
			}
			return false
		}
		if bt(uint32(r.prog.Start), start) {
			if len(caps) > 0 {
				caps[0] = start
			}
			return caps
		}
	}
	return nil
}

func strList(l []string) Val {
	if l == nil {
		return []Val(nil)
	}
	o := make([]Val, len(l))
	for i, s := range l {
		o[i] = s
	}
	return o
}

func intList(l []int) Val {
	if l == nil {
		return []Val(nil)
	}
	o := make([]Val, len(l))
	for i, s := range l {
		o[i] = int64(s)
	}
	return o
}

func (m *M) reReplace(r *reObj, src Val, repl func(dst []Val, caps []int) []Val) Val {
	s := strBytes(src)
	var out []Val
	lastEnd, search := 0, 0
	for search <= len(s) {
		a := m.reFind(r, s, search)
		if a == nil {
			break
		}
		out = append(out, s[lastEnd:a[0]]...)
		if a[1] > lastEnd || a[0] == 0 {
			out = repl(out, a)
		}
		lastEnd = a[1]
		w := 0
		if search < len(s) {
			_, w = m.decodeRune(s[search:])
		}
		if search+w > a[1] {
			search += w
		} else if search+1 > a[1] {
			search++
		} else {
			search = a[1]
		}
	}
	out = append(out, s[lastEnd:]...)
	return mkStr(out)
}

func (m *M) expand(r *reObj, dst []Val, tmpl string, src []Val, caps []int) []Val {
	// compute with placeholders: reuse the real Expand over a marker subject
	for len(tmpl) > 0 {
		before, after, ok := strings.Cut(tmpl, "$")
		if !ok {
			break
		}
		dst = append(dst, strBytes(before)...)
		tmpl = after
		if tmpl != "" && tmpl[0] == '$' {
			dst = append(dst, uint64('$'))
			tmpl = tmpl[1:]
			continue
		}
		name, num, rest, ok := reExtract(tmpl)
		if !ok {
			dst = append(dst, uint64('$'))
			continue
		}
		tmpl = rest
		if num >= 0 {
			if 2*num+1 < len(caps) && caps[2*num] >= 0 {
				dst = append(dst, src[caps[2*num]:caps[2*num+1]]...)
			}
		} else {
			for i, n := range r.re.SubexpNames() {
				if name == n && 2*i+1 < len(caps) && caps[2*i] >= 0 {
					dst = append(dst, src[caps[2*i]:caps[2*i+1]]...)
					break
				}
			}
		}
	}
	return append(dst, strBytes(tmpl)...)
}

// reExtract follows regexp.extract.
func reExtract(str string) (name string, num int, rest string, ok bool) {
	if str == "" {
		return
	}
	brace := false
	if str[0] == '{' {
		brace = true
		str = str[1:]
	}
	i := 0
	for i < len(str) {
		r, size := utf8.DecodeRuneInString(str[i:])
		if !unicode.IsLetter(r) && !unicode.IsDigit(r) && r != '_' {
			break
		}
		i += size
	}
	if i == 0 {
		return
	}
	name = str[:i]
	if brace {
		if i >= len(str) || str[i] != '}' {
			return
		}
		i++
	}
	num = 0
	for j := 0; j < len(name); j++ {
		if name[j] < '0' || '9' < name[j] || num >= 1e8 {
			num = -1
			break
		}
		num = num*10 + int(name[j]) - '0'
	}
	if name[0] == '0' && len(name) > 1 {
		num = -1
	}
	rest = str[i:]
	ok = true
	return
}

func lessSwapStruct(less Val, s []Val) Val {
	swap := &Closure{host: func(m *M, a []Val) Val {
		i, j := m.idx(a[0], len(s), "swap"), m.idx(a[1], len(s), "swap")
		t := copyVal(s[i])
		store(&s[i], copyVal(s[j]))
		store(&s[j], t)
		return nil
	}}
	return Struct{less, swap}
}

func init() {
	I := intrinsics
	// ---- unicode ----
	for name, f := range map[string]func(rune) bool{
		"IsSpace": unicode.IsSpace, "IsDigit": unicode.IsDigit, "IsLetter": unicode.IsLetter, "IsUpper": unicode.IsUpper,
		"IsLower": unicode.IsLower, "IsPunct": unicode.IsPunct, "IsPrint": unicode.IsPrint, "IsControl": unicode.IsControl,
		"IsNumber": unicode.IsNumber, "IsGraphic": unicode.IsGraphic, "IsSymbol": unicode.IsSymbol,
	} {
		name, f := name, f
		I["unicode."+name] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return m.runePred(name, f, a[0]) }
	}
	runeMap := func(f func(rune) rune, lo, hi byte, d int64) intrinsic {
		return func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
			if x, ok := a[0].(int64); ok {
				return int64(f(rune(x)))
			}
			r, ok := m.asciiMap(a[0], lo, hi, d)
			if !ok {
				t := m.term(a[0])
				if m.branch(m.ctx.And(m.ctx.Le(m.ctx.Int(0), t), m.ctx.Lt(t, m.ctx.Int(128)))) {
					c := m.ctx
					return m.fromTerm(c.Ite(c.And(c.Le(c.Int(int64(lo)), t), c.Le(t, c.Int(int64(hi)))), c.Add(t, c.Int(d)), t), int64(0))
				}
				return int64(f(rune(m.forkInt(t, 2100))))
			}
			return r
		}
	}
	I["unicode.ToUpper"] = runeMap(unicode.ToUpper, 'a', 'z', -32)
	I["unicode.ToLower"] = runeMap(unicode.ToLower, 'A', 'Z', 32)
	I["unicode/utf8.RuneCountInString"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return int64(m.runeCount(strBytes(a[0]))) }
	I["unicode/utf8.RuneCount"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return int64(m.runeCount(sl(a[0]))) }
	dec := func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		b := bytesOf(a[0])
		if len(b) == 0 {
			return Tuple{int64(utf8.RuneError), int64(0)}
		}
		r, w := m.decodeRune(b)
		return Tuple{r, int64(w)}
	}
	I["unicode/utf8.DecodeRuneInString"] = dec
	I["unicode/utf8.DecodeRune"] = dec
	full := func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		b := bytesOf(a[0])
		if len(b) == 0 {
			return false
		}
		var buf []byte
		for i := 0; i < len(b) && i < 4; i++ {
			if t, ok := b[i].(*Term); ok {
				if m.branch(m.ctx.Lt(t, m.ctx.Int(128))) {
					if i == 0 {
						return true
					}
					buf = append(buf, 'a')
					continue
				}
				buf = append(buf, byte(m.forkInt(t, 256)))
			} else {
				buf = append(buf, byte(b[i].(uint64)))
			}
		}
		return utf8.FullRune(buf)
	}
	I["unicode/utf8.FullRune"] = full
	I["unicode/utf8.FullRuneInString"] = full
	valid := func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		b := bytesOf(a[0])
		for i := 0; i < len(b); {
			r, w := m.decodeRune(b[i:])
			if x, ok := r.(int64); ok && x == utf8.RuneError && w == 1 {
				return false
			}
			i += w
		}
		return true
	}
	I["unicode/utf8.ValidString"] = valid
	I["unicode/utf8.Valid"] = valid

	// ---- strings / bytes / bytealg ----
	index := func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		if x, ok := a[0].(string); ok {
			if y, ok := a[1].(string); ok {
				return int64(strings.Index(x, y))
			}
		}
		return int64(m.strIndexOf(bytesOf(a[0]), bytesOf(a[1])))
	}
	I["strings.Index"] = index
	I["bytes.Index"] = index
	I["internal/stringslite.Index"] = index
	I["internal/bytealg.IndexString"] = index
	I["internal/bytealg.Index"] = index
	ib := func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		b := bytesOf(a[0])
		return int64(m.firstMatch(len(b), func(i int) *Term { return m.ctx.Eq(m.term(b[i]), m.term(a[1])) }))
	}
	for _, n := range []string{"strings.IndexByte", "bytes.IndexByte", "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "internal/stringslite.IndexByte"} {
		I[n] = ib
	}
	lib := func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		b := bytesOf(a[0])
		r := m.firstMatch(len(b), func(i int) *Term { return m.ctx.Eq(m.term(b[len(b)-1-i]), m.term(a[1])) })
		if r < 0 {
			return int64(-1)
		}
		return int64(len(b) - 1 - r)
	}
	for _, n := range []string{"strings.LastIndexByte", "bytes.LastIndexByte", "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		I[n] = lib
	}
	I["strings.LastIndex"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		b, s := strBytes(a[0]), strBytes(a[1])
		n := len(b) - len(s) + 1
		if n <= 0 {
			return int64(-1)
		}
		r := m.firstMatch(n, func(i int) *Term { return m.matchAt(b, s, n-1-i) })
		if r < 0 {
			return int64(-1)
		}
		return int64(n - 1 - r)
	}
	count := func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		b := bytesOf(a[0])
		n := int64(0)
		for _, x := range b {
			if m.branch(m.ctx.Eq(m.term(x), m.term(a[1]))) {
				n++
			}
		}
		return n
	}
	I["internal/bytealg.Count"] = count
	I["internal/bytealg.CountString"] = count
	I["internal/bytealg.Equal"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		return m.boolVal(m.strEq(&SymStr{sl(a[0])}, &SymStr{sl(a[1])}))
	}
	I["bytes.Equal"] = I["internal/bytealg.Equal"]
	I["internal/bytealg.Compare"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		x, y := &SymStr{sl(a[0])}, &SymStr{sl(a[1])}
		return m.fromTerm(m.ctx.Ite(m.strLess(x, y), m.ctx.Int(-1), m.ctx.Ite(m.strEq(x, y), m.ctx.Int(0), m.ctx.Int(1))), int64(0))
	}
	I["strings.Compare"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		x, y := a[0], a[1]
		return m.fromTerm(m.ctx.Ite(m.strLess(x, y), m.ctx.Int(-1), m.ctx.Ite(m.strEq(x, y), m.ctx.Int(0), m.ctx.Int(1))), int64(0))
	}
	I["internal/bytealg.CompareString"] = I["strings.Compare"]
	I["bytes.Compare"] = I["internal/bytealg.Compare"]
	I["internal/bytealg.MakeNoZero"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		n := a[0].(int64)
		s := make([]Val, n)
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	}
	I["strings.ToLower"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		if s, ok := a[0].(string); ok {
			return strings.ToLower(s)
		}
		return m.asciiStrMap(a[0], 'A', 'Z', 32)
	}
	I["strings.ToUpper"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		if s, ok := a[0].(string); ok {
			return strings.ToUpper(s)
		}
		return m.asciiStrMap(a[0], 'a', 'z', -32)
	}
	I["strings.EqualFold"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		if m.allConc(a[0], a[1]) {
			return strings.EqualFold(hostStr(a[0]), hostStr(a[1]))
		}
		return m.boolVal(m.strEq(m.asciiStrMap(a[0], 'A', 'Z', 32), m.asciiStrMap(a[1], 'A', 'Z', 32)))
	}
	I["strings.Repeat"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		n := m.forkVal(a[1], 128)
		if n < 0 {
			m.bigPanic("strings: negative Repeat count")
		}
		if s, ok := a[0].(string); ok {
			if int64(len(s))*n > 1<<20 {
				panic(unsupported{"huge Repeat"})
			}
			return strings.Repeat(s, int(n))
		}
		var o []Val
		for i := int64(0); i < n; i++ {
			o = append(o, strBytes(a[0])...)
		}
		return mkStr(o)
	}
	indexAny := func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		if m.allConc(a[0], a[1]) {
			return int64(strings.IndexAny(hostStr(a[0]), hostStr(a[1])))
		}
		set, ok := a[1].(string)
		if !ok {
			panic(unsupported{"symbolic char set"})
		}
		b := strBytes(a[0])
		return int64(m.firstMatch(len(b), func(i int) *Term {
			var os []*Term
			for j := 0; j < len(set); j++ {
				os = append(os, m.ctx.Eq(m.term(b[i]), m.ctx.Int(int64(set[j]))))
			}
			return m.ctx.Or(os...)
		}))
	}
	I["strings.IndexAny"] = indexAny
	trim := func(left, right bool) intrinsic {
		return func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
			set, ok := a[1].(string)
			if !ok {
				panic(unsupported{"symbolic cutset"})
			}
			if s, ok := a[0].(string); ok {
				if left {
					s = strings.TrimLeft(s, set)
				}
				if right {
					s = strings.TrimRight(s, set)
				}
				return s
			}
			b := strBytes(a[0])
			in := func(v Val) *Term {
				var os []*Term
				for j := 0; j < len(set); j++ {
					os = append(os, m.ctx.Eq(m.term(v), m.ctx.Int(int64(set[j]))))
				}
				return m.ctx.Or(os...)
			}
			lo, hi := 0, len(b)
			if left {
				for lo < hi && m.branch(in(b[lo])) {
					lo++
				}
			}
			if right {
				for hi > lo && m.branch(in(b[hi-1])) {
					hi--
				}
			}
			return mkStr(b[lo:hi])
		}
	}
	I["strings.Trim"] = trim(true, true)
	I["strings.TrimLeft"] = trim(true, false)
	I["strings.TrimRight"] = trim(false, true)
	I["strings.TrimSpace"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		if s, ok := a[0].(string); ok {
			return strings.TrimSpace(s)
		}
		b := append([]Val{}, strBytes(a[0])...)
		// bytes beyond ASCII are enumerated
		high := func(i int) bool {
			switch x := b[i].(type) {
			case uint64:
				return x >= 128
			case *Term:
				if x.hi != nil && x.hi.Cmp(ratInt(128)) < 0 {
					return false
				}
				if m.branch(m.ctx.Lt(x, m.ctx.Int(128))) {
					return false
				}
				b[i] = uint64(m.forkInt(x, 255))
				return true
			}
			panic(unsupported{"TrimSpace"})
		}
		sp := func(v Val) *Term { return m.inRanges(m.term(v), []runeRange{{9, 13}, {32, 32}}) }
		lo, hi := 0, len(b)
		for lo < hi {
			if !high(lo) {
				if !m.branch(sp(b[lo])) {
					break
				}
				lo++
				continue
			}
			var q []byte
			for k := lo; k < hi && k < lo+4 && high(k); k++ {
				q = append(q, byte(b[k].(uint64)))
			}
			r, w := utf8.DecodeRune(q)
			if !unicode.IsSpace(r) {
				break
			}
			lo += w
		}
		for hi > lo {
			if !high(hi - 1) {
				if !m.branch(sp(b[hi-1])) {
					break
				}
				hi--
				continue
			}
			var q []byte
			for k := hi - 1; k >= lo && k >= hi-4 && high(k); k-- {
				q = append([]byte{byte(b[k].(uint64))}, q...)
			}
			r, w := utf8.DecodeLastRune(q)
			if !unicode.IsSpace(r) {
				break
			}
			hi -= w
		}
		return mkStr(b[lo:hi])
	}
	I["strings.Clone"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return a[0] }
	I["internal/stringslite.Clone"] = I["strings.Clone"]
	I["strings.Join"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		var r Val = ""
		for i, s := range sl(a[0]) {
			if i > 0 {
				r = strConcat(r, a[1])
			}
			r = strConcat(r, s)
		}
		return r
	}
	I["strings.noescape"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return a[0] }
	I["internal/abi.NoEscape"] = I["strings.noescape"]
	I["(*strings.Builder).copyCheck"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return nil }

	// ---- strconv ----
	I["strconv.Itoa"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return mkStr(m.intDecimal(m.term(a[0]))) }
	I["strconv.FormatInt"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		if x, ok := a[0].(int64); ok {
			return strconv.FormatInt(x, int(a[1].(int64)))
		}
		if b, ok := a[1].(int64); !ok || b != 10 {
			panic(unsupported{"FormatInt base"})
		}
		return mkStr(m.intDecimal(m.term(a[0])))
	}
	I["strconv.FormatFloat"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		if x, ok := a[0].(float64); ok {
			return strconv.FormatFloat(x, byte(a[1].(uint64)), int(a[2].(int64)), int(a[3].(int64)))
		}
		format, prec := byte(a[1].(uint64)), a[2].(int64)
		switch {
		case format == 'g' && (prec == -1 || prec == 15) && a[3].(int64) == 64:
			return m.floatG(a[0].(*SymF).t, int(prec))
		case format == 'f' && prec == -1 && a[3].(int64) == 64:
			return m.floatShortest(a[0].(*SymF).t, new(big.Rat))
		case format != 'f' || prec < 0:
			return strconv.FormatFloat(m.floatFork(a[0].(*SymF).t), format, int(prec), int(a[3].(int64)))
		}
		return m.ratDecimal(a[0].(*SymF).t, int(a[2].(int64)))
	}
	I["strconv.Quote"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return mkStr(m.quote(a[0])) }
	I["strconv.ParseFloat"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		s, ok := a[0].(string)
		if !ok {
			var v Val = Struct{&ratP{m.ctx.Real(ratZero)}, nil}
			r := m.symRatString(&v, a[0]).(Tuple)
			if r[1].(bool) {
				return Tuple{m.ratToFloat(m.rat(&v)).(Tuple)[0], Iface{}}
			}
			return Tuple{float64(0), m.newError("strconv.ParseFloat: invalid syntax")}
		}
		f, err := strconv.ParseFloat(s, int(a[1].(int64)))
		if err != nil {
			return Tuple{f, m.newError(err.Error())}
		}
		return Tuple{f, Iface{}}
	}

	// ---- math ----
	m1 := func(f func(float64) float64) intrinsic {
		return func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
			x, ok := a[0].(float64)
			if !ok {
				panic(unsupported{"math function of symbolic float"})
			}
			return f(x)
		}
	}
	for n, f := range map[string]func(float64) float64{"Sqrt": math.Sqrt, "Log": math.Log, "Exp": math.Exp, "Log10": math.Log10, "Log2": math.Log2} {
		I["math."+n] = m1(f)
	}
	I["math.Abs"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		if x, ok := a[0].(float64); ok {
			return math.Abs(x)
		}
		t := a[0].(*SymF).t
		return m.floatVal(m.ctx.Ite(m.ctx.Lt(t, m.ctx.Real(ratZero)), m.ctx.Neg(t), t))
	}
	for _, mx := range []bool{false, true} {
		mx := mx
		n, nat := "math.Min", math.Min
		if mx {
			n, nat = "math.Max", math.Max
		}
		I[n] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
			x, ok := a[0].(float64)
			y, ok2 := a[1].(float64)
			if ok && ok2 {
				return nat(x, y)
			}
			if ok && (math.IsNaN(x) || math.IsInf(x, 0)) || ok2 && (math.IsNaN(y) || math.IsInf(y, 0)) {
				panic(unsupported{"math.Min/Max of non-finite"})
			}
			s, t := m.realOf(a[0]), m.realOf(a[1])
			if mx {
				s, t = t, s
				return m.floatVal(m.ctx.Ite(m.ctx.Le(s, t), t, s))
			}
			return m.floatVal(m.ctx.Ite(m.ctx.Le(s, t), s, t))
		}
	}
	I["math.Floor"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		if x, ok := a[0].(float64); ok {
			return math.Floor(x)
		}
		return m.floatVal(m.ctx.ToReal(m.ctx.Floor(a[0].(*SymF).t)))
	}
	I["math.Ceil"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		if x, ok := a[0].(float64); ok {
			return math.Ceil(x)
		}
		return m.floatVal(m.ctx.ToReal(m.ctx.Neg(m.ctx.Floor(m.ctx.Neg(a[0].(*SymF).t)))))
	}
	I["math.Pow"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		x, ok1 := a[0].(float64)
		y, ok2 := a[1].(float64)
		if !ok1 || !ok2 {
			panic(unsupported{"symbolic Pow"})
		}
		return math.Pow(x, y)
	}
	I["math.IsNaN"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		x, ok := a[0].(float64)
		return ok && math.IsNaN(x)
	}
	I["math.IsInf"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		x, ok := a[0].(float64)
		return ok && math.IsInf(x, int(a[1].(int64)))
	}
	I["math.Float64bits"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		if x, ok := a[0].(float64); ok {
			return math.Float64bits(x)
		}
		panic(unsupported{"Float64bits"})
	}
	I["math.Float64frombits"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		if x, ok := a[0].(uint64); ok {
			return math.Float64frombits(x)
		}
		panic(unsupported{"Float64frombits"})
	}
	I["math/bits.TrailingZeros"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		if x, ok := a[0].(uint64); ok {
			return int64(bits.TrailingZeros64(x))
		}
		panic(unsupported{"bits.TrailingZeros"})
	}
	I["math/bits.TrailingZeros64"] = I["math/bits.TrailingZeros"]

	// ---- sort ----
	sortSlice := func(fname string) intrinsic {
		return func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
			i := a[0].(Iface)
			s := sl(i.v)
			data := lessSwapStruct(a[1], s)
			pk := m.eng.prog.ImportedPackage("sort")
			n := int64(len(s))
			if fname == "stable_func" {
				return m.callFn(c, pk.Func(fname), []Val{data, n}, nil)
			}
			return m.callFn(c, pk.Func(fname), []Val{data, int64(0), n, int64(bits.Len(uint(n)))}, nil)
		}
	}
	I["sort.Slice"] = sortSlice("pdqsort_func")
	I["sort.SliceStable"] = sortSlice("stable_func")
	I["sort.SliceIsSorted"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		n := len(sl(a[0].(Iface).v))
		for i := n - 1; i > 0; i-- {
			r := m.call(c, a[1].(*Closure), []Val{int64(i), int64(i - 1)})
			if m.branch(m.term(r)) {
				return false
			}
		}
		return true
	}

	// ---- regexp ----
	comp := func(must, posix bool) intrinsic {
		return func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
			s := m.forkStr(a[0])
			re, err := regexp.Compile(s)
			if err != nil {
				if must {
					m.bigPanic("regexp: Compile(" + strconv.Quote(s) + "): " + err.Error())
				}
				return Tuple{(*Val)(nil), m.newError(err.Error())}
			}
			v := m.newRegexp(re)
			if must {
				return v
			}
			return Tuple{v, Iface{}}
		}
	}
	I["regexp.MustCompile"] = comp(true, false)
	I["regexp.Compile"] = comp(false, false)
	X := "(*regexp.Regexp)."
	I[X+"String"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return m.reOf(a[0]).re.String() }
	I[X+"MatchString"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		r := m.reOf(a[0])
		if s, ok := a[1].(string); ok {
			return r.re.MatchString(s)
		}
		return m.boolVal(m.reMatch(r, strBytes(a[1])))
	}
	I["regexp.MatchString"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		s, ok := a[0].(string)
		if !ok {
			panic(unsupported{"symbolic regular expression"})
		}
		re, err := regexp.Compile(s)
		if err != nil {
			return Tuple{false, m.newError(err.Error())}
		}
		r := (*(m.newRegexp(re).(*Val))).(*reObj)
		if s, ok := a[1].(string); ok {
			return Tuple{re.MatchString(s), Iface{}}
		}
		return Tuple{m.boolVal(m.reMatch(r, strBytes(a[1]))), Iface{}}
	}
	I[X+"FindStringSubmatch"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		r := m.reOf(a[0])
		if s, ok := a[1].(string); ok {
			return strList(r.re.FindStringSubmatch(s))
		}
		s := strBytes(a[1])
		c := m.reFind(r, s, 0)
		if c == nil {
			return []Val(nil)
		}
		o := make([]Val, len(c)/2)
		for i := range o {
			o[i] = ""
			if c[2*i] >= 0 {
				o[i] = mkStr(s[c[2*i]:c[2*i+1]])
			}
		}
		return o
	}
	I[X+"FindStringSubmatchIndex"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		return intList(m.reFind(m.reOf(a[0]), strBytes(a[1]), 0))
	}
	I[X+"FindString"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		s := strBytes(a[1])
		c := m.reFind(m.reOf(a[0]), s, 0)
		if c == nil {
			return ""
		}
		return mkStr(s[c[0]:c[1]])
	}
	I[X+"FindStringIndex"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		c := m.reFind(m.reOf(a[0]), strBytes(a[1]), 0)
		if c == nil {
			return []Val(nil)
		}
		return intList(c[:2])
	}
	I[X+"ReplaceAllString"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		r := m.reOf(a[0])
		t := m.forkStr(a[2])
		if m.allConc(a[1]) {
			return r.re.ReplaceAllString(hostStr(a[1]), t)
		}
		src := strBytes(a[1])
		return m.reReplace(r, a[1], func(dst []Val, caps []int) []Val { return m.expand(r, dst, t, src, caps) })
	}
	I[X+"ReplaceAllLiteralString"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		r := m.reOf(a[0])
		return m.reReplace(r, a[1], func(dst []Val, caps []int) []Val { return append(dst, strBytes(a[2])...) })
	}
	I[X+"ReplaceAllStringFunc"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		r := m.reOf(a[0])
		src := strBytes(a[1])
		return m.reReplace(r, a[1], func(dst []Val, caps []int) []Val {
			return append(dst, strBytes(m.call(c, a[2].(*Closure), []Val{mkStr(src[caps[0]:caps[1]])}))...)
		})
	}
	I[X+"SubexpNames"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return strList(m.reOf(a[0]).re.SubexpNames()) }
	I[X+"NumSubexp"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return int64(m.reOf(a[0]).re.NumSubexp()) }
	I["regexp.QuoteMeta"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		return regexp.QuoteMeta(m.forkStr(a[0]))
	}

	// ---- sync, runtime ----
	nop := func(m *M, _ *frame, fn *ssa.Function, _ []Val) Val { return zeroResult(fn) }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC",
		"(*sync.Pool).Put", "internal/race.Acquire", "internal/race.Release", "runtime/debug.SetGCPercent",
		"internal/godebug.New", "(*internal/godebug.Setting).IncNonDefault"} {
		I[n] = nop
	}
	I["(*internal/godebug.Setting).Value"] = func(m *M, _ *frame, _ *ssa.Function, _ []Val) Val { return "" }
	I["(*sync.Once).Do"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		p := a[0].(*Val)
		s := (*p).(Struct)
		if b, ok := s[0].(bool); ok && b {
			return nil
		}
		s[0] = true
		return m.call(c, a[1].(*Closure), nil)
	}
	I["(*sync.Pool).Get"] = func(m *M, c *frame, fn *ssa.Function, a []Val) Val {
		s := (*(a[0].(*Val))).(Struct)
		f, _ := s[len(s)-1].(*Closure)
		if f == nil {
			return Iface{}
		}
		return m.call(c, f, nil)
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Bool"} {
		ty := ty
		pre := "(*sync/atomic." + ty + ")."
		fld := func(a Val) *Val {
			s := (*(a.(*Val))).(Struct)
			return &s[len(s)-1]
		}
		I[pre+"Load"] = func(m *M, _ *frame, fn *ssa.Function, a []Val) Val {
			v := *fld(a[0])
			if ty == "Bool" {
				if b, ok := v.(bool); ok {
					return b
				}
				return v.(uint64) != 0
			}
			return v
		}
		I[pre+"Store"] = func(m *M, _ *frame, fn *ssa.Function, a []Val) Val { *fld(a[0]) = a[1]; return nil }
		I[pre+"Add"] = func(m *M, _ *frame, fn *ssa.Function, a []Val) Val {
			p := fld(a[0])
			k := types.Int64
			if strings.HasPrefix(ty, "U") {
				k = types.Uint64
			}
			*p = m.intVal(k, m.ctx.Add(m.term(*p), m.term(a[1])))
			return *p
		}
	}
	I["os.Exit"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return m.exit(fmt.Sprint(a[0])) }
	fatal := func(m *M, _ *frame, fn *ssa.Function, a []Val) Val { return m.exit("1 via " + fn.String()) }
	I["log.Fatal"] = fatal
	I["log.Fatalf"] = fatal
	I["log.Fatalln"] = fatal
	for _, n := range []string{"log.Printf", "log.Println", "log.Print"} {
		I[n] = nop
	}
	I["(*os.File).Fd"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return uint64(1) }
	// standard output is a terminal of the size the harness gives
	I["golang.org/x/term.IsTerminal"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		_, ok := m.state["terminal"].([2]Val)
		return ok && a[0] == int64(1)
	}
	I["golang.org/x/term.GetSize"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		t := m.state["terminal"].([2]Val)
		return Tuple{t[0], t[1], Iface{}}
	}
	I[vpkg+".Terminal"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		m.state["terminal"] = [2]Val{a[0], a[1]}
		return nil
	}
	stdf := func(name string) func(m *M) Val {
		return func(m *M) Val {
			var v Val = Struct{(*Val)(nil)}
			return &v
		}
	}
	specialGlobals["os.Stdout"] = stdf("stdout")
	specialGlobals["os.Stderr"] = stdf("stderr")
	specialGlobals["os.Stdin"] = stdf("stdin")
	specialGlobals["os.Args"] = func(m *M) Val { return []Val{"goledger"} }
}

// forkStr makes the characters of a string concrete, one path for each.
func (m *M) forkStr(v Val) string {
	switch x := v.(type) {
	case string:
		return x
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, y := range x.b {
			b[i] = byte(m.forkVal(y, 256))
		}
		return string(b)
	}
	panic(unsupported{fmt.Sprintf("forkStr %T", v)})
}

func (m *M) exit(code string) Val {
	if m.pure > 0 {
		panic(impure{"exit"})
	}
	if !m.allowX {
		m.eng.report(m, "exit", "process exit "+code+" in "+m.where(), m.model)
		panic(pathEnd{"violation", "exit"})
	}
	panic(pathEnd{"exit", code})
}
