package main

import (
	"go/types"
	"reflect"
	"strings"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Speculative evaluation of side-effect-free regions. At a branch on a symbolic
// condition the region from the branch to its post-dominator is evaluated on
// all paths at once; paths leaving it at the same place are joined with ite
// terms. This keeps short-circuit conditions, comparison functions and
// arithmetic selections from multiplying paths; it changes no semantics.

type exitRec struct {
	guard *Term
	block int // -1: return
	prev  int
	vals  map[int32]Val
	ret   Val
}

type region struct {
	fr     *frame
	stop   int
	exits  []exitRec
	onpath map[int]bool
	blocks map[int]bool
	n      int
	over   bool
}

const maxExits = 96

func (fr *frame) undoTo(n int) {
	for i := len(fr.undo) - 1; i >= n; i-- {
		u := fr.undo[i]
		fr.slots[u.slot] = u.old
	}
	fr.undo = fr.undo[:n]
}

func (r *region) exit(guard *Term, block, prev int, ret Val) {
	fr := r.fr
	e := exitRec{guard: guard, block: block, prev: prev, ret: ret}
	if block >= 0 {
		e.vals = map[int32]Val{}
		for _, u := range fr.undo {
			e.vals[u.slot] = fr.slots[u.slot]
		}
		// phi values at the target
		b := fr.fi.fn.Blocks[block]
		pi := -1
		for i, p := range b.Preds {
			if p.Index == prev {
				pi = i
				break
			}
		}
		ins := fr.fi.blocks[block].ins
		pv := map[int32]Val{}
		for i := 0; i < len(ins); i++ {
			if _, ok := ins[i].in.(*ssa.Phi); !ok {
				break
			}
			pv[ins[i].dst] = fr.get(&ins[i].ops[pi])
		}
		for k, v := range pv {
			e.vals[k] = v
		}
	}
	r.exits = append(r.exits, e)
	if len(r.exits) > maxExits {
		r.over = true
	}
}

// explore evaluates block (entered from prev) under guard.
func (r *region) explore(block, prev int, guard *Term, root bool) {
	if r.over {
		return
	}
	fr, m := r.fr, r.fr.m
	bi := &fr.fi.blocks[block]
	if !root && (block == r.stop || !bi.pure || r.onpath[block]) {
		r.exit(guard, block, prev, nil)
		return
	}
	r.n++
	if r.n > 400 {
		r.over = true
		return
	}
	mark := len(fr.undo)
	r.onpath[block] = true
	r.blocks[block] = true
	defer func() {
		delete(r.onpath, block)
	}()
	if !r.run(block, prev) {
		fr.undoTo(mark)
		delete(r.blocks, block)
		r.exit(guard, block, prev, nil)
		return
	}
	x := &bi.ins[len(bi.ins)-1]
	switch in := x.in.(type) {
	case *ssa.If:
		c := m.term(fr.get(&x.ops[0]))
		s := in.Block().Succs
		g1 := m.ctx.And(guard, c)
		g2 := m.ctx.And(guard, m.ctx.Not(c))
		if m.pcset[c] {
			g2 = m.ctx.False
		}
		if m.pcset[m.ctx.Not(c)] {
			g1 = m.ctx.False
		}
		mk := len(fr.undo)
		if g1 != m.ctx.False {
			r.explore(s[0].Index, block, g1, false)
			fr.undoTo(mk)
		}
		if g2 != m.ctx.False {
			r.explore(s[1].Index, block, g2, false)
			fr.undoTo(mk)
		}
	case *ssa.Jump:
		r.explore(in.Block().Succs[0].Index, block, guard, false)
	case *ssa.Return:
		var ret Val
		switch len(x.ops) {
		case 0:
		case 1:
			ret = fr.get(&x.ops[0])
		default:
			t := make(Tuple, len(x.ops))
			for j := range x.ops {
				t[j] = fr.get(&x.ops[j])
			}
			ret = t
		}
		r.exit(guard, -1, block, ret)
	default:
		r.exit(guard, block, prev, nil)
	}
	fr.undoTo(mark)
}

// run executes the straight-line part of a pure block; false if impure.
func (r *region) run(block, prev int) (ok bool) {
	fr, m := r.fr, r.fr.m
	depth, sl, pure := m.depth, len(m.stack), m.pure
	cur := m.curIn
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case impure:
			case unsupported:
			default:
				panic(e)
			}
			m.depth, m.stack, m.pure = depth, m.stack[:sl], pure
			m.curIn = cur
			ok = false
		}
	}()
	ins := fr.fi.blocks[block].ins
	fr.prev = prev
	fr.block = block
	i := 0
	if _, isphi := ins[0].in.(*ssa.Phi); isphi {
		i = fr.phis(ins)
	}
	for ; i < len(ins)-1; i++ {
		m.steps++
		m.curIn = ins[i].in
		fr.step(&ins[i])
	}
	return true
}

// symIf resolves a branch on symbolic condition c; true if the function
// returned.
func (fr *frame) symIf(in *ssa.If, c *Term) bool {
	m := fr.m
	if m.pcset[c] || m.pcset[m.ctx.Not(c)] || m.eng.noMerge {
		blk := fr.block
		t := m.branch(c)
		fr.prev = blk
		if t {
			fr.block = in.Block().Succs[0].Index
		} else {
			fr.block = in.Block().Succs[1].Index
		}
		return false
	}
	root := fr.block
	r := &region{fr: fr, stop: m.ipdom(fr.fi, root), onpath: map[int]bool{root: true}, blocks: map[int]bool{}}
	savedUndo, savedLog, savedPrev := fr.undo, fr.logging, fr.prev
	fr.undo, fr.logging = nil, true
	m.pure++
	s := in.Block().Succs
	r.explore(s[0].Index, root, c, false)
	fr.undoTo(0)
	r.explore(s[1].Index, root, m.ctx.Not(c), false)
	fr.undoTo(0)
	m.pure--
	fr.undo, fr.logging = savedUndo, savedLog
	fr.block, fr.prev = root, savedPrev
	if r.over {
		t := m.branch(c)
		fr.prev = root
		if t {
			fr.block = s[0].Index
		} else {
			fr.block = s[1].Index
		}
		m.enterGuard(fr, in)
		return false
	}
	groups := r.group()
	m.enterGuard(fr, in)
	k := 0
	if len(groups) > 1 {
		conds := make([]*Term, len(groups))
		for i, g := range groups {
			conds[i] = g.guard
		}
		k = m.choose(conds)
	}
	g := groups[k]
	if g.block < 0 {
		fr.result = g.ret
		fr.done = true
		return true
	}
	for s, v := range g.vals {
		fr.set(s, v)
	}
	fr.prev = -1
	fr.block = g.block
	return false
}

// enterGuard bounds how often one symbolic branch may be decided on a path.
func (m *M) enterGuard(fr *frame, in *ssa.If) {
	if fr.fi.harness {
		return
	}
	m.loops[in]++
	if m.loops[in] > m.eng.maxLoop {
		m.overflow("symbolic branch decided too often in " + fr.fi.fn.String())
	}
}

type groupRec struct {
	guard *Term
	block int
	vals  map[int32]Val
	ret   Val
}

// needed tells whether the value of slot can still be used by code that runs
// from block on.
func (r *region) needed(slot int32, block int) bool {
	fi := r.fr.fi
	if fi.neededCache == nil {
		nc := map[int32]ssa.Value{}
		for v, s := range fi.slots {
			nc[s] = v
		}
		fi.neededCache = nc
	}
	v := fi.neededCache[slot]
	if d, ok := v.(ssa.Instruction); ok && !d.Block().Dominates(fi.fn.Blocks[block]) {
		return false
	}
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	reach := fi.reach[block]
	if reach == nil {
		reach = map[int]bool{block: true}
		work := []*ssa.BasicBlock{fi.fn.Blocks[block]}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			for _, s := range b.Succs {
				if !reach[s.Index] {
					reach[s.Index] = true
					work = append(work, s)
				}
			}
		}
		if fi.reach == nil {
			fi.reach = map[int]map[int]bool{}
		}
		fi.reach[block] = reach
	}
	for _, in := range *refs {
		if reach[in.Block().Index] {
			return true
		}
	}
	return false
}

func (r *region) group() []groupRec {
	m := r.fr.m
	var out []groupRec
next:
	for _, e := range r.exits {
		for i := range out {
			g := &out[i]
			if g.block != e.block {
				continue
			}
			if e.block < 0 {
				v, ok := m.mergeVal(e.guard, e.ret, g.ret)
				if !ok {
					continue
				}
				g.ret = v
				g.guard = m.ctx.Or(g.guard, e.guard)
				continue next
			}
			nv := map[int32]Val{}
			good := true
			both := map[int32]bool{}
			for s := range e.vals {
				both[s] = true
			}
			for s := range g.vals {
				both[s] = true
			}
			for s := range both {
				v, has := e.vals[s]
				if !has {
					v = r.fr.slots[s]
				}
				w, has := g.vals[s]
				if !has {
					w = r.fr.slots[s]
				}
				if v == nil && w == nil {
					continue
				}
				if !r.needed(s, e.block) {
					continue
				}
				x, ok := m.mergeVal(e.guard, v, w)
				if !ok {
					good = false
					break
				}
				nv[s] = x
			}
			if !good {
				continue
			}
			g.vals = nv
			g.guard = m.ctx.Or(g.guard, e.guard)
			continue next
		}
		out = append(out, groupRec{e.guard, e.block, e.vals, e.ret})
	}
	return out
}

// mergeVal: ite(g, a, b) if expressible.
func (m *M) mergeVal(g *Term, a, b Val) (Val, bool) {
	switch x := a.(type) {
	case nil:
		return nil, b == nil
	case bool:
		switch y := b.(type) {
		case bool:
			if x == y {
				return x, true
			}
			return m.boolVal(m.ctx.Ite(g, m.ctx.Bool(x), m.ctx.Bool(y))), true
		case *Term:
			return m.boolVal(m.ctx.Ite(g, m.ctx.Bool(x), y)), true
		}
	case int64:
		if y, ok := b.(int64); ok && x == y {
			return x, true
		}
		switch b.(type) {
		case int64, *Term:
			return m.ctx.Ite(g, m.term(a), m.term(b)), true
		}
	case uint64:
		if y, ok := b.(uint64); ok && x == y {
			return x, true
		}
		switch b.(type) {
		case uint64, *Term:
			return m.ctx.Ite(g, m.term(a), m.term(b)), true
		}
	case *Term:
		switch b.(type) {
		case bool, int64, uint64, *Term:
			r := m.ctx.Ite(g, x, m.term(b))
			if r.isConst() {
				return m.fromTerm(r, b), true
			}
			return r, true
		}
	case float64:
		if y, ok := b.(float64); ok && (x == y || x != x && y != y) {
			return x, true
		}
		if y, ok := b.(*SymF); ok && x == x && x-x == 0 {
			return m.floatVal(m.ctx.Ite(g, m.realOf(x), y.t)), true
		}
		if y, ok := b.(float64); ok && x == x && y == y && x-x == 0 && y-y == 0 {
			return m.floatVal(m.ctx.Ite(g, m.realOf(x), m.realOf(y))), true
		}
	case *SymF:
		switch y := b.(type) {
		case *SymF:
			return m.floatVal(m.ctx.Ite(g, x.t, y.t)), true
		case float64:
			if y == y && y-y == 0 {
				return m.floatVal(m.ctx.Ite(g, x.t, m.realOf(y))), true
			}
		}
	case string, *SymStr:
		switch b.(type) {
		case string, *SymStr:
		default:
			return nil, false
		}
		if xs, ok := a.(string); ok {
			if ys, ok := b.(string); ok && xs == ys {
				return a, true
			}
		}
		if strLen(a) != strLen(b) {
			return nil, false
		}
		p, q := strBytes(a), strBytes(b)
		o := make([]Val, len(p))
		for i := range p {
			v, ok := m.mergeVal(g, p[i], q[i])
			if !ok {
				return nil, false
			}
			o[i] = v
		}
		return mkStr(o), true
	case *Val:
		y, ok := b.(*Val)
		return a, ok && x == y
	case *Closure:
		y, ok := b.(*Closure)
		return a, ok && x == y
	case *MapV:
		y, ok := b.(*MapV)
		return a, ok && x == y
	case []Val:
		y, ok := b.([]Val)
		if !ok {
			return nil, false
		}
		if (x == nil) != (y == nil) || len(x) != len(y) || cap(x) != cap(y) {
			return nil, false
		}
		if cap(x) == 0 || &x[:1][0] == &y[:1][0] {
			return a, true
		}
		return nil, false
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		o := make(Tuple, len(x))
		for i := range x {
			v, ok := m.mergeVal(g, x[i], y[i])
			if !ok {
				return nil, false
			}
			o[i] = v
		}
		return o, true
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		o := make(Struct, len(x))
		for i := range x {
			v, ok := m.mergeVal(g, x[i], y[i])
			if !ok {
				return nil, false
			}
			o[i] = v
		}
		return o, true
	case Array:
		y, ok := b.(Array)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		o := make(Array, len(x))
		for i := range x {
			v, ok := m.mergeVal(g, x[i], y[i])
			if !ok {
				return nil, false
			}
			o[i] = v
		}
		return o, true
	case Iface:
		y, ok := b.(Iface)
		if !ok || (x.t == nil) != (y.t == nil) {
			return nil, false
		}
		if x.t == nil {
			return a, true
		}
		if !types.Identical(x.t, y.t) {
			return nil, false
		}
		v, ok := m.mergeVal(g, x.v, y.v)
		if !ok {
			return nil, false
		}
		return Iface{x.t, v}, true
	}
	return nil, false
}

var pureIntrPrefix = []string{"strings.", "unicode.", "unicode/utf8.", "internal/bytealg.", "math.", "bytes.Equal", "bytes.Compare",
	"(*math/big.Rat).Sign", "(*math/big.Rat).Cmp", "(*math/big.Rat).IsInt", "(*math/big.Int).Sign", "(*math/big.Int).Cmp",
	"(*math/big.Rat).Num",
	"(*regexp.Regexp).MatchString", "internal/stringslite.", "errors.Is", "math/bits.", "cmp.Compare"}

func (m *M) pureCall(caller *frame, cl *Closure, args []Val) Val {
	if cl == nil || cl.host != nil || cl.fn == nil {
		panic(impure{"call"})
	}
	fn := cl.fn
	if h := m.intrinsicFor(fn); h != nil {
		n := fn.String()
		for _, p := range pureIntrPrefix {
			if strings.HasPrefix(n, p) {
				return h(m, caller, fn, args)
			}
		}
		panic(impure{"call of " + n})
	}
	if fn.Blocks == nil {
		panic(impure{"no body"})
	}
	if m.depth > 200 || m.pure > 20 {
		panic(impure{"depth"})
	}
	fi := m.info(fn)
	if fi.hasDef || !fi.blocks[0].pure {
		panic(impure{"callee"})
	}
	fi.count++
	fr := &frame{m: m, fi: fi, slots: make([]Val, fi.n), caller: caller, logging: true}
	copy(fr.slots, args)
	copy(fr.slots[len(fn.Params):], cl.env)
	m.depth++
	m.stack = append(m.stack, fn)
	sl := len(m.stack)
	r := &region{fr: fr, stop: -1, onpath: map[int]bool{}, blocks: map[int]bool{}}
	m.pure++
	r.explore(0, -1, m.ctx.True, true)
	m.pure--
	m.stack = m.stack[:sl-1]
	m.depth--
	if r.over || len(r.exits) == 0 {
		panic(impure{"region too large"})
	}
	for _, e := range r.exits {
		if e.block >= 0 {
			panic(impure{"callee impure"})
		}
	}
	g := r.group()
	if len(g) != 1 {
		panic(impure{"results differ"})
	}
	return g[0].ret
}

// ipdom returns the immediate post-dominator block index of b, or -1 for exit.
func (m *M) ipdom(fi *fnInfo, b int) int {
	if fi.pdom == nil {
		fi.pdom = computeIpdom(fi.fn)
	}
	return fi.pdom[b]
}

func computeIpdom(fn *ssa.Function) []int {
	n := len(fn.Blocks)
	// sets as bool slices; index n is the virtual exit
	pd := make([][]bool, n+1)
	for i := range pd {
		pd[i] = make([]bool, n+1)
		for j := range pd[i] {
			pd[i][j] = i != n
		}
	}
	pd[n][n] = true
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			nw := make([]bool, n+1)
			if len(b.Succs) == 0 {
				copy(nw, pd[n])
			} else {
				for j := range nw {
					nw[j] = true
					for _, s := range b.Succs {
						nw[j] = nw[j] && pd[s.Index][j]
					}
				}
			}
			nw[i] = true
			for j := range nw {
				if nw[j] != pd[i][j] {
					ch = true
				}
			}
			pd[i] = nw
		}
	}
	cnt := func(i int) int {
		c := 0
		for _, x := range pd[i] {
			if x {
				c++
			}
		}
		return c
	}
	res := make([]int, n)
	for i := 0; i < n; i++ {
		best, bc := -1, -1
		for j := 0; j <= n; j++ {
			if j == i || !pd[i][j] {
				continue
			}
			if c := cnt(j); c > bc {
				best, bc = j, c
			}
		}
		if best == n {
			best = -1
		}
		res[i] = best
	}
	return res
}

func unsafeSlice(p *Val, n int) []Val { return unsafe.Slice(p, n) }

func utf8FullRune(b []byte) bool { return utf8.FullRune(b) }
func utf8Decode(b []byte) (rune, int) {
	return utf8.DecodeRune(b)
}

// appendCap reproduces the runtime's growth of a slice with elements of the
// given type, so that aliasing through spare capacity is that of the real build.
type capKey struct {
	size int64
	ptr  bool
	old  int
	need int
}

var sizes = types.SizesFor("gc", "amd64")

func hasPtr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Array:
		return u.Len() > 0 && hasPtr(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (m *M) appendCap(el types.Type, old, need int) int {
	sz := sizes.Sizeof(el)
	if sz == 0 || need*int(sz) > 1<<20 {
		return growCap(old, need)
	}
	k := capKey{sz, hasPtr(el), old, need}
	if m.caps == nil {
		m.caps = map[capKey]int{}
	}
	if c, ok := m.caps[k]; ok {
		return c
	}
	var et reflect.Type
	if k.ptr {
		et = reflect.ArrayOf(int(sz/8), reflect.TypeOf((*byte)(nil)))
	} else {
		switch sz {
		case 1:
			et = reflect.TypeOf(byte(0))
		case 2:
			et = reflect.TypeOf(uint16(0))
		case 4:
			et = reflect.TypeOf(uint32(0))
		case 8:
			et = reflect.TypeOf(uint64(0))
		default:
			et = reflect.ArrayOf(int(sz), reflect.TypeOf(byte(0)))
		}
	}
	s := reflect.MakeSlice(reflect.SliceOf(et), old, old)
	s = reflect.AppendSlice(s, reflect.MakeSlice(reflect.SliceOf(et), need-old, need-old))
	c := s.Cap()
	m.caps[k] = c
	return c
}
