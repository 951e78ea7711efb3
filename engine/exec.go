package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type impure struct{ why string }

type opnd struct {
	slot int32
	kind uint8 // 0 slot,1 const,2 global
	val  Val
	g    *ssa.Global
}

type inst struct {
	in  ssa.Instruction
	ops []opnd
	dst int32
}

type blockInfo struct {
	ins  []inst
	pure bool // statically side-effect free
}

type fnInfo struct {
	fn      *ssa.Function
	n       int
	blocks  []blockInfo
	slots   map[ssa.Value]int32
	hasDef  bool
	count   int64
	repo    bool
	harness bool

	neededCache map[int32]ssa.Value
	reach       map[int]map[int]bool
	pdom        []int
}

type frame struct {
	m         *M
	fi        *fnInfo
	slots     []Val
	caller    *frame
	block     int
	prev      int
	defers    []deferred
	result    Val
	panicking bool
	pan       interface{}
	done      bool
	undo      []undoRec
	logging   bool
}

type undoRec struct {
	slot int32
	old  Val
}

type deferred struct {
	fn   *Closure
	args []Val
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		panic(unsupported{fmt.Sprintf("const of type %v", c.Type())})
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		if isSignedKind(b.Kind()) {
			i, _ := constant.Int64Val(v)
			return i
		}
		u, _ := constant.Uint64Val(v)
		return u
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	case b.Info()&types.IsComplex != 0:
		r, _ := constant.Float64Val(constant.Real(c.Value))
		i, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(r, i)
	}
	panic(unsupported{fmt.Sprintf("const %v", c)})
}

func (m *M) info(fn *ssa.Function) *fnInfo {
	if fi, ok := m.fns[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, slots: map[ssa.Value]int32{}}
	m.fns[fn] = fi
	fi.repo = m.eng.isRepo(fn)
	fi.harness = m.eng.isHarness(fn)
	add := func(v ssa.Value) {
		fi.slots[v] = int32(fi.n)
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.blocks = make([]blockInfo, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		info := &fi.blocks[bi]
		info.pure = true
		for _, in := range b.Instrs {
			x := inst{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				x.dst = fi.slots[v]
			}
			for _, op := range in.Operands(nil) {
				x.ops = append(x.ops, m.operand(fi, *op))
			}
			info.ins = append(info.ins, x)
			switch in := in.(type) {
			case *ssa.Defer, *ssa.RunDefers:
				fi.hasDef = true
				info.pure = false
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Panic, *ssa.Select, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.Range, *ssa.Next, *ssa.MakeClosure:
				info.pure = false
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap", "min", "max", "String", "StringData", "SliceData":
					default:
						info.pure = false
					}
				}
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					info.pure = false
				}
			}
		}
	}
	if fn.Recover != nil {
		fi.hasDef = true
	}
	return fi
}

func (m *M) operand(fi *fnInfo, v ssa.Value) opnd {
	switch v := v.(type) {
	case nil:
		return opnd{kind: 1}
	case *ssa.Const:
		return opnd{kind: 1, val: constVal(v)}
	case *ssa.Function:
		return opnd{kind: 1, val: m.eng.fnClosure(v)}
	case *ssa.Builtin:
		return opnd{kind: 1, val: &Closure{bi: v}}
	case *ssa.Global:
		return opnd{kind: 2, g: v}
	}
	s, ok := fi.slots[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %v in %v", v, fi.fn))
	}
	return opnd{slot: s}
}

func (fr *frame) get(o *opnd) Val {
	switch o.kind {
	case 0:
		return fr.slots[o.slot]
	case 1:
		return o.val
	}
	return fr.m.global(o.g)
}

func (fr *frame) set(d int32, v Val) {
	if fr.logging {
		fr.undo = append(fr.undo, undoRec{d, fr.slots[d]})
	}
	fr.slots[d] = v
}

// ---- globals and package initialisation ----

func (m *M) global(g *ssa.Global) Val {
	isRepo := m.eng.repoPkg(g.Pkg)
	tab := m.std
	if isRepo {
		tab = m.globals
	}
	if p, ok := tab[g]; ok {
		m.ensureInit(g.Pkg, isRepo)
		return p
	}
	p := new(Val)
	*p = zero(g.Type().(*types.Pointer).Elem())
	tab[g] = p
	if h, ok := specialGlobals[g.Pkg.Pkg.Path()+"."+g.Name()]; ok {
		*p = h(m)
		return p
	}
	m.ensureInit(g.Pkg, isRepo)
	return p
}

var skipInit = map[string]bool{
	"runtime": true, "syscall": true, "os": true, "reflect": true, "net": true, "internal/godebug": true,
	"internal/poll": true, "internal/cpu": true, "net/http": true, "crypto/tls": true, "fmt": true,
	"sync": true, "sync/atomic": true, "internal/bytealg": true, "log": true, "encoding/json": true, "internal/reflectlite": true,
}

func (m *M) ensureInit(p *ssa.Package, isRepo bool) {
	in := m.stdIn
	if isRepo {
		in = m.inited
	}
	if in[p] {
		return
	}
	in[p] = true
	if skipInit[p.Pkg.Path()] {
		// only simple error variables are given a value
		return
	}
	f := p.Func("init")
	if f == nil {
		return
	}
	savedPure, savedStack := m.pure, len(m.stack)
	m.pure = 0
	defer func() {
		m.pure = savedPure
		if e := recover(); e != nil {
			m.stack = m.stack[:savedStack]
			if u, ok := e.(unsupported); ok {
				m.eng.note(fmt.Sprintf("init of %s incomplete: %s", p.Pkg.Path(), u.msg))
				return
			}
			panic(e)
		}
	}()
	m.callFn(nil, f, nil, nil)
}

// ---- calls ----

const maxDepth = 3000

func (m *M) callFn(caller *frame, fn *ssa.Function, args []Val, env []Val) Val {
	if fn.Synthetic == "package initializer" && caller != nil && caller.fi.fn.Synthetic == "package initializer" && fn.Pkg != caller.fi.fn.Pkg {
		return nil // dependencies are initialised on demand
	}
	if h := m.intrinsicFor(fn); h != nil {
		return h(m, caller, fn, args)
	}
	return m.runBody(caller, fn, args, env)
}

// runBody executes a function's body.
func (m *M) runBody(caller *frame, fn *ssa.Function, args []Val, env []Val) Val {
	if fn.Blocks == nil {
		panic(unsupported{"no body: " + fn.String()})
	}
	if m.depth > maxDepth {
		m.overflow("call depth exceeded in " + fn.String())
	}
	fi := m.info(fn)
	fi.count++
	fr := &frame{m: m, fi: fi, slots: make([]Val, fi.n), caller: caller}
	copy(fr.slots, args)
	copy(fr.slots[len(fn.Params):], env)
	m.depth++
	m.stack = append(m.stack, fn)
	sl := len(m.stack)
	fr.run()
	m.stack = m.stack[:sl-1]
	m.depth--
	return fr.result
}

func (m *M) overflow(msg string) {
	if m.pure > 0 {
		panic(impure{"budget"})
	}
	m.eng.report(m, "hang", msg, m.model)
	panic(pathEnd{"budget", msg})
}

func (m *M) call(caller *frame, c *Closure, args []Val) Val {
	if c == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if c.host != nil {
		return c.host(m, args)
	}
	if c.bi != nil {
		panic(unsupported{"indirect builtin " + c.bi.Name()})
	}
	return m.callFn(caller, c.fn, args, c.env)
}

func (fr *frame) run() {
	if fr.fi.hasDef {
		for !fr.done {
			fr.runProtected()
		}
		return
	}
	fr.loop()
}

func (fr *frame) runProtected() {
	depth, sl := fr.m.depth, len(fr.m.stack)
	defer func() {
		if fr.done {
			return
		}
		e := recover()
		if e == nil {
			return
		}
		tp, ok := e.(targetPanic)
		if !ok {
			panic(e)
		}
		fr.m.depth = depth
		fr.m.stack = fr.m.stack[:sl]
		fr.panicking = true
		fr.pan = tp
		fr.runDefers()
		// recovered
		if fr.fi.fn.Recover != nil {
			fr.block = fr.fi.fn.Recover.Index
			fr.prev = -1
			return // run() re-enters
		}
		fr.result = zeroResult(fr.fi.fn)
		fr.done = true
	}()
	fr.loop()
}

func zeroResult(fn *ssa.Function) Val {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.pan)
	}
}

func (fr *frame) runDefer(d deferred) {
	depth, sl := fr.m.depth, len(fr.m.stack)
	ok := false
	defer func() {
		if ok {
			return
		}
		e := recover()
		if tp, is := e.(targetPanic); is {
			fr.m.depth = depth
			fr.m.stack = fr.m.stack[:sl]
			fr.panicking = true
			fr.pan = tp
			return
		}
		panic(e)
	}()
	if d.fn != nil && d.fn.bi != nil {
		fr.m.builtin(fr, d.fn.bi, d.args, nil)
	} else {
		fr.m.call(fr, d.fn, d.args)
	}
	ok = true
}

func (fr *frame) loop() {
	m := fr.m
	for {
		b := &fr.fi.blocks[fr.block]
		ins := b.ins
		i := 0
		if len(ins) > 0 {
			if _, ok := ins[0].in.(*ssa.Phi); ok {
				i = fr.phis(ins)
			}
		}
		next := false
		for ; i < len(ins); i++ {
			x := &ins[i]
			m.steps++
			if m.steps > m.eng.maxSteps {
				m.overflow("step budget exceeded in " + fr.fi.fn.String())
			}
			m.curIn = x.in
			switch in := x.in.(type) {
			case *ssa.If:
				c := fr.get(&x.ops[0])
				switch c := c.(type) {
				case bool:
					fr.prev = fr.block
					if c {
						fr.block = in.Block().Succs[0].Index
					} else {
						fr.block = in.Block().Succs[1].Index
					}
					next = true
				case *Term:
					if fr.symIf(in, c) {
						return
					}
					next = true
				default:
					panic(fmt.Sprintf("if %T", c))
				}
			case *ssa.Jump:
				fr.prev = fr.block
				fr.block = in.Block().Succs[0].Index
				next = true
			case *ssa.Return:
				switch len(x.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&x.ops[0])
				default:
					t := make(Tuple, len(x.ops))
					for j := range x.ops {
						t[j] = fr.get(&x.ops[j])
					}
					fr.result = t
				}
				fr.done = true
				return
			case *ssa.RunDefers:
				fr.runDefers()
			case *ssa.Panic:
				panic(targetPanic{fr.get(&x.ops[0]), m.where()})
			default:
				fr.step(x)
			}
			if next {
				break
			}
		}
		if !next {
			panic("fell off block in " + fr.fi.fn.String())
		}
	}
}

func (fr *frame) phis(ins []inst) int {
	n := 0
	blk := fr.fi.fn.Blocks[fr.block]
	pi := -1
	for i, p := range blk.Preds {
		if p.Index == fr.prev {
			pi = i
			break
		}
	}
	var vals []Val
	for n < len(ins) {
		if _, ok := ins[n].in.(*ssa.Phi); !ok {
			break
		}
		if pi >= 0 {
			vals = append(vals, fr.get(&ins[n].ops[pi]))
		}
		n++
	}
	if pi >= 0 { // pi<0: phi slots were already set by a merged region
		for i := 0; i < n; i++ {
			fr.set(ins[i].dst, vals[i])
		}
	}
	return n
}

func (m *M) nilDeref() { m.rtPanic("invalid memory address or nil pointer dereference") }

func (m *M) load(p Val) Val {
	a, ok := p.(*Val)
	if !ok {
		panic(unsupported{fmt.Sprintf("load %T", p)})
	}
	if a == nil {
		m.nilDeref()
	}
	return copyVal(*a)
}

func (m *M) idx(v Val, n int, what string) int {
	switch i := v.(type) {
	case int64:
		if i < 0 || i >= int64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	case uint64:
		if i >= uint64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	case *Term:
		in := m.ctx.And(m.ctx.Le(m.ctx.Int(0), i), m.ctx.Lt(i, m.ctx.Int(int64(n))))
		if in != m.ctx.True {
			if !m.branch(in) {
				m.rtPanic("index out of range [symbolic] with length " + fmt.Sprint(n))
			}
		}
		conds := make([]*Term, n)
		for j := range conds {
			conds[j] = m.ctx.Eq(i, m.ctx.Int(int64(j)))
		}
		return m.choose(conds)
	}
	panic(unsupported{fmt.Sprintf("index %T", v)})
}

// symSelect reads element i (symbolic) from scalar elements without forking.
func (m *M) symSelect(i *Term, el []Val) (Val, bool) {
	if len(el) == 0 || len(el) > 600 {
		return nil, false
	}
	allC := true
	for _, e := range el {
		switch e.(type) {
		case int64, uint64, bool:
		case *Term:
			allC = false
		default:
			return nil, false
		}
	}
	_ = allC
	in := m.ctx.And(m.ctx.Le(m.ctx.Int(0), i), m.ctx.Lt(i, m.ctx.Int(int64(len(el)))))
	if in != m.ctx.True {
		if !m.branch(in) {
			m.rtPanic("index out of range [symbolic] with length " + fmt.Sprint(len(el)))
		}
	}
	lo, hi := 0, len(el)-1
	if i.lo != nil && i.lo.Sign() > 0 {
		lo = int(floorInt(i.lo).Int64())
	}
	if i.hi != nil && i.hi.Cmp(ratInt(int64(hi))) < 0 {
		hi = int(floorInt(i.hi).Int64())
	}
	if hi < lo {
		return el[0], true
	}
	r := m.term(el[hi])
	for j := hi - 1; j >= lo; j-- {
		r = m.ctx.Ite(m.ctx.Le(i, m.ctx.Int(int64(j))), m.term(el[j]), r)
	}
	return m.fromTerm(r, el[0]), true
}

func (m *M) fromTerm(r *Term, like Val) Val {
	if !r.isConst() {
		return r
	}
	if r.sort == SBool {
		return r.b
	}
	switch like.(type) {
	case uint64:
		return r.c.Num().Uint64()
	case float64, *SymF:
		f, _ := r.c.Float64()
		return f
	case *Term:
		if r.c.Num().IsInt64() {
			return r // caller normalises
		}
	}
	return r.c.Num().Int64()
}

func (fr *frame) step(x *inst) {
	m := fr.m
	switch in := x.in.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.set(x.dst, m.unop(in, fr.get(&x.ops[0])))
	case *ssa.BinOp:
		fr.set(x.dst, m.binop(in.Op, in.X.Type(), fr.get(&x.ops[0]), fr.get(&x.ops[1]), in.Y.Type()))
	case *ssa.Call:
		fr.set(x.dst, fr.doCall(&in.Call, x))
	case *ssa.ChangeInterface:
		fr.set(x.dst, fr.get(&x.ops[0]))
	case *ssa.ChangeType:
		fr.set(x.dst, fr.get(&x.ops[0]))
	case *ssa.Convert:
		fr.set(x.dst, m.convert(in.X.Type(), in.Type(), fr.get(&x.ops[0])))
	case *ssa.MultiConvert:
		fr.set(x.dst, m.convert(in.X.Type(), in.Type(), fr.get(&x.ops[0])))
	case *ssa.SliceToArrayPointer:
		s := fr.get(&x.ops[0]).([]Val)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			m.rtPanic("cannot convert slice to array pointer")
		}
		var v Val = Array(s[:n:n])
		fr.set(x.dst, &v)
	case *ssa.MakeInterface:
		fr.set(x.dst, Iface{in.X.Type(), fr.get(&x.ops[0])})
	case *ssa.Extract:
		fr.set(x.dst, fr.get(&x.ops[0]).(Tuple)[in.Index])
	case *ssa.Alloc:
		p := new(Val)
		*p = zero(in.Type().(*types.Pointer).Elem())
		fr.set(x.dst, p)
	case *ssa.Store:
		p, ok := fr.get(&x.ops[0]).(*Val)
		if !ok {
			panic(unsupported{"store to non-pointer"})
		}
		if p == nil {
			m.nilDeref()
		}
		store(p, fr.get(&x.ops[1]))
	case *ssa.FieldAddr:
		p, ok := fr.get(&x.ops[0]).(*Val)
		if !ok {
			panic(unsupported{fmt.Sprintf("fieldaddr on %T", fr.get(&x.ops[0]))})
		}
		if p == nil {
			m.nilDeref()
		}
		s, ok := (*p).(Struct)
		if !ok {
			panic(unsupported{fmt.Sprintf("field of opaque %T (%v)", *p, in.X.Type())})
		}
		fr.set(x.dst, &s[in.Field])
	case *ssa.Field:
		s, ok := fr.get(&x.ops[0]).(Struct)
		if !ok {
			panic(unsupported{fmt.Sprintf("field of opaque value %v", in.X.Type())})
		}
		fr.set(x.dst, s[in.Field])
	case *ssa.IndexAddr:
		switch a := fr.get(&x.ops[0]).(type) {
		case []Val:
			fr.set(x.dst, fr.idxAddr(a, fr.get(&x.ops[1])))
		case *Val:
			if a == nil {
				m.nilDeref()
			}
			fr.set(x.dst, fr.idxAddr([]Val((*a).(Array)), fr.get(&x.ops[1])))
		default:
			panic(unsupported{fmt.Sprintf("indexaddr %T", a)})
		}
	case *ssa.Index:
		switch a := fr.get(&x.ops[0]).(type) {
		case Array:
			iv := fr.get(&x.ops[1])
			if t, ok := iv.(*Term); ok {
				if r, ok := m.symSelect(t, a); ok {
					fr.set(x.dst, m.normLike(r, in.Type()))
					return
				}
			}
			fr.set(x.dst, a[m.idx(iv, len(a), "array")])
		case string, *SymStr:
			fr.set(x.dst, m.strIndex(a, fr.get(&x.ops[1])))
		default:
			panic(unsupported{fmt.Sprintf("index %T", a)})
		}
	case *ssa.Lookup:
		switch a := fr.get(&x.ops[0]).(type) {
		case string, *SymStr:
			fr.set(x.dst, m.strIndex(a, fr.get(&x.ops[1])))
		case *MapV:
			if m.pure > 0 {
				if _, conc := hashKey(fr.get(&x.ops[1])); !conc || (a != nil && a.nsym > 0) {
					panic(impure{"map lookup"})
				}
			}
			e := m.mapFind(a, fr.get(&x.ops[1]))
			var v Val
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zero(in.X.Type().Underlying().(*types.Map).Elem())
			}
			if in.CommaOk {
				fr.set(x.dst, Tuple{v, e != nil})
			} else {
				fr.set(x.dst, v)
			}
		default:
			panic(unsupported{fmt.Sprintf("lookup %T", a)})
		}
	case *ssa.Slice:
		fr.set(x.dst, fr.doSlice(in, x))
	case *ssa.MakeSlice:
		n := int(m.forkVal(fr.get(&x.ops[0]), 64))
		c := int(m.forkVal(fr.get(&x.ops[1]), 64))
		if n < 0 || n > c {
			m.rtPanic("makeslice: len out of range")
		}
		if c > 1<<22 {
			panic(unsupported{"huge makeslice"})
		}
		s := make([]Val, c)
		el := in.Type().Underlying().(*types.Slice).Elem()
		for i := range s {
			s[i] = zero(el)
		}
		fr.set(x.dst, s[:n])
	case *ssa.MakeMap:
		fr.set(x.dst, newMap())
	case *ssa.MakeChan:
		n := m.forkVal(fr.get(&x.ops[0]), 16)
		fr.set(x.dst, &ChanV{cap: int(n)})
	case *ssa.MakeClosure:
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for j := 1; j < len(x.ops); j++ {
			c.env = append(c.env, fr.get(&x.ops[j]))
		}
		fr.set(x.dst, c)
	case *ssa.MapUpdate:
		m.mapSet(fr.get(&x.ops[0]).(*MapV), fr.get(&x.ops[1]), copyVal(fr.get(&x.ops[2])))
	case *ssa.Range:
		switch a := fr.get(&x.ops[0]).(type) {
		case *MapV:
			fr.set(x.dst, m.newMapIter(fr, a))
		case string, *SymStr:
			fr.set(x.dst, &strIter{b: strBytes(a)})
		}
	case *ssa.Next:
		fr.set(x.dst, m.next(fr.get(&x.ops[0]), in))
	case *ssa.TypeAssert:
		fr.set(x.dst, m.typeAssert(in, fr.get(&x.ops[0])))
	case *ssa.Defer:
		fn, args := fr.prepCall(&in.Call, x)
		fr.defers = append(fr.defers, deferred{fn, args})
	case *ssa.Go:
		fn, args := fr.prepCall(&in.Call, x)
		// run synchronously: only used by code outside the claimed scope
		m.eng.note("goroutine run synchronously in " + fr.fi.fn.String())
		m.call(fr, fn, args)
	case *ssa.Send:
		ch := fr.get(&x.ops[0]).(*ChanV)
		ch.buf = append(ch.buf, fr.get(&x.ops[1]))
	case *ssa.Select:
		// only: look at channels which never are ready, as those of the
		// background context
		for _, o := range x.ops {
			if ch, ok := fr.get(&o).(*ChanV); ok && ch != nil {
				panic(unsupported{"select of a channel"})
			}
		}
		if in.Blocking {
			panic(unsupported{"select which blocks"})
		}
		r := Tuple{int64(-1), false}
		for _, st := range in.States {
			if st.Dir == types.RecvOnly {
				r = append(r, zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
		fr.set(x.dst, r)
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", in)})
	}
}

func (m *M) normLike(v Val, t types.Type) Val {
	if tt, ok := v.(*Term); ok && tt.isConst() && tt.sort == SInt {
		return m.intVal(basicOf(t).Kind(), tt)
	}
	return v
}

func (fr *frame) idxAddr(a []Val, i Val) Val {
	m := fr.m
	if t, ok := i.(*Term); ok {
		return &a[m.idx(t, len(a), "slice")]
	}
	return &a[m.idx(i, len(a), "slice")]
}

func (m *M) strIndex(s Val, i Val) Val {
	n := strLen(s)
	if t, ok := i.(*Term); ok {
		b := strBytes(s)
		if r, ok := m.symSelect(t, b); ok {
			if tt, ok := r.(*Term); ok && tt.isConst() {
				return tt.c.Num().Uint64()
			}
			if x, ok := r.(int64); ok {
				return uint64(x)
			}
			return r
		}
	}
	j := m.idx(i, n, "string")
	switch s := s.(type) {
	case string:
		return uint64(s[j])
	case *SymStr:
		return s.b[j]
	}
	panic("strIndex")
}

func (fr *frame) doSlice(in *ssa.Slice, x *inst) Val {
	m := fr.m
	opt := func(k int) (int, bool) {
		// operands: X, Low, High, Max with nils skipped? (ssa lists all, nil for absent)
		return 0, false
	}
	_ = opt
	base := fr.get(&x.ops[0])
	get := func(v ssa.Value, k int, def int) int {
		if v == nil {
			return def
		}
		return int(m.forkVal(fr.get(&x.ops[k]), 512))
	}
	switch a := base.(type) {
	case string, *SymStr:
		n := strLen(a)
		lo := get(in.Low, 1, 0)
		hi := get(in.High, 2, n)
		if lo < 0 || hi < lo || hi > n {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		return strSlice(a, lo, hi)
	case []Val:
		lo := get(in.Low, 1, 0)
		hi := get(in.High, 2, len(a))
		mx := get(in.Max, 3, cap(a))
		if lo < 0 || hi < lo || hi > mx || mx > cap(a) {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, cap(a)))
		}
		if a == nil {
			return a
		}
		return a[lo:hi:mx]
	case *Val:
		if a == nil {
			m.nilDeref()
		}
		arr := []Val((*a).(Array))
		lo := get(in.Low, 1, 0)
		hi := get(in.High, 2, len(arr))
		mx := get(in.Max, 3, len(arr))
		if lo < 0 || hi < lo || hi > mx || mx > len(arr) {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, len(arr)))
		}
		return arr[lo:hi:mx]
	}
	panic(unsupported{fmt.Sprintf("slice of %T", base)})
}

func (fr *frame) prepCall(c *ssa.CallCommon, x *inst) (*Closure, []Val) {
	m := fr.m
	// operands: Value, Args...
	args := make([]Val, 0, len(x.ops))
	v := fr.get(&x.ops[0])
	if c.IsInvoke() {
		i, ok := v.(Iface)
		if !ok {
			panic(unsupported{fmt.Sprintf("invoke on %T", v)})
		}
		if i.t == nil {
			m.nilDeref()
		}
		fn := m.eng.lookupMethod(i.t, c.Method)
		if fn == nil {
			if o, ok := i.v.(*opaque); ok {
				args = append(args, i.v)
				for k := 1; k < len(x.ops); k++ {
					args = append(args, fr.get(&x.ops[k]))
				}
				name := c.Method.Name()
				return &Closure{host: func(m *M, args []Val) Val { return o.method(m, name, args[1:]) }}, args
			}
			panic(unsupported{fmt.Sprintf("no method %v on %v", c.Method, i.t)})
		}
		args = append(args, i.v)
		for k := 1; k < len(x.ops); k++ {
			args = append(args, fr.get(&x.ops[k]))
		}
		return m.eng.fnClosure(fn), args
	}
	for k := 1; k < len(x.ops); k++ {
		args = append(args, fr.get(&x.ops[k]))
	}
	cl, ok := v.(*Closure)
	if !ok {
		panic(unsupported{fmt.Sprintf("call of %T", v)})
	}
	return cl, args
}

func (fr *frame) doCall(c *ssa.CallCommon, x *inst) Val {
	m := fr.m
	cl, args := fr.prepCall(c, x)
	if cl != nil && cl.bi != nil {
		return m.builtin(fr, cl.bi, args, c)
	}
	if m.pure > 0 {
		return m.pureCall(fr, cl, args)
	}
	return m.call(fr, cl, args)
}

func (m *M) typeAssert(in *ssa.TypeAssert, v Val) Val {
	i, ok := v.(Iface)
	if !ok {
		panic(unsupported{fmt.Sprintf("typeassert on %T", v)})
	}
	good := false
	var res Val
	if it, ok := in.AssertedType.Underlying().(*types.Interface); ok {
		if i.t != nil && (types.Implements(i.t, it)) {
			good = true
			res = i
		} else {
			res = Iface{}
		}
	} else {
		if i.t != nil && types.Identical(i.t, in.AssertedType) {
			good = true
			res = i.v
		} else {
			res = zero(in.AssertedType)
		}
	}
	if in.CommaOk {
		return Tuple{res, good}
	}
	if !good {
		ts := "nil"
		if i.t != nil {
			ts = i.t.String()
		}
		m.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", ts, in.AssertedType))
	}
	return res
}

func (m *M) newMapIter(fr *frame, a *MapV) *mapIter {
	it := &mapIter{m: a}
	if a == nil {
		return it
	}
	for _, e := range a.ents {
		if !e.dead {
			it.ord = append(it.ord, e)
		}
	}
	it.seen = len(a.ents)
	n := len(it.ord)
	if n > 1 && m.mapOrd > 0 && !netCode(fr) {
		switch m.mapOrd {
		case 1:
			if m.free(2) == 1 {
				for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
					it.ord[i], it.ord[j] = it.ord[j], it.ord[i]
				}
			}
		case 2:
			// all permutations, chosen element by element
			for i := 0; i < n-1; i++ {
				k := i + m.free(n-i)
				it.ord[i], it.ord[k] = it.ord[k], it.ord[i]
			}
		}
	}
	return it
}

// netCode: headers and parameters of requests are taken in one order.
func netCode(fr *frame) bool {
	if fr == nil || fr.fi.fn.Pkg == nil {
		return false
	}
	p := fr.fi.fn.Pkg.Pkg.Path()
	return strings.HasPrefix(p, "net/") || strings.HasPrefix(p, "golang.org/x/oauth2") || p == "mime"
}

func (m *M) next(v Val, in *ssa.Next) Val {
	switch it := v.(type) {
	case *mapIter:
		for it.i < len(it.ord) {
			e := it.ord[it.i]
			it.i++
			if e.dead {
				continue
			}
			return Tuple{true, copyVal(e.k), copyVal(e.v)}
		}
		// entries added during iteration: may or may not be produced
		if it.m != nil {
			for it.seen < len(it.m.ents) {
				e := it.m.ents[it.seen]
				it.seen++
				if e.dead {
					continue
				}
				if m.mapOrd > 0 && m.free(2) == 0 {
					continue
				}
				if m.mapOrd == 0 {
					continue
				}
				return Tuple{true, copyVal(e.k), copyVal(e.v)}
			}
		}
		return Tuple{false, zeroOrNil(in.Type(), 1), zeroOrNil(in.Type(), 2)}
	case *strIter:
		if it.i >= len(it.b) {
			return Tuple{false, int64(0), int64(0)}
		}
		p := it.i
		r, w := m.decodeRune(it.b[p:])
		it.i += w
		return Tuple{true, int64(p), r}
	}
	panic(unsupported{fmt.Sprintf("next %T", v)})
}

func zeroOrNil(t types.Type, i int) Val {
	tt := t.(*types.Tuple).At(i).Type()
	if b, ok := tt.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(tt)
}

// decodeRune decodes the first rune of b (Val bytes).
func (m *M) decodeRune(b []Val) (Val, int) {
	if t, ok := b[0].(*Term); ok {
		lt := m.ctx.Lt(t, m.ctx.Int(0x80))
		if lt != m.ctx.True && !m.branch(lt) {
			// symbolic non-ASCII lead byte: enumerate it
			return m.decodeRuneSlow(b)
		}
		return t, 1
	}
	c := b[0].(uint64)
	if c < 0x80 {
		return int64(c), 1
	}
	return m.decodeRuneSlow(b)
}

func (m *M) decodeRuneSlow(b []Val) (Val, int) {
	n := len(b)
	if n > 4 {
		n = 4
	}
	buf := []byte{}
	for i := 0; i < n; i++ {
		x := b[i]
		if t, ok := x.(*Term); ok {
			x = uint64(m.forkInt(t, 256))
		}
		buf = append(buf, byte(x.(uint64)))
		if i == 0 && buf[0] < 0x80 {
			break
		}
		if utf8FullRune(buf) {
			break
		}
	}
	r, w := utf8Decode(buf)
	return int64(r), w
}

// ---- operators ----

func (m *M) unop(in *ssa.UnOp, v Val) Val {
	switch in.Op {
	case token.MUL:
		return m.load(v)
	case token.NOT:
		if b, ok := v.(bool); ok {
			return !b
		}
		return m.boolVal(m.ctx.Not(v.(*Term)))
	case token.SUB:
		switch x := v.(type) {
		case int64:
			return wrapConc(basicOf(in.Type()).Kind(), -x)
		case uint64:
			return wrapConc(basicOf(in.Type()).Kind(), -int64(x))
		case float64:
			return -x
		case *Term:
			return m.intVal(basicOf(in.Type()).Kind(), m.ctx.Neg(x))
		case *SymF:
			return m.floatVal(m.ctx.Neg(x.t))
		}
	case token.XOR:
		k := basicOf(in.Type()).Kind()
		switch x := v.(type) {
		case int64:
			return wrapConc(k, ^x)
		case uint64:
			return wrapConc(k, int64(^x))
		case *Term:
			if isSignedKind(k) {
				return m.intVal(k, m.ctx.Sub(m.ctx.Int(-1), x))
			}
			_, hi := kindRange(k)
			return m.intVal(k, m.ctx.Sub(m.ctx.IntBig(hi), x))
		}
	case token.ARROW:
		ch, ok := v.(*ChanV)
		if !ok || ch == nil || len(ch.buf) == 0 {
			if ok && ch != nil && ch.closed {
				z := zero(in.X.Type().Underlying().(*types.Chan).Elem())
				if in.CommaOk {
					return Tuple{z, false}
				}
				return z
			}
			panic(unsupported{"blocking channel receive"})
		}
		r := ch.buf[0]
		ch.buf = ch.buf[1:]
		if in.CommaOk {
			return Tuple{r, true}
		}
		return r
	}
	panic(unsupported{fmt.Sprintf("unop %v %T", in.Op, v)})
}

func (m *M) binop(op token.Token, t types.Type, x, y Val, yt types.Type) Val {
	c := m.ctx
	switch op {
	case token.EQL:
		return m.boolVal(m.eqVal(x, y))
	case token.NEQ:
		return m.boolVal(c.Not(m.eqVal(x, y)))
	}
	b := basicOf(t)
	if b == nil {
		panic(unsupported{fmt.Sprintf("binop on %v", t)})
	}
	switch {
	case b.Info()&types.IsString != 0:
		switch op {
		case token.ADD:
			return strConcat(x, y)
		}
		if xs, ok := x.(string); ok {
			if ys, ok := y.(string); ok {
				switch op {
				case token.LSS:
					return xs < ys
				case token.LEQ:
					return xs <= ys
				case token.GTR:
					return xs > ys
				case token.GEQ:
					return xs >= ys
				}
			}
		}
		switch op {
		case token.LSS:
			return m.boolVal(m.strLess(x, y))
		case token.LEQ:
			return m.boolVal(c.Not(m.strLess(y, x)))
		case token.GTR:
			return m.boolVal(m.strLess(y, x))
		case token.GEQ:
			return m.boolVal(c.Not(m.strLess(x, y)))
		}
	case b.Info()&types.IsInteger != 0:
		return m.intBinop(op, b.Kind(), x, y, yt)
	case b.Info()&types.IsFloat != 0:
		xf, ok1 := x.(float64)
		yf, ok2 := y.(float64)
		if ok1 && ok2 {
			f32 := b.Kind() == types.Float32
			r := func(f float64) Val {
				if f32 {
					return float64(float32(f))
				}
				return f
			}
			switch op {
			case token.ADD:
				return r(xf + yf)
			case token.SUB:
				return r(xf - yf)
			case token.MUL:
				return r(xf * yf)
			case token.QUO:
				return r(xf / yf)
			case token.LSS:
				return xf < yf
			case token.LEQ:
				return xf <= yf
			case token.GTR:
				return xf > yf
			case token.GEQ:
				return xf >= yf
			}
		}
		// infinities against symbolic finite values
		if ok1 && math.IsInf(xf, 0) || ok2 && math.IsInf(yf, 0) || ok1 && math.IsNaN(xf) || ok2 && math.IsNaN(yf) {
			panic(unsupported{"inf/nan with symbolic float"})
		}
		X, Y := m.realOf(x), m.realOf(y)
		switch op {
		case token.LSS:
			return m.boolVal(c.Lt(X, Y))
		case token.LEQ:
			return m.boolVal(c.Le(X, Y))
		case token.GTR:
			return m.boolVal(c.Lt(Y, X))
		case token.GEQ:
			return m.boolVal(c.Le(Y, X))
		case token.ADD:
			return m.roundedFloat(c.Add(X, Y))
		case token.SUB:
			return m.roundedFloat(c.Sub(X, Y))
		case token.MUL:
			return m.roundedFloat(c.Mul(X, Y))
		case token.QUO:
			if Y.isConst() && Y.c.Sign() != 0 {
				return m.roundedFloat(c.Scale(X, new(big.Rat).Inv(Y.c)))
			}
			if !m.nonZero(Y) {
				panic(unsupported{"float division by a symbolic zero"})
			}
			return m.roundedFloat(c.Mul(X, c.Inv(Y)))
		}
	case b.Info()&types.IsBoolean != 0:
		X, Y := m.term(x), m.term(y)
		switch op {
		case token.AND, token.LAND:
			return m.boolVal(c.And(X, Y))
		case token.OR, token.LOR:
			return m.boolVal(c.Or(X, Y))
		}
	case b.Info()&types.IsComplex != 0:
		panic(unsupported{"complex"})
	}
	panic(unsupported{fmt.Sprintf("binop %v on %v (%T,%T)", op, t, x, y)})
}

var maxExact = new(big.Rat).SetInt64(1 << 53)

// roundedFloat: result of a float operation whose exact real value is t. Only
// values that are provably integers below 2^53 (no rounding) are accepted.
func (m *M) roundedFloat(t *Term) Val {
	if t.isConst() {
		f, _ := t.c.Float64()
		return f
	}
	if _, ok := m.ctx.IntOf(t); ok && absBounded(t, maxExact) {
		return m.floatVal(t)
	}
	// dyadic: t*2^k integer and small
	s := t
	for k := 0; k < 20; k++ {
		s = m.ctx.Scale(s, ratInt(2))
		if !absBounded(s, maxExact) {
			break
		}
		if _, ok := m.ctx.IntOf(s); ok {
			return m.floatVal(t)
		}
	}
	m.eng.note("float rounding not modelled: symbolic doubles are kept as exact reals")
	return &SymF{t}
}

func absBounded(t *Term, b *big.Rat) bool {
	if t.lo == nil || t.hi == nil {
		return false
	}
	return t.hi.Cmp(b) <= 0 && new(big.Rat).Neg(t.lo).Cmp(b) <= 0
}

func (m *M) intBinop(op token.Token, k types.BasicKind, x, y Val, yt types.Type) Val {
	switch op {
	case token.SHL, token.SHR:
		return m.shift(op, k, x, y)
	}
	if a, ok := x.(int64); ok {
		if b, ok := y.(int64); ok {
			switch op {
			case token.ADD:
				return wrapConc(k, a+b)
			case token.SUB:
				return wrapConc(k, a-b)
			case token.MUL:
				return wrapConc(k, a*b)
			case token.QUO:
				if b == 0 {
					m.rtPanic("integer divide by zero")
				}
				return wrapConc(k, a/b)
			case token.REM:
				if b == 0 {
					m.rtPanic("integer divide by zero")
				}
				if b == -1 {
					return int64(0)
				}
				return wrapConc(k, a%b)
			case token.AND:
				return a & b
			case token.OR:
				return a | b
			case token.XOR:
				return a ^ b
			case token.AND_NOT:
				return a &^ b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		}
	}
	if a, ok := x.(uint64); ok {
		if b, ok := y.(uint64); ok {
			switch op {
			case token.ADD:
				return wrapConc(k, int64(a+b))
			case token.SUB:
				return wrapConc(k, int64(a-b))
			case token.MUL:
				return wrapConc(k, int64(a*b))
			case token.QUO:
				if b == 0 {
					m.rtPanic("integer divide by zero")
				}
				return a / b
			case token.REM:
				if b == 0 {
					m.rtPanic("integer divide by zero")
				}
				return a % b
			case token.AND:
				return a & b
			case token.OR:
				return a | b
			case token.XOR:
				return a ^ b
			case token.AND_NOT:
				return a &^ b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		}
	}
	c := m.ctx
	a, b := m.term(x), m.term(y)
	switch op {
	case token.ADD:
		return m.intVal(k, c.Add(a, b))
	case token.SUB:
		return m.intVal(k, c.Sub(a, b))
	case token.MUL:
		return m.intVal(k, c.Mul(a, b))
	case token.LSS:
		return m.boolVal(c.Lt(a, b))
	case token.LEQ:
		return m.boolVal(c.Le(a, b))
	case token.GTR:
		return m.boolVal(c.Lt(b, a))
	case token.GEQ:
		return m.boolVal(c.Le(b, a))
	case token.QUO, token.REM:
		if !b.isConst() {
			// divisor symbolic: enumerate it when small
			bv := m.forkInt(b, 64)
			b = c.Int(bv)
		}
		d := b.c.Num()
		if d.Sign() == 0 {
			m.rtPanic("integer divide by zero")
		}
		if op == token.QUO {
			return m.intVal(k, m.truncDiv(a, d))
		}
		return m.intVal(k, m.truncRem(a, d))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return m.bitop(op, k, a, b)
	}
	panic(unsupported{fmt.Sprintf("int binop %v", op)})
}

// truncRem is a - truncDiv(a, d)*d.
func (m *M) truncRem(a *Term, d *big.Int) *Term {
	c := m.ctx
	if t := c.mapTree(a, func(x *Term) *Term { return m.truncRem(x, d) }); t != nil {
		return t
	}
	return c.Sub(a, c.Scale(m.truncDiv(a, d), new(big.Rat).SetInt(d)))
}

func (m *M) truncDiv(a *Term, d *big.Int) *Term {
	c := m.ctx
	if t := c.mapTree(a, func(x *Term) *Term { return m.truncDiv(x, d) }); t != nil {
		return t
	}
	ad := new(big.Int).Abs(d)
	var q *Term
	if a.lo != nil && a.lo.Sign() >= 0 {
		q = c.Div(a, ad)
	} else if a.hi != nil && a.hi.Sign() <= 0 {
		q = c.Neg(c.Div(c.Neg(a), ad))
	} else {
		q = c.Ite(c.Le(c.Int(0), a), c.Div(a, ad), c.Neg(c.Div(c.Neg(a), ad)))
	}
	if d.Sign() < 0 {
		return c.Neg(q)
	}
	return q
}

func (m *M) shift(op token.Token, k types.BasicKind, x, y Val) Val {
	var n uint64
	switch s := y.(type) {
	case int64:
		if s < 0 {
			m.rtPanic("negative shift amount")
		}
		n = uint64(s)
	case uint64:
		n = s
	case *Term:
		n = uint64(m.forkInt(s, 70))
	}
	switch a := x.(type) {
	case int64:
		if op == token.SHL {
			if n > 63 {
				return int64(0)
			}
			return wrapConc(k, a<<n)
		}
		if n > 63 {
			n = 63
		}
		return a >> n
	case uint64:
		if op == token.SHL {
			if n > 63 {
				return uint64(0)
			}
			return wrapConc(k, int64(a<<n))
		}
		if n > 63 {
			return uint64(0)
		}
		return a >> n
	case *Term:
		p := new(big.Int).Lsh(big.NewInt(1), uint(n))
		if op == token.SHL {
			return m.intVal(k, m.ctx.Scale(a, new(big.Rat).SetInt(p)))
		}
		return m.intVal(k, m.ctx.Div(a, p))
	}
	panic(unsupported{"shift"})
}

func (m *M) bitop(op token.Token, k types.BasicKind, a, b *Term) Val {
	c := m.ctx
	if a.isConst() && op != token.AND_NOT {
		a, b = b, a
	}
	if b.isConst() && b.c.Sign() >= 0 {
		n := b.c.Num()
		// mask of low bits
		n1 := new(big.Int).Add(n, big.NewInt(1))
		isMask := new(big.Int).And(n, n1).Sign() == 0
		switch op {
		case token.AND:
			if n.Sign() == 0 {
				return wrapConc(k, 0)
			}
			if isMask {
				return m.intVal(k, c.Mod(a, n1))
			}
			if n.TrailingZeroBits() > 0 {
				s := n.TrailingZeroBits()
				h := new(big.Int).Rsh(n, s)
				h1 := new(big.Int).Add(h, big.NewInt(1))
				if new(big.Int).And(h, h1).Sign() == 0 {
					p := new(big.Int).Lsh(big.NewInt(1), s)
					return m.intVal(k, c.Scale(c.Mod(c.Div(a, p), h1), new(big.Rat).SetInt(p)))
				}
			}
		case token.AND_NOT:
			if isMask {
				return m.intVal(k, c.Sub(a, c.Mod(a, n1)))
			}
		case token.OR, token.XOR:
			if n.Sign() == 0 {
				return m.intVal(k, a)
			}
			// disjoint bits: a < lowest set bit of n
			low := new(big.Int).Lsh(big.NewInt(1), n.TrailingZeroBits())
			if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && a.hi.Cmp(new(big.Rat).SetInt(low)) < 0 {
				return m.intVal(k, c.Add(a, b))
			}
		}
	}
	if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() >= 0 && a.hi != nil && b.hi != nil {
		w := floorInt(a.hi).BitLen()
		if x := floorInt(b.hi).BitLen(); x > w {
			w = x
		}
		kind := 0
		switch op {
		case token.OR:
			kind = 1
		case token.XOR:
			kind = 2
		case token.AND_NOT:
			return m.intVal(k, c.Sub(a, c.BitOp(0, a, b, w)))
		}
		return m.intVal(k, c.BitOp(kind, a, b, w))
	}
	panic(unsupported{"bit operation on possibly negative symbolic integers"})
}

func (m *M) convert(from, to types.Type, v Val) Val {
	fu, tu := from.Underlying(), to.Underlying()
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	if tb != nil && fb != nil {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			switch x := v.(type) {
			case int64:
				return wrapConc(tb.Kind(), x)
			case uint64:
				return wrapConc(tb.Kind(), int64(x))
			case *Term:
				return m.intVal(tb.Kind(), x)
			}
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			switch x := v.(type) {
			case int64:
				if tb.Kind() == types.Float32 {
					return float64(float32(x))
				}
				return float64(x)
			case uint64:
				return float64(x)
			case *Term:
				if absBounded(x, maxExact) {
					return m.floatVal(m.ctx.ToReal(x))
				}
				m.eng.note("float rounding not modelled: symbolic doubles are kept as exact reals")
				return &SymF{m.ctx.ToReal(x)}
			}
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			switch x := v.(type) {
			case float64:
				if isSignedKind(tb.Kind()) {
					return wrapConc(tb.Kind(), int64(x))
				}
				return wrapConc(tb.Kind(), int64(uint64(x)))
			case *SymF:
				c := m.ctx
				if i, ok := c.IntOf(x.t); ok {
					return m.intVal(tb.Kind(), i)
				}
				if x.t.lo != nil && x.t.lo.Sign() >= 0 {
					return m.intVal(tb.Kind(), c.Floor(x.t))
				}
				return m.intVal(tb.Kind(), c.Ite(c.Le(c.Real(ratZero), x.t), c.Floor(x.t), c.Neg(c.Floor(c.Neg(x.t)))))
			}
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if f, ok := v.(float64); ok && tb.Kind() == types.Float32 {
				return float64(float32(f))
			}
			return v
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return m.runeToStr(v)
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return v
		case fi&types.IsBoolean != 0 && ti&types.IsBoolean != 0:
			return v
		case fi&types.IsComplex != 0:
			return v
		}
		if fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer {
			return m.unsafeConv(v)
		}
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if s, ok := fu.(*types.Slice); ok {
			eb := basicOf(s.Elem())
			sv := v.([]Val)
			if eb.Kind() == types.Byte {
				return mkStr(sv)
			}
			var o []Val
			for _, r := range sv {
				o = append(o, strBytes(m.runeToStr(r))...)
			}
			return mkStr(o)
		}
	}
	if fb != nil && fb.Info()&types.IsString != 0 {
		if s, ok := tu.(*types.Slice); ok {
			eb := basicOf(s.Elem())
			b := strBytes(v)
			if eb.Kind() == types.Byte {
				return append(make([]Val, 0, len(b)), b...)
			}
			o := make([]Val, 0, len(b))
			for i := 0; i < len(b); {
				r, w := m.decodeRune(b[i:])
				o = append(o, r)
				i += w
			}
			return o
		}
	}
	// unsafe pointers and identical representations
	return m.unsafeConv(v)
}

func (m *M) unsafeConv(v Val) Val {
	if p, ok := v.(*Val); ok {
		return p
	}
	switch v.(type) {
	case Struct, Array, []Val, *MapV, Iface, *Closure:
		return v
	}
	panic(unsupported{fmt.Sprintf("unsafe conversion of %T", v)})
}

func (m *M) runeToStr(v Val) Val {
	switch x := v.(type) {
	case int64:
		if x < 0 || x > 0x10ffff {
			return "\uFFFD"
		}
		return string(rune(x))
	case uint64:
		if x > 0x10ffff {
			return "\uFFFD"
		}
		return string(rune(x))
	case *Term:
		if x.lo != nil && x.lo.Sign() >= 0 && x.hi != nil && x.hi.Cmp(ratInt(128)) < 0 {
			return &SymStr{[]Val{x}}
		}
		if m.branch(m.ctx.And(m.ctx.Le(m.ctx.Int(0), x), m.ctx.Lt(x, m.ctx.Int(128)))) {
			return &SymStr{[]Val{x}}
		}
		panic(unsupported{"symbolic non-ASCII rune to string"})
	}
	panic(unsupported{"runeToStr"})
}

// ---- builtins ----

func (m *M) builtin(fr *frame, b *ssa.Builtin, args []Val, c *ssa.CallCommon) Val {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return int64(strLen(x))
		case []Val:
			return int64(len(x))
		case Array:
			return int64(len(x))
		case *MapV:
			if x == nil {
				return int64(0)
			}
			return int64(x.n)
		case *Val:
			return int64(len((*x).(Array)))
		case *ChanV:
			return int64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case []Val:
			return int64(cap(x))
		case Array:
			return int64(len(x))
		case *Val:
			return int64(len((*x).(Array)))
		case *ChanV:
			return int64(x.cap)
		}
	case "append":
		s := args[0].([]Val)
		if len(args) == 1 {
			return s
		}
		var add []Val
		switch y := args[1].(type) {
		case []Val:
			add = y
		case string, *SymStr:
			add = strBytes(y)
		}
		if len(add) == 0 {
			return s
		}
		n := len(s)
		if n+len(add) <= cap(s) {
			s = s[:n+len(add)]
		} else {
			nc := n + len(add)
			if el := sliceElem(c); el != nil {
				nc = m.appendCap(el, cap(s), nc)
			} else {
				nc = growCap(cap(s), nc)
			}
			ns := make([]Val, n+len(add), nc)
			copy(ns, s)
			// spare capacity holds zero values of the element type
			if el := sliceElem(c); el != nil {
				full := ns[:nc]
				for i := n + len(add); i < nc; i++ {
					full[i] = zero(el)
				}
			}
			s = ns
			for i, v := range add {
				s[n+i] = copyVal(v)
			}
			return s
		}
		tmp := make([]Val, len(add))
		for i, v := range add {
			tmp[i] = copyVal(v)
		}
		for i, v := range tmp {
			store(&s[n+i], v)
		}
		return s
	case "copy":
		d := args[0].([]Val)
		var s []Val
		switch y := args[1].(type) {
		case []Val:
			s = y
		default:
			s = strBytes(y)
		}
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		tmp := make([]Val, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(s[i])
		}
		for i := 0; i < n; i++ {
			store(&d[i], tmp[i])
		}
		return int64(n)
	case "delete":
		if mp := args[0].(*MapV); mp != nil {
			m.mapDel(mp, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			for _, e := range x.ents {
				e.dead = true
			}
			x.ents = nil
			x.idx = map[interface{}]*mapEnt{}
			x.n, x.nsym = 0, 0
		case []Val:
			el := sliceElem(c)
			for i := range x {
				x[i] = zero(el)
			}
		}
		return nil
	case "panic":
		panic(targetPanic{args[0], m.where()})
	case "recover":
		if fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			p := fr.caller.pan.(targetPanic)
			fr.caller.pan = nil
			if i, ok := p.v.(Iface); ok {
				return i
			}
			return Iface{}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "close":
		args[0].(*ChanV).closed = true
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			t := c.Args[0].Type()
			switch v := m.binop(op, t, a, r, t).(type) {
			case bool:
				if v {
					r = a
				}
			case *Term:
				r = m.normLike(m.ctx.Ite(v, m.term(a), m.term(r)), t)
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Val); ok && p == nil {
			m.nilDeref()
		}
		return args[0]
	case "String": // unsafe.String
		n := int(m.forkVal(args[1], 64))
		if n == 0 {
			return ""
		}
		return mkStr(unsafeSlice(args[0].(*Val), n))
	case "StringData":
		b := strBytes(args[0])
		if len(b) == 0 {
			return (*Val)(nil)
		}
		return &b[0]
	case "SliceData":
		s := args[0].([]Val)
		if cap(s) == 0 {
			return (*Val)(nil)
		}
		return &s[:1][0]
	case "Slice":
		n := int(m.forkVal(args[1], 64))
		if n == 0 {
			return []Val{}
		}
		return unsafeSlice(args[0].(*Val), n)
	}
	panic(unsupported{"builtin " + b.Name()})
}

func sliceElem(c *ssa.CallCommon) types.Type {
	if c == nil {
		return nil
	}
	t := c.Args[0].Type().Underlying()
	if s, ok := t.(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

func growCap(old, need int) int {
	if need > 2*old {
		return need
	}
	if old < 256 {
		return 2 * old
	}
	nc := old
	for nc < need {
		nc += (nc + 3*256) / 4
	}
	return nc
}

var _ = strings.Join
