package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type unsupported struct{ msg string }
type pathEnd struct {
	kind string // infeasible, budget, exit, violation, stop, deadline
	msg  string
}
type targetPanic struct {
	v     Val // Iface
	where string
}

type inputRec struct {
	name string
	kind string // int,bool,str,choice,rat
	val  Val
	den  int64
	// for str: bytes
}

// M is one worker's machine.
type M struct {
	id      int
	eng     *Engine
	ctx     *TermCtx
	sol     *Solver
	jsonRaw bool                 // JSON being written without escapes for HTML
	std     map[*ssa.Global]*Val // globals of packages outside the repository
	stdIn   map[*ssa.Package]bool
	fns     map[*ssa.Function]*fnInfo
	intr    map[*ssa.Function]intrinsic
	noIntr  map[*ssa.Function]bool

	// per path
	globals map[*ssa.Global]*Val
	inited  map[*ssa.Package]bool
	initing []*ssa.Package
	pc      []*Term
	pcset   map[*Term]bool
	model   Model
	vars    []*Term
	inputs  []*inputRec
	names   map[string]int
	prefix  []int
	taken   []int
	steps   int64
	depth   int
	reached map[string]bool
	obs     []obsRec
	notes   map[string]bool
	pure    int // >0: speculative evaluation of a side-effect-free region
	pureG   *Term
	mapOrd  int // 0 insertion, 1 fwd/rev choice, 2 all permutations
	fresh   int
	stack   []*ssa.Function
	curIn   ssa.Instruction
	loops   map[ssa.Instruction]int
	out     []string
	den1    bool
	allowX  bool
	state   map[string]interface{}
	modes   map[string]string
	caps    map[capKey]int
	qcache  map[string]cachedAns
	hits    int
}

type obsRec struct {
	label string
	v     Val
}

func (m *M) resetPath() {
	m.globals = map[*ssa.Global]*Val{}
	m.inited = map[*ssa.Package]bool{}
	m.initing = nil
	m.pc = m.pc[:0]
	m.pcset = map[*Term]bool{}
	m.vars = m.vars[:0]
	m.inputs = nil
	m.names = map[string]int{}
	m.taken = nil
	m.steps = 0
	m.depth = 0
	m.reached = map[string]bool{}
	m.obs = nil
	m.notes = map[string]bool{}
	m.pure = 0
	m.mapOrd = m.eng.mapOrd
	m.fresh = 0
	m.stack = m.stack[:0]
	m.loops = map[ssa.Instruction]int{}
	m.out = nil
	m.den1 = false
	m.allowX = false
	m.state = map[string]interface{}{}
	m.modes = map[string]string{}
}

func (m *M) uniq(name string) string {
	n := m.names[name]
	m.names[name] = n + 1
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, n)
}

// newVar makes a symbolic variable with bounds recorded in the path condition.
func (m *M) newVar(name string, s Sort, lo, hi *big.Rat) *Term {
	key := name
	if s != SBool {
		key = fmt.Sprintf("%s@%s", name, rng(lo, hi))
	}
	t := m.ctx.Var(key, s, lo, hi)
	m.vars = append(m.vars, t)
	if m.model == nil {
		m.model = Model{}
	}
	if _, ok := m.model[t.name]; !ok {
		nm := make(Model, len(m.model)+1)
		for k, v := range m.model {
			nm[k] = v
		}
		x := new(big.Rat)
		if lo != nil && lo.Sign() > 0 {
			x.Set(lo)
		} else if hi != nil && hi.Sign() < 0 {
			x.Set(hi)
		}
		nm[t.name] = x
		m.model = nm
	}
	if s == SInt {
		if lo != nil {
			d := m.ctx.AddK(m.ctx.constNum(lo, s), t, big.NewRat(-1, 1))
			m.addPC(m.ctx.mk(fmt.Sprintf("le%d", d.id), &Term{op: OLe, sort: SBool, args: []*Term{d}}))
		}
		if hi != nil {
			d := m.ctx.Sub(t, m.ctx.constNum(hi, s))
			m.addPC(m.ctx.mk(fmt.Sprintf("le%d", d.id), &Term{op: OLe, sort: SBool, args: []*Term{d}}))
		}
	}
	return t
}

func rng(lo, hi *big.Rat) string {
	s := ""
	if lo != nil {
		s += lo.RatString()
	}
	s += ".."
	if hi != nil {
		s += hi.RatString()
	}
	return s
}

func (m *M) addPC(t *Term) {
	if t.op == OAnd {
		for _, a := range t.args {
			m.addPC(a)
		}
		return
	}
	if t == m.ctx.True || m.pcset[t] {
		return
	}
	m.pcset[t] = true
	m.pc = append(m.pc, t)
}

func (m *M) query(c *Term) (Sat, Model) {
	if c == m.ctx.False {
		return Unsat, nil
	}
	if m.pcset[m.ctx.Not(c)] {
		return Unsat, nil
	}
	return m.solve(c)
}

type cachedAns struct {
	r   Sat
	mod Model
}

// solve decides pc /\ c given that pc is satisfied by the current model: only
// the part of pc that shares variables with c matters, and its answer is
// remembered.
func (m *M) solve(c *Term) (Sat, Model) {
	need := append([]uint64(nil), m.ctx.varSet(c)...)
	in := make([]bool, len(m.pc))
	for changed := true; changed; {
		changed = false
		for i, p := range m.pc {
			if in[i] {
				continue
			}
			vs := m.ctx.varSet(p)
			if !meets(vs, need) {
				continue
			}
			in[i] = true
			for len(need) < len(vs) {
				need = append(need, 0)
			}
			for j, w := range vs {
				if need[j]|w != need[j] {
					need[j] |= w
					changed = true
				}
			}
		}
	}
	slice := make([]*Term, 0, len(m.pc))
	ids := make([]int, 0, len(m.pc)+1)
	for i, p := range m.pc {
		if in[i] {
			slice = append(slice, p)
			ids = append(ids, p.id)
		}
	}
	sort.Ints(ids)
	key := make([]byte, 0, 4*len(ids)+4)
	put := func(i int) { key = append(key, byte(i), byte(i>>8), byte(i>>16), byte(i>>24)) }
	for _, i := range ids {
		put(i)
	}
	put(c.id)
	a, ok := m.qcache[string(key)]
	if !ok {
		var vars []*Term
		for _, v := range m.vars {
			if meets(m.ctx.varSet(v), need) {
				vars = append(vars, v)
			}
		}
		a.r, a.mod = m.sol.Check(slice, c, vars)
		if a.r == Unknown {
			m.eng.noteUnknown(m, c)
		}
		m.qcache[string(key)] = a
	} else {
		m.hits++
	}
	if a.r != IsSat {
		return a.r, nil
	}
	mod := make(Model, len(m.model)+len(a.mod))
	for k, v := range m.model {
		mod[k] = v
	}
	for k, v := range a.mod {
		mod[k] = v
	}
	return IsSat, mod
}

func (m *M) setModel(mod Model) {
	m.model = mod
	m.ctx.NewEpoch()
}

func (m *M) evalB(t *Term) (bool, bool) {
	if m.model == nil {
		return false, false
	}
	return m.ctx.TryEvalBool(t, m.model)
}

// choose takes one of several mutually exclusive, exhaustive alternatives.
func (m *M) choose(conds []*Term) int {
	live := -1
	nlive := 0
	for i, c := range conds {
		if c == m.ctx.True || m.pcset[c] {
			return i
		}
		if c != m.ctx.False && !m.pcset[m.ctx.Not(c)] {
			live = i
			nlive++
		}
	}
	if nlive == 1 {
		return live
	}
	if m.pure > 0 {
		panic(impure{"decision"})
	}
	if nlive == 0 {
		panic(pathEnd{"infeasible", ""})
	}
	if len(m.prefix) > len(m.taken) {
		d := m.prefix[len(m.taken)]
		m.taken = append(m.taken, d)
		idx := d >> 1
		if idx >= len(conds) {
			panic(fmt.Sprintf("decision mismatch: %d of %d at %v", idx, len(conds), m.curIn))
		}
		if d&1 == 0 {
			m.addPC(conds[idx])
		}
		return idx
	}
	m.eng.checkDeadline()
	pick := -1
	for i, c := range conds {
		if v, ok := m.evalB(c); ok && v {
			pick = i
			break
		}
	}
	type alt struct {
		i   int
		mod Model
	}
	var alts []alt
	for i, c := range conds {
		if i == pick || c == m.ctx.False {
			continue
		}
		r, mod := m.query(c)
		switch r {
		case IsSat:
			alts = append(alts, alt{i, mod})
		case Unknown:
			m.eng.inconclusive("solver unknown at a branch")
		}
	}
	if pick < 0 {
		if len(alts) == 0 {
			panic(pathEnd{"infeasible", "no feasible alternative"})
		}
		pick = alts[0].i
		m.setModel(alts[0].mod)
		alts = alts[1:]
	}
	forced := 1
	if len(alts) > 0 {
		forced = 0
	}
	for _, a := range alts {
		p := make([]int, len(m.taken)+1)
		copy(p, m.taken)
		p[len(m.taken)] = a.i << 1
		m.eng.push(&work{prefix: p, model: a.mod})
	}
	m.taken = append(m.taken, pick<<1|forced)
	if forced == 0 {
		m.addPC(conds[pick])
	}
	return pick
}

func (m *M) branch(c *Term) bool {
	if c.isConst() {
		return c.b
	}
	return m.choose([]*Term{c, m.ctx.Not(c)}) == 0
}

// free takes one of n alternatives, all feasible.
func (m *M) free(n int) int {
	if n <= 1 {
		return 0
	}
	if m.pure > 0 {
		panic(impure{"choice"})
	}
	if len(m.prefix) > len(m.taken) {
		d := m.prefix[len(m.taken)]
		m.taken = append(m.taken, d)
		return d >> 1
	}
	m.eng.checkDeadline()
	for i := n - 1; i >= 1; i-- {
		p := make([]int, len(m.taken)+1)
		copy(p, m.taken)
		p[len(m.taken)] = i << 1
		m.eng.push(&work{prefix: p, model: m.model})
	}
	m.taken = append(m.taken, 0)
	return 0
}

func (m *M) assume(c *Term) {
	if c == m.ctx.True {
		return
	}
	if c == m.ctx.False {
		panic(pathEnd{"infeasible", "assume"})
	}
	if len(m.prefix) > len(m.taken) {
		// feasibility was established when the prefix was created
		m.addPC(c)
		return
	}
	if v, ok := m.evalB(c); ok && v {
		m.addPC(c)
		return
	}
	r, mod := m.query(c)
	switch r {
	case Unsat:
		panic(pathEnd{"infeasible", "assume"})
	case Unknown:
		m.eng.inconclusive("solver unknown at an assumption")
		panic(pathEnd{"infeasible", "assume unknown"})
	}
	m.addPC(c)
	m.setModel(mod)
}

// assert checks that c holds for every value on this path.
func (m *M) assert(c *Term, msg string) {
	m.eng.countAssert()
	if c == m.ctx.True {
		return
	}
	if m.pcset[c] {
		return
	}
	if len(m.prefix) > len(m.taken) {
		// decided when the prefix was first executed
		m.addPC(c)
		return
	}
	n := m.ctx.Not(c)
	bad := false
	if v, ok := m.evalB(c); ok && !v {
		m.eng.reportX(m, "assert", msg, m.model, n)
		bad = true
	} else {
		r, mod := m.query(n)
		switch r {
		case IsSat:
			m.eng.reportX(m, "assert", msg, mod, n)
			bad = true
		case Unknown:
			m.eng.inconclusive("solver unknown at assertion: " + msg)
		}
	}
	if bad {
		// carry on with the values for which the assertion holds
		if v, ok := m.evalB(c); !ok || !v {
			r, mod := m.query(c)
			if r != IsSat {
				panic(pathEnd{"violation", msg})
			}
			m.setModel(mod)
		}
	}
	m.addPC(c)
}

// concretize an int term by pinning it to its model value (reduces coverage).
func (m *M) forkInt(t *Term, limit int) int64 {
	// enumerate feasible values
	if t.isConst() {
		return t.c.Num().Int64()
	}
	if m.pure > 0 {
		panic(impure{"forkInt"})
	}
	if vs := iteLeaves(t, nil); len(vs) > 0 && len(vs) <= limit {
		sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
		var conds []*Term
		n := 0
		for i, x := range vs {
			if i > 0 && vs[i-1] == x {
				continue
			}
			vs[n] = x
			n++
			conds = append(conds, m.ctx.Eq(t, m.ctx.Int(x)))
		}
		return vs[m.choose(conds)]
	}
	if t.lo != nil && t.hi != nil {
		d := new(big.Rat).Sub(t.hi, t.lo)
		if d.Cmp(ratInt(int64(limit))) <= 0 {
			lo := floorInt(t.lo).Int64()
			n := int(floorInt(d).Int64()) + 1
			conds := make([]*Term, n)
			for i := range conds {
				conds[i] = m.ctx.Eq(t, m.ctx.Int(lo+int64(i)))
			}
			return lo + int64(m.choose(conds))
		}
	}
	if os.Getenv("GOSYM_STACK") != "" {
		debug.PrintStack()
	}
	panic(unsupported{"symbolic integer used where a concrete one is needed"})
}

// iteLeaves lists the constants a tree of conditionals chooses from.
func iteLeaves(t *Term, vs []int64) []int64 {
	switch {
	case t.isConst() && t.c.IsInt() && t.c.Num().IsInt64():
		return append(vs, t.c.Num().Int64())
	case t.op == OIte && len(vs) < 100:
		x := iteLeaves(t.args[1], vs)
		if x == nil {
			return nil
		}
		return iteLeaves(t.args[2], x)
	}
	return nil
}

func (m *M) forkVal(v Val, limit int) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case uint64:
		return int64(x)
	case *Term:
		return m.forkInt(x, limit)
	}
	panic(unsupported{fmt.Sprintf("forkVal %T", v)})
}

// ---- panics in the target ----

func (m *M) errorIface(msg string) Val {
	p := m.eng.prog.ImportedPackage("runtime")
	if p != nil {
		if t := p.Type("errorString"); t != nil {
			return Iface{t.Type(), msg}
		}
	}
	return Iface{types.Typ[types.String], "runtime error: " + msg}
}

func (m *M) where() string {
	var l []string
	for i := len(m.stack) - 1; i >= 0 && len(l) < 8; i-- {
		l = append(l, m.stack[i].String())
	}
	return strings.Join(l, " < ")
}

func (m *M) rtPanic(msg string) {
	if m.pure > 0 {
		panic(impure{"panic"})
	}
	panic(targetPanic{m.errorIface(msg), m.where()})
}

func (m *M) goPanicStr(msg string) {
	if m.pure > 0 {
		panic(impure{"panic"})
	}
	p := m.eng.prog.ImportedPackage("runtime")
	if p != nil {
		if t := p.Type("plainError"); t != nil {
			panic(targetPanic{Iface{t.Type(), msg}, m.where()})
		}
	}
	panic(targetPanic{Iface{types.Typ[types.String], msg}, m.where()})
}

func (m *M) panicText(v Val) string {
	i, ok := v.(Iface)
	if !ok {
		return fmt.Sprintf("%v", v)
	}
	if i.t == nil {
		return "nil"
	}
	defer func() { recover() }()
	f := &fmtr{m: m}
	f.value(i, 'v', fmtFlags{prec: -1}, 0)
	return m.showStr(mkStr(f.out))
}

// showStr renders a possibly symbolic string under the current model.
func (m *M) showStr(v Val) string {
	switch x := v.(type) {
	case string:
		return x
	case *SymStr:
		var b []byte
		for _, y := range x.b {
			switch z := y.(type) {
			case uint64:
				b = append(b, byte(z))
			case *Term:
				if m.model != nil {
					if r, ok := m.ctx.TryEvalNum(z, m.model); ok {
						b = append(b, byte(r.Num().Int64()))
						continue
					}
				}
				b = append(b, '?')
			}
		}
		return string(b)
	}
	return fmt.Sprintf("%v", v)
}

// render a value under the model, for observations.
func (m *M) render(v Val, mod Model) string {
	switch x := v.(type) {
	case *Term:
		if x.sort == SBool {
			b, ok := m.ctx.TryEvalBool(x, mod)
			if !ok {
				return "?"
			}
			return fmt.Sprint(b)
		}
		r, ok := m.ctx.TryEvalNum(x, mod)
		if !ok {
			return "?"
		}
		return r.RatString()
	case *SymF:
		r, ok := m.ctx.TryEvalNum(x.t, mod)
		if !ok {
			return "?"
		}
		f, _ := r.Float64()
		return fmt.Sprint(f)
	case *SymStr:
		return m.showStr(x)
	case Iface:
		if x.t == nil {
			return "<nil>"
		}
		return m.render(x.v, mod)
	case *Val:
		if x == nil {
			return "<nil>"
		}
		if t, ok := ratPayload(m, x); ok {
			return m.render(t, mod)
		}
		return "ptr"
	case []Val:
		var l []string
		for _, y := range x {
			l = append(l, m.render(y, mod))
		}
		return "[" + strings.Join(l, " ") + "]"
	}
	return fmt.Sprint(v)
}

// ---- engine: shared exploration state is in explore.go ----

type work struct {
	prefix []int
	model  Model
}

func sortedKeys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

var _ = time.Now
