package main

import (
	"fmt"
	"go/types"
	"math/big"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

const (
	modPath = "github.com/mescanne/goledger"
	vpkg    = modPath + "/zzverif/v"
)

var tabMu sync.Mutex

func itoa(i int) string { return strconv.Itoa(i) }

// candidate is a counterexample found by the solver, before replay.
type candidate struct {
	Kind   string                 `json:"kind"`
	Msg    string                 `json:"msg"`
	Where  string                 `json:"where,omitempty"`
	Inputs map[string]interface{} `json:"inputs"`
	Obs    map[string]string      `json:"obs,omitempty"`
	Trace  int                    `json:"-"`
}

type sample struct {
	Inputs map[string]interface{}
	Obs    map[string]string
	Reach  []string
}

// Engine explores one harness with several workers.
type Engine struct {
	*Program
	tier     string
	mapOrd   int
	maxSteps int64
	maxLoop  int
	noMerge  bool
	workers  int
	deadline time.Time
	maxSamp  int
	verbose  bool

	mu      sync.Mutex
	cond    *sync.Cond
	stack   []*work
	active  int
	stopped bool

	paths      int
	completed  int
	infeasible int
	steps      int64
	ends       map[string]int
	unsup      map[string]int
	asserts    int
	notes      map[string]int
	bounds     map[string]int
	reached    map[string]int
	fns        map[string]int64
	cands      map[string][]*candidate
	candOrder  []string
	samples    []*sample
	queries    int
	unknowns   int
	fallbacks  int
	hits       int
	solverTime time.Duration
	crashed    []string
	hitDead    bool
	incon      map[string]int
	probes     [maxProbes][]map[string]interface{}
	probeSeen  int
}

func NewEngine(p *Program, tier string) *Engine {
	e := &Engine{Program: p, tier: tier, mapOrd: 1, maxSteps: 20_000_000, maxLoop: 1000, workers: 8, maxSamp: 12}
	e.cond = sync.NewCond(&e.mu)
	e.ends = map[string]int{}
	e.unsup = map[string]int{}
	e.notes = map[string]int{}
	e.bounds = map[string]int{}
	e.reached = map[string]int{}
	e.fns = map[string]int64{}
	e.cands = map[string][]*candidate{}
	e.incon = map[string]int{}
	return e
}

func (e *Engine) noteUnknown(m *M, c *Term) {}

func (e *Engine) checkDeadline() {
	if time.Now().After(e.deadline) {
		panic(pathEnd{"deadline", ""})
	}
}

func (e *Engine) inconclusive(msg string) {
	e.mu.Lock()
	e.incon[msg]++
	e.mu.Unlock()
}

func (e *Engine) push(w *work) {
	e.mu.Lock()
	e.stack = append(e.stack, w)
	e.cond.Signal()
	e.mu.Unlock()
}

func (e *Engine) countAssert() {
	e.mu.Lock()
	e.asserts++
	e.mu.Unlock()
}

func (e *Engine) note(msg string) {
	e.mu.Lock()
	e.notes[msg]++
	e.mu.Unlock()
}

func (e *Engine) bound(name string, k int) {
	e.mu.Lock()
	e.bounds[name] = k
	e.mu.Unlock()
}

// fullModel completes a model so that every input has a value.
func (m *M) fullModel(mod Model, extra *Term) (Model, bool) {
	ok := mod != nil
	if ok {
		for _, v := range m.vars {
			if _, has := mod[v.name]; !has {
				ok = false
				break
			}
		}
	}
	if ok {
		return mod, true
	}
	if extra == nil {
		extra = m.ctx.True
	}
	r, mm := m.sol.Check(m.pc, extra, m.vars)
	if r != IsSat {
		return nil, false
	}
	return mm, true
}

func (m *M) renderInputs(mod Model) map[string]interface{} {
	in := map[string]interface{}{}
	for _, r := range m.inputs {
		switch r.kind {
		case "str":
			var b []byte
			for _, c := range strBytes(r.val) {
				switch z := c.(type) {
				case uint64:
					b = append(b, byte(z))
				case *Term:
					x, _ := m.ctx.TryEvalNum(z, mod)
					if x == nil {
						b = append(b, '?')
					} else {
						b = append(b, byte(x.Num().Int64()))
					}
				}
			}
			in[r.name] = "s:" + fmt.Sprintf("%x", b)
		default:
			switch z := r.val.(type) {
			case *Term:
				if z.sort == SBool {
					b, _ := m.ctx.TryEvalBool(z, mod)
					in[r.name] = b
				} else {
					x, _ := m.ctx.TryEvalNum(z, mod)
					if x != nil {
						in[r.name] = x.Num().String()
					}
				}
			case bool:
				in[r.name] = z
			default:
				in[r.name] = fmt.Sprint(z)
			}
		}
	}
	return in
}

func (e *Engine) report(m *M, kind, msg string, mod Model) { e.reportX(m, kind, msg, mod, nil) }

func (e *Engine) reportX(m *M, kind, msg string, mod Model, extra *Term) {
	key := kind + ": " + msg
	where := m.where()
	if kind != "assert" {
		key = kind + ": " + trunc(where, 200)
	}
	e.mu.Lock()
	n := len(e.cands[key])
	e.mu.Unlock()
	if n >= 4 {
		return
	}
	full, ok := m.fullModel(mod, extra)
	if !ok {
		e.inconclusive("no model for a candidate: " + key)
		return
	}
	m.ctx.NewEpoch()
	c := &candidate{Kind: kind, Msg: msg, Where: where, Inputs: m.renderInputs(full), Trace: len(m.taken)}
	m.ctx.NewEpoch()
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(e.cands[key]) >= 4 {
		return
	}
	if len(e.cands[key]) == 0 {
		e.candOrder = append(e.candOrder, key)
	}
	e.cands[key] = append(e.cands[key], c)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// Explore runs the harness function over every feasible path.
func (e *Engine) Explore(fn *ssa.Function, budget time.Duration) {
	e.deadline = time.Now().Add(budget)
	e.stack = []*work{{}}
	var wg sync.WaitGroup
	for i := 0; i < e.workers; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			e.worker(id, fn)
		}(i)
	}
	wg.Wait()
}

func (e *Engine) newM(id int) *M {
	ctx := NewTermCtx()
	return &M{id: id, eng: e, ctx: ctx, sol: NewSolver(ctx, solverMs),
		std: map[*ssa.Global]*Val{}, stdIn: map[*ssa.Package]bool{},
		fns: map[*ssa.Function]*fnInfo{}, intr: map[*ssa.Function]intrinsic{}, noIntr: map[*ssa.Function]bool{},
		caps: map[capKey]int{}, qcache: map[string]cachedAns{}}
}

func (e *Engine) worker(id int, fn *ssa.Function) {
	var m *M
	defer func() {
		if m == nil {
			return
		}
		m.sol.Close()
		e.mu.Lock()
		e.queries += m.sol.Queries
		e.unknowns += m.sol.Unknowns
		e.fallbacks += m.sol.Fallbacks
		e.solverTime += m.sol.Time
		e.hits += m.hits
		for f, fi := range m.fns {
			if fi.repo {
				e.fns[f.String()] += fi.count
			}
		}
		e.mu.Unlock()
	}()
	for {
		e.mu.Lock()
		for len(e.stack) == 0 && e.active > 0 && !e.stopped {
			e.cond.Wait()
		}
		if len(e.stack) == 0 || e.stopped {
			e.cond.Broadcast()
			e.mu.Unlock()
			return
		}
		w := e.stack[len(e.stack)-1]
		e.stack = e.stack[:len(e.stack)-1]
		e.active++
		e.mu.Unlock()
		if m == nil {
			m = e.newM(id)
		}
		if len(m.ctx.tab) > 3_000_000 {
			// drop the term table: start a fresh machine
			m.sol.Close()
			e.mu.Lock()
			e.queries += m.sol.Queries
			e.unknowns += m.sol.Unknowns
			e.fallbacks += m.sol.Fallbacks
			e.solverTime += m.sol.Time
			e.hits += m.hits
			for f, fi := range m.fns {
				if fi.repo {
					e.fns[f.String()] += fi.count
				}
			}
			e.mu.Unlock()
			m = e.newM(id)
		}
		e.runPath(m, fn, w)
		e.mu.Lock()
		e.active--
		if time.Now().After(e.deadline) && (len(e.stack) > 0) {
			e.hitDead = true
			e.stopped = true
		}
		e.cond.Broadcast()
		e.mu.Unlock()
	}
}

func (e *Engine) runPath(m *M, fn *ssa.Function, w *work) {
	m.resetPath()
	m.prefix = w.prefix
	if w.model == nil {
		w.model = Model{}
	}
	m.setModel(w.model)
	kind := "done"
	var unsup string
	func() {
		defer func() {
			x := recover()
			if x == nil {
				return
			}
			switch p := x.(type) {
			case pathEnd:
				kind = p.kind
			case targetPanic:
				kind = "panic"
				e.report(m, "panic", m.panicText(p.v)+" @ "+p.where, m.model)
			case unsupported:
				kind = "unsupported"
				unsup = p.msg + " @ " + m.where()
			case impure:
				kind = "unsupported"
				unsup = "impure escaped: " + p.why
			default:
				kind = "unsupported"
				unsup = fmt.Sprintf("engine error: %v @ %s", x, m.where())
				if os.Getenv("GOSYM_STACK") != "" {
					unsup += "\n" + string(debug.Stack())
				}
			}
		}()
		m.callFn(nil, fn, nil, nil)
	}()
	if kind == "unsupported" {
		e.probe(m)
	}
	var smp *sample
	if kind == "done" || kind == "exit" {
		e.mu.Lock()
		want := len(e.samples) < e.maxSamp || (e.completed&(e.completed-1)) == 0
		e.mu.Unlock()
		if want && !time.Now().After(e.deadline) {
			mod, ok := m.fullModel(m.model, nil)
			if ok {
				m.ctx.NewEpoch()
				smp = &sample{Inputs: m.renderInputs(mod), Obs: map[string]string{}, Reach: sortedKeys(m.reached)}
				n := map[string]int{}
				m.model = mod
				for _, o := range m.obs {
					k := o.label
					n[k]++
					if n[k] > 1 {
						k = fmt.Sprintf("%s#%d", k, n[k])
					}
					smp.Obs[k] = m.render(o.v, mod)
				}
				m.ctx.NewEpoch()
			}
		}
	}
	if dumpPaths && e.verbose {
		for _, t := range m.pc {
			fmt.Fprintln(os.Stderr, "PC", t)
		}
		fmt.Fprintln(os.Stderr, "END", kind)
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	e.paths++
	e.ends[kind]++
	e.steps += m.steps
	if unsup != "" {
		e.unsup[unsup]++
	}
	switch kind {
	case "done", "exit":
		e.completed++
		for k := range m.reached {
			e.reached[k]++
		}
		if smp != nil {
			e.samples = append(e.samples, smp)
		}
	case "violation", "panic":
		for k := range m.reached {
			e.reached[k]++
		}
	case "deadline":
		e.hitDead = true
	}
}

const maxProbes = 240

// probe keeps inputs of a path which could not be encoded to its end, to run
// the real code on (a fallback, not a decision).
func (e *Engine) probe(m *M) {
	e.mu.Lock()
	e.probeSeen++
	n := e.probeSeen
	e.mu.Unlock()
	rnd := rand.New(rand.NewSource(int64(n)))
	slot := n - 1
	if n > maxProbes {
		// a fair sample of the paths
		if slot = rnd.Intn(n); slot >= maxProbes {
			return
		}
	}
	mod, ok := m.fullModel(m.model, nil)
	if !ok {
		return
	}
	var ins []map[string]interface{}
	for k := 0; k < 4; k++ {
		if k > 0 {
			mod = m.walk(mod, rnd)
		}
		m.ctx.NewEpoch()
		ins = append(ins, m.renderInputs(mod))
		m.ctx.NewEpoch()
	}
	e.mu.Lock()
	e.probes[slot] = ins
	e.mu.Unlock()
}

// walk changes the variables of a model at random, as far as the path allows.
func (m *M) walk(mod Model, rnd *rand.Rand) Model {
	out := Model{}
	for k, v := range mod {
		out[k] = v
	}
	t0 := time.Now()
	for _, v := range m.vars {
		if v.sort == SBool || v.lo == nil || v.hi == nil || time.Since(t0) > time.Second {
			continue
		}
		lo := new(big.Int).Quo(v.lo.Num(), v.lo.Denom())
		w := new(big.Int).Sub(new(big.Int).Quo(v.hi.Num(), v.hi.Denom()), lo)
		w.Add(w, big.NewInt(1))
		if w.Sign() <= 0 {
			continue
		}
		old := out[v.name]
		done := false
		for i := 0; i < 30 && !done; i++ {
			x := new(big.Int).Rand(rnd, w)
			switch rnd.Intn(8) {
			case 0:
				x.SetInt64(0)
			case 1:
				x.Sub(w, big.NewInt(1))
			}
			out[v.name] = new(big.Rat).SetInt(x.Add(x, lo))
			m.ctx.NewEpoch()
			done = true
			for _, t := range m.pc {
				if b, ok := m.ctx.TryEvalBool(t, out); !ok || !b {
					done = false
					break
				}
			}
		}
		if !done {
			out[v.name] = old
		}
	}
	m.ctx.NewEpoch()
	return out
}

// ---- lookups ----

func (m *M) intrinsicFor(fn *ssa.Function) intrinsic {
	if h, ok := m.intr[fn]; ok {
		return h
	}
	if m.noIntr[fn] {
		return nil
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	h, ok := intrinsics[name]
	if !ok {
		m.noIntr[fn] = true
		return nil
	}
	m.intr[fn] = h
	return h
}

func (p *Program) repoPkg(k *ssa.Package) bool {
	if k == nil || k.Pkg == nil {
		return false
	}
	s := k.Pkg.Path()
	return s == modPath || strings.HasPrefix(s, modPath+"/")
}

func (p *Program) isRepo(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return p.repoPkg(fn.Pkg) && !strings.Contains(fn.Pkg.Pkg.Path(), "/zzverif")
	}
	if fn.Parent() != nil {
		return p.isRepo(fn.Parent())
	}
	return false
}

func (p *Program) isHarness(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return strings.Contains(fn.Pkg.Pkg.Path(), "/zzverif")
	}
	return fn.Parent() != nil && p.isHarness(fn.Parent())
}

func (p *Program) fnClosure(fn *ssa.Function) *Closure {
	p.fcMu.Lock()
	defer p.fcMu.Unlock()
	c, ok := p.fc[fn]
	if !ok {
		c = &Closure{fn: fn}
		p.fc[fn] = c
	}
	return c
}

func (p *Program) lookupMethod(t types.Type, f *types.Func) *ssa.Function {
	p.fcMu.Lock()
	defer p.fcMu.Unlock()
	k := methKey{t, f.Id()}
	if fn, ok := p.meth[k]; ok {
		return fn
	}
	fn := p.prog.LookupMethod(t, f.Pkg(), f.Name())
	p.meth[k] = fn
	return fn
}

func (p *Program) methodByName(t types.Type, name string) *ssa.Function {
	p.fcMu.Lock()
	defer p.fcMu.Unlock()
	k := methKey{t, "!" + name}
	if fn, ok := p.meth[k]; ok {
		return fn
	}
	ms := p.prog.MethodSets.MethodSet(t)
	var fn *ssa.Function
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			fn = p.prog.MethodValue(s)
		}
	}
	p.meth[k] = fn
	return fn
}

func (p *Program) typ(pkg, name string) types.Type {
	k := p.prog.ImportedPackage(pkg)
	if k == nil {
		panic(unsupported{"package not loaded: " + pkg})
	}
	t := k.Type(name)
	if t == nil {
		panic(unsupported{"type not found: " + pkg + "." + name})
	}
	return t.Type()
}

type methKey struct {
	t  types.Type
	id string
}

func sortedCounts(m map[string]int) []string {
	var l []string
	for k, n := range m {
		l = append(l, fmt.Sprintf("%s (x%d)", k, n))
	}
	sort.Strings(l)
	return l
}

var dumpPaths = os.Getenv("GOSYM_DUMP") != ""

var solverMs = 700
