package main

import (
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Harness API (package zzverif/v).

func (m *M) input(name, kind string, v Val, den int64) {
	m.inputs = append(m.inputs, &inputRec{name: name, kind: kind, val: v, den: den})
}

func concI(v Val) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case uint64:
		return int64(x)
	}
	panic(unsupported{"harness bound must be concrete"})
}

func init() {
	const V = vpkg + "."
	I := intrinsics
	I[V+"Int"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		name := m.uniq(a[0].(string))
		lo, hi := concI(a[1]), concI(a[2])
		var v Val = lo
		if lo != hi {
			v = m.newVar(name, SInt, ratInt(lo), ratInt(hi))
		}
		m.input(name, "int", v, 0)
		return v
	}
	I[V+"Bool"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		name := m.uniq(a[0].(string))
		v := m.newVar(name, SBool, nil, nil)
		m.input(name, "bool", v, 0)
		return v
	}
	I[V+"Rat"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		name := m.uniq(a[0].(string))
		lo, hi, den := concI(a[1]), concI(a[2]), concI(a[3])
		v := m.newVar(name, SInt, ratInt(lo), ratInt(hi))
		m.input(name, "int", v, 0)
		return m.newRat(m.ctx.Scale(m.ctx.ToReal(v), big.NewRat(1, den)))
	}
	I[V+"Choice"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		name := m.uniq(a[0].(string))
		k := m.free(int(concI(a[1])))
		m.input(name, "int", int64(k), 0)
		return int64(k)
	}
	I[V+"Str"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		name := m.uniq(a[0].(string))
		min, max := concI(a[1]), concI(a[2])
		alpha := a[3].(string)
		n := int(min) + m.free(int(max-min)+1)
		v := m.symString(name, n, alpha)
		m.input(name, "str", v, 0)
		return v
	}
	I[V+"Assume"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		m.assume(m.term(a[0]))
		return nil
	}
	I[V+"Assert"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		m.assert(m.term(a[0]), m.showStr(a[1]))
		return nil
	}
	I[V+"Reach"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		m.reached[a[0].(string)] = true
		return nil
	}
	I[V+"Observe"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		i, _ := a[1].(Iface)
		m.obs = append(m.obs, obsRec{a[0].(string), copyVal(i.v)})
		return nil
	}
	I[V+"MapOrder"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		m.mapOrd = int(concI(a[0]))
		return nil
	}
	I[V+"Bound"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		k := int(concI(a[1]))
		if m.eng.tier == "thorough" {
			k = int(concI(a[2]))
		}
		m.eng.bound(a[0].(string), k)
		return int64(k)
	}
	I[V+"And"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		return m.boolVal(m.ctx.And(m.term(a[0]), m.term(a[1])))
	}
	I[V+"Or"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		return m.boolVal(m.ctx.Or(m.term(a[0]), m.term(a[1])))
	}
	I[V+"Not"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		return m.boolVal(m.ctx.Not(m.term(a[0])))
	}
	I[V+"IteInt"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		r := m.ctx.Ite(m.term(a[0]), m.term(a[1]), m.term(a[2]))
		return m.fromTerm(r, int64(0))
	}
	I[V+"Stub"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		m.modes[a[0].(string)] = a[1].(string)
		return nil
	}
	I[V+"RatEq"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		return m.boolVal(m.ctx.Eq(m.rat(a[0]), m.rat(a[1])))
	}
	I[V+"IsSymbolic"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return true }
}

func (m *M) symString(name string, n int, alpha string) Val {
	if n == 0 {
		return ""
	}
	var rs []runeRange
	for c := 0; c < 256; c++ {
		in := false
		for i := 0; i < len(alpha); i++ {
			if int(alpha[i]) == c {
				in = true
			}
		}
		if in {
			if k := len(rs); k > 0 && rs[k-1].hi == int64(c)-1 {
				rs[k-1].hi = int64(c)
			} else {
				rs = append(rs, runeRange{int64(c), int64(c)})
			}
		}
	}
	if len(rs) == 0 {
		panic(unsupported{"empty alphabet"})
	}
	b := make([]Val, n)
	for i := range b {
		if len(alpha) == 1 {
			b[i] = uint64(alpha[0])
			continue
		}
		lo, hi := rs[0].lo, rs[len(rs)-1].hi
		v := m.newVar(name+"["+itoa(i)+"]", SInt, ratInt(lo), ratInt(hi))
		if len(rs) > 1 {
			m.assume(m.inRanges(v, rs))
		}
		b[i] = v
	}
	return mkStr(b)
}
