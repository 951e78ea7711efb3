package main

import (
	"golang.org/x/tools/go/ssa"
)

// The clock: it starts at a fixed instant and moves on by a second each time
// it is looked at and by what is slept.

func (m *M) clock(step int64) int64 {
	n, _ := m.state["clock"].(int64)
	n += step
	m.state["clock"] = n
	return n
}

const clockStart = 1781524800 // 2026-06-15 12:00:00 UTC

func init() {
	I := intrinsics
	I["time.runtimeNow"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		if m.pure > 0 {
			panic(impure{"clock"})
		}
		n := m.clock(1000000000)
		return Tuple{clockStart + n/1000000000, n % 1000000000, n + 1000}
	}
	I["time.runtimeNano"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		if n, _ := m.state["clock"].(int64); n != 0 {
			return n + 1000
		}
		return int64(1)
	}
	I["time.runtimeIsBubbled"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return false }
	I["time.initLocal"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return nil }
	I["time.Sleep"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		if m.pure > 0 {
			panic(impure{"clock"})
		}
		if d, ok := a[0].(int64); ok && d > 0 {
			m.clock(d)
		}
		return nil
	}
}

func init() {
	// package net/http is not initialised: these are the globals a client needs
	specialGlobals["net/http.DefaultClient"] = func(m *M) Val {
		t := m.eng.typ("net/http", "Client")
		p := new(Val)
		*p = zero(t)
		return p
	}
}

// A day given by the harness: while at runs, the clock stands at noon of it,
// and the calendar of that very instant is the day's year, month and day (the
// calendar of every other instant is computed as it is).

type atDay struct{ sec, ext, y, mo, d Val }

func init() {
	I := intrinsics
	I[vpkg+".at"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		if m.pure > 0 {
			panic(impure{"clock"})
		}
		m.state["at"] = &atDay{sec: a[0], y: a[1], mo: a[2], d: a[3]}
		m.call(c, a[4].(*Closure), nil)
		delete(m.state, "at")
		return nil
	}
	I["time.Now"] = func(m *M, c *frame, f *ssa.Function, a []Val) Val {
		at, _ := m.state["at"].(*atDay)
		if at == nil {
			return m.runBody(c, f, a, nil)
		}
		if m.pure > 0 {
			panic(impure{"clock"})
		}
		t := m.callFn(c, f.Pkg.Func("Unix"), []Val{at.sec, int64(0)}, nil).(Struct)
		at.ext = t[1]
		return t
	}
	part := func(f func(at *atDay) Val) intrinsic {
		return func(m *M, c *frame, fn *ssa.Function, a []Val) Val {
			at, _ := m.state["at"].(*atDay)
			if at != nil && at.ext != nil {
				if t, ok := a[0].(Struct); ok && t[1] == at.ext {
					if m.pure > 0 {
						panic(impure{"clock"})
					}
					return f(at)
				}
			}
			return m.runBody(c, fn, a, nil)
		}
	}
	I["(time.Time).Year"] = part(func(at *atDay) Val { return at.y })
	I["(time.Time).Month"] = part(func(at *atDay) Val { return at.mo })
	I["(time.Time).Day"] = part(func(at *atDay) Val { return at.d })
	I["(time.Time).Date"] = part(func(at *atDay) Val { return Tuple{at.y, at.mo, at.d} })
}
