package main

import (
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Models of what the starlark interpreter needs beyond ordinary Go: types
// compared through reflect, untyped atomic pointers and the string hash.

type rtypeV struct{ t types.Type }

var (
	rtMu  sync.Mutex
	rtMap typeutil.Map
)

// rtype is the pointer which stands for a type in package reflect.
func rtype(t types.Type) *Val {
	rtMu.Lock()
	defer rtMu.Unlock()
	if p := rtMap.At(t); p != nil {
		return p.(*Val)
	}
	p := new(Val)
	*p = rtypeV{t}
	rtMap.Set(t, p)
	return p
}

func (m *M) rtypeIface(t types.Type) Val {
	pk := m.eng.prog.ImportedPackage("reflect")
	if pk == nil {
		panic(unsupported{"reflect not loaded"})
	}
	return Iface{types.NewPointer(pk.Type("rtype").Type()), rtype(t)}
}

func init() {
	I := intrinsics
	I["reflect.TypeOf"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		x, _ := a[0].(Iface)
		if x.t == nil {
			return Iface{}
		}
		return m.rtypeIface(x.t)
	}
	rt := func(v Val) types.Type { return (*(v.(*Val))).(rtypeV).t }
	I["(*reflect.rtype).Elem"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		switch t := rt(a[0]).Underlying().(type) {
		case *types.Pointer:
			return m.rtypeIface(t.Elem())
		case *types.Slice:
			return m.rtypeIface(t.Elem())
		}
		panic(unsupported{"reflect Elem"})
	}
	I["(*reflect.rtype).Size"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		return uint64(types.SizesFor("gc", "amd64").Sizeof(rt(a[0])))
	}
	I["(*reflect.rtype).String"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		return types.TypeString(rt(a[0]), func(p *types.Package) string { return p.Name() })
	}
	I["sync/atomic.LoadPointer"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return *(a[0].(*Val)) }
	I["sync/atomic.StorePointer"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { *(a[0].(*Val)) = a[1]; return nil }
	// without reserved addresses every integer is a big.Int, which the code allows for
	I["go.starlark.net/starlark.reserveAddresses"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return uint64(0) }
	// any hash will do: the order of a dictionary is the order of insertion
	I["go.starlark.net/starlark.goStringHash"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		return uint64(lenOf(a[0])*2 + 1)
	}
	I["go.starlark.net/starlark.nanotime"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return int64(1) }
}

func lenOf(v Val) int {
	switch x := v.(type) {
	case string:
		return len(x)
	case *SymStr:
		return len(x.b)
	}
	return 0
}
