package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/BurntSushi/toml"
	"golang.org/x/tools/go/ssa"
)

// A model of github.com/BurntSushi/toml: the text is parsed by the library
// itself, in which symbolic bytes (only within strings, and none which a
// string would need to escape) are marked by characters of their own; what it
// says is put into Go values by their types and tags.

type tomlDec struct {
	m       *M
	marks   []Val // the symbolic byte of each mark
	decoded *MapV
	context []string
}

type tomlFail struct{ msg string }

const tomlMark = 0xF0000

func (d *tomlDec) fail(format string, a ...interface{}) {
	panic(tomlFail{fmt.Sprintf(format, a...)})
}

// str puts the symbolic bytes back.
func (d *tomlDec) str(s string) Val {
	var b []Val
	for _, r := range s {
		if i := int(r) - tomlMark; i >= 0 && i < len(d.marks) {
			b = append(b, d.marks[i])
			continue
		}
		for _, c := range []byte(string(r)) {
			b = append(b, uint64(c))
		}
	}
	return mkStr(b)
}

type tomlField struct {
	name string
	path []int
	t    types.Type
}

// tomlFields lists the fields of a struct, those of embedded structs after it.
func tomlFields(t types.Type) []tomlField {
	var out []tomlField
	seen := map[string]bool{}
	type lev struct {
		s    *types.Struct
		path []int
	}
	cur := []lev{{t.Underlying().(*types.Struct), nil}}
	for len(cur) > 0 {
		var next []lev
		names := map[string]bool{}
		for _, l := range cur {
			for i := 0; i < l.s.NumFields(); i++ {
				f := l.s.Field(i)
				name := reflect.StructTag(l.s.Tag(i)).Get("toml")
				if c := strings.IndexByte(name, ','); c >= 0 {
					name = name[:c]
				}
				if name == "-" {
					continue
				}
				path := append(append([]int{}, l.path...), i)
				if es, ok := f.Type().Underlying().(*types.Struct); ok && f.Anonymous() && name == "" {
					next = append(next, lev{es, path})
					continue
				}
				if !f.Exported() {
					continue
				}
				if name == "" {
					name = f.Name()
				}
				if seen[name] {
					continue
				}
				names[name] = true
				out = append(out, tomlField{name, path, f.Type()})
			}
		}
		for n := range names {
			seen[n] = true
		}
		cur = next
	}
	return out
}

func (d *tomlDec) mark(key string) {
	k := toml.Key(append(append([]string{}, d.context...), key)).String()
	d.m.mapSet(d.decoded, d.str(k), Struct{})
}

func (d *tomlDec) into(x interface{}, t types.Type, p *Val) {
	if d.m.jsonMethod(types.NewPointer(t), "UnmarshalText") != nil || d.m.jsonMethod(types.NewPointer(t), "UnmarshalTOML") != nil {
		panic(unsupported{"toml into a type with its own method"})
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		q := new(Val)
		*q = zero(u.Elem())
		d.into(x, u.Elem(), q)
		*p = q
	case *types.Struct:
		tm, ok := x.(map[string]interface{})
		if !ok {
			d.fail("type mismatch for %s: expected table", t)
		}
		fs := tomlFields(t)
		for _, k := range tomlKeys(tm) {
			var f *tomlField
			for i := range fs {
				if fs[i].name == k {
					f = &fs[i]
					break
				}
				if f == nil && strings.EqualFold(fs[i].name, k) {
					f = &fs[i]
				}
			}
			if f == nil {
				continue
			}
			q := p
			for _, i := range f.path {
				q = &(*q).(Struct)[i]
			}
			d.mark(k)
			d.context = append(d.context, k)
			d.into(tm[k], f.t, q)
			d.context = d.context[:len(d.context)-1]
		}
	case *types.Map:
		tm, ok := x.(map[string]interface{})
		if !ok {
			d.fail("incompatible types: destination has type map")
		}
		mv, _ := (*p).(*MapV)
		if mv == nil {
			mv = newMap()
			*p = mv
		}
		for _, k := range tomlKeys(tm) {
			d.mark(k)
			d.context = append(d.context, k)
			q := new(Val)
			*q = zero(u.Elem())
			d.into(tm[k], u.Elem(), q)
			d.context = d.context[:len(d.context)-1]
			d.m.mapSet(mv, d.str(k), *q)
		}
	case *types.Slice:
		r := reflect.ValueOf(x)
		if r.Kind() != reflect.Slice {
			d.fail("incompatible types: destination has type slice")
		}
		s, _ := (*p).([]Val)
		if s == nil || cap(s) < r.Len() {
			s = make([]Val, r.Len())
			for i := range s {
				s[i] = zero(u.Elem())
			}
		}
		s = s[:r.Len()]
		*p = s
		for i := range s {
			d.into(r.Index(i).Interface(), u.Elem(), &s[i])
		}
	case *types.Interface:
		panic(unsupported{"toml into an interface"})
	case *types.Basic:
		switch y := x.(type) {
		case string:
			if u.Info()&types.IsString == 0 {
				d.fail("incompatible types: TOML value has type string; destination has type %s", u)
			}
			*p = d.str(y)
		case bool:
			if u.Info()&types.IsBoolean == 0 {
				d.fail("incompatible types: TOML value has type bool; destination has type %s", u)
			}
			*p = y
		case int64:
			switch {
			case u.Info()&types.IsFloat != 0:
				*p = float64(y)
			case u.Info()&types.IsInteger == 0:
				d.fail("incompatible types: TOML value has type int64; destination has type %s", u)
			case isSignedKind(u.Kind()):
				*p = y
			default:
				*p = uint64(y)
			}
		case float64:
			if u.Info()&types.IsFloat == 0 {
				d.fail("incompatible types: TOML value has type float64; destination has type %s", u)
			}
			*p = y
		default:
			d.fail("incompatible types: TOML value has type %T; destination has type %s", x, u)
		}
	default:
		d.fail("unsupported type %s", t)
	}
}

func tomlKeys(m map[string]interface{}) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return l
}

func init() {
	const T = "github.com/BurntSushi/toml."
	I := intrinsics
	I["(*"+T+"Decoder).Decode"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		md := zero(m.eng.typ("github.com/BurntSushi/toml", "MetaData")).(Struct)
		r := (*(a[0].(*Val))).(Struct)[0]
		res := m.callFn(c, m.eng.prog.ImportedPackage("io").Func("ReadAll"), []Val{r}, nil).(Tuple)
		if res[1].(Iface).t != nil {
			return Tuple{md, res[1]}
		}
		d := &tomlDec{m: m, decoded: newMap()}
		var text []byte
		for _, b := range sl(res[0]) {
			if x, ok := b.(uint64); ok {
				text = append(text, byte(x))
				continue
			}
			if !m.byteIn(b, 0x20, 0x7e) || m.byteIs(b, '"') || m.byteIs(b, '\\') || m.byteIs(b, '\'') {
				panic(unsupported{"a symbolic byte of TOML which may need an escape"})
			}
			text = utf8.AppendRune(text, rune(tomlMark+len(d.marks)))
			d.marks = append(d.marks, b)
		}
		var tree map[string]interface{}
		hmd, err := toml.Decode(string(text), &tree)
		if err != nil {
			if len(d.marks) > 0 {
				panic(unsupported{"TOML which is refused with symbolic bytes: " + err.Error()})
			}
			return Tuple{md, m.newError(err.Error())}
		}
		var keys []Val
		for _, k := range hmd.Keys() {
			var ks []Val
			for _, s := range k {
				ks = append(ks, d.str(s))
			}
			keys = append(keys, ks)
		}
		st := m.eng.typ("github.com/BurntSushi/toml", "MetaData").Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "keys":
				md[i] = keys
			case "decoded":
				md[i] = d.decoded
			}
		}
		dst := a[1].(Iface)
		pt, ok := dst.t.(*types.Pointer)
		if !ok {
			panic(unsupported{"toml into " + dst.t.String()})
		}
		ret := Val(Iface{})
		func() {
			defer func() {
				if e := recover(); e != nil {
					f, ok := e.(tomlFail)
					if !ok {
						panic(e)
					}
					ret = m.newError("toml: " + f.msg)
				}
			}()
			d.into(tree, pt.Elem(), dst.v.(*Val))
		}()
		return Tuple{md, ret}
	}
	// a key is defined if there is one which begins with it
	I["(*"+T+"MetaData).IsDefined"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		want := sl(a[1])
		st := m.eng.typ("github.com/BurntSushi/toml", "MetaData").Underlying().(*types.Struct)
		for i := 0; i < st.NumFields() && len(want) > 0; i++ {
			if st.Field(i).Name() != "keys" {
				continue
			}
			for _, k := range sl((*(a[0].(*Val))).(Struct)[i]) {
				ks := sl(k)
				same := len(ks) >= len(want)
				for j := 0; same && j < len(want); j++ {
					same = m.branch(m.strEq(ks[j], want[j]))
				}
				if same {
					return true
				}
			}
		}
		return false
	}
	for _, n := range []string{"(*" + T + "MetaData).Type", "(*" + T + "MetaData).PrimitiveDecode"} {
		n := n
		I[n] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { panic(unsupported{"call of " + n}) }
	}
}

func init() {
	// Templates are only used for help texts: what they write is not modelled.
	const T = "text/template"
	I := intrinsics
	I["("+"*"+T+".Template).Funcs"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return a[0] }
	I["("+"*"+T+".Template).Parse"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return Tuple{a[0], Iface{}} }
	I["("+"*"+T+".Template).Execute"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		m.writeTo(c, a[1], strBytes("(template)"))
		return Iface{}
	}
}
