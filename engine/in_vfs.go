package main

import (
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An in-memory file system per path: regular files and directories by cleaned
// path, relative to the working directory ".". HOME is the working directory
// too (as in native replays).

type vfile struct {
	data []Val
	dir  bool
}

type vhandle struct {
	name   string
	f      *vfile
	off    int
	rd, wr bool
	app    bool
	closed bool
}

type vfs struct {
	files   map[string]*vfile
	handles map[*Val]*vhandle
	env     map[string]string
	limit   Val // largest size a file may be written to, -1: none
	capture bool
	out     []Val           // captured standard output
	watch   map[string]bool // files watched, true once changed in place
	tmp     int
}

const homeDir = "/zzhome"

func (m *M) fs() *vfs {
	if m.pure > 0 {
		panic(impure{"file system"})
	}
	if x, ok := m.state["vfs"]; ok {
		return x.(*vfs)
	}
	x := &vfs{files: map[string]*vfile{}, handles: map[*Val]*vhandle{}, env: map[string]string{"HOME": homeDir}, limit: int64(-1)}
	x.files[homeDir] = &vfile{dir: true}
	x.files["/"] = &vfile{dir: true}
	m.state["vfs"] = x
	return x
}

func (m *M) vpath(v Val) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported{"symbolic file name"})
	}
	if s == "" {
		return ""
	}
	if !filepath.IsAbs(s) {
		s = filepath.Join(homeDir, s)
	}
	return filepath.Clean(s)
}

const (
	eNOENT = 2
	eBADF  = 9
	eEXIST = 17
	eISDIR = 21
	eNOTD  = 20
	eINVAL = 22
	eFBIG  = 27
	eNEMPT = 39
)

func (m *M) pathError(op string, name Val, errno int) Val {
	var v Val = Struct{op, name, Iface{m.eng.typ("syscall", "Errno"), uint64(errno)}}
	return Iface{types.NewPointer(m.eng.typ("io/fs", "PathError")), &v}
}

func (m *M) ioEOF() Val {
	p := m.eng.prog.ImportedPackage("io")
	return *(m.global(p.Var("EOF")).(*Val))
}

func (x *vfs) parentOK(p string) int {
	d := filepath.Dir(p)
	f, ok := x.files[d]
	if !ok {
		return eNOENT
	}
	if !f.dir {
		return eNOTD
	}
	return 0
}

// touch notes that a file is changed in place, created or removed.
func (x *vfs) touch(p string) {
	if _, ok := x.watch[p]; ok {
		x.watch[p] = true
	}
}

func (m *M) stat(op string, name Val, f *vfile) Val {
	t := m.eng.typ("os", "fileStat")
	v := zero(t)
	s := v.(Struct)
	p, _ := name.(string)
	s[0], s[1], s[2] = filepath.Base(p), int64(len(f.data)), uint64(0644)
	if f.dir {
		s[2] = uint64(0755 | 1<<31)
	}
	return Tuple{Iface{types.NewPointer(t), &v}, Iface{}}
}

func (m *M) open(name Val, flag int64) (*Val, int) {
	x := m.fs()
	p := m.vpath(name)
	if p == "" {
		return nil, eNOENT
	}
	const wronly, rdwr, creat, excl, trunc, appnd = 1, 2, 0x40, 0x80, 0x200, 0x400
	f, ok := x.files[p]
	if !ok {
		if flag&creat == 0 {
			return nil, eNOENT
		}
		if e := x.parentOK(p); e != 0 {
			return nil, e
		}
		f = &vfile{}
		x.files[p] = f
		x.touch(p)
	} else {
		if flag&creat != 0 && flag&excl != 0 {
			return nil, eEXIST
		}
		if f.dir && flag&(wronly|rdwr) != 0 {
			return nil, eISDIR
		}
		if flag&trunc != 0 {
			f.data = nil
			x.touch(p)
		}
	}
	var v Val = Struct{(*Val)(nil)}
	h := &vhandle{name: p, f: f, rd: flag&3 != wronly, wr: flag&3 != 0, app: flag&appnd != 0}
	x.handles[&v] = h
	if s, ok := name.(string); ok {
		h.name = s
	}
	return &v, 0
}

// wrote captures what is written to standard output.
func (m *M) wrote(f Val, b []Val) {
	x := m.fs()
	if !x.capture {
		return
	}
	if f != nil {
		o, _ := (*m.global(m.eng.prog.ImportedPackage("os").Var("Stdout")).(*Val)).(*Val)
		if p, _ := f.(*Val); p != o {
			return
		}
	}
	x.out = append(x.out, b...)
}

func (m *M) write(h *vhandle, b []Val) (int, int) {
	x := m.fs()
	if h.app {
		h.off = len(h.f.data)
	}
	n := len(b)
	if t, ok := x.limit.(*Term); ok && n > 0 {
		// a symbolic limit: it is decided once it matters
		if !m.branch(m.ctx.Le(m.ctx.Int(int64(h.off+n)), t)) {
			x.limit = m.forkInt(t, 2000)
		}
	}
	if l, ok := x.limit.(int64); ok && l >= 0 && h.off+n > int(l) {
		n = int(l) - h.off
		if n < 0 {
			n = 0
		}
	}
	for len(h.f.data) < h.off+n {
		h.f.data = append(h.f.data, uint64(0))
	}
	nd := append([]Val{}, h.f.data...)
	copy(nd[h.off:], b[:n])
	h.f.data = nd
	for p := range x.watch {
		if x.files[p] == h.f {
			x.touch(p)
		}
	}
	h.off += n
	if n < len(b) {
		return n, eFBIG
	}
	return n, 0
}

func init() {
	I := intrinsics
	const V = vpkg + "."
	ok := Iface{}
	nilf := (*Val)(nil)

	I[V+"PutFile"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		x := m.fs()
		p := m.vpath(a[0])
		for d := filepath.Dir(p); d != "/"; d = filepath.Dir(d) {
			if _, ok := x.files[d]; !ok {
				x.files[d] = &vfile{dir: true}
			}
		}
		x.files[p] = &vfile{data: bytesOf(a[1])}
		return nil
	}
	I[V+"GetFile"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		f, ok := m.fs().files[m.vpath(a[0])]
		if !ok || f.dir {
			return Tuple{"", false}
		}
		return Tuple{mkStr(append([]Val{}, f.data...)), true}
	}
	I[V+"Files"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		n := 0
		for _, f := range m.fs().files {
			if !f.dir {
				n++
			}
		}
		return int64(n)
	}
	I[V+"Setenv"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		m.fs().env[a[0].(string)] = a[1].(string)
		return nil
	}
	I[V+"Unsetenv"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		delete(m.fs().env, a[0].(string))
		return nil
	}
	I[V+"LimitWrites"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		m.fs().limit = a[0]
		return nil
	}
	I[V+"Capture"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		m.fs().capture, m.fs().out = true, nil
		return nil
	}
	I[V+"Captured"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		x := m.fs()
		x.capture = false
		return mkStr(append([]Val{}, x.out...))
	}
	I[V+"Watch"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		m.fs().watch = nil
		if p := m.vpath(a[0]); m.fs().parentOK(p) == 0 {
			m.fs().watch = map[string]bool{p: false}
		}
		return nil
	}
	I[V+"Touched"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		for _, t := range m.fs().watch {
			return t
		}
		return false
	}
	stat := func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		p := m.vpath(a[0])
		f, have := m.fs().files[p]
		if p == "" || !have {
			return Tuple{ok, m.pathError("stat", a[0], eNOENT)}
		}
		return m.stat("stat", a[0], f)
	}
	I["os.Stat"] = stat
	I["os.Lstat"] = stat
	I["os.LookupEnv"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		s, ok := m.fs().env[a[0].(string)]
		return Tuple{s, ok}
	}
	I["os.Getenv"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return m.fs().env[a[0].(string)] }
	I["os.UserHomeDir"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		h := m.fs().env["HOME"]
		if h == "" {
			return Tuple{"", m.newError("$HOME is not defined")}
		}
		return Tuple{h, ok}
	}
	I["os.UserConfigDir"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		x := m.fs()
		d := x.env["XDG_CONFIG_HOME"]
		if d == "" {
			if x.env["HOME"] == "" {
				return Tuple{"", m.newError("neither $XDG_CONFIG_HOME nor $HOME are defined")}
			}
			d = x.env["HOME"] + "/.config"
		} else if !filepath.IsAbs(d) {
			return Tuple{"", m.newError("path in $XDG_CONFIG_HOME is relative")}
		}
		return Tuple{d, ok}
	}
	openf := func(m *M, name Val, flag int64) Val {
		h, e := m.open(name, flag)
		if e != 0 {
			return Tuple{nilf, m.pathError("open", name, e)}
		}
		return Tuple{h, ok}
	}
	I["os.Open"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return openf(m, a[0], 0) }
	I["os.Create"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return openf(m, a[0], 2|0x40|0x200) }
	I["os.OpenFile"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return openf(m, a[0], concI(a[1])) }
	tmpf := func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		x := m.fs()
		d, okd := a[0].(string)
		pat, okp := a[1].(string)
		if !okd || !okp {
			panic(unsupported{"symbolic file name"})
		}
		if d == "" {
			d = homeDir
		}
		x.tmp++
		pre, suf := pat, ""
		if i := strings.LastIndex(pat, "*"); i >= 0 {
			pre, suf = pat[:i], pat[i+1:]
		}
		return openf(m, filepath.Join(d, pre+"90000"+itoa(x.tmp)+suf), 2|0x40|0x80)
	}
	I["os.CreateTemp"] = tmpf
	I["io/ioutil.TempFile"] = tmpf
	readf := func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		x := m.fs()
		p := m.vpath(a[0])
		f, have := x.files[p]
		if p == "" || !have {
			return Tuple{[]Val(nil), m.pathError("open", a[0], eNOENT)}
		}
		if f.dir {
			return Tuple{[]Val(nil), m.pathError("read", a[0], eISDIR)}
		}
		return Tuple{append([]Val{}, f.data...), ok}
	}
	I["os.ReadFile"] = readf
	I["io/ioutil.ReadFile"] = readf
	writef := func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		h, e := m.open(a[0], 1|0x40|0x200)
		if e != 0 {
			return m.pathError("open", a[0], e)
		}
		if _, e := m.write(m.fs().handles[h], sl(a[1])); e != 0 {
			return m.pathError("write", a[0], e)
		}
		return ok
	}
	I["os.WriteFile"] = writef
	I["io/ioutil.WriteFile"] = writef
	I["os.Remove"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		x := m.fs()
		p := m.vpath(a[0])
		f, have := x.files[p]
		if !have {
			return m.pathError("remove", a[0], eNOENT)
		}
		if f.dir {
			for q := range x.files {
				if q != p && strings.HasPrefix(q, p+"/") {
					return m.pathError("remove", a[0], eNEMPT)
				}
			}
		}
		delete(x.files, p)
		x.touch(p)
		return ok
	}
	I["os.Rename"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		x := m.fs()
		p, q := m.vpath(a[0]), m.vpath(a[1])
		link := func(e int) Val {
			var v Val = Struct{"rename", a[0], a[1], Iface{m.eng.typ("syscall", "Errno"), uint64(e)}}
			return Iface{types.NewPointer(m.eng.typ("os", "LinkError")), &v}
		}
		f, have := x.files[p]
		if !have {
			return link(eNOENT)
		}
		if f.dir {
			panic(unsupported{"rename of a directory"})
		}
		if e := x.parentOK(q); e != 0 {
			return link(e)
		}
		if g, have := x.files[q]; have && g.dir {
			return link(eEXIST)
		}
		if p != q {
			delete(x.files, p)
			x.touch(p)
			x.files[q] = f
		}
		return ok
	}
	I["os.Chmod"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		if _, have := m.fs().files[m.vpath(a[0])]; !have {
			return m.pathError("chmod", a[0], eNOENT)
		}
		return ok
	}
	mkdir := func(m *M, name Val, all bool) Val {
		x := m.fs()
		p := m.vpath(name)
		if p == "" {
			return m.pathError("mkdir", name, eNOENT)
		}
		if f, have := x.files[p]; have {
			if all && f.dir {
				return ok
			}
			if all {
				return m.pathError("mkdir", name, eNOTD)
			}
			return m.pathError("mkdir", name, eEXIST)
		}
		var todo []string
		for d := p; ; d = filepath.Dir(d) {
			f, have := x.files[d]
			if have {
				if !f.dir {
					return m.pathError("mkdir", name, eNOTD)
				}
				break
			}
			todo = append(todo, d)
		}
		if !all && len(todo) > 1 {
			return m.pathError("mkdir", name, eNOENT)
		}
		for _, d := range todo {
			x.files[d] = &vfile{dir: true}
		}
		return ok
	}
	I["os.MkdirAll"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return mkdir(m, a[0], true) }
	I["os.Mkdir"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return mkdir(m, a[0], false) }

	// methods of files
	get := func(m *M, f Val) *vhandle {
		p, _ := f.(*Val)
		if p == nil {
			return nil
		}
		return m.fs().handles[p]
	}
	inval := func(m *M) Val {
		return *(m.global(m.eng.prog.ImportedPackage("os").Var("ErrInvalid")).(*Val))
	}
	_ = inval
	I["(*os.File).Read"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		h := get(m, a[0])
		if h == nil {
			return Tuple{int64(0), m.ioEOF()} // standard input is empty
		}
		if h.closed {
			return Tuple{int64(0), m.newError("read " + h.name + ": file already closed")}
		}
		if h.f.dir {
			return Tuple{int64(0), m.pathError("read", h.name, eISDIR)}
		}
		if !h.rd {
			return Tuple{int64(0), m.pathError("read", h.name, eBADF)}
		}
		b := sl(a[1])
		if len(b) == 0 {
			return Tuple{int64(0), ok}
		}
		if h.off >= len(h.f.data) {
			return Tuple{int64(0), m.ioEOF()}
		}
		n := copy(b, h.f.data[h.off:])
		h.off += n
		return Tuple{int64(n), ok}
	}
	wr := func(m *M, f Val, b []Val) Val {
		h := get(m, f)
		if h == nil {
			// standard output and error
			m.wrote(f, b)
			return Tuple{int64(len(b)), ok}
		}
		if h.closed {
			return Tuple{int64(0), m.newError("write " + h.name + ": file already closed")}
		}
		if !h.wr {
			return Tuple{int64(0), m.pathError("write", h.name, eBADF)}
		}
		n, e := m.write(h, b)
		if e != 0 {
			return Tuple{int64(n), m.pathError("write", h.name, e)}
		}
		return Tuple{int64(n), ok}
	}
	I["(*os.File).Write"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return wr(m, a[0], sl(a[1])) }
	I["(*os.File).WriteString"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return wr(m, a[0], bytesOf(a[1])) }
	I["(*os.File).Close"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		h := get(m, a[0])
		if h == nil {
			if p, _ := a[0].(*Val); p == nil {
				return m.newError("invalid argument")
			}
			return ok
		}
		if h.closed {
			return m.newError("close " + h.name + ": file already closed")
		}
		h.closed = true
		return ok
	}
	I["(*os.File).Sync"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return ok }
	I["(*os.File).Chmod"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { return ok }
	I["(*os.File).Name"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		if h := get(m, a[0]); h != nil {
			return h.name
		}
		return ""
	}
	I["(*os.File).Stat"] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		h := get(m, a[0])
		if h == nil {
			panic(unsupported{"Stat of a standard file"})
		}
		return m.stat("stat", h.name, h.f)
	}
	for _, n := range []string{"os.ReadDir", "(*os.File).Seek", "(*os.File).ReadAt", "(*os.File).WriteAt", "(*os.File).Truncate", "os.RemoveAll", "os.Link", "os.Symlink"} {
		n := n
		I[n] = func(m *M, _ *frame, _ *ssa.Function, a []Val) Val { panic(unsupported{"call of " + n}) }
	}
	isErr := func(want int) func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		return func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
			return errnoOf(a[0]) == want
		}
	}
	I["os.IsNotExist"] = isErr(eNOENT)
	I["os.IsExist"] = isErr(eEXIST)
}

// errnoOf looks into a PathError (or LinkError).
func errnoOf(v Val) int {
	i, _ := v.(Iface)
	if i.t == nil {
		return 0
	}
	if p, ok := i.v.(*Val); ok && p != nil {
		if s, ok := (*p).(Struct); ok && len(s) >= 3 {
			if e, ok := s[len(s)-1].(Iface); ok {
				if n, ok := e.v.(uint64); ok && e.t != nil && strings.HasSuffix(e.t.String(), "syscall.Errno") {
					return int(n)
				}
			}
		}
	}
	return 0
}

var _ = sort.Strings
