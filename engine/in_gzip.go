package main

import (
	"golang.org/x/tools/go/ssa"
)

// A model of compress/gzip which keeps the bytes as they are: a stream is the
// ten bytes of a header, the data in blocks of a length and bytes, and an end
// with a checksum of the length. What is cut or changed in these is refused
// as the real one refuses it.

type gzWriter struct {
	w      Val
	buf    []Val
	header bool
	closed bool
}

type gzReader struct {
	data []Val
	off  int
	err  Val // at the end of data
}

func init() {
	I := intrinsics
	const G = "compress/gzip."
	ok := Iface{}
	writeTo := func(m *M, c *frame, w Val, b []Val) Val {
		i := w.(Iface)
		f := m.eng.methodByName(i.t, "Write")
		if f == nil {
			panic(unsupported{"gzip to " + i.t.String()})
		}
		r := m.callFn(c, f, []Val{i.v, b}, nil).(Tuple)
		return r[1]
	}
	newWriter := func(m *M, _ *frame, _ *ssa.Function, a []Val) Val {
		var v Val = &gzWriter{w: a[0]}
		return &v
	}
	I[G+"NewWriter"] = newWriter
	I[G+"NewWriterLevel"] = func(m *M, c *frame, fn *ssa.Function, a []Val) Val {
		if l, isc := a[1].(int64); !isc || l < -2 || l > 9 {
			return Tuple{(*Val)(nil), m.newError("gzip: invalid compression level")}
		}
		return Tuple{newWriter(m, c, fn, a), ok}
	}
	wof := func(a []Val) *gzWriter { return (*(a[0].(*Val))).(*gzWriter) }
	hdr := func(m *M, c *frame, g *gzWriter) Val {
		if g.header {
			return ok
		}
		g.header = true
		return writeTo(m, c, g.w, strBytes("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff"))
	}
	flush := func(m *M, c *frame, g *gzWriter) Val {
		for len(g.buf) > 0 {
			b := g.buf
			if len(b) > 60000 {
				b = b[:60000]
			}
			g.buf = g.buf[len(b):]
			n := len(b)
			if e := writeTo(m, c, g.w, append([]Val{uint64(1), uint64(n >> 8), uint64(n & 255)}, b...)); e.(Iface).t != nil {
				return e
			}
		}
		return ok
	}
	I["(*compress/gzip.Writer).Write"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		g := wof(a)
		if g.closed {
			return Tuple{int64(0), m.newError("gzip: write to closed writer")}
		}
		if e := hdr(m, c, g); e.(Iface).t != nil {
			return Tuple{int64(0), e}
		}
		b := sl(a[1])
		g.buf = append(g.buf, b...)
		return Tuple{int64(len(b)), ok}
	}
	I["(*compress/gzip.Writer).Flush"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		g := wof(a)
		if e := hdr(m, c, g); e.(Iface).t != nil {
			return e
		}
		return flush(m, c, g)
	}
	I["(*compress/gzip.Writer).Close"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		g := wof(a)
		if g.closed {
			return ok
		}
		g.closed = true
		if e := hdr(m, c, g); e.(Iface).t != nil {
			return e
		}
		if e := flush(m, c, g); e.(Iface).t != nil {
			return e
		}
		return writeTo(m, c, g.w, strBytes("\x03\x00\x00\x00\x00\x00\x00\x00"))
	}
	I[G+"NewReader"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		pk := m.eng.prog.ImportedPackage("io")
		r := m.callFn(c, pk.Func("ReadAll"), []Val{a[0]}, nil).(Tuple)
		nilr := (*Val)(nil)
		if r[1].(Iface).t != nil {
			return Tuple{nilr, r[1]}
		}
		b := sl(r[0])
		global := func(pkg, name string) Val {
			return *(m.global(m.eng.prog.ImportedPackage(pkg).Var(name)).(*Val))
		}
		if len(b) == 0 {
			return Tuple{nilr, global("io", "EOF")}
		}
		if len(b) < 10 {
			return Tuple{nilr, global("io", "ErrUnexpectedEOF")}
		}
		if !m.byteIs(b[0], 0x1f) || !m.byteIs(b[1], 0x8b) || !m.byteIs(b[2], 8) {
			return Tuple{nilr, m.newError("gzip: invalid header")}
		}
		g := &gzReader{err: global("io", "EOF")}
		b = b[10:]
		for {
			if len(b) < 1 {
				g.err = global("io", "ErrUnexpectedEOF")
				break
			}
			if m.byteIs(b[0], 1) {
				if len(b) < 3 {
					g.err = global("io", "ErrUnexpectedEOF")
					break
				}
				n := int(m.byteFork(b[1]))<<8 | int(m.byteFork(b[2]))
				b = b[3:]
				if n > len(b) {
					g.data = append(g.data, b...)
					g.err = global("io", "ErrUnexpectedEOF")
					break
				}
				g.data = append(g.data, b[:n]...)
				b = b[n:]
				continue
			}
			if !m.byteIs(b[0], 3) {
				g.err = m.newError("flate: corrupt input")
			} else if len(b) < 8 {
				g.err = global("io", "ErrUnexpectedEOF")
			} else if len(b) > 8 {
				g.err = m.newError("gzip: invalid header")
			}
			break
		}
		var v Val = g
		return Tuple{&v, ok}
	}
	I["(*compress/gzip.Reader).Read"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val {
		g := (*(a[0].(*Val))).(*gzReader)
		b := sl(a[1])
		if len(b) == 0 {
			return Tuple{int64(0), ok}
		}
		if g.off >= len(g.data) {
			return Tuple{int64(0), g.err}
		}
		n := copy(b, g.data[g.off:])
		g.off += n
		return Tuple{int64(n), ok}
	}
	I["(*compress/gzip.Reader).Close"] = func(m *M, c *frame, _ *ssa.Function, a []Val) Val { return ok }
}
