package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

type Sat int

const (
	Unsat Sat = iota
	IsSat
	Unknown
)

// Solver drives one z3 process over a pipe, keeping the asserted path
// condition as a stack so that queries sharing a prefix share the work.
type Solver struct {
	ctx     *TermCtx
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	buf     bytes.Buffer
	stack   []*Term
	timeout int // ms

	defined map[*Term]bool

	Queries   int
	Unknowns  int
	Fallbacks int
	Time      time.Duration
	dead      bool
}

var z3bin = "z3-new"

func init() {
	if v := os.Getenv("GOSYM_Z3"); v != "" {
		z3bin = v
	}
}

func NewSolver(ctx *TermCtx, timeoutMs int) *Solver {
	s := &Solver{ctx: ctx, timeout: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(z3bin, "-in", "-smt2", fmt.Sprintf("-t:%d", s.timeout))
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.defined = map[*Term]bool{}
	s.buf.Reset()
	s.buf.WriteString("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func ratSMT(r *big.Rat, sort Sort) string {
	n := new(big.Int).Set(r.Num())
	neg := n.Sign() < 0
	n.Abs(n)
	var str string
	if sort == SInt {
		str = n.String()
	} else {
		if r.IsInt() {
			str = n.String() + ".0"
		} else {
			str = "(/ " + n.String() + ".0 " + r.Denom().String() + ".0)"
		}
	}
	if neg {
		return "(- " + str + ")"
	}
	return str
}

func sortSMT(s Sort) string {
	switch s {
	case SBool:
		return "Bool"
	case SInt:
		return "Int"
	}
	return "Real"
}

func quoteSym(n string) string { return "|" + n + "|" }

// ref ensures t is defined in the buffer w and returns its reference.
func smtRef(t *Term, defined map[*Term]bool, w *bytes.Buffer) string {
	switch t.op {
	case OConst:
		if t.sort == SBool {
			if t.b {
				return "true"
			}
			return "false"
		}
		return ratSMT(t.c, t.sort)
	case OVar:
		if !defined[t] {
			defined[t] = true
			fmt.Fprintf(w, "(declare-const %s %s)\n", quoteSym(t.name), sortSMT(t.sort))
		}
		return quoteSym(t.name)
	}
	name := fmt.Sprintf("t%d", t.id)
	if defined[t] {
		return name
	}
	var b strings.Builder
	refs := make([]string, len(t.args))
	for i, a := range t.args {
		refs[i] = smtRef(a, defined, w)
	}
	switch t.op {
	case OLin:
		items := []string{}
		for _, x := range t.lin {
			r := smtRef(x.a, defined, w)
			if x.k.Cmp(ratOne) == 0 {
				items = append(items, r)
			} else {
				items = append(items, "(* "+ratSMT(x.k, t.sort)+" "+r+")")
			}
		}
		if t.c.Sign() != 0 {
			items = append(items, ratSMT(t.c, t.sort))
		}
		if len(items) == 1 {
			b.WriteString(items[0])
		} else {
			b.WriteString("(+ " + strings.Join(items, " ") + ")")
		}
	case OMono:
		num := []string{}
		den := []string{}
		for i := range t.args {
			e := t.exps[i]
			for ; e > 0; e-- {
				num = append(num, refs[i])
			}
			for ; e < 0; e++ {
				den = append(den, refs[i])
			}
		}
		mul := func(x []string) string {
			if len(x) == 0 {
				return "1.0"
			}
			if len(x) == 1 {
				return x[0]
			}
			return "(* " + strings.Join(x, " ") + ")"
		}
		if len(den) == 0 {
			b.WriteString(mul(num))
		} else {
			b.WriteString("(/ " + mul(num) + " " + mul(den) + ")")
		}
	case OIte:
		fmt.Fprintf(&b, "(ite %s %s %s)", refs[0], refs[1], refs[2])
	case ONot:
		fmt.Fprintf(&b, "(not %s)", refs[0])
	case OAnd:
		fmt.Fprintf(&b, "(and %s)", strings.Join(refs, " "))
	case OOr:
		fmt.Fprintf(&b, "(or %s)", strings.Join(refs, " "))
	case OLe:
		fmt.Fprintf(&b, "(<= %s %s)", refs[0], ratSMT(ratZero, t.args[0].sort))
	case OEq:
		fmt.Fprintf(&b, "(= %s %s)", refs[0], ratSMT(ratZero, t.args[0].sort))
	case OToReal:
		fmt.Fprintf(&b, "(to_real %s)", refs[0])
	case ODiv:
		fmt.Fprintf(&b, "(div %s %s)", refs[0], t.k)
	case OMod:
		fmt.Fprintf(&b, "(mod %s %s)", refs[0], t.k)
	case ODivV:
		fmt.Fprintf(&b, "(div %s %s)", refs[0], refs[1])
	case OFloor:
		fmt.Fprintf(&b, "(to_int %s)", refs[0])
	case OHexCh:
		p := new(big.Int).Lsh(big.NewInt(1), uint(4*t.pos))
		d := fmt.Sprintf("(mod (div %s %s) 16)", refs[0], p)
		fmt.Fprintf(&b, "(let ((d %s)) (ite (< d 10) (+ d 48) (+ d 87)))", d)
	case OBitOp:
		items := []string{}
		for i := 0; i < t.pos; i++ {
			p := new(big.Int).Lsh(big.NewInt(1), uint(i))
			x := fmt.Sprintf("(mod (div %s %s) 2)", refs[0], p)
			y := fmt.Sprintf("(mod (div %s %s) 2)", refs[1], p)
			var z string
			switch t.k.Int64() {
			case 0:
				z = fmt.Sprintf("(and (= %s 1) (= %s 1))", x, y)
			case 1:
				z = fmt.Sprintf("(or (= %s 1) (= %s 1))", x, y)
			default:
				z = fmt.Sprintf("(not (= %s %s))", x, y)
			}
			items = append(items, fmt.Sprintf("(ite %s %s 0)", z, p))
		}
		b.WriteString("(+ " + strings.Join(items, " ") + " 0)")
	case OInv:
		fmt.Fprintf(&b, "(/ 1.0 %s)", refs[0])
	case OUF:
		fn := fmt.Sprintf("uf.%s.%d", t.name, len(t.args))
		key := &Term{}
		_ = key
		if k := ufKey(fn); !defined[k] {
			defined[k] = true
			as := []string{}
			for _, a := range t.args {
				as = append(as, sortSMT(a.sort))
			}
			fmt.Fprintf(w, "(declare-fun |%s| (%s) %s)\n", fn, strings.Join(as, " "), sortSMT(t.sort))
		}
		if len(refs) == 0 {
			fmt.Fprintf(&b, "|%s|", fn)
		} else {
			fmt.Fprintf(&b, "(|%s| %s)", fn, strings.Join(refs, " "))
		}
	default:
		panic(fmt.Sprintf("smt op %d", t.op))
	}
	defined[t] = true
	fmt.Fprintf(w, "(define-fun %s () %s %s)\n", name, sortSMT(t.sort), b.String())
	return name
}

var ufKeys = map[string]*Term{}
var ufMu sync.Mutex

func ufKey(n string) *Term {
	ufMu.Lock()
	defer ufMu.Unlock()
	if t, ok := ufKeys[n]; ok {
		return t
	}
	t := &Term{name: n}
	ufKeys[n] = t
	return t
}

func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		fmt.Fprintf(&s.buf, "(pop %d)\n", k)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		r := smtRef(t, s.defined, &s.buf)
		fmt.Fprintf(&s.buf, "(push 1)\n(assert %s)\n", r)
		s.stack = append(s.stack, t)
	}
}

func (s *Solver) flush() error {
	_, err := s.in.Write(s.buf.Bytes())
	s.buf.Reset()
	return err
}

// Check decides pc /\ extra; on sat returns a model of the given variables.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (Sat, Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	if len(s.defined) > 400000 {
		s.restart()
	}
	s.sync(pc)
	r := smtRef(extra, s.defined, &s.buf)
	for _, v := range vars {
		smtRef(v, s.defined, &s.buf)
	}
	fmt.Fprintf(&s.buf, "(push 1)\n(assert %s)\n(check-sat)\n", r)
	if err := s.flush(); err != nil {
		s.restart()
		return s.fallback(pc, extra, vars)
	}
	done := make(chan string, 1)
	go func() {
		l, err := s.out.ReadString('\n')
		if err != nil {
			l = "dead"
		}
		done <- strings.TrimSpace(l)
	}()
	var line string
	select {
	case line = <-done:
	case <-time.After(time.Duration(s.timeout+2000) * time.Millisecond):
		s.restart()
		return s.fallback(pc, extra, vars)
	}
	switch line {
	case "unsat":
		s.buf.WriteString("(pop 1)\n")
		return Unsat, nil
	case "sat":
		var m Model
		ok := true
		if len(vars) > 0 {
			s.buf.WriteString("(get-value (")
			for _, v := range vars {
				s.buf.WriteString(" " + quoteSym(v.name))
			}
			s.buf.WriteString("))\n")
			s.flush()
			txt, err := readSexp(s.out)
			if err != nil {
				s.restart()
				return Unknown, nil
			}
			m, ok = parseModel(txt, vars)
		} else {
			m = Model{}
		}
		s.buf.WriteString("(pop 1)\n")
		if !ok {
			return s.fallback(pc, extra, vars)
		}
		return IsSat, m
	case "unknown", "timeout":
		s.buf.WriteString("(pop 1)\n")
		return s.fallback(pc, extra, vars)
	}
	s.restart()
	if strings.Contains(line, "error") {
		if d := os.Getenv("GOSYM_SMT"); d != "" {
			s.fallback(pc, extra, vars)
		}
		panic("solver: " + line)
	}
	return s.fallback(pc, extra, vars)
}

// fallback runs other solvers from scratch on the same query.
func (s *Solver) fallback(pc []*Term, extra *Term, vars []*Term) (Sat, Model) {
	s.Fallbacks++
	var w bytes.Buffer
	def := map[*Term]bool{}
	w.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	for _, t := range pc {
		r := smtRef(t, def, &w)
		fmt.Fprintf(&w, "(assert %s)\n", r)
	}
	r := smtRef(extra, def, &w)
	fmt.Fprintf(&w, "(assert %s)\n", r)
	for _, v := range vars {
		smtRef(v, def, &w)
	}
	w.WriteString("(check-sat)\n")
	if d := os.Getenv("GOSYM_SMT"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%p-%d.smt2", d, s, s.Fallbacks), w.Bytes(), 0644)
	}
	if len(vars) > 0 {
		w.WriteString("(get-value (")
		for _, v := range vars {
			w.WriteString(" " + quoteSym(v.name))
		}
		w.WriteString("))\n")
	}
	cx, cancel := context.WithTimeout(context.Background(), 34*time.Second)
	defer cancel()
	cmds := [][]string{
		{"z3", "-in", "-smt2", "-T:30"},
		{"z3-new", "-in", "-smt2", "-T:30"},
		{"cvc5", "--lang=smt2", "--nl-cov", "--tlimit=30000", "-"},
	}
	type ans struct {
		r Sat
		m Model
	}
	ch := make(chan ans, len(cmds))
	for _, c := range cmds {
		go func(c []string) {
			cmd := exec.CommandContext(cx, c[0], c[1:]...)
			cmd.Stdin = bytes.NewReader(w.Bytes())
			out, _ := cmd.Output()
			str := string(out)
			if strings.HasPrefix(str, "unsat") {
				ch <- ans{Unsat, nil}
				return
			}
			if strings.HasPrefix(str, "sat") {
				if len(vars) == 0 {
					ch <- ans{IsSat, Model{}}
					return
				}
				if m, ok := parseModel(strings.TrimPrefix(str, "sat"), vars); ok {
					ch <- ans{IsSat, m}
					return
				}
			}
			ch <- ans{Unknown, nil}
		}(c)
	}
	for range cmds {
		if a := <-ch; a.r != Unknown {
			return a.r, a.m
		}
	}
	s.Unknowns++
	return Unknown, nil
}

func readSexp(r *bufio.Reader) (string, error) {
	var b strings.Builder
	depth := 0
	started := false
	inq := false
	for {
		c, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		b.WriteByte(c)
		if c == '|' {
			inq = !inq
		}
		if inq {
			continue
		}
		if c == '(' {
			depth++
			started = true
		}
		if c == ')' {
			depth--
		}
		if started && depth == 0 {
			r.ReadString('\n')
			return b.String(), nil
		}
	}
}

type sexp struct {
	atom string
	list []*sexp
}

func parseSexp(s string) *sexp {
	i := 0
	var rec func() *sexp
	rec = func() *sexp {
		for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
			i++
		}
		if i >= len(s) {
			return nil
		}
		if s[i] == '(' {
			i++
			n := &sexp{}
			for {
				for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
					i++
				}
				if i >= len(s) {
					return n
				}
				if s[i] == ')' {
					i++
					return n
				}
				c := rec()
				if c == nil {
					return n
				}
				n.list = append(n.list, c)
			}
		}
		if s[i] == '|' {
			j := strings.IndexByte(s[i+1:], '|') + i + 1
			a := s[i+1 : j]
			i = j + 1
			return &sexp{atom: a}
		}
		j := i
		for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
			j++
		}
		a := s[i:j]
		i = j
		return &sexp{atom: a}
	}
	return rec()
}

func numSexp(e *sexp) (*big.Rat, bool) {
	if e.list == nil {
		switch e.atom {
		case "true":
			return ratOne, true
		case "false":
			return ratZero, true
		}
		r, ok := new(big.Rat).SetString(e.atom)
		return r, ok
	}
	if len(e.list) == 2 && e.list[0].atom == "-" {
		r, ok := numSexp(e.list[1])
		if !ok {
			return nil, false
		}
		return new(big.Rat).Neg(r), true
	}
	if len(e.list) == 3 && e.list[0].atom == "/" {
		a, ok1 := numSexp(e.list[1])
		b, ok2 := numSexp(e.list[2])
		if !ok1 || !ok2 || b.Sign() == 0 {
			return nil, false
		}
		return new(big.Rat).Quo(a, b), true
	}
	return nil, false
}

func parseModel(txt string, vars []*Term) (Model, bool) {
	m := Model{}
	e := parseSexp(txt)
	if e == nil {
		return nil, false
	}
	for _, p := range e.list {
		if len(p.list) != 2 {
			return nil, false
		}
		v, ok := numSexp(p.list[1])
		if !ok {
			return nil, false
		}
		m[p.list[0].atom] = v
	}
	for _, v := range vars {
		if _, ok := m[v.name]; !ok {
			return nil, false
		}
	}
	return m, true
}
