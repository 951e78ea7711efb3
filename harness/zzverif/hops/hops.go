// Package hops: which operations are accepted, and macros.
package hops

import (
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/zzverif/hk"
	"github.com/mescanne/goledger/zzverif/v"
)

func amts() (a, b *big.Rat) { return v.Rat("amt", -9, 9, 1), v.Rat("amt", -9, 9, 1) }

func build(a, b *big.Rat) *book.Book {
	bb := book.NewBookBuilder()
	bb.NewTransaction(book.GetDate(2020, 1, 31), "p", "")
	bb.AddPosting("A:x", "S", hk.Cp(a), "n")
	bb.AddPosting("B", "S", hk.Neg(a), "")
	bb.NewTransaction(book.GetDate(2020, 3, 1), "q", "")
	bb.AddPosting("A:y", "$", hk.Cp(b), "")
	bb.AddPosting("B", "$", hk.Neg(b), "")
	return bb.Build()
}

// chars is a text of up to n of the characters, each on a path of its own.
func chars(n int, of string) string {
	s := ""
	for i := v.Choice("length", n+1); i > 0; i-- {
		s += string(of[v.Choice("char", len(of))])
	}
	return s
}

func only(s, chars string) bool {
	for _, c := range s {
		if !strings.ContainsRune(chars, c) {
			return false
		}
	}
	return true
}

// meaning is what an accepted operation makes of the postings.
func meaning(op string, ps []hk.P) []hk.P {
	i := strings.IndexByte(op, '=')
	kind, rest := op[:i], op[i+1:]
	args := strings.Split(rest, "/")
	var re *regexp.Regexp
	if rest[0] == '/' {
		re = regexp.MustCompile(args[1])
	}
	var out []hk.P
	moved := func(p hk.P, d book.Date, from, to string, amt *big.Rat) {
		a, b := p, p
		a.Date, b.Date = d, d
		a.Acct, b.Acct = from, to
		a.Amt, b.Amt = hk.Neg(amt), amt
		out = append(out, a, b)
	}
	for _, p := range ps {
		switch kind {
		case "map":
			m := re.MatchString(p.Acct)
			if m {
				p.Acct = re.ReplaceAllString(p.Acct, args[2])
			} else if args[3] != "" {
				p.Acct = args[3]
			}
		case "mapccy":
			p.CCY = re.ReplaceAllString(p.CCY, args[2])
		case "move":
			if re.MatchString(p.Acct) {
				x, ok := new(big.Rat).SetString(strings.TrimSuffix(args[3], "."))
				v.Assert(ok, "a factor is a number")
				if ok {
					moved(p, p.Date, p.Acct, re.ReplaceAllString(p.Acct, args[2]), x.Mul(x, p.Amt))
				}
			}
		case "depreciate":
			if re.MatchString(p.Acct) {
				n, _ := strconv.Atoi(args[3])
				to := re.ReplaceAllString(p.Acct, args[2])
				moved(p, p.Date, p.Acct, to, p.Amt)
				d := p.Date
				for j := 0; j < n; j++ {
					moved(p, d, to, p.Acct, new(big.Rat).Mul(p.Amt, big.NewRat(1, int64(n))))
					y, m := int(d)/10000, int(d)/100%100+1
					d = book.Date(y*10000 + m*100 + 1)
					if m > 12 {
						d = book.Date((y+1)*10000 + 101)
					}
				}
			}
		case "asof":
			if p.Date >= book.DateFromString(rest) {
				continue
			}
		case "since":
			if p.Date < book.DateFromString(rest) {
				continue
			}
		case "combine":
			switch strings.ToLower(rest) {
			case "yearly":
				p.Date = p.Date/10000*10000 + 101
			case "quarterly":
				p.Date = p.Date/10000*10000 + (p.Date/100%100-1)/3*300 + 101
			case "monthly":
				p.Date = p.Date/100*100 + 1
			case "today":
				p.Date = book.GetToday()
			}
			p.Payee = ""
		}
		out = append(out, p)
	}
	return out
}

// Texts: an operation is applied if it is one and refused with an error,
// leaving the book as it is, if it is not.
func Texts() {
	v.MapOrder(0)
	n := v.Bound("arbitrary characters of an operation", 2, 3)
	op, want := "", false
	switch v.Choice("what", 13) {
	case 12:
		s := v.Str("text", 0, n, "E$1{/")
		op, want = "mapccy=/^(.*)$/"+s+"/", s != "" && !strings.Contains(s, "/")
	case 11:
		s, is := hk.ADate()
		op, want = []string{"asof=", "since="}[v.Choice("side", 2)]+s, is
	case 0:
		s := v.Str("text", 0, n, "A(*[|")
		_, err := regexp.Compile(s)
		op, want = "map=/"+s+"/Z/", s != "" && err == nil
	case 1:
		s := v.Str("text", 0, n, "Z$1{/")
		want = true
		p := strings.Split(s, "/")
		for _, x := range p {
			want = want && x != ""
		}
		op, want = "map=/^A:(.*)$/"+s+"/", want && len(p) <= 2
	case 2:
		s := chars(n+1, "01.e-/")
		op, want = "move=/^A/Z/"+s+"/", strings.ContainsAny(s, "01") && only(s, "01.") && strings.Count(s, ".") <= 1
	case 3:
		s := chars(2, "012.-/")
		op, want = "depreciate=/^A/Z/"+s+"/", strings.ContainsAny(s, "12") && only(s, "012")
	case 4:
		s := v.Str("text", 0, n+2, "2/-x")
		op, want = []string{"asof=", "since="}[v.Choice("side", 2)]+s, book.DateFromString(s) != book.Date(0)
	case 5:
		s := []string{"yearly", "quarterly", "monthly", "none", "Monthly", "YEARLY", "today", "", "weekly", "monthly ", "month"}[v.Choice("period", 11)]
		op = "combine=" + s
		for _, x := range []string{"yearly", "quarterly", "monthly", "none", "today"} {
			want = want || strings.EqualFold(s, x)
		}
	case 6:
		s := v.Str("text", 0, n, "S(*$/")
		_, err := regexp.Compile(s)
		op, want = "mapccy=/"+s+"/E/", s != "" && !strings.Contains(s, "/") && err == nil
	case 7:
		s := v.Str("text", 0, n, "A(*[|")
		_, err := regexp.Compile(s)
		op, want = "depreciate=/"+s+"/Z/2/", s != "" && err == nil
	case 8:
		s := v.Str("text", 0, n, "A(*[|")
		_, err := regexp.Compile(s)
		op, want = "move=/"+s+"/Z/0.5/", s != "" && err == nil
	case 9:
		op = v.Str("text", 0, n+1, "mapX=/") + []string{"", "/A/Z/", "=/A/Z/"}[v.Choice("rest", 3)]
		want = op == "map=/A/Z/"
	case 10:
		s := v.Str("text", 0, n, "yZ$1/")
		op = "map=/^A:(.)$/B:$1/" + s
		want = s == "" || (strings.Count(s, "/") == 1 && strings.HasSuffix(s, "/") && s != "/")
	}
	v.Observe("op", op)
	b := build(amts())
	before := hk.Snap(b)
	a := app.DefaultApp
	err := a.BookOps(b, op)
	v.Assert((err == nil) == want, "an operation is accepted exactly if it is one")
	if err != nil {
		v.Assert(hk.Same(before, hk.Snap(b)), "a refused operation changes nothing")
		v.Reach("refused")
		return
	}
	ps := meaning(op, before)
	got := hk.Snap(b)
	for _, p := range got {
		v.Assert(v.RatEq(p.Amt, hk.SumKey(ps, p)), "an operation which is accepted is applied")
	}
	for _, p := range ps {
		v.Assert(v.RatEq(hk.SumKey(got, p), hk.SumKey(ps, p)), "an operation which is accepted is applied")
	}
	hk.Balanced(b, "an operation keeps transactions balanced")
	v.Reach("accepted")
}

var list = []string{"map=/^A:(.*)$/Z:$1/", "move=/^B$/C/0.5/", "asof=2020/02/01", "combine=yearly", "bad=1", "m0", "m1", "m2", "map=/(/x/"}

// expand gives the plain operations of an operation, or nil if it uses itself.
func expand(macros map[string][]string, op string, depth int) ([]string, bool) {
	m, ok := macros[op]
	if !ok {
		return []string{op}, true
	}
	if depth > len(macros) {
		return nil, false
	}
	var out []string
	for _, o := range m {
		e, ok := expand(macros, o, depth+1)
		out = append(out, e...)
		if !ok {
			return out, false
		}
	}
	return out, true
}

// Macros: a macro is its operations one after the other.
func Macros() {
	v.MapOrder(0)
	pick := func() string { return list[v.Choice("op", len(list))] }
	var macros map[string][]string
	if u := v.Choice("unnamed", 3); u == 2 {
		// a macro is as long as it is
		macros = map[string][]string{"m0": {pick()}, "m1": {list[0]}}
		for i := 0; i < 9; i++ {
			macros["m0"] = append([]string{list[0]}, macros["m0"]...)
		}
	} else {
		macros = map[string][]string{"m0": {pick(), pick()}, "m1": {list[0], pick()}}
		if u == 1 {
			macros["m2"] = nil
		}
	}
	a := app.DefaultApp
	a.Macros = macros
	x, y := v.Rat("amt", 1, 9, 1), v.Rat("amt", 1, 9, 1)
	b, c := build(x, y), build(x, y)
	ops := []string{"m0", pick()}
	err := a.BookOps(b, ops...)
	plain := app.DefaultApp
	plain.Macros = nil
	var want error
	fine := true
	for _, o := range ops {
		e, ok := expand(macros, o, 0)
		for _, p := range e {
			if want == nil {
				want = plain.BookOps(c, p)
			}
		}
		if !ok && want == nil {
			fine = false
			break
		}
	}
	v.Assert((err == nil) == (fine && want == nil), "a macro is refused exactly if it uses itself or one of its operations is refused")
	if err == nil {
		v.Assert(hk.Same(hk.Snap(b), hk.Snap(c)), "a macro is its operations one after the other")
		v.Reach("accepted")
	} else {
		v.Reach("refused")
	}
}

// Many: long lists of operations, and macros of macros of macros.
func Many() {
	v.MapOrder(0)
	n := v.Bound("operations", 24, 60)
	a, b := amts()
	bk := build(a, b)
	want := hk.Snap(bk)
	ap := app.DefaultApp
	ap.Macros = map[string][]string{}
	var ops []string
	name := func(i int) string { return "N" + strings.Repeat("a", i) }
	for i := 0; i < n; i++ {
		ops = append(ops, "map=/^"+name(i)+"$/"+name(i+1)+"/")
	}
	ops = append([]string{"map=/^B$/N/"}, ops...)
	to := name(n)
	switch v.Choice("as", 3) {
	case 1: // one macro
		ap.Macros["all"] = ops
		ops = []string{"all"}
	case 2: // every macro uses the one before it
		for i, op := range ops {
			m := []string{op}
			if i > 0 {
				m = []string{"m" + strconv.Itoa(i-1), op}
			}
			ap.Macros["m"+strconv.Itoa(i)] = m
		}
		ops = []string{"m" + strconv.Itoa(n)}
	}
	v.Assert(ap.BookOps(bk, ops...) == nil, "operations are accepted")
	for i := range want {
		if want[i].Acct == "B" {
			want[i].Acct = to
		}
	}
	hk.CheckBook(bk, want, "book")
	v.Reach("end")
}
