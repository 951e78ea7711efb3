// Package hquery: asking changes nothing, and copies are independent.
package hquery

import (
	"math/big"
	"regexp"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/zzverif/hk"
	"github.com/mescanne/goledger/zzverif/v"
)

var d1, d2 = book.GetDate(2020, 1, 31), book.GetDate(2020, 3, 1)

// sample: two transactions in which some postings fall together, a second
// commodity and a price.
func sample() (*book.Book, *big.Rat) {
	bb := book.NewBookBuilder()
	a, c, e := v.Rat("a", -9, 9, 1), v.Rat("c", -9, 9, 1), v.Rat("e", -9, 9, 1)
	bb.NewTransaction(d1, "p", "n")
	bb.AddPosting("A:x", "X", hk.Cp(a), "")
	bb.AddPosting("A:x", "X", hk.Cp(c), "")
	bb.AddPosting("B", "X", hk.Neg(new(big.Rat).Add(a, c)), "k")
	bb.NewTransaction(d2, "q", "")
	bb.AddPosting("A:y", "Y", hk.Cp(e), "")
	bb.AddPosting("A:x", "Y", hk.Neg(e), "")
	if v.Choice("third", 2) == 1 {
		bb.AddPosting("C", "X", big.NewRat(3, 1), "")
		bb.AddPosting("B:z", "X", big.NewRat(-1, 1), "")
		bb.AddPosting("B:z", "X", big.NewRat(-2, 1), "")
	}
	r := v.Rat("rate", 1, 3, 1)
	bb.AddPrice(d1, "Y", "X", hk.Cp(r))
	return bb.Build(), r
}

type state struct {
	ps   []hk.P
	rate *big.Rat
	typ  book.PriceType
	n    int
}

func look(b *book.Book) state {
	r, t := b.GetPrice(d2, "Y", "X")
	return state{hk.Snap(b), hk.Cp(r), t, len(b.Transactions())}
}

func same(a, b state) bool {
	if len(a.ps) != len(b.ps) || a.n != b.n || a.typ != b.typ || !v.RatEq(a.rate, b.rate) {
		return false
	}
	for i := range a.ps {
		if !v.RatEq(a.ps[i].Bal, b.ps[i].Bal) {
			return false
		}
	}
	return hk.Same(a.ps, b.ps)
}

type answer struct {
	what string
	s    []string
	r    []*big.Rat
}

func sameAnswer(a, b answer) bool {
	if len(a.s) != len(b.s) || len(a.r) != len(b.r) {
		return false
	}
	for i := range a.s {
		if a.s[i] != b.s[i] {
			return false
		}
	}
	for i := range a.r {
		if !v.RatEq(a.r[i], b.r[i]) {
			return false
		}
	}
	return true
}

func ask(q int, b *book.Book) answer {
	var a answer
	add := func(s string, r *big.Rat) {
		a.s = append(a.s, s)
		a.r = append(a.r, hk.Cp(r))
	}
	switch q {
	case 0, 1:
		a.what = "a summed report"
		var credit *regexp.Regexp
		if q == 1 {
			credit = regexp.MustCompile("^A")
		}
		for _, t := range b.Accumulate("X", ":", credit, "") {
			for _, p := range t {
				add(p.GetAccount()+" "+p.GetCCY(), p.GetAmount())
			}
		}
	case 2, 3:
		a.what = "a register"
		for _, e := range b.ExtractRegister("X", regexp.MustCompile("^A"), q == 3) {
			add(e.Account+" "+e.CounterAccount, e.Amount)
			add("balance", e.Balance)
			add("base", e.BaseAmount)
			add("base balance", e.BaseBalance)
		}
	case 4:
		a.what = "the accounts"
		a.s = append(b.Accounts(".", false), b.Accounts("^A", true)...)
	case 5:
		a.what = "rates"
		r, _ := b.GetPrice(d1, "X", "Y")
		add("", r)
		for _, t := range b.Transactions() {
			for k, r := range t.InferRates("X") {
				add(k, r)
			}
			if r := t.InferRate("X", "Y"); r != nil {
				add("", r)
			}
			a.s = append(a.s, t.GetPayee())
		}
	case 6:
		a.what = "transactions"
		for _, t := range b.Transactions() {
			for _, p := range t {
				add(p.GetAccount()+" "+p.GetCCY(), p.GetAmount())
				add("", p.GetBalance())
			}
		}
	}
	return a
}

const queries = 7

// Ask: every question leaves the book as it was and has the same answer when
// asked again.
func Ask() {
	v.MapOrder(0)
	b, _ := sample()
	before := look(b)
	q := v.Choice("query", queries)
	v.MapOrder(1)
	a1 := ask(q, b)
	for i := range a1.s {
		v.Observe("answer", a1.s[i])
	}
	v.Assert(same(before, look(b)), a1.what+": asking leaves the book as it was")
	a2 := ask(q, b)
	v.Assert(sameAnswer(a1, a2), a1.what+": asking again has the same answer")
	v.Reach("end")
}

// Ask2: one question does not change the answer of another.
func Ask2() {
	v.MapOrder(0)
	b, _ := sample()
	q1, q2 := v.Choice("first", queries), v.Choice("second", queries)
	a := ask(q2, b)
	ask(q1, b)
	v.Assert(sameAnswer(a, ask(q2, b)), a.what+": the answer does not depend on what was asked before")
	v.Reach("end")
}

var ops = []string{
	"map=/^A:(.*)$/B:$1/",
	"map=/^A/N/rest/",
	"move=/^A:x$/M/0.5/",
	"since=2020-02-01",
	"asof=2020-02-01",
	"combine=yearly",
	"depreciate=/^A:x$/D/2/",
	"mapccy=/Y/X/",
	"mapccy=/X/Z/",
	"double",
	"split",
}

func change(b *book.Book, op string) {
	switch op {
	case "double":
		b.MapAmount(func(d book.Date, ccy string) (*big.Rat, string) { return big.NewRat(2, 1), ccy })
	case "split":
		b.SplitBy("monthly")
	default:
		if err := (&app.App{}).BookOps(b, op); err != nil {
			panic(err)
		}
	}
	b.Transactions()
}

// Copies: changing a copy leaves the original as it was, and the other way
// round.
func Copies() {
	b, _ := sample()
	c := b.Duplicate()
	before := look(b)
	v.Assert(same(before, look(c)), "a copy holds what the original does")
	op := ops[v.Choice("op", len(ops))]
	if v.Choice("which", 2) == 0 {
		change(c, op)
		v.Assert(same(before, look(b)), op+": changing a copy leaves the original as it was")
	} else {
		change(b, op)
		v.Assert(same(before, look(c)), op+": changing the original leaves a copy as it was")
	}
	v.Reach("end")
}
