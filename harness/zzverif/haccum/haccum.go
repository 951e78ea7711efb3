// Package haccum: the subtotals of reports.
package haccum

import (
	"math/big"
	"regexp"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/zzverif/hk"
	"github.com/mescanne/goledger/zzverif/v"
)

// div divides the levels of accounts, which are written with : here.
var div = ":"

func under(acct, k string) bool { return acct == k || strings.HasPrefix(acct, k+div) }

// common is the deepest account both are under, or "".
func common(a, b string) string {
	x, y := strings.Split(a, div), strings.Split(b, div)
	n := 0
	for n < len(x) && n < len(y) && x[n] == y[n] {
		n++
	}
	return strings.Join(x[:n], div)
}

type cfg struct {
	ccy    string
	rate   *big.Rat               // of Y in X
	rates  map[book.Date]*big.Rat // the same by dates, if they differ
	credit *regexp.Regexp
	hidden string
	order  bool // check the order of siblings
}

// check accumulates the book and checks the report against the postings.
func check(b *book.Book, ps []hk.P, c cfg) {
	rep := b.Accumulate(c.ccy, div, c.credit, c.hidden)
	if div != ":" {
		ps = append([]hk.P{}, ps...)
		for i := range ps {
			ps[i].Acct = strings.ReplaceAll(ps[i].Acct, ":", div)
		}
		c.hidden = strings.ReplaceAll(c.hidden, ":", div)
	}
	rows := hk.SnapT(rep)
	for _, r := range rows {
		v.Observe("row", r.Acct+" "+r.CCY)
		v.Observe("row", r.Amt)
	}
	// what there is
	type dp struct {
		d book.Date
		p string
	}
	var txns []dp
	var accts []string
	var keys [][2]string
	for _, p := range ps {
		f := false
		for _, t := range txns {
			f = f || t == dp{p.Date, p.Payee}
		}
		if !f {
			txns = append(txns, dp{p.Date, p.Payee})
		}
		f = false
		for _, a := range accts {
			f = f || a == p.Acct
		}
		if !f {
			accts = append(accts, p.Acct)
		}
		f = false
		for _, k := range keys {
			f = f || k == [2]string{p.Acct, p.CCY}
		}
		if !f {
			keys = append(keys, [2]string{p.Acct, p.CCY})
		}
	}
	conv := func(p hk.P) *big.Rat {
		if p.CCY != c.ccy {
			if c.rates != nil {
				return new(big.Rat).Mul(p.Amt, c.rates[p.Date])
			}
			return new(big.Rat).Mul(p.Amt, c.rate)
		}
		return p.Amt
	}
	sign := func(acct string, r *big.Rat) *big.Rat {
		if c.credit != nil && c.credit.MatchString(acct) {
			return hk.Neg(r)
		}
		return r
	}
	// which accounts have a subtotal
	sub := map[string]bool{}
	for i, a := range accts {
		for _, o := range accts[:i] {
			if k := common(a, o); k != "" {
				sub[k] = true
			}
		}
	}
	for _, k := range keys {
		if k[1] != c.ccy {
			sub[k[0]] = true
		}
	}
	v.Assert(len(rep) == len(txns), "the report has the transactions of the book")
	for _, t := range rep {
		var tp []hk.P
		for _, p := range ps {
			if p.Date == t.GetDate() && p.Payee == t.GetPayee() {
				tp = append(tp, p)
			}
		}
		// every row that has to be there, with its amount
		n := 0
		for _, k := range keys {
			if k[0] == c.hidden {
				continue
			}
			n++
			want := new(big.Rat)
			for _, p := range tp {
				if p.Acct == k[0] && p.CCY == k[1] {
					want.Add(want, p.Amt)
				}
			}
			ok := false
			for _, r := range t {
				if r.GetAccount() == k[0] && r.GetCCY() == k[1] {
					ok = v.Or(ok, v.RatEq(r.GetAmount(), sign(k[0], want)))
				}
			}
			v.Assert(ok, "every account shows its own amount in every transaction")
		}
		for k := range sub {
			if k == c.hidden {
				continue
			}
			n++
			want := new(big.Rat)
			for _, p := range tp {
				if under(p.Acct, k) {
					want.Add(want, conv(p))
				}
			}
			ok := false
			for _, r := range t {
				if r.GetAccount() == k && r.GetCCY() == c.ccy {
					ok = v.Or(ok, v.RatEq(r.GetAmount(), sign(k, want)))
				}
			}
			v.Assert(ok, "a subtotal is the converted sum of everything under its account")
		}
		v.Assert(len(t) == n, "the report has no other rows")
		for _, r := range t {
			v.Assert(r.GetAccount() != c.hidden, "the hidden account is not shown")
			v.Assert(r.GetTransactionNote() == tp[0].TNote, "a row has the note of its transaction")
		}
		if c.hidden == "" {
			hierarchy(t, c)
		}
	}
	v.Reach("end")
}

// hierarchy: read by its indentation the report gives the account names, and
// siblings come with the largest subtotal first.
func hierarchy(t book.Transaction, c cfg) {
	var path []string // account of the last row at each level
	var last []int    // and its row
	for i, r := range t {
		l := r.GetAccountLevel()
		v.Assert(l <= len(path), "a row is at most one level below the row before it")
		if l > len(path) {
			return
		}
		name := r.GetAccountTerm()
		if l > 0 {
			if name == "" {
				name = path[l-1]
			} else {
				name = path[l-1] + div + name
			}
		}
		v.Assert(name == r.GetAccount(), "read by its indentation a row names its account")
		if r.GetAccountTerm() == "" {
			// the account's own amount beneath its subtotal
			continue
		}
		if c.order && l < len(last) {
			a, b := t[last[l]], r
			if a.GetAccount() != b.GetAccount() && a.GetCCY() == c.ccy && b.GetCCY() == c.ccy {
				d := new(big.Rat).Sub(b.GetAmount(), a.GetAmount())
				v.Assert(d.Sign() <= 0, "of the accounts at one level the largest comes first")
			}
		}
		path = append(path[:l], r.GetAccount())
		last = append(last[:l], i)
	}
}

var names = []string{"A:x", "A:y", "B:u:v", "B:u:w", "C"}

// oneTxn: nposts postings on distinct accounts, balanced on the last account.
func oneTxn(date book.Date, accts []string, ccys []string, lo, hi int) hk.T {
	t := hk.T{Date: date, Payee: "p", Note: "n"}
	rest := map[string]*big.Rat{}
	for i, a := range accts {
		c := ccys[i]
		if rest[c] == nil {
			rest[c] = new(big.Rat)
		}
		amt := v.Rat("amt", lo, hi, 1)
		v.Assume(v.Not(hk.Zero(amt)))
		rest[c].Add(rest[c], amt)
		t.Posts = append(t.Posts, hk.P{Acct: a, CCY: c, Amt: amt})
	}
	for _, c := range []string{"X", "Y"} {
		if rest[c] != nil {
			v.Assume(v.Not(hk.Zero(rest[c])))
			t.Posts = append(t.Posts, hk.P{Acct: "Z:e", CCY: c, Amt: hk.Neg(rest[c])})
		}
	}
	return t
}

func build(ts []hk.T, rate *big.Rat) *book.Book {
	bb := book.NewBookBuilder()
	for _, t := range ts {
		bb.NewTransaction(t.Date, t.Payee, t.Note)
		for _, p := range t.Posts {
			bb.AddPosting(strings.ReplaceAll(p.Acct, ":", div), p.CCY, hk.Cp(p.Amt), p.Note)
		}
	}
	if rate != nil {
		bb.AddPrice(book.GetDate(2020, 1, 1), "Y", "X", rate)
	}
	return bb.Build()
}

var sets = [][]string{
	{"A:x", "A:y"},
	{"A:x", "B:u:v", "B:u:w"},
	{"A", "A:x"},
	{"A:x", "A:x:y", "A:z"},
	{"A:x", "AB:x"},
	{"A", "B"},
	{"Z", "Z:f", "Z:f:g"},
	{"A", "A-b", "A:x"},
	{"B b:x", "B:x", "B:y"},
	{"A:x:u", "A:x:v", "B:x"},
}

var date = book.GetDate(2020, 1, 1)

// OneCCY: one transaction in the report's currency.
func OneCCY() {
	s := sets[v.Choice("accounts", len(sets))]
	t := oneTxn(date, s, []string{"X", "X", "X"}, -50, 50)
	div = []string{":", "::", "-"}[v.Choice("divider", 3)]
	b := build([]hk.T{t}, nil)
	check(b, hk.Flat([]hk.T{t}), cfg{ccy: "X", order: true})
}

// Cents: amounts with decimals, far apart in size.
func Cents() {
	den := []int{2, 8, 1000}[v.Choice("decimals", 3)]
	t := hk.T{Date: date, Payee: "p"}
	a := []string{"A:x", "A:y", "B"}
	rest := new(big.Rat)
	for i := 0; i < 2; i++ {
		amt := v.Rat("amt", -10000, 10000, den)
		v.Assume(v.Not(hk.Zero(amt)))
		t.Posts = append(t.Posts, hk.P{Acct: a[i], CCY: "X", Amt: amt})
		rest.Sub(rest, amt)
	}
	v.Assume(v.Not(hk.Zero(rest)))
	t.Posts = append(t.Posts, hk.P{Acct: a[2], CCY: "X", Amt: rest})
	b := build([]hk.T{t}, nil)
	check(b, hk.Flat([]hk.T{t}), cfg{ccy: "X", order: true})
}

// Large: amounts up to a million million.
func Large() {
	s := [][]string{{"A", "B", "C"}, {"A:x", "B:u:v", "B:u:w"}}[v.Choice("accounts", 2)]
	t := oneTxn(date, s, []string{"X", "X", "X"}, -1000000000000, 1000000000000)
	b := build([]hk.T{t}, nil)
	check(b, hk.Flat([]hk.T{t}), cfg{ccy: "X", order: true})
}

// TwoTxns: the accounts of one transaction appear in the other, and every
// transaction has subtotals of its own.
func TwoTxns() {
	a := [][2][]string{
		{{"A:x"}, {"A:y"}},
		{{"A:x", "B"}, {"A:x:u"}},
		{{"A"}, {"A:x", "C"}},
		{{"A:x", "A:y"}, {"A:y"}},
	}[v.Choice("accounts", 4)]
	var ts []hk.T
	for i := 0; i < 2; i++ {
		t := oneTxn(date, a[i], []string{"X", "X", "X"}, -9, 9)
		if i == 1 {
			if v.Choice("day", 2) == 0 {
				t.Date = book.GetDate(2020, 1, 2)
			} else {
				t.Payee = "q"
			}
			t.Note = "m"
		}
		ts = append(ts, t)
	}
	b := build(ts, nil)
	check(b, hk.Flat(ts), cfg{ccy: "X", order: true})
}

// TwoCCY: amounts in another currency are converted in the subtotals.
func TwoCCY() {
	s := [][]string{
		{"A:x", "A:x"},
		{"A:x", "A:y", "B"},
		{"A", "A:x", "B"},
		{"A:x", "B:x"},
		{"C", "A:x:u", "A:x:v"},
	}[v.Choice("accounts", 5)]
	cs := [][]string{{"X", "Y", "X"}, {"Y", "X", "X"}, {"Y", "Y", "X"}}[v.Choice("ccys", 3)]
	if s[0] == s[1] {
		v.Assume(cs[0] != cs[1])
	}
	t := oneTxn(date, s, cs, -50, 50)
	rate := v.Rat("rate", 1, 5, 2)
	b := build([]hk.T{t}, rate)
	check(b, hk.Flat([]hk.T{t}), cfg{ccy: "X", rate: rate})
}

// Signs: credit accounts are shown with their sign changed and the hidden
// account is left out, and nothing else changes.
func Signs() {
	s := sets[v.Choice("accounts", len(sets))]
	t := oneTxn(date, s, []string{"X", "X", "X"}, -9, 9)
	c := cfg{ccy: "X"}
	c.credit = []*regexp.Regexp{nil, regexp.MustCompile("^(A|Z):"), regexp.MustCompile("^(A|B|Z)")}[v.Choice("credit", 3)]
	c.hidden = []string{"", "A", "A:x", "B:u"}[v.Choice("hidden", 4)]
	b := build([]hk.T{t}, nil)
	check(b, hk.Flat([]hk.T{t}), c)
}

// Rates: every transaction is converted at the rate of its own date.
func Rates() {
	v.MapOrder(0)
	days := [][2]int{{1, 11}, {11, 31}, {5, 40}, {16, 16}}[v.Choice("days", 4)]
	s := [][]string{{"A:x", "A:y"}, {"A:x", "A:x"}, {"B", "A:x:u"}}[v.Choice("accounts", 3)]
	r1, r2 := v.Rat("rate", 1, 5, 1), v.Rat("rate", 1, 5, 1)
	at := map[book.Date]*big.Rat{}
	var ts []hk.T
	for i, d := range days {
		on := book.GetDate(2020, 1, d)
		if d > 31 {
			on = book.GetDate(2020, 2, d-31)
		}
		n := d - 1
		if n > 30 {
			n = 30
		}
		r := new(big.Rat).Sub(r2, r1)
		r.Mul(r, big.NewRat(int64(n), 30))
		at[on] = r.Add(r, r1)
		t := hk.T{Date: on, Payee: string(rune('p' + i))}
		a := v.Rat("amt", -9, 9, 1)
		v.Assume(v.Not(hk.Zero(a)))
		t.Posts = []hk.P{{Acct: s[0], CCY: "Y", Amt: a}, {Acct: "Z:e", CCY: "Y", Amt: hk.Neg(a)}}
		if i == 0 {
			c := v.Rat("amt", -9, 9, 1)
			v.Assume(v.Not(hk.Zero(c)))
			t.Posts = append(t.Posts, hk.P{Acct: s[1], CCY: "X", Amt: c}, hk.P{Acct: "Z:e", CCY: "X", Amt: hk.Neg(c)})
		}
		ts = append(ts, t)
	}
	bb := book.NewBookBuilder()
	for _, t := range ts {
		bb.NewTransaction(t.Date, t.Payee, t.Note)
		for _, p := range t.Posts {
			bb.AddPosting(p.Acct, p.CCY, hk.Cp(p.Amt), p.Note)
		}
	}
	bb.AddPrice(book.GetDate(2020, 1, 31), "Y", "X", r2)
	bb.AddPrice(book.GetDate(2020, 1, 1), "Y", "X", r1)
	check(bb.Build(), hk.Flat(ts), cfg{ccy: "X", rates: at})
}

// Many: a report of many accounts on many levels.
func Many() {
	v.MapOrder(0)
	ts := hk.Large(v.Bound("transactions", 12, 24), []string{"X", "Y"}, v.Choice("at", 3)*4+1, v.Rat("amt", 1, 1000, 1))
	for i := range ts {
		ts[i].Date, ts[i].Payee, ts[i].Note = book.GetDate(2020, 2, 1+i%2), "p", "n"
	}
	bb := book.NewBookBuilder()
	bb.AddPrice(book.GetDate(2020, 1, 1), "Y", "X", big.NewRat(3, 2))
	for i := range ts {
		bb.NewTransaction(ts[i].Date, ts[i].Payee, ts[i].Note)
		for _, p := range ts[i].Posts {
			bb.AddPosting(p.Acct, p.CCY, hk.Cp(p.Amt), p.Note)
		}
	}
	b := bb.Build()
	c := cfg{ccy: "X", rate: big.NewRat(3, 2)}
	switch v.Choice("shown", 3) {
	case 1:
		c.credit = regexp.MustCompile("^B")
	case 2:
		c.hidden = "Assets:Bank4"
	}
	check(b, hk.Snap(b), c)
}
