// Package hbook: building, compacting and transforming books.
package hbook

import (
	"math/big"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/zzverif/hk"
	"github.com/mescanne/goledger/zzverif/v"
)

var ccys = []string{"X", "Y"}

// BuildBalance: a book is built exactly when every transaction is balanced in
// every commodity, whatever the amounts.
func BuildBalance() {
	nt := 2
	np := v.Bound("postings per transaction", 3, 4)
	ts := make([]hk.T, nt)
	ok := true
	for i := range ts {
		ts[i].Date = book.GetDate(2020, 1, 1+i)
		ts[i].Payee = "p"
		for j := 0; j < np; j++ {
			c := ccys[0]
			if j > 0 {
				c = ccys[v.Choice("ccy", 2)]
			}
			a := v.Rat("amt", -1000000, 1000000, 1)
			ts[i].Posts = append(ts[i].Posts, hk.P{Acct: "A" + string(rune('a'+j)), CCY: c, Amt: a})
		}
		for _, c := range ccys {
			s := new(big.Rat)
			for _, p := range ts[i].Posts {
				if p.CCY == c {
					s.Add(s, p.Amt)
				}
			}
			ok = v.And(ok, hk.Zero(s))
		}
	}
	_, refused, _ := hk.Build(ts)
	v.Observe("refused", refused)
	v.Assert(v.Not(v.And(ok, refused)), "a book whose transactions all balance is accepted")
	v.Assert(v.Or(ok, refused), "a book with an unbalanced transaction is refused")
	if refused {
		v.Reach("refused")
	} else {
		v.Reach("accepted")
	}
}

// BuildFraction is the same for amounts with decimals, one transaction.
func BuildFraction() {
	np := v.Bound("postings", 3, 4)
	t := hk.T{Date: book.GetDate(2020, 1, 1), Payee: "p"}
	s := new(big.Rat)
	for j := 0; j < np; j++ {
		a := v.Rat("amt", -1000, 1000, []int{1, 4, 10, 3}[j])
		s.Add(s, a)
		t.Posts = append(t.Posts, hk.P{Acct: "A" + string(rune('a'+j)), CCY: "X", Amt: a})
	}
	ok := hk.Zero(s)
	_, refused, _ := hk.Build([]hk.T{t})
	v.Assert(v.Not(v.And(ok, refused)), "a balanced transaction of fractional amounts is accepted")
	v.Assert(v.Or(ok, refused), "an unbalanced transaction of fractional amounts is refused")
	if refused {
		v.Reach("refused")
	} else {
		v.Reach("accepted")
	}
}

// sameOrder: nt transactions with symbolic dates and payees, two or more
// postings each in one commodity.
func someTxns(nt, np int, accts []string, payees string, loDay, hiDay int) []hk.T {
	ts := make([]hk.T, nt)
	for i := range ts {
		ts[i].Date = book.GetDate(2020, 1, v.Int("day", loDay, hiDay))
		ts[i].Payee = v.Str("payee", 1, 1, payees)
		ts[i].Note = "note " + string(rune('0'+i))
		rest := new(big.Rat)
		for j := 0; j < np; j++ {
			p := hk.P{Acct: accts[v.Choice("acct", len(accts))], CCY: "X", Note: string(rune('k'+i)) + string(rune('0'+j))}
			if j < np-1 {
				p.Amt = v.Rat("amt", -1000, 1000, 1)
				rest.Add(rest, p.Amt)
			} else {
				p.Amt = hk.Neg(rest)
			}
			ts[i].Posts = append(ts[i].Posts, p)
		}
	}
	return ts
}

// CanonOrder: transactions written in any order of dates and payees.
func CanonOrder() {
	ts := someTxns(2, 2, []string{"A", "B", "C"}, "pq", 1, 28)
	b, refused, _ := hk.Build(ts)
	v.Assert(!refused, "a balanced book is accepted")
	hk.CheckBook(b, hk.Numbered(ts), "built book")
	v.Reach("end")
}

// CanonOrder3: three transactions with fixed accounts.
func CanonOrder3() {
	ts := someTxns(3, 2, []string{"A"}, "pq", 1, 28)
	for i := range ts {
		ts[i].Posts[1].Acct = "B"
	}
	b, refused, _ := hk.Build(ts)
	v.Assert(!refused, "a balanced book is accepted")
	hk.CheckBook(b, hk.Numbered(ts), "built book")
	v.Reach("end")
}

// CanonMerge: several postings of one transaction on the same accounts in two
// commodities.
func CanonMerge() {
	n := v.Bound("postings", 4, 5)
	t := hk.T{Date: book.GetDate(2020, 1, 1), Payee: "p"}
	ccys, accts := []string{"USD", "US"}, []string{"A", "B"}
	if v.Choice("names", 2) == 1 {
		ccys, accts, n = []string{"USD", "SD"}, []string{"A", "AU"}, n-1
	}
	rest := map[string]*big.Rat{ccys[0]: new(big.Rat), ccys[1]: new(big.Rat)}
	for i := 0; i < n; i++ {
		p := hk.P{Acct: accts[v.Choice("acct", 2)], CCY: ccys[v.Choice("ccy", 2)], Amt: v.Rat("amt", -1000, 1000, 1)}
		rest[p.CCY].Add(rest[p.CCY], p.Amt)
		t.Posts = append(t.Posts, p)
	}
	for _, c := range ccys {
		t.Posts = append(t.Posts, hk.P{Acct: "C", CCY: c, Amt: hk.Neg(rest[c])})
	}
	b, refused, _ := hk.Build([]hk.T{t})
	v.Assert(!refused, "a balanced book is accepted")
	hk.CheckBook(b, hk.Flat([]hk.T{t}), "built book")
	v.Reach("end")
}

// BuildTiny is the same for a very large amount out of balance by very little.
func BuildTiny() {
	big1 := v.Rat("large", -1000000000000000, 1000000000000000, 1)
	tiny := v.Rat("tiny", -1000, 1000, 1<<40)
	rest := v.Rat("rest", -1000, 1000, 1<<40)
	t := hk.T{Date: book.GetDate(2020, 1, 1), Payee: "p", Posts: []hk.P{
		{Acct: "A", CCY: "X", Amt: big1},
		{Acct: "B", CCY: "X", Amt: new(big.Rat).Add(hk.Neg(big1), tiny)},
		{Acct: "C", CCY: "X", Amt: rest},
	}}
	_, refused, _ := hk.Build([]hk.T{t})
	v.Observe("refused", refused)
	v.Assert(refused == v.Not(v.RatEq(tiny, hk.Neg(rest))), "a transaction out of balance by however little is refused")
	if refused {
		v.Reach("refused")
	} else {
		v.Reach("accepted")
	}
}

// Many: a book of many transactions in no order.
func Many() {
	v.MapOrder(0)
	n := v.Bound("transactions", 60, 150)
	ts := hk.Large(n, []string{"X", "Y", "£"}, v.Choice("at", 3)*7, v.Rat("amt", 1, 1000, 1))
	b, refused, _ := hk.Build(ts)
	v.Assert(!refused, "a balanced book is accepted")
	if refused {
		return
	}
	hk.CheckBook(b, hk.Numbered(ts), "built book")
	v.Reach("end")
}
