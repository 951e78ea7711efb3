// Package hreg: registers of account postings.
package hreg

import (
	"math/big"
	"regexp"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/zzverif/hk"
	"github.com/mescanne/goledger/zzverif/v"
)

var d1, d2 = book.GetDate(2020, 1, 31), book.GetDate(2020, 3, 1)

type row struct {
	p       hk.P
	counter string
	amt     *big.Rat
	base    *big.Rat
}

// expected computes the rows of a register from the postings of the book in
// order.
func expected(ps []hk.P, re *regexp.Regexp, split bool, rate func(p hk.P) *big.Rat) []row {
	var out []row
	for _, p := range ps {
		if !re.MatchString(p.Acct) {
			continue
		}
		var ca []string
		var am []*big.Rat
		sum := new(big.Rat)
		for _, o := range ps {
			if o.Date == p.Date && o.Payee == p.Payee && o.Acct != p.Acct && o.CCY == p.CCY && o.Amt.Sign() != p.Amt.Sign() {
				ca = append(ca, o.Acct)
				am = append(am, o.Amt)
				sum.Add(sum, o.Amt)
			}
		}
		if len(ca) == 1 || !split {
			out = append(out, row{p, strings.Join(ca, ";"), p.Amt, new(big.Rat).Mul(p.Amt, rate(p))})
			continue
		}
		for i := range ca {
			x := new(big.Rat).Mul(am[i], p.Amt)
			x.Quo(x, sum)
			out = append(out, row{p, ca[i], x, new(big.Rat).Mul(x, rate(p))})
		}
	}
	return out
}

func check(b *book.Book, base string, re *regexp.Regexp, split bool, src func(p hk.P) book.PriceType, rate func(p hk.P) *big.Rat) {
	ps := hk.Snap(b)
	want := expected(ps, re, split, rate)
	rep := b.ExtractRegister(base, re, split)
	for _, e := range rep {
		v.Observe("row", e.Account+" "+e.CounterAccount+" "+e.CCY)
		v.Observe("row", e.Amount)
		v.Observe("row", e.Balance)
		v.Observe("row", e.BaseAmount)
	}
	v.Assert(len(rep) == len(want), "a register has a row for every posting (or counteraccount if split)")
	if len(rep) != len(want) {
		return
	}
	bal := map[string]*big.Rat{}
	baseBal := new(big.Rat)
	for i, e := range rep {
		w := want[i]
		v.Assert(e.Date == w.p.Date && e.Payee == w.p.Payee && e.Account == w.p.Acct && e.CCY == w.p.CCY && e.Note == w.p.Note && e.TNote == w.p.TNote, "a row is for its posting, in the order of the book")
		v.Assert(e.CounterAccount == w.counter, "a row names the accounts on the other side")
		v.Assert(v.RatEq(e.Amount, w.amt), "the rows of a posting carry its amount")
		if bal[e.CCY] == nil {
			bal[e.CCY] = new(big.Rat)
		}
		bal[e.CCY].Add(bal[e.CCY], w.amt)
		v.Assert(v.RatEq(e.Balance, bal[e.CCY]), "the balance runs over the rows of the commodity")
		v.Assert(v.RatEq(e.BaseAmount, w.base), "the amount in base currency is converted at the rate")
		baseBal.Add(baseBal, w.base)
		v.Assert(v.RatEq(e.BaseBalance, baseBal), "the base balance runs over all rows")
		v.Assert(e.BaseCCY == base && e.BaseSource == src(w.p), "the source of the rate is told")
	}
	v.Reach("end")
}

func one(p hk.P) *big.Rat         { return big.NewRat(1, 1) }
func exact(p hk.P) book.PriceType { return book.PriceTypeExact }

var res = []string{"^A", "A:x", "^B$", "."}

// OneCCY: one transaction of up to four accounts in the base currency.
func OneCCY() {
	bb := book.NewBookBuilder()
	bb.NewTransaction(d1, "p", "n")
	sum := new(big.Rat)
	n := v.Choice("posts", 3) + 1
	for i := 0; i < n; i++ {
		a := v.Rat("amt", -9, 9, 1)
		sum.Sub(sum, a)
		bb.AddPosting([]string{"A:x", "A:y", "B"}[i], "X", hk.Cp(a), "k")
	}
	bb.AddPosting("C", "X", sum, "")
	check(bb.Build(), "X", regexp.MustCompile(res[v.Choice("accounts", len(res))]), v.Choice("split", 2) == 1, exact, one)
}

// Running: balances over two transactions and two commodities.
func Running() {
	v.MapOrder(0)
	bb := book.NewBookBuilder()
	for i := 0; i < 2; i++ {
		bb.NewTransaction([]book.Date{d2, d1}[i], "p", "")
		for _, c := range []string{"X", "Y"} {
			a := v.Rat("amt", -9, 9, 1)
			x := v.Rat("amt", 1, 9, 1)
			// no account has both commodities: that would be an exchange
			bb.AddPosting("A:x"+c, c, hk.Cp(a), "")
			bb.AddPosting([]string{"A:y", "B"}[i]+c, c, hk.Cp(x), "")
			bb.AddPosting("C"+c, c, hk.Neg(new(big.Rat).Add(a, x)), "")
		}
	}
	r := v.Rat("rate", 1, 5, 1)
	bb.AddPrice(d1, "Y", "X", hk.Cp(r))
	check(bb.Build(), "X", regexp.MustCompile("^A"), false,
		func(p hk.P) book.PriceType {
			if p.CCY == "Y" && p.Date != d1 {
				return book.PriceTypeOutOfRange
			}
			return book.PriceTypeExact
		},
		func(p hk.P) *big.Rat {
			if p.CCY == "Y" {
				return r
			}
			return big.NewRat(1, 1)
		})
}

// Convert: the rate comes from an exchange in the transaction itself, else
// from the quoted prices.
func Convert() {
	v.MapOrder(0)
	bb := book.NewBookBuilder()
	bb.NewTransaction(d1, "p", "")
	y, x := v.Rat("bought", 1, 9, 1), v.Rat("paid", 1, 9, 1)
	inv := v.Choice("sell", 2) == 1
	if inv {
		y.Neg(y)
		x.Neg(x)
	}
	trade := v.Choice("trade", 3)
	bb.AddPosting("A", "Y", hk.Cp(y), "")
	bb.AddPosting("B", "X", hk.Neg(x), "")
	want := v.Rat("rate", 1, 5, 2)
	src := book.PriceType(book.PriceTypeExact)
	switch trade {
	case 0:
		// an exchange through one account
		bb.AddPosting("T", "Y", hk.Neg(y), "")
		bb.AddPosting("T", "X", hk.Cp(x), "")
		bb.AddPrice(d1, "Y", "X", hk.Cp(want))
		want = new(big.Rat).Quo(x, y)
		src = book.PriceTypeTrade
	case 1:
		// no exchange: different accounts
		bb.AddPosting("T", "Y", hk.Neg(y), "")
		bb.AddPosting("U", "X", hk.Cp(x), "")
		bb.AddPrice(d1, "Y", "X", hk.Cp(want))
	case 2:
		// prices quoted the other way round
		bb.AddPosting("T", "Y", hk.Neg(y), "")
		bb.AddPosting("U", "X", hk.Cp(x), "")
		bb.AddPrice(d2, "X", "Y", hk.Cp(want))
		want = new(big.Rat).Inv(want)
		src = book.PriceTypeOutOfRange
	}
	check(bb.Build(), "X", regexp.MustCompile("^[AB]$"), v.Choice("split", 2) == 1,
		func(p hk.P) book.PriceType {
			if p.CCY == "Y" {
				return src
			}
			return book.PriceTypeExact
		},
		func(p hk.P) *big.Rat {
			if p.CCY == "Y" {
				return want
			}
			return big.NewRat(1, 1)
		})
}

// Many: a register of many rows.
func Many() {
	v.MapOrder(0)
	ts := hk.Large(v.Bound("transactions", 60, 150), []string{"X"}, v.Choice("at", 3)*7, v.Rat("amt", 1, 1000, 1))
	b, refused, _ := hk.Build(ts)
	v.Assert(!refused, "a balanced book is accepted")
	if refused {
		return
	}
	check(b, "X", regexp.MustCompile([]string{"^Assets", "^A:b", "."}[v.Choice("accounts", 3)]), v.Choice("split", 2) == 1, exact, one)
}
