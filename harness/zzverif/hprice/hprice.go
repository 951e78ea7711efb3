// Package hprice: prices and conversions.
package hprice

import (
	"math/big"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/zzverif/hk"
	"github.com/mescanne/goledger/zzverif/v"
)

type pr struct {
	date book.Date
	val  *big.Rat
}

var days = []book.Date{20200228, 20200301, 20200302, 20200305, 20200405, 20201231, 20210101}

func prices(n int) (*book.Book, []pr) {
	bb := book.NewBookBuilder()
	var ps []pr
	for i := 0; i < n; i++ {
		p := pr{days[v.Choice("day", len(days)-2)+1], v.Rat("price", 1, 1000000, 1)}
		ps = append(ps, p)
		bb.AddPrice(p.date, "U", "X", new(big.Rat).Set(p.val))
	}
	return bb.Build(), ps
}

// check compares r and t with the prices ps for date d.
func check(r *big.Rat, t book.PriceType, ps []pr, d book.Date, inv bool, what string) {
	val := func(p pr) *big.Rat {
		if inv {
			return new(big.Rat).Inv(p.val)
		}
		return p.val
	}
	var lo, hi *pr
	exact := false
	ok := false
	for i := range ps {
		p := &ps[i]
		if p.date == d {
			exact = true
			ok = v.Or(ok, v.RatEq(r, val(*p)))
		}
		if p.date < d && (lo == nil || p.date > lo.date) {
			lo = p
		}
		if p.date > d && (hi == nil || p.date < hi.date) {
			hi = p
		}
	}
	if exact {
		v.Assert(t == book.PriceTypeExact, what+": a price of the day is exact")
		v.Assert(ok, what+": a price of the day is used as it is")
		v.Reach("exact")
		return
	}
	// prices quoted more than once a day may be taken from any quote
	any := func(dd book.Date, f func(p pr) bool) bool {
		b := false
		for _, p := range ps {
			if p.date == dd {
				b = v.Or(b, f(p))
			}
		}
		return b
	}
	if lo == nil || hi == nil {
		e := lo
		if e == nil {
			e = hi
		}
		v.Assert(t == book.PriceTypeOutOfRange, what+": a date outside the prices is marked so")
		v.Assert(any(e.date, func(p pr) bool { return v.RatEq(r, val(p)) }), what+": outside the prices the nearest one is used")
		v.Reach("outside")
		return
	}
	v.Assert(t == book.PriceTypeInferred, what+": a date between two prices is marked as inferred")
	f := big.NewRat(int64(d.AsDays()-lo.date.AsDays()), int64(hi.date.AsDays()-lo.date.AsDays()))
	v.Assert(any(lo.date, func(a pr) bool {
		return any(hi.date, func(b pr) bool {
			x := new(big.Rat).Sub(b.val, a.val)
			x.Mul(x, f)
			x.Add(x, a.val)
			if inv {
				return v.RatEq(new(big.Rat).Mul(r, x), big.NewRat(1, 1))
			}
			return v.RatEq(r, x)
		})
	}), what+": between two prices the rate runs on a straight line by days")
	v.Reach("between")
}

// Lookup: a rate on a date from a list of prices, in both directions.
func Lookup() {
	b, ps := prices(v.Bound("prices", 3, 4))
	d := days[v.Choice("date", len(days))]
	r, t := b.GetPrice(d, "U", "X")
	v.Observe("rate", r)
	v.Observe("type", t.String())
	check(r, t, ps, d, false, "rate")
	// the same question again has the same answer
	was := hkCp(r)
	r2, t2 := b.GetPrice(d, "U", "X")
	v.Assert(v.And(v.RatEq(was, r2), t == t2), "asking again gives the same rate")
}

// Inverse: the rate the other way round.
func Inverse() {
	b, ps := prices(2)
	d := days[v.Choice("date", len(days))]
	r, t := b.GetPrice(d, "X", "U")
	v.Observe("rate", r)
	check(r, t, ps, d, true, "inverse rate")
	// what is asked does not change the prices
	was := hkCp(r)
	r2, t2 := b.GetPrice(d, "X", "U")
	v.Assert(v.And(v.RatEq(was, r2), t == t2), "asking again gives the same rate")
	b.GetPrice(d, "X", "U")
	r, t = b.GetPrice(d, "U", "X")
	check(r, t, ps, d, false, "rate after the inverse rate")
	s, _ := b.GetPrice(d, "X", "X")
	v.Assert(v.RatEq(s, big.NewRat(1, 1)), "a commodity is worth itself")
	n, nt := b.GetPrice(d, "X", "Z")
	v.Assert(v.RatEq(n, big.NewRat(1, 1)) && nt == book.PriceTypeNone, "without prices the rate is one and marked as missing")
}

// Both: prices quoted in both directions; each direction uses its own quotes.
func Both() {
	bb := book.NewBookBuilder()
	a, c := v.Rat("a", 1, 1000, 1), v.Rat("c", 1, 1000, 1)
	d := days[v.Choice("date", len(days))]
	bb.AddPrice(days[1], "U", "X", a)
	bb.AddPrice(days[2], "X", "U", c)
	b := bb.Build()
	r, _ := b.GetPrice(d, "U", "X")
	s, _ := b.GetPrice(d, "X", "U")
	v.Assert(v.And(v.RatEq(r, a), v.RatEq(s, c)), "a direct quote goes before an inverse one")
	v.Reach("end")
}

// Iterate: walking through the prices by date gives the same rates as asking.
func Iterate() {
	b, ps := prices(v.Bound("prices", 3, 4))
	// one quote a day
	for i := range ps {
		for j := 0; j < i; j++ {
			v.Assume(ps[i].date != ps[j].date)
		}
	}
	it := b.GetPriceList("U", "X").GetIterator()
	from := v.Choice("from", len(days))
	step := v.Choice("step", 2) + 1
	for i := from; i < len(days); i += step {
		r, t := it.GetPrice(days[i])
		r2, t2 := b.GetPrice(days[i], "U", "X")
		v.Assert(v.RatEq(r, r2) && t == t2, "walking through the prices gives the rates of the days")
	}
	v.Reach("end")
}

// LookupDays: as Lookup with any days of two months and fixed prices.
func LookupDays() {
	bb := book.NewBookBuilder()
	n := v.Bound("prices on any day", 2, 3)
	var ps []pr
	for i := 0; i < n; i++ {
		p := pr{book.GetDate(2020, 2+v.Choice("month", 2), v.Int("day", 1, 28)), big.NewRat([]int64{7, 19, 4, 1}[i], 1)}
		for j := 0; j < i; j++ {
			v.Assume(p.date != ps[j].date)
		}
		ps = append(ps, p)
		bb.AddPrice(p.date, "U", "X", new(big.Rat).Set(p.val))
	}
	b := bb.Build()
	d := book.GetDate(2020, 2+v.Choice("qmonth", 2), v.Int("qday", 1, 28))
	r, t := b.GetPrice(d, "U", "X")
	v.Observe("rate", r)
	check(r, t, ps, d, false, "rate")
}

// Unsorted: quotes of different days given in any order.
func Unsorted() {
	n := v.Bound("quotes in any order", 4, 5)
	bb := book.NewBookBuilder()
	var ps []pr
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		j := v.Choice("day", n)
		v.Assume(!used[j])
		used[j] = true
		p := pr{days[[]int{1, 3, 4, 5, 6}[j]], v.Rat("price", 0, 1000000, 1)}
		ps = append(ps, p)
		bb.AddPrice(p.date, "U", "X", new(big.Rat).Set(p.val))
	}
	b := bb.Build()
	d := days[v.Choice("date", len(days))]
	r, t := b.GetPrice(d, "U", "X")
	v.Observe("rate", r)
	check(r, t, ps, d, false, "rate")
}

// Worthless: a quote may be zero; then there is no rate the other way.
func Worthless() {
	bb := book.NewBookBuilder()
	x := v.Rat("price", 0, 10, 1)
	bb.AddPrice(days[1], "U", "X", hkCp(x))
	b := bb.Build()
	d := days[v.Choice("date", 3)]
	r, _ := b.GetPrice(d, "U", "X")
	v.Assert(v.RatEq(r, x), "the rate is the quote")
	i, t := b.GetPrice(d, "X", "U")
	if x.Sign() == 0 {
		v.Assert(v.RatEq(i, big.NewRat(1, 1)) && t == book.PriceTypeNone, "there is no rate into something worthless")
		v.Reach("zero")
	} else {
		v.Assert(v.RatEq(new(big.Rat).Mul(i, x), big.NewRat(1, 1)), "the rate the other way is one over the quote")
		v.Reach("not zero")
	}
}

func hkCp(x *big.Rat) *big.Rat { return new(big.Rat).Set(x) }

// Many: a long list of prices; every place of the date among them.
func Many() {
	n := v.Bound("prices", 21, 64)
	first := book.GetDate(2020, 1, 5)
	val := v.Rat("price", 1, 1000, 1)
	special := []int{0, 1, n / 2, n - 2, n - 1}[v.Choice("which", 5)]
	var ps []pr
	for i := 0; i < n; i++ {
		p := pr{first.AddDays(i * i), big.NewRat(int64(i*7%5+1), 3)}
		if i == special {
			p.val = val
		}
		ps = append(ps, p)
	}
	bb := book.NewBookBuilder()
	for i := range ps {
		p := ps[i*10%n]
		bb.AddPrice(p.date, "U", "X", hk.Cp(p.val))
	}
	b := bb.Build()
	k := v.Choice("among", 2*n+1)
	d := first.AddDays(-1)
	if k > 0 {
		d = ps[(k-1)/2].date
		if k%2 == 0 {
			d = d.AddDays(k / 2)
		}
	}
	r, t := b.GetPrice(d, "U", "X")
	v.Observe("rate", r)
	check(r, t, ps, d, false, "rate")
	it := b.GetPriceList("U", "X").GetIterator()
	it.GetPrice(ps[k/5].date.AddDays(-1))
	if d >= ps[k/5].date.AddDays(-1) {
		s, st := it.GetPrice(d)
		v.Assert(v.And(v.RatEq(r, s), t == st), "walking gives the same rate as asking")
	}
}
