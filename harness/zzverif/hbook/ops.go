package hbook

import (
	"math/big"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/zzverif/hk"
	"github.com/mescanne/goledger/zzverif/v"
)

// opSpec is an operation as a user writes it and what it means.
type opSpec struct {
	op   string
	mean func(ps []hk.P) []hk.P
}

func mapAcct(f func(string) string) func([]hk.P) []hk.P {
	return func(ps []hk.P) []hk.P {
		out := make([]hk.P, len(ps))
		copy(out, ps)
		for i := range out {
			out[i].Acct = f(out[i].Acct)
		}
		return out
	}
}

func table(def string, kv ...string) func(string) string {
	return func(a string) string {
		for i := 0; i < len(kv); i += 2 {
			if kv[i] == a {
				return kv[i+1]
			}
		}
		if def != "" {
			return def
		}
		return a
	}
}

func keep(f func(p hk.P) bool) func([]hk.P) []hk.P {
	return func(ps []hk.P) []hk.P {
		var out []hk.P
		for _, p := range ps {
			if f(p) {
				out = append(out, p)
			}
		}
		return out
	}
}

func floor(f func(d book.Date) book.Date) func([]hk.P) []hk.P {
	return func(ps []hk.P) []hk.P {
		out := make([]hk.P, len(ps))
		copy(out, ps)
		for i := range out {
			out[i].Date = f(out[i].Date)
			out[i].Payee = ""
		}
		return out
	}
}

func move(num, den int64, to func(string) string) func([]hk.P) []hk.P {
	return func(ps []hk.P) []hk.P {
		out := append([]hk.P{}, ps...)
		for _, p := range ps {
			n := to(p.Acct)
			if n == p.Acct {
				continue
			}
			part := new(big.Rat).Mul(p.Amt, big.NewRat(num, den))
			a, b := p, p
			a.Amt = hk.Neg(part)
			b.Amt = part
			b.Acct = n
			out = append(out, a, b)
		}
		return out
	}
}

func monthAfter(d book.Date) book.Date {
	y, m := int(d)/10000, int(d)/100%100
	return book.Date(v.IteInt(m == 12, (y+1)*10000+101, y*10000+(m+1)*100+1))
}

func depr(n int64, to func(string) string) func([]hk.P) []hk.P {
	return func(ps []hk.P) []hk.P {
		out := append([]hk.P{}, ps...)
		for _, p := range ps {
			h := to(p.Acct)
			if h == p.Acct {
				continue
			}
			a, b := p, p
			a.Amt = hk.Neg(p.Amt)
			b.Acct = h
			out = append(out, a, b)
			d := p.Date
			for j := int64(0); j < n; j++ {
				part := new(big.Rat).Mul(p.Amt, big.NewRat(1, n))
				x, y := p, p
				x.Date, y.Date = d, d
				x.Acct = h
				x.Amt = hk.Neg(part)
				y.Amt = part
				out = append(out, x, y)
				d = monthAfter(d)
			}
		}
		return out
	}
}

func ccyMap(f func(string) string) func([]hk.P) []hk.P {
	return func(ps []hk.P) []hk.P {
		out := make([]hk.P, len(ps))
		copy(out, ps)
		for i := range out {
			out[i].CCY = f(out[i].CCY)
		}
		return out
	}
}

const (
	bank = "Asset:Bank"
	food = "Expense:Food"
	fun  = "Expense:Fun"
)

var accts3 = []string{bank, food, fun}

func renames() []opSpec {
	return []opSpec{
		{"map=/^Expense:.*$/Expense/", mapAcct(table("", food, "Expense", fun, "Expense"))},
		{"map=/^Expense:(.*)$/Out:$1/", mapAcct(table("", food, "Out:Food", fun, "Out:Fun"))},
		{"map=/^Asset:Bank$/Asset:Bank/Other/", mapAcct(table("Other", bank, bank))},
		{"map=/Fu/Foo/", mapAcct(table("", fun, "Expense:Foon"))},
		{"map=/Expense:F[ou]./Asset:Bank/Asset:Bank/", mapAcct(table(bank, food, "Asset:Bankd", fun, bank))},
	}
}

func moves() []opSpec {
	return []opSpec{
		{"move=/^Expense:Food$/Expense:Fun/0.5/", move(1, 2, table("", food, fun))},
		{"move=/^Expense:(F.*)$/Irr:$1/1/", move(1, 1, table("", food, "Irr:Food", fun, "Irr:Fun"))},
		{"move=/^Expense:Food$/Expense:Fun/0.12345678901/", move(12345678901, 100000000000, table("", food, fun))},
		{"move=/^Expense:F.*$/Asset:Bank/0.25/", move(1, 4, table("", food, bank, fun, bank))},
	}
}

func deprs() []opSpec {
	return []opSpec{
		{"depreciate=/^Expense:Food$/Asset:Dep/1/", depr(1, table("", food, "Asset:Dep"))},
		{"depreciate=/^Expense:Food$/Asset:Dep/3/", depr(3, table("", food, "Asset:Dep"))},
		{"depreciate=/^Expense:Food$/Asset:Bank/2/", depr(2, table("", food, bank))},
		{"depreciate=/^Expense:(F.*)$/Dep:$1/2/", depr(2, table("", food, "Dep:Food", fun, "Dep:Fun"))},
	}
}

func applyOps(b *book.Book, ps []hk.P, ops ...opSpec) []hk.P {
	a := &app.App{}
	for _, o := range ops {
		err := a.BookOps(b, o.op)
		v.Assert(err == nil, "operation "+o.op+" is accepted")
		ps = o.mean(ps)
	}
	return ps
}

func smallBook() (*book.Book, []hk.P) {
	ts := someTxns(2, 2, accts3, "p", 1, 28)
	b, refused, _ := hk.Build(ts)
	v.Assert(!refused, "a balanced book is accepted")
	return b, hk.Numbered(ts)
}

// Rename: map= on accounts.
func Rename() {
	b, ps := smallBook()
	rs := renames()
	r := rs[v.Choice("op", len(rs))]
	ps = applyOps(b, ps, r)
	hk.CheckBook(b, ps, "after map")
	hk.Balanced(b, "a transaction stays balanced under map")
	v.Reach("end")
}

// Move: move=.
func Move() {
	b, ps := smallBook()
	rs := moves()
	ps = applyOps(b, ps, rs[v.Choice("op", len(rs))])
	hk.CheckBook(b, ps, "after move")
	hk.Balanced(b, "a transaction stays balanced under move")
	v.Reach("end")
}

// Depreciate: depreciate= on one transaction at any date of three years.
func Depreciate() {
	y := v.Int("y", 2019, 2021)
	m := v.Choice("m", 12) + 1
	d := v.Int("d", 1, 28)
	a := v.Rat("amt", -1000, 1000, 1)
	c := v.Rat("amt", -1000, 1000, 1)
	t := hk.T{Date: book.GetDate(y, m, d), Payee: "p", Posts: []hk.P{
		{Acct: food, CCY: "X", Amt: a},
		{Acct: fun, CCY: "X", Amt: c},
		{Acct: bank, CCY: "X", Amt: hk.Neg(new(big.Rat).Add(a, c))},
	}}
	b, refused, _ := hk.Build([]hk.T{t})
	v.Assert(!refused, "a balanced book is accepted")
	rs := deprs()
	ps := applyOps(b, hk.Flat([]hk.T{t}), rs[v.Choice("op", len(rs))])
	hk.CheckBook(b, ps, "after depreciate")
	hk.Balanced(b, "a transaction stays balanced under depreciate")
	v.Reach("end")
}

// SinceAsof: since= keeps from the date on, asof= keeps what is before it.
func SinceAsof() {
	ts := someTxns(3, 2, []string{bank}, "p", 1, 28)
	for i := range ts {
		ts[i].Posts[1].Acct = food
	}
	b, refused, _ := hk.Build(ts)
	v.Assert(!refused, "a balanced book is accepted")
	ps := hk.Numbered(ts)
	cut := book.GetDate(2020, 1, 15)
	switch v.Choice("op", 5) {
	case 4:
		// dates named by today's
		k := v.Choice("today's month", 4)
		v.At([]int{2019, 2020, 2020, 2020}[k], []int{12, 1, 2, 3}[k], v.Int("today's day", 1, 29), func() {
			from, to := v.Choice("from", 3)-1, v.Choice("to", 3)-1
			names := []string{"last month", "this month", "next month"}
			ps = applyOps(b, ps, opSpec{"since=" + names[from+1], keep(func(p hk.P) bool { return k+from <= 1 })},
				opSpec{"asof=" + names[to+1], keep(func(p hk.P) bool { return k+to > 1 })})
		})
	case 0:
		ps = applyOps(b, ps, opSpec{"since=2020-01-15", keep(func(p hk.P) bool { return p.Date >= cut })})
	case 1:
		ps = applyOps(b, ps, opSpec{"asof=2020-01-15", keep(func(p hk.P) bool { return p.Date < cut })})
	case 2:
		ps = applyOps(b, ps, opSpec{"since=2020/1/15", keep(func(p hk.P) bool { return p.Date >= cut })},
			opSpec{"asof=15.01.2020", keep(func(p hk.P) bool { return p.Date < cut })})
	case 3:
		ps = applyOps(b, ps, opSpec{"asof=2020-01-20", keep(func(p hk.P) bool { return p.Date < book.GetDate(2020, 1, 20) })},
			opSpec{"since=2020-01-10", keep(func(p hk.P) bool { return p.Date >= book.GetDate(2020, 1, 10) })})
	}
	hk.CheckBook(b, ps, "after since/asof")
	hk.Balanced(b, "a transaction stays balanced under since and asof")
	v.Reach("end")
}

// Combine: combine= floors the dates, merging transactions.
func Combine() {
	n := 2
	ts := make([]hk.T, n)
	for i := range ts {
		a := v.Rat("amt", -1000, 1000, 1)
		ts[i] = hk.T{Date: book.GetDate(2019+v.Int("y", 0, 1), 1+v.Choice("m", 12), v.Int("d", 1, 28)), Payee: "p", Posts: []hk.P{
			{Acct: bank, CCY: "X", Amt: a}, {Acct: food, CCY: "X", Amt: hk.Neg(a)}}}
	}
	b, refused, _ := hk.Build(ts)
	v.Assert(!refused, "a balanced book is accepted")
	ps := hk.Numbered(ts)
	f := []opSpec{
		{"combine=yearly", floor(func(d book.Date) book.Date { return d/10000*10000 + 101 })},
		{"combine=Quarterly", floor(func(d book.Date) book.Date {
			y, m := d/10000, d/100%100
			q := book.Date(v.IteInt(m <= 3, 1, v.IteInt(m <= 6, 4, v.IteInt(m <= 9, 7, 10))))
			return y*10000 + q*100 + 1
		})},
		{"combine=monthly", floor(func(d book.Date) book.Date { return d/100*100 + 1 })},
		{"combine=none", floor(func(d book.Date) book.Date { return d })},
		{"combine=Today", floor(func(d book.Date) book.Date { return 20200315 })},
	}
	v.At(2020, 3, 15, func() { ps = applyOps(b, ps, f[v.Choice("op", len(f))]) })
	hk.CheckBook(b, ps, "after combine")
	hk.Balanced(b, "a transaction stays balanced under combine")
	v.Reach("end")
}

// MapCCY: mapccy= renames commodities of postings.
func MapCCY() {
	t := hk.T{Date: book.GetDate(2020, 1, 1), Payee: "p"}
	rest := map[string]*big.Rat{"X": new(big.Rat), "Y": new(big.Rat)}
	for i := 0; i < 2; i++ {
		p := hk.P{Acct: accts3[v.Choice("acct", 2)], CCY: ccys[v.Choice("ccy", 2)], Amt: v.Rat("amt", -1000, 1000, 1)}
		rest[p.CCY].Add(rest[p.CCY], p.Amt)
		t.Posts = append(t.Posts, p)
	}
	for _, c := range ccys {
		t.Posts = append(t.Posts, hk.P{Acct: fun, CCY: c, Amt: hk.Neg(rest[c])})
	}
	b, refused, _ := hk.Build([]hk.T{t})
	v.Assert(!refused, "a balanced book is accepted")
	f := []opSpec{
		{"mapccy=/^X$/Y/", ccyMap(table("", "X", "Y"))},
		{"mapccy=/^X$/Z/", ccyMap(table("", "X", "Z"))},
		{"mapccy=/^([XY])$/A$1/", ccyMap(table("", "X", "AX", "Y", "AY"))},
		{"mapccy=/Q/Z/", ccyMap(table(""))},
	}
	ps := applyOps(b, hk.Flat([]hk.T{t}), f[v.Choice("op", len(f))])
	hk.CheckBook(b, ps, "after mapccy")
	hk.Balanced(b, "a transaction stays balanced under mapccy")
	v.Reach("end")
}

// Sequence: two operations one after the other act as each alone would.
func Sequence() {
	ts := someTxns(2, 2, accts3, "p", 1, 28)
	b, refused, _ := hk.Build(ts)
	v.Assert(!refused, "a balanced book is accepted")
	ps := hk.Numbered(ts)
	pool := []opSpec{
		renames()[0], renames()[4], moves()[0], moves()[3],
		{"combine=monthly", floor(func(d book.Date) book.Date { return d/100*100 + 1 })},
	}
	x := pool[v.Choice("op", len(pool))]
	y := pool[v.Choice("op", len(pool))]
	ps = applyOps(b, ps, x, y)
	hk.CheckBook(b, ps, "after two operations")
	hk.Balanced(b, "transactions stay balanced under two operations")
	v.Reach("end")
}

// MapPrices: prices keep their dates and values under every operation; only
// renaming commodities renames them there too.
func MapPrices() {
	type price struct {
		d       book.Date
		unit, c string
		r       *big.Rat
	}
	bb := book.NewBookBuilder()
	a := v.Rat("amt", 1, 1000, 100)
	bb.NewTransaction(book.GetDate(2020, 1, 5), "p", "")
	bb.AddPosting(bank, "X", hk.Cp(a), "")
	bb.AddPosting(food, "X", hk.Neg(a), "")
	bb.NewTransaction(book.GetDate(2020, 2, 5), "p", "")
	bb.AddPosting(bank, "Y", hk.R(7, 1), "")
	bb.AddPosting(food, "Y", hk.R(-7, 1), "")
	var ps []price
	pairs := [][2]string{{"X", "P"}, {"Y", "P"}, {"P", "X"}, {"X", "Y"}}
	n := v.Bound("prices", 2, 3)
	for i := 0; i < n; i++ {
		pr := pairs[v.Choice("pair", len(pairs))]
		p := price{book.GetDate(2020, 1, v.Int("day", 1, 28)), pr[0], pr[1], v.Rat("rate", 1, 1000, 10)}
		ps = append(ps, p)
		bb.AddPrice(p.d, p.unit, p.c, hk.Cp(p.r))
	}
	b := bb.Build()
	id := func(s string) string { return s }
	type op struct {
		op string
		f  func(string) string
	}
	ops := []op{
		{"mapccy=/^X$/Z/", table("", "X", "Z")},
		{"mapccy=/^X$/Y/", table("", "X", "Y")},
		{"mapccy=/^([XP])$/A$1/", table("", "X", "AX", "P", "AP")},
		{"mapccy=/Q/Z/", id},
		{"map=/^Expense:.*$/Expense/", id},
		{"move=/^Expense:Food$/Expense:Fun/0.5/", id},
		{"depreciate=/^Expense:Food$/Asset:Dep/3/", id},
		{"combine=yearly", id},
		{"since=2020/01/15", id},
		{"asof=2020/01/15", id},
	}
	o := ops[v.Choice("op", len(ops))]
	err := (&app.App{}).BookOps(b, o.op)
	v.Assert(err == nil, "operation "+o.op+" is accepted")
	for i := range ps {
		ps[i].unit, ps[i].c = o.f(ps[i].unit), o.f(ps[i].c)
	}
	names := map[string]bool{"X": true, "Y": true, "P": true}
	for _, c := range []string{"X", "Y", "P", "Q"} {
		names[o.f(c)] = true
	}
	var all []string
	for _, c := range []string{"X", "Y", "P", "Z", "AX", "AP"} {
		if names[c] {
			all = append(all, c)
		}
	}
	for _, u := range all {
		for _, c := range all {
			if u == c {
				continue // of no use
			}
			var want []price
			for _, p := range ps {
				if p.unit == u && p.c == c {
					want = append(want, p)
				}
			}
			got := b.GetPriceList(u, c)
			v.Assert(len(got) == len(want), "a price is kept, under the new names of what it is of")
			for i := range got {
				v.Assert(i == 0 || got[i-1].GetDate() <= got[i].GetDate(), "prices are in the order of their dates")
				same := false
				for _, w := range want {
					same = v.Or(same, v.And(w.d == got[i].GetDate(), v.RatEq(w.r, got[i].GetPrice())))
				}
				v.Assert(same, "a price keeps its date and value")
			}
			for _, w := range want {
				same := false
				for i := range got {
					same = v.Or(same, v.And(w.d == got[i].GetDate(), v.RatEq(w.r, got[i].GetPrice())))
				}
				v.Assert(same, "no price is lost")
			}
		}
	}
	for _, p := range b.GetPricePairs() {
		v.Assert(names[p.Unit] && names[p.CCY], "there are no prices but those written")
	}
	v.Reach("end")
}
