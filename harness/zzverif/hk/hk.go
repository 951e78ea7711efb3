// Package hk holds helpers shared by the harnesses.
package hk

import (
	"fmt"
	"math/big"
	"strconv"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/zzverif/v"
)

// P is one posting as written or as read back.
type P struct {
	Date  book.Date
	Payee string
	TNote string
	Acct  string
	CCY   string
	Note  string
	Amt   *big.Rat
	Bal   *big.Rat
}

// T is one transaction to be written.
type T struct {
	Date  book.Date
	Payee string
	Note  string
	Posts []P
}

func R(n, d int64) *big.Rat   { return big.NewRat(n, d) }
func Cp(r *big.Rat) *big.Rat  { return new(big.Rat).Set(r) }
func Zero(r *big.Rat) bool    { return v.RatEq(r, new(big.Rat)) }
func Neg(r *big.Rat) *big.Rat { return new(big.Rat).Neg(r) }

// Build writes the transactions with a builder; it reports whether that was
// refused with a panic.
func Build(ts []T) (b *book.Book, refused bool, msg string) {
	defer func() {
		if e := recover(); e != nil {
			b = nil
			refused = true
			msg = fmt.Sprint(e)
		}
	}()
	bb := book.NewBookBuilder()
	for _, t := range ts {
		bb.NewTransaction(t.Date, t.Payee, t.Note)
		for _, p := range t.Posts {
			bb.AddPosting(p.Acct, p.CCY, Cp(p.Amt), p.Note)
		}
	}
	return bb.Build(), false, ""
}

// Snap reads a book back as a flat list of postings; the amounts are copies.
func Snap(b *book.Book) []P {
	return SnapT(b.Transactions())
}

func SnapT(ts []book.Transaction) []P {
	var out []P
	for _, t := range ts {
		for _, p := range t {
			out = append(out, P{Date: p.GetDate(), Payee: p.GetPayee(), TNote: p.GetTransactionNote(), Acct: p.GetAccount(), CCY: p.GetCCY(), Note: p.GetPostNote(), Amt: Cp(p.GetAmount()), Bal: Cp(p.GetBalance())})
		}
	}
	return out
}

// Flat lists the postings of the transactions as written.
func Flat(ts []T) []P {
	var out []P
	for _, t := range ts {
		for _, p := range t.Posts {
			p.Date = t.Date
			p.Payee = t.Payee
			p.TNote = t.Note
			out = append(out, p)
		}
	}
	return out
}

// Observe records a snapshot.
func Observe(label string, ps []P) {
	for _, p := range ps {
		v.Observe(label, int(p.Date))
		v.Observe(label, p.Payee)
		v.Observe(label, p.Acct)
		v.Observe(label, p.CCY)
		v.Observe(label, p.Amt)
		v.Observe(label, p.Note)
	}
}

// Same says whether two lists hold the same postings in the same order.
func Same(a, b []P) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.Date != y.Date || x.Payee != y.Payee || x.TNote != y.TNote || x.Acct != y.Acct || x.CCY != y.CCY || x.Note != y.Note || !v.RatEq(x.Amt, y.Amt) {
			return false
		}
	}
	return true
}

// Bals asserts that every transaction of the book sums to zero per commodity.
func Balanced(b *book.Book, label string) {
	for _, t := range b.Transactions() {
		BalancedT(t, label)
	}
}

func BalancedT(t book.Transaction, label string) {
	for i := range t {
		first := true
		for j := 0; j < i; j++ {
			if t[j].GetCCY() == t[i].GetCCY() {
				first = false
			}
		}
		if !first {
			continue
		}
		s := new(big.Rat)
		for j := range t {
			if t[j].GetCCY() == t[i].GetCCY() {
				s.Add(s, t[j].GetAmount())
			}
		}
		v.Assert(Zero(s), label)
	}
}

func sameKey(a, b P) bool {
	return a.Date == b.Date && a.Payee == b.Payee && a.Acct == b.Acct && a.CCY == b.CCY
}

// SumKey adds up the postings sharing k's date, payee, account and commodity.
func SumKey(ps []P, k P) *big.Rat {
	s := new(big.Rat)
	for _, p := range ps {
		if sameKey(p, k) {
			s.Add(s, p.Amt)
		}
	}
	return s
}

// Less is the order postings are kept in.
func Less(a, b P) bool {
	if a.Date != b.Date {
		return a.Date < b.Date
	}
	if a.Payee != b.Payee {
		return a.Payee < b.Payee
	}
	if a.Acct != b.Acct {
		return a.Acct < b.Acct
	}
	return a.CCY < b.CCY
}

// CheckBook asserts that the book is exactly the canonical form of the
// postings in want: sorted, one posting per date, payee, account and
// commodity, none of amount zero, with the right sums, grouped into
// transactions by date and payee, and with running balances.
func CheckBook(b *book.Book, want []P, what string) {
	ts := b.Transactions()
	ps := SnapT(ts)
	Observe("book", ps)
	for i := range ps {
		v.Assert(v.Not(Zero(ps[i].Amt)), what+": no posting of amount zero is kept")
		if i > 0 {
			v.Assert(Less(ps[i-1], ps[i]), what+": postings are sorted and unique per date, payee, account and commodity")
		}
		v.Assert(v.RatEq(ps[i].Amt, SumKey(want, ps[i])), what+": every posting carries the sum of what it stands for")
		s := new(big.Rat)
		for j := 0; j <= i; j++ {
			if ps[j].Acct == ps[i].Acct && ps[j].CCY == ps[i].CCY {
				s.Add(s, ps[j].Amt)
			}
		}
		v.Assert(v.RatEq(s, ps[i].Bal), what+": the balance of a posting is the running total of its account and commodity")
		notes := false
		for _, w := range want {
			if w.Note == ps[i].Note && w.TNote == ps[i].TNote && w.Payee == ps[i].Payee && w.Acct == ps[i].Acct && w.CCY == ps[i].CCY {
				notes = v.Or(notes, w.Date == ps[i].Date)
			}
		}
		v.Assert(notes, what+": a posting has notes it was written with")
	}
	for _, w := range want {
		v.Assert(v.RatEq(SumKey(ps, w), SumKey(want, w)), what+": nothing that was written is lost")
	}
	for i, t := range ts {
		for j := range t {
			v.Assert(t[j].GetDate() == t[0].GetDate() && t[j].GetPayee() == t[0].GetPayee(), what+": a transaction has one date and payee")
			v.Assert(t[j].GetAccountTerm() == t[j].GetAccount() && t[j].GetAccountLevel() == 0, what+": a posting is shown under its account")
		}
		if i > 0 {
			v.Assert(t[0].GetDate() != ts[i-1][0].GetDate() || t[0].GetPayee() != ts[i-1][0].GetPayee(), what+": a date and payee have one transaction")
		}
	}
}

// Numbered is what the builder has to hold for the transactions: a repeated date
// and payee gets a numbered payee.
func Numbered(ts []T) []P {
	out := make([]T, len(ts))
	copy(out, ts)
	for i := range out {
		n := 1
		for {
			clash := false
			for j := 0; j < i; j++ {
				if out[j].Date == out[i].Date && out[j].Payee == out[i].Payee {
					clash = true
				}
			}
			if !clash {
				break
			}
			n++
			out[i].Payee = ts[i].Payee + " (" + strconv.Itoa(n) + ")"
		}
	}
	return Flat(out)
}
