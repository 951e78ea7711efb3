// Package hbean: ledgers written for Beancount.
package hbean

import (
	"math/big"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/export"
	"github.com/mescanne/goledger/cmd/reports"
	"github.com/mescanne/goledger/zzverif/hcmd"
	"github.com/mescanne/goledger/zzverif/hk"
	"github.com/mescanne/goledger/zzverif/v"
	"github.com/spf13/cobra"
)

const digits = "0123456789"

// entry is a line of a Beancount file with the lines indented below it.
type entry struct {
	line string
	kids []string
}

// entries reads a file; comments and blank lines are skipped.
func entries(text string) []entry {
	var out []entry
	for _, l := range strings.Split(text, "\n") {
		if strings.TrimSpace(l) == "" || l[0] == ';' {
			continue
		}
		if l[0] == ' ' {
			if len(out) > 0 {
				out[len(out)-1].kids = append(out[len(out)-1].kids, l)
			}
			continue
		}
		out = append(out, entry{line: l})
	}
	return out
}

// quoted reads a string literal at the start of s.
func quoted(s string) (val, rest string, ok bool) {
	if s == "" || s[0] != '"' {
		return "", s, false
	}
	s = s[1:]
	for s != "" {
		switch s[0] {
		case '"':
			return val, s[1:], true
		case '\\':
			if len(s) < 2 {
				return "", s, false
			}
			val += s[1:2]
			s = s[2:]
		default:
			val += s[:1]
			s = s[1:]
		}
	}
	return "", s, false
}

// name is an account as Beancount has it: every part with a capital.
func name(acct string) string {
	parts := strings.Split(acct, ":")
	for i, p := range parts {
		if p != "" {
			parts[i] = strings.ToUpper(p[:1]) + p[1:]
		}
	}
	return strings.Join(parts, ":")
}

func money(num, ccy string, amt *big.Rat, want string) bool {
	x, ok := new(big.Rat).SetString(num)
	return ok && v.RatEq(x, amt) && ccy == strings.ToUpper(strings.ReplaceAll(want, " ", ""))
}

// note splits a trailing comment off.
func note(s string) (string, string) {
	if i := strings.Index(s, ";"); i >= 0 {
		return strings.TrimSpace(s[:i]), strings.TrimSpace(s[i+1:])
	}
	return strings.TrimSpace(s), ""
}

// check compares a Beancount file with the transactions it is made of.
func check(bk *book.Book, text string, prices bool, base string) {
	trans := bk.Transactions()
	type use struct {
		first, last book.Date
		bal         map[string]*big.Rat
		open, close int
	}
	uses := map[string]*use{}
	for _, t := range trans {
		for _, p := range t {
			n := name(p.GetAccount())
			u := uses[n]
			if u == nil {
				u = &use{first: t.GetDate(), last: t.GetDate(), bal: map[string]*big.Rat{}}
				uses[n] = u
			}
			if t.GetDate() < u.first {
				u.first = t.GetDate()
			}
			if t.GetDate() > u.last {
				u.last = t.GetDate()
			}
			if u.bal[p.GetCCY()] == nil {
				u.bal[p.GetCCY()] = new(big.Rat)
			}
			u.bal[p.GetCCY()].Add(u.bal[p.GetCCY()], p.GetAmount())
		}
	}
	i, np, opts := 0, 0, 0
	for _, e := range entries(text) {
		f := strings.Fields(e.line)
		switch {
		case f[0] == "option":
			opts++
			v.Assert(e.line == "option \"operating_currency\" \""+base+"\"", "the operating currency is the base currency")
		case len(f) == 3 && (f[1] == "open" || f[1] == "close"):
			u := uses[f[2]]
			v.Assert(u != nil, "accounts which are opened are used")
			if u == nil {
				return
			}
			if f[1] == "open" {
				u.open++
				v.Assert(f[0] == u.first.String(), "an account is opened when it is first used")
			} else {
				u.close++
				zero := true
				for _, b := range u.bal {
					zero = zero && b.Sign() == 0
				}
				v.Assert(zero, "an account is closed only if nothing is left")
				v.Assert(f[0] == u.last.AddDays(1).String(), "an account is closed after it is last used")
			}
		case len(f) > 1 && f[1] == "price":
			np++
			v.Assert(len(f) == 5 && prices, "a price has a unit, a number and a currency")
			if len(f) != 5 {
				return
			}
			ok := false
			for _, pair := range bk.GetPricePairs() {
				for _, p := range bk.GetPriceList(pair.Unit, pair.CCY) {
					if p.GetDate().String() == f[0] && f[2] == pair.Unit && money(f[3], f[4], p.GetPrice(), pair.CCY) {
						ok = true
					}
				}
			}
			v.Assert(ok, "prices are those of the ledger")
		default:
			v.Assert(i < len(trans), "no transaction is added")
			if i >= len(trans) {
				return
			}
			t := trans[i]
			i++
			head := t.GetDate().String() + " * "
			v.Assert(strings.HasPrefix(e.line, head), "a transaction has its date")
			if !strings.HasPrefix(e.line, head) {
				return
			}
			payee, rest, ok := quoted(e.line[len(head):])
			v.Assert(ok && payee == t.GetPayee(), "a transaction has its payee")
			left, tn := note(rest)
			v.Assert(left == "" && tn == strings.TrimSpace(t.GetTransactionNote()), "a transaction has its note")
			v.Assert(len(e.kids) == len(t), "a transaction has its postings")
			if len(e.kids) != len(t) {
				return
			}
			for j, p := range t {
				l, pn := note(e.kids[j])
				g := strings.Fields(l)
				v.Assert(len(g) == 3 && g[0] == name(p.GetAccount()) && pn == strings.TrimSpace(p.GetPostNote()), "a posting has its account and note")
				v.Assert(len(g) == 3 && money(g[1], g[2], p.GetAmount(), p.GetCCY()), "a posting has its exact amount and currency")
			}
		}
	}
	v.Assert(i == len(trans), "every transaction is written")
	for _, u := range uses {
		zero := true
		for _, b := range u.bal {
			zero = zero && b.Sign() == 0
		}
		v.Assert(u.open == 1, "every account used is opened once")
		v.Assert((u.close == 1) == zero && u.close <= 1, "every account with nothing left is closed")
	}
	if prices {
		n := 0
		for _, pair := range bk.GetPricePairs() {
			n += len(bk.GetPriceList(pair.Unit, pair.CCY))
		}
		v.Assert(np == n, "every price is written")
		v.Assert((opts == 1) == (base != ""), "the operating currency is given if there is one")
	}
}

// both writes x.ledger with either command and compares.
func both(ops ...string) bool {
	a, out := hcmd.App()
	bk, err := a.LoadBook()
	if err != nil {
		return false
	}
	v.Assert(a.BookOps(bk, ops...) == nil, "the operations are accepted")
	if v.Choice("command", 2) == 0 {
		err = hcmd.Run(func(c *cobra.Command) { export.Add(c, a, &export.ExportReport{Type: "Ledger"}) }, append([]string{"--type=Beancount"}, ops...)...)
		v.Assert(err == nil, "a ledger can be written")
		v.Observe("text", out.String())
		check(bk, out.String(), true, a.BaseCCY)
	} else {
		err = hcmd.Run(func(c *cobra.Command) {
			reports.Add(c, a, &reports.TransactionReport{Type: "Text", Combineby: "skip"})
		}, append([]string{"--type=Beancount"}, ops...)...)
		v.Assert(err == nil, "a ledger can be written")
		v.Observe("text", out.String())
		check(bk, out.String(), false, "")
	}
	return true
}

// Books: accounts are opened and closed as they are used.
func Books() {
	v.MapOrder(0)
	dates := []string{"2019/12/31", "2020/02/28", "2020/02/29"}
	accts := []string{"assets:bank", "Assets:bank", "B"}
	text := ""
	for i := 0; i < v.Bound("transactions", 2, 3); i++ {
		amt := "-" + v.Str("amt", 1, 1, "0123") + ".5"
		if i == 0 {
			amt = amt[1:]
		}
		text += dates[v.Choice("date", 3)] + " p\n  " + accts[v.Choice("acct", 3)] + "  £" + amt + "\n  C:d\n"
	}
	ops := [][]string{nil, {"since=2020-01-15"}}[v.Choice("ops", 2)]
	v.PutFile("x.ledger", text+"P 2020/01/01 00:00:00 USD £"+v.Str("price", 1, 1, "123")+".125\nP 2020/01/01 00:00:00 £ EUR 1.1\n")
	v.Assert(both(ops...), "the ledger is accepted")
	v.Reach("end")
}

// Uses: an account is used with amounts of nothing and in two currencies.
func Uses() {
	v.MapOrder(0)
	dates := []string{"2019/12/31", "2020/02/28", "2020/02/29"}
	text := ""
	for i := 0; i < 3; i++ {
		text += dates[v.Choice("date", 3)] + " p" + []string{"c", "a", "b"}[i] + "\n  A  " + []string{"£1", "£-1", "£0", "usd-1", "usd1"}[v.Choice("amt", 5)] + "\n  B\n"
	}
	v.PutFile("x.ledger", text)
	v.Assert(both(), "the ledger is accepted")
	v.Reach("end")
}

// Texts: payees and notes survive.
func Texts() {
	v.MapOrder(0)
	const chars = "aé\"\\ *1"
	n := v.Bound("characters of a text", 3, 4)
	payee, tnote, pnote, ccy := "Shop", " ; Note tN", " ; Note pN", "USD"
	switch v.Choice("field", 4) {
	case 0:
		payee = v.Str("payee", 0, n, chars)
		if v.Choice("quoted", 2) == 1 {
			payee = `"` + payee + `"`
		}
	case 1:
		tnote = " ; " + v.Str("tnote", 0, n, chars)
	case 2:
		pnote = " ; " + v.Str("pnote", 0, n, chars)
	case 3:
		ccy = []string{"usd", `"US D"`, "$"}[v.Choice("ccy", 3)]
	}
	v.PutFile("x.ledger", "2020/01/02 "+payee+tnote+"\n  A:x  "+ccy+"1.5"+pnote+"\n  B:y  "+ccy+"-1.5\n")
	if both() {
		v.Reach("accepted")
	} else {
		v.Reach("refused")
	}
}

// Amounts: amounts and prices are exact in every language.
func Amounts() {
	v.MapOrder(0)
	num := v.Str("whole", 1, 1, digits) + "."
	switch v.Choice("size", 3) {
	case 0:
		num = "1234" + num + v.Str("frac", 1, 2, digits)
	case 1:
		num = "98765432109876543" + num + v.Str("frac", 1, 1, digits)
	case 2:
		num += "0000000" + v.Str("frac", 1, 1, digits)
	}
	text := ""
	switch v.Choice("where", 3) {
	case 0:
		text = "2020/01/02 Shop\n  A:x  £" + num + "\n  B:y  £1\n  C\n"
	case 1:
		text = "2020/01/02 Shop\n  A:x  £-" + num + "\n  B:y  £1\n  C\n"
	case 2:
		text = "2020/01/02 Shop\n  A:x  £1\n  B:y  £-1\nP 2020/01/02 00:00:00 USD £" + num + "\n"
	}
	v.PutFile("x.ledger", text)
	v.Assert(both(), "the ledger is accepted")
	v.Reach("end")
}

// Many: a long ledger of many accounts.
func Many() {
	v.MapOrder(0)
	v.PutFile("x.ledger", hk.LargeText(v.Bound("transactions", 40, 100), []string{"X", "£"}, v.Choice("at", 3)*7, v.Str("amt", 1, 1, digits)))
	v.Assert(both(), "the ledger is accepted")
	v.Reach("end")
}
