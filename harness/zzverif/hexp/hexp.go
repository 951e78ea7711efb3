// Package hexp: exporting ledgers and reading them back.
package hexp

import (
	"bytes"
	"encoding/csv"
	"math/big"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/cmd/export"
	"github.com/mescanne/goledger/zzverif/hk"
	"github.com/mescanne/goledger/zzverif/v"
	"github.com/spf13/cobra"
)

const digits = "0123456789"

// Export runs the export command on a ledger file.
func Export(file, typ, lang string, ops ...string) (string, error) {
	var out bytes.Buffer
	a := app.DefaultApp
	a.Ledger, a.Lang, a.Output = file, lang, &out
	root := &cobra.Command{Use: "goledger"}
	export.Add(root, &a, &export.ExportReport{Type: typ})
	c := root.Commands()[0]
	err := c.RunE(c, ops)
	return out.String(), err
}

func load(file string) (*book.Book, error) {
	a := app.DefaultApp
	a.Ledger = file
	return a.LoadBook()
}

// sameBook compares two books posting by posting and price by price.
func sameBook(a, b *book.Book) {
	ta, tb := a.Transactions(), b.Transactions()
	v.Assert(len(ta) == len(tb), "an exported ledger holds the same transactions")
	if len(ta) != len(tb) {
		return
	}
	for i := range ta {
		x, y := ta[i], tb[i]
		v.Assert(x.GetDate() == y.GetDate(), "an exported ledger keeps the dates")
		v.Assert(x.GetPayee() == y.GetPayee(), "an exported ledger keeps the payees")
		v.Assert(x.GetTransactionNote() == y.GetTransactionNote(), "an exported ledger keeps the notes of transactions")
		v.Assert(len(x) == len(y), "an exported ledger holds the same postings")
		if len(x) != len(y) {
			return
		}
		for j := range x {
			p, q := x[j], y[j]
			v.Assert(p.GetAccount() == q.GetAccount(), "an exported ledger keeps the accounts")
			v.Assert(p.GetCCY() == q.GetCCY(), "an exported ledger keeps the currencies")
			v.Assert(p.GetPostNote() == q.GetPostNote(), "an exported ledger keeps the notes of postings")
			v.Assert(v.RatEq(p.GetAmount(), q.GetAmount()), "an exported ledger keeps the amounts exactly")
		}
	}
	pa, pb := a.GetPricePairs(), b.GetPricePairs()
	v.Assert(len(pa) == len(pb), "an exported ledger holds the same prices")
	for _, pair := range pa {
		la, lb := a.GetPriceList(pair.Unit, pair.CCY), b.GetPriceList(pair.Unit, pair.CCY)
		v.Assert(len(la) == len(lb), "an exported ledger holds the same prices")
		if len(la) != len(lb) {
			return
		}
		for i := range la {
			v.Assert(la[i].GetDate() == lb[i].GetDate(), "an exported ledger keeps the dates of prices")
			v.Assert(v.RatEq(la[i].GetPrice(), lb[i].GetPrice()), "an exported ledger keeps the prices exactly")
		}
	}
}

// roundTrip exports x.ledger and reads the result back.
func roundTrip() bool {
	a, err := load("x.ledger")
	if err != nil {
		return false
	}
	text, err := Export("x.ledger", "Ledger", "en")
	v.Assert(err == nil, "a ledger which is accepted can be exported")
	v.Observe("text", text)
	v.PutFile("y.ledger", text)
	b, err := load("y.ledger")
	v.Assert(err == nil, "an exported ledger is accepted")
	if err != nil {
		return true
	}
	sameBook(a, b)
	return true
}

// Names: whatever payees, notes and currencies a ledger has, they survive.
func Names() {
	v.MapOrder(0)
	const chars = "aB1 ;\"*-.@:'£"
	n := v.Bound("characters of a name", 2, 3)
	payee, tnote, pnote, ccy, unit := "Shop", "", "", "£", "USD"
	switch v.Choice("field", 5) {
	case 0:
		payee = v.Str("payee", 0, n, chars)
		if v.Choice("quoted", 2) == 1 {
			payee = `"` + payee + `"`
		}
	case 1:
		tnote = " ;" + v.Str("tnote", 0, n, chars)
	case 2:
		pnote = " ;" + v.Str("pnote", 0, n, chars)
	case 3:
		ccy = v.Str("ccy", 1, n, chars)
		if v.Choice("quoted", 2) == 1 {
			ccy = `"` + ccy + `"`
		}
	case 4:
		unit = v.Str("unit", 1, n, chars)
		if v.Choice("quoted", 2) == 1 {
			unit = `"` + unit + `"`
		}
	}
	v.PutFile("x.ledger", "2020/01/02 "+payee+tnote+"\n  A  "+ccy+"5.25"+pnote+"\n  B  "+ccy+"-5.25\n"+
		"P 2020/01/02 00:00:00 "+unit+" "+ccy+"2.5\n")
	if roundTrip() {
		v.Reach("accepted")
	} else {
		v.Reach("refused")
	}
}

// Numbers: amounts and prices survive exactly, however large or small.
func Numbers() {
	v.MapOrder(0)
	w := v.Str("whole", 1, 1, digits)
	f := v.Str("frac", 2, 2, digits)
	large := []string{"", "99999999999999999999"}[v.Choice("large", 2)]
	small := []string{"", "0000000", "1234567890123"}[v.Choice("small", 3)]
	num := large + w + "." + small + f
	sign := []string{"", "-"}[v.Choice("negative", 2)]
	text := "2020/01/02 Shop\n  A  £" + sign + num + "\n  B\n"
	switch v.Choice("price", 3) {
	case 0:
		text += "P 2020/01/02 00:00:00 USD £" + num + "\n"
	case 1:
		text += "P 2020/01/02 00:00:00 £ EUR " + num + "\nP 2020/01/02 00:00:00 £ EUR 3\nP 2019/01/02 00:00:00 £ EUR 1.2345\n"
	}
	v.PutFile("x.ledger", text)
	v.Assert(roundTrip(), "numbers are accepted")
	v.Reach("end")
}

// Stable: a ledger is exported the same way every time.
func Stable() {
	v.MapOrder(0)
	v.PutFile("x.ledger", "2020/01/02 Shop\n  A  £"+v.Str("amt", 1, 1, digits)+"\n  B  USD 2\n  C\nP 2020/01/02 00:00:00 USD £2\nP 2020/01/02 00:00:00 USD EUR 2\nP 2020/01/02 00:00:00 EUR £2\n")
	text, err := Export("x.ledger", "Ledger", "en")
	v.MapOrder(1)
	again, err2 := Export("x.ledger", "Ledger", "en")
	v.Assert(err == nil && err2 == nil && again == text, "a ledger is exported the same way every time")
	v.Reach("end")
}

// Languages: the file does not depend on the language of the user.
func Languages() {
	v.MapOrder(0)
	w := v.Str("whole", 1, 1, digits)
	f := v.Str("frac", 2, 2, digits)
	v.PutFile("x.ledger", "2020/01/02 Shop\n  A  £1"+w+"34."+f+"\n  B\nP 2020/01/02 00:00:00 USD £1"+w+"34."+f+"\n")
	en, err := Export("x.ledger", "Ledger", "en")
	v.Assert(err == nil, "a ledger can be exported")
	lang := []string{"de", "fr", "nl", "xx", "C"}[v.Choice("lang", 5)]
	other, err := Export("x.ledger", "Ledger", lang)
	v.Assert(err == nil && en == other, "an exported ledger is the same in every language")
	v.Reach("end")
}

// Books: transactions keep apart, in order and complete, whatever their dates
// and payees, the operations applied and amounts left out.
func Books() {
	v.MapOrder(0)
	n := v.Bound("transactions", 3, 3)
	payees := []string{"X", "X (1)", `"a;b"`, ""}
	dates := []string{"2020/01/31", "2020/02/01"}
	var text strings.Builder
	amt := v.Str("amt", 1, 1, digits)
	for i := 0; i < n; i++ {
		text.WriteString(dates[v.Choice("date", 2)] + " " + payees[v.Choice("payee", 4)] + "\n  A  £" + amt + ".5" + "\n  B  USD 3.125 ; n\n  C\n")
	}
	v.PutFile("x.ledger", text.String())
	v.Assert(roundTrip(), "transactions are accepted")
	v.Reach("end")
}

// Ops: operations are applied to what is exported, and what is exported
// afterwards balances and holds what the operations give.
func Ops() {
	v.MapOrder(0)
	d := v.Str("amt", 2, 2, digits)
	v.PutFile("x.ledger", "2020/01/02 Shop\n  A:x  £"+d[:1]+"."+d[1:]+"\n  B\n")
	op := []string{"map=/^A:.*$/Z/", "move=/^A:(.*)$/M:$1/0.3/", "asof=2020-01-01", "combine=yearly", "mapccy=/£/GBP/", "move=/^B$/C/1.000001/"}[v.Choice("op", 6)]
	a := app.DefaultApp
	a.Ledger = "x.ledger"
	want, err := a.LoadBook()
	v.Assert(err == nil, "the ledger is accepted")
	v.Assert(a.BookOps(want, op) == nil, "the operation is accepted")
	text, err := Export("x.ledger", "Ledger", "en", op)
	v.Assert(err == nil, "a ledger can be exported with operations")
	v.PutFile("y.ledger", text)
	got, err := load("y.ledger")
	v.Assert(err == nil, "an exported ledger is accepted")
	if err == nil {
		sameBook(want, got)
	}
	// The table has the book that the operations give as well.
	text, err = Export("x.ledger", "CSV", "en", op)
	v.Assert(err == nil, "a ledger can be exported with operations")
	rowsOf(want, text)
	v.Reach("end")
}

// rowsOf compares a table with the book it was written from.
func rowsOf(bk *book.Book, text string) {
	rows, err := csv.NewReader(strings.NewReader(text)).ReadAll()
	v.Assert(err == nil, "the table can be read")
	if err != nil || len(rows) == 0 {
		return
	}
	i := 0
	for _, t := range bk.Transactions() {
		for _, p := range t {
			i++
			if i >= len(rows) {
				break
			}
			r := rows[i]
			v.Assert(len(r) == 7 && r[0] == p.GetDate().String() && r[1] == p.GetPayee() && r[2] == p.GetTransactionNote() && r[3] == p.GetAccount() && r[4] == p.GetCCY() && r[6] == p.GetPostNote(), "a row of the table has the texts of its posting")
			var x big.Rat
			_, ok := x.SetString(r[5])
			v.Assert(ok && v.RatEq(&x, p.GetAmount()), "a row of the table has the exact amount of its posting")
		}
	}
	v.Assert(i == len(rows)-1, "the table has a row for every posting")
}

// CSV: the table has one row per posting, with its texts and exact amount.
func CSV() {
	v.MapOrder(0)
	payee := v.Str("payee", 1, v.Bound("characters of a payee", 1, 2), "a, ;'é")
	ccy := []string{"£", `"a,b"`}[v.Choice("ccy", 2)]
	w := v.Str("whole", 1, 1, digits)
	f := v.Str("frac", 2, 2, digits)
	num := []string{"", "98765432109876543"}[v.Choice("large", 2)] + w + "." + []string{"", "0000000"}[v.Choice("small", 2)] + f
	note := []string{"", ` ; x "y", z`}[v.Choice("note", 2)]
	v.PutFile("x.ledger", "2020/01/02 "+payee+"\n  A  "+ccy+num+note+"\n  B\n2020/01/03 \"Q\"\n  C:d  £1\n  D  £-1\n")
	bk, err := load("x.ledger")
	v.Assert(err == nil, "the ledger is accepted")
	if err != nil {
		return
	}
	text, err := Export("x.ledger", "CSV", "de")
	v.Assert(err == nil, "a ledger can be exported")
	v.Observe("text", text)
	rowsOf(bk, text)
	v.Reach("end")
}

// Many: a long ledger survives.
func Many() {
	v.MapOrder(0)
	d := v.Str("amt", 1, 1, digits)
	n := v.Bound("transactions", 60, 150)
	v.PutFile("x.ledger", hk.LargeText(n, []string{"X", "£"}, v.Choice("at", 3)*7, d))
	v.Assert(roundTrip(), "a long ledger is accepted")
	v.Reach("end")
}
