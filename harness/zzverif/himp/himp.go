// Package himp: imports and generated transactions.
package himp

import (
	"bytes"
	"math/big"
	"strconv"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/cmd/generate"
	"github.com/mescanne/goledger/cmd/importer"
	"github.com/mescanne/goledger/script"
	"github.com/mescanne/goledger/zzverif/hk"
	"github.com/mescanne/goledger/zzverif/v"
	"github.com/spf13/cobra"
	"go.starlark.net/starlark"
)

const digits = "0123456789"

// run runs a command with flags and arguments given as on the command line.
func run(name string, add func(*cobra.Command, *app.App), args ...string) (string, error) {
	out := &bytes.Buffer{}
	a := app.DefaultApp
	a.Ledger, a.Lang, a.Colour, a.BaseCCY, a.Output = "main.ledger", "en", false, "£", out
	root := &cobra.Command{Use: "goledger"}
	add(root, &a)
	for _, c := range root.Commands() {
		if c.Name() == name {
			if err := c.ParseFlags(args); err != nil {
				return "", err
			}
			err := c.RunE(c, c.Flags().Args())
			return out.String(), err
		}
	}
	return "", nil
}

func imp(args ...string) (string, error) {
	return run("import", func(r *cobra.Command, a *app.App) { importer.Add(r, a, nil) }, args...)
}

func gen(args ...string) (string, error) {
	return run("generate", func(r *cobra.Command, a *app.App) { generate.Add(r, a, nil) }, args...)
}

const code = "[add(date=r[0], desc=r[1], amt=r[2]) for r in data]"

func read(text string) []book.Transaction {
	v.PutFile("out.ledger", text)
	a := app.DefaultApp
	a.Ledger = "out.ledger"
	b, err := a.LoadBook()
	v.Assert(err == nil, "what an import writes is accepted as a ledger")
	if err != nil {
		return nil
	}
	return b.Transactions()
}

// post finds the amount of an account in a transaction.
func post(t book.Transaction, acct, ccy string) *big.Rat {
	sum := new(big.Rat)
	for _, p := range t {
		if p.GetAccount() == acct && p.GetCCY() == ccy {
			sum.Add(sum, p.GetAmount())
		}
	}
	return sum
}

// Rows: every row of a table becomes its transaction, exactly.
func Rows() {
	v.MapOrder(0)
	v.PutFile("main.ledger", "2020/01/01 Open\n  Bank  £1\n  Equity\n")
	d, w, f := v.Str("day", 1, 1, "0123456789"), v.Str("whole", 1, 1, digits), v.Str("frac", 2, 2, digits)
	sign := []string{"", "-"}[v.Choice("negative", 2)]
	style := v.Choice("style", 4)
	sep := []string{",", ";", "\t", ","}[style]
	text := strings.Join([]string{"2020-01-1" + d, "Shop", sign + w + "." + f}, sep) + "\n" +
		strings.Join([]string{"2020/02/28", "Other", "1" + w}, sep) + "\n"
	args := []string{"-a", "Bank", "-c", "Misc"}
	switch style {
	case 0:
		args = append(args, "--format=csv", "--code="+code)
	case 1:
		args = append(args, "--format=csv:delim=;", "--code="+code)
	case 2:
		args = append(args, "--format=csv:delim=\t", "--code="+code)
	case 3:
		text = "When,Who,Much\n" + text
		args = append(args, "--format=csv:header", "--code=[add(date=r['When'], desc=r['Who'], amt=r['Much']) for r in data]")
	}
	v.PutFile("in.csv", text)
	out, err := imp(append(args, "in.csv")...)
	v.Assert(err == nil, "a table is imported")
	v.Observe("out", out)
	ts := read(out)
	num, _ := new(big.Rat).SetString(sign + w + "." + f)
	if num.Sign() == 0 {
		v.Assert(len(ts) == 1, "every row becomes a transaction")
		return
	}
	v.Assert(len(ts) == 2, "every row becomes a transaction")
	if len(ts) != 2 {
		return
	}
	v.Assert(ts[0].GetDate().String() == "2020/01/1"+d && ts[1].GetDate().String() == "2020/02/28", "a row keeps its date")
	v.Assert(ts[0].GetPayee() == "Shop" && ts[1].GetPayee() == "Other", "a row keeps its text")
	v.Assert(v.RatEq(post(ts[0], "Bank", "£"), num), "a row keeps its amount exactly")
	v.Assert(v.RatEq(post(ts[0], "Misc", "£"), new(big.Rat).Neg(num)), "the counter account balances a row")
	v.Assert(len(ts[0]) == 2 && len(ts[1]) == 2, "a row has two postings")
	v.Reach("end")
}

func csvText(s string) string { return `"` + strings.ReplaceAll(s, `"`, `""`) + `"` }

// Again: what an import wrote and was added to the ledger is not imported
// again, whatever its texts, dates and amounts.
func Again() {
	v.MapOrder(0)
	const ledger = "2020/01/01 Open\n  Bank  £1\n  Equity\n\n"
	v.PutFile("main.ledger", ledger)
	desc := v.Str("desc", 0, v.Bound("characters of a description", 2, 3), "aB \";*'(2)\n")
	rest := []string{"", "x", "é (2)"}[v.Choice("rest", 3)]
	d := []string{"2020-01-02", "2019/12/31"}[v.Choice("date", 2)]
	amt := v.Str("amount", 1, 1, "019") + ".5"
	if v.Choice("zero", 2) == 1 {
		amt = "0"
	}
	text := "2020-01-02,Shop,1\n" + d + "," + csvText(desc+rest) + "," + amt + "\n" + d + "," + csvText(desc+rest) + ",2\n"
	v.PutFile("in.csv", text)
	args := []string{"-a", "Bank", "-c", "Misc", "--format=csv", "--code=" + code, "in.csv"}
	out, err := imp(args...)
	v.Assert(err == nil, "a table is imported")
	v.Observe("out", out)
	n := len(read(out))
	v.Assert(n == 3 || n == 2 && amt == "0", "every row is imported once")
	v.PutFile("main.ledger", ledger+out)
	again, err := imp(args...)
	v.Assert(err == nil, "a ledger with imported transactions is accepted")
	v.Assert(again == "", "what was imported is not imported again")
	v.Reach("end")
}

// Dedup: exactly the rows whose date and text the ledger does not have yet
// are imported.
func Dedup() {
	v.MapOrder(0)
	days := []string{"2020/01/09", "2020/01/10", "2020/02/01"}
	pays := "ABC"
	main := ""
	type key struct{ day, pay string }
	has := map[key]bool{}
	n := v.Bound("transactions of the ledger", 2, 3)
	for i := 0; i < n; i++ {
		k := key{days[v.Choice("day", 3)], v.Str("payee", 1, 1, pays)}
		if has[k] {
			return
		}
		has[k] = true
		main += k.day + " " + k.pay + "\n  Bank  £1\n  X\n\n"
	}
	v.PutFile("main.ledger", main)
	dedup := v.Choice("dedup", 2) == 1
	text := ""
	var rows []key
	for i := 0; i < 2; i++ {
		k := key{days[v.Choice("rowday", 2)], v.Str("rowpayee", 1, 1, pays)}
		text += k.day + "," + k.pay + ",7\n"
		rows = append(rows, k)
	}
	if rows[0] == rows[1] {
		rows[1].pay += " (2)"
	}
	v.PutFile("in.csv", text)
	out, err := imp("-a", "Bank", "-c", "Misc", "--format=csv", "--code="+code, "--dedup="+[]string{"false", "true"}[b2i(dedup)], "in.csv")
	v.Assert(err == nil, "a table is imported")
	ts := read(out)
	kept := 0
	for _, k := range rows {
		found := false
		for _, t := range ts {
			if t.GetDate().String() == k.day && t.GetPayee() == k.pay {
				found = true
			}
		}
		want := !dedup || !has[k]
		if want {
			kept++
		}
		v.Assert(found == want, "a row is imported exactly if the ledger does not have it")
	}
	v.Assert(len(ts) == kept, "nothing but the rows is imported")
	v.Reach("end")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Files: what several files have in common is imported once.
func Files() {
	v.MapOrder(0)
	v.PutFile("main.ledger", "2020/01/01 A\n  Bank  £1\n  X\n")
	days := []string{"2020/01/01", "2020/01/02"}
	type key struct{ day, pay string }
	want := map[key]bool{}
	dedup := v.Choice("dedup", 2) == 1
	for i, f := range []string{"a.csv", "b.csv", "c.csv"} {
		n := []int{2, 2, 1}[i]
		text := ""
		var last key
		for j := 0; j < n; j++ {
			k := key{days[v.Choice("day", 2)], v.Str("payee", 1, 1, "AB")}
			if j > 0 && k == last {
				return
			}
			last = k
			text += k.day + "," + k.pay + ",7\n"
			if !dedup || k != (key{"2020/01/01", "A"}) {
				want[k] = true
			}
		}
		v.PutFile(f, text)
	}
	out, err := imp("-a", "Bank", "-c", "Misc", "--format=csv", "--code="+code, "--dedup="+[]string{"false", "true"}[b2i(dedup)], "a.csv", "b.csv", "c.csv")
	v.Assert(err == nil, "tables are imported")
	ts := read(out)
	v.Assert(len(ts) == len(want), "what several files have in common is imported once")
	for _, t := range ts {
		v.Assert(want[key{t.GetDate().String(), t.GetPayee()}], "what several files have in common is imported once")
	}
	v.Reach("end")
}

// Reclassify: a row gets the counter account its text had most often with the
// same account, or else that of a similar text, or else the one asked for.
func Reclassify() {
	v.MapOrder(0)
	pays := []string{"Shop", "Shoq", "Zzz"}
	accts := []string{"Food", "Fun"}
	main := ""
	cnt := map[string]map[string]int{"Shop": {}, "Shoq": {}, "Zzz": {}}
	n := v.Bound("transactions of the ledger", 2, 3)
	often := v.Choice("often", 2) == 1
	for i := 0; i < n; i++ {
		p, c := pays[v.Choice("payee", 3)], accts[v.Choice("counter", 2)]
		if i == 0 && often {
			// more than once, before the others
			main += "2019/01/01 " + p + "\n  Bank  £1\n  " + c + "\n2019/01/02 " + p + "\n  Bank  £-1\n  " + c + "\n"
			cnt[p][c] += 2
		}
		main += "2020/01/0" + string(rune('1'+i)) + " " + p + "\n"
		a := v.Str("amt", 1, 1, "123")
		switch v.Choice("kind", 4) {
		case 0:
			main += "  Bank  £" + a + "\n  " + c + "\n\n"
			cnt[p][c]++
		case 1:
			main += "  Bank  £-" + a + "\n  " + c + "\n\n"
			cnt[p][c]++
		case 2:
			main += "  Cash  £" + a + "\n  " + c + "\n\n"
		case 3:
			main += "  Bank  £" + a + "\n  " + c + "  £1\n  Rest\n\n"
		}
	}
	v.PutFile("main.ledger", main)
	on := v.Choice("reclassify", 2) == 1
	v.PutFile("in.csv", "2020/01/20,Shop,7\n")
	v.PutFile("more.csv", "2020/01/21,Zzz,8\n")
	out, err := imp("-a", "Bank", "-c", "Misc", "--format=csv", "--code="+code, "--reclassify="+[]string{"false", "true"}[b2i(on)], "in.csv", "more.csv")
	v.Assert(err == nil, "a table is imported")
	ts := read(out)
	v.Assert(len(ts) == 2 && len(ts[0]) == 2 && len(ts[1]) == 2, "a row is one transaction")
	best := func(m map[string]int) string {
		if m["Food"] == 0 && m["Fun"] == 0 {
			return ""
		}
		if m["Fun"] > m["Food"] {
			return "Fun"
		}
		return "Food"
	}
	want := "Misc"
	if on {
		if b := best(cnt["Shop"]); b != "" {
			want = b
		} else if b := best(cnt["Shoq"]); b != "" {
			want = b
		}
	}
	v.Assert(v.RatEq(post(ts[0], "Bank", "£"), big.NewRat(7, 1)), "a row keeps its account and amount")
	v.Assert(v.RatEq(post(ts[0], want, "£"), big.NewRat(-7, 1)), "a row gets the counter account its text had before")
	want = "Misc"
	if b := best(cnt["Zzz"]); on && b != "" {
		want = b
	}
	v.Assert(v.RatEq(post(ts[1], "Bank", "£"), big.NewRat(8, 1)), "a row of another table keeps its account and amount")
	v.Assert(v.RatEq(post(ts[1], want, "£"), big.NewRat(-8, 1)), "a row of another table gets the counter account its text had before")
	v.Reach("end")
}

// Refused: tables, formats and scripts which are wrong are refused and
// nothing is written.
func Refused() {
	v.MapOrder(0)
	v.PutFile("main.ledger", "2020/01/01 A\n  Bank  £1\n  X\n")
	format, c, file, text := "csv", code, "in.csv", "2020/01/02,B,1\n2020/01/03,C,2\n"
	bad := true
	switch v.Choice("what", 15) {
	case 14:
		bad = false
		d := []string{"|", ";", "\t", "é", "·"}[v.Choice("delimiter", 5)]
		format = "csv:delim=" + d
		text = strings.ReplaceAll(text, ",", d)
	case 0:
		format = "xml"
	case 1:
		format = "csv:delim=;;"
	case 2:
		format = "csv:header=yes"
	case 3:
		file = "missing.csv"
	case 4:
		text += "2020/01/04,D\n" // fields missing
	case 5:
		text += "2020/01/04,D," + []string{"x", "-", ".", "", "1x", "1/0", "--1", "1 2"}[v.Choice("amount", 8)] + "\n"
	case 6:
		text += []string{"2020/02/30", "2020/13/01", "x", "", "2020/01/01/01", "20200132", "0"}[v.Choice("date", 7)] + ",D,1\n"
	case 7:
		c = code + "\nerror(msg='no')"
	case 8:
		c = "[add(date=r[0], desc=r[1]) for r in data]"
	case 9:
		c = "["
	case 10:
		format = "csv:header"
		text = "a,b\n1,2,3\n"
	case 11:
		format = "csv:delim="
	case 12:
		c = "add(date='2020/01/01', desc='x', amt=1, denom=0)"
	case 13:
		bad = false
	}
	v.PutFile("in.csv", text)
	out, err := imp("-a", "Bank", "-c", "Misc", "--format="+format, "--code="+c, file)
	v.Assert((err != nil) == bad, "what is wrong is refused")
	if bad {
		v.Assert(out == "", "nothing of a table which is refused is written")
		v.Reach("refused")
	} else {
		v.Assert(len(read(out)) == 2, "every row becomes a transaction")
		v.Reach("accepted")
	}
}

// call adds a transaction the way a script does.
func call(b *book.Builder, kw ...starlark.Tuple) error {
	add := script.GetBuilderFunction(b, "Bank", "£", "Misc")
	_, err := starlark.Call(&starlark.Thread{Name: "t"}, add, nil, kw)
	return err
}

func arg(k string, x starlark.Value) starlark.Tuple { return starlark.Tuple{starlark.String(k), x} }

// Amounts: an amount given as a text, a number or in parts is added exactly.
func Amounts() {
	v.MapOrder(0)
	b := book.NewBookBuilder()
	want := new(big.Rat)
	var val starlark.Value
	switch v.Choice("kind", 6) {
	case 5:
		s := []string{"", "-"}[v.Choice("minus", 2)] + []string{"9223372036854775808", "123456789012345678901234567890"}[v.Choice("size", 2)]
		n, _ := new(big.Int).SetString(s, 10)
		want.SetInt(n)
		val = starlark.MakeBigInt(n)
	case 4:
		s := []string{"", "-"}[v.Choice("minus", 2)] + []string{"", "1234567"}[v.Choice("size", 2)] + v.Str("units", 1, 1, digits) + "." + v.Str("decimals", 1, v.Bound("decimals of an amount", 2, 3), digits)
		want.SetString(s)
		f, _ := strconv.ParseFloat(s, 64)
		val = starlark.Float(f)
	case 0:
		s := []string{"", "-", "+"}[v.Choice("sign", 3)] + v.Str("whole", 1, 1, digits) + "." + v.Str("frac", 1, v.Bound("decimals of an amount", 2, 3), digits)
		want.SetString(s)
		val = starlark.String(s)
	case 1:
		n := v.Int("n", -1000000, 1000000)
		want.SetInt64(int64(n))
		val = starlark.MakeInt(n)
	case 2:
		fs := []string{"0.1", "12.34", "-0.07", "1e-7", "100000000000.25", "3", "0.3"}
		s := fs[v.Choice("float", len(fs))]
		want.SetString(s)
		val = starlark.Float([]float64{0.1, 12.34, -0.07, 1e-7, 100000000000.25, 3, 0.1 + 0.2}[indexOf(fs, s)])
	case 3:
		s := "123456789012345678901234567890" + v.Str("digit", 1, 1, digits)
		want.SetString(s)
		val = starlark.String(s)
	}
	kw := []starlark.Tuple{arg("date", starlark.String("2020/01/02")), arg("desc", starlark.String("p")), arg("amt", val),
		arg("note", starlark.String("tn")), arg("lnote", starlark.String("ln"))}
	if k := v.Choice("denom", 4); k > 0 {
		d := []int{0, 100, 8, -5}[k]
		kw = append(kw, arg("denom", starlark.MakeInt(d)))
		want.Quo(want, big.NewRat(int64(d), 1))
	}
	second := v.Choice("second", 2) == 1
	if second {
		kw = append(kw, arg("amt2", val), arg("account2", starlark.String("Fee")), arg("ccy2", starlark.String("USD")), arg("denom2", starlark.MakeInt(4)))
	}
	v.Assert(call(b, kw...) == nil, "an amount is accepted")
	ts := b.Build().Transactions()
	if want.Sign() == 0 {
		v.Assert(len(ts) == 0, "an empty transaction is left out")
		return
	}
	v.Assert(len(ts) == 1, "a transaction is added")
	v.Assert(ts[0].GetDate() == book.GetDate(2020, 1, 2) && ts[0].GetPayee() == "p" && ts[0].GetTransactionNote() == "tn", "a transaction has its date and texts")
	for _, p := range ts[0] {
		note := ""
		if p.GetAccount() == "Bank" {
			note = "ln"
		}
		v.Assert(p.GetPostNote() == note, "the note of a line is on the posting of the account only")
	}
	v.Assert(v.RatEq(post(ts[0], "Bank", "£"), want), "an amount is added exactly")
	v.Assert(v.RatEq(post(ts[0], "Misc", "£"), new(big.Rat).Neg(want)), "the counter account balances")
	if second {
		w2 := new(big.Rat)
		switch x := val.(type) {
		case starlark.String:
			w2.SetString(string(x))
		case starlark.Int:
			w2.SetInt(x.BigInt())
		default:
			return
		}
		w2.Quo(w2, big.NewRat(4, 1))
		v.Assert(v.RatEq(post(ts[0], "Fee", "USD"), w2), "a second amount is added exactly")
		v.Assert(v.RatEq(post(ts[0], "Misc", "USD"), new(big.Rat).Neg(w2)), "the counter account balances")
		v.Assert(len(ts[0]) == 4, "a transaction has no other postings")
	} else {
		v.Assert(len(ts[0]) == 2, "a transaction has no other postings")
	}
	v.Reach("end")
}

func indexOf(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

// Texts: notes, currencies and accounts given to add are read back as given,
// or refused.
func Texts() {
	v.MapOrder(0)
	v.PutFile("main.ledger", "2020/01/01 A\n  Bank  £1\n  X\n")
	cell := []string{"", "", "£", "Cash"}
	k := v.Choice("field", 4)
	cell[k] = v.Str("text", 0, v.Bound("characters of a text", 2, 3), "aB1 ;\"*'-:\n") + []string{"", "z", "é"}[v.Choice("rest", 3)]
	row := "2020/01/02"
	for _, c := range cell {
		row += "," + csvText(c)
	}
	v.PutFile("in.csv", row+"\n")
	out, err := imp("-a", "Bank", "-c", "Misc", "--format=csv", "--code=[add(date=r[0], desc='x', amt='5', note=r[1], lnote=r[2], ccy=r[3], account=r[4]) for r in data]", "in.csv")
	v.Observe("out", out)
	ok := true
	for _, c := range cell[k] {
		ok = ok && (k != 3 || strings.ContainsRune("aB1':z", c)) && (k != 2 || c != '"' && c != '\n')
	}
	v.Assert((err == nil) == (ok && (k < 2 || cell[k] != "")), "a text is refused exactly if no ledger can hold it")
	if err != nil {
		v.Assert(out == "", "nothing of a table which is refused is written")
		v.Reach("refused")
		return
	}
	ts := read(out)
	v.Assert(len(ts) == 1, "a row becomes a transaction")
	if len(ts) != 1 {
		return
	}
	// what a table reader drops in front, a ledger drops too; lines are joined
	clean := func(s string) string { return strings.TrimSpace(strings.ReplaceAll(s, "\n", " ")) }
	v.Assert(ts[0].GetTransactionNote() == clean(cell[0]), "the note of a transaction is kept")
	found := false
	for _, p := range ts[0] {
		if p.GetAccount() != cell[3] {
			continue
		}
		found = true
		v.Assert(p.GetPostNote() == clean(cell[1]), "the note of a posting is kept")
		v.Assert(p.GetCCY() == cell[2], "the currency of a posting is kept")
		v.Assert(v.RatEq(p.GetAmount(), big.NewRat(5, 1)), "the amount of a posting is kept")
	}
	v.Assert(found, "the account of a posting is kept")
	v.Reach("accepted")
}

// Generated: a script sees the ledger, and what it adds is written exactly.
func Generated() {
	v.MapOrder(0)
	a := []string{"123456789.01", "0.1", ""}[v.Choice("amount", 3)]
	if a == "" {
		a = []string{"", "-"}[v.Choice("sign", 2)] + v.Str("whole", 1, 1, "123456789") + "." + v.Str("frac", 1, 2, digits)
	}
	day := v.Str("day", 1, 1, "123456789")
	pay := v.Str("payee", 1, 1, "AX")
	v.PutFile("main.ledger", "2020/02/0"+day+" "+pay+" ; tn\n  Bank  £"+a+" ; pn\n  Equity\n\n2020/02/05 New\n  Bank  $1\n  Equity\n")
	c := "for t in data.transactions:\n  for p in t:\n    if p.account == 'Bank':\n      add(date=t.date, desc='N' + p.payee[1:] + t.transaction_note, amt=p.amount, ccy=p.ccy, account=p.account, caccount='Gen', lnote=p.posting_note, note=p.transaction_note)"
	out, err := gen("--code=" + c)
	v.Assert(err == nil, "a script is accepted")
	v.Observe("out", out)
	ts := read(out)
	// the transaction New is a copy of itself and left out
	v.Assert(len(ts) == 1, "a script sees every transaction once and duplicates are left out")
	if len(ts) != 1 {
		return
	}
	want, _ := new(big.Rat).SetString(a)
	t := ts[0]
	v.Assert(t.GetDate().String() == "2020/02/0"+day && t.GetPayee() == "Ntn" && t.GetTransactionNote() == "tn", "a script sees dates, payees and notes")
	v.Assert(v.RatEq(post(t, "Bank", "£"), want) && v.RatEq(post(t, "Gen", "£"), new(big.Rat).Neg(want)), "a script sees amounts")
	for _, p := range t {
		v.Assert(p.GetPostNote() == "pn" || p.GetAccount() != "Bank", "a script sees notes of postings")
	}
	v.Reach("end")
}

// Selected: what a script selects from the ledger is what operations select,
// and the ledger itself is not changed by it.
func Selected() {
	v.MapOrder(0)
	var main string
	for i := 0; i < 3; i++ {
		main += "2020/0" + v.Str("month", 1, 1, "123") + "/15 P" + string(rune('0'+i)) + "\n  " + []string{"Bank", "Cash"}[v.Choice("account", 2)] + "  £" + string(rune('1'+i)) + "\n  Equity\n\n"
	}
	v.PutFile("main.ledger", main)
	k := v.Choice("what", 5)
	sel := []string{"data", "data.since(date='2020/02/15')", "data.asof(date='2020-02-15')", "data.map(**{'from': '^Bank$', 'to': 'B'})", "data.since('2020/02').map('^(C).*$', '$1')"}[k]
	var ops []string
	switch k {
	case 1:
		ops = []string{"since=2020/02/15"}
	case 2:
		ops = []string{"asof=2020-02-15"}
	case 3:
		ops = []string{"map=/^Bank$/B/"}
	case 4:
		ops = []string{"since=2020/02", "map=/^(C).*$/$1/"}
	}
	dedup := v.Choice("dedup", 2) == 1
	out, err := gen("--dedup="+[]string{"false", "true"}[b2i(dedup)], "--code=for t in "+sel+".transactions:\n  for p in t:\n    if p.amount > 0:\n      add(date=p.date, desc=p.payee, amt=p.amount, ccy=p.ccy, account=p.account, caccount='Gen')")
	v.Assert(err == nil, "a script is accepted")
	v.Observe("out", out)
	ts := read(out)
	if dedup {
		v.Assert(len(ts) == 0, "what a ledger has is not generated again")
		return
	}
	a := app.DefaultApp
	a.Ledger = "main.ledger"
	b, err := a.LoadBook()
	v.Assert(err == nil, "a ledger is accepted")
	for _, o := range ops {
		v.Assert(a.BookOps(b, o) == nil, "an operation is accepted")
	}
	want := b.Transactions()
	v.Assert(len(want) == len(ts), "a script selects what operations select")
	if len(want) != len(ts) {
		return
	}
	for i, t := range want {
		v.Assert(t.GetDate() == ts[i].GetDate() && t.GetPayee() == ts[i].GetPayee(), "a script selects what operations select")
		for _, p := range t {
			if p.GetAmount().Sign() > 0 {
				v.Assert(v.RatEq(post(ts[i], p.GetAccount(), p.GetCCY()), p.GetAmount()), "a script selects what operations select")
			}
		}
	}
	v.Reach("end")
}

// Unchanged: whatever a script does with the ledger, duplicates are looked for
// in all of it.
func Unchanged() {
	v.MapOrder(0)
	var main string
	for i := 0; i < 2; i++ {
		main += "2020/0" + v.Str("month", 1, 1, "123") + "/15 P" + string(rune('0'+i)) + "\n  " + []string{"Bank", "Cash"}[v.Choice("account", 2)] + "  £" + string(rune('1'+i)) + "\n  Equity\n\n"
	}
	v.PutFile("main.ledger", main)
	op := []string{"data", "data.since(date='2020/02/15')", "data.asof(date='2020-02-15')", "data.map(**{'from': '.*', 'to': 'B'})", "data.map('.*', 'B').since('2021')"}[v.Choice("what", 5)]
	out, err := gen("--code=l = [(t.date, t.payee, p.account, p.amount) for t in data.transactions for p in t if p.amount > 0]\n" +
		"n = len(" + op + ".transactions)\n[add(date=d, desc=p, amt=m, ccy='£', account=a, caccount='Gen') for d, p, a, m in l]\nadd(date='2020/02/14', desc='New', amt=1, ccy='£', account='A', caccount='Gen')")
	v.Assert(err == nil, "a script is accepted")
	v.Observe("out", out)
	ts := read(out)
	v.Assert(len(ts) == 1 && ts[0].GetPayee() == "New", "what a ledger has is not generated again, whatever the script does with it")
	v.Reach("end")
}

// Mapped: a script maps accounts as an operation does.
func Mapped() {
	v.MapOrder(0)
	main := ""
	for i := 0; i < 2; i++ {
		main += "2020/01/1" + string(rune('0'+i)) + " P\n  " + []string{"A:x", "A:y", "B", "AB"}[v.Choice("account", 4)] + "  £" + v.Str("amt", 1, 1, "123") + "\n  C  £1\n  Eq\n"
	}
	v.PutFile("main.ledger", main)
	from := []string{"^A:(.*)$", "^A", ".*"}[v.Choice("from", 3)]
	to := []string{"Z:$1", "B", "$0"}[v.Choice("to", 3)]
	alt := []string{"", "R"}[v.Choice("alt", 2)]
	args := "'" + from + "', '" + to + "'"
	if alt != "" {
		args += ", '" + alt + "'"
	}
	out, err := gen("--dedup=false", "--code=for t in data.map("+args+").transactions:\n  for p in t:\n    add(date=p.date, desc='N', amt=p.amount, ccy=p.ccy, account=p.account, caccount='Gen', denom=1, note=str(p.balance), lnote=p.account)")
	v.Assert(err == nil, "a script is accepted")
	v.Observe("out", out)
	a := app.DefaultApp
	a.Ledger = "main.ledger"
	b, err := a.LoadBook()
	v.Assert(err == nil, "a ledger is accepted")
	op := "map=/" + from + "/" + to + "/"
	if alt != "" {
		op += alt + "/"
	}
	v.Assert(a.BookOps(b, op) == nil, "an operation is accepted")
	want := []string{}
	for _, t := range b.Transactions() {
		for _, p := range t {
			f, _ := p.GetBalance().Float64()
			want = append(want, p.GetDate().String()+p.GetAccount()+p.GetAmount().RatString()+starlark.Float(f).String())
		}
	}
	got := []string{}
	for _, t := range read(out) {
		for _, p := range t {
			if p.GetPostNote() != "" {
				v.Assert(p.GetPostNote() == p.GetAccount(), "a script sees the accounts which are mapped")
				got = append(got, p.GetDate().String()+p.GetAccount()+p.GetAmount().RatString()+p.GetTransactionNote())
			}
		}
	}
	v.Assert(len(got) == len(want), "a script maps accounts as an operation does")
	for _, w := range want {
		n := 0
		for _, g := range got {
			if g == w {
				n++
			}
		}
		v.Assert(n > 0, "a script maps accounts as an operation does, and sees amounts and balances")
	}
	v.Reach("end")
}

// Defs: an import with settings of its own uses them, what it does not set is
// the default, and every row sees the name of its file.
func Defs() {
	v.MapOrder(0)
	v.PutFile("main.ledger", "2020/01/01 A\n  Bank  £1\n  X\n")
	p := v.Str("payee", 1, 1, "ABX")
	n := v.Str("amt", 1, 1, "123456789")
	v.PutFile("in.csv", "2020/01/01;"+p+";"+n+"\n")
	ccy := []string{"", "USD"}[v.Choice("ccy", 2)]
	dedup, recl := v.Choice("dedup", 2) == 1, v.Choice("reclassify", 2) == 1
	def := &importer.ImportDef{Account: "Bank", CounterAccount: "Misc", CCY: ccy, Dedup: dedup, Reclassify: recl, Code: "[add(date=r[0], desc=r[1], amt=r[2], note=file) for r in data]"}
	def.ConfigType = "csv"
	def.Params = map[string]string{"delim": ";"}
	args := []string{"in.csv"}
	acct, cacct := "Bank", "Misc"
	if v.Choice("given", 2) == 1 {
		args = []string{"-a", "Bank2", "-c", "Misc2", "in.csv"}
		acct, cacct = "Bank2", "Misc2"
	}
	out := &bytes.Buffer{}
	a := app.DefaultApp
	a.Ledger, a.Lang, a.Colour, a.BaseCCY, a.Output = "main.ledger", "en", false, "£", out
	root := &cobra.Command{Use: "goledger"}
	importer.Add(root, &a, map[string]*importer.ImportDef{"bank": def, "other": {Account: "Z", CounterAccount: "Z", Code: "["}})
	c, rest, err := root.Find(append([]string{"import", "bank"}, args...))
	v.Assert(err == nil && c.Name() == "bank", "an import which is defined is a command")
	v.Assert(c.ParseFlags(rest) == nil && c.RunE(c, c.Flags().Args()) == nil, "an import which is defined works")
	v.Observe("out", out.String())
	ts := read(out.String())
	if dedup && p == "A" {
		v.Assert(len(ts) == 0, "duplicates are left out")
		return
	}
	v.Assert(len(ts) == 1, "every row becomes a transaction")
	if len(ts) != 1 {
		return
	}
	if ccy == "" {
		ccy = "£"
	}
	if recl && acct == "Bank" && p == "A" {
		cacct = "X"
	}
	want, _ := new(big.Rat).SetString(n)
	v.Assert(ts[0].GetPayee() == p && ts[0].GetTransactionNote() == "in.csv", "a script sees the name of the file")
	v.Assert(v.RatEq(post(ts[0], acct, ccy), want) && v.RatEq(post(ts[0], cacct, ccy), new(big.Rat).Neg(want)), "an import uses its own account, counter account and currency")
	v.Reach("end")
}

// Missing: a transaction which is not complete is refused and not added.
func Missing() {
	v.MapOrder(0)
	b := book.NewBookBuilder()
	m := map[string]starlark.Value{"date": starlark.String("2020/01/02"), "desc": starlark.String("p"), "amt": starlark.String("1"),
		"ccy": starlark.String("£"), "account": starlark.String("Bank"), "caccount": starlark.String("Misc"), "denom": starlark.MakeInt(1),
		"amt2": starlark.None, "ccy2": starlark.String("USD"), "denom2": starlark.MakeInt(1), "account2": starlark.String("")}
	ok := true
	switch v.Choice("what", 9) {
	case 0:
	case 1:
		x := []string{"date", "desc", "amt"}[v.Choice("left", 3)]
		delete(m, x)
		ok = false
	case 2:
		m[[]string{"account", "caccount", "ccy"}[v.Choice("empty", 3)]] = starlark.String("")
		ok = false
	case 3:
		m[[]string{"denom", "denom2"}[v.Choice("zero", 2)]] = starlark.MakeInt(0)
		ok = false
	case 4:
		f := []float64{1, 0.0}
		x := f[0] / f[1]
		if v.Choice("nan", 2) == 1 {
			x -= x
		}
		m[[]string{"amt", "amt2"}[v.Choice("which", 2)]] = starlark.Float(x)
		m["account2"] = starlark.String("Fee")
		ok = false
	case 5:
		m["amt"] = []starlark.Value{starlark.None, starlark.Bool(true), starlark.String("1x"), starlark.NewList(nil)}[v.Choice("odd", 4)]
		ok = false
	case 6:
		// a second posting needs all of its parts
		amt, acct, ccy := v.Choice("amt2", 2) == 1, v.Choice("account2", 2) == 1, v.Choice("ccy2", 2) == 1
		if amt {
			m["amt2"] = starlark.String("3")
		}
		if acct {
			m["account2"] = starlark.String("Fee")
		}
		if !ccy {
			m["ccy2"] = starlark.String("")
		}
		ok = amt && acct && ccy || !amt && !acct
	case 7:
		m["date"] = starlark.String([]string{"2020/02/30", "", "never", "2021/02/29", "2020/13/01"}[v.Choice("date", 5)])
		ok = false
	case 8:
		m["amt"] = starlark.String("0")
	}
	var kw []starlark.Tuple
	for _, k := range []string{"date", "desc", "amt", "ccy", "account", "caccount", "denom", "amt2", "ccy2", "denom2", "account2"} {
		if x, has := m[k]; has {
			kw = append(kw, arg(k, x))
		}
	}
	err := call(b, kw...)
	v.Assert((err == nil) == ok, "a transaction is refused exactly if it is not complete")
	ts := b.Build().Transactions()
	if err != nil {
		v.Assert(len(ts) == 0, "a transaction which is refused is not added")
		v.Reach("refused")
	} else {
		v.Reach("accepted")
	}
}

// JSON: the values of a JSON file reach the script as they are, and the same
// way every time; what is not one value of JSON is refused.
func JSON() {
	v.MapOrder(0)
	v.PutFile("main.ledger", "2020/01/01 A\n  Bank  £1\n  X\n")
	num := []string{"", "-"}[v.Choice("sign", 2)] + v.Str("whole", 1, 1, "123456789") + []string{"", "0000000"}[v.Choice("large", 2)]
	c := "[add(date=r['d'], desc=r['p'], amt=r['a'], note=r.get('n', 'none')) for r in data['rows']]"
	val, want, note := num, num, "x"
	switch v.Choice("number", 5) {
	case 0:
		val += "." + v.Str("frac", 1, 3, digits)
		want = val
	case 1:
		val = "\"" + val + ".25\""
		want += ".25"
	case 2:
		// pence
		c = "[add(date=r['d'], desc=r['p'], amt=r['a'], denom=100, note=r.get('n', 'none')) for r in data['rows']]"
	case 3:
		val = "-12.5e2"
		want = "-1250"
	case 4:
		note = "none"
	}
	esc := []string{"S", "\\u00e9 \\\"q\\\"", "\\\\n\\u003c\\/"}[v.Choice("text", 3)]
	text := []string{"S", "é \"q\"", "\\n</"}[indexOf([]string{"S", "\\u00e9 \\\"q\\\"", "\\\\n\\u003c\\/"}, esc)]
	n := "\"x\""
	if note == "none" {
		n = "null"
	}
	v.PutFile("in.json", "{ \"rows\":\n [{\"d\": \"2020-01-02\", \"p\": \""+esc+"\", \"a\": "+val+", \"n\": "+n+", \"more\": [true, false, {}, [], null]}]}\n")
	out, err := imp("-a", "Bank", "-c", "Misc", "--format=json", "--code="+c, "in.json")
	v.Assert(err == nil, "a table in JSON is imported")
	v.Observe("out", out)
	ts := read(out)
	v.Assert(len(ts) == 1, "every row becomes a transaction")
	if len(ts) != 1 {
		return
	}
	x, _ := new(big.Rat).SetString(want)
	if c[len("[add(date=r['d'], desc=r['p'], amt=r['a'], "):][:5] == "denom" {
		x.Quo(x, big.NewRat(100, 1))
	}
	v.Assert(ts[0].GetDate().String() == "2020/01/02" && ts[0].GetPayee() == text && ts[0].GetTransactionNote() == note, "a row keeps its date and texts")
	v.Assert(v.RatEq(post(ts[0], "Bank", "£"), x) && len(ts[0]) == 2, "a row keeps its amount exactly")
	v.Reach("end")
}

// Objects: an object of JSON gives the same transactions every time.
func Objects() {
	v.MapOrder(0)
	v.PutFile("main.ledger", "2020/01/01 A\n  Bank  £1\n  X\n")
	text := "{"
	for i := 0; i < 3; i++ {
		if i > 0 {
			text += ", "
		}
		text += "\"" + []string{"b", "a", "c"}[i] + "\": " + v.Str("amt", 1, 1, "123")
	}
	v.PutFile("in.json", text+"}")
	args := []string{"-a", "Bank", "-c", "Misc", "--format=json", "--code=[add(date='2020/01/02', desc='p', amt=data[k]) for k in data]", "in.json"}
	out, err := imp(args...)
	v.Assert(err == nil && len(read(out)) == 3, "an object in JSON is imported")
	v.MapOrder(2)
	again, err := imp(args...)
	v.Assert(err == nil && again == out, "a table is imported the same way every time")
	v.Reach("end")
}

// NotJSON: what is not one value of JSON is refused.
func NotJSON() {
	v.MapOrder(0)
	v.PutFile("main.ledger", "2020/01/01 A\n  Bank  £1\n  X\n")
	row := "[{\"d\":\"2020-01-02\",\"p\":\"q\",\"a\":1}]"
	ws := v.Str("space", 0, 2, " \n\t")
	text, bad := row, true
	switch v.Choice("what", 6) {
	case 0:
		bad = false
		text = ws + row + ws
	case 1:
		text = row[:v.Choice("cut", len(row))]
	case 2:
		text = row + ws + row
	case 3:
		text = row + ws + v.Str("rest", 1, 1, "]x1,\"")
	case 4:
		i := v.Choice("where", len(row))
		text = row[:i] + v.Str("char", 1, 1, "x\n\\") + row[i+1:]
		bad = !strings.ContainsAny(text, "x") || strings.Contains(text, "\\") // inside a text a letter is fine
		if strings.Contains(text, "x") {
			return
		}
	case 5:
		text = ws
	}
	v.PutFile("in.json", text)
	out, err := imp("-a", "Bank", "-c", "Misc", "--format=json", "--code=[add(date=r['d'], desc=r['p'], amt=r['a']) for r in data]", "in.json")
	v.Assert((err != nil) == bad, "what is not one value of JSON is refused")
	if bad {
		v.Assert(out == "", "nothing of a table which is refused is written")
		v.Reach("refused")
	} else {
		v.Assert(len(read(out)) == 1, "every row becomes a transaction")
		v.Reach("accepted")
	}
}

// Counter: counter accounts are replaced by the one used most often for the
// nearest text, in transactions of two postings with the account only, and
// the book is otherwise as it was.
func Counter() {
	v.MapOrder(0)
	pays := []string{"Shop", "Shoq", "Zzz"}
	near := func(a, b string) float64 {
		if a == b {
			return 1
		}
		if a[:2] == b[:2] {
			return 0.5
		}
		return 0
	}
	txn := func(day int, p string, kind int, c string) hk.T {
		a := v.Rat("amt", 1, 1000, 1)
		t := hk.T{Date: book.GetDate(2020, 1, day), Payee: p, Note: "n" + p}
		add := func(acct string, x *big.Rat) {
			t.Posts = append(t.Posts, hk.P{Acct: acct, CCY: "£", Note: "n" + acct, Amt: x})
		}
		switch kind {
		case 0:
			add("Bank", a)
			add(c, hk.Neg(a))
		case 1:
			add(c, a)
			add("Bank", hk.Neg(a))
		case 2:
			add("Cash", a)
			add(c, hk.Neg(a))
		case 3:
			add("Bank", a)
			add(c, hk.R(1, 1))
			add("Rest", hk.Neg(new(big.Rat).Add(a, hk.R(1, 1))))
		}
		return t
	}
	accts := []string{"Food", "Aims"}
	cnt := map[string]map[string]int{"Shop": {}, "Shoq": {}, "Zzz": {}}
	var ref, ts []hk.T
	for i := 0; i < v.Bound("transactions of the ledger", 2, 3); i++ {
		p, c, k := pays[v.Choice("payee", 3)], accts[v.Choice("counter", 2)], []int{0, 1, 2, 3}[v.Choice("kind", 4)]
		ref = append(ref, txn(i+1, p, k, c))
		if k < 2 {
			cnt[p][c]++
		}
	}
	for i := 0; i < v.Bound("transactions of the table", 1, 2); i++ {
		k := v.Choice("row kind", 4)
		ts = append(ts, txn(v.Int("day", 10+i, 10+10*(i+1)), pays[v.Choice("row payee", 3)], k, []string{"Misc", "Aaa", "Misc", "Aaa"}[k]))
	}
	ts = append(ts, hk.T{Date: book.GetDate(2020, 1, 20), Payee: "x", Posts: []hk.P{{Acct: "Food", CCY: "£", Amt: hk.R(5, 1)}, {Acct: "Cash", CCY: "£", Amt: hk.R(-5, 1)}}})
	rb, r1, _ := hk.Build(ref)
	b, r2, _ := hk.Build(ts)
	v.Assert(!r1 && !r2, "the books are accepted")
	before := hk.Snap(rb)
	b.ReclassifyByAccount(rb, "Bank", near)
	v.Assert(hk.Same(before, hk.Snap(rb)), "the ledger is not changed")
	best := func(p string) string {
		m := cnt[p]
		if m["Food"] == 0 && m["Aims"] == 0 {
			return ""
		}
		if m["Food"] > m["Aims"] {
			return "Food"
		}
		return "Aims" // of two used as often, the first by name
	}
	for i := range ts {
		if len(ts[i].Posts) != 2 || (ts[i].Posts[0].Acct != "Bank" && ts[i].Posts[1].Acct != "Bank") {
			continue
		}
		c := best(ts[i].Payee)
		if c == "" && ts[i].Payee == "Shop" {
			c = best("Shoq")
		} else if c == "" && ts[i].Payee == "Shoq" {
			c = best("Shop")
		}
		for j := range ts[i].Posts {
			if c != "" && ts[i].Posts[j].Acct != "Bank" {
				ts[i].Posts[j].Acct = c
			}
		}
	}
	hk.CheckBook(b, hk.Numbered(ts), "reclassified")
	v.Reach("end")
}

// Printed: what a script prints are comments of the ledger which is written.
func Printed() {
	v.MapOrder(0)
	v.PutFile("main.ledger", "2020/01/01 A\n  Bank  £1\n  X\n")
	msg := v.Str("message", 0, v.Bound("characters", 4, 6), "a2/\n =")
	script := "print('''" + msg + "''')\n"
	v.Capture()
	var out string
	var err error
	if v.Choice("command", 2) == 0 {
		v.PutFile("in.csv", "2020/01/02,B,5\n")
		out, err = imp("-a", "Bank", "-c", "Misc", "--format=csv", "--code="+script+code, "in.csv")
	} else {
		out, err = gen("--code=" + script + "add(date='2020/01/02', desc='B', amt=5, account='Bank', caccount='Misc', ccy='£')")
	}
	printed := v.Captured()
	v.Observe("printed", printed)
	v.Assert(err == nil, "a script which prints is accepted")
	rest := printed
	for i, l := range strings.Split(msg, "\n") {
		if i > 0 {
			v.Assert(strings.HasPrefix(rest, "\n"), "every line is printed")
			rest = strings.TrimPrefix(rest, "\n")
		}
		v.Assert(strings.HasPrefix(rest, "; "+l), "what a script prints is a comment")
		rest = strings.TrimPrefix(rest, "; "+l)
	}
	v.Assert(rest == "\n", "what a script prints is printed once")
	ts := read(printed + out)
	v.Assert(len(ts) == 1 && len(ts[0]) == 2 && ts[0].GetPayee() == "B", "what is written is what was added")
	if len(ts) == 1 {
		v.Assert(v.RatEq(post(ts[0], "Bank", "£"), big.NewRat(5, 1)), "what is written is what was added")
	}
	v.Reach("end")
}

// table reads a table of texts, independently of the reader under test, and
// says whether it is one: fields between delimiters, leading spaces left out,
// quotes around a field doubled inside it, empty lines left out, and as many
// fields in every row.
func table(s string, delim byte) ([][]string, bool) {
	s = strings.ReplaceAll(s, "\r\n", "\n")
	s = strings.TrimSuffix(s, "\r")
	var rows [][]string
	for i := 0; i < len(s); {
		if s[i] == '\n' {
			i++
			continue
		}
		var row []string
		for more := true; more; {
			for i < len(s) && delim != '\t' && (s[i] == ' ' || s[i] == '\r') {
				i++
			}
			field := ""
			more = false
			if i < len(s) && s[i] == '"' {
				i++
				for {
					if i >= len(s) {
						return nil, false
					}
					if s[i] != '"' {
						field += s[i : i+1]
						i++
					} else if i+1 < len(s) && s[i+1] == '"' {
						field += `"`
						i += 2
					} else {
						i++
						break
					}
				}
				if i < len(s) && s[i] != delim && s[i] != '\n' {
					return nil, false
				}
			} else {
				j := i
				for i < len(s) && s[i] != delim && s[i] != '\n' {
					if s[i] == '"' {
						return nil, false
					}
					i++
				}
				field = s[j:i]
			}
			row = append(row, field)
			if i < len(s) {
				more = s[i] == delim
				i++
			}
		}
		rows = append(rows, row)
		if len(row) != len(rows[0]) {
			return nil, false
		}
	}
	return rows, true
}

// Incomplete: a script which generates transactions says all there is of them.
func Incomplete() {
	v.MapOrder(0)
	v.PutFile("main.ledger", "2020/01/01 A\n  Bank  £1\n  X\n")
	args := []string{"date='2020/01/02'", "desc='p'", "amt=" + v.Str("amt", 1, 1, "123456789"), "ccy='£'", "account='A'", "caccount='B'"}
	left := v.Choice("left", 8)
	c := "add("
	for i, a := range args {
		if i != left && !(left == 7 && i > 2) {
			c += a + ", "
		}
	}
	out := &bytes.Buffer{}
	a := app.DefaultApp
	a.Ledger, a.Lang, a.Colour, a.BaseCCY, a.Output = "main.ledger", "en", false, "£", out
	root := &cobra.Command{Use: "goledger"}
	generate.Add(root, &a, map[string]*generate.Generate{"mine": {Code: c + ")"}, "other": {Code: "["}})
	line := []string{"generate", "mine"}
	if v.Choice("mine", 2) == 0 {
		line = []string{"generate", "--code=" + c + ")"}
	}
	cmd, rest, err := root.Find(line)
	v.Assert(err == nil && cmd.ParseFlags(rest) == nil, "a script can be run")
	err = cmd.RunE(cmd, cmd.Flags().Args())
	v.Observe("out", out.String())
	v.Assert((err == nil) == (left == 6), "a transaction is refused exactly if it is not complete")
	if err != nil {
		v.Assert(out.String() == "", "nothing is generated when refused")
		v.Reach("refused")
		return
	}
	ts := read(out.String())
	v.Assert(len(ts) == 1 && len(ts[0]) == 2 && ts[0][0].GetAccount() == "A" && ts[0][1].GetAccount() == "B", "a transaction is generated")
	v.Reach("accepted")
}

// Tables: a script sees the fields of a table as they are written.
func Tables() {
	v.MapOrder(0)
	d := []string{",", ";", "\t"}[v.Choice("delimiter", 3)]
	header := v.Choice("header", 2) == 1
	n := v.Bound("characters of a table", 4, 5)
	s := v.Str("text", 0, n, "a \"\n\r#"+d)
	switch v.Choice("around", 3) {
	case 1:
		s = "x" + d + "y\n" + s
	case 2:
		s = "x" + d + "\"" + s + "\"\n" + "é" + d + s
	}
	rows, ok := table(s, d[0])
	if header && ok && len(rows) == 0 {
		ok = false
	}
	got, err := script.GetReadCSV(d, header)(strings.NewReader(s))
	v.Assert((err == nil) == ok, "what is no table is refused")
	if !ok || err != nil {
		v.Reach("refused")
		return
	}
	list, isList := got.(*starlark.List)
	v.Assert(isList, "a table is a list of its rows")
	if header {
		hdr := rows[0]
		rows = rows[1:]
		v.Assert(list.Len() == len(rows), "a table has all of its rows")
		for i := range rows {
			dict, isDict := list.Index(i).(*starlark.Dict)
			v.Assert(isDict, "a row has the names of the header")
			want := map[string]string{}
			for j, h := range hdr {
				want[h] = rows[i][j]
			}
			v.Assert(dict.Len() == len(want), "a row has the names of the header")
			for h, f := range want {
				x, has, _ := dict.Get(starlark.String(h))
				t, isText := x.(starlark.String)
				v.Assert(has && isText && string(t) == f, "a field is as it is written")
			}
		}
		v.Reach("accepted")
		return
	}
	v.Assert(list.Len() == len(rows), "a table has all of its rows")
	for i := range rows {
		row, isRow := list.Index(i).(*starlark.List)
		v.Assert(isRow && row.Len() == len(rows[i]), "a row has all of its fields")
		for j := range rows[i] {
			t, isText := row.Index(j).(starlark.String)
			v.Assert(isText && string(t) == rows[i][j], "a field is as it is written")
		}
	}
	v.Reach("accepted")
}

// value is a value in JSON and whether a script sees it as it is.
func value(depth int) (string, func(x starlark.Value) bool) {
	is := func(text string) func(x starlark.Value) bool {
		return func(x starlark.Value) bool {
			t, ok := x.(starlark.String)
			return ok && string(t) == text
		}
	}
	num := func(f float64) func(x starlark.Value) bool {
		return func(x starlark.Value) bool {
			t, ok := x.(starlark.Float)
			return ok && float64(t) == f
		}
	}
	k := v.Choice("value", 10)
	if depth == 0 && k >= 8 {
		k = 0
	}
	switch k {
	case 1:
		return "true", func(x starlark.Value) bool { return x == starlark.True }
	case 2:
		return "false", func(x starlark.Value) bool { return x == starlark.False }
	case 3:
		s := v.Str("text", 0, 2, "a1-")
		return `"` + s + `"`, is(s)
	case 4:
		return `"\u00e9\"\\\n"`, is("é\"\\\n")
	case 5:
		f := v.Choice("number", 4)
		return []string{"0", "7", "-0.5", "12345678.25"}[f], num([]float64{0, 7, -0.5, 12345678.25}[f])
	case 6:
		return "[]", func(x starlark.Value) bool {
			l, ok := x.(*starlark.List)
			return ok && l.Len() == 0
		}
	case 7:
		return "{}", func(x starlark.Value) bool {
			l, ok := x.(*starlark.Dict)
			return ok && l.Len() == 0
		}
	case 8:
		a, x := value(depth - 1)
		b, y := value(depth - 1)
		return "[" + a + "," + b + "]", func(z starlark.Value) bool {
			l, ok := z.(*starlark.List)
			return ok && l.Len() == 2 && x(l.Index(0)) && y(l.Index(1))
		}
	case 9:
		a, x := value(depth - 1)
		b, y := value(depth - 1)
		return `{"k":` + a + `, "l" : ` + b + "}", func(z starlark.Value) bool {
			d, ok := z.(*starlark.Dict)
			n := 0
			for i, c := range []string{a, b} {
				// nothing is as if it were not written
				has := c != "null"
				w, found, _ := d.Get(starlark.String([]string{"k", "l"}[i]))
				if found != has || found && ![]func(starlark.Value) bool{x, y}[i](w) {
					return false
				}
				if has {
					n++
				}
			}
			return ok && d.Len() == n
		}
	}
	return "null", func(x starlark.Value) bool { return x == starlark.None }
}

// Values: a script sees the values of JSON as they are.
func Values() {
	v.MapOrder(0)
	text, same := value(v.Bound("values within values", 1, 2))
	got, err := script.ReadJSON(strings.NewReader(text + "\n"))
	v.Assert(err == nil, "a value of JSON is read")
	v.Assert(err == nil && same(got), "a script sees a value of JSON as it is")
	v.Reach("end")
}

// number reads a decimal number or a fraction.
func number(s string) (*big.Rat, bool) {
	digits := func(t string) bool {
		for i := 0; i < len(t); i++ {
			if t[i] < '0' || t[i] > '9' {
				return false
			}
		}
		return t != ""
	}
	if s != "" && (s[0] == '-' || s[0] == '+') {
		x, ok := number("0" + s[1:])
		if len(s) < 2 || strings.HasPrefix(s[1:], "e") || strings.HasPrefix(s[1:], "/") || s[1:] == "." || strings.HasPrefix(s[1:], ".e") || !ok {
			return nil, false
		}
		if s[0] == '-' {
			x.Neg(x)
		}
		return x, true
	}
	if i := strings.IndexByte(s, '/'); i >= 0 {
		if !digits(s[:i]) || !digits(s[i+1:]) {
			return nil, false
		}
		a, _ := new(big.Rat).SetString(strings.TrimLeft(s[:i], "0") + "/1")
		if strings.Trim(s[:i], "0") == "" {
			a = new(big.Rat)
		}
		if strings.Trim(s[i+1:], "0") == "" {
			return nil, false
		}
		b, _ := new(big.Rat).SetString(strings.TrimLeft(s[i+1:], "0") + "/1")
		return a.Quo(a, b), true
	}
	e := ""
	if i := strings.IndexByte(s, 'e'); i >= 0 {
		s, e = s[:i], s[i+1:]
		if !digits(strings.TrimPrefix(strings.TrimPrefix(e, "-"), "+")) || strings.HasPrefix(e, "-+") {
			return nil, false
		}
	}
	whole, frac := s, ""
	if i := strings.IndexByte(s, '.'); i >= 0 {
		whole, frac = s[:i], s[i+1:]
	}
	if whole+frac == "" || !digits(whole+frac) {
		return nil, false
	}
	x := new(big.Rat)
	for _, c := range whole + frac {
		x.Mul(x, big.NewRat(10, 1)).Add(x, big.NewRat(int64(c-'0'), 1))
	}
	p := -len(frac)
	if e != "" {
		k, _ := strconv.Atoi(e)
		p += k
	}
	for ; p > 0; p-- {
		x.Mul(x, big.NewRat(10, 1))
	}
	for ; p < 0; p++ {
		x.Mul(x, big.NewRat(1, 10))
	}
	return x, true
}

// Numbers: a text is the amount it says, or refused.
func Numbers() {
	v.MapOrder(0)
	s := ""
	for i := v.Choice("length", v.Bound("characters of an amount", 3, 4)+1); i > 0; i-- {
		s += string("01.-+e/a ,"[v.Choice("char", 10)])
	}
	want, ok := number(s)
	b := book.NewBookBuilder()
	kw := []starlark.Tuple{arg("date", starlark.String("2020/01/02")), arg("desc", starlark.String("p"))}
	second := v.Choice("second", 2) == 1
	first := 1
	if second {
		first = v.Choice("first", 2)
		kw = append(kw, arg("amt", starlark.MakeInt(first)), arg("amt2", starlark.String(s)), arg("account2", starlark.String("Fee")), arg("ccy2", starlark.String("USD")))
	} else {
		kw = append(kw, arg("amt", starlark.String(s)))
	}
	err := call(b, kw...)
	v.Assert((err == nil) == ok, "a text which is no number is refused")
	ts := b.Build().Transactions()
	if err != nil {
		v.Assert(len(ts) == 0, "a transaction which is refused is not added")
		v.Reach("refused")
		return
	}
	if !ok {
		return
	}
	v.Reach("accepted")
	if want.Sign() == 0 && (!second || first == 0) {
		v.Assert(len(ts) == 0, "an empty transaction is left out")
		return
	}
	v.Assert(len(ts) == 1, "a transaction is added")
	if len(ts) != 1 {
		return
	}
	acct, ccy := "Bank", "£"
	if second {
		acct, ccy = "Fee", "USD"
		if want.Sign() == 0 {
			v.Assert(len(ts[0]) == 2, "an empty posting is left out")
			return
		}
	}
	v.Assert(v.RatEq(post(ts[0], acct, ccy), want) && v.RatEq(post(ts[0], "Misc", ccy), new(big.Rat).Neg(want)), "an amount is what its text says")
}

// Many: many rows of several files against a long ledger.
func Many() {
	v.MapOrder(0)
	n := v.Bound("rows", 60, 200)
	d := v.Str("amt", 1, 1, digits)
	at := []int{1, n/2 + 2, n + 1}[v.Choice("at", 3)]
	dedup := v.Choice("dedup", 2) == 1
	day := func(i int) string { return "2020/0" + strconv.Itoa(i*5%9+1) + "/" + strconv.Itoa(i*7%19+10) }
	amt := func(i int) string {
		s := strconv.Itoa(i+1) + ".5"
		if i == at {
			s += d
		}
		return s
	}
	main := ""
	var files [2]string
	for i := n - 1; i >= 0; i-- {
		if i%3 == 0 {
			main += day(i) + " Row " + strconv.Itoa(i) + "\n  Bank  £1\n  Misc\n"
		}
		main += day(i+1) + " Other " + strconv.Itoa(i) + "\n  Bank  £1\n  Misc\n"
	}
	// the second file has every other row of the first, and more
	for i := 0; i < n; i++ {
		row := func(i int) string { return day(i) + ",Row " + strconv.Itoa(i) + "," + amt(i) + "\n" }
		files[0] += row(i)
		files[1] += row(i * 2)
	}
	v.PutFile("main.ledger", main)
	v.PutFile("a.csv", files[0])
	v.PutFile("b.csv", files[1])
	out, err := imp("-a", "Bank", "-c", "Misc", "--format=csv", "--code="+code, "--dedup="+[]string{"false", "true"}[b2i(dedup)], "a.csv", "b.csv")
	v.Assert(err == nil, "a table is imported")
	got := map[string]book.Transaction{}
	ts := read(out)
	for _, t := range ts {
		got[t.GetDate().String()+" "+t.GetPayee()] = t
	}
	want := 0
	for i := 0; i < 2*n; i++ {
		if i >= n && i%2 == 1 || dedup && i%3 == 0 && i < n {
			continue
		}
		want++
		t, ok := got[day(i)+" Row "+strconv.Itoa(i)]
		v.Assert(ok && len(t) == 2, "a row is imported exactly if the ledger does not have it")
		if !ok {
			continue
		}
		x, _ := new(big.Rat).SetString(amt(i))
		v.Assert(v.RatEq(post(t, "Bank", "£"), x) && v.RatEq(post(t, "Misc", "£"), x.Neg(x)), "a row keeps its amount exactly")
	}
	v.Assert(len(ts) == want, "nothing but the rows is imported")
	v.Reach("end")
}
