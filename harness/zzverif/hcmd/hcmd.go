// Package hcmd: the register, report and account commands.
package hcmd

import (
	"bytes"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/accounts"
	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/cmd/currencies"
	"github.com/mescanne/goledger/cmd/register"
	"github.com/mescanne/goledger/cmd/reports"
	"github.com/mescanne/goledger/zzverif/hk"
	"github.com/mescanne/goledger/zzverif/v"
	"github.com/spf13/cobra"
)

const digits = "0123456789"

// App is an application on x.ledger without colours.
func App() (*app.App, *bytes.Buffer) {
	out := &bytes.Buffer{}
	a := app.DefaultApp
	a.Ledger, a.Lang, a.Colour, a.BaseCCY, a.Output = "x.ledger", "en", false, "£", out
	return &a, out
}

// Run runs a command with flags and arguments given as on the command line.
func Run(add func(*cobra.Command), args ...string) error {
	root := &cobra.Command{Use: "goledger"}
	add(root)
	c := root.Commands()[0]
	if err := c.ParseFlags(args); err != nil {
		return err
	}
	return c.RunE(c, c.Flags().Args())
}

func Register(a *app.App, args ...string) error {
	return Run(func(c *cobra.Command) { register.Add(c, a, &register.RegisterReport{Type: "Text"}) }, args...)
}

func Accounts(a *app.App, args ...string) error {
	return Run(func(c *cobra.Command) { accounts.Add(c, a) }, args...)
}

func Currencies(a *app.App, out *bytes.Buffer) error {
	return Run(func(c *cobra.Command) { c.SetOut(out); currencies.Add(c, a) })
}

func Report(a *app.App, args ...string) error {
	return Run(func(c *cobra.Command) {
		reports.Add(c, a, &reports.TransactionReport{Type: "Text", Combineby: "skip"})
	}, args...)
}

// nospace drops the spaces of a line, which differ with the width of columns.
// dec is the text of an amount of the ledger written by put.
func dec(ccy string, amt *big.Rat) string {
	if ccy == "£" {
		return amt.FloatString(2)
	}
	return amt.FloatString(0)
}

func nospace(s string) string { return strings.ReplaceAll(s, " ", "") }

// put writes a ledger of three dates with symbolic amounts.
func put() {
	a, b, c := v.Str("amt", 1, 1, digits), v.Str("amt", 1, 1, digits), v.Str("amt", 1, 1, digits)
	v.PutFile("x.ledger", "2020/01/31 p1\n  A:x  £1"+a+".25\n  B\n"+
		"2020/02/29 p2\n  A:x  £-"+b+"\n  AB:x  £1\n  C  £1"+c+"\n  B\n"+
		"2020/03/01 p3\n  C  $3\n  A:x  $-3\n  D  £-2\n  B\n"+
		"2020/02/29 p0\n  D  £2\n  C\n"+
		"P 2020/03/01 00:00:00 $ £2\n")
}

// select keeps the rows a register is asked for, without its own order.
func selected(rep book.RegistryReport, begin, asof string, count int, asc bool) []*book.RegistryEntry {
	var out []*book.RegistryEntry
	for _, e := range rep {
		if begin != "" && e.Date < book.DateFromString(begin) {
			continue
		}
		if asof != "" && e.Date >= book.DateFromString(asof) {
			continue
		}
		out = append(out, e)
	}
	if count > 0 && count < len(out) {
		out = out[:count]
	}
	if count < 0 && -count < len(out) {
		out = out[len(out)+count:]
	}
	if !asc {
		var rev []*book.RegistryEntry
		for _, e := range out {
			rev = append([]*book.RegistryEntry{e}, rev...)
		}
		out = rev
	}
	return out
}

// registers is the text of a register of the selected rows.
func registers(rows []*book.RegistryEntry, typ string, withAcct bool) string {
	var sb strings.Builder
	if typ == "CSV" {
		sb.WriteString("date,payee,account,counterAccount,ccy,amount,balance\n")
		for _, e := range rows {
			sb.WriteString(strings.Join([]string{e.Date.String(), e.Payee, e.Account, e.CounterAccount, e.CCY, e.Amount.FloatString(6), e.Balance.FloatString(6)}, ",") + "\n")
		}
		return sb.String()
	}
	sb.WriteString("DatePayee")
	if withAcct {
		sb.WriteString("Account")
	}
	sb.WriteString("CounteraccountAmountBalance\n")
	for _, e := range rows {
		sb.WriteString(e.Date.String() + e.Payee)
		if withAcct {
			sb.WriteString(e.Account)
		}
		sb.WriteString(e.CounterAccount + e.CCY + dec(e.CCY, e.Amount) + e.CCY + dec(e.CCY, e.Balance) + "\n")
	}
	return sb.String()
}

// Registers: the rows asked for by dates, count and order, for each account
// or for all together.
func Registers() {
	v.MapOrder(0)
	put()
	a, out := App()
	typ := []string{"Text", "CSV"}[v.Choice("type", 2)]
	// accounts without a balance in the end are shown only if all are asked for
	a.All = typ == "Text"
	// the last three leave nothing
	w := v.Choice("window", 7)
	begin := []string{"", "2020/02/29", "", "2020/02/29", "2020/03/02", "", "2020/03/01"}[w]
	asof := []string{"", "", "2020-03-01", "2020-03-01", "", "2020-01-31", "2020-02-29"}[w]
	k := v.Choice("count", 5)
	count := []int{0, 1, 9, -1, -9}[k]
	asc := v.Choice("asc", 2) == 1
	combined := v.Choice("combined", 2) == 1
	re := []string{"^A", "^B$", "^C|^D"}[v.Choice("regex", 3)]
	args := []string{"--type=" + typ, "--count=" + []string{"0", "1", "9", "-1", "-9"}[k]}
	if begin != "" {
		args = append(args, "--begin="+begin)
	}
	if asof != "" {
		args = append(args, "--asof", asof)
	}
	if asc {
		args = append(args, "--asc")
	}
	if combined {
		args = append(args, "--combined")
	}
	bk, err := a.LoadBook()
	v.Assert(err == nil, "the ledger is accepted")
	err = Register(a, append(args, re)...)
	v.Assert(err == nil, "a register can be asked for")
	got := out.String()
	v.Observe("text", got)
	want := ""
	if combined {
		want = registers(selected(bk.ExtractRegister("£", regexp.MustCompile(re), false), begin, asof, count, asc), typ, true)
	} else {
		balance := map[[2]string]*big.Rat{}
		for _, t := range bk.Transactions() {
			for _, p := range t {
				k := [2]string{p.GetAccount(), p.GetCCY()}
				if balance[k] == nil {
					balance[k] = new(big.Rat)
				}
				balance[k].Add(balance[k], p.GetAmount())
			}
		}
		for _, acct := range []string{"A:x", "AB:x", "B", "C", "D"} {
			has := a.All
			for _, ccy := range []string{"£", "$"} {
				if b := balance[[2]string{acct, ccy}]; b != nil && b.Sign() != 0 {
					has = true
				}
			}
			if has && regexp.MustCompile(re).MatchString(acct) {
				want += "\n" + acct + "\n" + registers(selected(bk.ExtractRegister("£", regexp.MustCompile("^"+acct+"$"), false), begin, asof, count, asc), typ, false)
			}
		}
	}
	if typ == "Text" {
		got = nospace(got)
	}
	v.Assert(got == want, "a register shows the rows asked for")
	v.Reach("end")
}

// Ops: operations, splits and conversion apply before the register.
func Ops() {
	v.MapOrder(0)
	put()
	a, out := App()
	a.Macros = map[string][]string{"m": {"map=/^A:(.*)$/M:$1/", "since=2020/02/01"}}
	bk, err := a.LoadBook()
	v.Assert(err == nil, "the ledger is accepted")
	var args, ops []string
	split, convert := v.Choice("split", 2) == 1, v.Choice("convert", 2) == 1
	if split {
		args = append(args, "--split")
	}
	if convert {
		args = append(args, "--convert")
		bk.MapAmount(func(d book.Date, ccy string) (*big.Rat, string) {
			if ccy == "$" {
				return big.NewRat(2, 1), "£"
			}
			return big.NewRat(1, 1), "£"
		})
	}
	switch v.Choice("ops", 3) {
	case 1:
		ops = []string{"m"}
	case 2:
		ops = []string{"combine=monthly", "map=/^A:x$/B:z/"}
	}
	v.Assert(a.BookOps(bk, ops...) == nil, "operations apply")
	err = Register(a, append(append(args, "--combined", "--asc", "--type=CSV"), append(ops, "^[AMB]")...)...)
	v.Assert(err == nil, "a register can be asked for")
	v.Observe("text", out.String())
	rep := bk.ExtractRegister("£", regexp.MustCompile("^[AMB]"), split)
	v.Assert(out.String() == registers(rep, "CSV", true), "operations, splits and conversion apply before the register")
	v.Reach("end")
}

// Odd: the register of an account with an odd name shows its postings only.
func Odd() {
	v.MapOrder(0)
	c := v.Choice("odd", 13)
	odd := []string{"A.B", "A+B", "A*B", "A?", "A(B)", "A(B", "A[B", "A]B", "A|B", "A^B", "A\\B", "A{2}", "A$"}[c]
	amt := v.Int("amt", 1, 9)
	n := string(rune('0' + amt))
	v.PutFile("x.ledger", "2020/01/31 p1\n  Z  £"+n+"\n  AxB  £2\n  C\n2020/02/01 p2\n  AA  £2\n  C\n2020/02/01 p2\n  A  £2\n  C\n")
	op := "map=/^Z$/" + strings.ReplaceAll(odd, "$", "$$") + "/"
	a, out := App()
	a.All = true
	bk, err := a.LoadBook()
	v.Assert(err == nil, "the ledger is accepted")
	v.Assert(a.BookOps(bk, op) == nil, "an account can be renamed")
	err = Register(a, "--type=CSV", op, "^A")
	v.Assert(err == nil, "a register can be asked for")
	v.Observe("text", out.String())
	accts := []string{odd, "AxB", "AA", "A"}
	sort.Strings(accts)
	want := ""
	for _, acct := range accts {
		want += "\n" + acct + "\ndate,payee,account,counterAccount,ccy,amount,balance\n"
		for _, t := range bk.Transactions() {
			for _, p := range t {
				if p.GetAccount() == acct {
					n := p.GetAmount().FloatString(6)
					want += p.GetDate().String() + "," + p.GetPayee() + "," + acct + ",C,£," + n + "," + n + "\n"
				}
			}
		}
	}
	v.Assert(out.String() == want, "a register of an account shows its postings and no others, whatever its name")
	v.Reach("end")
}

// Colours change nothing but the colours.
func Colours() {
	v.MapOrder(0)
	put()
	a, out := App()
	which := v.Choice("command", 4)
	do := func() error {
		switch which {
		case 0:
			return Register(a, "--asc", "--combined", "^A")
		case 1:
			return Register(a, "^A")
		case 2:
			return Accounts(a)
		}
		return Report(a, "--sum", "--splitby=none")
	}
	v.Assert(do() == nil, "the command runs")
	plain := out.String()
	out.Reset()
	a.Colour = true
	v.Assert(do() == nil, "the command runs with colours")
	text := out.String()
	v.Observe("text", text)
	parts := strings.Split(text, "\x1b[")
	var sb strings.Builder
	sb.WriteString(parts[0])
	for _, p := range parts[1:] {
		i := strings.Index(p, "m")
		sb.WriteString(p[i+1:])
	}
	v.Assert(sb.String() == plain, "colours change nothing else")
	v.Reach("end")
}

// Refusals: what is no date, count or regular expression is refused.
func Refusals() {
	v.MapOrder(0)
	put()
	a, out := App()
	bad := []string{"(", "[", "*", "a{2", "x\\"}[v.Choice("bad", 5)]
	_, reErr := regexp.Compile(bad)
	date, isDate := hk.ADate()
	isDate = isDate || date == ""
	var err error
	want := false
	switch v.Choice("what", 6) {
	case 0:
		err, want = Register(a, bad), reErr != nil
	case 1:
		err, want = Register(a, "--combined", bad), reErr != nil
	case 2:
		err, want = Register(a, "--begin="+date, "^A"), !isDate
	case 3:
		err, want = Register(a, "--combined", "--asof="+date, "^A"), !isDate
	case 4:
		err, want = Accounts(a, bad), reErr != nil
	case 5:
		a.BaseCCY = ""
		err, want = Register(a, "--convert", "^A"), true
	}
	v.Assert((err != nil) == want, "what is no date or regular expression is refused with an error")
	if want {
		v.Assert(out.String() == "", "nothing is shown when refused")
		v.Reach("refused")
	} else {
		v.Reach("accepted")
	}
}

// Accts: the accounts which match and have a balance in some currency.
func Accts() {
	v.MapOrder(0)
	x, y := v.Int("x", 0, 3), v.Int("y", 0, 3)
	a, out := App()
	n := func(i int) string { return string(rune('0' + i)) }
	v.PutFile("x.ledger", "2020/01/31 p1\n  A:x  £"+n(x)+"\n  A:y  $1\n  B  £1\n  A:z  £0\n  D  €5\n  C\n"+
		"2020/02/29 p2\n  A:x  £-"+n(y)+"\n  A:y  $-1\n  B  $"+n(x)+"\n  B  £-1\n  D  €-5\n  D  £1\n  D  £-1\n  C\n")
	a.All = v.Choice("all", 2) == 1
	re := []string{"", "^A", "x$", "^B$|^C"}[v.Choice("regex", 4)]
	var args []string
	if re != "" {
		args = append(args, re)
	}
	json := v.Choice("json", 2) == 1
	if json {
		args = append(args, "--json")
	}
	v.Assert(Accounts(a, args...) == nil, "accounts can be asked for")
	v.Observe("text", out.String())
	want := "Account\n"
	if json {
		want = ""
	}
	r := regexp.MustCompile(re)
	add := func(acct string, posted, balance bool) {
		if r.MatchString(acct) && posted && (a.All || balance) {
			want += acct + "\n"
		}
	}
	add("A:x", x != 0 || y != 0, x != y)
	add("A:y", true, false)
	add("B", true, x != 0)
	// C takes whatever is left
	add("C", true, x != y || x != 0)
	add("D", true, false)
	text := out.String()
	if json {
		text = strings.TrimSuffix(strings.TrimSuffix(strings.TrimPrefix(text, "["), "\n"), "]")
		text = strings.TrimPrefix(strings.NewReplacer("\"", "", ",", "").Replace(text), "\n")
	}
	v.Assert(strings.ReplaceAll(text, " ", "") == want, "the accounts listed are those which match and have a balance")
	v.Reach("end")
}

// reportText is the text of a report without spaces, and whether it can be
// shown: every account must be on the last transaction.
func reportText(trans []book.Transaction) (string, bool) {
	if len(trans) == 0 {
		return "", true
	}
	text := "Account"
	for _, t := range trans {
		text += t.GetDate().String()
	}
	text += "\n"
	shown := make([]int, len(trans))
	for i, p := range trans[len(trans)-1] {
		if i > 0 && p.GetAccountLevel() == 0 {
			text += "\n"
		}
		text += p.GetAccountTerm()
		for k, t := range trans {
			for _, q := range t {
				if q.GetAccount() == p.GetAccount() && q.GetAccountTerm() == p.GetAccountTerm() && q.GetCCY() == p.GetCCY() {
					text += q.GetCCY() + dec(q.GetCCY(), q.GetAmount())
					shown[k]++
				}
			}
		}
		text += "\n"
	}
	for k, t := range trans {
		if shown[k] != len(t) {
			return "", false
		}
	}
	return text, true
}

// Reports: a report shows every amount in its row and column.
func Reports() {
	v.MapOrder(0)
	put()
	a, out := App()
	split := []string{"skip", "none", "monthly", "yearly"}[v.Choice("splitby", 4)]
	sum, convert := v.Choice("sum", 2) == 1, v.Choice("convert", 2) == 1
	credit := []string{"", "^B"}[v.Choice("credit", 2)]
	hidden := []string{"", "C"}[v.Choice("hidden", 2)]
	ops := [][]string{nil, {"since=2020-02-01"}, {"asof=2019/01/01"}, {"asof=2020/02/01", "map=/^A:x$/B/"}}[v.Choice("ops", 4)]
	b, err := a.LoadBook()
	v.Assert(err == nil && a.BookOps(b, ops...) == nil, "the ledger is accepted")
	args := []string{"--splitby=" + split, "--credit=" + credit, "--hidden", hidden}
	if split != "skip" {
		b.SplitBy(split)
	}
	if convert {
		args = append(args, "--convert")
		b.MapAmount(func(d book.Date, ccy string) (*big.Rat, string) {
			if ccy == "$" {
				return big.NewRat(2, 1), "£"
			}
			return big.NewRat(1, 1), "£"
		})
	}
	var trans []book.Transaction
	if sum {
		args = append(args, "--sum")
		var re *regexp.Regexp
		if credit != "" {
			re = regexp.MustCompile(credit)
		}
		trans = b.Accumulate("£", ":", re, hidden)
	} else {
		trans = b.Transactions()
	}
	want, ok := reportText(trans)
	err = Report(a, append(args, ops...)...)
	v.Observe("text", out.String())
	v.Assert((err == nil) == ok, "a report is shown if its last transaction has all accounts, else refused")
	if ok {
		v.Assert(nospace(out.String()) == want, "a report shows every amount in its row and column")
		v.Reach("shown")
	} else {
		v.Reach("refused")
	}
}

// Ccys: every currency is listed with the most decimals it is written with.
func Ccys() {
	v.MapOrder(0)
	f, g := v.Str("frac", 0, 3, "05"), v.Str("frac", 0, 2, "05")
	f = []string{"", "00000"}[v.Choice("small", 2)] + f
	dot := func(s string) string {
		if s == "" {
			return ""
		}
		return "." + s
	}
	v.PutFile("x.ledger", "2020/01/31 p1\n  A:x  £1"+dot(f)+"\n  B\n2020/01/31 p1\n  A:x  £1"+dot(g)+"\n  B  -2 USD\n  C\n")
	a, out := App()
	v.MapOrder(1)
	v.Assert(Currencies(a, out) == nil, "currencies can be listed")
	v.Observe("text", out.String())
	// as many decimals as any amount needs
	need := func(s string) int { return len(strings.TrimRight(s, "0")) }
	n := need(f)
	if need(g) > n {
		n = need(g)
	}
	v.Assert(out.String() == "USD => 0 decimals\n£ => "+string(rune('0'+n))+" decimals\n", "every currency is listed with the decimals its amounts need")
	v.Reach("end")
}

// Renamed: renamed currencies keep the decimals their amounts need.
func Renamed() {
	v.MapOrder(v.Choice("order", 2))
	f, g := v.Str("frac", 0, 3, "05"), v.Str("frac", 0, 2, "05")
	v.PutFile("x.ledger", "2020/01/31 p1\n  A:x  £1."+f+"\n  B\n2020/01/31 p1\n  A:x  E 1."+g+"\n  B  -2 USD\n  C\n")
	a, _ := App()
	b, err := a.LoadBook()
	v.Assert(err == nil, "the ledger is accepted")
	need := func(s string) int { return len(strings.TrimRight(s, "0")) }
	want := map[string]int{"£": need(f), "E": need(g), "USD": 0}
	op := [][2]string{{"£", "E"}, {"E", "£"}, {"£", "USD"}, {"[£E]", "Y"}, {"^.$", "USD"}}[v.Choice("op", 5)]
	v.Assert(a.BookOps(b, "mapccy=/"+op[0]+"/"+op[1]+"/") == nil, "currencies can be renamed")
	re := regexp.MustCompile(op[0])
	got := b.GetCCYDecimals()
	names := map[string]int{}
	for _, c := range []string{"£", "E", "USD"} {
		n := c
		if re.MatchString(c) {
			n = op[1]
		}
		if names[n] < want[c] {
			names[n] = want[c]
		}
		if _, ok := names[n]; !ok {
			names[n] = 0
		}
	}
	v.Assert(len(got) == len(names), "renamed currencies are those of the book")
	for _, c := range []string{"£", "E", "USD", "Y"} {
		n, ok := names[c]
		d, ok2 := got[c]
		v.Assert(ok == ok2 && d == n, "a renamed currency has the decimals its amounts need")
	}
	v.Reach("end")
}

// Many: long lists of accounts and currencies, and long registers.
func Many() {
	v.MapOrder(0)
	a, out := App()
	n := v.Bound("accounts", 130, 300)
	x := v.Int("x", 0, 3)
	var accts, ccys []string
	text := "2020/01/31 p\n  A  £" + string(rune('0'+x)) + "\n"
	for i := 0; i < n; i++ {
		acct := []string{"B", "B:c", "Assets"}[i%3] + ":n" + strconv.Itoa(i*7%n)
		ccy := "U" + string(rune('a'+i%26)) + string(rune('a'+i/26))
		accts, ccys = append(accts, acct), append(ccys, ccy)
		text += "  " + acct + "  " + ccy + "1." + strings.Repeat("1", i%4+1) + "\n  Z  " + ccy + "-1." + strings.Repeat("1", i%4+1) + "\n"
	}
	v.PutFile("x.ledger", text+"  C\n")
	if x != 0 {
		accts = append(accts, "A", "C")
	}
	accts = append(accts, "Z")
	sort.Strings(accts)
	switch v.Choice("command", 3) {
	case 0:
		v.Assert(Accounts(a) == nil, "accounts can be asked for")
		v.Assert(nospace(out.String()) == "Account\n"+strings.Join(accts, "\n")+"\n", "the accounts listed are those which match and have a balance")
	case 1:
		v.Assert(Accounts(a, "--json") == nil, "accounts can be asked for")
		v.Assert(nospace(out.String()) == "[\n\""+strings.Join(accts, "\",\n\"")+"\"\n]", "the accounts listed are those which match and have a balance")
	case 2:
		var err error
		err = Currencies(a, out)
		v.Assert(err == nil, "currencies can be asked for")
		text := out.String()
		for i, c := range ccys {
			v.Assert(strings.Contains(text, c+" => "+strconv.Itoa(i%4+1)+" decimals\n"), "every currency is listed with its decimals")
		}
	}
	v.Reach("end")
}
