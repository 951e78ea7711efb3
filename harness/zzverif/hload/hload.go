// Package hload: reading ledger files.
package hload

import (
	"math/big"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/loader"
	"github.com/mescanne/goledger/zzverif/hk"
	"github.com/mescanne/goledger/zzverif/v"
)

// rec records what the parser hands over.
type rec struct {
	ev   []ev
	bals map[string]*big.Rat
}

type ev struct {
	kind byte // T(ransaction), P(osting), R(ate)
	date book.Date
	a, b string
	note string
	amt  *big.Rat
}

func (r *rec) NewTransaction(date book.Date, payee string, note string) {
	r.bals = map[string]*big.Rat{}
	r.ev = append(r.ev, ev{kind: 'T', date: date, a: payee, note: note})
}

func (r *rec) AddPosting(acct string, ccy string, amt *big.Rat, note string) {
	if r.bals == nil {
		r.bals = map[string]*big.Rat{}
	}
	if r.bals[ccy] == nil {
		r.bals[ccy] = new(big.Rat)
	}
	r.bals[ccy].Add(r.bals[ccy], amt)
	r.ev = append(r.ev, ev{kind: 'P', a: acct, b: ccy, amt: hk.Cp(amt), note: note})
}

func (r *rec) GetLastCCYBals() map[string]*big.Rat { return r.bals }

func (r *rec) AddPrice(date book.Date, unit string, ccy string, val *big.Rat) {
	r.ev = append(r.ev, ev{kind: 'R', date: date, a: unit, b: ccy, amt: hk.Cp(val)})
}

const digits = "0123456789"

// number is the value of a string of digits.
func number(s string) *big.Rat {
	n := new(big.Int)
	ten := big.NewInt(10)
	for i := 0; i < len(s); i++ {
		n.Mul(n, ten)
		n.Add(n, big.NewInt(int64(s[i]-'0')))
	}
	return new(big.Rat).SetInt(n)
}

func decimal(whole, frac string) *big.Rat {
	x := number(whole + frac)
	for range frac {
		x.Quo(x, big.NewRat(10, 1))
	}
	return x
}

func parse(text string) (*rec, error) {
	v.PutFile("x.ledger", text)
	r := &rec{}
	err := loader.ParseFile(r, "x.ledger")
	v.Observe("refused", err != nil)
	for _, e := range r.ev {
		v.Observe("ev", string([]byte{e.kind})+"|"+e.a+"|"+e.b+"|"+e.note)
		if e.amt != nil {
			v.Observe("amt", e.amt)
		} else {
			v.Observe("date", int(e.date))
		}
	}
	return r, err
}

func same(e, w ev) bool {
	return e.kind == w.kind && e.date == w.date && e.a == w.a && e.b == w.b && e.note == w.note &&
		((e.amt == nil) == (w.amt == nil))
}

func expect(r *rec, err error, want []ev, what string) {
	v.Assert(err == nil, what+" is accepted")
	v.Assert(len(r.ev) == len(want), what+" is read line by line")
	if err != nil || len(r.ev) != len(want) {
		return
	}
	for i, e := range r.ev {
		w := want[i]
		v.Assert(e.kind == w.kind, what+" is read line by line")
		v.Assert(e.date == w.date, what+" keeps the dates")
		v.Assert(e.a == w.a, what+" keeps payees, accounts and units")
		v.Assert(e.b == w.b, what+" keeps currencies")
		v.Assert(e.note == w.note, what+" keeps the notes")
		if w.amt != nil && e.amt != nil {
			v.Assert(v.RatEq(e.amt, w.amt), what+" keeps the amounts exactly")
		}
	}
}

// Amounts: a posting is read with its exact amount, however it is written.
func Amounts() {
	wl := []int{1, 3, 19, 24}
	whole := v.Str("whole", wl[0], wl[0], digits)
	if k := v.Choice("digits", len(wl)); k > 0 {
		whole = v.Str("wholes", wl[k], wl[k], digits)
	}
	frac, sep := "", ""
	fl := []int{0, 1, 2, 20}
	if k := v.Choice("decimals", len(fl)); k > 0 {
		frac, sep = v.Str("frac", fl[k], fl[k], digits), "."
	}
	amt := decimal(whole, frac)
	text := whole
	if len(whole) > 3 && v.Choice("commas", 2) == 1 {
		text = whole[:len(whole)-3] + "," + whole[len(whole)-3:]
	}
	num := text + sep + frac
	var ccy, s string
	neg := false
	switch v.Choice("form", 11) {
	case 10:
		ccy, s = "£", "-£-"+num
	case 0:
		ccy, s = "£", "£"+num
	case 1:
		ccy, s, neg = "£", "-£"+num, true
	case 2:
		ccy, s, neg = "£", "£-"+num, true
	case 3:
		ccy, s = "USD", "USD "+num
	case 4:
		ccy, s, neg = "USD", "USD -"+num, true
	case 5:
		ccy, s = "USD", num+" USD"
	case 6:
		ccy, s, neg = "USD", "-"+num+"USD", true
	case 7:
		ccy, s = "A 1", `"A 1"`+num
	case 8:
		ccy, s, neg = "A 1", "-"+num+` "A 1"`, true
	case 9:
		ccy, s = "€", num+"€"
	}
	if neg {
		amt.Neg(amt)
	}
	note := ""
	switch v.Choice("rest", 6) {
	case 5:
		s += " @ £-2.50"
	case 1:
		s, note = s+" ; n o", "n o"
	case 2:
		s += " @ £2.50"
	case 3:
		s, note = s+" @ 2.5 EUR ;x", "x"
	case 4:
		s += "  \r"
	}
	r, err := parse("2020/01/02 Shop\n  A  " + s + "\n  B\n")
	want := []ev{{kind: 'T', date: 20200102, a: "Shop"}, {kind: 'P', a: "A", b: ccy, amt: amt, note: note}}
	if !hk.Zero(amt) {
		want = append(want, ev{kind: 'P', a: "B", b: ccy, amt: hk.Neg(amt)})
	}
	expect(r, err, want, "an amount")
	v.Reach("end")
}

// Tails: what stands after a complete line is a note, or ignored if it is a
// balance assertion of a posting, or refused.
func Tails() {
	tail := v.Str("tail", 0, v.Bound("characters after a line", 3, 4), " \t;=DPa1\"-")
	end := []string{"", "\n"}[v.Choice("ends", 2)]
	rest := strings.TrimLeft(tail, " \t")
	note, ok := "", rest == "" || rest[0] == ';'
	if rest != "" && ok {
		note = strings.TrimLeft(rest[1:], " \t")
	}
	want := []ev{{kind: 'T', date: 20200102, a: "Shop"}, {kind: 'P', a: "A", b: "£", amt: number("5")}}
	var r *rec
	var err error
	switch v.Choice("line", 4) {
	case 0:
		r, err = parse("2020/01/02 Shop\n  A £5 " + tail + end)
		ok = ok || rest[0] == '='
		want[1].note = note
	case 1:
		r, err = parse("2020/01/02 Shop\n  A 5 £ @ £2 " + tail + end)
		ok = ok || rest[0] == '='
		want[1].note = note
	case 2:
		r, err = parse("P 2020/01/02 10:00:00 X £2 " + tail + end)
		want = []ev{{kind: 'R', date: 20200102, a: "X", b: "£", amt: number("2")}}
	case 3:
		r, err = parse("2020/01/02 Shop\n  A £5\n  B  " + tail + end)
		if rest != "" && !ok {
			// an amount, perhaps
			return
		}
		want = append(want, ev{kind: 'P', a: "B", b: "£", amt: big.NewRat(-5, 1), note: note})
	}
	if !ok {
		v.Assert(err != nil, "text after a complete line is refused")
		v.Reach("refused")
		return
	}
	expect(r, err, want, "a line")
	v.Reach("accepted")
}

// header reads the rest of a transaction's first line after the date, as
// documented by ledger: payee, then a note after a semicolon.
func header(s string) (payee, note string, ok bool) {
	s = strings.TrimLeft(s, " ")
	if strings.HasPrefix(s, "*") {
		s = strings.TrimLeft(s[1:], " ")
	}
	if strings.HasPrefix(s, `"`) {
		e := strings.IndexByte(s[1:], '"')
		if e < 0 {
			return "", "", false
		}
		payee, s = strings.TrimSpace(s[1:1+e]), strings.TrimLeft(s[e+2:], " ")
		if s == "" {
			return payee, "", true
		}
		if s[0] != ';' {
			return "", "", false
		}
		return payee, strings.TrimLeft(s[1:], " "), true
	}
	if i := strings.IndexByte(s, ';'); i >= 0 {
		return strings.TrimSpace(s[:i]), strings.TrimLeft(s[i+1:], " "), true
	}
	return strings.TrimSpace(s), "", true
}

// Headers: the line of a transaction gives its date, payee and note.
func Headers() {
	s := v.Str("header", 0, v.Bound("characters after the date", 4, 6), `aB1 ;"*'!-/[=@#%`)
	payee, note, ok := header(s)
	r, err := parse("2020/01/02 " + s + "\n")
	if !ok {
		v.Assert(err != nil, "a payee with an open quote or text after it is refused")
		v.Reach("refused")
		return
	}
	expect(r, err, []ev{{kind: 'T', date: 20200102, a: payee, note: note}}, "a transaction's line")
	v.Reach("accepted")
}

// Dates: the date of a transaction is the one written, and one the calendar
// does not have is refused.
func Dates() {
	y := v.Str("year", 1, 4, digits)
	m := v.Str("month", 1, 2, digits)
	d := v.Str("day", 1, 2, digits)
	if k := v.Choice("long", 4); k > 0 {
		x := v.Str("too long", []int{5, 3, 3}[k-1], []int{6, 4, 4}[k-1], digits)
		text := []string{x + "/1/2", "2020/" + x + "/2", "2020/1/" + x}[k-1]
		_, err := parse([]string{"", "P "}[v.Choice("kind", 2)] + text + " 10:20:30 X £2\n")
		v.Assert(err != nil, "a date with too many digits is refused")
		return
	}
	num := func(s string) int {
		n := 0
		for i := 0; i < len(s); i++ {
			n = n*10 + int(s[i]-'0')
		}
		return n
	}
	yy, mm, dd := num(y), num(m), num(d)
	// two days of the year suffice to see years, 20 years to see the days
	if len(y) == 4 {
		v.Assume(v.Or(yy >= 1999 && yy <= 2004, v.Or(yy == 1900, yy >= 9990)))
	}
	text := y + "/" + m + "/" + d
	kind := v.Choice("kind", 2)
	var r *rec
	var err error
	if kind == 0 {
		r, err = parse(text + " x\n")
	} else {
		r, err = parse("P " + text + " 10:20:30 X £2\n")
	}
	valid := v.And(v.And(yy >= 1, dd >= 1), v.And(mm >= 1, mm <= 12))
	if valid {
		l := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[mm-1]
		if mm == 2 && yy%4 == 0 && (yy%100 != 0 || yy%400 == 0) {
			l = 29
		}
		valid = dd <= l
	}
	if !valid {
		v.Assert(err != nil, "a date the calendar does not have is refused")
		v.Reach("refused")
		return
	}
	w := ev{kind: 'T', date: book.GetDate(yy, mm, dd), a: "x"}
	if kind == 1 {
		w = ev{kind: 'R', date: book.GetDate(yy, mm, dd), a: "X", b: "£", amt: big.NewRat(2, 1)}
	}
	expect(r, err, []ev{w}, "a date")
	v.Reach("accepted")
}

// Accounts: a posting's account is read as written, aliases replaced.
func Accounts() {
	const chars = "abzAZ09:_&'"
	acct := v.Str("acct", 1, v.Bound("characters of an account", 3, 4), chars)
	v.Assume(acct[0] != '&' && acct[0] != '\'')
	text, want := acct, acct
	switch v.Choice("form", 3) {
	case 1:
		text = "[" + acct + "]"
	case 2:
		text = "!" + acct
	}
	pre := ""
	if k := v.Choice("alias", 4); k > 0 {
		// an alias is replaced once, whatever other aliases there are
		pre = []string{"", "alias a = Asset:Long\n", "alias a = Asset:Long\nalias b = a\n", "alias b=a\nalias a=Asset:Long\n"}[k]
		if acct == "a" {
			want = "Asset:Long"
		} else if k > 1 && acct == "b" {
			want = "a"
		}
	}
	sep := []string{"  ", "\t", " "}[v.Choice("space", 3)]
	r, err := parse(pre + "2020/01/02 Shop\n" + sep + text + sep + "£5\n" + sep + "Other\n")
	expect(r, err, []ev{{kind: 'T', date: 20200102, a: "Shop"},
		{kind: 'P', a: want, b: "£", amt: big.NewRat(5, 1)},
		{kind: 'P', a: "Other", b: "£", amt: big.NewRat(-5, 1)}}, "an account")
	v.Reach("end")
}

// Prices: quoted prices are read as written.
func Prices() {
	whole := v.Str("whole", 1, 2, digits)
	frac := v.Str("frac", 1, 3, digits)
	unit := []string{"USD", "€", `"A 1"`}[v.Choice("unit", 3)]
	ccy := []string{"£", `"B 2"`, "EUR"}[v.Choice("ccy", 3)]
	q := func(s string) string { return strings.Trim(s, `"`) }
	num := whole + "." + frac
	var s string
	amt := decimal(whole, frac)
	switch v.Choice("form", 4) {
	case 3:
		s = ccy + "-" + num
		amt.Neg(amt)
	case 0:
		s = ccy + num
	case 1:
		s = num + " " + ccy
	case 2:
		s = ccy + " " + num
	}
	eol := []string{"\n", "", " \n", "\r\n", " ; n\n"}[v.Choice("eol", 5)]
	r, err := parse("P 2020/01/02 00:00:00 " + unit + " " + s + eol)
	expect(r, err, []ev{{kind: 'R', date: 20200102, a: q(unit), b: q(ccy), amt: amt}}, "a price")
	v.Reach("end")
}

// Implied: an amount left out is what the other postings leave open, in every
// currency.
func Implied() {
	n := v.Bound("postings before", 3, 4)
	text := "2020/01/02 Shop\n"
	want := []ev{{kind: 'T', date: 20200102, a: "Shop"}}
	ccys := []string{"£", "$"}
	open := map[string]*big.Rat{"£": new(big.Rat), "$": new(big.Rat)}
	for i := 0; i < n; i++ {
		d := v.Str("amt", 2, 2, digits)
		c := ccys[v.Choice("ccy", 2)]
		amt := decimal(d, "")
		sign := ""
		if v.Choice("neg", 2) == 1 {
			sign = "-"
			amt.Neg(amt)
		}
		text += "  A" + string(rune('0'+i)) + "  " + sign + c + d + "\n"
		want = append(want, ev{kind: 'P', a: "A" + string(rune('0'+i)), b: c, amt: amt})
		open[c].Add(open[c], amt)
	}
	text += "  Rest ; left\n2020/01/03 Next\n"
	r, err := parse(text)
	v.Assert(err == nil, "a posting without amount is accepted")
	if err != nil {
		return
	}
	// the order over the currencies is free
	got := map[string]*big.Rat{"£": new(big.Rat), "$": new(big.Rat)}
	v.Assert(len(r.ev) >= len(want)+1 && len(r.ev) <= len(want)+3, "a posting without amount becomes one posting per open currency")
	for i, e := range r.ev {
		switch {
		case i < len(want):
			v.Assert(same(e, want[i]) && (e.amt == nil || v.RatEq(e.amt, want[i].amt)), "the postings before stay as written")
		case i == len(r.ev)-1:
			v.Assert(e.kind == 'T' && e.a == "Next", "the next transaction is read")
		default:
			v.Assert(e.kind == 'P' && e.a == "Rest" && e.note == "left", "the open amounts go to the account and keep its note")
			v.Assert(!hk.Zero(e.amt), "nothing is added for a currency which balances")
			got[e.b].Add(got[e.b], e.amt)
		}
	}
	for _, c := range ccys {
		v.Assert(v.RatEq(got[c], hk.Neg(open[c])), "a posting without amount takes exactly what the others leave open")
	}
	v.Reach("end")
}

// Gaps: comments, blank lines and directives which are not supported may
// stand anywhere and change nothing.
func Gaps() {
	lines := []string{"2020/01/02 One ; n", "  A  £1 ; p", "  B", "P 2020/01/03 00:00:00 USD £2", "2020/01/04 Two", "  A  £3", "  B  £-3"}
	want := []ev{{kind: 'T', date: 20200102, a: "One", note: "n"}, {kind: 'P', a: "A", b: "£", amt: big.NewRat(1, 1), note: "p"},
		{kind: 'P', a: "B", b: "£", amt: big.NewRat(-1, 1)}, {kind: 'R', date: 20200103, a: "USD", b: "£", amt: big.NewRat(2, 1)},
		{kind: 'T', date: 20200104, a: "Two"}, {kind: 'P', a: "A", b: "£", amt: big.NewRat(3, 1)}, {kind: 'P', a: "B", b: "£", amt: big.NewRat(-3, 1)}}
	at := v.Choice("at", len(lines)+1)
	x := v.Str("text", 0, v.Bound("characters of a comment", 2, 3), "aP2= ;\"\t/")
	gap := []string{";" + x, "  ;" + x, "", " \t ", "= " + x, "D " + x, "\r"}[v.Choice("gap", 7)]
	text := ""
	for i, l := range lines {
		if i == at {
			text += gap + "\n"
		}
		text += l + "\n"
	}
	if at == len(lines) {
		text += gap
	}
	if v.Choice("no final newline", 2) == 1 {
		text = strings.TrimSuffix(text, "\n")
	}
	r, err := parse(text)
	expect(r, err, want, "a ledger with comments")
	v.Reach("end")
}

// Includes: an included file is read in place, relative to the file which
// includes it; aliases reach into included files and not out of them.
func Includes() {
	q := func(s string) string {
		if v.Choice("quoted", 2) == 1 {
			return `"` + s + `"`
		}
		return s
	}
	name := v.Str("alias", 1, 1, "abc")
	used := v.Str("used", 1, 1, "abc")
	inner := v.Str("inner", 1, 1, "abc")
	alias := "alias " + name + "=Asset:Main\n"
	t := func(day, acct string) string { return "2020/01/" + day + " T" + day + "\n  " + acct + "  £1\n  X\n" }
	before := v.Choice("before", 2) == 1
	main := "include " + q("sub/one.ledger") + "\n" + t("02", used)
	if before {
		main = alias + main
	} else {
		main = main[:strings.IndexByte(main, '\n')+1] + alias + t("02", used)
	}
	v.PutFile("sub/one.ledger", "include "+q("two.ledger")+"\nalias "+inner+" = Asset:Inner\n"+t("03", used))
	v.PutFile("sub/two.ledger", t("04", used))
	r, err := parse(main)
	res := func(outer, in bool) string {
		if in && used == inner {
			return "Asset:Inner"
		}
		if outer && used == name {
			return "Asset:Main"
		}
		return used
	}
	var want []ev
	add := func(day string, date book.Date, acct string) {
		want = append(want, ev{kind: 'T', date: date, a: "T" + day}, ev{kind: 'P', a: acct, b: "£", amt: big.NewRat(1, 1)}, ev{kind: 'P', a: "X", b: "£", amt: big.NewRat(-1, 1)})
	}
	add("04", 20200104, res(before, false))
	add("03", 20200103, res(before, true))
	add("02", 20200102, res(true, false))
	expect(r, err, want, "an included file")
	v.Reach("end")
}

// BadFiles: files which are missing or include themselves are refused.
func BadFiles() {
	var err error
	a := app.App{Ledger: "x.ledger"}
	switch v.Choice("case", 5) {
	case 0:
		a.Ledger = "missing.ledger"
	case 1:
		v.PutFile("x.ledger", "include missing.ledger\n")
	case 2:
		v.PutFile("x.ledger", "include x.ledger\n")
	case 3:
		v.PutFile("x.ledger", "include sub/y.ledger\n")
		v.PutFile("sub/y.ledger", "include ../x.ledger\n")
	case 4:
		v.PutFile("x.ledger", "include y.ledger\n2020/01/02 x\n")
		v.PutFile("y.ledger", "2020/01/02 x\n  A £1\n  B £-1\nfoo\n")
	}
	_, err = a.LoadBook()
	v.Assert(err != nil, "a ledger with a file that is missing, broken or includes itself is refused")
	v.Reach("end")
}

// AnyText: whatever stands in a ledger, it is refused or gives a balanced book
// with everything after it.
func AnyText() {
	junk := v.Str("junk", 1, v.Bound("characters of arbitrary text", 3, 4), "019AP-/.;:@\"!,=* \t\n\r\x00\xc2\xa3\xff")
	text := ""
	switch v.Choice("place", 9) {
	case 0:
		text = junk + "\n"
	case 1:
		text = "2020/01/0" + junk + "\n  A £1\n  B £-1\n"
	case 2:
		text = "2020/01/02 x" + junk + "\n  A £1\n  B £-1\n"
	case 3:
		text = "2020/01/02 x\n  A" + junk + " £1\n  B\n"
	case 4:
		text = "2020/01/02 x\n  A £" + junk + "\n  B £-1\n"
	case 5:
		text = "2020/01/02 x\n  A £1" + junk + "\n  B £-1\n"
	case 6:
		text = "2020/01/02 x\n  A £1\n  B " + junk + "\n"
	case 7:
		text = "P 2020/01/02 00:00:00 " + junk + " £1\n"
	case 8:
		text = "alias " + junk + "= B\n"
	}
	v.PutFile("x.ledger", text+"2020/02/03 Last\n  Asset:Last  £7\n  Other:Last  £-7\n")
	b, err := (&app.App{Ledger: "x.ledger"}).LoadBook()
	v.Observe("refused", err != nil)
	if err != nil {
		v.Reach("refused")
		return
	}
	ts := b.Transactions()
	hk.Balanced(b, "a ledger which is accepted balances")
	for _, t := range ts {
		v.Assert(t.GetDate().IsValid(), "dates of an accepted ledger are dates")
	}
	v.Assert(len(ts) > 0, "nothing after odd text is lost")
	if len(ts) > 0 {
		l := ts[len(ts)-1]
		v.Assert(l.GetDate() == 20200203 && l.GetPayee() == "Last" && len(l) == 2 && l[0].GetAccount() == "Asset:Last" && l[1].GetAccount() == "Other:Last" && l[0].GetAmount().Cmp(big.NewRat(7, 1)) == 0, "nothing after odd text is lost")
	}
	v.Reach("accepted")
}

// Written: a text of digits, points, commas and signs is read as the number it
// is, or refused if it is none.
func Written() {
	s := v.Str("number", 1, v.Bound("characters of a number", 4, 6), "07.,-")
	points, nd, odd := 0, 0, false
	whole, frac := "", ""
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '.':
			points++
		case c == '-':
			odd = odd || i > 0
		case c == ',':
		default:
			nd++
			if points == 0 {
				whole += s[i : i+1]
			} else {
				frac += s[i : i+1]
			}
		}
	}
	bad := odd || points > 1 || nd == 0
	plain := !bad && strings.IndexByte(s, ',') < 0 && whole != "" && (points == 0 || frac != "")
	amt := decimal(whole, frac)
	if s[0] == '-' {
		amt.Neg(amt)
	}
	place := v.Choice("place", 3)
	text := "2020/01/02 x\n  A  £" + s + "\n  B\n"
	switch place {
	case 1:
		text = "2020/01/02 x\n  A  " + s + " £\n  B\n"
	case 2:
		text = "P 2020/01/02 00:00:00 EUR £" + s + "\n"
	}
	// a sign of the posting and one of its amount
	v.Assume(place != 1 || !strings.HasPrefix(s, "--"))
	// a comma may belong to the currency
	v.Assume(s[0] != ',')
	r, err := parse(text)
	if place == 2 && !bad && amt.Sign() <= 0 {
		// no price
		v.Reach("price")
		return
	}
	v.Assert(!bad || err != nil, "a text which is no number is refused")
	v.Assert(!plain || err == nil, "a number is accepted")
	if err != nil {
		v.Reach("refused")
		return
	}
	ok := false
	for _, e := range r.ev {
		if e.amt != nil && (e.kind == 'R' || e.a == "A") {
			ok = e.amt.Cmp(amt) == 0
			break
		}
	}
	v.Assert(ok, "a number is read as its digits")
	v.Reach("accepted")
}

// Incomplete: lines which leave out something they need are refused.
func Incomplete() {
	d := v.Str("amt", 1, 1, digits)
	ccy := []string{"£", "USD", `"A 1"`}[v.Choice("ccy", 3)]
	post := []string{"  £" + d, "  A  " + ccy, "  A  -" + ccy, "  A  " + ccy + " ; " + d, "  A  " + d, "  A  -" + d + " ; x", "  A " + ccy + d + " B"}
	price := []string{"P 2020/01/02 00:00:00 " + ccy, "P 2020/01/02 00:00:00 " + ccy + " " + d, "P 2020/01/02 00:00:00 " + ccy + " £", "P 2020/01/02 00:00:00 " + d + " " + ccy,
		"P 2020/01/02 " + ccy + " £" + d, "P 00:00:00 " + ccy + " £" + d, "P"}
	if k := v.Choice("line", len(post)+len(price)); k < len(post) {
		_, err := parse("2020/01/02 Shop\n" + post[k] + "\n  B\n")
		zero := d == "0" && (k == 4 || k == 5)
		v.Assert(zero || err != nil, "a posting without account, currency or amount is refused")
	} else {
		_, err := parse(price[k-len(post)] + "\n")
		v.Assert(err != nil, "a price without date, unit, currency or amount is refused")
	}
	v.Reach("end")
}

// Unbalanced: a ledger file is refused exactly when a transaction in it, the
// last one included, does not balance in every currency.
func Unbalanced() {
	text := ""
	ok := true
	ccys := []string{"£", "$"}
	n := v.Bound("postings per transaction", 2, 3)
	for t := 0; t < 2; t++ {
		text += "2020/01/0" + string(rune('2'+t)) + " T\n"
		sums := []*big.Rat{new(big.Rat), new(big.Rat)}
		for i := 0; i < n; i++ {
			d := v.Str("amt", 2, 2, digits)
			c := v.Choice("ccy", 2)
			amt := decimal(d[:1], d[1:])
			sign := ""
			if i > 0 {
				sign = "-"
				amt.Neg(amt)
			}
			text += "  A" + string(rune('0'+i)) + "  " + sign + ccys[c] + d[:1] + "." + d[1:] + "\n"
			sums[c].Add(sums[c], amt)
		}
		ok = ok && hk.Zero(sums[0]) && hk.Zero(sums[1])
	}
	v.PutFile("x.ledger", text)
	b, err := (&app.App{Ledger: "x.ledger"}).LoadBook()
	v.Observe("refused", err != nil)
	v.Assert((err == nil) == ok, "a ledger file is accepted exactly when all its transactions balance")
	if err == nil {
		hk.Balanced(b, "a ledger which is accepted balances")
		v.Reach("accepted")
	} else {
		v.Reach("refused")
	}
}

// Long: long lines, names and files are read to their end.
func Long() {
	v.MapOrder(0)
	n := []int{1000, 5000, v.Bound("length", 70000, 200000)}[v.Choice("length", 3)]
	long := strings.Repeat("abcdefghi ", n/10-1) + "abcdefghij"
	d := v.Str("amt", 1, 1, digits)
	payee, note, acct, pnote, num, before := "p", "t", "A", "n", d+".5", ""
	switch v.Choice("what", 8) {
	case 0:
		before = "; " + long + "\n"
	case 1:
		payee = long
	case 2:
		note = long
	case 3:
		acct = strings.ReplaceAll(long, " ", ":")
	case 4:
		pnote = long
	case 5:
		num = d + strings.Repeat("1234567890", 30) + "." + strings.Repeat("0987654321", 30)
	case 6:
		before = strings.Repeat("; c\n\n", n/5)
	case 7:
		before = strings.Repeat("P 2020/01/01 00:00:00 U £2\n", n/100)
	}
	r, err := parse(before + "2020/01/02 " + payee + " ; " + note + "\n  " + acct + "  £" + num + " ; " + pnote + "\n  B\n")
	v.Assert(err == nil, "a long ledger is read")
	var got []ev
	prices := 0
	for _, e := range r.ev {
		if e.kind == 'R' {
			prices++
		} else {
			got = append(got, e)
		}
	}
	v.Assert(prices == strings.Count(before, "P "), "every price is read")
	parts := strings.Split(num, ".")
	x := decimal(parts[0], parts[1])
	want := []ev{{kind: 'T', date: 20200102, a: payee, note: note}, {kind: 'P', a: acct, b: "£", amt: x, note: pnote}, {kind: 'P', a: "B", b: "£", amt: hk.Neg(x)}}
	v.Assert(len(got) == len(want), "a long ledger is read to its end")
	if len(got) != len(want) {
		return
	}
	for i := range want {
		v.Assert(same(got[i], want[i]), "a long ledger is read as it is written")
		if want[i].amt != nil {
			v.Assert(v.RatEq(got[i].amt, want[i].amt), "a long number is read exactly")
		}
	}
	v.Reach("end")
}
