// Package hjson: what the commands write for other programs.
package hjson

import (
	"encoding/json"
	"math/big"
	"regexp"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/cmd/register"
	"github.com/mescanne/goledger/cmd/reports"
	"github.com/mescanne/goledger/zzverif/hcmd"
	"github.com/mescanne/goledger/zzverif/hk"
	"github.com/mescanne/goledger/zzverif/v"
	"github.com/spf13/cobra"
)

const digits = "0123456789"

// chars are characters which need care in JSON and HTML.
const chars = "aé<>&\"'\\/;"

func report(a *app.App, args ...string) error {
	return hcmd.Run(func(c *cobra.Command) {
		reports.Add(c, a, &reports.TransactionReport{Type: "Text", Combineby: "skip"})
	}, args...)
}

func reg(a *app.App, args ...string) error {
	return hcmd.Run(func(c *cobra.Command) {
		register.Add(c, a, &register.RegisterReport{Type: "Text"})
	}, args...)
}

type jpost struct {
	Account string  `json:"account"`
	CCY     string  `json:"ccy"`
	Amount  float64 `json:"amount"`
	Note    string  `json:"note"`
}

type jtrans struct {
	Date  string  `json:"date"`
	Payee string  `json:"payee"`
	Note  string  `json:"note"`
	Posts []jpost `json:"posts"`
}

// strict reads one JSON value with no unknown fields and nothing after it.
func strict(text string, x interface{}) error {
	d := json.NewDecoder(strings.NewReader(text))
	d.DisallowUnknownFields()
	if err := d.Decode(x); err != nil {
		return err
	}
	return json.Unmarshal([]byte(text), x)
}

// day is the date as JSON has it.
func day(d book.Date) string { return strings.ReplaceAll(d.String(), "/", "-") + "T00:00:00Z" }

// Names: reports hold whatever texts the ledger has.
func Names() {
	v.MapOrder(0)
	n := v.Bound("characters of a name", 2, 3)
	payee, tnote, pnote, ccy := "Shop", "", "", "£"
	switch v.Choice("field", 4) {
	case 0:
		payee = v.Str("payee", 0, n, chars)
	case 1:
		tnote = " ;" + v.Str("tnote", 0, n, chars)
	case 2:
		pnote = " ;" + v.Str("pnote", 0, n, chars)
	case 3:
		ccy = v.Str("ccy", 1, n, chars)
		if v.Choice("quoted", 2) == 1 {
			ccy = `"` + ccy + `"`
		}
	}
	v.PutFile("x.ledger", "2020/01/02 "+payee+tnote+"\n  A  "+ccy+"5.25"+pnote+"\n  B  "+ccy+"-5.25\n2020/01/03\n  A  £1\n  C\n")
	a, _ := hcmd.App()
	if _, err := a.LoadBook(); err != nil {
		v.Reach("refused")
		return
	}
	jsonReport("--jsonpretty=" + []string{"false", "true"}[v.Choice("pretty", 2)])
	v.Reach("accepted")
}

// jsonReport compares a report in JSON with the book it is made of.
func jsonReport(flag string, ops ...string) {
	jsonSum(flag, false, "", ops...)
}

// jsonSum is jsonReport for the balances of each transaction.
func jsonSum(flag string, sum bool, credit string, ops ...string) {
	a, out := hcmd.App()
	bk, err := a.LoadBook()
	v.Assert(err == nil && a.BookOps(bk, ops...) == nil, "the ledger is accepted")
	args := []string{"--type=Json", flag, "--credit=" + credit}
	if sum {
		args = append(args, "--sum")
	}
	err = report(a, append(args, ops...)...)
	v.Assert(err == nil, "a report can be written")
	v.Observe("text", out.String())
	var got []jtrans
	v.Assert(strict(out.String(), &got) == nil, "a report is one value of JSON")
	want := bk.Transactions()
	if sum {
		var re *regexp.Regexp
		if credit != "" {
			re = regexp.MustCompile(credit)
		}
		want = bk.Accumulate("£", ":", re, "")
	}
	v.Assert(len(got) == len(want), "a report holds every transaction")
	if len(got) != len(want) {
		return
	}
	for i, t := range want {
		g := got[i]
		v.Assert(g.Date == day(t.GetDate()) && g.Payee == t.GetPayee() && g.Note == t.GetTransactionNote(), "a report holds the date and texts of a transaction")
		v.Assert(len(g.Posts) == len(t), "a report holds every posting")
		if len(g.Posts) != len(t) {
			return
		}
		for j, p := range t {
			amt, _ := p.GetAmount().Float64()
			q := g.Posts[j]
			v.Assert(q.Account == p.GetAccount() && q.CCY == p.GetCCY() && q.Note == p.GetPostNote(), "a report holds the texts of a posting")
			v.Assert(q.Amount == amt, "a report holds the amount of a posting")
		}
	}
}

// number is the text of an amount with symbolic digits.
func number() string {
	return []string{"", "-"}[v.Choice("sign", 2)] + []string{"", "12345678"}[v.Choice("large", 2)] + v.Str("whole", 1, 1, digits) + "." + v.Str("frac", 1, 2, digits)
}

// Amounts: reports hold the amounts of a ledger and of operations on it.
func Amounts() {
	v.MapOrder(0)
	v.PutFile("x.ledger", "2020/01/02 Shop\n  A:x  £"+number()+"\n  B\n2020/02/03 Shop\n  A:x  £1.5\n  B  $3\n  C\n")
	ops := [][]string{nil, {"move=/^A:(.*)$/M:$1/0.5/"}, {"since=2021-01-01"}, {"asof=2020/01/10", "map=/^A:x$/B/"}}[v.Choice("ops", 4)]
	if k := v.Choice("sum", 3); k > 0 {
		jsonSum("--jsonpretty", true, []string{"", "^A"}[k-1], ops...)
	} else {
		jsonReport("--jsonpretty", ops...)
	}
	v.Reach("end")
}

type jentry struct {
	Date           string  `json:"date"`
	Account        string  `json:"account"`
	Payee          string  `json:"payee"`
	CounterAccount string  `json:"counterAccount"`
	Amount         float64 `json:"amount"`
	CCY            string  `json:"ccy"`
	Balance        float64 `json:"balance"`
	Note           string  `json:"note"`
	TNote          string  `json:"tnote"`
	BaseCCY        string
	BaseAmount     float64
	BaseSource     string
	BaseBalance    float64
}

// Registers: a register holds every entry with its balances.
func Registers() {
	v.MapOrder(0)
	payee, note, tnote, num := "Shop", "", "", "-1.25"
	switch v.Choice("field", 4) {
	case 0:
		payee = "P" + v.Str("payee", 0, 1, chars)
	case 3:
		num = number()
	case 1:
		note = " ;n" + v.Str("note", 0, 1, chars)
	case 2:
		tnote = " ;n" + v.Str("tnote", 0, 1, chars)
	}
	v.PutFile("x.ledger", "2020/01/02 "+payee+tnote+"\n  A:x  £"+num+note+"\n  B\n2020/02/03 Shop\n  A:x  $2.5\n  B  $3\n  C\nP 2020/02/01 00:00:00 $ £2\n")
	a, out := hcmd.App()
	bk, err := a.LoadBook()
	if err != nil {
		v.Reach("refused")
		return
	}
	args := []string{"--type=JSON", "--combined"}
	split, asc := v.Choice("split", 2) == 1, v.Choice("asc", 2) == 1
	if split {
		args = append(args, "--split")
	}
	if asc {
		args = append(args, "--asc")
	}
	want := bk.ExtractRegister("£", regexp.MustCompile("^A:"), split)
	err = reg(a, append(args, "^A:")...)
	v.Assert(err == nil, "a register can be written")
	v.Observe("text", out.String())
	var got []jentry
	v.Assert(strict(out.String(), &got) == nil, "a register is one value of JSON")
	v.Assert(len(got) == len(want), "a register holds every entry")
	if len(got) != len(want) {
		return
	}
	for i, e := range want {
		g := got[i]
		if !asc {
			g = got[len(got)-1-i]
		}
		amt, _ := e.Amount.Float64()
		bal, _ := e.Balance.Float64()
		bamt, _ := e.BaseAmount.Float64()
		bbal, _ := e.BaseBalance.Float64()
		v.Assert(g.Date == day(e.Date) && g.Account == e.Account && g.Payee == e.Payee && g.CounterAccount == e.CounterAccount && g.CCY == e.CCY, "a register holds the date, accounts and payee of an entry")
		v.Assert(g.Note == e.Note && g.TNote == e.TNote, "a register holds the notes of an entry")
		v.Assert(g.Amount == amt && g.Balance == bal, "a register holds the amount and balance of an entry")
		v.Assert(g.BaseCCY == "£" && g.BaseAmount == bamt && g.BaseBalance == bbal && g.BaseSource == e.BaseSource.String(), "a register holds the converted amount and balance of an entry")
	}
	v.Reach("end")
}

// Accounts: the list of accounts is the accounts which match.
func Accounts() {
	v.MapOrder(0)
	x, y := v.Choice("x", 2), v.Choice("y", 2)
	names := []string{"A:b", "A:b:c", "D&d", "E'e"}
	v.PutFile("x.ledger", "2020/01/02 p\n  "+names[v.Choice("a", 4)]+"  £"+v.Str("amt", 1, 1, digits)+"\n  "+names[v.Choice("b", 4)]+"\n2020/01/03 p\n  A:z  £1\n  E'd  £2\n  C\n2020/01/04 p\n  A:z  £-1\n  E'd  £-2\n  C\n")
	a, out := hcmd.App()
	a.All = x == 1
	bk, err := a.LoadBook()
	v.Assert(err == nil, "the ledger is accepted")
	re := []string{"^A", "d$"}[y]
	want := bk.Accounts(re, !a.All)
	v.Assert(hcmd.Accounts(a, "--json", re) == nil, "accounts can be listed")
	v.Observe("text", out.String())
	var got []string
	v.Assert(strict(out.String(), &got) == nil, "a list of accounts is one value of JSON")
	v.Assert(len(got) == len(want), "a list of accounts holds them all")
	for i := range got {
		if i < len(want) {
			v.Assert(got[i] == want[i], "a list of accounts holds them all")
		}
	}
	v.Reach("end")
}

// node is an element of a page, with its class, or a text.
type node struct {
	class string
	text  string
	kids  []*node
}

// page reads the body of a page of div elements.
func page(text string) (*node, bool) {
	const open, mid, end = "<div class=\"", "\">", "</div>"
	i := strings.Index(text, "<body>")
	j := strings.LastIndex(text, "</body></html>\n")
	if i < 0 || j < i || j+len("</body></html>\n") != len(text) {
		return nil, false
	}
	text = text[i+len("<body>") : j]
	root := &node{}
	stack := []*node{root}
	for text != "" {
		top := stack[len(stack)-1]
		i := strings.IndexByte(text, '<')
		if i < 0 {
			i = len(text)
		}
		if t := strings.TrimSpace(text[:i]); t != "" {
			top.kids = append(top.kids, &node{text: text[:i]})
		}
		text = text[i:]
		if strings.HasPrefix(text, open) {
			j := strings.Index(text, mid)
			if j < 0 {
				return nil, false
			}
			n := &node{class: text[len(open):j]}
			top.kids = append(top.kids, n)
			stack = append(stack, n)
			text = text[j+len(mid):]
		} else if strings.HasPrefix(text, end) {
			if len(stack) == 1 {
				return nil, false
			}
			stack = stack[:len(stack)-1]
			text = text[len(end):]
		} else if text != "" {
			return nil, false
		}
	}
	return root, len(stack) == 1
}

// plain is the text which a page shows for its characters; ok says whether it
// holds no character which needs to be written otherwise.
func plain(s string) (string, bool) {
	out := ""
	for s != "" {
		if s[0] == '&' {
			found := false
			for _, e := range [][2]string{{"&lt;", "<"}, {"&gt;", ">"}, {"&amp;", "&"}, {"&#34;", "\""}, {"&#39;", "'"}, {"&quot;", "\""}} {
				if strings.HasPrefix(s, e[0]) {
					out += e[1]
					s = s[len(e[0]):]
					found = true
					break
				}
			}
			if !found {
				return "", false
			}
			continue
		}
		if s[0] == '<' || s[0] == '>' {
			return "", false
		}
		out += s[:1]
		s = s[1:]
	}
	return out, true
}

// is says whether an element has a class and just a text.
func (n *node) is(class, text string) bool {
	if n.class != class || len(n.kids) > 1 {
		return false
	}
	if len(n.kids) == 0 {
		return text == ""
	}
	p, ok := plain(n.kids[0].text)
	return ok && n.kids[0].class == "" && p == text
}

// isAmount tells whether a box shows a currency and an amount, with at least two
// decimals and enough for all of it; thousands may be set apart.
func (n *node) isAmount(class, sym string, amt *big.Rat) bool {
	if n.class != class || len(n.kids) != 1 {
		return false
	}
	text, ok := plain(n.kids[0].text)
	if !ok || n.kids[0].class != "" || len(text) < len(sym) || text[:len(sym)] != sym {
		return false
	}
	text = strings.ReplaceAll(text[len(sym):], ",", "")
	i := strings.IndexByte(text, '.')
	if i < 0 {
		return false
	}
	dec := len(text) - i - 1
	exact, _ := new(big.Rat).SetString(text)
	return dec >= 2 && exact != nil && exact.Cmp(amt) == 0 && text == amt.FloatString(dec)
}

// posts collects the postings of a page in order, with how deep they are.
func (n *node) posts(level int, out *[]*node, levels *[]int) bool {
	for _, k := range n.kids {
		if k.class == "indentbox" {
			if !k.posts(level+1, out, levels) {
				return false
			}
		} else if strings.HasPrefix(k.class, "post ") {
			*out = append(*out, k)
			*levels = append(*levels, level)
		} else {
			return false
		}
	}
	return true
}

func htmlReport(a *app.App, trans []book.Transaction, text string) {
	root, ok := page(text)
	v.Assert(ok && root != nil, "a page is well formed")
	if root == nil {
		return
	}
	v.Assert(len(root.kids) == 1 && root.kids[0].class == "reports", "a page holds a list of reports")
	if len(root.kids) != 1 {
		return
	}
	reps := root.kids[0].kids
	v.Assert(len(reps) == len(trans), "a page holds every transaction")
	if len(reps) != len(trans) {
		return
	}
	for i, t := range trans {
		r := reps[i]
		ok := r.class == "report" && len(r.kids) == 2 && r.kids[0].class == "header" && r.kids[1].class == "posts"
		v.Assert(ok, "a transaction of a page has a header and postings")
		if !ok {
			return
		}
		h := r.kids[0].kids
		if t.GetPayee() == "" {
			v.Assert(len(h) == 1, "a header has a date and a payee if there is one")
		} else {
			v.Assert(len(h) == 2 && h[1].is("payee", t.GetPayee()), "a header has the payee")
		}
		v.Assert(len(h) > 0 && h[0].is("date", t.GetDate().String()), "a header has the date")
		var posts []*node
		var levels []int
		v.Assert(r.kids[1].posts(0, &posts, &levels), "a transaction of a page holds postings alone")
		v.Assert(len(posts) == len(t), "a page holds every posting")
		if len(posts) != len(t) {
			return
		}
		for j, p := range t {
			v.Assert(levels[j] == p.GetAccountLevel(), "a posting of a page is as deep as its account")
			k := posts[j].kids
			v.Assert(len(k) == 2 && k[0].is("account", p.GetAccountTerm()), "a posting of a page has the name of its account")
			sign := "pos"
			if p.GetAmount().Sign() < 0 {
				sign = "neg"
			}
			sym := p.GetCCY()
			if sym != "£" && sym != "$" && sym != "<&" {
				sym += " "
			}
			v.Assert(len(k) == 2 && k[1].isAmount("amount "+sign, sym, p.GetAmount()), "a posting of a page has its currency and amount")
		}
	}
}

// Pages: a page of HTML holds every transaction, with any texts.
func Pages() {
	v.MapOrder(0)
	n := v.Bound("characters of a name", 2, 3)
	payee, ccy, num := "Shop", "£", "5.25"
	switch v.Choice("field", 3) {
	case 0:
		payee = v.Str("payee", 0, n, chars)
	case 1:
		ccy = []string{"<&", "USD", `"a"`}[v.Choice("ccy", 3)]
	case 2:
		num = []string{"", "-"}[v.Choice("sign", 2)] + v.Str("whole", 1, 2, digits) + "." + v.Str("frac", 2, 2, digits)
	}
	v.PutFile("x.ledger", "2020/01/02 "+payee+"\n  A  "+ccy+num+"\n  B\n2020/02/03\n  A&'b  £1.25\n  C\n")
	a, out := hcmd.App()
	bk, err := a.LoadBook()
	if err != nil {
		v.Reach("refused")
		return
	}
	args := []string{"--type=HTML"}
	if v.Choice("css", 2) == 1 {
		args = append(args, "--htmlcss=div { a: b > c; }")
	}
	v.Assert(report(a, args...) == nil, "a page can be written")
	v.Observe("text", out.String())
	htmlReport(a, bk.Transactions(), out.String())
	v.Reach("accepted")
}

// Trees: a page of a summary is as deep as the tree of its accounts.
func Trees() {
	v.MapOrder(0)
	names := []string{"A", "A:b", "A:b:c", "D:e:f:g:h", "D:e", "A:b:c:d:e:f:g:h:i:j:k:l:m:n:o"}
	text := "2020/01/02 p\n"
	for i := 0; i < 3; i++ {
		if c := v.Choice("acct", 7); c < 6 {
			text += "  " + names[c] + "  £" + v.Str("amt", 1, 1, digits) + ".00\n"
		}
	}
	v.PutFile("x.ledger", text+"  Z:y  £1.25\n  C\n")
	a, out := hcmd.App()
	bk, err := a.LoadBook()
	v.Assert(err == nil, "the ledger is accepted")
	v.Assert(report(a, "--type=HTML", "--sum", "--splitby=monthly") == nil, "a page can be written")
	v.Observe("text", out.String())
	bk.SplitBy("monthly")
	htmlReport(a, bk.Accumulate("£", ":", nil, ""), out.String())
	v.Reach("end")
}

// Deep: accounts below accounts below accounts.
func Deep() {
	v.MapOrder(0)
	text, acct := "2020/01/02 p\n", "A"
	n := 1 + v.Choice("levels", 16)
	// first or last of the page
	sign := []string{"", "-"}[v.Choice("sign", 2)]
	for i := 0; i < n; i++ {
		text += "  " + acct + "  £" + sign + []string{"1.25", "3.50"}[i%2] + "\n"
		acct += ":" + string(rune('b'+i))
	}
	text += "  " + acct + "  £" + sign + v.Str("amt", 1, 1, "123") + ".00\n"
	v.PutFile("x.ledger", text+[]string{"", "  D  £1.00\n  D:e  £1.00\n"}[v.Choice("after", 2)]+"  Z\n")
	a, out := hcmd.App()
	bk, err := a.LoadBook()
	v.Assert(err == nil, "the ledger is accepted")
	v.Assert(report(a, "--type=HTML", "--sum", "--splitby=monthly") == nil, "a page can be written")
	v.Observe("text", out.String())
	bk.SplitBy("monthly")
	ts := bk.Accumulate("£", ":", nil, "")
	deep := 0
	for _, p := range ts[0] {
		if l := p.GetAccountLevel(); l > deep {
			deep = l
		}
	}
	v.Assert(deep >= n, "an account below others is as deep as they are many")
	htmlReport(a, ts, out.String())
	v.Reach("end")
}

// Many: reports of a long ledger.
func Many() {
	v.MapOrder(0)
	v.PutFile("x.ledger", hk.LargeText(v.Bound("transactions", 30, 60), []string{"£"}, v.Choice("at", 2)*9, v.Str("amt", 1, 1, "05")))
	switch v.Choice("type", 4) {
	case 0:
		jsonReport("--jsonpretty")
	case 1:
		a, out := hcmd.App()
		bk, err := a.LoadBook()
		v.Assert(err == nil, "the ledger is accepted")
		v.Assert(report(a, "--type=HTML") == nil, "a page can be written")
		htmlReport(a, bk.Transactions(), out.String())
	case 2:
		a, out := hcmd.App()
		bk, err := a.LoadBook()
		v.Assert(err == nil, "the ledger is accepted")
		v.Assert(report(a, "--type=HTML", "--sum", "--splitby=yearly") == nil, "a page can be written")
		bk.SplitBy("yearly")
		htmlReport(a, bk.Accumulate("£", ":", nil, ""), out.String())
	case 3:
		jsonSum("--jsonpretty", true, "^A")
	}
	v.Reach("end")
}
