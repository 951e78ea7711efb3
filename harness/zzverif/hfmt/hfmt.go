// Package hfmt: amounts and columns as they are shown.
package hfmt

import (
	"bytes"
	"math/big"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/zzverif/v"
)

const digits = "0123456789"

func printer(lang string, colour bool, decs map[string]int) (*app.BookPrinter, *bytes.Buffer) {
	out := &bytes.Buffer{}
	a := app.DefaultApp
	a.Lang, a.Colour, a.Output = lang, colour, out
	return a.NewBookPrinter(decs), out
}

// group is a number in the digits and separators of a language.
func group(neg bool, whole, frac, sep, point string) string {
	whole = strings.TrimLeft(whole[:len(whole)-1], "0") + whole[len(whole)-1:]
	var sb strings.Builder
	if neg {
		sb.WriteString("-")
	}
	for i := range whole {
		if i > 0 && (len(whole)-i)%3 == 0 {
			sb.WriteString(sep)
		}
		sb.WriteByte(whole[i])
	}
	if frac != "" {
		sb.WriteString(point + frac)
	}
	return sb.String()
}

// Numbers: an amount is shown exactly, with the decimals of its currency and
// in the language of the user.
func Numbers() {
	v.MapOrder(0)
	lang := v.Choice("lang", 5)
	dec := []int{0, 1, 2, 3, 8}[v.Choice("decimals", 5)]
	n := v.Bound("digits before the point", 5, 7)
	whole := v.Str("whole", 1, n, digits)
	if dec <= 2 && v.Choice("large", 2) == 1 {
		// as many digits as are exact
		whole = "98765432109876"[:15-n-dec] + whole
	}
	frac := v.Str("frac", dec, dec, digits)
	neg := v.Choice("negative", 2) == 1
	text := whole + "." + frac
	if dec == 0 {
		text = whole
	}
	var x big.Rat
	x.SetString(text)
	zero := x.Sign() == 0
	if neg {
		x.Neg(&x)
	}
	decs := map[string]int{"£": dec, "USD": dec}
	if dec == 2 && v.Choice("known", 2) == 0 {
		// a currency nothing is known of has two decimals
		decs = map[string]int{}
	}
	b, _ := printer([]string{"en", "de", "fr", "nl", "xx"}[lang], false, decs)
	sep := []string{",", ".", "\u00a0", ".", ","}[lang]
	point := []string{".", ",", ",", ",", "."}[lang]
	want := group(neg && !zero, whole, frac, sep, point)
	got := b.FormatNumber("£", &x)
	v.Observe("got", got)
	v.Assert(got == want, "an amount is shown exactly")
	v.Assert(b.FormatSimpleMoney("£", &x) == "£"+want && b.FormatSimpleMoney("USD", &x) == "USD "+want, "an amount is shown with its currency")
	m := b.FormatMoney("£", &x, 30)
	v.Assert(m == "£"+strings.Repeat(" ", 29-utf8.RuneCountInString(want))+want, "an amount is shown at the right of its column")
	v.Reach("end")
}

// Rounded: an amount with more decimals than are shown is rounded to the
// nearest.
func Rounded() {
	dec := v.Choice("decimals", 3)
	m := int64(v.Bound("largest amount", 30, 300))
	x := big.NewRat(1, 3)
	x.Mul(x, v.Rat("amount", int(-m), int(m), 1))
	b, _ := printer("en", false, map[string]int{"£": dec})
	got := b.FormatNumber("£", x)
	v.Observe("got", got)
	var y big.Rat
	_, ok := y.SetString(strings.ReplaceAll(got, ",", ""))
	v.Assert(ok, "an amount is shown as a number")
	d := new(big.Rat).Sub(x, &y)
	half := big.NewRat(1, 2)
	for i := 0; i < dec; i++ {
		half.Quo(half, big.NewRat(10, 1))
	}
	v.Assert(d.Cmp(half) <= 0 && d.Cmp(new(big.Rat).Neg(half)) >= 0, "an amount is rounded to the nearest")
	v.Reach("end")
}

// Exact: amounts for files are exact and the same in every language.
func Exact() {
	v.MapOrder(0)
	dec := v.Choice("decimals", 4)
	whole := []string{"", "98765432109876543210"}[v.Choice("large", 2)] + v.Str("whole", 1, v.Bound("free digits before the point", 1, 2), digits)
	small := []string{"", "000000"}[v.Choice("small", 2)] + v.Str("frac", 2, v.Bound("free digits after the point", 2, 3), digits)
	var x big.Rat
	x.SetString(whole + "." + small)
	neg := v.Choice("negative", 2) == 1 && x.Sign() != 0
	if neg {
		x.Neg(&x)
	}
	sign := ""
	if neg {
		sign = "-"
	}
	whole = strings.TrimLeft(whole[:len(whole)-1], "0") + whole[len(whole)-1:]
	pad := func(min int) string {
		f := strings.TrimRight(small, "0")
		for len(f) < min {
			f += "0"
		}
		if f != "" {
			f = "." + f
		}
		return sign + whole + f
	}
	b, _ := printer([]string{"en", "de"}[v.Choice("lang", 2)], true, map[string]int{"£": dec})
	got := b.FormatExact("£", &x)
	v.Observe("got", got)
	v.Assert(got == pad(dec), "an amount for a file is exact, with at least the decimals of its currency")
	v.Assert(b.FormatExact("?", &x) == pad(2), "an amount of a currency nothing is known of is exact")
	got = app.FormatDecimal(&x)
	v.Observe("got", got)
	v.Assert(got == pad(6), "an amount for a table is exact, with at least six decimals")
	v.Reach("end")
}

// visible lists the characters of a text which take up space.
func visible(s string) []string {
	var out []string
	esc := false
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		c := s[i : i+w]
		i += w
		switch {
		case esc:
			esc = r != 'm'
		case r == '\x1b':
			esc = true
		case r == '\t':
			out = append(out, " ")
		case unicode.IsPrint(r):
			if r == utf8.RuneError && w == 1 {
				c = "\ufffd"
			}
			out = append(out, c)
		}
	}
	return out
}

const text = "aé€\x1b[m\t\x01 \xff"

// Padded: a text takes exactly the width it is given.
func Padded() {
	n := v.Bound("bytes of a text", 3, 4)
	// a character in the middle which may not print, or not alone
	mid := []string{"", "\u00ad", "\u200b", "e\u0301"}[v.Choice("middle", 4)]
	if mid != "" {
		n -= 2
	}
	s := v.Str("text", 0, n, text)
	s = s[:len(s)/2] + mid + s[len(s)/2:]
	max := v.Choice("width", 6)
	left := v.Choice("left", 2) == 1
	got := app.PadString(s, max, left)
	v.Observe("got", got)
	vis := visible(s)
	v.Assert(app.Length(s) == len(vis), "the length of a text counts the characters which are seen")
	want := strings.Join(vis, "")
	if len(vis) > max {
		want = strings.Join(vis[:max], "")
	}
	if n := max - len(vis); n > 0 {
		if left {
			want += strings.Repeat(" ", n)
		} else {
			want = strings.Repeat(" ", n) + want
		}
	}
	open := strings.LastIndex(s, "\x1b") > strings.LastIndex(s, "m")
	if open && left {
		// a colour which never ends hides what follows
		v.Reach("open")
		return
	}
	v.Assert(strings.Join(visible(got), "") == want, "a text is cut or filled up to its width")
	v.Assert(strings.Count(got, "\x1b") == strings.Count(s, "\x1b"), "colours are kept")
	v.Reach("end")
}

// Columns: columns line up whatever their texts.
func Columns() {
	v.MapOrder(0)
	b, out := printer("en", v.Choice("colour", 2) == 1, map[string]int{"£": 2, "USD": 2})
	amt := func() *big.Rat { return v.Rat("amt", -1299999, 1299999, 100) }
	n := v.Bound("bytes of a text", 2, 4)
	// a text of bytes would be another character; only whole ones here
	s, t := v.Str("left", 0, n, "ab "), v.Str("right", 0, 1, "ab ")
	x := amt()
	ccy := []string{"£", "USD"}[v.Choice("ccy", 2)]
	rows := [][]app.ColumnValue{
		{app.ColumnString("é"), app.ColumnRightString(b.Ansi(app.UL, t)), b.GetColumnMoney("£", big.NewRat(12345, 100))},
		nil,
		{app.ColumnString(s), app.ColumnRightString("ab"), b.GetColumnMoney(ccy, x)},
	}
	b.PrintColumns(rows, []bool{false, true, false})
	v.Observe("out", out.String())
	lines := strings.Split(out.String(), "\n")
	v.Assert(len(lines) == 4 && lines[1] == "" && lines[3] == "", "there is a line for every row")
	if len(lines) != 4 {
		return
	}
	wide := 1
	if len(s) > wide {
		wide = len(s)
	}
	num := b.FormatNumber(ccy, x)
	money := 7
	if l := len(num) + utf8.RuneCountInString(b.FormatSymbol(ccy)); l > money {
		money = l
	}
	pad := func(s string, n int) string { return strings.Repeat(" ", n-utf8.RuneCountInString(s)) }
	cell := func(sym, num string) string {
		return sym + strings.Repeat(" ", money-utf8.RuneCountInString(sym+num)) + num
	}
	v.Assert(strings.Join(visible(lines[0]), "") == "é"+pad("é", wide)+" "+pad(t, 2)+t+" "+cell("£", "123.45"), "columns line up")
	v.Assert(strings.Join(visible(lines[2]), "") == s+pad(s, wide)+" ab "+cell(b.FormatSymbol(ccy), num), "columns line up")
	v.Reach("end")
}

// Lists: columns joined into one line up too.
func Lists() {
	a := []string{v.Str("a", 0, 2, "ab"), v.Str("a", 0, 2, "ab")}
	c := []string{"\x1b[0;34mxyz\x1b[0m", v.Str("c", 0, 2, "ab")}
	max := v.Choice("max", 4)
	got, err := app.Combine([][]string{a, c}, max)
	v.Assert(err == nil && len(got) == 2, "columns of the same length join")
	if err != nil || len(got) != 2 {
		return
	}
	w := 3
	if max > 0 && max < w {
		w = max
	}
	cut := func(s string) string {
		if len(s) > w {
			s = s[:w]
		}
		return strings.Repeat(" ", w-len(s)) + s
	}
	v.Assert(strings.Join(visible(got[0]), "") == cut(a[0])+" "+cut("xyz") && got[1] == cut(a[1])+" "+cut(c[1]), "joined columns line up")
	_, err = app.Combine([][]string{a, c[:1]}, max)
	v.Assert(err != nil, "columns of different lengths do not join")
	v.Reach("end")
}

// Terminal: on a terminal which is too narrow the columns which may shrink do,
// in proportion, and the lines fit.
func Terminal() {
	v.MapOrder(0)
	tw := v.Int("terminal width", 9, v.Bound("widest terminal", 30, 36))
	v.Terminal(tw, v.Int("terminal height", 50, 50))
	b, out := printer("en", v.Choice("colour", 2) == 1, map[string]int{"£": 2})
	n := v.Bound("bytes of a text", 8, 12)
	few := func(name string, max int) string { return "abcdefghijklmnop"[:1+v.Choice(name, max)] }
	s, t := few("left", n), few("right", 3)
	x := []*big.Rat{big.NewRat(1, 1), big.NewRat(-12345, 10)}[v.Choice("amount", 2)]
	num := b.FormatNumber("£", x)
	rows := [][]app.ColumnValue{
		{app.ColumnString("D"), app.ColumnString(b.Ansi(app.UL, "Payee")), app.ColumnRightString(t), app.ColumnRightString("Amt")},
		{app.ColumnString("xx"), app.ColumnString(s), app.ColumnRightString("yyé"), b.GetColumnMoney("£", x)},
	}
	last := v.Choice("shrink", 2) == 1 // whether the third column may shrink
	b.PrintColumns(rows, []bool{false, true, last, false})
	v.Observe("out", out.String())
	lines := strings.Split(out.String(), "\n")
	v.Assert(len(lines) == 3 && lines[2] == "", "there is a line for every row")
	if len(lines) != 3 {
		return
	}
	n1, n2, money := 5, 3, utf8.RuneCountInString(num)+1
	if len(s) > n1 {
		n1 = len(s)
	}
	fixed := 2 + money + 3
	may := n1
	if last {
		may += n2
	} else {
		fixed += n2
	}
	room := tw - fixed
	if room > may {
		room = may
	}
	if room < 0 {
		room = 0
	}
	// what each of them gets
	w1, w2, found := 0, n2, false
	cut := func(s string, w int, left bool) string {
		r := []rune(s)
		if len(r) > w {
			r = r[:w]
		}
		pad := strings.Repeat(" ", w-len(r))
		if left {
			return string(r) + pad
		}
		return pad + string(r)
	}
	l0, l1 := strings.Join(visible(lines[0]), ""), strings.Join(visible(lines[1]), "")
	for w1 = 0; w1 <= room && w1 <= n1; w1++ {
		w2 = n2
		if last {
			w2 = room - w1
		} else if w1 != room {
			continue
		}
		if w2 > n2 {
			continue
		}
		if l0 == "D  "+cut("Payee", w1, true)+" "+cut(t, w2, false)+" "+cut("Amt", money, false) &&
			l1 == "xx "+cut(s, w1, true)+" "+cut("yyé", w2, false)+" "+"£"+num {
			found = true
			break
		}
	}
	v.Assert(found, "the columns line up and fill the terminal, or as much of it as they need")
	if found && last {
		d := w1*may - n1*room // in proportion, but for a character
		v.Assert(d < may && -d < may, "the columns which may shrink shrink in proportion")
	}
	if room < may {
		v.Reach("shrunk")
	} else {
		v.Reach("fits")
	}
}

// Many: many rows line up.
func Many() {
	n := v.Bound("rows", 60, 200)
	b, out := printer("en", false, map[string]int{"£": 2})
	x := v.Rat("amt", -1299999, 1299999, 100)
	at := v.Choice("at", 3) * (n/2 - 1)
	text := func(i int) string { return strings.Repeat("é", i*13%47) + "x" }
	val := func(i int) *big.Rat {
		if i == at {
			return x
		}
		return big.NewRat(int64(i*i*i), 4)
	}
	var rows [][]app.ColumnValue
	wide, money := 0, 0
	for i := 0; i < n; i++ {
		if i%9 == 8 {
			rows = append(rows, nil)
			continue
		}
		rows = append(rows, []app.ColumnValue{app.ColumnString(text(i)), b.GetColumnMoney("£", val(i))})
		if l := utf8.RuneCountInString(text(i)); l > wide {
			wide = l
		}
		if l := len(b.FormatNumber("£", val(i))) + 1; l > money {
			money = l
		}
	}
	b.PrintColumns(rows, []bool{false, false})
	lines := strings.Split(out.String(), "\n")
	v.Assert(len(lines) == n+1 && lines[n] == "", "there is a line for every row")
	if len(lines) != n+1 {
		return
	}
	for i := 0; i < n; i++ {
		want := ""
		if rows[i] != nil {
			num := b.FormatNumber("£", val(i))
			want = text(i) + strings.Repeat(" ", wide-utf8.RuneCountInString(text(i))) + " £" + strings.Repeat(" ", money-1-len(num)) + num
		}
		v.Assert(lines[i] == want, "columns line up")
	}
	v.Reach("end")
}
