package hx

import (
	"bufio"
	"bytes"
	"fmt"
	"html"
	"math/big"
	"net/url"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/mescanne/goledger/zzverif/v"
)

func Uni() {
	s := v.Str("s", 0, 3, "aZ9 _-")
	n := 0
	for _, r := range s {
		if unicode.IsUpper(r) || unicode.IsLower(r) || unicode.IsNumber(r) || unicode.IsPunct(r) || unicode.IsControl(r) || unicode.IsSpace(r) || unicode.IsSymbol(r) || unicode.IsGraphic(r) {
			n++
		}
	}
	as("n", n == len(s))
	t := strings.Map(unicode.ToLower, s)
	as("lower", t == strings.ToLower(s))
	b := utf8.AppendRune(nil, 'x')
	as("app", string(b) == "x")
	r, w := utf8.DecodeLastRuneInString(s)
	as("last", len(s) == 0 || w == 1 && string(r) == s[len(s)-1:])
	as("rl", utf8.RuneLen('é') == 2 && utf8.RuneCount([]byte(s)) == len(s))
	as("in", len(s) == 0 || unicode.In(rune(s[0]), unicode.Letter, unicode.Digit) == (unicode.IsLetter(rune(s[0])) || unicode.IsDigit(rune(s[0]))))
	as("totitle", unicode.ToTitle('a') == 'A')
	as("idx", strings.IndexFunc(s, unicode.IsDigit) == strings.IndexByte(s, '9'))
	as("lidx", strings.LastIndexFunc(s, unicode.IsDigit) == strings.LastIndexByte(s, '9'))
	as("bytes", bytes.ContainsRune([]byte(s), '9') == strings.ContainsRune(s, '9') && bytes.HasPrefix([]byte(s), []byte("a")) == strings.HasPrefix(s, "a"))
	as("btrim", string(bytes.TrimSpace([]byte(s))) == strings.TrimSpace(s) && string(bytes.ToUpper([]byte(s))) == strings.ToUpper(s))
	as("tvu", strings.ToValidUTF8(s, "?") == s)
	as("rep", strings.Repeat(s, 2) == s+s)
	as("replace", strings.Replace(s, "a", "b", 1) != "q")
	v.Reach("end")
}

func Bld() {
	s := v.Str("s", 0, 3, "a\t\n")
	var sb strings.Builder
	sb.Grow(10)
	fmt.Fprintf(&sb, "%3d|%-3d|%s", 5, 6, s)
	sb.WriteByte('!')
	sb.WriteRune('é')
	as("sb", sb.String() == "  5|6  |"+s+"!é" && sb.Len() == len(sb.String()))
	br := bufio.NewReader(strings.NewReader(s + "z"))
	p, err := br.Peek(1)
	as("peek", err == nil && len(p) == 1)
	r, _, _ := br.ReadRune()
	br.UnreadRune()
	c, _ := br.ReadByte()
	as("same", byte(r) == c)
	l, pre, err := br.ReadLine()
	_ = l
	_ = pre
	_ = err
	d := bytes.NewBufferString(s)
	x, _ := d.ReadString('\n')
	as("buf", strings.HasPrefix(s, x))
	d.Reset()
	d.WriteString("ab")
	d.Truncate(1)
	as("tr", d.String() == "a")
	sc := bufio.NewScanner(strings.NewReader(s))
	sc.Split(bufio.ScanWords)
	k := 0
	for sc.Scan() {
		k++
	}
	as("words", k == len(strings.Fields(s)))
	sc = bufio.NewScanner(strings.NewReader(s))
	sc.Split(bufio.ScanRunes)
	k = 0
	for sc.Scan() {
		k++
	}
	as("runes", k == len(s))
	var rd = strings.NewReader(s)
	as("rlen", rd.Len() == len(s))
	v.Reach("end")
}

type pt struct {
	X int
	S string
	p *int
}

func (p pt) String() string { return p.S }

type qt struct {
	X int
	S string
}

func Fmts() {
	i := v.Int("i", -20, 20)
	s := v.Str("s", 0, 2, "a\"")
	as("d", fmt.Sprintf("%+d|%5d|%-5d|%05d|% d", i, i, i, i, i) != "")
	as("c", fmt.Sprintf("%c%c", 'a', rune('é')) == "aé")
	as("t", fmt.Sprintf("%t", i > 0) == strconv.FormatBool(i > 0))
	as("str", fmt.Sprintf("%v %s", pt{1, s, nil}, pt{1, s, nil}) == s+" "+s)
	as("st", fmt.Sprintf("%v", qt{1, s}) == "{1 "+s+"}")
	as("stp", fmt.Sprintf("%+v", qt{1, s}) == "{X:1 S:"+s+"}")
	as("sl", fmt.Sprint([]string{s, "b"}) == "["+s+" b]")
	as("mp", fmt.Sprint(map[string]int{"a": 1, "b": 2}) == "map[a:1 b:2]")
	as("q", fmt.Sprintf("%q", s) == strconv.Quote(s))
	as("x", fmt.Sprintf("%x %X %o %b", 255, 255, 8, 5) == "ff FF 10 101")
	as("star", fmt.Sprintf("%*d|%-*d|%.*f", 4, 1, 4, 1, 2, 1.5) == "   1|1   |1.50")
	as("idx", fmt.Sprintf("%[2]s %[1]d", 1, s) == s+" 1")
	as("pct", fmt.Sprintf("100%%") == "100%")
	as("err", fmt.Sprintf("%v", fmt.Errorf("x%s", s)) == "x"+s)
	as("nil", fmt.Sprintf("%v", error(nil)) == "<nil>")
	as("pre", fmt.Sprintf("%.1s|", s) != "")
	as("print", fmt.Sprint("a", 1, 2, "b", s) != "")
	as("app", string(fmt.Append(nil, s)) == s && string(fmt.Appendf(nil, "%d", i)) == strconv.Itoa(i))
	as("rat", fmt.Sprint(big.NewRat(1, 2)) == "1/2" && fmt.Sprintf("%s", big.NewInt(7)) == "7" && fmt.Sprintf("%d", big.NewInt(7)) == "7")
	as("u", fmt.Sprintf("%U", 'a') == "U+0061")
	as("g", fmt.Sprintf("%g %e", 0.5, 1500.0) == "0.5 1.500000e+03")
	f := float64(i) / 4
	v.Observe("%g", fmt.Sprintf("%g|%.15g|%v|%6v|", f, f, f, f)+strconv.FormatFloat(f*1000000, 'g', 15, 64))
	as("sharp", fmt.Sprintf("%#v", s) == strconv.Quote(s))
	v.Reach("end")
}

func Urls() {
	s := v.Str("s", 0, 2, "a &=")
	as("esc", html.UnescapeString(html.EscapeString(s)) == s)
	q := url.QueryEscape(s)
	u, err := url.QueryUnescape(q)
	as("q", err == nil && u == s)
	vals := url.Values{}
	vals.Set("a", s)
	as("enc", vals.Encode() == "a="+q)
	p, err := url.Parse("http://h/x?a=" + q)
	as("parse", err == nil && p.Query().Get("a") == s && p.Path == "/x" && p.Host == "h")
	v.Reach("end")
}

func Tim2() {
	k := v.Choice("k", 40)
	t := time.Date(2020, 1, 31, 1, 2, 3, 0, time.UTC).AddDate(0, 0, k*9)
	as("rfc", func() bool { u, e := time.Parse(time.RFC3339, t.Format(time.RFC3339)); return e == nil && u.Equal(t) }())
	as("mon", t.Month().String() != "" && t.Format("Jan 2, 2006 at 3:04pm (MST)") != "" && t.Format("02.01.06") != "")
	y, w := t.ISOWeek()
	as("iso", y >= 2020 && w >= 1)
	d, err := time.ParseDuration("1h30m")
	as("dur", err == nil && d.Minutes() == 90 && d.String() == "1h30m0s")
	as("cmp", t.Compare(t.Add(time.Second)) < 0)
	as("str", t.String() != "" && t.Hour() == 1 && t.Nanosecond() == 0)
	b, err := t.MarshalText()
	as("mt", err == nil && len(b) > 0)
	as("last", t.AddDate(0, 1, -t.Day()).Day() >= 28)
	v.Reach("end")
}

func Conv() {
	s := v.Str("s", 0, 3, "t1fe.")
	_, err := strconv.ParseBool(s)
	as("b", (err == nil) == (s == "1" || s == "t" || s == "f"))
	if u, err := strconv.ParseUint(s, 10, 64); err == nil {
		as("u", u < 1000 && strconv.FormatUint(u, 10) != "")
	}
	as("q", strconv.QuoteToASCII(s) == strconv.Quote(s) && strconv.AppendQuote(nil, s) != nil)
	n, err := strconv.Atoi(s)
	if e, ok := err.(*strconv.NumError); ok {
		as("ne", e.Func == "Atoi" && e.Num == s)
	} else {
		as("n", n < 1000)
	}
	b := []byte(strconv.FormatFloat(1.5, 'f', 2, 64))
	as("ff", string(b) == "1.50")
	v.Reach("end")
}
