// Package hx tests the engine: library functions executed symbolically agree with
// what is said of them here (tools/selftest.sh).
package hx

import (
	"bufio"
	"bytes"
	"container/heap"
	"container/list"
	"encoding/csv"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"math/big"
	"math/bits"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"text/tabwriter"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/mescanne/goledger/zzverif/v"
)

func Strs1() {
	s := v.Str("s", 0, 3, "ab: ")
	a, b, ok := strings.Cut(s, ":")
	as("cut", ok == strings.Contains(s, ":") && (!ok || a+":"+b == s))
	as("fold", strings.EqualFold(s, strings.ToUpper(s)))
	as("rep", strings.NewReplacer("a", "b", ":", ";").Replace(s) == strings.ReplaceAll(strings.ReplaceAll(s, "a", "b"), ":", ";"))
	as("count", strings.Count(s, "a") == len(s)-len(strings.ReplaceAll(s, "a", "")))
	as("last", strings.LastIndex(s, "b") < 0 || s[strings.LastIndex(s, "b")] == 'b')
	as("fields", len(strings.FieldsFunc(s, func(r rune) bool { return r == ' ' })) == len(strings.Fields(s)))
	as("splitn", strings.Join(strings.SplitN(s, ":", 2), ":") == s)
	as("splitafter", strings.Join(strings.SplitAfter(s, ":"), "") == s)
	as("trimf", strings.TrimFunc(s, unicode.IsSpace) == strings.TrimSpace(s))
	as("tl", strings.TrimLeft(s, " ")+"" == strings.TrimLeftFunc(s, func(r rune) bool { return r == ' ' }))
	as("tr", strings.TrimRight(s, " ") == strings.TrimSuffix(strings.TrimRight(s, " "), " "))
	as("idxany", (strings.IndexAny(s, "ab") >= 0) == strings.ContainsAny(s, "ab"))
	as("idxbyte", strings.IndexByte(s, 'a') == strings.IndexRune(s, 'a'))
	as("cmp", strings.Compare(s, "a") == bytes.Compare([]byte(s), []byte("a")))
	as("title", len(strings.Title(s)) == len(s))
	as("cutp", strings.HasPrefix(s, "a") == func() bool { _, ok := strings.CutPrefix(s, "a"); return ok }())
	v.Reach("end")
}

func Strs2() {
	s := v.Str("s", 0, 3, "aB\n,\"")
	rd := strings.NewReader(s)
	bs, err := io.ReadAll(rd)
	as("readall", err == nil && string(bs) == s)
	sc := bufio.NewScanner(strings.NewReader(s))
	n := 0
	for sc.Scan() {
		n += len(sc.Text()) + 1
	}
	as("scan", n >= len(s) && n <= len(s)+1)
	br := bufio.NewReader(strings.NewReader(s))
	l, _ := br.ReadString('\n')
	as("rs", strings.HasPrefix(s, l))
	rest, _ := ioutil.ReadAll(br)
	as("rest", l+string(rest) == s)
	var bb bytes.Buffer
	bw := bufio.NewWriter(&bb)
	fmt.Fprintf(bw, "%s|%q", s, s)
	bw.Flush()
	as("bw", bb.String() == s+"|"+strconv.Quote(s))
	u, err := strconv.Unquote(strconv.Quote(s))
	as("unq", err == nil && u == s)
	as("bytes", bytes.Equal(bytes.ToLower([]byte(s)), []byte(strings.ToLower(s))))
	as("bfields", len(bytes.Split([]byte(s), []byte(","))) == strings.Count(s, ",")+1)
	as("valid", utf8.ValidString(s) && utf8.RuneCountInString(s) == len([]rune(s)))
	r := []rune(s)
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	as("rev", len(string(r)) == len(s))
	br2 := bytes.NewReader([]byte(s))
	for {
		c, _, err := br2.ReadRune()
		if err == io.EOF {
			break
		}
		if c == ',' {
			br2.UnreadRune()
			c2, _ := br2.ReadByte()
			as("unread", c2 == ',')
		}
	}
	v.Reach("end")
}

func Nums() {
	s := v.Str("s", 0, 3, "019-.")
	i, err := strconv.Atoi(s)
	j, err2 := strconv.ParseInt(s, 10, 64)
	as("atoi", (err == nil) == (err2 == nil) && (err != nil || int64(i) == j))
	if err == nil {
		as("app", string(strconv.AppendInt(nil, j, 10)) == strconv.Itoa(i))
		as("fmtint", strconv.FormatInt(j, 10) == fmt.Sprint(i) && fmt.Sprintf("%05d", i) == fmt.Sprintf("%0*d", 5, i))
		as("x", fmt.Sprintf("%d", i) == fmt.Sprintf("%v", j))
	}
	var k int
	n, err3 := fmt.Sscanf(s, "%d", &k)
	_ = n
	_ = err3
	n, err3 = fmt.Sscan(s, &k)
	f, err4 := strconv.ParseFloat(s, 64)
	if err == nil && err4 == nil {
		as("f", int(f) == i)
	}
	b, ok := new(big.Int).SetString(s, 10)
	as("big", ok == (err == nil))
	if ok {
		as("bigv", b.Int64() == j && b.Cmp(big.NewInt(j)) == 0)
	}
	v.Reach("end")
}

func Ints() {
	i := v.Int("i", -1000, 1000)
	as("abs", math.Abs(float64(i)) >= 0)
	as("len", bits.Len(uint(i&255)) <= 8)
	as("max", math.Max(float64(i), 0) >= 0)
	as("floor", math.Floor(float64(i)/2) <= float64(i)/2)
	as("div", (i/7)*7+i%7 == i)
	x := sort.SearchInts([]int{-500, 0, 500}, i)
	as("search", x >= 0 && x <= 3)
	as("round", math.Round(float64(i)) == float64(i))
	as("ceil", int(math.Ceil(float64(i)/10)) >= i/10)
	as("trunc", int(math.Trunc(float64(i)/10)) == i/10)
	a, m := math.Modf(float64(i) / 2)
	as("modf", a+m == float64(i)/2)
	v.Reach("end")
}

func Rats() {
	a := v.Rat("a", -100, 100, 100)
	b := v.Rat("b", 1, 100, 100)
	q := new(big.Rat).Quo(a, b)
	as("quo", v.RatEq(new(big.Rat).Mul(q, b), a))
	as("abs", new(big.Rat).Abs(a).Sign() >= 0)
	as("cmp", (a.Cmp(b) < 0) == (new(big.Rat).Sub(a, b).Sign() < 0))
	c := new(big.Rat).SetFrac(a.Num(), a.Denom())
	as("frac", v.RatEq(a, c))
	as("isint", a.IsInt() == (a.Denom().Cmp(big.NewInt(1)) == 0))
	d := new(big.Rat).SetInt(a.Num())
	as("setint", v.RatEq(d, new(big.Rat).Mul(a, new(big.Rat).SetInt(a.Denom()))))
	e := new(big.Rat).SetInt64(3)
	e.SetFrac64(6, 2)
	as("64", e.Cmp(big.NewRat(3, 1)) == 0)
	s := a.FloatString(2)
	g, ok := new(big.Rat).SetString(s)
	as("str", ok && v.RatEq(g, a))
	as("ratstr", a.RatString() != "" && a.String() != "")
	f, _ := a.Float64()
	h := new(big.Rat).SetFloat64(f)
	_ = h
	n := new(big.Int).Quo(a.Num(), a.Denom())
	as("q", new(big.Rat).SetInt(n).Cmp(big.NewRat(101, 1)) < 0)
	v.Reach("end")
}

type intHeap []int

func (h intHeap) Len() int            { return len(h) }
func (h intHeap) Less(i, j int) bool  { return h[i] < h[j] }
func (h intHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *intHeap) Push(x interface{}) { *h = append(*h, x.(int)) }
func (h *intHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

func Colls() {
	a, b, c := v.Int("a", 0, 9), v.Int("b", 0, 9), v.Int("c", 0, 9)
	h := &intHeap{a, b}
	heap.Init(h)
	heap.Push(h, c)
	x := heap.Pop(h).(int)
	y := heap.Pop(h).(int)
	as("heap", x <= y)
	l := list.New()
	for _, k := range []int{a, b, c} {
		l.PushFront(k)
	}
	as("list", l.Front().Value.(int) == c && l.Len() == 3)
	s := []int{a, b, c}
	sort.Sort(sort.Reverse(sort.IntSlice(s)))
	as("rev", s[0] >= s[1] && s[1] >= s[2])
	sort.Ints(s)
	as("ints", sort.IntsAreSorted(s))
	t := []string{strconv.Itoa(a), strconv.Itoa(b)}
	sort.Stable(sort.StringSlice(t))
	as("strs", t[0] <= t[1])
	var once sync.Once
	n := 0
	for i := 0; i < 2; i++ {
		once.Do(func() { n++ })
	}
	as("once", n == 1)
	var mu sync.RWMutex
	mu.Lock()
	mu.Unlock()
	mu.RLock()
	defer mu.RUnlock()
	as("deep", reflect.DeepEqual([]int{a}, []int{a}))
	var m sync.Map
	m.Store("a", a)
	q, ok := m.Load("a")
	as("map", ok && q.(int) == a)
	ch := make(chan int, 2)
	ch <- a
	close(ch)
	for k := range ch {
		as("chan", k == a)
	}
	var wg sync.WaitGroup
	wg.Add(1)
	res := make(chan int)
	go func() { defer wg.Done(); res <- b }()
	as("go", <-res == b)
	wg.Wait()
	v.Reach("end")
}

type myErr struct{ s string }

func (e *myErr) Error() string { return e.s }

func Errs() {
	s := v.Str("s", 0, 2, "ab")
	base := &myErr{s}
	w := fmt.Errorf("x: %w", base)
	var me *myErr
	as("as", errors.As(w, &me) && me.s == s)
	as("is", errors.Is(w, base) && errors.Unwrap(w) == error(base))
	as("msg", w.Error() == "x: "+s)
	j := errors.Join(nil, base)
	as("join", j.Error() == s)
	func() {
		defer func() {
			r := recover()
			as("rec", r.(error).Error() == s)
		}()
		panic(base)
	}()
	as("fmt", fmt.Sprintf("%v|%+v|%-5s|%5s|%x|%T", base, s, s, s, s, s) != "")
	as("ln", fmt.Sprintln("a", s) == "a "+s+"\n")
	v.Reach("end")
}

var re1 = regexp.MustCompile(`(a+)(b*)`)

func Regs() {
	s := v.Str("s", 0, 4, "abc")
	as("m", re1.MatchString(s) == strings.Contains(s, "a"))
	as("i", (re1.FindStringIndex(s) == nil) == !strings.Contains(s, "a"))
	as("all", len(re1.FindAllString(s, -1)) <= len(s))
	as("allidx", len(re1.FindAllStringSubmatchIndex(s, -1)) == len(re1.FindAllStringSubmatch(s, -1)))
	as("func", re1.ReplaceAllStringFunc(s, strings.ToUpper) != "x")
	as("lit", strings.Count(re1.ReplaceAllLiteralString(s, "$"), "$") == len(re1.FindAllString(s, -1)))
	if m := re1.FindStringSubmatchIndex(s); m != nil {
		as("exp", string(re1.ExpandString(nil, "$2-$1", s, m)) == s[m[4]:m[5]]+"-"+s[m[2]:m[3]])
	}
	as("split", len(re1.Split(s, -1)) >= 1)
	as("b", re1.Match([]byte(s)) == re1.MatchString(s))
	as("bytes", string(re1.ReplaceAll([]byte(s), []byte("x"))) == re1.ReplaceAllString(s, "x"))
	q := regexp.MustCompile("^" + regexp.QuoteMeta("a.b") + "$")
	as("quote", q.MatchString("a.b"))
	as("n", re1.NumSubexp() == 2 && re1.String() != "")
	ok, err := regexp.MatchString("a", s)
	as("ms", err == nil && ok == strings.Contains(s, "a"))
	v.Reach("end")
}

func Times() {
	y := v.Choice("y", 3) + 2019
	m := v.Choice("m", 12) + 1
	d := v.Choice("d", 28) + 1
	t := time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC)
	as("f", t.Format("2006/01/02") == fmt.Sprintf("%04d/%02d/%02d", y, m, d))
	p, err := time.Parse("2006-01-02", t.Format("2006-01-02"))
	as("p", err == nil && p.Equal(t))
	u := t.AddDate(0, 1, 0)
	as("add", u.After(t) && u.Sub(t) >= 28*24*time.Hour)
	as("yd", t.YearDay() >= 1 && t.Weekday() >= 0 && t.Unix() > 0)
	yy, mm, dd := t.Date()
	as("date", yy == y && int(mm) == m && dd == d)
	as("trunc", t.Truncate(24*time.Hour).Equal(t) && t.Before(u) && !t.IsZero())
	as("dur", time.Duration(d)*time.Hour > 0)
	as("unix", time.Unix(t.Unix(), 0).UTC().Equal(t))
	v.Reach("end")
}

func Csvs() {
	s := v.Str("s", 0, 3, "a,\"\n;")
	rd := csv.NewReader(strings.NewReader(s))
	rd.LazyQuotes = true
	rd.FieldsPerRecord = -1
	rd.TrimLeadingSpace = true
	rows, err := rd.ReadAll()
	if err == nil {
		var bb bytes.Buffer
		w := csv.NewWriter(&bb)
		w.UseCRLF = false
		as("w", w.WriteAll(rows) == nil)
	}
	v.Reach("end")
}

type js struct {
	A string            `json:"a"`
	B *int              `json:"b,omitempty"`
	M map[string]string `json:"m"`
}

func Jsons() {
	s := v.Str("s", 0, 2, "a\"<\n")
	k := v.Int("k", 0, 99)
	o := js{s, &k, map[string]string{s: "x", "q": s}}
	b, err := json.Marshal(&o)
	as("m", err == nil)
	var p js
	as("u", json.Unmarshal(b, &p) == nil && p.A == s && *p.B == k && p.M["q"] == s || s == "q")
	var bb bytes.Buffer
	e := json.NewEncoder(&bb)
	e.SetEscapeHTML(false)
	e.SetIndent("", " ")
	as("e", e.Encode(o) == nil)
	dec := json.NewDecoder(&bb)
	dec.DisallowUnknownFields()
	var q js
	as("d", dec.Decode(&q) == nil && q.A == s)
	var any interface{}
	as("any", json.Unmarshal(b, &any) == nil && any.(map[string]interface{})["a"].(string) == s)
	var raw map[string]json.RawMessage
	as("raw", json.Unmarshal(b, &raw) == nil && len(raw) == 3)
	var ib bytes.Buffer
	as("ind", json.Indent(&ib, b, "", "\t") == nil && json.Valid(b))
	v.Reach("end")
}

func Tabs() {
	s := v.Str("s", 0, 3, "ab")
	var bb bytes.Buffer
	w := tabwriter.NewWriter(&bb, 0, 8, 1, ' ', 0)
	fmt.Fprintf(w, "%s\tx\n", s)
	fmt.Fprintf(w, "aaaa\ty\n")
	w.Flush()
	as("tab", strings.Index(bb.String(), "x") == 5)
	as("w", fmt.Sprintf("%-*s|", 4, s) == s+strings.Repeat(" ", 4-len(s))+"|")
	v.Reach("end")
}

func Fs() {
	s := v.Str("s", 1, 2, "ab")
	v.PutFile("/d/x", "hello")
	as("wf", os.WriteFile("/d/y", []byte(s), 0644) == nil)
	b, err := os.ReadFile("/d/y")
	as("rf", err == nil && string(b) == s)
	as("iowf", ioutil.WriteFile("/d/z", b, 0600) == nil)
	st, err := os.Stat("/d/z")
	as("st", err == nil && st.Size() == int64(len(s)) && !st.IsDir())
	_, err = os.Lstat("/d/zz")
	as("ne", errors.Is(err, os.ErrNotExist) && !errors.Is(err, os.ErrExist) && os.IsNotExist(err))
	f, err := os.Create("/d/w")
	as("c", err == nil)
	fmt.Fprint(f, s)
	f.WriteString("!")
	io.Copy(f, strings.NewReader("x"))
	f.Sync()
	as("cl", f.Close() == nil)
	as("ren", os.Rename("/d/w", "/d/v") == nil)
	g, err := os.Open("/d/v")
	as("o", err == nil)
	sc := bufio.NewScanner(g)
	sc.Scan()
	as("txt", sc.Text() == s+"!x")
	g.Close()
	as("rm", os.Remove("/d/v") == nil)
	as("mk", os.MkdirAll("/d/e/f", 0755) == nil)
	t, err := os.CreateTemp("/d", "tmp*")
	as("tmp", err == nil)
	t.Close()
	os.Remove(t.Name())
	t2, err := ioutil.TempFile("/d", "tmp")
	as("tmp2", err == nil)
	t2.Close()
	as("base", path.Base("/a/"+s) == s && filepath.Base("/a/"+s) == s && filepath.Join("a", s) == "a/"+s && filepath.IsAbs("/a") && filepath.Ext("a."+s) == "."+s)
	as("split", func() bool { d, b := filepath.Split("/q/" + s); return d == "/q/" && b == s }())
	v.Reach("end")
}

func Ios() {
	s := v.Str("s", 0, 3, "ab")
	var a, b bytes.Buffer
	io.WriteString(io.MultiWriter(&a, &b), s)
	as("mw", a.String() == s && b.String() == s)
	x, _ := io.ReadAll(io.TeeReader(strings.NewReader(s), &a))
	as("tee", string(x) == s && a.String() == s+s)
	y, _ := io.ReadAll(io.LimitReader(strings.NewReader(s), 1))
	as("lim", len(y) <= 1)
	z, _ := io.ReadAll(io.MultiReader(strings.NewReader(s), strings.NewReader("q")))
	as("mr", string(z) == s+"q")
	n, err := io.Copy(io.Discard, strings.NewReader(s))
	as("cp", err == nil && n == int64(len(s)))
	v.Reach("end")
}

func as(l string, c bool) { v.Assert(c, l) }
