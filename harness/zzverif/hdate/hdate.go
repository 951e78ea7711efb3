// Package hdate: calendar arithmetic.
package hdate

import (
	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/zzverif/v"
)

func leap(y int) bool {
	return v.Or(v.And(y%4 == 0, y%100 != 0), y%400 == 0)
}

// dim is the number of days of a month, written independently of the code.
func dim(y, m int) int {
	l := v.IteInt(leap(y), 29, 28)
	thirty := v.Or(v.Or(m == 4, m == 6), v.Or(m == 9, m == 11))
	return v.IteInt(m == 2, l, v.IteInt(thirty, 30, 31))
}

// anyDate is any valid calendar date of years lo..hi.
func anyDate(name string, lo, hi int) (int, int, int, book.Date) {
	// years are written 100c+4s+t+1 with c and t enumerated, which keeps the
	// leap-year arithmetic linear for the solver
	c := lo/100 + v.Choice(name+".century", hi/100-lo/100+1)
	y := c*100 + 4*v.Int(name+".quad", 0, 24) + v.Choice(name+".t", 4) + 1
	v.Assume(v.And(lo <= y, y <= hi))
	m := v.Choice(name+".m", 12) + 1
	d := v.Int(name+".d", 1, 31)
	v.Assume(d <= dim(y, m))
	return y, m, d, book.GetDate(y, m, d)
}

func RoundTrip() {
	_, _, _, d := anyDate("a", v.Bound("first year", 1801, 1), v.Bound("last year", 2200, 9999))
	n := d.AsDays()
	v.Observe("days", n)
	b := book.GetDateFromDays(n)
	v.Assert(b == d, "a date converted to a day number and back is the same date")
	v.Reach("end")
}

// following is the day after y/m/d.
func following(y, m, d int) book.Date {
	last := d == dim(y, m)
	dec := v.And(last, m == 12)
	return book.Date(v.IteInt(dec, y+1, y)*10000 + v.IteInt(dec, 1, v.IteInt(last, m+1, m))*100 + v.IteInt(last, 1, d+1))
}

// Successor: day numbers count days. With the first day at a fixed number this
// pins the numbering of every date.
func Successor() {
	y, m, d, dt := anyDate("a", v.Bound("first year", 1801, 1), v.Bound("last year", 2200, 9998))
	nx := following(y, m, d)
	n := dt.AsDays()
	v.Observe("days", n)
	v.Assert(nx.AsDays() == n+1, "the day after a date has the next day number")
	v.Assert(nx.DaysSince(dt) == 1, "there is one day between a date and the next")
	v.Assert(book.GetDate(1, 1, 1).AsDays() == 0 && book.GetDate(2000, 1, 1).AsDays() == 730119, "the numbering starts at the first day of year 1")
	v.Reach("end")
}

// AddDays: adding the days between two dates to one gives the other.
func AddDays() {
	_, _, _, a := anyDate("a", v.Bound("first year", 2001, 1901), v.Bound("last year", 2100, 2200))
	_, _, _, b := anyDate("b", v.Bound("first year of the result", 2001, 1901), v.Bound("last year of the result", 2100, 2200))
	k := b.DaysSince(a)
	r := a.AddDays(k)
	v.Observe("result", int(r))
	v.Assert(r == b, "a date with the days to another date added is that date")
	v.Reach("end")
}

// AddFew: days added to a date in a few years around a leap century.
func AddFew() {
	m := v.Choice("m", 12) + 1
	d := v.Int("d", 1, 31)
	y := []int{1900, 2000, 2023, 2024}[v.Choice("y", 4)]
	v.Assume(d <= dim(y, m))
	dt := book.GetDate(y, m, d)
	k := []int{1, 2, 3, -1, -28, -31, -366}[v.Choice("k", 7)]
	// walk to the day one day at a time
	w := dt
	wy, wm, wd := y, m, d
	for i := 0; i < k; i++ {
		w = following(wy, wm, wd)
		wy, wm, wd = int(w)/10000, int(w)/100%100, int(w)%100
	}
	r := dt.AddDays(k)
	if k >= 0 {
		v.Assert(r == w, "days added to a date count through the calendar")
		v.Reach("forward")
	} else {
		v.Assert(r.AddDays(-k) == dt, "days taken from a date and added again give the date")
		v.Assert(r < dt, "days taken from a date give an earlier date")
		v.Reach("back")
	}
}

// Years: the fraction of the year a date stands at.
func Years() {
	y, m, d, dt := anyDate("a", 1801, 2200)
	nx := following(y, m, d)
	a, b := dt.AsYears(), nx.AsYears()
	v.Assert(b > a, "a later day is a later fraction of years")
	v.Assert(b-a < 0.00275, "a day is one part in 365 or 366 of a year")
	v.Assert(v.And(a >= float64(y-1), a < float64(y)), "a date lies within its year")
	v.Reach("end")
}

func floorDiv(a, b int) int {
	return v.IteInt(a >= 0, a/b, -((-a + b - 1) / b))
}

// Floors: start of the year, quarter or month, moved by whole periods.
func Floors() {
	y, m, d, dt := anyDate("a", 1801, 2200)
	n := v.Bound("periods moved", 30, 60)
	k := v.Int("k", -n, n)
	fy := dt.FloorYear(k)
	v.Assert(int(fy) == (y+k)*10000+101, "the start of a year is its first of January")
	mi := y*12 + m - 1 + k
	fm := dt.FloorMonth(k)
	v.Observe("month", int(fm))
	v.Assert(int(fm) == floorDiv(mi, 12)*10000+(mi-floorDiv(mi, 12)*12+1)*100+1, "the start of a month is its first day, months counting on over years")
	qi := y*4 + (m-1)/3 + k
	fq := dt.FloorQuarter(k)
	v.Observe("quarter", int(fq))
	v.Assert(int(fq) == floorDiv(qi, 4)*10000+((qi-floorDiv(qi, 4)*4)*3+1)*100+1, "the start of a quarter is the first day of January, April, July or October")
	v.Assert(v.Or(k != 0, v.And(v.And(fy <= fq, fq <= fm), fm <= dt)), "a date is not before the start of its month, quarter and year")
	v.Assert(dt.Floor("yearly") == dt.FloorYear(0) && dt.Floor("quarterly") == dt.FloorQuarter(0) && dt.Floor("monthly") == dt.FloorMonth(0) && dt.Floor("none") == dt, "a date is floored by the named period")
	v.Assert(dt.FloorDiff("yearly", k) == fy && dt.FloorDiff("quarterly", k) == fq && dt.FloorDiff("monthly", k) == fm, "a date is floored and moved by the named period")
	_ = d
	v.Reach("end")
}

// FloorGroups: two dates have the same floor exactly when they are in the same period.
func FloorGroups() {
	y1, m1, _, a := anyDate("a", 1901, 2100)
	y2 := v.Int("b.y", 1901, 2100)
	m2 := v.Int("b.m", 1, 12)
	d2 := v.Int("b.d", 1, 28)
	b := book.GetDate(y2, m2, d2)
	v.Assert((a.FloorMonth(0) == b.FloorMonth(0)) == v.And(y1 == y2, m1 == m2), "months group the dates of one month")
	v.Assert((a.FloorQuarter(0) == b.FloorQuarter(0)) == v.And(y1 == y2, (m1-1)/3 == (m2-1)/3), "quarters group the dates of one quarter")
	v.Assert((a.FloorYear(0) == b.FloorYear(0)) == (y1 == y2), "years group the dates of one year")
	v.Assert(v.Or(a > b, v.And(a.FloorMonth(0) <= b.FloorMonth(0), v.And(a.FloorQuarter(0) <= b.FloorQuarter(0), a.FloorYear(0) <= b.FloorYear(0)))), "the starts of periods keep the order of dates")
	v.Reach("end")
}

func dig(n int) string { return string([]byte{byte('0' + n%10)}) }
func pad(n, w int) string {
	s := ""
	for ; w > 0; w-- {
		s = dig(n) + s
		n /= 10
	}
	return s
}

// Names: a date's year, month and quarter as text.
func Names() {
	y, m, d, dt := anyDate("a", 1801, 2200)
	v.Assert(dt.GetYear() == pad(y, 4), "the year is written with four digits")
	v.Assert(dt.GetYearMonth() == pad(y, 4)+"/"+pad(m, 2), "a month is written as year and month")
	v.Assert(dt.GetYearQuarter() == pad(y, 4)+" Q"+dig((m-1)/3+1), "a quarter is written as year and quarter number")
	v.Assert(dt.String() == pad(y, 4)+"/"+pad(m, 2)+"/"+pad(d, 2), "a date is written year/month/day")
	v.Reach("end")
}

// Written: every date as the programs write it reads back as the same date.
func Written() {
	_, _, _, dt := anyDate("a", 1801, 2200)
	v.Assert(book.DateFromString(dt.String()) == dt, "a date as written reads back as the same date")
	var d2 book.Date
	v.Assert(d2.Set(dt.String()) == nil && d2 == dt, "a date given as an option is read")
	v.Reach("end")
}

const digits = "0123456789"

func num(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}

var seps = []string{"-", "/", "."}

// Formats: year first and day first, with each separator, with one or two
// digits; the month or day may be left out after the year.
func Formats() {
	ys := v.Str("y", 4, 4, digits)
	ms := v.Str("m", 1, 2, digits)
	ds := v.Str("d", 1, 2, digits)
	y, m, d := num(ys), num(ms), num(ds)
	// a date the calendar does not have is no date
	date := func(y, m, d int) book.Date {
		ok := v.And(v.And(y >= 1, d >= 1), v.And(m >= 1, m <= 12))
		return book.Date(v.IteInt(v.And(ok, d <= dim(y, m)), int(book.GetDate(y, m, d)), 0))
	}
	want := date(y, m, d)
	s1, s2 := seps[v.Choice("sep1", 3)], seps[v.Choice("sep2", 3)]
	switch v.Choice("format", 5) {
	case 0:
		v.Assert(book.DateFromString(ys+s1+ms+s2+ds) == want, "year, month and day with separators")
		v.Reach("ymd")
	case 1:
		v.Assert(book.DateFromString(ds+s1+ms+s2+ys) == want, "day, month and year with separators")
		v.Reach("dmy")
	case 2:
		if len(ms) == 2 && len(ds) == 2 {
			v.Assert(book.DateFromString(ys+ms+ds) == want, "eight digits are year, month and day")
			v.Reach("compact")
		}
	case 3:
		v.Assert(book.DateFromString(ys+s1+ms) == date(y, m, 1), "a year and month are the first of the month")
		v.Reach("ym")
	case 4:
		v.Assert(book.DateFromString(ys) == date(y, 1, 1), "a year is its first of January")
		v.Reach("y")
	}
}

// NotDates: text which has not the parts of a date gives no date.
func NotDates() {
	s := v.Str("s", 0, v.Bound("length of the text", 5, 7), "0129-/. ax+")
	d := book.DateFromString(s)
	v.Observe("date", int(d))
	bad, n := len(s) < 4, 0
	for i := 0; i < len(s); i++ {
		bad = v.Or(bad, v.Or(v.Or(s[i] == 'a', s[i] == 'x'), v.Or(s[i] == ' ', s[i] == '+')))
		n += v.IteInt(v.And(s[i] >= '0', s[i] <= '9'), 1, 0)
	}
	bad = v.Or(bad, v.Or(n < 4, n > 8))
	v.Assert(v.Or(v.Not(bad), d == 0), "text which is neither digits nor separators, or too few or many, is no date")
	v.Assert(v.Or(d == 0, d.IsValid()), "what is read as a date is one the calendar has")
	v.Reach("end")
}

// day is a day which a clock can be set to.
func day() (y, m, d int, dt book.Date) {
	return anyDate("today", 2001, 2199)
}

// Relative: this, last and next year, quarter and month start at the first day
// of the period today is in, of the one before and of the one after it.
func Relative() {
	y, m, d, dt := day()
	which := v.Choice("which", 3)
	period := v.Choice("period", 3)
	sep := v.Str("between", 1, v.Bound("characters between the words", 2, 4), "._ \t")
	s := []string{"this", "last", "next"}[which] + sep + []string{"year", "quarter", "month"}[period]
	step := []int{0, -1, 1}[which]
	var got, today, all, monthly book.Date
	v.At(y, m, d, func() {
		got, today = book.DateFromString(s), book.GetToday()
		all, monthly = book.GetDate(1999, 5, 6).Floor("today"), book.GetDate(1999, 5, 6).Floor("monthly")
	})
	v.Assert(today == dt, "today is the day of the clock")
	v.Assert(all == dt, "everything combined is put on today")
	v.Assert(monthly == book.GetDate(1999, 5, 1), "months are combined whatever day it is")
	n := []int{12, 3, 1}[period]
	k := y*12 + m - 1
	k = k - k%n + step*n
	v.Assert(got == book.GetDate(k/12, k%12+1, 1), "the first day of the period before, of or after today")
	v.Reach("end")
}
