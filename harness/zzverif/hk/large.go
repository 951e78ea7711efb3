package hk

import (
	"math/big"
	"strconv"
	"strings"

	"github.com/mescanne/goledger/book"
)

// LargeAccts are the accounts of a large book: deep ones, ones which begin like
// others and ones which are above others.
func LargeAccts() []string {
	out := []string{"A", "B:x", "Assets", "A:b:c:d:e:f:g:h:i:j:k:l:m:n:o", "Zed"}
	for i := 0; i < 9; i++ {
		out = append(out, "Assets:Bank"+strconv.Itoa(i*i), "B:x:y"+strings.Repeat(":z", i))
	}
	return out
}

// Large is a book of n transactions in no order, many of them of the same day and
// payee; x is a part of the amounts of the transaction at.
func Large(n int, ccys []string, at int, x *big.Rat) []T {
	accts := LargeAccts()
	first := book.GetDate(2019, 11, 20)
	ts := make([]T, n)
	for i := range ts {
		t := &ts[i]
		t.Date, t.Payee = first.AddDays((i*37%n)/2*5), "Payee "+strconv.Itoa(i%7)
		if i%4 == 0 {
			t.Date, t.Payee = book.GetDate(2020, 2, 29), "Same"
		}
		t.Note = "t" + strconv.Itoa(i)
		c := ccys[i%len(ccys)]
		a, b := big.NewRat(int64(i+1)*100+int64(i%3), 100), big.NewRat(int64(i%4)-2, 1)
		if b.Sign() == 0 {
			b.SetInt64(5)
		}
		if i == at {
			a.Add(a, x)
		}
		m := len(accts)
		t.Posts = []P{
			{Acct: accts[i*5%m], CCY: c, Amt: a, Note: "n" + strconv.Itoa(i)},
			{Acct: accts[(i*7+3)%m], CCY: c, Amt: b},
			{Acct: accts[(i*11+5)%m], CCY: c, Amt: Neg(new(big.Rat).Add(a, b)), Note: "m" + strconv.Itoa(i)},
		}
	}
	return ts
}

// LargeText is a large book as a ledger file; d are digits in front of an
// amount of the transaction at.
func LargeText(n int, ccys []string, at int, d string) string {
	var text strings.Builder
	for i, t := range Large(n, ccys, -1, nil) {
		text.WriteString(t.Date.String() + " " + t.Payee + " ; " + t.Note + "\n")
		for j, p := range t.Posts {
			num := p.Amt.FloatString(i%3 + 2)
			if i == at && j == 0 {
				num = d + num
			}
			text.WriteString("  " + p.Acct + "  ")
			if j < 2 {
				text.WriteString(p.CCY + num + " ; " + p.Note)
			}
			text.WriteString("\n")
		}
		if ccys[0] != "£" {
			text.WriteString("P " + t.Date.String() + " 00:00:00 U" + string(rune('A'+i%12)) + " X " + strconv.Itoa(i+1) + ".50\n")
		}
	}
	return text.String()
}
