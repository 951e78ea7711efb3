From 083220d64a3d41dfeba91d31147043b6b4f8a061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 01/66] fix: count the day of the month in a date's fraction of
 years

---
 book/date.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/book/date.go b/book/date.go
index 5aa2bd0..51c76e4 100644
--- a/book/date.go
+++ b/book/date.go
@@ -243,7 +243,6 @@ func (date Date) AsYears() float64 {
 	isLeapYear := YearIsLeapYear(year)
 
 	// Add in month-to-date (without leaps)
-	day = 0
 	for i := 0; i < month; i++ {
 		day += monthDays[i]
 
-- 
2.43.0


From 5b21a1773f8f64ca0f5726479f906b56d1e7dafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 02/66] fix: accounts share only whole levels of their names in
 reports

---
 book/book_accum.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/book/book_accum.go b/book/book_accum.go
index e1270b6..5b386a4 100644
--- a/book/book_accum.go
+++ b/book/book_accum.go
@@ -21,9 +21,9 @@ func findMaxCommonPrefix(left string, right string, divider string) string {
 		}
 	}
 
-	if (i < len(left) && strings.HasPrefix(left[i:], divider)) ||
-		(i < len(right) && strings.HasPrefix(right[i:], divider)) ||
-		(i == len(left) && i == len(right)) {
+	// Both have to end or start a new level here ('A' is no prefix of 'AB:x')
+	if (i == len(left) || strings.HasPrefix(left[i:], divider)) &&
+		(i == len(right) || strings.HasPrefix(right[i:], divider)) {
 		prefix = i
 	}
 
-- 
2.43.0


From 0676bfcce620680c268fb7cb4780b6fd93af316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 03/66] fix: keep accounts under their own subtotal in reports
 when amounts are equal or large

---
 book/book_accum.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/book/book_accum.go b/book/book_accum.go
index 5b386a4..53d22e3 100644
--- a/book/book_accum.go
+++ b/book/book_accum.go
@@ -30,24 +30,33 @@ func findMaxCommonPrefix(left string, right string, divider string) string {
 	return left[0:prefix]
 }
 
+// getSortOrder is larger amounts first, for amounts of any size.
 func getSortOrder(a *big.Rat) string {
+	const max = 4_000_000_000_000_000_000
 	f, _ := a.Float64()
-	g := int64(f * 1000_000)
-	g = 1_000_000_000*1_000_000 - g
-	return fmt.Sprintf("%015x", g)
+	f = f * 1000_000
+	if f > max {
+		f = max
+	} else if f < -max {
+		f = -max
+	}
+	return fmt.Sprintf("%016x", max-int64(f))
 }
 
 func getSortOrderString(val map[string]*big.Rat, acct string, divider string) string {
+	// The name keeps what is below accounts of the same value apart.
 	o := make([]string, 0, 5)
+	last := 0
 	for i := 1; i <= len(acct); i++ {
 		if i != len(acct) && !strings.HasPrefix(acct[i:], divider) {
 			continue
 		}
 		if v, ok := val[acct[:i]]; ok {
-			o = append(o, getSortOrder(v))
+			o = append(o, getSortOrder(v)+acct[last:i])
+			last = i
 		}
 	}
-	return strings.Join(o, divider)
+	return strings.Join(o, "\x00")
 }
 
 func splitByStrings(prefixes map[string]bool, acct string, includeSelf bool, divider string) (int, string) {
-- 
2.43.0


From a70855475448cf37dd00bdbe2730c951123b1c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 04/66] fix: subtotals of accounts with postings of their own
 in reports

---
 book/book_accum.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/book/book_accum.go b/book/book_accum.go
index 53d22e3..6d37218 100644
--- a/book/book_accum.go
+++ b/book/book_accum.go
@@ -220,6 +220,21 @@ func (b *Book) Accumulate(toCCY string, divider string, credit *regexp.Regexp, h
 		}
 	}
 
+	// An account with postings of its own need not be next to those below it
+	// (as 'A' is not with 'A-b' before 'A:x')
+	own := make(map[string]bool)
+	for _, p := range posts {
+		own[p.GetAccount()] = true
+	}
+	for _, p := range posts {
+		acct := p.GetAccount()
+		for i := range acct {
+			if strings.HasPrefix(acct[i:], divider) && own[acct[:i]] {
+				accum[acct[:i]] = true
+			}
+		}
+	}
+
 	transIdx := 0
 	i := 0
 	for {
-- 
2.43.0


From f3dea7d2e10c73c9c0ae72e174059df700d54282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:56 +0000
Subject: [PATCH 05/66] fix: a summed report leaves the book as it was

---
 book/book_accum.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/book/book_accum.go b/book/book_accum.go
index 6d37218..86a9e7c 100644
--- a/book/book_accum.go
+++ b/book/book_accum.go
@@ -185,8 +185,8 @@ func (b *Book) Accumulate(toCCY string, divider string, credit *regexp.Regexp, h
 		return b.Transactions()
 	}
 
-	// Add empty accounts
-	posts = addEmptyAccounts(posts)
+	// Add empty accounts (to a copy, the book stays as it is)
+	posts = addEmptyAccounts(append([]Posting{}, posts...))
 
 	// Accumulated Postings.
 	eposts := make([]Posting, 0, len(posts)) // Existing Terminal
-- 
2.43.0


From 732ecfbba76543268286aeae45a80ecd4d378969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:56 +0000
Subject: [PATCH 06/66] fix: stop inferring rates at the end of the transaction

---
 book/transaction.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/book/transaction.go b/book/transaction.go
index 7837fcd..a49afa0 100644
--- a/book/transaction.go
+++ b/book/transaction.go
@@ -46,6 +46,10 @@ func (t Transaction) InferRates(base string) map[string]*big.Rat {
 			}
 		}
 
+		if i >= len(t) {
+			break
+		}
+
 		lastAccount = i
 		i++
 	}
-- 
2.43.0


From 043202ad8ea97fc80782965ef6c11d012abd4a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:56 +0000
Subject: [PATCH 07/66] fix: duplicated books do not share amounts

---
 book/book.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/book/book.go b/book/book.go
index 036f9ac..479df7e 100644
--- a/book/book.go
+++ b/book/book.go
@@ -45,10 +45,14 @@ func (b *Book) GetPriceList(unit string, ccy string) PriceList {
 
 func (b *Book) Duplicate() *Book {
 	newp := make([]Posting, len(b.post), len(b.post))
-	copy(newp, b.post)
-	newt := make([]Transaction, len(b.trans), len(b.trans))
-	copy(newt, b.trans)
-	return &Book{newp, newt, b.prices, b.ccy}
+	for i, p := range b.post {
+		p.val = big.NewRat(0, 1).Set(p.val)
+		p.bal = big.NewRat(0, 1).Set(p.bal)
+		newp[i] = p
+	}
+	nbook := &Book{newp, nil, b.prices, b.ccy}
+	nbook.compact()
+	return nbook
 }
 
 func (b *Book) GetCCYDecimals() map[string]int {
-- 
2.43.0


From 3b73e3570771406da007534c003b62e3a2e5b6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:56 +0000
Subject: [PATCH 08/66] fix: renaming commodities renames every price once

---
 book/book_utils.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/book/book_utils.go b/book/book_utils.go
index cbdc0a3..6970e1d 100644
--- a/book/book_utils.go
+++ b/book/book_utils.go
@@ -3,6 +3,7 @@ package book
 import (
 	"math/big"
 	"regexp"
+	"sort"
 )
 
 // Rename accounts
@@ -39,21 +40,24 @@ func (b *Book) RegexCCY(search string, replace string) {
 		}
 	})
 
-	// Map the prices
-	for ccypair, pl := range b.prices.data {
-		newpair := ccypair
-		if re.MatchString(ccypair.Unit) {
-			newpair.Unit = re.ReplaceAllString(ccypair.Unit, replace)
+	// Map the prices (always in the same order, into prices of its own)
+	pairs := b.GetPricePairs()
+	sort.Slice(pairs, func(i, j int) bool {
+		if pairs[i].Unit != pairs[j].Unit {
+			return pairs[i].Unit < pairs[j].Unit
 		}
-		if re.MatchString(ccypair.CCY) {
-			newpair.CCY = re.ReplaceAllString(ccypair.CCY, replace)
-		}
-		if newpair.Unit == ccypair.Unit && newpair.CCY == ccypair.CCY {
-			continue
+		return pairs[i].CCY < pairs[j].CCY
+	})
+	prices := newPriceBookBuilder()
+	for _, pair := range pairs {
+		for _, p := range b.prices.data[pair] {
+			prices.addPrice(p.date,
+				re.ReplaceAllString(pair.Unit, replace),
+				re.ReplaceAllString(pair.CCY, replace),
+				p.val)
 		}
-		b.prices.data[newpair] = pl
-		delete(b.prices.data, ccypair)
 	}
+	b.prices = prices.build()
 }
 
 func (b *Book) FilterByDateSince(minDate Date) {
-- 
2.43.0


From e0760b3222d41efb15d16f1673f9e17e48675121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:29 +0000
Subject: [PATCH 09/66] fix: convert register amounts into the base currency,
 not out of it

---
 book/registry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/book/registry.go b/book/registry.go
index 62fea97..8b8f028 100644
--- a/book/registry.go
+++ b/book/registry.go
@@ -130,7 +130,7 @@ func (b *Book) ExtractRegister(baseccy string, re *regexp.Regexp, split bool) Re
 					if r != nil {
 						baseSource = PriceTypeTrade
 					} else {
-						r, baseSource = b.GetPrice(trans.GetDate(), baseccy, p.GetCCY())
+						r, baseSource = b.GetPrice(trans.GetDate(), p.GetCCY(), baseccy)
 					}
 					baseAmt = big.NewRat(0, 1).Mul(r, camts[i])
 				}
-- 
2.43.0


From 8629270d0675e5e716dc37dc52889fd412269f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:34 +0000
Subject: [PATCH 10/66] fix: a price of zero has no inverse rate

---
 book/price.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/book/price.go b/book/price.go
index f853d42..113c173 100644
--- a/book/price.go
+++ b/book/price.go
@@ -190,6 +190,10 @@ func (p *priceBook) getPrice(date Date, unit string, ccy string) (*big.Rat, Pric
 	v, ok = p.data[PricePair{ccy, unit}]
 	if ok {
 		r, pt := v.GetPrice(date)
+		if r.Sign() == 0 {
+			// Worthless, there is no rate the other way
+			return big.NewRat(1, 1), PriceTypeNone
+		}
 		return big.NewRat(0, 1).Inv(r), pt
 	}
 	return big.NewRat(1, 1), PriceTypeNone
-- 
2.43.0


From 80c49aeba56f6414161bec38b7701c4b52402109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:49 +0000
Subject: [PATCH 11/66] fix: read amounts of more than 18 digits exactly

---
 loader/lexer.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index 9348205..9b0c7e6 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -146,14 +146,15 @@ func (rr *basicReader) parseAmt() *big.Rat {
 	}
 
 	isDec := false
-	var num int64 = 0
-	var mag int64 = 1
+	ten := big.NewInt(10)
+	num := big.NewInt(0)
+	mag := big.NewInt(1)
 	for {
 		if rr.ch >= '0' && rr.ch <= '9' {
-			num *= 10
-			num += int64(rr.ch - '0')
+			num.Mul(num, ten)
+			num.Add(num, big.NewInt(int64(rr.ch-'0')))
 			if isDec {
-				mag *= 10
+				mag.Mul(mag, ten)
 			}
 			rr.next()
 			continue
@@ -172,8 +173,8 @@ func (rr *basicReader) parseAmt() *big.Rat {
 	}
 
 	if isNeg {
-		num *= -1
+		num.Neg(num)
 	}
 
-	return big.NewRat(num, mag)
+	return new(big.Rat).SetFrac(num, mag)
 }
-- 
2.43.0


From b33564fd2f6e88550fed4bcfefd98c68a4e03953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:51 +0000
Subject: [PATCH 12/66] fix: do not take a NUL character for the end of the
 ledger

---
 loader/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index 9b0c7e6..669e1e2 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -18,7 +18,7 @@ type basicReader struct {
 	col    int
 }
 
-const eof = rune(0)
+const eof = rune(-1)
 const eol = rune('\n')
 
 func newRuneReader(r *bufio.Reader) *basicReader {
-- 
2.43.0


From a28fbdd7e4d6d25ada2a9389a23b50e2ea63c179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 13/66] fix: refuse ledgers with dates the calendar does not
 have

---
 book/date.go    | 17 +++++++++++++++++
 loader/lexer.go |  3 +++
 2 files changed, 20 insertions(+)

diff --git a/book/date.go b/book/date.go
index 51c76e4..0a8ade4 100644
--- a/book/date.go
+++ b/book/date.go
@@ -146,6 +146,23 @@ func GetToday() Date {
 	return Date((n.Year() * 10000) + (int(n.Month()) * 100) + n.Day())
 }
 
+// IsValid returns whether it is a date of the calendar
+func (date Date) IsValid() bool {
+	year := int(date / 10000)
+	month := int(date/100) % 100
+	day := int(date % 100)
+
+	if year < 1 || month < 1 || month > 12 || day < 1 {
+		return false
+	}
+
+	days := monthDays[month-1]
+	if month == 2 && YearIsLeapYear(year-1) {
+		days++
+	}
+	return day <= days
+}
+
 func GetDate(year int, month int, day int) Date {
 	d := Date((year * 10000) + (month * 100) + day)
 	return d
diff --git a/loader/lexer.go b/loader/lexer.go
index 669e1e2..109b53a 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -75,6 +75,9 @@ func (rr *basicReader) parseDate() book.Date {
 	date = (date * 100) + rr.parseNumber(&date, 1, 2)
 	rr.consume('/')
 	date = (date * 100) + rr.parseNumber(&date, 1, 2)
+	if !book.Date(date).IsValid() {
+		rr.stop("invalid date %s", book.Date(date))
+	}
 	return book.Date(date)
 }
 
-- 
2.43.0


From d50e465dcd00dbb99c174e33f99434934f9512d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 14/66] fix: refuse an amount without a currency instead of
 ignoring it

---
 loader/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/loader/parser.go b/loader/parser.go
index 37158bb..04dda28 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -323,7 +323,10 @@ func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]s
 	}
 
 	if ccy == "" {
-		// ASSERT: dec should be 0
+		// Without a currency there can't be an amount
+		if dec.Sign() != 0 {
+			rr.stop("expected currency for amount %s", dec.RatString())
+		}
 		var ZERO big.Int
 		for ccy, dec := range loader.GetLastCCYBals() {
 			if dec.Num().Cmp(&ZERO) != 0 {
-- 
2.43.0


From cb5d75dbaff01af502e36353af1352b974e05faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 15/66] fix: return an error for a missing ledger file instead
 of exiting

---
 loader/parser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/loader/parser.go b/loader/parser.go
index 04dda28..11ab858 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -5,7 +5,6 @@ import (
 	"bytes"
 	"fmt"
 	"github.com/mescanne/goledger/book"
-	"log"
 	"math/big"
 	"os"
 	"path/filepath"
@@ -203,7 +202,7 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 
 	file, err := os.Open(filename)
 	if err != nil {
-		log.Fatal(err)
+		return fmt.Errorf("opening ledger: %w", err)
 	}
 	defer file.Close()
 
-- 
2.43.0


From d4aad89b3247d74d607006bc8ba8e27e960a9b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 16/66] fix: refuse ledger files which include themselves

---
 loader/parser.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/loader/parser.go b/loader/parser.go
index 11ab858..dc77f04 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -194,12 +194,21 @@ func (rr *basicReader) parsePrice(loader TransactionLoader) {
 //
 // reterr returns the parsing error or nil if everything loaded.
 func ParseFile(loader TransactionLoader, filename string) (reterr error) {
-	return parseFileLocal(loader, filename, nil)
+	return parseFileLocal(loader, filename, nil, nil)
 }
 
-func parseFileLocal(loader TransactionLoader, filename string, alias map[string]string) (reterr error) {
+func parseFileLocal(loader TransactionLoader, filename string, alias map[string]string, parents []string) (reterr error) {
 	reterr = nil
 
+	// Refuse a file which includes itself
+	filename = filepath.Clean(filename)
+	for _, parent := range parents {
+		if parent == filename {
+			return fmt.Errorf("parsing failure: %s: file includes itself", filename)
+		}
+	}
+	parents = append(parents[:len(parents):len(parents)], filename)
+
 	file, err := os.Open(filename)
 	if err != nil {
 		return fmt.Errorf("opening ledger: %w", err)
@@ -261,7 +270,7 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 				if ifile[0] == '"' && ifile[len(ifile)-1] == '"' {
 					ifile = ifile[1 : len(ifile)-1]
 				}
-				err := parseFileLocal(loader, filepath.Join(filepath.Dir(filename), ifile), nmap)
+				err := parseFileLocal(loader, filepath.Join(filepath.Dir(filename), ifile), nmap, parents)
 				if err != nil {
 					return err
 				}
-- 
2.43.0


From c64ae7d42ab5269ef45811487c711e58f8595944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 17/66] fix: report an unbalanced last transaction as an error

---
 cmd/app/app.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/app/app.go b/cmd/app/app.go
index 48e2138..2531ca4 100644
--- a/cmd/app/app.go
+++ b/cmd/app/app.go
@@ -56,13 +56,19 @@ func init() {
 }
 
 // Load a book from the configured ledger file
-func (app *App) LoadBook() (*book.Book, error) {
+func (app *App) LoadBook() (b *book.Book, err error) {
+	// The last transaction is checked when building
+	defer func() {
+		if msg := recover(); msg != nil {
+			b, err = nil, fmt.Errorf("loading %s: %v", app.Ledger, msg)
+		}
+	}()
+
 	bbuilder := book.NewBookBuilder()
 	if err := loader.ParseFile(bbuilder, app.Ledger); err != nil {
 		return nil, err
 	}
-	b := bbuilder.Build()
-	return b, nil
+	return bbuilder.Build(), nil
 }
 
 const version = "0.1"
-- 
2.43.0


From ab6b64258d5c1b27ad1560d8be0e02448f3d18ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 18/66] fix: return an error when a ledger cannot be read
 instead of exiting

---
 loader/lexer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index 109b53a..a8a8576 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/book"
 	"io"
-	"log"
 	"math/big"
 	"unicode"
 )
@@ -113,7 +112,7 @@ func (rr *basicReader) next() rune {
 	if err == io.EOF {
 		r = eof
 	} else if err != nil {
-		log.Fatal(err)
+		rr.stop("reading: %v", err)
 	}
 	rr.ch = r
 	if rr.ch == eol {
-- 
2.43.0


From 85a1cadd99da5232ec9455f813daadd652db78a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 19/66] fix: refuse postings before the first transaction

---
 book/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/book/builder.go b/book/builder.go
index 6d73cf4..02d176a 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -105,6 +105,10 @@ func (b *Builder) NewTransaction(date Date, payee string, note string) {
 }
 
 func (b *Builder) AddPosting(acct string, ccy string, amt *big.Rat, note string) {
+	if b.currDate == Date(-1) {
+		panic(fmt.Sprintf("posting for %s is not in a transaction", acct))
+	}
+
 	b.post = append(b.post, Posting{
 		date:  b.currDate,
 		payee: b.currPayee,
-- 
2.43.0


From cac0e9a147eeff38ac8983f7f90b7bef17267844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 20/66] fix: show enough decimals for every amount of a
 currency

---
 book/builder.go | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/book/builder.go b/book/builder.go
index 02d176a..eb21ffd 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -18,27 +18,13 @@ type Builder struct {
 func (b *Builder) Build() *Book {
 	b.checkAndClearTransaction()
 
-	// Get the largest denominators by currency
-	mmap := make(map[string]*big.Int)
-	for _, p := range b.post {
-		eval, ok := mmap[p.GetCCY()]
-		if !ok || eval.Cmp(p.GetAmount().Denom()) < 0 {
-			mmap[p.GetCCY()] = p.GetAmount().Denom()
-		}
-	}
-
-	// Convert to number of decimals
+	// Get the largest number of decimals by currency
 	rmap := make(map[string]int)
-	ten := big.NewInt(10)
-	for k, v := range mmap {
-		p := big.NewInt(1)
-		c := 0
-		// for as long as Denom is bigger keep doing p = p * 10
-		for p.Cmp(v) < 0 {
-			p.Mul(p, ten)
-			c += 1
+	for _, p := range b.post {
+		c := decimals(p.GetAmount().Denom())
+		if eval, ok := rmap[p.GetCCY()]; !ok || eval < c {
+			rmap[p.GetCCY()] = c
 		}
-		rmap[k] = c
 	}
 
 	nbook := &Book{
@@ -54,6 +40,25 @@ func (b *Builder) Build() *Book {
 	return nbook
 }
 
+// Number of decimals for writing fractions of a denominator: exactly
+// if that is possible, otherwise as many as the denominator has digits.
+func decimals(denom *big.Int) int {
+	ten := big.NewInt(10)
+	p := big.NewInt(1)
+	var rem big.Int
+	large := -1
+	for c := 0; c <= denom.BitLen(); c++ {
+		if rem.Rem(p, denom).Sign() == 0 {
+			return c
+		}
+		if large < 0 && p.Cmp(denom) >= 0 {
+			large = c
+		}
+		p.Mul(p, ten)
+	}
+	return large
+}
+
 func NewBookBuilder() *Builder {
 	return &Builder{
 		post:      make([]Posting, 0, 200),
-- 
2.43.0


From 6b9c1555099e8a652ca1736694f2091a620ff54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 21/66] fix: show account names in reports which are not
 summarised

---
 book/builder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/book/builder.go b/book/builder.go
index eb21ffd..2d21b29 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -123,6 +123,8 @@ func (b *Builder) AddPosting(acct string, ccy string, amt *big.Rat, note string)
 		val:   amt,
 		note:  note,
 		bal:   big.NewRat(0, 1),
+
+		acctterm: acct,
 	})
 
 	v, ok := b.currAmts[ccy]
-- 
2.43.0


From 50d9bc262e8fddf55ef08ff88cd9e742eabdb803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:06 +0000
Subject: [PATCH 22/66] fix: keep the decimals of currencies which are renamed

---
 book/book_utils.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/book/book_utils.go b/book/book_utils.go
index 6970e1d..16ff010 100644
--- a/book/book_utils.go
+++ b/book/book_utils.go
@@ -58,6 +58,16 @@ func (b *Book) RegexCCY(search string, replace string) {
 		}
 	}
 	b.prices = prices.build()
+
+	// Map the decimals (again not touching those of a duplicate)
+	decs := make(map[string]int)
+	for ccy, dec := range b.ccy {
+		nccy := re.ReplaceAllString(ccy, replace)
+		if d, ok := decs[nccy]; !ok || d < dec {
+			decs[nccy] = dec
+		}
+	}
+	b.ccy = decs
 }
 
 func (b *Book) FilterByDateSince(minDate Date) {
-- 
2.43.0


From 1360b3eff9f467ced13de3a13815d1e52bd25455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 23/66] fix: list accounts with a balance in any of their
 currencies

---
 book/book.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/book/book.go b/book/book.go
index 479df7e..3bec024 100644
--- a/book/book.go
+++ b/book/book.go
@@ -199,20 +199,31 @@ func (b *Book) AdjustPost(search_acct string, replace_acct string, factor float6
 }
 
 // Find all the accounts matching regular expression reg that have non-zero balances
-// TODO: This only applies where balance is already calculated!
+// in any currency
 func (b *Book) Accounts(reg string, onlyWithBalance bool) []string {
 	re := regexp.MustCompile(reg)
-	lbal := make(map[string]*big.Rat)
+	lbal := make(map[string]map[string]*big.Rat)
 	accts := make([]string, 0, 10)
+
+	// Balances are calculated when compacting
+	b.compact()
 	for _, p := range b.post {
 		if re.MatchString(p.GetAccount()) {
-			lbal[p.GetAccount()] = p.GetBalance()
+			if lbal[p.GetAccount()] == nil {
+				lbal[p.GetAccount()] = make(map[string]*big.Rat)
+			}
+			lbal[p.GetAccount()][p.GetCCY()] = p.GetBalance()
 		}
 	}
 
-	var zero big.Int
-	for acct, bal := range lbal {
-		if !onlyWithBalance || bal.Num().Cmp(&zero) != 0 {
+	for acct, bals := range lbal {
+		hasBalance := false
+		for _, bal := range bals {
+			if bal.Sign() != 0 {
+				hasBalance = true
+			}
+		}
+		if !onlyWithBalance || hasBalance {
 			accts = append(accts, acct)
 		}
 	}
-- 
2.43.0


From 456d22a315769198d4315e5439e738365cf7d8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 24/66] fix: move exactly the share asked for

---
 book/book.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/book/book.go b/book/book.go
index 3bec024..bacbf48 100644
--- a/book/book.go
+++ b/book/book.go
@@ -5,6 +5,7 @@ import (
 	"math/big"
 	"regexp"
 	"sort"
+	"strconv"
 )
 
 /* Book of dated transactions (set of postings), currencies (units), and conversions
@@ -183,7 +184,8 @@ func (b *Book) Depreciate(search_acct string, replace_acct string, period string
 func (b *Book) AdjustPost(search_acct string, replace_acct string, factor float64) {
 	re := regexp.MustCompile(search_acct)
 	var r, i big.Rat
-	r.SetFloat64(factor)
+	// The decimal number as it was written, not its nearest binary fraction
+	r.SetString(strconv.FormatFloat(factor, 'f', -1, 64))
 	i.Neg(&r)
 	newposts := b.post
 	for _, p := range b.post {
-- 
2.43.0


From b0fa5453fe2d03a94ea0e911a009cebbfa8f550f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 25/66] fix: refuse postings without an account

---
 loader/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/loader/parser.go b/loader/parser.go
index dc77f04..04b4298 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -305,6 +305,9 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]string) {
 	_ = rr.consumeWS()
 	acct := rr.parseAccount()
+	if acct == "" {
+		rr.stop("expected account, got '%c'", rr.ch)
+	}
 	nacct, ok := alias[acct]
 	if ok {
 		acct = nacct
-- 
2.43.0


From c1aa821e1a3b16c17547dfa816bb286fb81161e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:27 +0000
Subject: [PATCH 26/66] fix: refuse prices without a unit or currency

---
 loader/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/loader/parser.go b/loader/parser.go
index 04b4298..2222e69 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -180,6 +180,9 @@ func (rr *basicReader) parsePrice(loader TransactionLoader) {
 	unit := rr.parseCCY()
 	_ = rr.consumeWS()
 	ccy, amt := rr.parseCCYAmt()
+	if unit == "" || ccy == "" {
+		rr.stop("expected unit and currency of a price")
+	}
 	loader.AddPrice(book.Date(date), unit, ccy, amt)
 	if rr.ch == eol {
 		rr.next()
-- 
2.43.0


From ba29c644f35291d1e3f57f5d615279e72c4c4a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 27/66] fix: export prices in the same order every time

---
 book/book.go       | 6 ++++++
 book/book_utils.go | 7 -------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/book/book.go b/book/book.go
index bacbf48..008cfe2 100644
--- a/book/book.go
+++ b/book/book.go
@@ -36,6 +36,12 @@ func (b *Book) GetPricePairs() []PricePair {
 	for pair, _ := range b.prices.data {
 		pairs = append(pairs, pair)
 	}
+	sort.Slice(pairs, func(i, j int) bool {
+		if pairs[i].Unit != pairs[j].Unit {
+			return pairs[i].Unit < pairs[j].Unit
+		}
+		return pairs[i].CCY < pairs[j].CCY
+	})
 
 	return pairs
 }
diff --git a/book/book_utils.go b/book/book_utils.go
index 16ff010..96b7ac4 100644
--- a/book/book_utils.go
+++ b/book/book_utils.go
@@ -3,7 +3,6 @@ package book
 import (
 	"math/big"
 	"regexp"
-	"sort"
 )
 
 // Rename accounts
@@ -42,12 +41,6 @@ func (b *Book) RegexCCY(search string, replace string) {
 
 	// Map the prices (always in the same order, into prices of its own)
 	pairs := b.GetPricePairs()
-	sort.Slice(pairs, func(i, j int) bool {
-		if pairs[i].Unit != pairs[j].Unit {
-			return pairs[i].Unit < pairs[j].Unit
-		}
-		return pairs[i].CCY < pairs[j].CCY
-	})
 	prices := newPriceBookBuilder()
 	for _, pair := range pairs {
 		for _, p := range b.prices.data[pair] {
-- 
2.43.0


From 4cfb806c04c5f8e786275334dde8d6793017452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 28/66] fix: write exact amounts into ledger files in every
 language

---
 book/builder.go       |  4 ++--
 cmd/app/print.go      | 14 ++++++++++++++
 cmd/export/ledger.go  |  4 ++--
 cmd/reports/ledger.go |  2 +-
 4 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/book/builder.go b/book/builder.go
index 2d21b29..7b98f57 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -21,7 +21,7 @@ func (b *Builder) Build() *Book {
 	// Get the largest number of decimals by currency
 	rmap := make(map[string]int)
 	for _, p := range b.post {
-		c := decimals(p.GetAmount().Denom())
+		c := Decimals(p.GetAmount().Denom())
 		if eval, ok := rmap[p.GetCCY()]; !ok || eval < c {
 			rmap[p.GetCCY()] = c
 		}
@@ -42,7 +42,7 @@ func (b *Builder) Build() *Book {
 
 // Number of decimals for writing fractions of a denominator: exactly
 // if that is possible, otherwise as many as the denominator has digits.
-func decimals(denom *big.Int) int {
+func Decimals(denom *big.Int) int {
 	ten := big.NewInt(10)
 	p := big.NewInt(1)
 	var rem big.Int
diff --git a/cmd/app/print.go b/cmd/app/print.go
index 0c5feac..b1dab58 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -4,6 +4,7 @@ import (
 	"encoding/csv"
 	"encoding/json"
 	"fmt"
+	"github.com/mescanne/goledger/book"
 	"golang.org/x/term"
 	"golang.org/x/text/language"
 	"golang.org/x/text/message"
@@ -267,6 +268,19 @@ func (b *BookPrinter) FormatNumber(symbol string, amount *big.Rat) string {
 	return b.pr.Sprintf("%.*f", dec, f)
 }
 
+// Format the number for reading it back: exactly, with at least the decimals
+// of the symbol, and the same in every locale
+func (b *BookPrinter) FormatExact(symbol string, amount *big.Rat) string {
+	dec, ok := b.decs[symbol]
+	if !ok {
+		dec = 2
+	}
+	if d := book.Decimals(amount.Denom()); d > dec {
+		dec = d
+	}
+	return amount.FloatString(dec)
+}
+
 // Formal the symbol (CCY) for printing
 func (b *BookPrinter) FormatSymbol(symbol string) string {
 	if sym := []rune(symbol); unicode.IsLetter(sym[len(sym)-1]) || sym[len(sym)-1] == '"' {
diff --git a/cmd/export/ledger.go b/cmd/export/ledger.go
index e6429a3..1081b46 100644
--- a/cmd/export/ledger.go
+++ b/cmd/export/ledger.go
@@ -36,7 +36,7 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 
 			ccy := LedgerFormatCurrency(p.GetCCY())
 
-			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatNumber(p.GetCCY(), p.GetAmount()), pnote)
+			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatExact(p.GetCCY(), p.GetAmount()), pnote)
 		}
 		b.Printf("\n")
 	}
@@ -45,7 +45,7 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 	for _, pair := range bk.GetPricePairs() {
 		pl := bk.GetPriceList(pair.Unit, pair.CCY)
 		for _, p := range pl {
-			b.Printf("P %s 00:00:00 %s %s%s\n", p.GetDate(), pair.Unit, b.FormatSymbol(pair.CCY), b.FormatNumber(pair.CCY, p.GetPrice()))
+			b.Printf("P %s 00:00:00 %s %s%s\n", p.GetDate(), pair.Unit, b.FormatSymbol(pair.CCY), b.FormatExact(pair.CCY, p.GetPrice()))
 		}
 	}
 
diff --git a/cmd/reports/ledger.go b/cmd/reports/ledger.go
index 07d497a..bf5eef1 100644
--- a/cmd/reports/ledger.go
+++ b/cmd/reports/ledger.go
@@ -30,7 +30,7 @@ func ShowLedger(b *app.BookPrinter, trans []book.Transaction) error {
 				ccy = "\"" + ccy + "\""
 			}
 
-			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatNumber(p.GetCCY(), p.GetAmount()), pnote)
+			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatExact(p.GetCCY(), p.GetAmount()), pnote)
 		}
 		b.Printf("\n")
 	}
-- 
2.43.0


From 370467bd5992b88d6cc35e5225e27b78d0d00cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:32 +0000
Subject: [PATCH 29/66] fix: quote payees and units of prices where they need
 it

---
 cmd/export/ledger.go  | 13 +++++++++++--
 cmd/reports/ledger.go | 15 +++------------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/cmd/export/ledger.go b/cmd/export/ledger.go
index 1081b46..e14450b 100644
--- a/cmd/export/ledger.go
+++ b/cmd/export/ledger.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"github.com/mescanne/goledger/loader"
+	"strings"
 )
 
 func LedgerFormatCurrency(ccy string) string {
@@ -19,6 +20,14 @@ func LedgerFormatCurrency(ccy string) string {
 	return ccy
 }
 
+// Quote the payee if it can't be read back otherwise
+func LedgerFormatPayee(payee string) string {
+	if strings.Contains(payee, ";") || strings.HasPrefix(payee, "\"") || strings.HasPrefix(payee, "*") {
+		payee = "\"" + strings.ReplaceAll(payee, "\"", "'") + "\""
+	}
+	return payee
+}
+
 func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 	trans := bk.Transactions()
 
@@ -27,7 +36,7 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 		if tnote != "" {
 			tnote = "  ; " + tnote
 		}
-		b.Printf("%s %s%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		b.Printf("%s %s%s\n", posts.GetDate(), LedgerFormatPayee(posts.GetPayee()), tnote)
 		for _, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
@@ -45,7 +54,7 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 	for _, pair := range bk.GetPricePairs() {
 		pl := bk.GetPriceList(pair.Unit, pair.CCY)
 		for _, p := range pl {
-			b.Printf("P %s 00:00:00 %s %s%s\n", p.GetDate(), pair.Unit, b.FormatSymbol(pair.CCY), b.FormatExact(pair.CCY, p.GetPrice()))
+			b.Printf("P %s 00:00:00 %s %s%s\n", p.GetDate(), LedgerFormatCurrency(pair.Unit), b.FormatSymbol(LedgerFormatCurrency(pair.CCY)), b.FormatExact(pair.CCY, p.GetPrice()))
 		}
 	}
 
diff --git a/cmd/reports/ledger.go b/cmd/reports/ledger.go
index bf5eef1..6e69fb8 100644
--- a/cmd/reports/ledger.go
+++ b/cmd/reports/ledger.go
@@ -3,7 +3,7 @@ package reports
 import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
-	"github.com/mescanne/goledger/loader"
+	"github.com/mescanne/goledger/cmd/export"
 )
 
 func ShowLedger(b *app.BookPrinter, trans []book.Transaction) error {
@@ -12,23 +12,14 @@ func ShowLedger(b *app.BookPrinter, trans []book.Transaction) error {
 		if tnote != "" {
 			tnote = "  ; " + tnote
 		}
-		b.Printf("%s %s%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		b.Printf("%s %s%s\n", posts.GetDate(), export.LedgerFormatPayee(posts.GetPayee()), tnote)
 		for _, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
 				pnote = "  ; " + pnote
 			}
 
-			ccy := p.GetCCY()
-			needsQuotes := false
-			for _, c := range ccy {
-				if !loader.IsCCYRune(rune(c)) {
-					needsQuotes = true
-				}
-			}
-			if needsQuotes {
-				ccy = "\"" + ccy + "\""
-			}
+			ccy := export.LedgerFormatCurrency(p.GetCCY())
 
 			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatExact(p.GetCCY(), p.GetAmount()), pnote)
 		}
-- 
2.43.0


From 326213a9d87cf02cdaf6a38a0b710d3cc75737fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 30/66] fix: refuse a currency without an amount

---
 loader/lexer.go  |  7 +++++--
 loader/parser.go | 10 ++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index a8a8576..4b5881a 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -138,7 +138,8 @@ func (rr *basicReader) parseQuotedString() string {
 	return buf.String()
 }
 
-func (rr *basicReader) parseAmt() *big.Rat {
+// Parse an amount, false if there is none (no digits)
+func (rr *basicReader) parseAmt() (*big.Rat, bool) {
 	_ = rr.consumeWS()
 
 	isNeg := false
@@ -147,6 +148,7 @@ func (rr *basicReader) parseAmt() *big.Rat {
 		rr.next()
 	}
 
+	ok := false
 	isDec := false
 	ten := big.NewInt(10)
 	num := big.NewInt(0)
@@ -155,6 +157,7 @@ func (rr *basicReader) parseAmt() *big.Rat {
 		if rr.ch >= '0' && rr.ch <= '9' {
 			num.Mul(num, ten)
 			num.Add(num, big.NewInt(int64(rr.ch-'0')))
+			ok = true
 			if isDec {
 				mag.Mul(mag, ten)
 			}
@@ -178,5 +181,5 @@ func (rr *basicReader) parseAmt() *big.Rat {
 		num.Neg(num)
 	}
 
-	return new(big.Rat).SetFrac(num, mag)
+	return new(big.Rat).SetFrac(num, mag), ok
 }
diff --git a/loader/parser.go b/loader/parser.go
index 2222e69..bd4e5e6 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -131,11 +131,17 @@ func IsCCYRune(c rune) bool {
 func (rr *basicReader) parseCCYAmt() (string, *big.Rat) {
 	if rr.ch == '"' || IsCCYRune(rr.ch) {
 		ccy := rr.parseCCY()
-		amt := rr.parseAmt()
+		amt, ok := rr.parseAmt()
+		if !ok {
+			rr.stop("expected amount for currency %s, got '%c'", ccy, rr.ch)
+		}
 		return ccy, amt
 	} else {
-		amt := rr.parseAmt()
+		amt, ok := rr.parseAmt()
 		ccy := rr.parseCCY()
+		if !ok && ccy != "" {
+			rr.stop("expected amount for currency %s", ccy)
+		}
 		return ccy, amt
 	}
 }
-- 
2.43.0


From 814b3d81dde4645afbeb9800e75539596e78b1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 31/66] fix: write exact amounts to CSV files

---
 cmd/app/print.go              | 11 ++++++++++-
 cmd/export/csv.go             |  6 ++----
 cmd/register/show_register.go |  6 ++----
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index b1dab58..6a4433f 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -121,7 +121,7 @@ func (b *BookPrinter) PrintCSV(rows [][]string) error {
 
 	csvwrite.Flush()
 
-	return nil
+	return csvwrite.Error()
 }
 
 type ColumnValue interface {
@@ -281,6 +281,15 @@ func (b *BookPrinter) FormatExact(symbol string, amount *big.Rat) string {
 	return amount.FloatString(dec)
 }
 
+// Format the number for other programs: exactly, with at least six decimals
+func FormatDecimal(amount *big.Rat) string {
+	dec := 6
+	if d := book.Decimals(amount.Denom()); d > dec {
+		dec = d
+	}
+	return amount.FloatString(dec)
+}
+
 // Formal the symbol (CCY) for printing
 func (b *BookPrinter) FormatSymbol(symbol string) string {
 	if sym := []rune(symbol); unicode.IsLetter(sym[len(sym)-1]) || sym[len(sym)-1] == '"' {
diff --git a/cmd/export/csv.go b/cmd/export/csv.go
index dfc28ba..a5891c0 100644
--- a/cmd/export/csv.go
+++ b/cmd/export/csv.go
@@ -4,7 +4,6 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"encoding/csv"
-	"fmt"
 )
 
 func ShowCSV(b *app.BookPrinter, bk *book.Book) error {
@@ -25,14 +24,13 @@ func ShowCSV(b *app.BookPrinter, bk *book.Book) error {
 	// Postings
 	for _, posts := range bk.Transactions() {
 		for _, p := range posts {
-        		f, _ := p.GetAmount().Float64()
 			csvwrite.Write([]string{
 				posts.GetDate().String(),
 				posts.GetPayee(),
 				posts.GetTransactionNote(),
 				p.GetAccount(),
 				p.GetCCY(),
-				fmt.Sprintf("%f", f),
+				app.FormatDecimal(p.GetAmount()),
 				p.GetPostNote(),
 			})
 		}
@@ -40,5 +38,5 @@ func ShowCSV(b *app.BookPrinter, bk *book.Book) error {
 
 	csvwrite.Flush()
 
-	return nil
+	return csvwrite.Error()
 }
diff --git a/cmd/register/show_register.go b/cmd/register/show_register.go
index f7e338f..148a53f 100644
--- a/cmd/register/show_register.go
+++ b/cmd/register/show_register.go
@@ -122,16 +122,14 @@ func ShowCSV(b *app.BookPrinter, report book.RegistryReport) error {
 
 	// Print out content
 	for _, p := range report {
-		amt, _ := p.Amount.Float64()
-		bal, _ := p.Balance.Float64()
 		rows = append(rows, []string{
 			p.Date.String(),
 			p.Payee,
 			p.Account,
 			p.CounterAccount,
 			p.CCY,
-			fmt.Sprintf("%f", amt),
-			fmt.Sprintf("%f", bal),
+			app.FormatDecimal(p.Amount),
+			app.FormatDecimal(p.Balance),
 		})
 	}
 
-- 
2.43.0


From 49e98eaed6eb4e35ff9ee2e8f338788991ee78b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:40 +0000
Subject: [PATCH 32/66] fix: write the note of a posting, not of its
 transaction, to JSON

---
 book/posting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/book/posting.go b/book/posting.go
index d15fbb5..92390da 100644
--- a/book/posting.go
+++ b/book/posting.go
@@ -124,6 +124,6 @@ func (p Posting) MarshalJSON() ([]byte, error) {
 		Account: p.acct,
 		CCY:     p.ccy,
 		Amount:  amt,
-		Note:    p.tnote,
+		Note:    p.note,
 	})
 }
-- 
2.43.0


From dfbc9b883999632199bc2e29917ee2c72ba1f4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:41 +0000
Subject: [PATCH 33/66] fix: show all entries of a register in descending order

---
 cmd/register/show_register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/register/show_register.go b/cmd/register/show_register.go
index 148a53f..e3e612f 100644
--- a/cmd/register/show_register.go
+++ b/cmd/register/show_register.go
@@ -28,7 +28,7 @@ func ShowReport(b *app.BookPrinter, report book.RegistryReport, format string, c
 	// Reverse if requested
 	if !asc {
 		ndata := make([]*book.RegistryEntry, len(report), len(report))
-		for i := 0; i < len(report)/2; i++ {
+		for i := 0; i < len(report); i++ {
 			ndata[len(report)-i-1] = (report)[i]
 		}
 		report = ndata
-- 
2.43.0


From c742f5f37986502ebe1da5b01b35ca6c478abfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:42 +0000
Subject: [PATCH 34/66] fix: show the register of exactly the account asked for

---
 cmd/register/register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/register/register.go b/cmd/register/register.go
index 649cd66..37f13cd 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -106,7 +106,7 @@ func (reg *RegisterReport) run(rapp *app.App, cmd *cobra.Command, args []string)
 
 	for _, acct := range b.Accounts(arg, !rapp.All) {
 		bp.Printf("\n%s\n", bp.Ansi(app.BlueUL, acct))
-		acctRe, err := regexp.Compile(fmt.Sprintf("^%s$", acct))
+		acctRe, err := regexp.Compile(fmt.Sprintf("^%s$", regexp.QuoteMeta(acct)))
 		if err != nil {
 			return fmt.Errorf("failed compiling re for account '%s': %w", acct, err)
 		}
-- 
2.43.0


From 2b5ed337d83e70561891eac0be835e7c22047b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 35/66] fix: refuse invalid regular expressions and dates with
 an error

---
 cmd/accounts/accounts.go |  7 ++++++-
 cmd/register/register.go | 10 ++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/cmd/accounts/accounts.go b/cmd/accounts/accounts.go
index 1712049..91ee281 100644
--- a/cmd/accounts/accounts.go
+++ b/cmd/accounts/accounts.go
@@ -1,8 +1,10 @@
 package accounts
 
 import (
+	"fmt"
 	rapp "github.com/mescanne/goledger/cmd/app"
 	"github.com/spf13/cobra"
+	"regexp"
 )
 
 func Add(cmd *cobra.Command, app *rapp.App) {
@@ -28,6 +30,9 @@ func Add(cmd *cobra.Command, app *rapp.App) {
 		if len(args) == 1 {
 			regex = args[0]
 		}
+		if _, err := regexp.Compile(regex); err != nil {
+			return fmt.Errorf("invalid regex: '%s': %w", regex, err)
+		}
 
 		// Create printer
 		bp := app.NewBookPrinter(b.GetCCYDecimals())
@@ -37,7 +42,7 @@ func Add(cmd *cobra.Command, app *rapp.App) {
 			for _, acct := range b.Accounts(regex, !app.All) {
 				accts = append(accts, acct)
 			}
-			bp.PrintJSON(accts, true)
+			return bp.PrintJSON(accts, true)
 		} else {
 			rows := make([][]rapp.ColumnValue, 0, 100)
 			rows = append(rows, []rapp.ColumnValue{rapp.ColumnString(bp.Ansi(rapp.BlueUL, "Account"))})
diff --git a/cmd/register/register.go b/cmd/register/register.go
index 37f13cd..9a59356 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -65,6 +65,13 @@ func Add(cmd *cobra.Command, app *app.App, reg *RegisterReport) {
 
 func (reg *RegisterReport) run(rapp *app.App, cmd *cobra.Command, args []string) error {
 
+	// Dates must be dates
+	for _, date := range []string{reg.BeginDate, reg.EndDate} {
+		if date != "" && book.DateFromString(date) == book.Date(0) {
+			return fmt.Errorf("invalid date: '%s'", date)
+		}
+	}
+
 	// Load up saved flags
 	b, err := rapp.LoadBook()
 	if err != nil {
@@ -104,6 +111,9 @@ func (reg *RegisterReport) run(rapp *app.App, cmd *cobra.Command, args []string)
 		return ShowReport(bp, rep, reg.Type, reg.Count, reg.Asc, true, true)
 	}
 
+	if _, err := regexp.Compile(arg); err != nil {
+		return fmt.Errorf("invalid regex: '%s': %w", arg, err)
+	}
 	for _, acct := range b.Accounts(arg, !rapp.All) {
 		bp.Printf("\n%s\n", bp.Ansi(app.BlueUL, acct))
 		acctRe, err := regexp.Compile(fmt.Sprintf("^%s$", regexp.QuoteMeta(acct)))
-- 
2.43.0


From 805aac4c425e67bacd3dfc89463fd6b4a13e31ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 36/66] fix: report books without transactions and accounts
 missing from some

---
 cmd/reports/text.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cmd/reports/text.go b/cmd/reports/text.go
index e9dc924..556eaf3 100644
--- a/cmd/reports/text.go
+++ b/cmd/reports/text.go
@@ -9,6 +9,11 @@ import (
 
 func ShowTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 
+	// Nothing to show
+	if len(trans) == 0 {
+		return nil
+	}
+
 	// Main transaction (reference one)
 	postingTrans := trans[len(trans)-1]
 
@@ -75,6 +80,15 @@ func ShowTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 		}
 	}
 
+	// Accounts which aren't on a transaction
+	for _, row := range rows {
+		for i := range row {
+			if row[i] == nil {
+				row[i] = app.ColumnString("")
+			}
+		}
+	}
+
 	b.PrintColumns(rows, fmts)
 
 	return nil
-- 
2.43.0


From 99cc36262c008a9245deab44a43b0c519b4af9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 37/66] fix: refuse operations with an invalid regular
 expression instead of crashing

---
 cmd/app/book_op.go | 12 ++++++++++++
 script/book_op.go  |  4 ++++
 2 files changed, 16 insertions(+)

diff --git a/cmd/app/book_op.go b/cmd/app/book_op.go
index 8ee9a44..0fbee55 100644
--- a/cmd/app/book_op.go
+++ b/cmd/app/book_op.go
@@ -121,6 +121,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("mapccy operation '%s', invalid: must be format '%s'", op_act, map_op.String())
 		}
+		if _, err := regexp.Compile(args[1]); err != nil {
+			return fmt.Errorf("mapccy operation '%s', invalid: %w", op_act, err)
+		}
 		b.RegexCCY(args[1], args[2])
 		return nil
 	case "map=":
@@ -128,6 +131,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("map operation '%s', invalid: must be format '%s'", op_act, map_op.String())
 		}
+		if _, err := regexp.Compile(args[1]); err != nil {
+			return fmt.Errorf("map operation '%s', invalid: %w", op_act, err)
+		}
 		b.RegexAccounts(args[1], args[2], args[4])
 		return nil
 	case "move=":
@@ -135,6 +141,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("move operation '%s', invalid: must be format '%s'", op_act, move_op.String())
 		}
+		if _, err := regexp.Compile(args[1]); err != nil {
+			return fmt.Errorf("move operation '%s', invalid: %w", op_act, err)
+		}
 		factor, err := strconv.ParseFloat(args[3], 64)
 		if err != nil {
 			return fmt.Errorf("move factor '%s', invalid: must be float: %v", args[3], err)
@@ -169,6 +178,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("depreciate operation '%s', invalid: must be format '%s'", op_act, deprec_op.String())
 		}
+		if _, err := regexp.Compile(args[1]); err != nil {
+			return fmt.Errorf("depreciate operation '%s', invalid: %w", op_act, err)
+		}
 		months, err := strconv.ParseInt(args[3], 10, 64)
 		if err != nil {
 			return fmt.Errorf("depreciate months '%s', invalid: must be integer: %v", args[3], err)
diff --git a/script/book_op.go b/script/book_op.go
index 0773809..6cbc928 100644
--- a/script/book_op.go
+++ b/script/book_op.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/book"
 	"go.starlark.net/starlark"
+	"regexp"
 )
 
 var mapf = starlark.NewBuiltin("map",
@@ -23,6 +24,9 @@ var mapf = starlark.NewBuiltin("map",
 		if !ok {
 			return starlark.None, fmt.Errorf("%w: %s", userError, "bound to not a book")
 		}
+		if _, err := regexp.Compile(from); err != nil {
+			return starlark.None, fmt.Errorf("invalid regex: '%s': %w", from, err)
+		}
 		bb.b.RegexAccounts(from, to, alt)
 		return val, nil
 	})
-- 
2.43.0


From c1f16b01909f25fbb8d429ffe01a5d49743c138b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:15 +0000
Subject: [PATCH 38/66] fix: refuse to depreciate over no months

---
 cmd/app/book_op.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/app/book_op.go b/cmd/app/book_op.go
index 0fbee55..eae92dd 100644
--- a/cmd/app/book_op.go
+++ b/cmd/app/book_op.go
@@ -185,6 +185,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if err != nil {
 			return fmt.Errorf("depreciate months '%s', invalid: must be integer: %v", args[3], err)
 		}
+		if months < 1 {
+			return fmt.Errorf("depreciate months '%s', invalid: must be at least 1", args[3])
+		}
 		b.Depreciate(args[1], args[2], "monthly", months)
 		return nil
 	default:
-- 
2.43.0


From 1221f5acc45f8fed04a970c3250071562ba5c904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:16 +0000
Subject: [PATCH 39/66] fix: refuse macros which use themselves

---
 cmd/app/book_op.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cmd/app/book_op.go b/cmd/app/book_op.go
index eae92dd..1bab72d 100644
--- a/cmd/app/book_op.go
+++ b/cmd/app/book_op.go
@@ -86,7 +86,7 @@ var deprec_op = regexp.MustCompile("^/([^/]+)/([^/]+)/([0-9\\.]+)/$")
 
 func (app *App) BookOps(b *book.Book, ops ...string) error {
 	for _, op := range ops {
-		if err := app.bookOp(b, op); err != nil {
+		if err := app.bookOp(b, op, nil); err != nil {
 			return fmt.Errorf("error applying operation '%s': %w", op, err)
 		}
 	}
@@ -94,13 +94,20 @@ func (app *App) BookOps(b *book.Book, ops ...string) error {
 	return nil
 }
 
-func (app *App) bookOp(b *book.Book, op string) error {
+func (app *App) bookOp(b *book.Book, op string, parents []string) error {
 	var err error
 
 	m, ok := app.Macros[op]
 	if ok {
+		// Refuse a macro which uses itself
+		for _, parent := range parents {
+			if parent == op {
+				return fmt.Errorf("macro '%s' uses itself", op)
+			}
+		}
+		parents = append(parents[:len(parents):len(parents)], op)
 		for _, macro := range m {
-			err = app.bookOp(b, macro)
+			err = app.bookOp(b, macro, parents)
 			if err != nil {
 				return fmt.Errorf("macro expansion '%s': %v", op, err)
 			}
-- 
2.43.0


From a4e46532ee5e733d447551353c5a59a8fe4b00f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 40/66] fix: keep the saved file if writing it fails

---
 cmd/utils/json.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/cmd/utils/json.go b/cmd/utils/json.go
index 03fbf15..a008efa 100644
--- a/cmd/utils/json.go
+++ b/cmd/utils/json.go
@@ -113,19 +113,26 @@ func SaveToFile(file string, data interface{}) (oerr error) {
 		return fmt.Errorf("failed mkdir %s: %v", filepath.Dir(file), err)
 	}
 
-	// Open the file
-	fh, err := os.OpenFile(file, os.O_TRUNC|os.O_WRONLY|os.O_CREATE, 0755)
+	// Write to a new file, which replaces the old one when it is complete
+	newfile := file + ".new"
+	fh, err := os.OpenFile(newfile, os.O_TRUNC|os.O_WRONLY|os.O_CREATE, 0755)
 	if err != nil {
-		return fmt.Errorf("failed opening %s: %v", file, err)
+		return fmt.Errorf("failed opening %s: %v", newfile, err)
 	}
 
 	// Defered closing
 	defer func() {
-		if err := fh.Close(); err != nil {
-			if oerr != nil {
-				oerr = fmt.Errorf("failed closing %s: %v", file, err)
+		if err := fh.Close(); err != nil && oerr == nil {
+			oerr = fmt.Errorf("failed closing %s: %v", newfile, err)
+		}
+		if oerr == nil {
+			if err := os.Rename(newfile, file); err != nil {
+				oerr = fmt.Errorf("failed replacing %s: %v", file, err)
 			}
 		}
+		if oerr != nil {
+			os.Remove(newfile)
+		}
 	}()
 
 	// Check if it's gz
@@ -133,10 +140,8 @@ func SaveToFile(file string, data interface{}) (oerr error) {
 	if filepath.Ext(file) == ".gz" {
 		gwriter := gzip.NewWriter(fh)
 		defer func() {
-			if err := gwriter.Close(); err != nil {
-				if oerr != nil {
-					oerr = fmt.Errorf("failed closing %s: %v", file, err)
-				}
+			if err := gwriter.Close(); err != nil && oerr == nil {
+				oerr = fmt.Errorf("failed closing %s: %v", newfile, err)
 			}
 		}()
 		w = gwriter
@@ -151,7 +156,7 @@ func SaveToFile(file string, data interface{}) (oerr error) {
 	// Write the file
 	_, err = w.Write(b)
 	if err != nil {
-		return fmt.Errorf("failed writing to %s: %v", file, err)
+		return fmt.Errorf("failed writing to %s: %v", newfile, err)
 	}
 
 	return nil
-- 
2.43.0


From 90cd90e472d938c29cd0fbea28f48317b22abd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:19 +0000
Subject: [PATCH 41/66] fix: refuse format parameters set more than once
 without a value

---
 cmd/utils/cli_config.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmd/utils/cli_config.go b/cmd/utils/cli_config.go
index e134969..3c9a6a7 100644
--- a/cmd/utils/cli_config.go
+++ b/cmd/utils/cli_config.go
@@ -61,16 +61,16 @@ func (cfg *CLIConfig) Set(config string) error {
 	for _, arg := range strings.Split(parts[1], ",") {
 
 		argpair := strings.SplitN(arg, "=", 2)
-		if len(argpair) != 2 {
-			cfg.Params[argpair[0]] = "true"
-			continue
-		}
-
 		_, ok := cfg.Params[argpair[0]]
 		if ok {
 			return fmt.Errorf("invalid config '%s': arg '%s' set more than once", config, argpair[0])
 		}
 
+		if len(argpair) != 2 {
+			cfg.Params[argpair[0]] = "true"
+			continue
+		}
+
 		cfg.Params[argpair[0]] = argpair[1]
 	}
 
-- 
2.43.0


From a2e645343acf84c4f3083dde9c534a00f3afb9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:40 +0000
Subject: [PATCH 42/66] fix: refuse incomplete postings from code instead of
 crashing

---
 script/starlark.go | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/script/starlark.go b/script/starlark.go
index 86ae09a..9304951 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -62,7 +62,7 @@ func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, coun
 
 		// Convert the date
 		ndate := book.DateFromString(string(date))
-		if ndate == book.Date(0) {
+		if ndate == book.Date(0) || !ndate.IsValid() {
 			return nil, fmt.Errorf("invalid date %s", date)
 		}
 
@@ -72,9 +72,36 @@ func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, coun
 			return nil, err
 		}
 
+		if amt == nil {
+			return nil, fmt.Errorf("missing amount")
+		}
+		if denom == 0 || denom2 == 0 {
+			return nil, fmt.Errorf("invalid denominator 0")
+		}
+
 		// Divide by denominator if set
 		amt.Mul(amt, big.NewRat(1, int64(denom)))
 
+		// Can't be written without accounts and currency
+		if account == "" || caccount == "" || ccy == "" {
+			return nil, fmt.Errorf("missing account, counteraccount, or currency")
+		}
+
+		// Convert the second amount (if there is one)
+		var amt2 *big.Rat
+		if amount2 != starlark.None || account2 != "" {
+			if amount2 == starlark.None || account2 == "" || ccy2 == "" {
+				return nil, fmt.Errorf("second posting needs amount, currency, and account")
+			}
+			amt2, err = GetBigRat(amount2)
+			if err != nil {
+				return nil, err
+			}
+
+			// Divide by denominator if set
+			amt2.Mul(amt2, big.NewRat(1, int64(denom2)))
+		}
+
 		// Set the negative of the amount
 		neg := (&big.Rat{}).Neg(amt)
 
@@ -84,23 +111,10 @@ func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, coun
 		bbuilder.AddPosting(caccount, ccy, neg, "")
 
 		// Nothing else to do
-		if amount2 == starlark.None && account2 == "" {
+		if amt2 == nil {
 			return starlark.None, nil
 		}
 
-		if amount2 == starlark.None || account2 == "" || ccy2 == ccy {
-			// Error
-		}
-
-		// Convert the amount2
-		amt2, err := GetBigRat(amount2)
-		if err != nil {
-			return nil, err
-		}
-
-		// Divide by denominator if set
-		amt2.Mul(amt2, big.NewRat(1, int64(denom2)))
-
 		// Set the negative of the amount
 		neg2 := (&big.Rat{}).Neg(amt2)
 
-- 
2.43.0


From 261e304810e57e74d755fede2a8fabc0fed0374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 43/66] fix: take floating point amounts as the decimals they
 were written as

---
 script/convert.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/script/convert.go b/script/convert.go
index 39f569d..baa94d7 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -7,6 +7,7 @@ import (
 	"go.starlark.net/starlark"
 	"io"
 	"math/big"
+	"strconv"
 )
 
 type StarlarkReader func(r io.Reader) (starlark.Value, error)
@@ -128,7 +129,11 @@ func GetBigRat(amount starlark.Value) (*big.Rat, error) {
 	var amt *big.Rat = &big.Rat{}
 	switch v := amount.(type) {
 	case starlark.Float:
-		amt.SetFloat64(float64(v))
+		// The decimal number which was written, not its nearest binary fraction
+		_, ok := amt.SetString(strconv.FormatFloat(float64(v), 'g', 15, 64))
+		if !ok {
+			return nil, fmt.Errorf("invalid amount '%v'", v)
+		}
 	case starlark.Int:
 		amt.SetInt(v.BigInt())
 	case starlark.String:
-- 
2.43.0


From 59b9a97aff2bdb0db9d5c0e4f41e43a3149fe7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:43 +0000
Subject: [PATCH 44/66] fix: import payees and notes the way they are read back

---
 loader/parser.go   | 19 +++++++++++++++++++
 script/starlark.go |  8 +++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/loader/parser.go b/loader/parser.go
index bd4e5e6..9c79410 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -44,6 +44,25 @@ func (rr *basicReader) parsePayee() string {
 	return strings.TrimSpace(buf.String())
 }
 
+// CleanText gives a text the way it is read back from a ledger file.
+func CleanText(text string) string {
+	return strings.TrimSpace(strings.Map(func(r rune) rune {
+		if r == eol || r == '\r' {
+			return ' '
+		}
+		return r
+	}, text))
+}
+
+// CleanPayee gives a payee the way it is read back from a ledger file.
+func CleanPayee(payee string) string {
+	payee = CleanText(payee)
+	if strings.HasPrefix(payee, "\"") || strings.Contains(payee, ";") {
+		payee = strings.ReplaceAll(payee, "\"", "'")
+	}
+	return payee
+}
+
 func (rr *basicReader) parseNote() string {
 	_ = rr.consumeWS()
 	if rr.ch != ';' {
diff --git a/script/starlark.go b/script/starlark.go
index 9304951..a2e15de 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/utils"
+	"github.com/mescanne/goledger/loader"
 	"go.starlark.net/resolve"
 	"go.starlark.net/starlark"
 	"math/big"
@@ -105,8 +106,13 @@ func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, coun
 		// Set the negative of the amount
 		neg := (&big.Rat{}).Neg(amt)
 
+		// Use texts which are the same when read from a ledger
+		desc = loader.CleanPayee(desc)
+		note = loader.CleanText(note)
+		lnote = loader.CleanText(lnote)
+
 		// Make the transaction
-		bbuilder.NewTransaction(ndate, string(desc), note)
+		bbuilder.NewTransaction(ndate, desc, note)
 		bbuilder.AddPosting(account, ccy, amt, lnote)
 		bbuilder.AddPosting(caccount, ccy, neg, "")
 
-- 
2.43.0


From da7e85695f8eb489c39a18f142620dedfef2a7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 45/66] fix: reclassify to the most common account, the same
 way every time

---
 book/book_reclassify.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/book/book_reclassify.go b/book/book_reclassify.go
index 79091b3..e847424 100644
--- a/book/book_reclassify.go
+++ b/book/book_reclassify.go
@@ -1,5 +1,9 @@
 package book
 
+import (
+	"sort"
+)
+
 // Reclassify counter-accounts in two-posting transactions in the book.
 //
 // Where the refacct is used in two-posting transactions in the ref book
@@ -52,14 +56,21 @@ func (b *Book) ReclassifyByAccount(ref *Book, refacct string, dist func(a, b str
 		max := 0
 		macct := ""
 		for cacct, k := range caccts {
-			if k > max {
-				k = max
+			if k > max || (k == max && cacct < macct) {
+				max = k
 				macct = cacct
 			}
 		}
 		payee_mapping[payee] = macct
 	}
 
+	// Always match in the same order
+	payees := make([]string, 0, len(payee_mapping))
+	for payee := range payee_mapping {
+		payees = append(payees, payee)
+	}
+	sort.Strings(payees)
+
 	for _, trans := range b.Transactions() {
 		if len(trans) != 2 {
 			continue
@@ -77,7 +88,8 @@ func (b *Book) ReclassifyByAccount(ref *Book, refacct string, dist func(a, b str
 
 		max_match := 0.0
 		max_cacct := ""
-		for p, c := range payee_mapping {
+		for _, p := range payees {
+			c := payee_mapping[p]
 			d := dist(trans.GetPayee(), p)
 			if d > max_match {
 				max_match = d
@@ -87,6 +99,10 @@ func (b *Book) ReclassifyByAccount(ref *Book, refacct string, dist func(a, b str
 
 		if max_match > 0.0 {
 			trans[ctrans].acct = max_cacct
+			trans[ctrans].acctterm = max_cacct
 		}
 	}
+
+	// Order and balances depend on the accounts
+	b.compact()
 }
-- 
2.43.0


From b2e6434538bc632c232ee8c90087cbe1cfdb27b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:45 +0000
Subject: [PATCH 46/66] fix: deduplicate generated transactions against the
 whole ledger

---
 cmd/generate/generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/generate/generate.go b/cmd/generate/generate.go
index 411ef74..9f23ead 100644
--- a/cmd/generate/generate.go
+++ b/cmd/generate/generate.go
@@ -22,7 +22,7 @@ func (gen *Generate) run(app *app.App, rcmd *cobra.Command, args []string) error
 	}
 
 	// Generate the records from the main book
-	b, err := gen.generate(main, gen.Code)
+	b, err := gen.generate(main.Duplicate(), gen.Code)
 	if err != nil {
 		return fmt.Errorf("error processing data: %w", err)
 	}
-- 
2.43.0


From f5a8aacd74c4740b639550e9bb50178987288e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:46 +0000
Subject: [PATCH 47/66] fix: show amounts without a currency instead of
 crashing

---
 cmd/app/print.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index 6a4433f..4475cd3 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -292,7 +292,9 @@ func FormatDecimal(amount *big.Rat) string {
 
 // Formal the symbol (CCY) for printing
 func (b *BookPrinter) FormatSymbol(symbol string) string {
-	if sym := []rune(symbol); unicode.IsLetter(sym[len(sym)-1]) || sym[len(sym)-1] == '"' {
+	if sym := []rune(symbol); len(sym) == 0 {
+		return symbol
+	} else if unicode.IsLetter(sym[len(sym)-1]) || sym[len(sym)-1] == '"' {
 		return symbol + " "
 	}
 	return symbol
-- 
2.43.0


From a12490b3dcce2060c5e1077555db2fe27b121d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:13 +0000
Subject: [PATCH 48/66] fix: close beancount accounts only if they are empty in
 every currency

---
 cmd/export/beancount.go  | 30 +++++++++++++++++++++++-------
 cmd/reports/beancount.go | 30 +++++++++++++++++++++++-------
 2 files changed, 46 insertions(+), 14 deletions(-)

diff --git a/cmd/export/beancount.go b/cmd/export/beancount.go
index b84366e..f2ce752 100644
--- a/cmd/export/beancount.go
+++ b/cmd/export/beancount.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"math/big"
+	"sort"
 	"strings"
 )
 
@@ -24,12 +25,11 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 
 	// Gather account info
 	type accountInfo struct {
-		first  book.Date
-		last   book.Date
-		isZero bool
+		first book.Date
+		last  book.Date
+		bals  map[string]*big.Rat
 	}
 	lstats := make(map[string]*accountInfo)
-	var zero big.Rat
 	for _, t := range trans {
 		for _, p := range t {
 			acct := FormatAccount(p.GetAccount())
@@ -38,12 +38,18 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 				stats = &accountInfo{
 					first: p.GetDate(),
 					last:  p.GetDate(),
+					bals:  make(map[string]*big.Rat),
 				}
 				lstats[acct] = stats
 			} else {
 				stats.last = p.GetDate()
 			}
-			stats.isZero = (p.GetBalance().Cmp(&zero) == 0)
+			bal, ok := stats.bals[p.GetCCY()]
+			if !ok {
+				bal = &big.Rat{}
+				stats.bals[p.GetCCY()] = bal
+			}
+			bal.Add(bal, p.GetAmount())
 		}
 	}
 
@@ -53,9 +59,19 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 	}
 
 	// Account open close
-	for acct, stats := range lstats {
+	accts := make([]string, 0, len(lstats))
+	for acct := range lstats {
+		accts = append(accts, acct)
+	}
+	sort.Strings(accts)
+	for _, acct := range accts {
+		stats := lstats[acct]
+		isZero := true
+		for _, bal := range stats.bals {
+			isZero = isZero && bal.Sign() == 0
+		}
 		b.Printf("%s open %s\n", stats.first, acct)
-		if stats.isZero {
+		if isZero {
 			b.Printf("%s close %s\n", stats.last.AddDays(1), acct)
 		}
 	}
diff --git a/cmd/reports/beancount.go b/cmd/reports/beancount.go
index ee2eb09..a18d0a1 100644
--- a/cmd/reports/beancount.go
+++ b/cmd/reports/beancount.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"math/big"
+	"sort"
 	"strings"
 )
 
@@ -22,12 +23,11 @@ func ShowBeancount(b *app.BookPrinter, trans []book.Transaction) error {
 
 	// Gather account info
 	type accountInfo struct {
-		first  book.Date
-		last   book.Date
-		isZero bool
+		first book.Date
+		last  book.Date
+		bals  map[string]*big.Rat
 	}
 	lstats := make(map[string]*accountInfo)
-	var zero big.Rat
 	for _, t := range trans {
 		for _, p := range t {
 			acct := FormatAccount(p.GetAccount())
@@ -36,18 +36,34 @@ func ShowBeancount(b *app.BookPrinter, trans []book.Transaction) error {
 				stats = &accountInfo{
 					first: p.GetDate(),
 					last:  p.GetDate(),
+					bals:  make(map[string]*big.Rat),
 				}
 				lstats[acct] = stats
 			} else {
 				stats.last = p.GetDate()
 			}
-			stats.isZero = (p.GetBalance().Cmp(&zero) == 0)
+			bal, ok := stats.bals[p.GetCCY()]
+			if !ok {
+				bal = &big.Rat{}
+				stats.bals[p.GetCCY()] = bal
+			}
+			bal.Add(bal, p.GetAmount())
 		}
 	}
 
-	for acct, stats := range lstats {
+	accts := make([]string, 0, len(lstats))
+	for acct := range lstats {
+		accts = append(accts, acct)
+	}
+	sort.Strings(accts)
+	for _, acct := range accts {
+		stats := lstats[acct]
+		isZero := true
+		for _, bal := range stats.bals {
+			isZero = isZero && bal.Sign() == 0
+		}
 		b.Printf("%s open %s\n", stats.first, acct)
-		if stats.isZero {
+		if isZero {
 			b.Printf("%s close %s\n", stats.last.AddDays(1), acct)
 		}
 	}
-- 
2.43.0


From f0f01376c335a8e70e7500827f8f2342e152d5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:14 +0000
Subject: [PATCH 49/66] fix: write payees, amounts and prices the way beancount
 reads them

---
 cmd/export/beancount.go  | 11 ++++++++---
 cmd/reports/beancount.go |  5 +++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/cmd/export/beancount.go b/cmd/export/beancount.go
index f2ce752..34b7071 100644
--- a/cmd/export/beancount.go
+++ b/cmd/export/beancount.go
@@ -14,6 +14,11 @@ func FormatCurrency(ccy string) string {
 	return ccy
 }
 
+func FormatPayee(payee string) string {
+	payee = strings.ReplaceAll(payee, "\\", "\\\\")
+	return strings.ReplaceAll(payee, "\"", "\\\"")
+}
+
 func FormatAccount(acct string) string {
 	acct = strings.Title(acct)
 	return acct
@@ -85,14 +90,14 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 		}
 
 		// Slightly different format. NOTE -- CCYs have strict requirements.
-		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), FormatPayee(posts.GetPayee()), tnote)
 		for _, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
 				pnote = "  ; " + pnote
 			}
 			ccy := FormatCurrency(p.GetCCY())
-			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatNumber(p.GetCCY(), p.GetAmount()), ccy, pnote)
+			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatExact(p.GetCCY(), p.GetAmount()), ccy, pnote)
 		}
 		b.Printf("\n")
 	}
@@ -104,7 +109,7 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 		unit := FormatCurrency(pair.Unit)
 		ccy := FormatCurrency(pair.CCY)
 		for _, p := range pl {
-			b.Printf("P %s 00:00:00 %s %s %s\n", p.GetDate(), unit, b.FormatNumber(pair.CCY, p.GetPrice()), ccy)
+			b.Printf("%s price %s %s %s\n", p.GetDate(), unit, b.FormatExact(pair.CCY, p.GetPrice()), ccy)
 		}
 	}
 
diff --git a/cmd/reports/beancount.go b/cmd/reports/beancount.go
index a18d0a1..956578b 100644
--- a/cmd/reports/beancount.go
+++ b/cmd/reports/beancount.go
@@ -3,6 +3,7 @@ package reports
 import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
+	"github.com/mescanne/goledger/cmd/export"
 	"math/big"
 	"sort"
 	"strings"
@@ -84,14 +85,14 @@ func ShowBeancount(b *app.BookPrinter, trans []book.Transaction) error {
 		}
 
 		// Slightly different format. NOTE -- CCYs have strict requirements.
-		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), export.FormatPayee(posts.GetPayee()), tnote)
 		for _, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
 				pnote = "  ; " + pnote
 			}
 			ccy := FormatCurrency(p.GetCCY())
-			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatNumber(p.GetCCY(), p.GetAmount()), ccy, pnote)
+			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatExact(p.GetCCY(), p.GetAmount()), ccy, pnote)
 		}
 		b.Printf("\n")
 	}
-- 
2.43.0


From 0537f0cf52a06eee849e9c4258c45805f837cf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:16 +0000
Subject: [PATCH 50/66] fix: escape texts and close indents in HTML reports

---
 cmd/reports/html.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmd/reports/html.go b/cmd/reports/html.go
index 9ec348d..b691002 100644
--- a/cmd/reports/html.go
+++ b/cmd/reports/html.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"github.com/mescanne/goledger/cmd/utils"
+	"html"
 	"math/big"
 )
 
@@ -58,7 +59,7 @@ func ShowHTMLTransactions(b *app.BookPrinter, trans []book.Transaction, HTMLCSS
 		b.Printf("  <div class=\"date\">%s</div>\n", posts.GetDate())
 		payee := posts.GetPayee()
 		if payee != "" {
-			b.Printf("  <div class=\"payee\">%s</div>\n", payee)
+			b.Printf("  <div class=\"payee\">%s</div>\n", html.EscapeString(payee))
 		}
 		b.Printf("</div>\n")
 
@@ -92,12 +93,15 @@ func ShowHTMLTransactions(b *app.BookPrinter, trans []book.Transaction, HTMLCSS
 
 			thisIndent := indentedString(thisLevel)
 			b.Printf("%s  <div class=\"post indent%d %s\">\n", thisIndent, thisLevel, diff)
-			b.Printf("%s    <div class=\"account\">%s</div>\n", thisIndent, v.GetAccountTerm())
-			b.Printf("%s    <div class=\"amount %s\">%s%s</div>\n", thisIndent, sign, b.FormatSymbol(v.GetCCY()), b.FormatNumber(v.GetCCY(), amt))
+			b.Printf("%s    <div class=\"account\">%s</div>\n", thisIndent, html.EscapeString(v.GetAccountTerm()))
+			b.Printf("%s    <div class=\"amount %s\">%s%s</div>\n", thisIndent, sign, html.EscapeString(b.FormatSymbol(v.GetCCY())), b.FormatNumber(v.GetCCY(), amt))
 			b.Printf("%s  </div>\n", thisIndent)
 
 			lastLevel = thisLevel
 		}
+		for i := lastLevel - 1; i >= 0; i-- {
+			b.Printf("%s  </div>\n", indentedString(i))
+		}
 		b.Printf("</div>\n")
 
 		// End of report
-- 
2.43.0


From f540f0dcbd9257e8aad3c395bd7e768c9dde7731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:55 +0000
Subject: [PATCH 51/66] fix: write a configuration file which can be read again

---
 cmd/config.go           | 9 ++++++---
 docs/goledger_config.md | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/cmd/config.go b/cmd/config.go
index 46e6ad8..c625551 100644
--- a/cmd/config.go
+++ b/cmd/config.go
@@ -86,7 +86,7 @@ The configuration file mirrors largely mirrors parameters available
 on the command line.
 
 There are two notable exceptions:
-  - report.macros
+  - macros
     This section defines macros for the report (set of operations) that
     can be used on the command line arguments or by other macros. This
     is how complex reports can be built up.
@@ -122,12 +122,15 @@ const DEFAULT_CONFIG_FILE = `
 #
 [report]
 combineby = "today"
-type =      "Ansi"
+type =      "Text"
 sum =       true
 convert =   true
 credit =    "^(Income|Trading|Liability|Equity)(:.*)?$"
 
-[report.macros]
+#
+# Macros for operations
+#
+[macros]
 macroA = [
 	"book operation A",
 	"book operation B",
diff --git a/docs/goledger_config.md b/docs/goledger_config.md
index 556aeed..66e17d9 100644
--- a/docs/goledger_config.md
+++ b/docs/goledger_config.md
@@ -4,7 +4,7 @@ The configuration file mirrors largely mirrors parameters available
 on the command line.
 
 There are two notable exceptions:
-  - report.macros
+  - macros
     This section defines macros for the report (set of operations) that
     can be used on the command line arguments or by other macros. This
     is how complex reports can be built up.
@@ -33,12 +33,15 @@ Starter configuration file:
 #
 [report]
 combineby = "all"
-type =      "Ansi"
+type =      "Text"
 sum =       true
 convert =   true
 credit =    "^(Income|Trading|Liability|Equity)(:.*)?$"
 
-[report.macros]
+#
+# Macros for operations
+#
+[macros]
 macroA = [
 	"book operation A",
 	"book operation B",
-- 
2.43.0


From 823327af26d3a4bea4a0a21e15e7565d8573190a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:49 +0000
Subject: [PATCH 52/66] fix: list currencies in a fixed order

---
 cmd/currencies/currencies.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/currencies/currencies.go b/cmd/currencies/currencies.go
index 7989639..b31c690 100644
--- a/cmd/currencies/currencies.go
+++ b/cmd/currencies/currencies.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/cmd/app"
 	"github.com/spf13/cobra"
+	"sort"
 )
 
 func Add(root *cobra.Command, app *app.App) {
@@ -20,8 +21,14 @@ func Add(root *cobra.Command, app *app.App) {
 			return err
 		}
 
-		for ccy, dec := range b.GetCCYDecimals() {
-			fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, dec)
+		decs := b.GetCCYDecimals()
+		ccys := make([]string, 0, len(decs))
+		for ccy := range decs {
+			ccys = append(ccys, ccy)
+		}
+		sort.Strings(ccys)
+		for _, ccy := range ccys {
+			fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, decs[ccy])
 		}
 
 		return nil
-- 
2.43.0


From b4bc58a0f4c5df31ac29b23f6074f827b0ad3757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:21 +0000
Subject: [PATCH 53/66] fix: number repeated transactions without a payee the
 way they are read

---
 book/builder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/book/builder.go b/book/builder.go
index 7b98f57..6ce4406 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -3,6 +3,7 @@ package book
 import (
 	"fmt"
 	"math/big"
+	"strings"
 )
 
 type Builder struct {
@@ -103,7 +104,7 @@ func (b *Builder) NewTransaction(date Date, payee string, note string) {
 		}
 
 		idx += 1
-		b.currPayee = fmt.Sprintf("%s (%d)", payee, idx)
+		b.currPayee = strings.TrimSpace(fmt.Sprintf("%s (%d)", payee, idx))
 		key = fmt.Sprintf("%d %s", date, b.currPayee)
 	}
 
-- 
2.43.0


From 3f224db58e27b39efeef8e784f7d635c96281cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:21 +0000
Subject: [PATCH 54/66] fix: keep payees with a star and quotes in ledger files

---
 cmd/export/ledger.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/export/ledger.go b/cmd/export/ledger.go
index e14450b..820da22 100644
--- a/cmd/export/ledger.go
+++ b/cmd/export/ledger.go
@@ -22,6 +22,10 @@ func LedgerFormatCurrency(ccy string) string {
 
 // Quote the payee if it can't be read back otherwise
 func LedgerFormatPayee(payee string) string {
+	if strings.HasPrefix(payee, "*") && strings.Contains(payee, "\"") && !strings.Contains(payee, ";") {
+		// The first star is read as a mark of the transaction
+		return "* " + payee
+	}
 	if strings.Contains(payee, ";") || strings.HasPrefix(payee, "\"") || strings.HasPrefix(payee, "*") {
 		payee = "\"" + strings.ReplaceAll(payee, "\"", "'") + "\""
 	}
-- 
2.43.0


From 3e5b85803694ecf23e31a8938da6daba24b84e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 55/66] fix: refuse accounts and currencies of scripts which no
 ledger can hold

---
 loader/parser.go   | 17 +++++++++++------
 script/starlark.go | 15 +++++++++++++++
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/loader/parser.go b/loader/parser.go
index 9c79410..6fd1e48 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -114,12 +114,7 @@ func (rr *basicReader) parseAccount() string {
 	if rr.ch == '!' || rr.ch == '[' {
 		rr.next()
 	}
-	for (rr.ch >= 'a' && rr.ch <= 'z') ||
-		(rr.ch >= 'A' && rr.ch <= 'Z') ||
-		(rr.ch == '&') ||
-		(rr.ch == '\'') ||
-		(rr.ch >= '0' && rr.ch <= '9') ||
-		rr.ch == ':' || rr.ch == '_' {
+	for IsAccountRune(rr.ch) {
 		buf.WriteRune(rr.ch)
 		rr.next()
 	}
@@ -136,6 +131,16 @@ func (rr *basicReader) parseAccount() string {
 	return buf.String()
 }
 
+// IsAccountRune says whether the name of an account may hold a character.
+func IsAccountRune(c rune) bool {
+	return (c >= 'a' && c <= 'z') ||
+		(c >= 'A' && c <= 'Z') ||
+		(c == '&') ||
+		(c == '\'') ||
+		(c >= '0' && c <= '9') ||
+		c == ':' || c == '_'
+}
+
 func IsCCYRune(c rune) bool {
 	return (c != eof &&
 		c != ';' &&
diff --git a/script/starlark.go b/script/starlark.go
index a2e15de..5815d43 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -10,6 +10,7 @@ import (
 	"go.starlark.net/starlark"
 	"math/big"
 	"os"
+	"strings"
 )
 
 func Print(_ *starlark.Thread, msg string) {
@@ -88,6 +89,20 @@ func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, coun
 			return nil, fmt.Errorf("missing account, counteraccount, or currency")
 		}
 
+		// Can't be read back with other characters
+		for _, acct := range []string{account, caccount, account2} {
+			for _, c := range acct {
+				if !loader.IsAccountRune(c) {
+					return nil, fmt.Errorf("invalid account '%s'", acct)
+				}
+			}
+		}
+		for _, c := range []string{ccy, ccy2} {
+			if strings.ContainsAny(c, "\"\n") {
+				return nil, fmt.Errorf("invalid currency '%s'", c)
+			}
+		}
+
 		// Convert the second amount (if there is one)
 		var amt2 *big.Rat
 		if amount2 != starlark.None || account2 != "" {
-- 
2.43.0


From 1cd6d11f2f0abcdb403db441a7e32ebf348cf2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:14 +0000
Subject: [PATCH 56/66] fix: give scripts the keys of JSON objects in the same
 order every time

---
 script/convert.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/script/convert.go b/script/convert.go
index baa94d7..edc5dd9 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -7,6 +7,7 @@ import (
 	"go.starlark.net/starlark"
 	"io"
 	"math/big"
+	"sort"
 	"strconv"
 )
 
@@ -36,7 +37,13 @@ func jsonToStarlark(data interface{}) (starlark.Value, error) {
 		return starlark.NewList(newarr), nil
 	case map[string]interface{}:
 		newdict := starlark.NewDict(len(v))
-		for k, nv := range v {
+		keys := make([]string, 0, len(v))
+		for k := range v {
+			keys = append(keys, k)
+		}
+		sort.Strings(keys)
+		for _, k := range keys {
+			nv := v[k]
 			sv, err := jsonToStarlark(nv)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 3a39c993ef3fe383596127a6b0afd807881d7a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:15 +0000
Subject: [PATCH 57/66] fix: refuse JSON files of several values, of which all
 but the first were lost

---
 script/convert.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/script/convert.go b/script/convert.go
index edc5dd9..8c91379 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -65,10 +65,15 @@ func jsonToStarlark(data interface{}) (starlark.Value, error) {
 // This is a Starlark Reader
 func ReadJSON(r io.Reader) (starlark.Value, error) {
 	var p interface{}
-	err := json.NewDecoder(r).Decode(&p)
+	dec := json.NewDecoder(r)
+	err := dec.Decode(&p)
 	if err != nil {
 		return nil, fmt.Errorf("json parsing: %w", err)
 	}
+	var more json.RawMessage
+	if err = dec.Decode(&more); err != io.EOF {
+		return nil, fmt.Errorf("json parsing: more than one value")
+	}
 
 	s, err := jsonToStarlark(p)
 	if err != nil {
-- 
2.43.0


From bd06289178e756c5db859526497964a65b10d6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:46 +0000
Subject: [PATCH 58/66] fix: save every refreshed Monzo token, also one
 refreshed early or during a download

---
 cmd/download/monzo.go | 53 ++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/cmd/download/monzo.go b/cmd/download/monzo.go
index 46699c6..0d5e51e 100644
--- a/cmd/download/monzo.go
+++ b/cmd/download/monzo.go
@@ -60,6 +60,7 @@ type MonzoData struct {
 
 type MonzoClient struct {
 	client *http.Client
+	source oauth2.TokenSource
 	file   string
 	data   *MonzoData
 	config *MonzoDownload
@@ -161,34 +162,44 @@ func (m *MonzoDownload) NewMonzoClient(file string) (*MonzoClient, error) {
 		return nil, fmt.Errorf("pending authorisation")
 	}
 
+	// New client
+	client := &MonzoClient{
+		source: conf.TokenSource(ctx, config.Token),
+		file:   file,
+		data:   &config,
+		config: m,
+	}
+	client.client = oauth2.NewClient(ctx, client)
+
 	// Refresh token if needed
-	if config.Token.Expiry.Before(time.Now()) {
-		src := conf.TokenSource(ctx, config.Token)
-		newToken, err := src.Token() // Renew the token
-		if err != nil {
-			return nil, fmt.Errorf("failed renewing token: %w", err)
-		}
+	if _, err := client.Token(); err != nil {
+		return nil, err
+	}
 
-		// Capture new token
-		if newToken.AccessToken != config.Token.AccessToken {
-			fmt.Printf("Refreshed access token.\n")
+	return client, nil
+}
 
-			config.Token = newToken
+// Token returns the token for a request. A refreshed token is saved at once,
+// whenever it is refreshed, because the old one cannot be used again.
+func (m *MonzoClient) Token() (*oauth2.Token, error) {
+	newToken, err := m.source.Token() // Renew the token
+	if err != nil {
+		return nil, fmt.Errorf("failed renewing token: %w", err)
+	}
 
-			// Save it.
-			if err := utils.SaveToFile(file, &config); err != nil {
-				return nil, fmt.Errorf("failed saving: %w", err)
-			}
+	// Capture new token
+	if newToken.AccessToken != m.data.Token.AccessToken {
+		fmt.Printf("Refreshed access token.\n")
+
+		m.data.Token = newToken
+
+		// Save it.
+		if err := utils.SaveToFile(m.file, &m.data); err != nil {
+			return nil, fmt.Errorf("failed saving: %w", err)
 		}
 	}
 
-	// New client
-	return &MonzoClient{
-		client: conf.Client(ctx, config.Token),
-		file:   file,
-		data:   &config,
-		config: m,
-	}, nil
+	return newToken, nil
 }
 
 //
-- 
2.43.0


From 6a51da75cd2f7a7eac6aed9562051c64d194e0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:59 +0000
Subject: [PATCH 59/66] fix: tell of a new configuration file on standard error

---
 cmd/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/config.go b/cmd/config.go
index c625551..fb56b5e 100644
--- a/cmd/config.go
+++ b/cmd/config.go
@@ -75,7 +75,7 @@ func load(name string, app *Config) error {
 		return fmt.Errorf("failed unmarshalling from default config: %w\n", err)
 	}
 
-	fmt.Printf("Created new configuration file '%s'. (See file or %s help config for more info)\n", files[0], name)
+	fmt.Fprintf(os.Stderr, "Created new configuration file '%s'. (See file or %s help config for more info)\n", files[0], name)
 
 	return nil
 }
-- 
2.43.0


From ceba050b98a57438bce95eb3dc6e420b4436e617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:05 +0000
Subject: [PATCH 60/66] fix: check types given in the configuration file like
 those of the command line

---
 cmd/export/export.go     |  3 +++
 cmd/register/register.go |  3 +++
 cmd/reports/report.go    |  6 ++++++
 cmd/utils/types.go       | 11 +++++++++++
 4 files changed, 23 insertions(+)

diff --git a/cmd/export/export.go b/cmd/export/export.go
index 350531c..edfae69 100644
--- a/cmd/export/export.go
+++ b/cmd/export/export.go
@@ -38,6 +38,9 @@ func Add(cmd *cobra.Command, app *app.App, export *ExportReport) {
 	}
 	ncmd.ValidArgs = macroNames
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
+		if err := exportType.Check(); err != nil {
+			return err
+		}
 		return export.run(app, cmd, args)
 	}
 }
diff --git a/cmd/register/register.go b/cmd/register/register.go
index 9a59356..368a7db 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -57,6 +57,9 @@ func Add(cmd *cobra.Command, app *app.App, reg *RegisterReport) {
 	ncmd.Flags().BoolVar(&reg.Split, "split", reg.Split, "split multiple counteraccounts into separate postings")
 	ncmd.Flags().BoolVar(&reg.Convert, "convert", reg.Convert, "convert postings to base currency")
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
+		if err := reportType.Check(); err != nil {
+			return err
+		}
 		return reg.run(app, cmd, args)
 	}
 
diff --git a/cmd/reports/report.go b/cmd/reports/report.go
index bde4d19..5cdc49a 100644
--- a/cmd/reports/report.go
+++ b/cmd/reports/report.go
@@ -88,6 +88,12 @@ func Add(cmd *cobra.Command, app *app.App, report *TransactionReport) {
 	}
 	ncmd.ValidArgs = macroNames
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
+		if err := floorType.Check(); err != nil {
+			return err
+		}
+		if err := reportType.Check(); err != nil {
+			return err
+		}
 		return report.run(app, cmd, args)
 	}
 }
diff --git a/cmd/utils/types.go b/cmd/utils/types.go
index a5e1ee8..4b4667d 100644
--- a/cmd/utils/types.go
+++ b/cmd/utils/types.go
@@ -73,6 +73,17 @@ func (e *Enum) Set(value string) error {
 	return fmt.Errorf("invalid value '%s', must be one of %s", value, e.Values())
 }
 
+// Check the value set by other means than Set (eg the configuration file)
+func (e *Enum) Check() error {
+	if *e.Value == "" {
+		return nil
+	}
+	if err := e.Set(*e.Value); err != nil {
+		return fmt.Errorf("%s: %w", e.Name, err)
+	}
+	return nil
+}
+
 func (e *Enum) String() string {
 	return *e.Value
 }
-- 
2.43.0


From cc8173f072f82ddae8689404b9ef4a1481189bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:22 +0000
Subject: [PATCH 61/66] fix: every line a script prints is a comment

---
 script/starlark.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/script/starlark.go b/script/starlark.go
index 5815d43..e2b40e2 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -14,7 +14,8 @@ import (
 )
 
 func Print(_ *starlark.Thread, msg string) {
-	fmt.Printf("; %s\n", msg)
+	// Every line is a comment in the ledger file
+	fmt.Printf("; %s\n", strings.ReplaceAll(msg, "\n", "\n; "))
 }
 
 var userError = errors.New("user code")
-- 
2.43.0


From 3e721e53ddbb69583004ce5370ef67dc30148075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:02 +0000
Subject: [PATCH 62/66] fix: output which cannot be written is an error

---
 cmd/app/app.go               | 19 ++++++++++++-------
 cmd/app/print.go             | 15 ++++++++++++++-
 cmd/currencies/currencies.go |  4 +++-
 3 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/cmd/app/app.go b/cmd/app/app.go
index 2531ca4..f301f85 100644
--- a/cmd/app/app.go
+++ b/cmd/app/app.go
@@ -36,6 +36,8 @@ type App struct {
 	All     bool                // Use all accounts, rather than just accounts with a non-zero balance
 	Lang    string              // Language for formatting
 	Output  io.Writer           // Default output - only setting in the app (for web)
+
+	outputErr error // First error writing the output
 }
 
 // Default configuration if none specified
@@ -89,7 +91,7 @@ func initialiseLess(w io.Writer) io.Writer {
 	}
 
 	// If stdout is not a terminal, stop now
-	if w != os.Stdout || termWidth == -1 {
+	if o, ok := w.(*outputWriter); !ok || o.app.Output != os.Stdout || termWidth == -1 {
 		return w
 	}
 
@@ -152,14 +154,17 @@ func (app *App) LoadCommand() *cobra.Command {
 			cmd.SilenceErrors = true
 		},
 
-		// Cleanup if needed
-		PersistentPostRun: func(cmd *cobra.Command, args []string) {
-			if appCleanup == nil {
-				return
+		// Cleanup if needed, and fail if the output could not be written
+		PersistentPostRunE: func(cmd *cobra.Command, args []string) error {
+			if appCleanup != nil {
+				if err := appCleanup(); err != nil {
+					fmt.Printf("error: %v\n", err)
+				}
 			}
-			if err := appCleanup(); err != nil {
-				fmt.Printf("error: %v\n", err)
+			if app.outputErr != nil {
+				return fmt.Errorf("writing output: %w", app.outputErr)
 			}
+			return nil
 		},
 	}
 
diff --git a/cmd/app/print.go b/cmd/app/print.go
index 4475cd3..148b774 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -63,13 +63,26 @@ func (app *App) NewBookPrinter(decs map[string]int) *BookPrinter {
 	pr := message.NewPrinter(message.MatchLanguage(app.Lang))
 
 	return &BookPrinter{
-		w:      app.Output,
+		w:      &outputWriter{app},
 		pr:     pr,
 		decs:   decs,
 		colour: app.Colour,
 	}
 }
 
+// outputWriter writes the output of the app and remembers the first error
+type outputWriter struct {
+	app *App
+}
+
+func (o *outputWriter) Write(p []byte) (int, error) {
+	n, err := o.app.Output.Write(p)
+	if err != nil && o.app.outputErr == nil {
+		o.app.outputErr = err
+	}
+	return n, err
+}
+
 func (b *BookPrinter) Width() (int, int) {
 	return termWidth, termHeight
 }
diff --git a/cmd/currencies/currencies.go b/cmd/currencies/currencies.go
index b31c690..ce3455b 100644
--- a/cmd/currencies/currencies.go
+++ b/cmd/currencies/currencies.go
@@ -28,7 +28,9 @@ func Add(root *cobra.Command, app *app.App) {
 		}
 		sort.Strings(ccys)
 		for _, ccy := range ccys {
-			fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, decs[ccy])
+			if _, err := fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, decs[ccy]); err != nil {
+				return fmt.Errorf("writing output: %w", err)
+			}
 		}
 
 		return nil
-- 
2.43.0


From 9fc7e6d987a2b54ff17e05b0efc19167c79c69e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:07 +0000
Subject: [PATCH 63/66] fix: dates the calendar does not have, and numbers
 which are no dates, were taken for dates when typed

---
 book/date.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/book/date.go b/book/date.go
index 0a8ade4..6be11ec 100644
--- a/book/date.go
+++ b/book/date.go
@@ -89,19 +89,20 @@ func (date *Date) Type() string {
 	return "date"
 }
 
+// DateFromString reads a date as it is typed. Without a date, or with one the
+// calendar does not have, it is zero.
 func DateFromString(date string) Date {
 	mat := dateYYYYMMDD.FindStringSubmatch(date)
 	if mat != nil {
 		year, _ := strconv.Atoi(mat[1])
-		month, _ := strconv.Atoi(mat[2])
-		if month == 0 {
-			month = 1
+		month, day := 1, 1
+		if mat[2] != "" {
+			month, _ = strconv.Atoi(mat[2])
 		}
-		day, _ := strconv.Atoi(mat[3])
-		if day == 0 {
-			day = 1
+		if mat[3] != "" {
+			day, _ = strconv.Atoi(mat[3])
 		}
-		return Date(year*10000 + month*100 + day)
+		return validDate(year, month, day)
 	}
 
 	mat = dateDDMMYYYY.FindStringSubmatch(date)
@@ -109,7 +110,7 @@ func DateFromString(date string) Date {
 		day, _ := strconv.Atoi(mat[1])
 		month, _ := strconv.Atoi(mat[2])
 		year, _ := strconv.Atoi(mat[3])
-		return Date(year*10000 + month*100 + day)
+		return validDate(year, month, day)
 	}
 
 	mat = date_desc_re.FindStringSubmatch(date)
@@ -133,11 +134,14 @@ func DateFromString(date string) Date {
 		return d
 	}
 
-	i, err := strconv.Atoi(date)
-	if err == nil {
-		return Date(i)
-	}
+	return 0
+}
 
+// validDate is the date, or zero if the calendar does not have it.
+func validDate(year int, month int, day int) Date {
+	if d := GetDate(year, month, day); d.IsValid() {
+		return d
+	}
 	return 0
 }
 
-- 
2.43.0


From fc0c8dfcb9b38b3acf39b5962c30a721b01aaaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:15 +0000
Subject: [PATCH 64/66] fix: text after a complete line of a ledger was dropped
 or taken for a line of its own

---
 loader/parser.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/loader/parser.go b/loader/parser.go
index 6fd1e48..d74cb0f 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -89,10 +89,17 @@ func (rr *basicReader) parseTransaction() (book.Date, string, string) {
 	}
 	payee := rr.parsePayee()
 	note := rr.parseNote()
+	rr.parseEOL()
+	return date, payee, note
+}
+
+// parseEOL is the end of a complete line.
+func (rr *basicReader) parseEOL() {
 	if rr.ch == eol {
 		rr.next()
+	} else if rr.ch != eof {
+		rr.stop("expected end of line, got '%c'", rr.ch)
 	}
-	return date, payee, note
 }
 
 func (rr *basicReader) parseToEOL() string {
@@ -213,10 +220,9 @@ func (rr *basicReader) parsePrice(loader TransactionLoader) {
 	if unit == "" || ccy == "" {
 		rr.stop("expected unit and currency of a price")
 	}
+	_ = rr.parseNote()
+	rr.parseEOL()
 	loader.AddPrice(book.Date(date), unit, ccy, amt)
-	if rr.ch == eol {
-		rr.next()
-	}
 }
 
 // Parse a ledger formatted file (see https://www.ledger-cli.org/) and
@@ -361,10 +367,13 @@ func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]s
 		_ = rr.consumeWS()
 		_, _ = rr.parseCCYAmt()
 	}
-	note := rr.parseNote()
-	if rr.ch == eol {
-		rr.next()
+	_ = rr.consumeWS()
+	if rr.ch == '=' {
+		// balance assertions are not supported -- ignore this for now.
+		_ = rr.parseToEOL()
 	}
+	note := rr.parseNote()
+	rr.parseEOL()
 
 	if ccy == "" {
 		// Without a currency there can't be an amount
-- 
2.43.0


From 9dae3ef4d49b4959a079bdeded170ae657b9487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:39 +0000
Subject: [PATCH 65/66] fix: keep empty fields of a table whose fields are
 divided by tabs

---
 script/convert.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/script/convert.go b/script/convert.go
index 8c91379..d08d1bb 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -91,7 +91,8 @@ func GetReadCSV(delim string, header bool) StarlarkReader {
 		// CSV
 		csvr := csv.NewReader(r)
 		csvr.Comma = []rune(delim)[0]
-		csvr.TrimLeadingSpace = true
+		// A tab between two fields is no space before the second
+		csvr.TrimLeadingSpace = delim != "\t"
 		csvr.ReuseRecord = true
 
 		var hdr []string = nil
-- 
2.43.0


From b953632e1a5819a1a9ca3ba258820ca79f4b2744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:14 +0000
Subject: [PATCH 66/66] fix: refuse generated transactions without account,
 counter account or currency

---
 cmd/generate/starlark.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/generate/starlark.go b/cmd/generate/starlark.go
index 76813dd..409f27a 100644
--- a/cmd/generate/starlark.go
+++ b/cmd/generate/starlark.go
@@ -9,7 +9,8 @@ import (
 func (gen *Generate) generate(b *book.Book, sc string) (*book.Book, error) {
 
 	bbuilder := book.NewBookBuilder()
-	addf := script.GetBuilderFunction(bbuilder, "acct", "ccy", "cacct")
+	// There are no defaults, what is not given is missing
+	addf := script.GetBuilderFunction(bbuilder, "", "", "")
 	globals := map[string]starlark.Value{
 		"data":  script.ConvertBookToStarlark(b),
 		"add":   addf,
-- 
2.43.0

