From 115aa7a38e341911480f6bf0572797441dc0e64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 01/55] fix: move uses its factor as the exact decimal it is
 written as

---
 book/book.go       | 4 ++--
 cmd/app/book_op.go | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/book/book.go b/book/book.go
index 036f9ac..5b2c612 100644
--- a/book/book.go
+++ b/book/book.go
@@ -176,10 +176,10 @@ func (b *Book) Depreciate(search_acct string, replace_acct string, period string
 // search_acct - posting accounts to match
 // replace_acct - account to transfer amount into
 // factor - portion of original posting to transform
-func (b *Book) AdjustPost(search_acct string, replace_acct string, factor float64) {
+func (b *Book) AdjustPost(search_acct string, replace_acct string, factor *big.Rat) {
 	re := regexp.MustCompile(search_acct)
 	var r, i big.Rat
-	r.SetFloat64(factor)
+	r.Set(factor)
 	i.Neg(&r)
 	newposts := b.post
 	for _, p := range b.post {
diff --git a/cmd/app/book_op.go b/cmd/app/book_op.go
index 8ee9a44..82cb34d 100644
--- a/cmd/app/book_op.go
+++ b/cmd/app/book_op.go
@@ -3,6 +3,7 @@ package app
 import (
 	"fmt"
 	"github.com/mescanne/goledger/book"
+	"math/big"
 	"regexp"
 	"strconv"
 	"strings"
@@ -135,9 +136,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("move operation '%s', invalid: must be format '%s'", op_act, move_op.String())
 		}
-		factor, err := strconv.ParseFloat(args[3], 64)
-		if err != nil {
-			return fmt.Errorf("move factor '%s', invalid: must be float: %v", args[3], err)
+		factor, ok := new(big.Rat).SetString(args[3])
+		if !ok {
+			return fmt.Errorf("move factor '%s', invalid: must be a decimal number", args[3])
 		}
 		b.AdjustPost(args[1], args[2], factor)
 		return nil
-- 
2.43.0


From 1c32fa54bef3b94c5bfa7d9db181936cb0001d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 02/55] fix: a currency's decimals are those its amounts need,
 also when the fraction reduces

---
 book/builder.go | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/book/builder.go b/book/builder.go
index 6d73cf4..a350ea5 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -18,27 +18,13 @@ type Builder struct {
 func (b *Builder) Build() *Book {
 	b.checkAndClearTransaction()
 
-	// Get the largest denominators by currency
-	mmap := make(map[string]*big.Int)
-	for _, p := range b.post {
-		eval, ok := mmap[p.GetCCY()]
-		if !ok || eval.Cmp(p.GetAmount().Denom()) < 0 {
-			mmap[p.GetCCY()] = p.GetAmount().Denom()
-		}
-	}
-
-	// Convert to number of decimals
+	// Get the largest number of decimals by currency
 	rmap := make(map[string]int)
-	ten := big.NewInt(10)
-	for k, v := range mmap {
-		p := big.NewInt(1)
-		c := 0
-		// for as long as Denom is bigger keep doing p = p * 10
-		for p.Cmp(v) < 0 {
-			p.Mul(p, ten)
-			c += 1
+	for _, p := range b.post {
+		c := decimals(p.GetAmount())
+		if v, ok := rmap[p.GetCCY()]; !ok || v < c {
+			rmap[p.GetCCY()] = c
 		}
-		rmap[k] = c
 	}
 
 	nbook := &Book{
@@ -54,6 +40,25 @@ func (b *Builder) Build() *Book {
 	return nbook
 }
 
+// Number of decimals needed to write the amount exactly. Where no number of decimals
+// is enough it is the number of digits that cover the denominator.
+func decimals(amt *big.Rat) int {
+	var rem big.Int
+	ten := big.NewInt(10)
+	enough := -1
+	p := big.NewInt(1)
+	for c := 0; c <= amt.Denom().BitLen(); c++ {
+		if rem.Rem(p, amt.Denom()).Sign() == 0 {
+			return c
+		}
+		if enough < 0 && p.Cmp(amt.Denom()) >= 0 {
+			enough = c
+		}
+		p.Mul(p, ten)
+	}
+	return enough
+}
+
 func NewBookBuilder() *Builder {
 	return &Builder{
 		post:      make([]Posting, 0, 200),
-- 
2.43.0


From 86994cdcae686256a176eb21af2a84f588e80348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 03/55] fix: a duplicated book shares nothing with the original

---
 book/book.go  | 16 ++++++++++++----
 book/price.go | 13 +++++++++++++
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/book/book.go b/book/book.go
index 5b2c612..a5735d7 100644
--- a/book/book.go
+++ b/book/book.go
@@ -45,10 +45,18 @@ func (b *Book) GetPriceList(unit string, ccy string) PriceList {
 
 func (b *Book) Duplicate() *Book {
 	newp := make([]Posting, len(b.post), len(b.post))
-	copy(newp, b.post)
-	newt := make([]Transaction, len(b.trans), len(b.trans))
-	copy(newt, b.trans)
-	return &Book{newp, newt, b.prices, b.ccy}
+	for i, p := range b.post {
+		newp[i] = p
+		newp[i].val = big.NewRat(0, 1).Set(p.val)
+		newp[i].bal = big.NewRat(0, 1).Set(p.bal)
+	}
+	newccy := make(map[string]int)
+	for ccy, dec := range b.ccy {
+		newccy[ccy] = dec
+	}
+	nbook := &Book{newp, nil, b.prices.duplicate(), newccy}
+	nbook.compact()
+	return nbook
 }
 
 func (b *Book) GetCCYDecimals() map[string]int {
diff --git a/book/price.go b/book/price.go
index f853d42..595a2e2 100644
--- a/book/price.go
+++ b/book/price.go
@@ -172,6 +172,19 @@ type priceBook struct {
 	data map[PricePair]PriceList
 }
 
+// Duplicate the price book
+func (p *priceBook) duplicate() *priceBook {
+	pb := &priceBook{
+		data: make(map[PricePair]PriceList),
+	}
+	for pair, plist := range p.data {
+		pl := make(PriceList, len(plist), len(plist))
+		copy(pl, plist)
+		pb.data[pair] = pl
+	}
+	return pb
+}
+
 // Get a price for a particular date, unit, and ccy and return the rate.
 //
 // If unit == ccy it returns 1.
-- 
2.43.0


From 93a22f4b0a7e767ab6af919511097c1f0fa3de17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 04/55] fix: summarising a book does not reorder or replace its
 own postings

---
 book/book_accum.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/book/book_accum.go b/book/book_accum.go
index e1270b6..3d12076 100644
--- a/book/book_accum.go
+++ b/book/book_accum.go
@@ -170,12 +170,14 @@ func (b *Book) Accumulate(toCCY string, divider string, credit *regexp.Regexp, h
 	// Only need some of compact functionality
 	b.compact()
 
-	posts := b.post
-
-	if len(posts) == 0 {
+	if len(b.post) == 0 {
 		return b.Transactions()
 	}
 
+	// Work on a copy: postings are added and sorted below
+	posts := make([]Posting, len(b.post), len(b.post))
+	copy(posts, b.post)
+
 	// Add empty accounts
 	posts = addEmptyAccounts(posts)
 
-- 
2.43.0


From 82d00fd04cd4e7d0226ee97dba972e6e2c98598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 05/55] fix: mapccy keeps every price and the decimals of
 renamed currencies

---
 book/book.go       |  6 ++++++
 book/book_utils.go | 34 +++++++++++++++++++++++-----------
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/book/book.go b/book/book.go
index a5735d7..5e23797 100644
--- a/book/book.go
+++ b/book/book.go
@@ -35,6 +35,12 @@ func (b *Book) GetPricePairs() []PricePair {
 	for pair, _ := range b.prices.data {
 		pairs = append(pairs, pair)
 	}
+	sort.Slice(pairs, func(i, j int) bool {
+		if pairs[i].Unit != pairs[j].Unit {
+			return pairs[i].Unit < pairs[j].Unit
+		}
+		return pairs[i].CCY < pairs[j].CCY
+	})
 
 	return pairs
 }
diff --git a/book/book_utils.go b/book/book_utils.go
index cbdc0a3..26abe16 100644
--- a/book/book_utils.go
+++ b/book/book_utils.go
@@ -39,21 +39,33 @@ func (b *Book) RegexCCY(search string, replace string) {
 		}
 	})
 
-	// Map the prices
-	for ccypair, pl := range b.prices.data {
-		newpair := ccypair
-		if re.MatchString(ccypair.Unit) {
-			newpair.Unit = re.ReplaceAllString(ccypair.Unit, replace)
+	// Map the prices - adding up the prices of pairs that become the same
+	pb := newPriceBookBuilder()
+	for _, ccypair := range b.GetPricePairs() {
+		unit, ccy := ccypair.Unit, ccypair.CCY
+		if re.MatchString(unit) {
+			unit = re.ReplaceAllString(unit, replace)
 		}
-		if re.MatchString(ccypair.CCY) {
-			newpair.CCY = re.ReplaceAllString(ccypair.CCY, replace)
+		if re.MatchString(ccy) {
+			ccy = re.ReplaceAllString(ccy, replace)
+		}
+		for _, price := range b.prices.data[ccypair] {
+			pb.addPrice(price.date, unit, ccy, price.val)
+		}
+	}
+	b.prices = pb.build()
+
+	// Map the decimals - keeping as many as any currency that becomes the same
+	newccy := make(map[string]int)
+	for ccy, dec := range b.ccy {
+		if re.MatchString(ccy) {
+			ccy = re.ReplaceAllString(ccy, replace)
 		}
-		if newpair.Unit == ccypair.Unit && newpair.CCY == ccypair.CCY {
-			continue
+		if v, ok := newccy[ccy]; !ok || v < dec {
+			newccy[ccy] = dec
 		}
-		b.prices.data[newpair] = pl
-		delete(b.prices.data, ccypair)
 	}
+	b.ccy = newccy
 }
 
 func (b *Book) FilterByDateSince(minDate Date) {
-- 
2.43.0


From 2bcb978f05ffeffa92d53b9228df19006feca204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 06/55] fix: an account with a balance in any currency is
 listed

---
 book/book.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/book/book.go b/book/book.go
index 5e23797..cdd2917 100644
--- a/book/book.go
+++ b/book/book.go
@@ -209,20 +209,28 @@ func (b *Book) AdjustPost(search_acct string, replace_acct string, factor *big.R
 }
 
 // Find all the accounts matching regular expression reg that have non-zero balances
-// TODO: This only applies where balance is already calculated!
+// in any currency
 func (b *Book) Accounts(reg string, onlyWithBalance bool) []string {
 	re := regexp.MustCompile(reg)
-	lbal := make(map[string]*big.Rat)
+	b.compact()
+	lbal := make(map[[2]string]*big.Rat)
+	withBal := make(map[string]bool)
 	accts := make([]string, 0, 10)
 	for _, p := range b.post {
 		if re.MatchString(p.GetAccount()) {
-			lbal[p.GetAccount()] = p.GetBalance()
+			lbal[[2]string{p.GetAccount(), p.GetCCY()}] = p.GetBalance()
+			withBal[p.GetAccount()] = false
+		}
+	}
+
+	for key, bal := range lbal {
+		if bal.Sign() != 0 {
+			withBal[key[0]] = true
 		}
 	}
 
-	var zero big.Int
-	for acct, bal := range lbal {
-		if !onlyWithBalance || bal.Num().Cmp(&zero) != 0 {
+	for acct, hasBal := range withBal {
+		if !onlyWithBalance || hasBal {
 			accts = append(accts, acct)
 		}
 	}
-- 
2.43.0


From 57723d8b01b5dba12c11a5a9a5857dbd6b2ff9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 07/55] fix: a zero price has no reverse price instead of
 crashing

---
 book/price.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/book/price.go b/book/price.go
index 595a2e2..2047cb2 100644
--- a/book/price.go
+++ b/book/price.go
@@ -203,6 +203,9 @@ func (p *priceBook) getPrice(date Date, unit string, ccy string) (*big.Rat, Pric
 	v, ok = p.data[PricePair{ccy, unit}]
 	if ok {
 		r, pt := v.GetPrice(date)
+		if r.Sign() == 0 {
+			return big.NewRat(1, 1), PriceTypeNone
+		}
 		return big.NewRat(0, 1).Inv(r), pt
 	}
 	return big.NewRat(1, 1), PriceTypeNone
-- 
2.43.0


From bd35dcdc9ba00288479007a2d40dc1df93a93944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 08/55] fix: a text that is not a real date is not taken for
 one

---
 book/date.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/book/date.go b/book/date.go
index 5aa2bd0..7e97753 100644
--- a/book/date.go
+++ b/book/date.go
@@ -94,14 +94,16 @@ func DateFromString(date string) Date {
 	if mat != nil {
 		year, _ := strconv.Atoi(mat[1])
 		month, _ := strconv.Atoi(mat[2])
-		if month == 0 {
+		if mat[2] == "" {
 			month = 1
 		}
 		day, _ := strconv.Atoi(mat[3])
-		if day == 0 {
+		if mat[3] == "" {
 			day = 1
 		}
-		return Date(year*10000 + month*100 + day)
+		if d := GetDate(year, month, day); validDate(year, month, day) {
+			return d
+		}
 	}
 
 	mat = dateDDMMYYYY.FindStringSubmatch(date)
@@ -109,7 +111,9 @@ func DateFromString(date string) Date {
 		day, _ := strconv.Atoi(mat[1])
 		month, _ := strconv.Atoi(mat[2])
 		year, _ := strconv.Atoi(mat[3])
-		return Date(year*10000 + month*100 + day)
+		if d := GetDate(year, month, day); validDate(year, month, day) {
+			return d
+		}
 	}
 
 	mat = date_desc_re.FindStringSubmatch(date)
@@ -134,13 +138,29 @@ func DateFromString(date string) Date {
 	}
 
 	i, err := strconv.Atoi(date)
-	if err == nil {
+	if err == nil && Date(i).IsValid() {
 		return Date(i)
 	}
 
 	return 0
 }
 
+// IsValid is true for the dates that exist in the calendar (years 1 to 9999)
+func (date Date) IsValid() bool {
+	return validDate(int(date/10000), int((date/100)%100), int(date%100))
+}
+
+func validDate(year int, month int, day int) bool {
+	if year < 1 || year > 9999 || month < 1 || month > 12 || day < 1 {
+		return false
+	}
+	days := monthDays[month-1]
+	if month == 2 && YearIsLeapYear(year-1) {
+		days++
+	}
+	return day <= days
+}
+
 func GetToday() Date {
 	n := time.Now()
 	return Date((n.Year() * 10000) + (int(n.Month()) * 100) + n.Day())
-- 
2.43.0


From 07e05c41d83a4d45b7e4f3e9ae925b79e1716ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 09/55] fix: a ledger with an impossible date is rejected

---
 loader/lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/loader/lexer.go b/loader/lexer.go
index 9348205..56e1c44 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -75,6 +75,9 @@ func (rr *basicReader) parseDate() book.Date {
 	date = (date * 100) + rr.parseNumber(&date, 1, 2)
 	rr.consume('/')
 	date = (date * 100) + rr.parseNumber(&date, 1, 2)
+	if !book.Date(date).IsValid() {
+		rr.stop("date %s doesn't exist", book.Date(date))
+	}
 	return book.Date(date)
 }
 
-- 
2.43.0


From cfda8beb3e75ccceaadd3457f8cbb242703f71ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 10/55] fix: amounts of any size are read exactly

---
 loader/lexer.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index 56e1c44..40d6561 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -149,14 +149,15 @@ func (rr *basicReader) parseAmt() *big.Rat {
 	}
 
 	isDec := false
-	var num int64 = 0
-	var mag int64 = 1
+	ten := big.NewInt(10)
+	num := big.NewInt(0)
+	mag := big.NewInt(1)
 	for {
 		if rr.ch >= '0' && rr.ch <= '9' {
-			num *= 10
-			num += int64(rr.ch - '0')
+			num.Mul(num, ten)
+			num.Add(num, big.NewInt(int64(rr.ch-'0')))
 			if isDec {
-				mag *= 10
+				mag.Mul(mag, ten)
 			}
 			rr.next()
 			continue
@@ -175,8 +176,8 @@ func (rr *basicReader) parseAmt() *big.Rat {
 	}
 
 	if isNeg {
-		num *= -1
+		num.Neg(num)
 	}
 
-	return big.NewRat(num, mag)
+	return big.NewRat(0, 1).SetFrac(num, mag)
 }
-- 
2.43.0


From a8e92bd0c85aaf0d3bb524cf9b05cc3dacde518a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 11/55] fix: a NUL character is not taken for the end of the
 file

---
 loader/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index 40d6561..8beba7f 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -18,7 +18,7 @@ type basicReader struct {
 	col    int
 }
 
-const eof = rune(0)
+const eof = rune(-1)
 const eol = rune('\n')
 
 func newRuneReader(r *bufio.Reader) *basicReader {
-- 
2.43.0


From a3152829a7477498b671a3cd5ac3696ff26f5557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 12/55] fix: a malformed posting, price, transaction or alias
 line is rejected

---
 loader/lexer.go  | 14 ++++++++++
 loader/parser.go | 68 +++++++++++++++++++++++++++++++++---------------
 2 files changed, 61 insertions(+), 21 deletions(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index 8beba7f..f8b3bb4 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -139,12 +139,16 @@ func (rr *basicReader) parseQuotedString() string {
 	return buf.String()
 }
 
+// Parse amount, or nil if there is none
 func (rr *basicReader) parseAmt() *big.Rat {
 	_ = rr.consumeWS()
 
 	isNeg := false
+	isNum := false
+	isAmt := false
 	if rr.ch == '-' {
 		isNeg = true
+		isAmt = true
 		rr.next()
 	}
 
@@ -159,15 +163,18 @@ func (rr *basicReader) parseAmt() *big.Rat {
 			if isDec {
 				mag.Mul(mag, ten)
 			}
+			isNum = true
 			rr.next()
 			continue
 		}
 		if !isDec && rr.ch == '.' {
 			isDec = true
+			isAmt = true
 			rr.next()
 			continue
 		}
 		if rr.ch == ',' {
+			isAmt = true
 			rr.next()
 			continue
 		}
@@ -175,6 +182,13 @@ func (rr *basicReader) parseAmt() *big.Rat {
 		break
 	}
 
+	if !isNum {
+		if isAmt {
+			rr.stop("expected digits in amount")
+		}
+		return nil
+	}
+
 	if isNeg {
 		num.Neg(num)
 	}
diff --git a/loader/parser.go b/loader/parser.go
index 37158bb..e158952 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -71,9 +71,7 @@ func (rr *basicReader) parseTransaction() (book.Date, string, string) {
 	}
 	payee := rr.parsePayee()
 	note := rr.parseNote()
-	if rr.ch == eol {
-		rr.next()
-	}
+	rr.parseEndOfLine()
 	return date, payee, note
 }
 
@@ -129,16 +127,38 @@ func IsCCYRune(c rune) bool {
 		(c < '0' || c > '9'))
 }
 
+// Parse currency and amount in either order. The amount is nil if there is neither.
 func (rr *basicReader) parseCCYAmt() (string, *big.Rat) {
-	if rr.ch == '"' || IsCCYRune(rr.ch) {
-		ccy := rr.parseCCY()
-		amt := rr.parseAmt()
-		return ccy, amt
+	var ccy string
+	var amt *big.Rat
+	quoted := rr.ch == '"'
+	if quoted || IsCCYRune(rr.ch) {
+		ccy = rr.parseCCY()
+		amt = rr.parseAmt()
 	} else {
-		amt := rr.parseAmt()
-		ccy := rr.parseCCY()
-		return ccy, amt
+		amt = rr.parseAmt()
+		_ = rr.consumeWS()
+		quoted = rr.ch == '"'
+		ccy = rr.parseCCY()
+	}
+	if amt == nil && (ccy != "" || quoted) {
+		rr.stop("expected amount for currency '%s'", ccy)
+	}
+	if amt != nil && ccy == "" {
+		rr.stop("expected currency for amount")
+	}
+	return ccy, amt
+}
+
+// Nothing but a comment may follow on the line
+func (rr *basicReader) parseEndOfLine() {
+	_ = rr.consumeWS()
+
+	// '=' (balance assertion) is ignored
+	if rr.ch != ';' && rr.ch != '=' && rr.ch != eol && rr.ch != eof {
+		rr.stop("expected end of line, got '%c'", rr.ch)
 	}
+	rr.skipLine()
 }
 
 func (rr *basicReader) parseCCY() string {
@@ -181,10 +201,11 @@ func (rr *basicReader) parsePrice(loader TransactionLoader) {
 	unit := rr.parseCCY()
 	_ = rr.consumeWS()
 	ccy, amt := rr.parseCCYAmt()
-	loader.AddPrice(book.Date(date), unit, ccy, amt)
-	if rr.ch == eol {
-		rr.next()
+	if unit == "" || amt == nil {
+		rr.stop("expected unit and price")
 	}
+	rr.parseEndOfLine()
+	loader.AddPrice(book.Date(date), unit, ccy, amt)
 }
 
 // Parse a ledger formatted file (see https://www.ledger-cli.org/) and
@@ -276,10 +297,10 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 				rr.consumeWS()
 				longAcct := rr.parseAccount()
 				rr.consumeWS()
-				if longAcct == "" {
+				if shortAcct == "" || longAcct == "" {
 					rr.stop("expected account for alias, got empty account")
 				}
-				rr.parseToEOL()
+				rr.parseEndOfLine()
 				nmap[shortAcct] = longAcct
 			} else {
 				rr.stop("expected include or alias")
@@ -297,6 +318,9 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]string) {
 	_ = rr.consumeWS()
 	acct := rr.parseAccount()
+	if acct == "" {
+		rr.stop("expected account, got '%c'", rr.ch)
+	}
 	nacct, ok := alias[acct]
 	if ok {
 		acct = nacct
@@ -309,21 +333,23 @@ func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]s
 	}
 	ccy, dec := rr.parseCCYAmt()
 	if isNeg {
+		if dec == nil {
+			rr.stop("expected amount after '-'")
+		}
 		dec.Neg(dec)
 	}
 	_ = rr.consumeWS()
 	if rr.ch == '@' {
 		rr.next()
 		_ = rr.consumeWS()
-		_, _ = rr.parseCCYAmt()
+		if _, price := rr.parseCCYAmt(); price == nil {
+			rr.stop("expected price after '@'")
+		}
 	}
 	note := rr.parseNote()
-	if rr.ch == eol {
-		rr.next()
-	}
+	rr.parseEndOfLine()
 
-	if ccy == "" {
-		// ASSERT: dec should be 0
+	if dec == nil {
 		var ZERO big.Int
 		for ccy, dec := range loader.GetLastCCYBals() {
 			if dec.Num().Cmp(&ZERO) != 0 {
-- 
2.43.0


From 68c23768c870c020c85ad764536477afaf577df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 13/55] fix: a ledger whose last transaction doesn't balance is
 rejected, not crashed on

---
 book/builder.go | 25 ++++++++++++++++++-------
 cmd/app/app.go  |  3 +++
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/book/builder.go b/book/builder.go
index a350ea5..131fe70 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -3,6 +3,7 @@ package book
 import (
 	"fmt"
 	"math/big"
+	"sort"
 )
 
 type Builder struct {
@@ -71,15 +72,25 @@ func NewBookBuilder() *Builder {
 	}
 }
 
-func (b *Builder) checkAndClearTransaction() {
-	var Zero big.Int
-	for ccy, amt := range b.currAmts {
-		if amt.Num().Cmp(&Zero) != 0 {
-			panic(fmt.Sprintf("In transaction (%d %s) ccy %s has balance of %s!", b.currDate, b.currPayee, ccy, amt))
-		} else {
-			b.currAmts[ccy].SetInt64(0)
+// Check that the last transaction is balanced
+func (b *Builder) Check() error {
+	ccys := make([]string, 0, len(b.currAmts))
+	for ccy := range b.currAmts {
+		ccys = append(ccys, ccy)
+	}
+	sort.Strings(ccys)
+	for _, ccy := range ccys {
+		if amt := b.currAmts[ccy]; amt.Sign() != 0 {
+			return fmt.Errorf("In transaction (%d %s) ccy %s has balance of %s!", b.currDate, b.currPayee, ccy, amt)
 		}
 	}
+	return nil
+}
+
+func (b *Builder) checkAndClearTransaction() {
+	if err := b.Check(); err != nil {
+		panic(err.Error())
+	}
 }
 
 func (b *Builder) NewTransaction(date Date, payee string, note string) {
diff --git a/cmd/app/app.go b/cmd/app/app.go
index 48e2138..9eff600 100644
--- a/cmd/app/app.go
+++ b/cmd/app/app.go
@@ -61,6 +61,9 @@ func (app *App) LoadBook() (*book.Book, error) {
 	if err := loader.ParseFile(bbuilder, app.Ledger); err != nil {
 		return nil, err
 	}
+	if err := bbuilder.Check(); err != nil {
+		return nil, err
+	}
 	b := bbuilder.Build()
 	return b, nil
 }
-- 
2.43.0


From 9de38e1f63c23c46c5ca96c36923f6f6f8f659e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 14/55] fix: postings before any transaction are rejected

---
 book/builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/book/builder.go b/book/builder.go
index 131fe70..fbfb92e 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -121,6 +121,9 @@ func (b *Builder) NewTransaction(date Date, payee string, note string) {
 }
 
 func (b *Builder) AddPosting(acct string, ccy string, amt *big.Rat, note string) {
+	if b.currDate == Date(-1) {
+		panic(fmt.Sprintf("posting to %s before any transaction", acct))
+	}
 	b.post = append(b.post, Posting{
 		date:  b.currDate,
 		payee: b.currPayee,
-- 
2.43.0


From a02eb9465a8df1d5a17e5fcab0bcb80a7e7bde53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 15/55] fix: includes: absolute paths, trailing blanks, cycles
 and unreadable files

---
 loader/lexer.go  |  3 +--
 loader/parser.go | 31 ++++++++++++++++++++++++-------
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index f8b3bb4..e4c397a 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/book"
 	"io"
-	"log"
 	"math/big"
 	"unicode"
 )
@@ -113,7 +112,7 @@ func (rr *basicReader) next() rune {
 	if err == io.EOF {
 		r = eof
 	} else if err != nil {
-		log.Fatal(err)
+		rr.stop("%v", err)
 	}
 	rr.ch = r
 	if rr.ch == eol {
diff --git a/loader/parser.go b/loader/parser.go
index e158952..68a956b 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -5,7 +5,6 @@ import (
 	"bytes"
 	"fmt"
 	"github.com/mescanne/goledger/book"
-	"log"
 	"math/big"
 	"os"
 	"path/filepath"
@@ -216,18 +215,30 @@ func (rr *basicReader) parsePrice(loader TransactionLoader) {
 //
 // reterr returns the parsing error or nil if everything loaded.
 func ParseFile(loader TransactionLoader, filename string) (reterr error) {
-	return parseFileLocal(loader, filename, nil)
+	return parseFileLocal(loader, filename, nil, nil)
 }
 
-func parseFileLocal(loader TransactionLoader, filename string, alias map[string]string) (reterr error) {
+func parseFileLocal(loader TransactionLoader, filename string, alias map[string]string, parents []os.FileInfo) (reterr error) {
 	reterr = nil
 
 	file, err := os.Open(filename)
 	if err != nil {
-		log.Fatal(err)
+		return err
 	}
 	defer file.Close()
 
+	// A file can't include itself
+	info, err := file.Stat()
+	if err != nil {
+		return err
+	}
+	for _, parent := range parents {
+		if os.SameFile(parent, info) {
+			return fmt.Errorf("parsing failure: %s: includes itself", filename)
+		}
+	}
+	parents = append(parents[:len(parents):len(parents)], info)
+
 	defer func() {
 		if msg := recover(); msg != nil {
 			reterr = fmt.Errorf("parsing failure: %s: %s", filename, msg)
@@ -279,11 +290,17 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 
 			// If it's include
 			if command == "INCLUDE" {
-				ifile := rr.parseToEOL()
-				if ifile[0] == '"' && ifile[len(ifile)-1] == '"' {
+				ifile := strings.TrimSpace(rr.parseToEOL())
+				if len(ifile) > 1 && ifile[0] == '"' && ifile[len(ifile)-1] == '"' {
 					ifile = ifile[1 : len(ifile)-1]
 				}
-				err := parseFileLocal(loader, filepath.Join(filepath.Dir(filename), ifile), nmap)
+				if ifile == "" {
+					rr.stop("expected file to include")
+				}
+				if !filepath.IsAbs(ifile) {
+					ifile = filepath.Join(filepath.Dir(filename), ifile)
+				}
+				err := parseFileLocal(loader, ifile, nmap, parents)
 				if err != nil {
 					return err
 				}
-- 
2.43.0


From b8597924afd771a568080fd9a1a4230bc307e5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 16/55] fix: summary subtotals for exactly the common accounts,
 in tree order for any amount

---
 book/book_accum.go | 97 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 69 insertions(+), 28 deletions(-)

diff --git a/book/book_accum.go b/book/book_accum.go
index 3d12076..3ff01aa 100644
--- a/book/book_accum.go
+++ b/book/book_accum.go
@@ -9,45 +9,78 @@ import (
 	"strings"
 )
 
+// Longest account that both left and right are or are below (empty if none)
 func findMaxCommonPrefix(left string, right string, divider string) string {
 	prefix := 0
-	i := 0
-	for ; i < len(left) && i < len(right); i++ {
-		if left[i] != right[i] {
-			break
-		}
-		if strings.HasPrefix(left[i:], divider) {
+	for i := 0; i <= len(left) && i <= len(right); i++ {
+		if (i == len(left) || strings.HasPrefix(left[i:], divider)) &&
+			(i == len(right) || strings.HasPrefix(right[i:], divider)) {
 			prefix = i
 		}
-	}
-
-	if (i < len(left) && strings.HasPrefix(left[i:], divider)) ||
-		(i < len(right) && strings.HasPrefix(right[i:], divider)) ||
-		(i == len(left) && i == len(right)) {
-		prefix = i
+		if i == len(left) || i == len(right) || left[i] != right[i] {
+			break
+		}
 	}
 
 	return left[0:prefix]
 }
 
-func getSortOrder(a *big.Rat) string {
-	f, _ := a.Float64()
-	g := int64(f * 1000_000)
-	g = 1_000_000_000*1_000_000 - g
-	return fmt.Sprintf("%015x", g)
+// Unique accounts, in an order where everything below an account directly follows it
+func accountsByTree(posts []Posting, divider string) []string {
+	seen := make(map[string]bool)
+	accts := make([]string, 0, len(posts))
+	for _, p := range posts {
+		if !seen[p.GetAccount()] {
+			seen[p.GetAccount()] = true
+			accts = append(accts, p.GetAccount())
+		}
+	}
+	sort.Slice(accts, func(i, j int) bool {
+		l, r := strings.Split(accts[i], divider), strings.Split(accts[j], divider)
+		for k := 0; k < len(l) && k < len(r); k++ {
+			if l[k] != r[k] {
+				return l[k] < r[k]
+			}
+		}
+		return len(l) < len(r)
+	})
+	return accts
 }
 
-func getSortOrderString(val map[string]*big.Rat, acct string, divider string) string {
-	o := make([]string, 0, 5)
-	for i := 1; i <= len(acct); i++ {
-		if i != len(acct) && !strings.HasPrefix(acct[i:], divider) {
-			continue
+// Sort key for every account: each account directly follows the account it is below,
+// and accounts below the same one are in order of decreasing value (then by name)
+func getSortOrders(val map[string]*big.Rat, divider string) map[string]string {
+	accts := make([]string, 0, len(val))
+	chains := make(map[string][]string)
+	for acct := range val {
+		accts = append(accts, acct)
+		for i := 0; i <= len(acct); i++ {
+			if i != len(acct) && !strings.HasPrefix(acct[i:], divider) {
+				continue
+			}
+			if _, ok := val[acct[:i]]; ok {
+				chains[acct] = append(chains[acct], acct[:i])
+			}
 		}
-		if v, ok := val[acct[:i]]; ok {
-			o = append(o, getSortOrder(v))
+	}
+	sort.Slice(accts, func(i, j int) bool {
+		l, r := chains[accts[i]], chains[accts[j]]
+		for k := 0; k < len(l) && k < len(r); k++ {
+			if l[k] == r[k] {
+				continue
+			}
+			if c := val[l[k]].Cmp(val[r[k]]); c != 0 {
+				return c > 0
+			}
+			return l[k] < r[k]
 		}
+		return len(l) < len(r)
+	})
+	orders := make(map[string]string)
+	for i, acct := range accts {
+		orders[acct] = fmt.Sprintf("%08d", i)
 	}
-	return strings.Join(o, divider)
+	return orders
 }
 
 func splitByStrings(prefixes map[string]bool, acct string, includeSelf bool, divider string) (int, string) {
@@ -209,6 +242,13 @@ func (b *Book) Accumulate(toCCY string, divider string, credit *regexp.Regexp, h
 				(posts[i-1].GetAccount() == key || p.GetAccount() == key) {
 				fmt.Fprintf(os.Stderr, "WARNING: account '%s' (%s) and '%s' (%s) both have balances\n", p.GetAccount(), p.GetCCY(), posts[i-1].GetAccount(), posts[i-1].GetCCY())
 			}
+		}
+	}
+
+	// .. and those with more than one account below them
+	accts := accountsByTree(posts, divider)
+	for i := 1; i < len(accts); i++ {
+		if key := findMaxCommonPrefix(accts[i-1], accts[i], divider); key != "" {
 			accum[key] = true
 		}
 	}
@@ -241,10 +281,12 @@ func (b *Book) Accumulate(toCCY string, divider string, credit *regexp.Regexp, h
 				acctval[k] = v
 			}
 
+			sorts := getSortOrders(acctval, divider)
+
 			// Assign level to normal postings
 			for j := transIdx; j < i; j++ {
 				eposts[j].acctlevel, eposts[j].acctterm = splitByStrings(accum, eposts[j].acct, true, divider)
-				eposts[j].acctsort = getSortOrderString(acctval, eposts[j].acct, divider)
+				eposts[j].acctsort = sorts[eposts[j].acct]
 			}
 
 			// Create new postings
@@ -252,7 +294,6 @@ func (b *Book) Accumulate(toCCY string, divider string, credit *regexp.Regexp, h
 
 				// Find the level
 				newlevels, newterm := splitByStrings(accum, k, false, divider)
-				newsort := getSortOrderString(acctval, k, divider)
 
 				// Add new posting
 				sposts = append(sposts, Posting{
@@ -266,7 +307,7 @@ func (b *Book) Accumulate(toCCY string, divider string, credit *regexp.Regexp, h
 					bal:       big.NewRat(0, 1),
 					acctlevel: newlevels,
 					acctterm:  newterm,
-					acctsort:  newsort,
+					acctsort:  sorts[k],
 				})
 			}
 
-- 
2.43.0


From 72755578afd4498c2e72c1aaac007029610326eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 17/55] fix: the register uses the price of the posting's
 currency in the base currency

---
 book/registry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/book/registry.go b/book/registry.go
index 62fea97..8b8f028 100644
--- a/book/registry.go
+++ b/book/registry.go
@@ -130,7 +130,7 @@ func (b *Book) ExtractRegister(baseccy string, re *regexp.Regexp, split bool) Re
 					if r != nil {
 						baseSource = PriceTypeTrade
 					} else {
-						r, baseSource = b.GetPrice(trans.GetDate(), baseccy, p.GetCCY())
+						r, baseSource = b.GetPrice(trans.GetDate(), p.GetCCY(), baseccy)
 					}
 					baseAmt = big.NewRat(0, 1).Mul(r, camts[i])
 				}
-- 
2.43.0


From 66fbdaa60b45a3849a6c0677053e3d31c43f41b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 18/55] fix: the JSON of a posting has the posting's own note

---
 book/posting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/book/posting.go b/book/posting.go
index d15fbb5..92390da 100644
--- a/book/posting.go
+++ b/book/posting.go
@@ -124,6 +124,6 @@ func (p Posting) MarshalJSON() ([]byte, error) {
 		Account: p.acct,
 		CCY:     p.ccy,
 		Amount:  amt,
-		Note:    p.tnote,
+		Note:    p.note,
 	})
 }
-- 
2.43.0


From 7fd258a0f7d892642f178bfad0bfdb0738a7bcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 19/55] fix: register --asc=false lists all entries

---
 cmd/register/show_register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/register/show_register.go b/cmd/register/show_register.go
index f7e338f..a993dc4 100644
--- a/cmd/register/show_register.go
+++ b/cmd/register/show_register.go
@@ -28,7 +28,7 @@ func ShowReport(b *app.BookPrinter, report book.RegistryReport, format string, c
 	// Reverse if requested
 	if !asc {
 		ndata := make([]*book.RegistryEntry, len(report), len(report))
-		for i := 0; i < len(report)/2; i++ {
+		for i := range report {
 			ndata[len(report)-i-1] = (report)[i]
 		}
 		report = ndata
-- 
2.43.0


From 13c082e950b7ee35de1a1299004964ec668b9e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 20/55] fix: the register of one account holds that account's
 entries only

---
 cmd/register/register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/register/register.go b/cmd/register/register.go
index 649cd66..ced1a06 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -106,7 +106,7 @@ func (reg *RegisterReport) run(rapp *app.App, cmd *cobra.Command, args []string)
 
 	for _, acct := range b.Accounts(arg, !rapp.All) {
 		bp.Printf("\n%s\n", bp.Ansi(app.BlueUL, acct))
-		acctRe, err := regexp.Compile(fmt.Sprintf("^%s$", acct))
+		acctRe, err := regexp.Compile("^" + regexp.QuoteMeta(acct) + "$")
 		if err != nil {
 			return fmt.Errorf("failed compiling re for account '%s': %w", acct, err)
 		}
-- 
2.43.0


From 988cd378cb6b1b8e4172b3f6311d037a9afecfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 21/55] fix: register rejects begin and as-of dates that are
 not dates

---
 cmd/register/register.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/register/register.go b/cmd/register/register.go
index ced1a06..d105a94 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -65,6 +65,12 @@ func Add(cmd *cobra.Command, app *app.App, reg *RegisterReport) {
 
 func (reg *RegisterReport) run(rapp *app.App, cmd *cobra.Command, args []string) error {
 
+	for _, date := range []string{reg.BeginDate, reg.EndDate} {
+		if date != "" && book.DateFromString(date) == book.Date(0) {
+			return fmt.Errorf("invalid date: '%s'", date)
+		}
+	}
+
 	// Load up saved flags
 	b, err := rapp.LoadBook()
 	if err != nil {
-- 
2.43.0


From b6048a7639d10e86f699708d681f118d8b4f4337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 22/55] fix: an invalid regular expression or number of months
 is an error, not a crash

---
 cmd/accounts/accounts.go |  5 +++++
 cmd/app/book_op.go       | 15 +++++++++++++++
 cmd/register/register.go | 11 ++++++-----
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/cmd/accounts/accounts.go b/cmd/accounts/accounts.go
index 1712049..5c03d04 100644
--- a/cmd/accounts/accounts.go
+++ b/cmd/accounts/accounts.go
@@ -1,8 +1,10 @@
 package accounts
 
 import (
+	"fmt"
 	rapp "github.com/mescanne/goledger/cmd/app"
 	"github.com/spf13/cobra"
+	"regexp"
 )
 
 func Add(cmd *cobra.Command, app *rapp.App) {
@@ -28,6 +30,9 @@ func Add(cmd *cobra.Command, app *rapp.App) {
 		if len(args) == 1 {
 			regex = args[0]
 		}
+		if _, err := regexp.Compile(regex); err != nil {
+			return fmt.Errorf("invalid regex: '%s': %w", regex, err)
+		}
 
 		// Create printer
 		bp := app.NewBookPrinter(b.GetCCYDecimals())
diff --git a/cmd/app/book_op.go b/cmd/app/book_op.go
index 82cb34d..820e23a 100644
--- a/cmd/app/book_op.go
+++ b/cmd/app/book_op.go
@@ -122,6 +122,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("mapccy operation '%s', invalid: must be format '%s'", op_act, map_op.String())
 		}
+		if _, err := regexp.Compile(args[1]); err != nil {
+			return fmt.Errorf("mapccy operation '%s', invalid: %w", op_act, err)
+		}
 		b.RegexCCY(args[1], args[2])
 		return nil
 	case "map=":
@@ -129,6 +132,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("map operation '%s', invalid: must be format '%s'", op_act, map_op.String())
 		}
+		if _, err := regexp.Compile(args[1]); err != nil {
+			return fmt.Errorf("map operation '%s', invalid: %w", op_act, err)
+		}
 		b.RegexAccounts(args[1], args[2], args[4])
 		return nil
 	case "move=":
@@ -136,6 +142,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("move operation '%s', invalid: must be format '%s'", op_act, move_op.String())
 		}
+		if _, err := regexp.Compile(args[1]); err != nil {
+			return fmt.Errorf("move operation '%s', invalid: %w", op_act, err)
+		}
 		factor, ok := new(big.Rat).SetString(args[3])
 		if !ok {
 			return fmt.Errorf("move factor '%s', invalid: must be a decimal number", args[3])
@@ -174,6 +183,12 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if err != nil {
 			return fmt.Errorf("depreciate months '%s', invalid: must be integer: %v", args[3], err)
 		}
+		if _, err := regexp.Compile(args[1]); err != nil {
+			return fmt.Errorf("depreciate operation '%s', invalid: %w", op_act, err)
+		}
+		if months < 1 {
+			return fmt.Errorf("depreciate months '%s', invalid: must be at least one", args[3])
+		}
 		b.Depreciate(args[1], args[2], "monthly", months)
 		return nil
 	default:
diff --git a/cmd/register/register.go b/cmd/register/register.go
index d105a94..2756e01 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -97,14 +97,15 @@ func (reg *RegisterReport) run(rapp *app.App, cmd *cobra.Command, args []string)
 	// Create printer
 	bp := rapp.NewBookPrinter(b.GetCCYDecimals())
 
-	// Combined -- just dump out as is
 	var rep book.RegistryReport
 	arg := args[len(args)-1]
+	re, err := regexp.Compile(arg)
+	if err != nil {
+		return fmt.Errorf("invalid regex: '%s': %w", arg, err)
+	}
+
+	// Combined -- just dump out as is
 	if reg.Combined {
-		re, err := regexp.Compile(arg)
-		if err != nil {
-			return fmt.Errorf("invalid regex: '%s': %w", arg, err)
-		}
 		rep = b.ExtractRegister(rapp.BaseCCY, re, reg.Split)
 		rep.FilterByDate(reg.BeginDate, reg.EndDate)
 		return ShowReport(bp, rep, reg.Type, reg.Count, reg.Asc, true, true)
-- 
2.43.0


From 69ba67d641e0db2470865a6df8f509492e23f446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 23/55] fix: a macro that refers to itself is an error

---
 cmd/app/book_op.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cmd/app/book_op.go b/cmd/app/book_op.go
index 820e23a..aafd9f1 100644
--- a/cmd/app/book_op.go
+++ b/cmd/app/book_op.go
@@ -87,7 +87,7 @@ var deprec_op = regexp.MustCompile("^/([^/]+)/([^/]+)/([0-9\\.]+)/$")
 
 func (app *App) BookOps(b *book.Book, ops ...string) error {
 	for _, op := range ops {
-		if err := app.bookOp(b, op); err != nil {
+		if err := app.bookOp(b, op, nil); err != nil {
 			return fmt.Errorf("error applying operation '%s': %w", op, err)
 		}
 	}
@@ -95,13 +95,20 @@ func (app *App) BookOps(b *book.Book, ops ...string) error {
 	return nil
 }
 
-func (app *App) bookOp(b *book.Book, op string) error {
+// Apply one operation; within holds the macros being expanded
+func (app *App) bookOp(b *book.Book, op string, within []string) error {
 	var err error
 
 	m, ok := app.Macros[op]
 	if ok {
+		for _, outer := range within {
+			if outer == op {
+				return fmt.Errorf("macro '%s' refers to itself", op)
+			}
+		}
+		within = append(within, op)
 		for _, macro := range m {
-			err = app.bookOp(b, macro)
+			err = app.bookOp(b, macro, within)
 			if err != nil {
 				return fmt.Errorf("macro expansion '%s': %v", op, err)
 			}
-- 
2.43.0


From 1aa8f151625264dff8e2128361bbaabf23b4265b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 24/55] fix: a text report of an empty or unsummarised book
 doesn't crash

---
 cmd/reports/text.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/reports/text.go b/cmd/reports/text.go
index e9dc924..6b28cda 100644
--- a/cmd/reports/text.go
+++ b/cmd/reports/text.go
@@ -9,6 +9,11 @@ import (
 
 func ShowTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 
+	// Nothing to show
+	if len(trans) == 0 {
+		return nil
+	}
+
 	// Main transaction (reference one)
 	postingTrans := trans[len(trans)-1]
 
@@ -51,6 +56,9 @@ func ShowTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 		pidx := len(rows)
 		rows = append(rows, make([]app.ColumnValue, len(trans)+1))
 		rows[pidx][0] = app.ColumnString(t)
+		for j := range trans {
+			rows[pidx][j+1] = app.ColumnString("")
+		}
 
 		// Record the index
 		idx[[3]string{v.GetAccount(), v.GetAccountTerm(), v.GetCCY()}] = pidx
-- 
2.43.0


From 5b96b74fdbe098eb74e6d8da7cdee435076ab748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 25/55] fix: a currency with an empty name can be shown

---
 cmd/app/print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index 0c5feac..76d5a76 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -269,7 +269,7 @@ func (b *BookPrinter) FormatNumber(symbol string, amount *big.Rat) string {
 
 // Formal the symbol (CCY) for printing
 func (b *BookPrinter) FormatSymbol(symbol string) string {
-	if sym := []rune(symbol); unicode.IsLetter(sym[len(sym)-1]) || sym[len(sym)-1] == '"' {
+	if sym := []rune(symbol); len(sym) > 0 && (unicode.IsLetter(sym[len(sym)-1]) || sym[len(sym)-1] == '"') {
 		return symbol + " "
 	}
 	return symbol
-- 
2.43.0


From 017c20105b11e9b378851f734d4946921cfe48f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 26/55] fix: ledger output can be loaded again: exact,
 unlocalised numbers, quoted names

---
 cmd/app/print.go      | 17 +++++++++++++++++
 cmd/export/ledger.go  | 18 ++++++++++++++----
 cmd/reports/ledger.go | 11 ++++++++---
 3 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index 76d5a76..8eee243 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -267,6 +267,23 @@ func (b *BookPrinter) FormatNumber(symbol string, amount *big.Rat) string {
 	return b.pr.Sprintf("%.*f", dec, f)
 }
 
+// Format the number so that it can be read again: independent of the locale, with
+// all the decimals it needs, but at least those of the symbol. An amount that no
+// number of decimals can express is rounded.
+func (b *BookPrinter) FormatExactNumber(symbol string, amount *big.Rat) string {
+	dec, ok := b.decs[symbol]
+	if !ok {
+		dec = 2
+	}
+	for i := dec; i <= dec+amount.Denom().BitLen(); i++ {
+		s := amount.FloatString(i)
+		if r, ok := new(big.Rat).SetString(s); ok && r.Cmp(amount) == 0 {
+			return s
+		}
+	}
+	return amount.FloatString(dec)
+}
+
 // Formal the symbol (CCY) for printing
 func (b *BookPrinter) FormatSymbol(symbol string) string {
 	if sym := []rune(symbol); len(sym) > 0 && (unicode.IsLetter(sym[len(sym)-1]) || sym[len(sym)-1] == '"') {
diff --git a/cmd/export/ledger.go b/cmd/export/ledger.go
index e6429a3..898d395 100644
--- a/cmd/export/ledger.go
+++ b/cmd/export/ledger.go
@@ -4,10 +4,18 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"github.com/mescanne/goledger/loader"
+	"strings"
 )
 
+func LedgerFormatPayee(payee string) string {
+	if strings.HasPrefix(payee, "*") || strings.Contains(payee, ";") {
+		return "\"" + payee + "\""
+	}
+	return payee
+}
+
 func LedgerFormatCurrency(ccy string) string {
-	needsQuotes := false
+	needsQuotes := ccy == ""
 	for _, c := range ccy {
 		if !loader.IsCCYRune(rune(c)) {
 			needsQuotes = true
@@ -27,7 +35,7 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 		if tnote != "" {
 			tnote = "  ; " + tnote
 		}
-		b.Printf("%s %s%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		b.Printf("%s %s%s\n", posts.GetDate(), LedgerFormatPayee(posts.GetPayee()), tnote)
 		for _, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
@@ -36,7 +44,7 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 
 			ccy := LedgerFormatCurrency(p.GetCCY())
 
-			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatNumber(p.GetCCY(), p.GetAmount()), pnote)
+			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatExactNumber(p.GetCCY(), p.GetAmount()), pnote)
 		}
 		b.Printf("\n")
 	}
@@ -44,8 +52,10 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 	b.Printf("\n; Prices\n")
 	for _, pair := range bk.GetPricePairs() {
 		pl := bk.GetPriceList(pair.Unit, pair.CCY)
+		unit := LedgerFormatCurrency(pair.Unit)
+		ccy := LedgerFormatCurrency(pair.CCY)
 		for _, p := range pl {
-			b.Printf("P %s 00:00:00 %s %s%s\n", p.GetDate(), pair.Unit, b.FormatSymbol(pair.CCY), b.FormatNumber(pair.CCY, p.GetPrice()))
+			b.Printf("P %s 00:00:00 %s %s%s\n", p.GetDate(), unit, b.FormatSymbol(ccy), b.FormatExactNumber(pair.CCY, p.GetPrice()))
 		}
 	}
 
diff --git a/cmd/reports/ledger.go b/cmd/reports/ledger.go
index 07d497a..25d05dc 100644
--- a/cmd/reports/ledger.go
+++ b/cmd/reports/ledger.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"github.com/mescanne/goledger/loader"
+	"strings"
 )
 
 func ShowLedger(b *app.BookPrinter, trans []book.Transaction) error {
@@ -12,7 +13,11 @@ func ShowLedger(b *app.BookPrinter, trans []book.Transaction) error {
 		if tnote != "" {
 			tnote = "  ; " + tnote
 		}
-		b.Printf("%s %s%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		payee := posts.GetPayee()
+		if strings.HasPrefix(payee, "*") || strings.Contains(payee, ";") {
+			payee = "\"" + payee + "\""
+		}
+		b.Printf("%s %s%s\n", posts.GetDate(), payee, tnote)
 		for _, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
@@ -20,7 +25,7 @@ func ShowLedger(b *app.BookPrinter, trans []book.Transaction) error {
 			}
 
 			ccy := p.GetCCY()
-			needsQuotes := false
+			needsQuotes := ccy == ""
 			for _, c := range ccy {
 				if !loader.IsCCYRune(rune(c)) {
 					needsQuotes = true
@@ -30,7 +35,7 @@ func ShowLedger(b *app.BookPrinter, trans []book.Transaction) error {
 				ccy = "\"" + ccy + "\""
 			}
 
-			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatNumber(p.GetCCY(), p.GetAmount()), pnote)
+			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatExactNumber(p.GetCCY(), p.GetAmount()), pnote)
 		}
 		b.Printf("\n")
 	}
-- 
2.43.0


From 73c347fb4df51b84f6481b1a891f5f73e998f5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 27/55] fix: Beancount accounts are closed only when empty in
 every currency

---
 cmd/export/beancount.go  | 39 +++++++++++++++++++++++++++++----------
 cmd/reports/beancount.go | 37 ++++++++++++++++++++++++++++---------
 2 files changed, 57 insertions(+), 19 deletions(-)

diff --git a/cmd/export/beancount.go b/cmd/export/beancount.go
index b84366e..813f14d 100644
--- a/cmd/export/beancount.go
+++ b/cmd/export/beancount.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"math/big"
+	"sort"
 	"strings"
 )
 
@@ -24,12 +25,11 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 
 	// Gather account info
 	type accountInfo struct {
-		first  book.Date
-		last   book.Date
-		isZero bool
+		first book.Date
+		last  book.Date
+		bals  map[string]*big.Rat
 	}
 	lstats := make(map[string]*accountInfo)
-	var zero big.Rat
 	for _, t := range trans {
 		for _, p := range t {
 			acct := FormatAccount(p.GetAccount())
@@ -38,12 +38,19 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 				stats = &accountInfo{
 					first: p.GetDate(),
 					last:  p.GetDate(),
+					bals:  make(map[string]*big.Rat),
 				}
 				lstats[acct] = stats
 			} else {
 				stats.last = p.GetDate()
 			}
-			stats.isZero = (p.GetBalance().Cmp(&zero) == 0)
+			ccy := FormatCurrency(p.GetCCY())
+			bal, ok := stats.bals[ccy]
+			if !ok {
+				bal = new(big.Rat)
+				stats.bals[ccy] = bal
+			}
+			bal.Add(bal, p.GetAmount())
 		}
 	}
 
@@ -53,9 +60,21 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 	}
 
 	// Account open close
-	for acct, stats := range lstats {
+	accts := make([]string, 0, len(lstats))
+	for acct := range lstats {
+		accts = append(accts, acct)
+	}
+	sort.Strings(accts)
+	for _, acct := range accts {
+		stats := lstats[acct]
 		b.Printf("%s open %s\n", stats.first, acct)
-		if stats.isZero {
+		isZero := true
+		for _, bal := range stats.bals {
+			if bal.Sign() != 0 {
+				isZero = false
+			}
+		}
+		if isZero {
 			b.Printf("%s close %s\n", stats.last.AddDays(1), acct)
 		}
 	}
@@ -69,14 +88,14 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 		}
 
 		// Slightly different format. NOTE -- CCYs have strict requirements.
-		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), strings.ReplaceAll(posts.GetPayee(), "\"", "\\\""), tnote)
 		for _, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
 				pnote = "  ; " + pnote
 			}
 			ccy := FormatCurrency(p.GetCCY())
-			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatNumber(p.GetCCY(), p.GetAmount()), ccy, pnote)
+			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatExactNumber(p.GetCCY(), p.GetAmount()), ccy, pnote)
 		}
 		b.Printf("\n")
 	}
@@ -88,7 +107,7 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 		unit := FormatCurrency(pair.Unit)
 		ccy := FormatCurrency(pair.CCY)
 		for _, p := range pl {
-			b.Printf("P %s 00:00:00 %s %s %s\n", p.GetDate(), unit, b.FormatNumber(pair.CCY, p.GetPrice()), ccy)
+			b.Printf("P %s 00:00:00 %s %s %s\n", p.GetDate(), unit, b.FormatExactNumber(pair.CCY, p.GetPrice()), ccy)
 		}
 	}
 
diff --git a/cmd/reports/beancount.go b/cmd/reports/beancount.go
index ee2eb09..2890fd0 100644
--- a/cmd/reports/beancount.go
+++ b/cmd/reports/beancount.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"math/big"
+	"sort"
 	"strings"
 )
 
@@ -22,12 +23,11 @@ func ShowBeancount(b *app.BookPrinter, trans []book.Transaction) error {
 
 	// Gather account info
 	type accountInfo struct {
-		first  book.Date
-		last   book.Date
-		isZero bool
+		first book.Date
+		last  book.Date
+		bals  map[string]*big.Rat
 	}
 	lstats := make(map[string]*accountInfo)
-	var zero big.Rat
 	for _, t := range trans {
 		for _, p := range t {
 			acct := FormatAccount(p.GetAccount())
@@ -36,18 +36,37 @@ func ShowBeancount(b *app.BookPrinter, trans []book.Transaction) error {
 				stats = &accountInfo{
 					first: p.GetDate(),
 					last:  p.GetDate(),
+					bals:  make(map[string]*big.Rat),
 				}
 				lstats[acct] = stats
 			} else {
 				stats.last = p.GetDate()
 			}
-			stats.isZero = (p.GetBalance().Cmp(&zero) == 0)
+			ccy := FormatCurrency(p.GetCCY())
+			bal, ok := stats.bals[ccy]
+			if !ok {
+				bal = new(big.Rat)
+				stats.bals[ccy] = bal
+			}
+			bal.Add(bal, p.GetAmount())
 		}
 	}
 
-	for acct, stats := range lstats {
+	accts := make([]string, 0, len(lstats))
+	for acct := range lstats {
+		accts = append(accts, acct)
+	}
+	sort.Strings(accts)
+	for _, acct := range accts {
+		stats := lstats[acct]
 		b.Printf("%s open %s\n", stats.first, acct)
-		if stats.isZero {
+		isZero := true
+		for _, bal := range stats.bals {
+			if bal.Sign() != 0 {
+				isZero = false
+			}
+		}
+		if isZero {
 			b.Printf("%s close %s\n", stats.last.AddDays(1), acct)
 		}
 	}
@@ -68,14 +87,14 @@ func ShowBeancount(b *app.BookPrinter, trans []book.Transaction) error {
 		}
 
 		// Slightly different format. NOTE -- CCYs have strict requirements.
-		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), strings.ReplaceAll(posts.GetPayee(), "\"", "\\\""), tnote)
 		for _, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
 				pnote = "  ; " + pnote
 			}
 			ccy := FormatCurrency(p.GetCCY())
-			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatNumber(p.GetCCY(), p.GetAmount()), ccy, pnote)
+			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatExactNumber(p.GetCCY(), p.GetAmount()), ccy, pnote)
 		}
 		b.Printf("\n")
 	}
-- 
2.43.0


From c4c5f7b230fbfb72526f0ffae00ed49e7cd49bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:05 +0000
Subject: [PATCH 28/55] fix: CSV amounts have all digits of the double

---
 cmd/export/csv.go             | 4 ++--
 cmd/register/show_register.go | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmd/export/csv.go b/cmd/export/csv.go
index dfc28ba..1c829c2 100644
--- a/cmd/export/csv.go
+++ b/cmd/export/csv.go
@@ -4,7 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"encoding/csv"
-	"fmt"
+	"strconv"
 )
 
 func ShowCSV(b *app.BookPrinter, bk *book.Book) error {
@@ -32,7 +32,7 @@ func ShowCSV(b *app.BookPrinter, bk *book.Book) error {
 				posts.GetTransactionNote(),
 				p.GetAccount(),
 				p.GetCCY(),
-				fmt.Sprintf("%f", f),
+				strconv.FormatFloat(f, 'f', -1, 64),
 				p.GetPostNote(),
 			})
 		}
diff --git a/cmd/register/show_register.go b/cmd/register/show_register.go
index a993dc4..62c147a 100644
--- a/cmd/register/show_register.go
+++ b/cmd/register/show_register.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
+	"strconv"
 	"strings"
 )
 
@@ -130,8 +131,8 @@ func ShowCSV(b *app.BookPrinter, report book.RegistryReport) error {
 			p.Account,
 			p.CounterAccount,
 			p.CCY,
-			fmt.Sprintf("%f", amt),
-			fmt.Sprintf("%f", bal),
+			strconv.FormatFloat(amt, 'f', -1, 64),
+			strconv.FormatFloat(bal, 'f', -1, 64),
 		})
 	}
 
-- 
2.43.0


From 5f028e18bc919899492c15eab73c9323aff2f892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 29/55] fix: a state file is replaced whole or not at all

---
 cmd/utils/json.go | 84 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 54 insertions(+), 30 deletions(-)

diff --git a/cmd/utils/json.go b/cmd/utils/json.go
index 03fbf15..4df2a08 100644
--- a/cmd/utils/json.go
+++ b/cmd/utils/json.go
@@ -105,54 +105,78 @@ func LoadFromFile(file string, data interface{}) error {
 	return nil
 }
 
+// Save data to the file. The file is replaced as a whole: whatever fails on
+// the way, it has either its previous contents or all of the new contents.
 func SaveToFile(file string, data interface{}) (oerr error) {
 
+	// Marshal the JSON bytes
+	b, err := json.MarshalIndent(data, "", "  ")
+	if err != nil {
+		return fmt.Errorf("failed marshalling to json %s: %v", file, err)
+	}
+
 	// Ensure directory exists
-	err := os.MkdirAll(filepath.Dir(file), os.ModePerm)
+	err = os.MkdirAll(filepath.Dir(file), os.ModePerm)
 	if err != nil {
 		return fmt.Errorf("failed mkdir %s: %v", filepath.Dir(file), err)
 	}
 
-	// Open the file
-	fh, err := os.OpenFile(file, os.O_TRUNC|os.O_WRONLY|os.O_CREATE, 0755)
-	if err != nil {
-		return fmt.Errorf("failed opening %s: %v", file, err)
+	// Replace what a link refers to, not the link, and keep its permissions
+	target := file
+	if real, err := filepath.EvalSymlinks(file); err == nil {
+		target = real
+	}
+	mode := os.FileMode(0755)
+	stat, err := os.Stat(target)
+	if err == nil {
+		if !stat.Mode().IsRegular() {
+			return fmt.Errorf("failed opening %s: not a regular file", file)
+		}
+		mode = stat.Mode().Perm()
 	}
 
-	// Defered closing
+	// Write to a new file next to it
+	tmp := target + ".tmp"
+	if err := os.Remove(tmp); err != nil && !os.IsNotExist(err) {
+		return fmt.Errorf("failed removing %s: %v", tmp, err)
+	}
+	fh, err := os.OpenFile(tmp, os.O_EXCL|os.O_WRONLY|os.O_CREATE, mode)
+	if err != nil {
+		return fmt.Errorf("failed opening %s: %v", tmp, err)
+	}
 	defer func() {
-		if err := fh.Close(); err != nil {
-			if oerr != nil {
-				oerr = fmt.Errorf("failed closing %s: %v", file, err)
-			}
+		if oerr != nil {
+			os.Remove(tmp)
 		}
 	}()
 
-	// Check if it's gz
-	var w io.Writer = fh
-	if filepath.Ext(file) == ".gz" {
-		gwriter := gzip.NewWriter(fh)
-		defer func() {
-			if err := gwriter.Close(); err != nil {
-				if oerr != nil {
-					oerr = fmt.Errorf("failed closing %s: %v", file, err)
-				}
-			}
-		}()
-		w = gwriter
+	err = writeBytes(fh, b, filepath.Ext(file) == ".gz")
+	if err == nil {
+		err = fh.Sync()
+	}
+	if cerr := fh.Close(); err == nil {
+		err = cerr
 	}
-
-	// Marshal the JSON bytes
-	b, err := json.MarshalIndent(data, "", "  ")
 	if err != nil {
-		return fmt.Errorf("failed marshalling to json %s: %v", file, err)
+		return fmt.Errorf("failed writing to %s: %v", tmp, err)
 	}
 
-	// Write the file
-	_, err = w.Write(b)
-	if err != nil {
-		return fmt.Errorf("failed writing to %s: %v", file, err)
+	// Put it in place
+	if err := os.Rename(tmp, target); err != nil {
+		return fmt.Errorf("failed replacing %s: %v", file, err)
 	}
 
 	return nil
 }
+
+func writeBytes(w io.Writer, b []byte, compress bool) error {
+	if !compress {
+		_, err := w.Write(b)
+		return err
+	}
+	gwriter := gzip.NewWriter(w)
+	if _, err := gwriter.Write(b); err != nil {
+		return err
+	}
+	return gwriter.Close()
+}
-- 
2.43.0


From 11fafcf454da713bcc4914701762a7e83903348e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 30/55] fix: downloading from Monzo ends also with a full page
 of transactions within a minute

---
 cmd/download/monzo.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/cmd/download/monzo.go b/cmd/download/monzo.go
index 46699c6..98ca5b7 100644
--- a/cmd/download/monzo.go
+++ b/cmd/download/monzo.go
@@ -271,6 +271,8 @@ func (m *MonzoClient) GetAllTransactions(accountID string) error {
 	}
 
 	var since = ""
+	byID := false
+	seen := make(map[string]bool)
 	for {
 		fmt.Printf("Downloading transactions for account %s... ", accountID)
 
@@ -295,14 +297,19 @@ func (m *MonzoClient) GetAllTransactions(accountID string) error {
 
 		// Map new transactions in
 		var created time.Time
+		lastID := ""
+		added := false
 		for _, t := range trans.Trans {
 			m.data.Transactions[t.ID] = t
+			added = added || !seen[t.ID]
+			seen[t.ID] = true
 			thisTime, err := time.Parse(time.RFC3339, t.Created)
 			if err != nil {
 				return fmt.Errorf("failed parsing timestamp '%s': %w", t.Created, err)
 			}
-			if thisTime.After(created) {
+			if !thisTime.Before(created) {
 				created = thisTime
+				lastID = t.ID
 			}
 		}
 
@@ -311,6 +318,19 @@ func (m *MonzoClient) GetAllTransactions(accountID string) error {
 			break
 		}
 
+		// A full page of nothing new: the times don't get us any further,
+		// continue after the last transaction itself.
+		if !added {
+			if byID {
+				return fmt.Errorf("no transactions after '%s' although there are more", lastID)
+			}
+			byID = true
+		}
+		if byID {
+			since = lastID
+			continue
+		}
+
 		// Use the the time of a minute before the most recent transaction --
 		// Bug in Monzo API, unfortunately.
 		since = created.Add(-1 * time.Second * 60).Format(time.RFC3339)
-- 
2.43.0


From 0d405fe7e8559be0d5aef9d6e11f27e18a2417bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 31/55] fix: reclassify to the most common account, always the
 same one

---
 book/book_reclassify.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/book/book_reclassify.go b/book/book_reclassify.go
index 79091b3..c0c8a1d 100644
--- a/book/book_reclassify.go
+++ b/book/book_reclassify.go
@@ -52,8 +52,8 @@ func (b *Book) ReclassifyByAccount(ref *Book, refacct string, dist func(a, b str
 		max := 0
 		macct := ""
 		for cacct, k := range caccts {
-			if k > max {
-				k = max
+			if k > max || (k == max && cacct < macct) {
+				max = k
 				macct = cacct
 			}
 		}
@@ -76,11 +76,13 @@ func (b *Book) ReclassifyByAccount(ref *Book, refacct string, dist func(a, b str
 		}
 
 		max_match := 0.0
+		max_payee := ""
 		max_cacct := ""
 		for p, c := range payee_mapping {
 			d := dist(trans.GetPayee(), p)
-			if d > max_match {
+			if d > max_match || (d > 0.0 && d == max_match && p < max_payee) {
 				max_match = d
+				max_payee = p
 				max_cacct = c
 			}
 		}
-- 
2.43.0


From 38c321568037d44b2a6618408c1821eb95bae875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 32/55] fix: add() rejects missing amounts and zero
 denominators, floats are the decimal written

---
 script/convert.go  |  7 ++++++-
 script/starlark.go | 29 +++++++++++++++++++----------
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/script/convert.go b/script/convert.go
index 39f569d..f2b0143 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -7,6 +7,7 @@ import (
 	"go.starlark.net/starlark"
 	"io"
 	"math/big"
+	"strconv"
 )
 
 type StarlarkReader func(r io.Reader) (starlark.Value, error)
@@ -128,7 +129,11 @@ func GetBigRat(amount starlark.Value) (*big.Rat, error) {
 	var amt *big.Rat = &big.Rat{}
 	switch v := amount.(type) {
 	case starlark.Float:
-		amt.SetFloat64(float64(v))
+		// The decimal number as written, not its binary approximation
+		_, ok := amt.SetString(strconv.FormatFloat(float64(v), 'g', -1, 64))
+		if !ok {
+			return nil, fmt.Errorf("invalid amount '%v'", v)
+		}
 	case starlark.Int:
 		amt.SetInt(v.BigInt())
 	case starlark.String:
diff --git a/script/starlark.go b/script/starlark.go
index 86ae09a..c3f2487 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -25,6 +25,21 @@ var Errorf = starlark.NewBuiltin("error",
 		return starlark.None, fmt.Errorf("%w: %s", userError, msg)
 	})
 
+// Get the amount divided by the denominator
+func getAmount(amount starlark.Value, denom int) (*big.Rat, error) {
+	amt, err := GetBigRat(amount)
+	if err != nil {
+		return nil, err
+	}
+	if amt == nil {
+		return nil, fmt.Errorf("missing amount")
+	}
+	if denom == 0 {
+		return nil, fmt.Errorf("invalid denominator 0")
+	}
+	return amt.Mul(amt, big.NewRat(1, int64(denom))), nil
+}
+
 func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, counterAccount string) starlark.Value {
 	buildf := func(thread *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 
@@ -67,14 +82,11 @@ func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, coun
 		}
 
 		// Convert the amount
-		amt, err := GetBigRat(amount)
+		amt, err := getAmount(amount, denom)
 		if err != nil {
 			return nil, err
 		}
 
-		// Divide by denominator if set
-		amt.Mul(amt, big.NewRat(1, int64(denom)))
-
 		// Set the negative of the amount
 		neg := (&big.Rat{}).Neg(amt)
 
@@ -88,19 +100,16 @@ func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, coun
 			return starlark.None, nil
 		}
 
-		if amount2 == starlark.None || account2 == "" || ccy2 == ccy {
-			// Error
+		if amount2 == starlark.None || account2 == "" {
+			return nil, fmt.Errorf("amt2 and account2 must be given together")
 		}
 
 		// Convert the amount2
-		amt2, err := GetBigRat(amount2)
+		amt2, err := getAmount(amount2, denom2)
 		if err != nil {
 			return nil, err
 		}
 
-		// Divide by denominator if set
-		amt2.Mul(amt2, big.NewRat(1, int64(denom2)))
-
 		// Set the negative of the amount
 		neg2 := (&big.Rat{}).Neg(amt2)
 
-- 
2.43.0


From fbb479268e59d5368d40a84bdeaadd32da59091d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 33/55] fix: JSON import rejects data after the first value

---
 script/convert.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/script/convert.go b/script/convert.go
index f2b0143..662209f 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -58,10 +58,14 @@ func jsonToStarlark(data interface{}) (starlark.Value, error) {
 // This is a Starlark Reader
 func ReadJSON(r io.Reader) (starlark.Value, error) {
 	var p interface{}
-	err := json.NewDecoder(r).Decode(&p)
+	dec := json.NewDecoder(r)
+	err := dec.Decode(&p)
 	if err != nil {
 		return nil, fmt.Errorf("json parsing: %w", err)
 	}
+	if _, err = dec.Token(); err != io.EOF {
+		return nil, fmt.Errorf("json parsing: more data after the first value")
+	}
 
 	s, err := jsonToStarlark(p)
 	if err != nil {
-- 
2.43.0


From 83dd5f1abc8ef244bd3e4b74f43089a4e3b45efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:20 +0000
Subject: [PATCH 34/55] fix: the order of an imported JSON object's keys is
 always the same

---
 script/convert.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/script/convert.go b/script/convert.go
index 662209f..7bd09c1 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -7,6 +7,7 @@ import (
 	"go.starlark.net/starlark"
 	"io"
 	"math/big"
+	"sort"
 	"strconv"
 )
 
@@ -36,7 +37,13 @@ func jsonToStarlark(data interface{}) (starlark.Value, error) {
 		return starlark.NewList(newarr), nil
 	case map[string]interface{}:
 		newdict := starlark.NewDict(len(v))
-		for k, nv := range v {
+		keys := make([]string, 0, len(v))
+		for k := range v {
+			keys = append(keys, k)
+		}
+		sort.Strings(keys)
+		for _, k := range keys {
+			nv := v[k]
 			sv, err := jsonToStarlark(nv)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From ac7786a7e16f8a5d0f766125cb6f80ff37007987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 35/55] fix: every line a script prints is a comment

---
 script/starlark.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/script/starlark.go b/script/starlark.go
index c3f2487..cad8cc9 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -9,10 +9,11 @@ import (
 	"go.starlark.net/starlark"
 	"math/big"
 	"os"
+	"strings"
 )
 
 func Print(_ *starlark.Thread, msg string) {
-	fmt.Printf("; %s\n", msg)
+	fmt.Printf("; %s\n", strings.ReplaceAll(msg, "\n", "\n; "))
 }
 
 var userError = errors.New("user code")
-- 
2.43.0


From 5939ec315690f03e96906e37b6c369046a2f51fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 36/55] fix: map() in a script rejects an invalid regular
 expression

---
 script/book_op.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/script/book_op.go b/script/book_op.go
index 0773809..f1f6d55 100644
--- a/script/book_op.go
+++ b/script/book_op.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/book"
 	"go.starlark.net/starlark"
+	"regexp"
 )
 
 var mapf = starlark.NewBuiltin("map",
@@ -23,6 +24,9 @@ var mapf = starlark.NewBuiltin("map",
 		if !ok {
 			return starlark.None, fmt.Errorf("%w: %s", userError, "bound to not a book")
 		}
+		if _, err := regexp.Compile(from); err != nil {
+			return starlark.None, fmt.Errorf("invalid regex '%s': %w", from, err)
+		}
 		bb.b.RegexAccounts(from, to, alt)
 		return val, nil
 	})
-- 
2.43.0


From 1132f239d96fec7ac8eb486876d83d886cb93310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 37/55] fix: generate deduplicates against the whole main book

---
 cmd/generate/generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/generate/generate.go b/cmd/generate/generate.go
index 411ef74..9f23ead 100644
--- a/cmd/generate/generate.go
+++ b/cmd/generate/generate.go
@@ -22,7 +22,7 @@ func (gen *Generate) run(app *app.App, rcmd *cobra.Command, args []string) error
 	}
 
 	// Generate the records from the main book
-	b, err := gen.generate(main, gen.Code)
+	b, err := gen.generate(main.Duplicate(), gen.Code)
 	if err != nil {
 		return fmt.Errorf("error processing data: %w", err)
 	}
-- 
2.43.0


From cce953885d7fbe8a12fbfe93725dcc5c043b0dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 38/55] fix: currencies and import parameters are listed in a
 fixed order

---
 cmd/currencies/currencies.go | 11 +++++++++--
 cmd/utils/cli_config.go      |  3 +++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/cmd/currencies/currencies.go b/cmd/currencies/currencies.go
index 7989639..b31c690 100644
--- a/cmd/currencies/currencies.go
+++ b/cmd/currencies/currencies.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/cmd/app"
 	"github.com/spf13/cobra"
+	"sort"
 )
 
 func Add(root *cobra.Command, app *app.App) {
@@ -20,8 +21,14 @@ func Add(root *cobra.Command, app *app.App) {
 			return err
 		}
 
-		for ccy, dec := range b.GetCCYDecimals() {
-			fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, dec)
+		decs := b.GetCCYDecimals()
+		ccys := make([]string, 0, len(decs))
+		for ccy := range decs {
+			ccys = append(ccys, ccy)
+		}
+		sort.Strings(ccys)
+		for _, ccy := range ccys {
+			fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, decs[ccy])
 		}
 
 		return nil
diff --git a/cmd/utils/cli_config.go b/cmd/utils/cli_config.go
index e134969..2a9982d 100644
--- a/cmd/utils/cli_config.go
+++ b/cmd/utils/cli_config.go
@@ -2,6 +2,7 @@ package utils
 
 import (
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -93,6 +94,8 @@ func (e *CLIConfig) String() string {
 		i++
 	}
 
+	sort.Strings(keyv)
+
 	return e.ConfigType + ":" + strings.Join(keyv, ",")
 }
 
-- 
2.43.0


From 358dab7e932e9da7744545540ef0502c09b76772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 39/55] fix: the configuration file written at first is
 accepted afterwards

---
 cmd/config.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/config.go b/cmd/config.go
index 46e6ad8..95c5acd 100644
--- a/cmd/config.go
+++ b/cmd/config.go
@@ -86,7 +86,7 @@ The configuration file mirrors largely mirrors parameters available
 on the command line.
 
 There are two notable exceptions:
-  - report.macros
+  - macros
     This section defines macros for the report (set of operations) that
     can be used on the command line arguments or by other macros. This
     is how complex reports can be built up.
@@ -122,12 +122,15 @@ const DEFAULT_CONFIG_FILE = `
 #
 [report]
 combineby = "today"
-type =      "Ansi"
+type =      "Text"
 sum =       true
 convert =   true
 credit =    "^(Income|Trading|Liability|Equity)(:.*)?$"
 
-[report.macros]
+#
+# Macros (sequences of operations)
+#
+[macros]
 macroA = [
 	"book operation A",
 	"book operation B",
-- 
2.43.0


From 0cc694f91785718930a87c4325f094e933ed6e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 40/55] fix: report types in the configuration are checked

---
 cmd/export/export.go     | 3 +++
 cmd/register/register.go | 3 +++
 cmd/reports/report.go    | 6 ++++++
 cmd/utils/types.go       | 8 ++++++++
 4 files changed, 20 insertions(+)

diff --git a/cmd/export/export.go b/cmd/export/export.go
index 350531c..edfae69 100644
--- a/cmd/export/export.go
+++ b/cmd/export/export.go
@@ -38,6 +38,9 @@ func Add(cmd *cobra.Command, app *app.App, export *ExportReport) {
 	}
 	ncmd.ValidArgs = macroNames
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
+		if err := exportType.Check(); err != nil {
+			return err
+		}
 		return export.run(app, cmd, args)
 	}
 }
diff --git a/cmd/register/register.go b/cmd/register/register.go
index 2756e01..87e0371 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -57,6 +57,9 @@ func Add(cmd *cobra.Command, app *app.App, reg *RegisterReport) {
 	ncmd.Flags().BoolVar(&reg.Split, "split", reg.Split, "split multiple counteraccounts into separate postings")
 	ncmd.Flags().BoolVar(&reg.Convert, "convert", reg.Convert, "convert postings to base currency")
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
+		if err := reportType.Check(); err != nil {
+			return err
+		}
 		return reg.run(app, cmd, args)
 	}
 
diff --git a/cmd/reports/report.go b/cmd/reports/report.go
index bde4d19..5cdc49a 100644
--- a/cmd/reports/report.go
+++ b/cmd/reports/report.go
@@ -88,6 +88,12 @@ func Add(cmd *cobra.Command, app *app.App, report *TransactionReport) {
 	}
 	ncmd.ValidArgs = macroNames
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
+		if err := floorType.Check(); err != nil {
+			return err
+		}
+		if err := reportType.Check(); err != nil {
+			return err
+		}
 		return report.run(app, cmd, args)
 	}
 }
diff --git a/cmd/utils/types.go b/cmd/utils/types.go
index a5e1ee8..decd944 100644
--- a/cmd/utils/types.go
+++ b/cmd/utils/types.go
@@ -73,6 +73,14 @@ func (e *Enum) Set(value string) error {
 	return fmt.Errorf("invalid value '%s', must be one of %s", value, e.Values())
 }
 
+// Check a value that wasn't set by Set() but read from the configuration
+func (e *Enum) Check() error {
+	if *e.Value == "" {
+		return nil
+	}
+	return e.Set(*e.Value)
+}
+
 func (e *Enum) String() string {
 	return *e.Value
 }
-- 
2.43.0


From 6c4c14ca311d653cafd2bde115b955092d9914ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 41/55] fix: the register is in text form unless specified

---
 cmd/register/register.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/register/register.go b/cmd/register/register.go
index 87e0371..9d31cd0 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -46,6 +46,9 @@ func Add(cmd *cobra.Command, app *app.App, reg *RegisterReport) {
 	}
 
 	// Set defaults
+	if reg.Type == "" {
+		reg.Type = "Text"
+	}
 	reportType := utils.NewEnum(&reg.Type, reportTypes, "reportType")
 	ncmd.Flags().Var(reportType, "type", fmt.Sprintf("report type (%s)", reportType.Values()))
 	ncmd.Flags().BoolVar(&reg.Combined, "combined", reg.Combined, "combined report (all accounts combined)")
-- 
2.43.0


From be31102384b4ff10b66ebc98cb3182d49b69e5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 42/55] fix: text columns keep every space character, as in
 French numbers

---
 cmd/app/print.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index 8eee243..d054749 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -381,7 +381,7 @@ func Length(s string) int {
 		}
 
 		// If it's not printable or a tab (convert to a space), we skip it.
-		if !unicode.IsPrint(r) && r != '\t' {
+		if !unicode.IsGraphic(r) && r != '\t' {
 			continue
 		}
 
@@ -421,7 +421,7 @@ func PadString(s string, max int, justify_left bool) string {
 		}
 
 		// If it's not printable or a tab (convert to a space), we skip it.
-		if !unicode.IsPrint(r) && r != '\t' {
+		if !unicode.IsGraphic(r) && r != '\t' {
 			continue
 		}
 
-- 
2.43.0


From d5198a09c79d75b5582bac4e8f354d767e890607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 43/55] fix: displayed numbers have all their digits, whatever
 their size

---
 cmd/app/print.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index d054749..9acb6c1 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -259,12 +259,33 @@ func (b *BookPrinter) PrintColumns(rows [][]ColumnValue, shrinkToTerm []bool) {
 // Format the number correctly based on the symbol in a locale-specific
 // way
 func (b *BookPrinter) FormatNumber(symbol string, amount *big.Rat) string {
-	f, _ := amount.Float64()
 	dec, ok := b.decs[symbol]
 	if !ok {
 		dec = 2
 	}
-	return b.pr.Sprintf("%.*f", dec, f)
+
+	// The separators of the locale
+	thousands, decimal := ",", "."
+	sample := b.pr.Sprintf("%.1f", 1234.5)
+	if i, j, k := strings.Index(sample, "1"), strings.Index(sample, "234"), strings.Index(sample, "5"); 0 <= i && i < j && j < k {
+		thousands, decimal = sample[i+1:j], sample[j+3:k]
+	}
+
+	// All digits are exact, whatever the size of the amount
+	whole, fraction, sign := amount.FloatString(dec), "", ""
+	if i := strings.Index(whole, "."); i >= 0 {
+		whole, fraction = whole[:i], whole[i+1:]
+	}
+	if strings.HasPrefix(whole, "-") {
+		sign, whole = "-", whole[1:]
+	}
+	for i := len(whole) - 3; i > 0; i -= 3 {
+		whole = whole[:i] + thousands + whole[i:]
+	}
+	if fraction == "" {
+		return sign + whole
+	}
+	return sign + whole + decimal + fraction
 }
 
 // Format the number so that it can be read again: independent of the locale, with
-- 
2.43.0


From a441fb7ff2961995f8df8f0b764b8685994765b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:44 +0000
Subject: [PATCH 44/55] fix: unsummarised reports show the names of accounts

---
 book/builder.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/book/builder.go b/book/builder.go
index fbfb92e..55fb94d 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -125,14 +125,15 @@ func (b *Builder) AddPosting(acct string, ccy string, amt *big.Rat, note string)
 		panic(fmt.Sprintf("posting to %s before any transaction", acct))
 	}
 	b.post = append(b.post, Posting{
-		date:  b.currDate,
-		payee: b.currPayee,
-		tnote: b.currNote,
-		acct:  acct,
-		ccy:   ccy,
-		val:   amt,
-		note:  note,
-		bal:   big.NewRat(0, 1),
+		date:     b.currDate,
+		payee:    b.currPayee,
+		tnote:    b.currNote,
+		acct:     acct,
+		ccy:      ccy,
+		val:      amt,
+		note:     note,
+		bal:      big.NewRat(0, 1),
+		acctterm: acct,
 	})
 
 	v, ok := b.currAmts[ccy]
-- 
2.43.0


From 9794e0a7829adbafb527038dfbe191a19c350699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:08 +0000
Subject: [PATCH 45/55] fix: prices are exported in Beancount's own form

---
 cmd/export/beancount.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/export/beancount.go b/cmd/export/beancount.go
index 813f14d..f00d4a1 100644
--- a/cmd/export/beancount.go
+++ b/cmd/export/beancount.go
@@ -107,7 +107,7 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 		unit := FormatCurrency(pair.Unit)
 		ccy := FormatCurrency(pair.CCY)
 		for _, p := range pl {
-			b.Printf("P %s 00:00:00 %s %s %s\n", p.GetDate(), unit, b.FormatExactNumber(pair.CCY, p.GetPrice()), ccy)
+			b.Printf("%s price %s %s %s\n", p.GetDate(), unit, b.FormatExactNumber(pair.CCY, p.GetPrice()), ccy)
 		}
 	}
 
-- 
2.43.0


From f62af32b6aa5d9efad41f6c22d4aa79b81607ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:45 +0000
Subject: [PATCH 46/55] fix: a backslash in a payee is escaped in Beancount

---
 cmd/export/beancount.go  | 6 +++++-
 cmd/reports/beancount.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/export/beancount.go b/cmd/export/beancount.go
index f00d4a1..dd15163 100644
--- a/cmd/export/beancount.go
+++ b/cmd/export/beancount.go
@@ -19,6 +19,10 @@ func FormatAccount(acct string) string {
 	return acct
 }
 
+func FormatString(s string) string {
+	return strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace(s)
+}
+
 func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 
 	trans := bk.Transactions()
@@ -88,7 +92,7 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 		}
 
 		// Slightly different format. NOTE -- CCYs have strict requirements.
-		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), strings.ReplaceAll(posts.GetPayee(), "\"", "\\\""), tnote)
+		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), FormatString(posts.GetPayee()), tnote)
 		for _, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
diff --git a/cmd/reports/beancount.go b/cmd/reports/beancount.go
index 2890fd0..3f18e0f 100644
--- a/cmd/reports/beancount.go
+++ b/cmd/reports/beancount.go
@@ -19,6 +19,10 @@ func FormatAccount(acct string) string {
 	return acct
 }
 
+func FormatString(s string) string {
+	return strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace(s)
+}
+
 func ShowBeancount(b *app.BookPrinter, trans []book.Transaction) error {
 
 	// Gather account info
@@ -87,7 +91,7 @@ func ShowBeancount(b *app.BookPrinter, trans []book.Transaction) error {
 		}
 
 		// Slightly different format. NOTE -- CCYs have strict requirements.
-		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), strings.ReplaceAll(posts.GetPayee(), "\"", "\\\""), tnote)
+		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), FormatString(posts.GetPayee()), tnote)
 		for _, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
-- 
2.43.0


From af7f4f1676358a7c000a206c6b0535da7c4d4bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:43 +0000
Subject: [PATCH 47/55] fix: merged postings always have the note of the first
 of them

---
 book/book_compact.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/book/book_compact.go b/book/book_compact.go
index fd00b62..7d9e750 100644
--- a/book/book_compact.go
+++ b/book/book_compact.go
@@ -13,7 +13,7 @@ func (b *Book) compact() {
 	}
 
 	// Sort
-	sort.Slice(b.post, func(i, j int) bool {
+	sort.SliceStable(b.post, func(i, j int) bool {
 		return b.post[i].isLess(&b.post[j])
 	})
 
-- 
2.43.0


From c06e0920b485ae6bf1b3dc316a80a7a02e775769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:32 +0000
Subject: [PATCH 48/55] fix: macros are completed in a fixed order

---
 cmd/export/export.go  | 2 ++
 cmd/reports/report.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cmd/export/export.go b/cmd/export/export.go
index edfae69..9e0baa7 100644
--- a/cmd/export/export.go
+++ b/cmd/export/export.go
@@ -5,6 +5,7 @@ import (
 	"github.com/mescanne/goledger/cmd/app"
 	"github.com/mescanne/goledger/cmd/utils"
 	"github.com/spf13/cobra"
+	"sort"
 )
 
 type ExportReport struct {
@@ -36,6 +37,7 @@ func Add(cmd *cobra.Command, app *app.App, export *ExportReport) {
 	for k, _ := range app.Macros {
 		macroNames = append(macroNames, k)
 	}
+	sort.Strings(macroNames)
 	ncmd.ValidArgs = macroNames
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
 		if err := exportType.Check(); err != nil {
diff --git a/cmd/reports/report.go b/cmd/reports/report.go
index 5cdc49a..052b8eb 100644
--- a/cmd/reports/report.go
+++ b/cmd/reports/report.go
@@ -8,6 +8,7 @@ import (
 	"github.com/spf13/cobra"
 	"math/big"
 	"regexp"
+	"sort"
 )
 
 type TransactionReport struct {
@@ -86,6 +87,7 @@ func Add(cmd *cobra.Command, app *app.App, report *TransactionReport) {
 	for k, _ := range app.Macros {
 		macroNames = append(macroNames, k)
 	}
+	sort.Strings(macroNames)
 	ncmd.ValidArgs = macroNames
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
 		if err := floorType.Check(); err != nil {
-- 
2.43.0


From 618d2fc73e14867bea7291a1fe3f3b4341c4cbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:25 +0000
Subject: [PATCH 49/55] fix: do not lose empty fields of a white-space
 delimited CSV

---
 script/convert.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/script/convert.go b/script/convert.go
index 7bd09c1..386420a 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -9,6 +9,7 @@ import (
 	"math/big"
 	"sort"
 	"strconv"
+	"unicode"
 )
 
 type StarlarkReader func(r io.Reader) (starlark.Value, error)
@@ -90,7 +91,8 @@ func GetReadCSV(delim string, header bool) StarlarkReader {
 		// CSV
 		csvr := csv.NewReader(r)
 		csvr.Comma = []rune(delim)[0]
-		csvr.TrimLeadingSpace = true
+		// With a white space delimiter, trimming would lose empty fields.
+		csvr.TrimLeadingSpace = !unicode.IsSpace(csvr.Comma)
 		csvr.ReuseRecord = true
 
 		var hdr []string = nil
-- 
2.43.0


From 6332b912e0fb6e07d3cbfebaf7095424d106e961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:15 +0000
Subject: [PATCH 50/55] fix: close the boxes of a report's last rows in HTML

---
 cmd/reports/html.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/reports/html.go b/cmd/reports/html.go
index 9ec348d..2a538a2 100644
--- a/cmd/reports/html.go
+++ b/cmd/reports/html.go
@@ -98,6 +98,9 @@ func ShowHTMLTransactions(b *app.BookPrinter, trans []book.Transaction, HTMLCSS
 
 			lastLevel = thisLevel
 		}
+		for i := lastLevel - 1; i >= 0; i-- {
+			b.Printf("%s  </div>\n", indentedString(i))
+		}
 		b.Printf("</div>\n")
 
 		// End of report
-- 
2.43.0


From 4909fcb73faf73fcf6171065fe04852ad6a4d411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:31 +0000
Subject: [PATCH 51/55] fix: write payees, accounts and currencies of HTML
 reports as text

---
 cmd/reports/html.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/reports/html.go b/cmd/reports/html.go
index 2a538a2..b691002 100644
--- a/cmd/reports/html.go
+++ b/cmd/reports/html.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"github.com/mescanne/goledger/cmd/utils"
+	"html"
 	"math/big"
 )
 
@@ -58,7 +59,7 @@ func ShowHTMLTransactions(b *app.BookPrinter, trans []book.Transaction, HTMLCSS
 		b.Printf("  <div class=\"date\">%s</div>\n", posts.GetDate())
 		payee := posts.GetPayee()
 		if payee != "" {
-			b.Printf("  <div class=\"payee\">%s</div>\n", payee)
+			b.Printf("  <div class=\"payee\">%s</div>\n", html.EscapeString(payee))
 		}
 		b.Printf("</div>\n")
 
@@ -92,8 +93,8 @@ func ShowHTMLTransactions(b *app.BookPrinter, trans []book.Transaction, HTMLCSS
 
 			thisIndent := indentedString(thisLevel)
 			b.Printf("%s  <div class=\"post indent%d %s\">\n", thisIndent, thisLevel, diff)
-			b.Printf("%s    <div class=\"account\">%s</div>\n", thisIndent, v.GetAccountTerm())
-			b.Printf("%s    <div class=\"amount %s\">%s%s</div>\n", thisIndent, sign, b.FormatSymbol(v.GetCCY()), b.FormatNumber(v.GetCCY(), amt))
+			b.Printf("%s    <div class=\"account\">%s</div>\n", thisIndent, html.EscapeString(v.GetAccountTerm()))
+			b.Printf("%s    <div class=\"amount %s\">%s%s</div>\n", thisIndent, sign, html.EscapeString(b.FormatSymbol(v.GetCCY())), b.FormatNumber(v.GetCCY(), amt))
 			b.Printf("%s  </div>\n", thisIndent)
 
 			lastLevel = thisLevel
-- 
2.43.0


From 06d447d937ef81e3e122157fbf6dd687d09b7a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:23 +0000
Subject: [PATCH 52/55] fix: a subtotal of an account whose name ends in the
 divider keeps its own line

---
 cmd/reports/text.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmd/reports/text.go b/cmd/reports/text.go
index 6b28cda..284087c 100644
--- a/cmd/reports/text.go
+++ b/cmd/reports/text.go
@@ -35,7 +35,11 @@ func ShowTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 	rows = append(rows, header)
 
 	// First column and rows initialize
-	idx := make(map[[3]string]int)
+	type rowKey struct {
+		acct, term, ccy string
+		level           int
+	}
+	idx := make(map[rowKey]int)
 	for i, v := range postingTrans {
 
 		// Get account name
@@ -61,7 +65,7 @@ func ShowTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 		}
 
 		// Record the index
-		idx[[3]string{v.GetAccount(), v.GetAccountTerm(), v.GetCCY()}] = pidx
+		idx[rowKey{v.GetAccount(), v.GetAccountTerm(), v.GetCCY(), v.GetAccountLevel()}] = pidx
 	}
 
 	// Now fill in the data
@@ -70,7 +74,7 @@ func ShowTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 		for _, v := range trans[i] {
 
 			// Find keys for posting
-			pidx, ok := idx[[3]string{v.GetAccount(), v.GetAccountTerm(), v.GetCCY()}]
+			pidx, ok := idx[rowKey{v.GetAccount(), v.GetAccountTerm(), v.GetCCY(), v.GetAccountLevel()}]
 			if !ok {
 				return fmt.Errorf("account %s (term %s) currency %s not on all transactions; must summarise!",
 					v.GetAccount(),
-- 
2.43.0


From eed8edc8f4af835dc09ec338a9736233e40d8b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:11 +0000
Subject: [PATCH 53/55] fix: Compact the book after its amounts are mapped, as
 after the other operations

---
 book/book.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/book/book.go b/book/book.go
index cdd2917..4a02a26 100644
--- a/book/book.go
+++ b/book/book.go
@@ -289,6 +289,7 @@ func (b *Book) MapAmount(mapper func(date Date, ccy string) (*big.Rat, string))
 		p[i].ccy = ccy
 		p[i].val.Mul(p[i].val, v)
 	}
+	b.compact()
 }
 
 func (b *Book) MapAccount(mapper func(acct string) string) {
-- 
2.43.0


From 1b1913f00b50f614625ed837180a9afcf1aa9fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:23 +0000
Subject: [PATCH 54/55] fix: Report a failure to write the output instead of
 ending with success

---
 cmd/accounts/accounts.go     |  4 +++-
 cmd/app/app.go               | 30 ++++++++++++++++++++++++++++--
 cmd/app/print.go             |  2 +-
 cmd/config.go                |  4 ++--
 cmd/currencies/currencies.go |  2 +-
 cmd/export/csv.go            |  2 +-
 cmd/generate/generate.go     |  2 +-
 cmd/generate/starlark.go     |  5 +++--
 cmd/importer/import.go       |  2 +-
 cmd/importer/starlark.go     |  5 +++--
 cmd/root.go                  |  9 +++++----
 cmd/utils/shell.go           |  8 ++++++--
 script/starlark.go           |  8 ++++++--
 13 files changed, 61 insertions(+), 22 deletions(-)

diff --git a/cmd/accounts/accounts.go b/cmd/accounts/accounts.go
index 5c03d04..64827a3 100644
--- a/cmd/accounts/accounts.go
+++ b/cmd/accounts/accounts.go
@@ -42,7 +42,9 @@ func Add(cmd *cobra.Command, app *rapp.App) {
 			for _, acct := range b.Accounts(regex, !app.All) {
 				accts = append(accts, acct)
 			}
-			bp.PrintJSON(accts, true)
+			if err := bp.PrintJSON(accts, true); err != nil {
+				return err
+			}
 		} else {
 			rows := make([][]rapp.ColumnValue, 0, 100)
 			rows = append(rows, []rapp.ColumnValue{rapp.ColumnString(bp.Ansi(rapp.BlueUL, "Account"))})
diff --git a/cmd/app/app.go b/cmd/app/app.go
index 9eff600..aa30b24 100644
--- a/cmd/app/app.go
+++ b/cmd/app/app.go
@@ -78,6 +78,32 @@ and ledger cli (https://www.ledger-cli.org/)
 
 var appCleanup func() error = nil
 
+// Output to w, until that fails: the failure is remembered, as it is easily
+// overlooked when printing, and nothing more is written.
+type checkedWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (c *checkedWriter) Write(p []byte) (int, error) {
+	if c.err != nil {
+		return 0, c.err
+	}
+	n, err := c.w.Write(p)
+	c.err = err
+	return n, err
+}
+
+var stdout = &checkedWriter{w: os.Stdout}
+
+// The failure to write to the default output, if any
+func OutputError() error {
+	if stdout.err != nil {
+		return fmt.Errorf("failed writing output: %w", stdout.err)
+	}
+	return nil
+}
+
 func initialiseLess(w io.Writer) io.Writer {
 
 	// Already initialised - skip
@@ -86,7 +112,7 @@ func initialiseLess(w io.Writer) io.Writer {
 	}
 
 	// If stdout is not a terminal, stop now
-	if w != os.Stdout || termWidth == -1 {
+	if w != stdout || termWidth == -1 {
 		return w
 	}
 
@@ -197,7 +223,7 @@ func (app *App) LoadCommand() *cobra.Command {
 		appCmd.SetOut(app.Output)
 		appCmd.SetErr(app.Output)
 	} else {
-		app.Output = appCmd.OutOrStdout()
+		app.Output = stdout
 	}
 
 	return appCmd
diff --git a/cmd/app/print.go b/cmd/app/print.go
index 9acb6c1..5cd0d9d 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -120,7 +120,7 @@ func (b *BookPrinter) PrintCSV(rows [][]string) error {
 
 	csvwrite.Flush()
 
-	return nil
+	return csvwrite.Error()
 }
 
 type ColumnValue interface {
diff --git a/cmd/config.go b/cmd/config.go
index 95c5acd..2491a5a 100644
--- a/cmd/config.go
+++ b/cmd/config.go
@@ -75,9 +75,9 @@ func load(name string, app *Config) error {
 		return fmt.Errorf("failed unmarshalling from default config: %w\n", err)
 	}
 
-	fmt.Printf("Created new configuration file '%s'. (See file or %s help config for more info)\n", files[0], name)
+	_, err := fmt.Printf("Created new configuration file '%s'. (See file or %s help config for more info)\n", files[0], name)
 
-	return nil
+	return err
 }
 
 const config_help = `Configuration File
diff --git a/cmd/currencies/currencies.go b/cmd/currencies/currencies.go
index b31c690..6efefa7 100644
--- a/cmd/currencies/currencies.go
+++ b/cmd/currencies/currencies.go
@@ -28,7 +28,7 @@ func Add(root *cobra.Command, app *app.App) {
 		}
 		sort.Strings(ccys)
 		for _, ccy := range ccys {
-			fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, decs[ccy])
+			fmt.Fprintf(app.Output, "%s => %d decimals\n", ccy, decs[ccy])
 		}
 
 		return nil
diff --git a/cmd/export/csv.go b/cmd/export/csv.go
index 1c829c2..abe1472 100644
--- a/cmd/export/csv.go
+++ b/cmd/export/csv.go
@@ -40,5 +40,5 @@ func ShowCSV(b *app.BookPrinter, bk *book.Book) error {
 
 	csvwrite.Flush()
 
-	return nil
+	return csvwrite.Error()
 }
diff --git a/cmd/generate/generate.go b/cmd/generate/generate.go
index 9f23ead..00c3848 100644
--- a/cmd/generate/generate.go
+++ b/cmd/generate/generate.go
@@ -22,7 +22,7 @@ func (gen *Generate) run(app *app.App, rcmd *cobra.Command, args []string) error
 	}
 
 	// Generate the records from the main book
-	b, err := gen.generate(main.Duplicate(), gen.Code)
+	b, err := gen.generate(app.Output, main.Duplicate(), gen.Code)
 	if err != nil {
 		return fmt.Errorf("error processing data: %w", err)
 	}
diff --git a/cmd/generate/starlark.go b/cmd/generate/starlark.go
index 76813dd..218a120 100644
--- a/cmd/generate/starlark.go
+++ b/cmd/generate/starlark.go
@@ -4,9 +4,10 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/script"
 	"go.starlark.net/starlark"
+	"io"
 )
 
-func (gen *Generate) generate(b *book.Book, sc string) (*book.Book, error) {
+func (gen *Generate) generate(w io.Writer, b *book.Book, sc string) (*book.Book, error) {
 
 	bbuilder := book.NewBookBuilder()
 	addf := script.GetBuilderFunction(bbuilder, "acct", "ccy", "cacct")
@@ -16,7 +17,7 @@ func (gen *Generate) generate(b *book.Book, sc string) (*book.Book, error) {
 		"error": script.Errorf,
 	}
 
-	err := script.RunStarlark(script.Print, globals, sc)
+	err := script.RunStarlark(script.Print(w), globals, sc)
 	if err != nil {
 		return nil, err
 	}
diff --git a/cmd/importer/import.go b/cmd/importer/import.go
index 5b321fc..3ab24b1 100644
--- a/cmd/importer/import.go
+++ b/cmd/importer/import.go
@@ -75,7 +75,7 @@ func (imp *ImportDef) run(app *app.App, rcmd *cobra.Command, args []string) erro
 		}
 
 		// Convert the records
-		b, err := imp.processData(imports, arg, imp.Code)
+		b, err := imp.processData(app.Output, imports, arg, imp.Code)
 		if err != nil {
 			return fmt.Errorf("error processing data: %w", err)
 		}
diff --git a/cmd/importer/starlark.go b/cmd/importer/starlark.go
index ba555d7..81c575d 100644
--- a/cmd/importer/starlark.go
+++ b/cmd/importer/starlark.go
@@ -4,9 +4,10 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/script"
 	"go.starlark.net/starlark"
+	"io"
 )
 
-func (imp *ImportDef) processData(idata starlark.Value, file string, sc string) (*book.Book, error) {
+func (imp *ImportDef) processData(w io.Writer, idata starlark.Value, file string, sc string) (*book.Book, error) {
 
 	// Build the book
 	bbuilder := book.NewBookBuilder()
@@ -20,7 +21,7 @@ func (imp *ImportDef) processData(idata starlark.Value, file string, sc string)
 		"error": script.Errorf,
 	}
 
-	err := script.RunStarlark(script.Print, predeclared, sc)
+	err := script.RunStarlark(script.Print(w), predeclared, sc)
 	if err != nil {
 		return nil, err
 	}
diff --git a/cmd/root.go b/cmd/root.go
index e18cd01..86b43ca 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -3,7 +3,7 @@ package cmd
 import (
 	"fmt"
 	"github.com/mescanne/goledger/cmd/accounts"
-	"github.com/mescanne/goledger/cmd/app"
+	rapp "github.com/mescanne/goledger/cmd/app"
 	"github.com/mescanne/goledger/cmd/currencies"
 	"github.com/mescanne/goledger/cmd/download"
 	"github.com/mescanne/goledger/cmd/export"
@@ -18,7 +18,7 @@ import (
 
 // Configuration object
 type Config struct {
-	app.App
+	rapp.App
 	Report     reports.TransactionReport
 	Register   register.RegisterReport
 	ImportDefs map[string]*importer.ImportDef
@@ -31,7 +31,7 @@ type Config struct {
 // Execute command line program
 func Execute() error {
 	app := &Config{
-		App: app.DefaultApp,
+		App: rapp.DefaultApp,
 	}
 
 	// Load configuration
@@ -74,5 +74,6 @@ func Execute() error {
 		return err
 	}
 
-	return nil
+	// Did the output arrive?
+	return rapp.OutputError()
 }
diff --git a/cmd/utils/shell.go b/cmd/utils/shell.go
index 8fafd2c..6167bb3 100644
--- a/cmd/utils/shell.go
+++ b/cmd/utils/shell.go
@@ -33,10 +33,14 @@ func AddShell(root *cobra.Command) {
 	ncmd.PreRunE = cobra.NoArgs
 	ncmd.RunE = func(rcmd *cobra.Command, args []string) error {
 		if shell == "bash" {
-			fmt.Fprintf(rcmd.OutOrStdout(), "COMP_WORDBREAKS=${COMP_WORDBREAKS//:}\n")
+			if _, err := fmt.Fprintf(rcmd.OutOrStdout(), "COMP_WORDBREAKS=${COMP_WORDBREAKS//:}\n"); err != nil {
+				return err
+			}
 			return root.GenBashCompletion(rcmd.OutOrStdout())
 		} else if shell == "zsh" {
-			fmt.Fprintf(rcmd.OutOrStdout(), "COMP_WORDBREAKS=${COMP_WORDBREAKS//:}\n")
+			if _, err := fmt.Fprintf(rcmd.OutOrStdout(), "COMP_WORDBREAKS=${COMP_WORDBREAKS//:}\n"); err != nil {
+				return err
+			}
 			return root.GenZshCompletion(rcmd.OutOrStdout())
 		} else if shell == "powershell" {
 			return root.GenPowerShellCompletion(rcmd.OutOrStdout())
diff --git a/script/starlark.go b/script/starlark.go
index cad8cc9..cb0a9da 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -7,13 +7,17 @@ import (
 	"github.com/mescanne/goledger/cmd/utils"
 	"go.starlark.net/resolve"
 	"go.starlark.net/starlark"
+	"io"
 	"math/big"
 	"os"
 	"strings"
 )
 
-func Print(_ *starlark.Thread, msg string) {
-	fmt.Printf("; %s\n", strings.ReplaceAll(msg, "\n", "\n; "))
+// Print messages of a script to w, as comments
+func Print(w io.Writer) func(*starlark.Thread, string) {
+	return func(_ *starlark.Thread, msg string) {
+		fmt.Fprintf(w, "; %s\n", strings.ReplaceAll(msg, "\n", "\n; "))
+	}
 }
 
 var userError = errors.New("user code")
-- 
2.43.0


From c561db0e8fd7724dfbcc862a41867c1922af04cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:25 +0000
Subject: [PATCH 55/55] fix: Make a new configuration file under another name
 first

---
 cmd/config.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/config.go b/cmd/config.go
index 2491a5a..8538b97 100644
--- a/cmd/config.go
+++ b/cmd/config.go
@@ -65,8 +65,14 @@ func load(name string, app *Config) error {
 		return fmt.Errorf("creating config path %s: %w\n", path.Dir(files[0]), err)
 	}
 
-	// Persistent configuration
-	if err := ioutil.WriteFile(files[0], []byte(DEFAULT_CONFIG_FILE), 0644); err != nil {
+	// Persistent configuration: all of it, or a later run takes a part for the whole
+	tmp := fmt.Sprintf("%s.%d.tmp", files[0], os.Getpid())
+	err := ioutil.WriteFile(tmp, []byte(DEFAULT_CONFIG_FILE), 0644)
+	if err == nil {
+		err = os.Rename(tmp, files[0])
+	}
+	if err != nil {
+		os.Remove(tmp)
 		return fmt.Errorf("failed writing config file %s: %w\n", files[0], err)
 	}
 
@@ -75,7 +81,7 @@ func load(name string, app *Config) error {
 		return fmt.Errorf("failed unmarshalling from default config: %w\n", err)
 	}
 
-	_, err := fmt.Printf("Created new configuration file '%s'. (See file or %s help config for more info)\n", files[0], name)
+	_, err = fmt.Printf("Created new configuration file '%s'. (See file or %s help config for more info)\n", files[0], name)
 
 	return err
 }
-- 
2.43.0

