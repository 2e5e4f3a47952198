From cc8f395a0d837b786e3e460d3ddbaacea118672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 01/63] fix: reject ambiguous account abbreviations

MustFindAccount stopped checking at the first match sharing the candidate
parent's prefix, so an ambiguous pattern silently resolved to the first account;
and a mere name prefix (Rent / Rental) counted as a parent.
---
 coin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coin.go b/coin.go
index fba2d21..fcdcd3d 100644
--- a/coin.go
+++ b/coin.go
@@ -296,7 +296,7 @@ func MustFindAccount(pattern string) *Account {
 	parent := as[0].FullName
 	all := true
 	for _, a := range as[1:] {
-		if all = all && strings.HasPrefix(a.FullName, parent); all {
+		if all = strings.HasPrefix(a.FullName, parent+":"); !all {
 			break
 		}
 	}
-- 
2.43.0


From be6abb94a81dff1aaa5f8c842692170f359824e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 02/63] fix: do not load prices.coin twice

LoadAll loads prices.coin through LoadPrices and then again with the rest of
the *.coin files, so every price was counted twice.
---
 coin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coin.go b/coin.go
index fcdcd3d..f8c0b29 100644
--- a/coin.go
+++ b/coin.go
@@ -76,7 +76,7 @@ func LoadAll() {
 	if _, err := os.Stat(TransactionsFile); os.IsNotExist(err) {
 		files, _ := filepath.Glob(filepath.Join(DB, "*.coin"))
 		for _, f := range files {
-			if f != CommoditiesFile && f != AccountsFile {
+			if f != CommoditiesFile && f != AccountsFile && f != PricesFile {
 				LoadFile(f)
 			}
 		}
-- 
2.43.0


From e08936b9b6e0cf98b8fa2f231af6555fbbd8a8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 03/63] fix: keep the target precision when converting
 commodities

Convert multiplied the amount by the price with the precision (and commodity)
of the source commodity, so 10 BND (no decimals) at 25.78 CAD gave 257 and was
then mislabeled.
---
 commodity.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commodity.go b/commodity.go
index 4bfa017..7f8f0d6 100644
--- a/commodity.go
+++ b/commodity.go
@@ -203,7 +203,7 @@ func (c *Commodity) convert(amount *Amount, c2 *Commodity, previous []*Commodity
 	prices := c2.Prices[c]
 	if prices != nil {
 		p := prices[0]
-		val := amount.Times(p.Value)
+		val := p.Value.Times(amount)
 		return val, nil
 	}
 	// Otherwise try to follow each c2 price currency
@@ -213,7 +213,7 @@ func (c *Commodity) convert(amount *Amount, c2 *Commodity, previous []*Commodity
 			continue
 		}
 		p := prices[0]
-		val2 := amount.Times(p.Value)
+		val2 := p.Value.Times(amount)
 		val3, err := c.convert(val2, c3, append(previous, c2))
 		if err == nil {
 			return val3, nil
-- 
2.43.0


From e56aeb0fefe8ec1a7b948a1dd75835a6f84d1e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 04/63] fix: make currency order deterministic

Conversion paths and price listings followed map iteration order, so the same
command could give different results from run to run.
---
 cmd/coin/commodities.go |  4 ++--
 commodity.go            | 12 +++++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/cmd/coin/commodities.go b/cmd/coin/commodities.go
index dbd4c54..66760b9 100644
--- a/cmd/coin/commodities.go
+++ b/cmd/coin/commodities.go
@@ -54,8 +54,8 @@ func (cmd *cmdCommodities) execute(f io.Writer) {
 			fmt.Fprintf(os.Stderr, "%s: unknown commodity\n", cmd.Arg(0))
 			return
 		}
-		for _, ps := range commodity.Prices {
-			for _, p := range ps {
+		for _, cur := range commodity.Currencies() {
+			for _, p := range commodity.Prices[cur] {
 				if cmd.location {
 					fmt.Fprintf(f, "%s %s %s %s\n", p.Time.Format(coin.DateFormat), p.Value.String(), p.Value.SafeId(false), p.Location())
 				} else {
diff --git a/commodity.go b/commodity.go
index 7f8f0d6..981c7d9 100644
--- a/commodity.go
+++ b/commodity.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"math/big"
+	"sort"
 	"strconv"
 	"strings"
 	"unicode"
@@ -44,10 +45,14 @@ func (c *Commodity) AddPrice(p *Price) {
 	c.Prices[p.Currency] = append(c.Prices[p.Currency], p)
 }
 
+// Currencies returns the currencies c has prices in, ordered by their id.
 func (c *Commodity) Currencies() (currencies []*Commodity) {
 	for cur := range c.Prices {
 		currencies = append(currencies, cur)
 	}
+	sort.Slice(currencies, func(i, j int) bool {
+		return currencies[i].Id < currencies[j].Id
+	})
 	return currencies
 }
 
@@ -80,7 +85,8 @@ func (c *Commodity) String() string {
 		return c.Id
 	}
 	var prices []string
-	for c, p := range c.Prices {
+	for _, cur := range c.Currencies() {
+		c, p := cur, c.Prices[cur]
 		format := "%s %a %s [%d]"
 		if c.Decimals > 0 {
 			format = "%s %." + strconv.Itoa(c.Decimals) + "a %s [%d]"
@@ -207,12 +213,12 @@ func (c *Commodity) convert(amount *Amount, c2 *Commodity, previous []*Commodity
 		return val, nil
 	}
 	// Otherwise try to follow each c2 price currency
-	for c3, prices := range c2.Prices {
+	for _, c3 := range c2.Currencies() {
 		// Check if we tried this currency before to avoid cycles
 		if c3.includedIn(previous) {
 			continue
 		}
-		p := prices[0]
+		p := c2.Prices[c3][0]
 		val2 := p.Value.Times(amount)
 		val3, err := c.convert(val2, c3, append(previous, c2))
 		if err == nil {
-- 
2.43.0


From 9ba7b824d8ed687c24692d39e48d2e581d440819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 05/63] fix: truncate negative amounts towards zero

Excess decimals were floored when parsing or importing (-0.011 CAD became
-0.02 CAD), unlike everywhere else where amounts are truncated, which also
unbalanced transactions.
---
 amount.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amount.go b/amount.go
index d07feb6..d9f422e 100644
--- a/amount.go
+++ b/amount.go
@@ -23,7 +23,7 @@ func NewAmountFrac(num, den *big.Int, c *Commodity) *Amount {
 	if c.Decimals > 0 {
 		b.Mul(b, bigPow10(c.Decimals))
 	}
-	b.Div(b, den)
+	b.Quo(b, den)
 	return NewAmount(b, c)
 }
 
@@ -97,7 +97,7 @@ func parseAmount(s string, c *Commodity) (*Amount, error) {
 	decimals := len(ss[1])
 	if c.Decimals != decimals {
 		bi.Mul(bi, bigPow10(c.Decimals))
-		bi.Div(bi, bigPow10(decimals))
+		bi.Quo(bi, bigPow10(decimals))
 	}
 	return NewAmount(bi, c), nil
 }
-- 
2.43.0


From b9d62e819e80b27dfcad50cac6dca685d7e469d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 06/63] fix: FindEqual returns the transaction found

It returned its argument, so merging an imported duplicate merged it with itself
(losing its balance) and the reported location was not that of the original.
---
 transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transaction.go b/transaction.go
index c9d187b..27f5ab9 100644
--- a/transaction.go
+++ b/transaction.go
@@ -53,7 +53,7 @@ func (transactions TransactionsByTime) Less(i, j int) bool {
 func (transactions TransactionsByTime) FindEqual(t *Transaction) *Transaction {
 	for _, t2 := range transactions {
 		if t2.IsEqual(t) {
-			return t
+			return t2
 		}
 	}
 	return nil
-- 
2.43.0


From 911de48ddaba9e4134b64003dad41109eb180db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 07/63] fix: ignore the time of day of imported OFX
 transactions

Statements post at arbitrary times while ledger transactions are all at 12:00 UTC,
so imported transactions never matched the ledger ones as duplicates, nor each
other when the statements disagreed on the time.
---
 cmd/ofx2coin/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/ofx2coin/main.go b/cmd/ofx2coin/main.go
index bcf341e..90a5362 100644
--- a/cmd/ofx2coin/main.go
+++ b/cmd/ofx2coin/main.go
@@ -186,8 +186,10 @@ func newTransaction(ars *coin.AccountRules, date time.Time, payee string, amount
 	if balance != nil {
 		bal = coin.NewAmountFrac(balance.Num(), balance.Denom(), ars.Account.Commodity)
 	}
+	// transactions carry only the date, same as those read from the ledger
+	y, m, d := date.Date()
 	t := &coin.Transaction{
-		Posted:      date,
+		Posted:      time.Date(y, m, d, 12, 0, 0, 0, time.UTC),
 		Description: payee,
 		Notes:       notes,
 	}
-- 
2.43.0


From fd7f0e7cf225921325b9bb4e5d3b873523e4d7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 08/63] fix: register -p '!...' applies to every account

The leading ! was consumed while filtering the first account, so the
sub-accounts of a recursive or aggregated register were filtered by the
opposite condition.
---
 cmd/coin/register.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cmd/coin/register.go b/cmd/coin/register.go
index 7823fc7..2dbfd67 100644
--- a/cmd/coin/register.go
+++ b/cmd/coin/register.go
@@ -179,13 +179,9 @@ func (cmd *cmdRegister) period() *timeReducer {
 func (cmd *cmdRegister) trim(ps []*coin.Posting) postings {
 	ps = trim(ps, cmd.begin, cmd.end)
 	if len(cmd.payee) > 0 {
-		inverted := false
-		if cmd.payee[0] == '!' {
-			inverted = true
-			cmd.payee = cmd.payee[1:]
-		}
+		payee, inverted := strings.CutPrefix(cmd.payee, "!")
 		var pps []*coin.Posting
-		r := regexp.MustCompile("(?i)" + cmd.payee)
+		r := regexp.MustCompile("(?i)" + payee)
 		for _, p := range ps {
 			if match := r.MatchString(p.Transaction.Description); match && !inverted || !match && inverted {
 				pps = append(pps, p)
-- 
2.43.0


From 0755ce0ca6a96d12b27c2cfbdf6cb60b6f1542b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 09/63] fix: an inverted tag filter selects what the plain one
 does not

-t '!tag' skipped postings without any tags and selected postings that do have
the tag as long as they (or their transaction) had another one.
---
 cmd/coin/balance.go  |  2 +-
 cmd/coin/register.go |  2 +-
 tags.go              | 17 +++++++++--------
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/cmd/coin/balance.go b/cmd/coin/balance.go
index 77997ae..7f4b229 100644
--- a/cmd/coin/balance.go
+++ b/cmd/coin/balance.go
@@ -98,7 +98,7 @@ func (cmd *cmdBalance) trim(ps []*coin.Posting) postings {
 		var pps []*coin.Posting
 		r := coin.NewTagMatcher(cmd.tag)
 		for _, p := range ps {
-			if r.Match(p.Tags) || r.Match(p.Transaction.Tags) {
+			if r.Match(p.Tags, p.Transaction.Tags) {
 				pps = append(pps, p)
 			}
 		}
diff --git a/cmd/coin/register.go b/cmd/coin/register.go
index 2dbfd67..053285a 100644
--- a/cmd/coin/register.go
+++ b/cmd/coin/register.go
@@ -193,7 +193,7 @@ func (cmd *cmdRegister) trim(ps []*coin.Posting) postings {
 		var pps []*coin.Posting
 		r := coin.NewTagMatcher(cmd.tag)
 		for _, p := range ps {
-			if r.Match(p.Tags) || r.Match(p.Transaction.Tags) {
+			if r.Match(p.Tags, p.Transaction.Tags) {
 				pps = append(pps, p)
 			}
 		}
diff --git a/tags.go b/tags.go
index 00f9d90..59f84d5 100644
--- a/tags.go
+++ b/tags.go
@@ -100,14 +100,15 @@ func NewTagMatcher(exp string) *TagMatcher {
 	return &TagMatcher{Key: key, Value: value, inverted: inverted}
 }
 
-func (m *TagMatcher) Match(tags Tags) bool {
-	if tags == nil {
-		return false
-	}
-	for k, v := range tags {
-		if match := m.Key.MatchString(k) && (m.Value == nil || m.Value.MatchString(v)); match && !m.inverted || !match && m.inverted {
-			return true
+// Match checks if any of the tags match the expression
+// (if inverted, that none of them do).
+func (m *TagMatcher) Match(tags ...Tags) bool {
+	for _, ts := range tags {
+		for k, v := range ts {
+			if m.Key.MatchString(k) && (m.Value == nil || m.Value.MatchString(v)) {
+				return !m.inverted
+			}
 		}
 	}
-	return false
+	return m.inverted
 }
-- 
2.43.0


From ceac0277aedbf8d20f4c88ed71513be84d6d362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 10/63] fix: aggregated register accounts for all selected
 postings

- a single account left over after picking the top n was dropped instead of
  being shown as Other
- it crashed when the account itself was not among the top n (e.g. more than 5
  sub-accounts in a flat register), and when no postings were selected
- columns with equal magnitude were in random order
---
 cmd/coin/register.go |  7 ++++++-
 cmd/coin/totals.go   | 17 +++++++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/cmd/coin/register.go b/cmd/coin/register.go
index 053285a..9482506 100644
--- a/cmd/coin/register.go
+++ b/cmd/coin/register.go
@@ -126,9 +126,14 @@ func (cmd *cmdRegister) aggregatedRegister(f io.Writer, acc *coin.Account) {
 		}
 	})
 	totals.sanitize()
+	// acc has all the times and categories, but may not be among the top
+	timeline := totals[acc]
+	if timeline == nil {
+		return // nothing was selected
+	}
 	var accounts []*coin.Account
 	totals, accounts = totals.top(cmd.top)
-	totals.mergeTime(totals[acc])
+	totals.mergeTime(timeline)
 
 	if cmd.cumulative {
 		totals.makeCumulative()
diff --git a/cmd/coin/totals.go b/cmd/coin/totals.go
index 5df5868..da56fbe 100644
--- a/cmd/coin/totals.go
+++ b/cmd/coin/totals.go
@@ -423,7 +423,10 @@ func (ats accountTotals) top(n int) (topn accountTotals, order []*coin.Account)
 	}
 
 	sort.Slice(accounts, func(i int, j int) bool {
-		return magnitudes[accounts[i]].IsBigger(magnitudes[accounts[j]])
+		if cmp := magnitudes[accounts[i]].CmpMagnitude(magnitudes[accounts[j]]); cmp != 0 {
+			return cmp > 0
+		}
+		return accounts[i].FullName < accounts[j].FullName
 	})
 	if len(accounts) <= n {
 		return ats, accounts
@@ -433,14 +436,12 @@ func (ats accountTotals) top(n int) (topn accountTotals, order []*coin.Account)
 	}
 	rest := accounts[n:]
 	accounts = accounts[:n]
-	if len(rest) > 1 {
-		others := ats[rest[0]]
-		for _, acc := range rest[1:] {
-			others.merge(ats[acc])
-		}
-		topn[nil] = others
-		accounts = append(accounts, nil)
+	others := ats[rest[0]]
+	for _, acc := range rest[1:] {
+		others.merge(ats[acc])
 	}
+	topn[nil] = others
+	accounts = append(accounts, nil)
 	return topn, accounts
 }
 
-- 
2.43.0


From 235f43e7c464d2bdd4690f5660384aa103131b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 11/63] fix: aggregate totals in the commodity of their account

Totals of accounts without own postings (and Other) took the commodity of
whichever sub-account happened to be merged first, and amounts that could not be
converted were silently left out.
---
 cmd/coin/register.go |  4 +--
 cmd/coin/totals.go   | 69 +++++++++++++++++++-------------------------
 2 files changed, 31 insertions(+), 42 deletions(-)

diff --git a/cmd/coin/register.go b/cmd/coin/register.go
index 9482506..1b04348 100644
--- a/cmd/coin/register.go
+++ b/cmd/coin/register.go
@@ -108,7 +108,7 @@ func (cmd *cmdRegister) fullRegister(f io.Writer, acc *coin.Account) {
 func (cmd *cmdRegister) aggregatedRegister(f io.Writer, acc *coin.Account) {
 	totals := accountTotals{}
 	acc.WithChildrenDo(func(a *coin.Account) {
-		ts := totals.newTotals(a, cmd.period(), cmd.category())
+		ts := totals.newTotals(a, cmd.period(), cmd.category(), a.Commodity)
 		for _, p := range cmd.trim(a.Postings) {
 			ts.add(p)
 		}
@@ -132,7 +132,7 @@ func (cmd *cmdRegister) aggregatedRegister(f io.Writer, acc *coin.Account) {
 		return // nothing was selected
 	}
 	var accounts []*coin.Account
-	totals, accounts = totals.top(cmd.top)
+	totals, accounts = totals.top(cmd.top, acc.Commodity)
 	totals.mergeTime(timeline)
 
 	if cmd.cumulative {
diff --git a/cmd/coin/totals.go b/cmd/coin/totals.go
index da56fbe..4cdfe0b 100644
--- a/cmd/coin/totals.go
+++ b/cmd/coin/totals.go
@@ -30,41 +30,23 @@ func (t *timeTotal) Categories() (keys []string) {
 	return keys
 }
 
-func (t *timeTotal) AddIn(t2 *timeTotal, keysOnly bool) {
+// AddIn adds the amounts of t2 into t, new categories are added in commodity c.
+func (t *timeTotal) AddIn(t2 *timeTotal, keysOnly bool, c *coin.Commodity) {
 	check.If(t.Time.Equal(t2.Time), "%v is not equal to %v", t.Time, t2.Time)
 	if t.total != nil && !keysOnly {
-		t.total.AddIn(t2.total)
+		check.NoError(t.total.AddIn(t2.total), "cannot merge totals")
 		return
 	}
 	for k, v := range t2.totals {
 		amt := t.totals[k]
-		if amt != nil {
-			if !keysOnly {
-				amt.AddIn(v)
-			}
-		} else {
-			if keysOnly {
-				t.totals[k] = coin.NewZeroAmount(v.Commodity)
-			} else {
-				t.totals[k] = v.Copy()
-			}
+		if amt == nil {
+			amt = coin.NewZeroAmount(c)
+			t.totals[k] = amt
 		}
-	}
-}
-
-func (t *timeTotal) Copy(keysOnly bool) *timeTotal {
-	if t.total != nil {
-		return &timeTotal{Time: t.Time, total: t.total.Copy()}
-	}
-	totals := make(map[string]*coin.Amount)
-	for k, v := range t.totals {
-		if keysOnly {
-			totals[k] = coin.NewZeroAmount(v.Commodity)
-		} else {
-			totals[k] = v.Copy()
+		if !keysOnly {
+			check.NoError(amt.AddIn(v), "cannot merge totals")
 		}
 	}
-	return &timeTotal{Time: t.Time, totals: totals}
 }
 
 func (t *timeTotal) Commodity() *coin.Commodity {
@@ -102,12 +84,17 @@ type timeTotals struct {
 	// at least one of these must be set before using
 	*timeReducer
 	*categoryReducer
+	// commodity of the totals
+	commodity *coin.Commodity
 	// these are internal
 	all     []*timeTotal // ordered totals by time if we are reducing by time
 	current *timeTotal   // latest total, if not reducing by time then the only total
 }
 
 func (ts *timeTotals) Commodity() *coin.Commodity {
+	if ts.commodity != nil {
+		return ts.commodity
+	}
 	if ts.current != nil {
 		if c := ts.current.Commodity(); c != nil {
 			return c
@@ -136,14 +123,17 @@ func (ts *timeTotals) add(p *coin.Posting) {
 			if amt != nil {
 				check.NoError(amt.AddIn(p.Quantity), "cannot add %a to totals", p.Quantity)
 			} else {
-				ts.current.totals[category] = p.Quantity.Copy()
+				amt = coin.NewZeroAmount(ts.commodity)
+				check.NoError(amt.AddIn(p.Quantity), "cannot add %a to totals", p.Quantity)
+				ts.current.totals[category] = amt
 			}
 		} else {
 			check.NoError(ts.current.total.AddIn(p.Quantity), "cannot add %a to totals", p.Quantity)
 		}
 		return
 	}
-	amt := p.Quantity.Copy()
+	amt := coin.NewZeroAmount(ts.commodity)
+	check.NoError(amt.AddIn(p.Quantity), "cannot add %a to totals", p.Quantity)
 	if ts.categoryReducer != nil {
 		category := ts.categoryReducer.reduce(p)
 		ts.current = &timeTotal{Time: period, totals: map[string]*coin.Amount{category: amt}}
@@ -173,10 +163,9 @@ func (ts *timeTotals) mergeTotals(ts2 *timeTotals, keysOnly bool) {
 			return
 		}
 		if ts.current == nil {
-			ts.current = ts2.current.Copy(keysOnly)
-		} else {
-			ts.current.AddIn(ts2.current, keysOnly)
+			ts.current = ts.newTotal(ts2.current.Time, ts.Commodity())
 		}
+		ts.current.AddIn(ts2.current, keysOnly, ts.Commodity())
 		return
 	}
 	var offsets []int
@@ -192,7 +181,7 @@ func (ts *timeTotals) mergeTotals(ts2 *timeTotals, keysOnly bool) {
 		remaining = remaining[i:]
 		j += i
 		if len(remaining) > 0 && remaining[0].Time.Equal(t.Time) {
-			remaining[0].AddIn(t, keysOnly)
+			remaining[0].AddIn(t, keysOnly, ts.Commodity())
 		} else {
 			offsets = append(offsets, j)
 			j = 0
@@ -214,7 +203,7 @@ func (ts *timeTotals) mergeTotals(ts2 *timeTotals, keysOnly bool) {
 			com = extra.Commodity()
 		}
 		newExtra := ts.newTotal(extra.Time, com)
-		newExtra.AddIn(extra, keysOnly)
+		newExtra.AddIn(extra, keysOnly, com)
 		ts.all = append(ts.all, remaining[:mark]...)
 		ts.all = append(ts.all, newExtra)
 		remaining = remaining[mark:]
@@ -376,8 +365,8 @@ func (ats accountTotals) String() string {
 	return fmt.Sprintf("totals{%s}", strings.Join(items, ", "))
 }
 
-func (ats accountTotals) newTotals(acc *coin.Account, period *timeReducer, category *categoryReducer) *timeTotals {
-	ts := &timeTotals{timeReducer: period, categoryReducer: category}
+func (ats accountTotals) newTotals(acc *coin.Account, period *timeReducer, category *categoryReducer, c *coin.Commodity) *timeTotals {
+	ts := &timeTotals{timeReducer: period, categoryReducer: category, commodity: c}
 	ats[acc] = ts
 
 	return ts
@@ -411,8 +400,9 @@ func (ats accountTotals) makeCumulative() {
 	}
 }
 
-// top reduces the totals to top n by maximum magnitude + others (account == nil!)
-func (ats accountTotals) top(n int) (topn accountTotals, order []*coin.Account) {
+// top reduces the totals to top n by maximum magnitude + others (account == nil!),
+// others are totaled in commodity c.
+func (ats accountTotals) top(n int, c *coin.Commodity) (topn accountTotals, order []*coin.Account) {
 	topn = accountTotals{}
 	magnitudes := ats.magnitudes()
 	var accounts []*coin.Account
@@ -436,11 +426,10 @@ func (ats accountTotals) top(n int) (topn accountTotals, order []*coin.Account)
 	}
 	rest := accounts[n:]
 	accounts = accounts[:n]
-	others := ats[rest[0]]
-	for _, acc := range rest[1:] {
+	others := topn.newTotals(nil, ats[rest[0]].timeReducer, ats[rest[0]].categoryReducer, c)
+	for _, acc := range rest {
 		others.merge(ats[acc])
 	}
-	topn[nil] = others
 	accounts = append(accounts, nil)
 	return topn, accounts
 }
-- 
2.43.0


From d9dde54e7d606737afcce46c70eddbe564f2fdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 12/63] fix: aggregate by payee with an empty payee

An empty category was mistaken for no category, crashing the csv/json output.
---
 cmd/coin/totals.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/coin/totals.go b/cmd/coin/totals.go
index 4cdfe0b..5ad8dff 100644
--- a/cmd/coin/totals.go
+++ b/cmd/coin/totals.go
@@ -553,7 +553,7 @@ func (ats accountTotals) print(f io.Writer,
 						period.Time.Format(firstCol.format))
 				}
 				amt := t.total
-				if category != "" {
+				if t.totals != nil {
 					amt = t.totals[category]
 				}
 				args = append(args, widths[ii], amt)
@@ -613,7 +613,7 @@ func (ats accountTotals) rows(
 						period.Time.Format(firstCol.format))
 				}
 				amt := t.total
-				if category != "" {
+				if t.totals != nil {
 					amt = t.totals[category]
 				}
 				row = append(row, amt.String())
-- 
2.43.0


From e09f5731f03dd8d33d93572e88eb14e375255edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 13/63] fix: register of a transaction with a single posting

There is no other account to show, it crashed.
---
 cmd/coin/postings.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cmd/coin/postings.go b/cmd/coin/postings.go
index f3d2483..f70a10d 100644
--- a/cmd/coin/postings.go
+++ b/cmd/coin/postings.go
@@ -24,6 +24,14 @@ func trimLocation(loc string) string {
 	return loc
 }
 
+// otherName returns the name of the account on the other side of the transaction, if there is one.
+func otherName(p *coin.Posting) string {
+	if other := p.Transaction.Other(p); other != nil {
+		return other.Account.FullName
+	}
+	return ""
+}
+
 type postings []*coin.Posting
 
 func (ps postings) widths(acctPrefix string) (widths [4]int) {
@@ -31,7 +39,7 @@ func (ps postings) widths(acctPrefix string) (widths [4]int) {
 		widths[0] = max(widths[0], len(p.Transaction.Description))
 		widths[1] = max(widths[1], len(strings.TrimPrefix(p.Account.FullName, acctPrefix)))
 		widths[2] = max(widths[2], p.Quantity.Width(p.Account.Commodity.Decimals))
-		widths[3] = max(widths[3], len(p.Transaction.Other(p).Account.FullName))
+		widths[3] = max(widths[3], len(otherName(p)))
 	}
 	return widths
 }
@@ -71,7 +79,7 @@ func (ps postings) print(f io.Writer, opts *options) {
 		args := []interface{}{
 			s.Transaction.Posted.Format(coin.DateFormat),
 			widths[0], s.Transaction.Description,
-			widths[3], coin.ShortenAccountName(strings.TrimPrefix(s.Transaction.Other(s).Account.FullName, opts.Prefix()), opts.MaxAcct()),
+			widths[3], coin.ShortenAccountName(strings.TrimPrefix(otherName(s), opts.Prefix()), opts.MaxAcct()),
 			widths[2], s.Quantity,
 			tWidth, totals[i],
 			s.Account.CommodityId,
@@ -114,7 +122,7 @@ func (ps postings) printLong(f io.Writer, opts *options) {
 			s.Transaction.Posted.Format(coin.DateFormat),
 			widths[0], s.Transaction.Description,
 			widths[1], coin.ShortenAccountName(strings.TrimPrefix(s.Account.FullName, opts.Prefix()), opts.MaxAcct()),
-			widths[3], coin.ShortenAccountName(strings.TrimPrefix(s.Transaction.Other(s).Account.FullName, opts.Prefix()), opts.MaxAcct()),
+			widths[3], coin.ShortenAccountName(strings.TrimPrefix(otherName(s), opts.Prefix()), opts.MaxAcct()),
 			widths[2], s.Quantity,
 			tWidth, totals[i],
 			s.Account.CommodityId,
-- 
2.43.0


From b8399998bf4909fd3a48f4c8b323932af3d64ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 14/63] fix: modify all the matching postings of a transaction

Only the first matching posting was modified, the rest was skipped once the
transaction was known to be modified. Transactions that only had a tag added
were not included in the reported count.
---
 cmd/coin/modify.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/cmd/coin/modify.go b/cmd/coin/modify.go
index 9b726c7..901fead 100644
--- a/cmd/coin/modify.go
+++ b/cmd/coin/modify.go
@@ -117,12 +117,10 @@ func (cmd *cmdModify) modify(t *coin.Transaction) (modified bool) {
 	}
 	var hasPostingsMatchingAccount bool
 	for _, p := range t.Postings {
-		if p.Account == cmd.from {
-			hasPostingsMatchingAccount = true
-			modified = modified || cmd.modifyPosting(p)
-		}
-		if cmd.ptag != nil && cmd.ptag.Match(p.Tags) {
-			modified = modified || cmd.modifyPosting(p)
+		matches := p.Account == cmd.from
+		hasPostingsMatchingAccount = hasPostingsMatchingAccount || matches
+		if matches || cmd.ptag != nil && cmd.ptag.Match(p.Tags) {
+			modified = cmd.modifyPosting(p) || modified
 		}
 	}
 
@@ -131,6 +129,7 @@ func (cmd *cmdModify) modify(t *coin.Transaction) (modified bool) {
 	}
 	if len(cmd.setTTag) > 0 {
 		t.Notes = addTagLine(t.Notes, cmd.setTTag)
+		modified = true
 	}
 	return modified
 }
-- 
2.43.0


From 7112c78c794c8c0d24f9e9b11312bba25a618f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 15/63] fix: added tag does not become part of the preceding
 tag value

Tag values are terminated by a comma or end of line.
---
 cmd/coin/modify.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/coin/modify.go b/cmd/coin/modify.go
index 901fead..dcfde1e 100644
--- a/cmd/coin/modify.go
+++ b/cmd/coin/modify.go
@@ -165,7 +165,8 @@ func addTagLine(notes []string, tagLine string) []string {
 		return append(notes, tagLine)
 	}
 	if len(notes[0])+len(tagLine) < coin.TRANSACTION_LINE_MAX {
-		notes[0] += " " + tagLine
+		// the comma terminates the tag value that may end the line
+		notes[0] += ", " + tagLine
 		return notes
 	}
 	return append(notes, tagLine)
-- 
2.43.0


From ab3716e5b3893228eaed2a4d867fb725ad4f4718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 16/63] fix: parse single character tag values and drop the
 terminating comma

'#key: 5' had no value and '#key: hi,' at the end of a line included the comma
in the value.
---
 tags.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tags.go b/tags.go
index 59f84d5..9f40acc 100644
--- a/tags.go
+++ b/tags.go
@@ -6,7 +6,7 @@ import (
 	"strings"
 )
 
-var tagREX = regexp.MustCompile(`#(?P<key>[\w-/]+)(:\s*(?P<value>[^,]+\S)\s*(,|$))?`)
+var tagREX = regexp.MustCompile(`#(?P<key>[\w-/]+)(:\s*(?P<value>[^,]*[^,\s])\s*(,|$))?`)
 var tagREXKey = tagREX.SubexpIndex("key")
 var tagREXValue = tagREX.SubexpIndex("value")
 
-- 
2.43.0


From 7e79a193dbadff4e5b6079c592070147ace0126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 17/63] fix: never lose the original file when rewriting it in
 place

format -i, modify and test deleted the original before renaming the new file into
place, so an interruption in between left no file at all, and format and modify
ignored write errors, replacing the original with whatever part got written
(e.g. when the disk is full).
---
 cmd/coin/format.go | 20 +++++++++++++-------
 cmd/coin/modify.go | 10 ++++++----
 cmd/coin/test.go   |  1 -
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/cmd/coin/format.go b/cmd/coin/format.go
index a917fbf..87b3993 100644
--- a/cmd/coin/format.go
+++ b/cmd/coin/format.go
@@ -41,7 +41,7 @@ func (cmd *cmdFormat) init() {
 
 func (cmd *cmdFormat) execute(f io.Writer) {
 	if len(cmd.Args()) == 0 { // for testing
-		cmd.writeTransactions(f)
+		check.NoError(cmd.writeTransactions(f), "writing transactions")
 		return
 	}
 	for _, fn := range cmd.Args() {
@@ -54,10 +54,11 @@ func (cmd *cmdFormat) execute(f io.Writer) {
 			check.NoError(err, "creating temp file")
 			f = tf
 		}
-		cmd.writeTransactions(f)
+		err = cmd.writeTransactions(f)
+		check.NoError(err, "writing transactions")
 		if cmd.replace {
-			err = os.Remove(fn)
-			check.NoError(err, "deleting old file")
+			err = tf.Close()
+			check.NoError(err, "closing temp file")
 			err = os.Rename(tf.Name(), fn)
 			check.NoError(err, "renaming temp file")
 		}
@@ -65,13 +66,18 @@ func (cmd *cmdFormat) execute(f io.Writer) {
 	}
 }
 
-func (cmd *cmdFormat) writeTransactions(f io.Writer) {
+func (cmd *cmdFormat) writeTransactions(f io.Writer) error {
 	for _, t := range coin.Transactions {
 		if cmd.trimWS {
 			t.Description = trimWS(t.Description)[0]
 			t.Notes = trimWS(t.Notes...)
 		}
-		t.Write(f, cmd.ledger)
-		fmt.Fprintln(f)
+		if err := t.Write(f, cmd.ledger); err != nil {
+			return err
+		}
+		if _, err := fmt.Fprintln(f); err != nil {
+			return err
+		}
 	}
+	return nil
 }
diff --git a/cmd/coin/modify.go b/cmd/coin/modify.go
index dcfde1e..b3f318c 100644
--- a/cmd/coin/modify.go
+++ b/cmd/coin/modify.go
@@ -96,11 +96,13 @@ func (cmd *cmdModify) execute(f io.Writer) {
 			if cmd.modify(t) {
 				count++
 			}
-			t.Write(tf, false)
-			fmt.Fprintln(tf)
+			err = t.Write(tf, false)
+			check.NoError(err, "writing transactions")
+			_, err = fmt.Fprintln(tf)
+			check.NoError(err, "writing transactions")
 		}
-		err = os.Remove(fn)
-		check.NoError(err, "deleting old file")
+		err = tf.Close()
+		check.NoError(err, "closing temp file")
 		err = os.Rename(tf.Name(), fn)
 		check.NoError(err, "renaming temp file")
 		fmt.Fprintf(os.Stderr, "Updated %d transactions in %s\n", count, fn)
diff --git a/cmd/coin/test.go b/cmd/coin/test.go
index 3ce5ecc..7933356 100644
--- a/cmd/coin/test.go
+++ b/cmd/coin/test.go
@@ -169,6 +169,5 @@ func updateTestFile(ts []*coin.Test) {
 	check.NoError(of.Close(), "closing old file")
 	check.NoError(writer.Flush(), "flushing writer")
 	check.NoError(tf.Close(), "closing temp file")
-	check.NoError(os.Remove(fn), "deleting old file")
 	check.NoError(os.Rename(tf.Name(), fn), "renaming temp file %s to %s", tf.Name(), fn)
 }
-- 
2.43.0


From f223bbd3e0e4cd7008be34ba274a89490e83086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 18/63] fix: match whole transaction and posting lines

The patterns matched any part of the line, so whatever did not fit was silently
misread: a transaction following another one without an empty line or a comment
line became a posting, '10,000.00 CAD' lost its amount, 2020-01-02 became
2020/01/01 without a description, an empty note became a posting, a note of a
transaction without description became its description. A transaction with notes
only crashed.
---
 transaction.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/transaction.go b/transaction.go
index 27f5ab9..d5f0466 100644
--- a/transaction.go
+++ b/transaction.go
@@ -117,10 +117,10 @@ func (t *Transaction) Write(w io.Writer, ledger bool) error {
 	return nil
 }
 
-var transactionREX = rex.MustCompile(`%s(\s+\((?P<code>\w+)\))?(\s+(?P<description>\S[^;]*))?(; ?(?P<shortNote>.*))?`, DateREX)
+var transactionREX = rex.MustCompile(`^%s(\s+\((?P<code>\w+)\))?(\s+(?P<description>[^;\s][^;]*))?\s*(; ?(?P<shortNote>.*))?$`, DateREX)
 var postingREX = rex.MustCompile(``+
-	`\s+%s(\s+%s(\s+=\s+%s)?)?(\s*; ?(?P<shortNote>.*))?|`+
-	`\s+; ?(?P<note>.*)`,
+	`^\s+%s(\s+%s(\s+=\s+%s)?)?\s*(; ?(?P<shortNote>.*))?$|`+
+	`^\s+(?P<noteMark>;) ?(?P<note>.*)$`,
 	AccountREX, AmountREX, AmountREX)
 
 func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
@@ -145,8 +145,8 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 		if match == nil {
 			break
 		}
-		if note := match["note"]; len(note) > 0 {
-			notes = append(notes, string(note))
+		if match["noteMark"] != "" {
+			notes = append(notes, match["note"])
 			continue
 		}
 		var quantity *Amount
@@ -185,7 +185,11 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 		t.Postings = append(t.Postings, s)
 	}
 	if len(notes) > 0 {
-		s.Notes = append(s.Notes, notes...)
+		if s == nil {
+			t.Notes = append(t.Notes, notes...)
+		} else {
+			s.Notes = append(s.Notes, notes...)
+		}
 	}
 	t.Tags = ParseTags(t.Notes...)
 	for _, p := range t.Postings {
-- 
2.43.0


From d161ca389716dcc32049c2bd9469a1e5f304a770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 19/63] fix: formatting preserves blank note lines

A blank note was lost when it was moved to the end of the transaction or posting
line (only when formatted for the second time).
---
 posting.go     | 2 +-
 transaction.go | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/posting.go b/posting.go
index 76aa24f..dba6075 100644
--- a/posting.go
+++ b/posting.go
@@ -31,7 +31,7 @@ func (s *Posting) Write(w io.Writer, accountOffset, accountWidth, amountWidth in
 		commodity = s.Balance.Commodity
 		line += fmt.Sprintf(" = %.*f %s", commodity.Decimals, s.Balance, commodity.SafeId(ledger))
 	}
-	if len(notes) > 0 && len(notes[0])+len(line) < TRANSACTION_LINE_MAX-3 {
+	if len(notes) > 0 && isShortNote(notes[0], line) {
 		line += " ; " + notes[0]
 		notes = notes[1:]
 	}
diff --git a/transaction.go b/transaction.go
index d5f0466..12782c7 100644
--- a/transaction.go
+++ b/transaction.go
@@ -78,6 +78,11 @@ func (transactions TransactionsByTime) Day(day time.Time) TransactionsByTime {
 	return transactions[start : start+count]
 }
 
+// isShortNote checks if the note can be appended to the line (a blank one would be lost there)
+func isShortNote(note, line string) bool {
+	return strings.TrimSpace(note) != "" && len(note)+len(line) < TRANSACTION_LINE_MAX-3
+}
+
 func (t *Transaction) Write(w io.Writer, ledger bool) error {
 	notes := t.Notes
 	line := t.Posted.Format(DateFormat) + " "
@@ -85,7 +90,7 @@ func (t *Transaction) Write(w io.Writer, ledger bool) error {
 		line += "(" + t.Code + ") "
 	}
 	line += t.Description
-	if len(notes) > 0 && len(notes[0])+len(line) < TRANSACTION_LINE_MAX-3 {
+	if len(notes) > 0 && isShortNote(notes[0], line) {
 		line += " ; " + notes[0]
 		notes = notes[1:]
 	}
-- 
2.43.0


From 8ebc225c9f6cd9941949fbc6a00634accf9fd8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 20/63] fix: match whole account, commodity and price lines

Whatever followed (or preceded) the recognized part was ignored, e.g. 'account
Food&Drink' declared Food, a commented out directive took effect, 'closed
2020-02-03' closed the account on 2020/01/01.
---
 account.go   | 17 ++++++++++-------
 commodity.go | 15 +++++++++------
 price.go     |  2 +-
 3 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/account.go b/account.go
index 738ae1f..9d09439 100644
--- a/account.go
+++ b/account.go
@@ -81,14 +81,14 @@ func (a *Account) Write(w io.Writer, ledger bool) error {
 
 var accountNameREX = rex.MustCompile(`([A-Za-z][\w/_\-]*)`)
 var AccountREX = rex.MustCompile(`(?P<account>%s(:%s)*)`, accountNameREX, accountNameREX)
-var accountHeadREX = rex.MustCompile(`account\s+%s`, AccountREX)
+var accountHeadREX = rex.MustCompile(`^account\s+%s\s*(;.*)?$`, AccountREX)
 var accountBodyREX = rex.MustCompile(``+
-	`(\s+note\s+(?P<note>\S.+))|`+
-	`(\s+commodity\s+%s)|`+
-	`(\s+closed\s+%s)|`+
-	`(\s+ofx_bankid\s+(?P<ofx_bankid>\d+))|`+
-	`(\s+ofx_acctid\s+(?P<ofx_acctid>\d+))|`+
-	`(\s+csv_acctid\s+(?P<csv_acctid>\w+))`,
+	`^\s+(note\s+(?P<note>\S.*)|(`+
+	`commodity\s+%s|`+
+	`closed\s+%s|`+
+	`ofx_bankid\s+(?P<ofx_bankid>\d+)|`+
+	`ofx_acctid\s+(?P<ofx_acctid>\d+)|`+
+	`csv_acctid\s+(?P<csv_acctid>\w+))\s*(;.*)?)$`,
 	CommodityREX, DateREX)
 
 func accountFromName(fullName string) *Account {
@@ -115,6 +115,9 @@ func (a *Account) ParentName() string {
 
 func (p *Parser) parseAccount(fn string) (*Account, error) {
 	match := accountHeadREX.Match(p.Bytes())
+	if match == nil {
+		return nil, fmt.Errorf("invalid account line: %s", p.Text())
+	}
 	a := accountFromName(match["account"])
 	a.line = p.lineNr
 	a.file = fn
diff --git a/commodity.go b/commodity.go
index 981c7d9..49199e3 100644
--- a/commodity.go
+++ b/commodity.go
@@ -141,18 +141,21 @@ func (c *Commodity) Write(w io.Writer, ledger bool) error {
 }
 
 var CommodityREX = rex.MustCompile(`(?P<commodity>[A-Za-z][\w]*)`)
-var commodityHeadREX = rex.MustCompile(`commodity\s+%s`, CommodityREX)
+var commodityHeadREX = rex.MustCompile(`^commodity\s+%s\s*(;.*)?$`, CommodityREX)
 var commodityBodyREX = rex.MustCompile(``+
-	`(\s+note\s+(?P<note>.+))|`+
-	`(\s+format\s+(?P<format>%s))|`+
-	`(\s+(?P<nomarket>nomarket)\s*)|`+
-	`(\s+symbol\s+(?P<symbol>[\w\.]+))|`+
-	`(\s+(?P<default>default)\s*)`,
+	`^\s+(note\s+(?P<note>.+)|(`+
+	`format\s+(?P<format>%s)|`+
+	`(?P<nomarket>nomarket)|`+
+	`symbol\s+(?P<symbol>[\w\.]+)|`+
+	`(?P<default>default))\s*(;.*)?)$`,
 	AmountREX)
 
 func (p *Parser) parseCommodity(fn string) (*Commodity, error) {
 	c := &Commodity{Decimals: 2, line: p.lineNr, file: fn}
 	match := commodityHeadREX.Match(p.Bytes())
+	if match == nil {
+		return nil, fmt.Errorf("invalid commodity line: %s", p.Text())
+	}
 	c.Id = match["commodity"]
 	for p.Scan() {
 		line := p.Bytes()
diff --git a/price.go b/price.go
index ee41dd0..faebeec 100644
--- a/price.go
+++ b/price.go
@@ -38,7 +38,7 @@ func (p *Price) Write(w io.Writer, ledger bool) error {
 	return err
 }
 
-var priceREX = rex.MustCompile(`P %s\s+%s\s+%s`, DateREX, CommodityREX, AmountREX)
+var priceREX = rex.MustCompile(`^P\s+%s\s+%s\s+%s\s*(;.*)?$`, DateREX, CommodityREX, AmountREX)
 
 func (p *Parser) parsePrice(fn string) (*Price, error) {
 	match := priceREX.Match(p.Bytes())
-- 
2.43.0


From 7c8a7b25ba5f70e2df2b23cb2c354fbdeb114d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 21/63] fix: report a missing included file

It was silently ignored, unlike any other file that cannot be read.
---
 coin.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coin.go b/coin.go
index f8c0b29..3943ece 100644
--- a/coin.go
+++ b/coin.go
@@ -121,6 +121,8 @@ func Load(r io.Reader, fn string) {
 		case *Include:
 			files, err := i.Files()
 			check.NoError(err, "Failed to resolve include %s", i.Path)
+			check.If(len(files) > 0 || strings.ContainsAny(i.Path, "*?["),
+				"Included file not found %s (%s)", i.Path, i.Location())
 			for _, f := range files {
 				// This won't catch nested loops, but should catch the easier to make errors.
 				check.If(f != fn, "Include loop detected %s", f)
-- 
2.43.0


From ed769444a6356ea5f185fc6914c4eb46761097cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 22/63] fix: reject invalid dates

2020/02/30 became 2020/03/01, options accepted anything that started with a date
(-b 2020-02-03 was 2020/01/01) and | was accepted as an offset unit.
---
 date.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/date.go b/date.go
index 98af69f..955aa36 100644
--- a/date.go
+++ b/date.go
@@ -40,7 +40,7 @@ func (d *Date) String() string {
 
 func (d *Date) Set(s string) (err error) {
 	match := DateREX.Match([]byte(s))
-	if match == nil {
+	if match == nil || match["date"] != s {
 		return fmt.Errorf("invalid date: %s", s)
 	}
 	d.Time, err = parseDate(match, 0)
@@ -54,7 +54,7 @@ var YearFormat = "2006"
 var ymd = rex.MustCompile(`` +
 	`((?P<ymd>((?P<ymdy>\d\d(\d\d)?)/)?(?P<ymdm>\d{1,2})/(?P<ymdd>\d{1,2}))|` +
 	`(?P<ym>(?P<ymy>\d{4})(/(?P<ymm>\d{1,2}))?))`)
-var offset = rex.MustCompile(`(?P<offset>[+-]\d+[d|w|m|y])`)
+var offset = rex.MustCompile(`(?P<offset>[+-]\d+[dwmy])`)
 var DateREX = rex.MustCompile(`(?P<date>%s?%s?)`, ymd, offset)
 
 func mustParseDate(match map[string]string, idx int) time.Time {
@@ -112,6 +112,9 @@ func parseDate(match map[string]string, idx int) (t time.Time, err error) {
 	}
 
 	t = time.Date(y, time.Month(m), d, 12, 0, 0, 0, time.UTC)
+	if t.Month() != time.Month(m) || t.Day() != d {
+		return t, fmt.Errorf("no such date: %s", match["date"])
+	}
 	if offset != "" {
 		e := len(offset) - 1
 		o, _ := strconv.Atoi(offset[:e])
-- 
2.43.0


From 9123f971c5d74038ed7a6c93d3dda63ed0b08d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 23/63] fix: a date without year is the one closest to today

It was compared by months only, so on 2019/07/31 1/1 was 2019/01/01 rather than
2020/01/01, and two digit years ignored the current century.
---
 date.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/date.go b/date.go
index 955aa36..6d3edca 100644
--- a/date.go
+++ b/date.go
@@ -83,7 +83,7 @@ func parseDate(match map[string]string, idx int) (t time.Time, err error) {
 		if yy := match["ymdy"]; yy != "" {
 			yyy, _ := strconv.Atoi(yy)
 			if yyy < 100 {
-				yyy = y/1000*1000 + yyy
+				yyy = y/100*100 + yyy
 				if yyy < y && y-yyy > 50 {
 					yyy += 100
 				} else if yyy > y && yyy-y > 50 {
@@ -94,11 +94,7 @@ func parseDate(match map[string]string, idx int) (t time.Time, err error) {
 				y = yyy
 			}
 		} else {
-			if mm < m && m-mm > 6 {
-				y += 1
-			} else if m < mm && mm-m > 6 {
-				y -= 1
-			}
+			y = closestYear(time.Month(mm), d)
 		}
 		m = mm
 	} else if match["ym"] != "" {
@@ -131,3 +127,18 @@ func parseDate(match map[string]string, idx int) (t time.Time, err error) {
 	}
 	return t, nil
 }
+
+// closestYear returns the year in which given day of the year is closest to today.
+func closestYear(m time.Month, d int) (year int) {
+	today := time.Date(Year, Month, Day, 12, 0, 0, 0, time.UTC)
+	year = Year
+	var closest time.Duration = -1
+	for y := Year - 1; y <= Year+1; y++ {
+		t := time.Date(y, m, d, 12, 0, 0, 0, time.UTC)
+		diff := t.Sub(today).Abs()
+		if t.Month() == m && (closest < 0 || diff < closest) {
+			year, closest = y, diff
+		}
+	}
+	return year
+}
-- 
2.43.0


From f2e8d0b1e2a2ffabf69ba5929641ce60e0918c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 24/63] fix: do not lose unterminated last line of OFX files
 read with -bmo

---
 cmd/ofx2coin/bmo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ofx2coin/bmo.go b/cmd/ofx2coin/bmo.go
index ac33eb6..147597a 100644
--- a/cmd/ofx2coin/bmo.go
+++ b/cmd/ofx2coin/bmo.go
@@ -39,7 +39,7 @@ func (r *bmoReader) Read(p []byte) (n int, err error) {
 	loop:
 		for {
 			r.lastLine, err = r.ReadBytes('\n')
-			if err != nil {
+			if err != nil && len(r.lastLine) == 0 { // last line may not be terminated
 				return 0, err
 			}
 			if !r.reachedHeader {
-- 
2.43.0


From 4ea334b3b312d3a9650d2f8d48d867ffdd3f1068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 25/63] fix: gen2coin -wb balances start from zero

---
 cmd/gen2coin/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/gen2coin/main.go b/cmd/gen2coin/main.go
index e01a2f3..49ead3f 100644
--- a/cmd/gen2coin/main.go
+++ b/cmd/gen2coin/main.go
@@ -72,6 +72,8 @@ func main() {
 
 	if withBalances {
 		for _, a := range coin.AccountsByName {
+			// drop the balance accumulated by generating the postings
+			a.Balance().SetInt64(0)
 			a.CheckPostings()
 		}
 	}
-- 
2.43.0


From 6894494e3767f7bd9575aad60c54c811f55a7542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 26/63] fix: single character rule patterns

---
 rules.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules.go b/rules.go
index 8e15eb6..c4d2746 100644
--- a/rules.go
+++ b/rules.go
@@ -148,7 +148,7 @@ func (r *Rule) RuleFor(payee string) *Rule {
 
 var patternRE = `([\w:$^\\-]+)`
 var headerRE = regexp.MustCompile(`^(\w+)\s+` + patternRE + `|^(\w+)`)
-var bodyRE = regexp.MustCompile(`^\s+` + patternRE + `(\s+(\S.*\S))?|` +
+var bodyRE = regexp.MustCompile(`^\s+` + patternRE + `(\s+(\S.*\S|\S))?|` +
 	`^\s+@(\w+)|` +
 	`^\s+;\s+(.*)`)
 
-- 
2.43.0


From 3766eb294c71c13c39f9664aa647216aa1f36846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 27/63] fix: dump drop rules and rule notes

---
 rules.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/rules.go b/rules.go
index c4d2746..944ec7d 100644
--- a/rules.go
+++ b/rules.go
@@ -122,6 +122,9 @@ func (rs *RuleSet) RuleFor(payee string) *Rule {
 	return nil
 }
 
+// used in place of the account name by rules that drop the transaction
+const dropRule = "--"
+
 // If this rule matches the transaction description,
 // use Account as the other side of the transaction
 type Rule struct {
@@ -131,12 +134,22 @@ type Rule struct {
 }
 
 func (r *Rule) Name() string {
+	if r.Account == nil {
+		return dropRule
+	}
 	return r.Account.FullName
 }
 
 func (r *Rule) Write(w io.Writer, max int) error {
-	_, err := fmt.Fprintf(w, "  %-*s %s\n", max, r.Name(), r.String())
-	return err
+	if _, err := fmt.Fprintf(w, "  %-*s %s\n", max, r.Name(), r.String()); err != nil {
+		return err
+	}
+	for _, n := range r.Notes {
+		if _, err := fmt.Fprintf(w, "  ; %s\n", n); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 func (r *Rule) RuleFor(payee string) *Rule {
@@ -193,7 +206,7 @@ func ScanRules(line []byte, s *bufio.Scanner) (*RuleIndex, error) {
 				}
 				if len(match[1]) > 0 {
 					var account *Account
-					if string(match[1]) != "--" {
+					if string(match[1]) != dropRule {
 						account = MustFindAccount(string(match[1]))
 					}
 					lastRule = &Rule{
-- 
2.43.0


From ff34868103a17ef75312bce0ab6b64fecbf41fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 28/63] fix: dump csv sources so that they can be read back

---
 cmd/csv2coin/rules.go | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/cmd/csv2coin/rules.go b/cmd/csv2coin/rules.go
index 1526c45..f99c2e8 100644
--- a/cmd/csv2coin/rules.go
+++ b/cmd/csv2coin/rules.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -139,18 +140,23 @@ func ScanSource(line []byte, s *bufio.Scanner) *Source {
 }
 
 func (s *Source) Write(w io.Writer) {
-	fmt.Fprintln(w, s.name)
-	for _, n := range labels {
-		fs := s.fields[n]
-		for _, f := range fs {
-			if f.re == nil {
-				if f.out != "" {
-					fmt.Fprintf(w, "  %s %s\n", n, f.out)
-				} else {
-					fmt.Fprintf(w, "  %s %d\n", n, f.idx)
-				}
-			} else {
-				fmt.Fprintf(w, "  %s %d %s %s\n", n, f.idx, f.out, f.re)
+	fmt.Fprintf(w, "%s %d\n", s.name, s.skip)
+	var names []string
+	for n := range s.fields {
+		names = append(names, n)
+	}
+	sort.Strings(names)
+	for _, n := range names {
+		for _, f := range s.fields[n] {
+			switch {
+			case f.idx != nil && f.re == nil:
+				fmt.Fprintf(w, "  %s %d\n", n, *f.idx)
+			case f.idx != nil:
+				fmt.Fprintf(w, "  %s %d \"%s\" %s\n", n, *f.idx, f.out, f.re)
+			case f.condField == "":
+				fmt.Fprintf(w, "  %s \"%s\"\n", n, f.out)
+			default:
+				fmt.Fprintf(w, "  %s \"%s\" %s %s\n", n, f.out, f.condField, f.re)
 			}
 		}
 	}
@@ -166,11 +172,18 @@ type Rules struct {
 }
 
 func (rules *Rules) Write(w io.Writer) {
-	for _, src := range rules.sources {
-		src.Write(w)
+	var names []string
+	for n := range rules.sources {
+		names = append(names, n)
+	}
+	sort.Strings(names)
+	for _, n := range names {
+		rules.sources[n].Write(w)
 	}
 	fmt.Fprintln(w, string(separator))
-	rules.RuleIndex.Write(w)
+	if rules.RuleIndex != nil {
+		rules.RuleIndex.Write(w)
+	}
 }
 
 func ReadRules(r io.Reader) *Rules {
-- 
2.43.0


From d7581f373cb642ee16a1b62e4da737ebb5aa046e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 29/63] fix: GnuCash currencies without fraction have two
 decimals

---
 gnucash/commodity.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gnucash/commodity.go b/gnucash/commodity.go
index 80dcb20..45e2ebc 100644
--- a/gnucash/commodity.go
+++ b/gnucash/commodity.go
@@ -45,6 +45,9 @@ func CommodityFrom(c *Commodity) *coin.Commodity {
 		Code:   c.Code,
 		Prices: make(map[*coin.Commodity][]*coin.Price),
 	}
+	if c.Fraction == 0 { // currencies may come without one
+		c.Fraction = 100
+	}
 	cc.SetFraction(c.Fraction)
 	return cc
 }
-- 
2.43.0


From 804228afbc00273adf79b66b631c09a3628c66a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 30/63] fix: gc2coin -y with no prices or transactions

---
 cmd/gc2coin/main.go | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/cmd/gc2coin/main.go b/cmd/gc2coin/main.go
index ca5d66e..1e53a3e 100644
--- a/cmd/gc2coin/main.go
+++ b/cmd/gc2coin/main.go
@@ -73,21 +73,18 @@ func main() {
 		}
 	})
 
-	// Assume prices are sorted by date
-	var year int
-	if *yearly {
-		year := coin.Prices[0].Time.Year()
-		f, done = next(strconv.Itoa(year) + coin.PricesExtension)
-		defer done()
-	} else {
+	byYear := map[int]*os.File{}
+	if !*yearly {
 		f, done = next(coin.PricesFilename)
 		defer done()
 	}
 	for _, p := range coin.Prices {
-		if *yearly && p.Time.Year() != year {
-			year = p.Time.Year()
-			f, done = next(strconv.Itoa(year) + coin.PricesExtension)
-			defer done()
+		if year := p.Time.Year(); *yearly {
+			if byYear[year] == nil {
+				byYear[year], done = next(strconv.Itoa(year) + coin.PricesExtension)
+				defer done()
+			}
+			f = byYear[year]
 		}
 		err := p.Write(f, *ledger)
 		if err != nil {
@@ -108,19 +105,18 @@ func main() {
 		}
 	})
 
-	if *yearly {
-		year := coin.Transactions[0].Posted.Year()
-		f, done = next(strconv.Itoa(year) + coin.TransactionsExtension)
-		defer done()
-	} else {
+	byYear = map[int]*os.File{}
+	if !*yearly {
 		f, done = next(coin.TransactionsFilename)
 		defer done()
 	}
 	for _, p := range coin.Transactions {
-		if *yearly && p.Posted.Year() != year {
-			year = p.Posted.Year()
-			f, done = next(strconv.Itoa(year) + coin.TransactionsExtension)
-			defer done()
+		if year := p.Posted.Year(); *yearly {
+			if byYear[year] == nil {
+				byYear[year], done = next(strconv.Itoa(year) + coin.TransactionsExtension)
+				defer done()
+			}
+			f = byYear[year]
 		}
 		err := p.Write(f, *ledger)
 		if err != nil {
-- 
2.43.0


From 998d90b899cf59a76459fd05ca372fa9064a8b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 31/63] fix: postings in different commodities are not equal

---
 posting.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/posting.go b/posting.go
index dba6075..6ded18e 100644
--- a/posting.go
+++ b/posting.go
@@ -56,6 +56,7 @@ func (s *Posting) String() string {
 
 func (s *Posting) IsEqual(s2 *Posting) bool {
 	return s.Account == s2.Account &&
+		s.Quantity.Commodity == s2.Quantity.Commodity &&
 		s.Quantity.IsEqual(s2.Quantity)
 }
 
-- 
2.43.0


From bf9e6bb053e97615be361cedb55966c0c52c3d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 32/63] fix: compare amounts of different precision exactly

---
 amount.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amount.go b/amount.go
index d9f422e..cdaec29 100644
--- a/amount.go
+++ b/amount.go
@@ -144,6 +144,9 @@ func (a *Amount) IsEqual(b *Amount) bool    { return a.Cmp(b) == 0 }
 func (a *Amount) IsLessThan(b *Amount) bool { return a.Cmp(b) < 0 }
 func (a *Amount) IsMoreThan(b *Amount) bool { return a.Cmp(b) > 0 }
 func (a *Amount) Cmp(b *Amount) int {
+	if a.Decimals < b.Decimals {
+		return a.adjustedTo(b).Cmp(b.Int)
+	}
 	return a.Int.Cmp(b.adjustedTo(a))
 }
 
-- 
2.43.0


From 5cf8aafe2f881dde1432f20eec3b8076d3148ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 33/63] fix: reject a test clause without end

---
 test.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/test.go b/test.go
index 2a5d88e..cce2cf8 100644
--- a/test.go
+++ b/test.go
@@ -29,7 +29,10 @@ func (p *Parser) parseTest(fn string) (*Test, error) {
 		b.Write(p.Bytes())
 		fmt.Fprintln(&b)
 	}
-	return t, p.Err()
+	if err := p.Err(); err != nil {
+		return nil, err
+	}
+	return nil, fmt.Errorf("test without end: %s", t.Location())
 }
 
 func (t *Test) Location() string {
-- 
2.43.0


From 3fc841909ad8715ff8c4335787ef3cd906d67981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 34/63] fix: reject an account closed without date

---
 account.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/account.go b/account.go
index 9d09439..b30d972 100644
--- a/account.go
+++ b/account.go
@@ -142,6 +142,8 @@ func (p *Parser) parseAccount(fn string) (*Account, error) {
 			a.OFXAcctId = i
 		} else if i := match["csv_acctid"]; i != "" {
 			a.CSVAcctId = i
+		} else {
+			return a, fmt.Errorf("unrecognized account line: %s", p.Text())
 		}
 	}
 	return a, p.Err()
-- 
2.43.0


From 6cb9e5746b4e01e1650dcef2bcfe07519504431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 35/63] fix: match whole include lines

---
 include.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include.go b/include.go
index 054b376..ded8674 100644
--- a/include.go
+++ b/include.go
@@ -21,10 +21,13 @@ type Include struct {
 	file string
 }
 
-var includeHead = regexp.MustCompile(`include\s+(.+)`)
+var includeHead = regexp.MustCompile(`^include\s+(.+)`)
 
 func (p *Parser) parseInclude(fn string) (*Include, error) {
 	matches := includeHead.FindSubmatch(p.Bytes())
+	if matches == nil {
+		return nil, fmt.Errorf("invalid include line: %s", p.Text())
+	}
 	i := &Include{Path: string(matches[1]), line: p.lineNr, file: fn}
 	p.Scan()
 	return i, nil
-- 
2.43.0


From 3406b6ce4ae42d6c0e9bbadd95d3593fd00d9bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 36/63] fix: format -t does not change the transactions for
 other commands

---
 cmd/coin/format.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/coin/format.go b/cmd/coin/format.go
index 87b3993..33e3a67 100644
--- a/cmd/coin/format.go
+++ b/cmd/coin/format.go
@@ -69,6 +69,8 @@ func (cmd *cmdFormat) execute(f io.Writer) {
 func (cmd *cmdFormat) writeTransactions(f io.Writer) error {
 	for _, t := range coin.Transactions {
 		if cmd.trimWS {
+			trimmed := *t // leave the loaded transaction alone
+			t = &trimmed
 			t.Description = trimWS(t.Description)[0]
 			t.Notes = trimWS(t.Notes...)
 		}
-- 
2.43.0


From f93ee0cc12b1cebe3848306bf3a476f717d93dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 37/63] fix: coin test judges each file by its own tests and
 runs all of them

---
 cmd/coin/test.go | 64 +++++++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/cmd/coin/test.go b/cmd/coin/test.go
index 7933356..1269c52 100644
--- a/cmd/coin/test.go
+++ b/cmd/coin/test.go
@@ -44,22 +44,20 @@ func (cmd *cmdTest) execute(f io.Writer) {
 	if len(coin.Tests) == 0 {
 		return
 	}
-	lastTestFile := file(coin.Tests[0])
-	var toUpdate []*coin.Test
-	success := true
+	var files []string                    // in the order in which their tests start
+	failed := map[string]bool{}           // files with failed tests
+	toUpdate := map[string][]*coin.Test{} // tests without results by file
+	updating := map[string]bool{}
+	fail := func(t *coin.Test) {
+		failed[file(t)] = true
+		fmt.Fprintf(f, "FAIL %s %s\n", t.Location(), t.Cmd)
+	}
 	for _, t := range coin.Tests {
-		// assume the tests are sorted file by file
-		// and in the order they are in the file
+		// the tests of a file can be interrupted by the tests of the files it includes
 		testFile := file(t)
-		startingNewFile := testFile != lastTestFile
-		var oldTestFile string // this is set only when moving to new file
-		if startingNewFile {
-			oldTestFile = lastTestFile
-		}
-		lastTestFile = testFile
-		if startingNewFile && len(toUpdate) > 0 {
-			updateTestFile(toUpdate)
-			toUpdate = nil
+		if _, known := failed[testFile]; !known {
+			failed[testFile] = false
+			files = append(files, testFile)
 		}
 		var args []string
 		scanner := bufio.NewScanner(strings.NewReader(t.Cmd))
@@ -68,15 +66,17 @@ func (cmd *cmdTest) execute(f io.Writer) {
 			args = append(args, scanner.Text())
 		}
 		if len(args) == 0 {
-			fmt.Fprintf(os.Stderr, "FAIL: test item is missing command %s\n", t.Location())
-			return
+			fail(t)
+			fmt.Fprintf(f, "test item is missing command\n")
+			continue
 		}
 		// fmt.Println(args)
 		// continue
 		command, found := aliases[args[0]]
 		if !found {
-			fmt.Fprintf(os.Stderr, "FAIL: command unknown: %s %s\n", args[0], t.Location())
-			return
+			fail(t)
+			fmt.Fprintf(f, "command unknown: %s\n", args[0])
+			continue
 		}
 		command = command.newCommand(command.Name())
 		if len(args) > 1 {
@@ -90,19 +90,19 @@ func (cmd *cmdTest) execute(f io.Writer) {
 		// once we collect all the tests to be updated
 		if len(t.Result) == 0 {
 			t.Result = b.Bytes()
-			toUpdate = append(toUpdate, t)
+			if !updating[t.Location()] { // the file may be included repeatedly
+				updating[t.Location()] = true
+				toUpdate[testFile] = append(toUpdate[testFile], t)
+			}
 			continue
 		}
 		if bytes.Equal(b.Bytes(), t.Result) {
 			if cmd.verbose {
 				fmt.Fprintf(f, "OK %s %s\n", t.Location(), t.Cmd)
-			} else if oldTestFile != "" {
-				fmt.Fprintf(f, "OK %s\n", oldTestFile)
 			}
 			continue
 		}
-		success = false
-		fmt.Fprintf(f, "FAIL %s %s\n", t.Location(), t.Cmd)
+		fail(t)
 		difflib.WriteUnifiedDiff(f,
 			difflib.UnifiedDiff{
 				B:        difflib.SplitLines(b.String()),
@@ -112,15 +112,17 @@ func (cmd *cmdTest) execute(f io.Writer) {
 				Context:  3,
 			})
 	}
-	if len(toUpdate) > 0 {
-		updateTestFile(toUpdate)
-	}
-	if !cmd.verbose {
-		result := "OK"
-		if !success {
-			result = "FAIL"
+	for _, fn := range files {
+		if len(toUpdate[fn]) > 0 {
+			updateTestFile(toUpdate[fn])
+		}
+		if !cmd.verbose {
+			result := "OK"
+			if failed[fn] {
+				result = "FAIL"
+			}
+			fmt.Fprintf(f, "%s %s\n", result, fn)
 		}
-		fmt.Fprintf(f, "%s %s\n", result, lastTestFile)
 	}
 }
 
-- 
2.43.0


From 0f08959de41eb27311d147e7470e28a8ae0db77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:38 +0000
Subject: [PATCH 38/63] fix: rewritten files reach the disk before they replace
 the originals

---
 cmd/coin/format.go | 2 ++
 cmd/coin/modify.go | 2 ++
 cmd/coin/test.go   | 1 +
 3 files changed, 5 insertions(+)

diff --git a/cmd/coin/format.go b/cmd/coin/format.go
index 33e3a67..ad13eee 100644
--- a/cmd/coin/format.go
+++ b/cmd/coin/format.go
@@ -57,6 +57,8 @@ func (cmd *cmdFormat) execute(f io.Writer) {
 		err = cmd.writeTransactions(f)
 		check.NoError(err, "writing transactions")
 		if cmd.replace {
+			err = tf.Sync()
+			check.NoError(err, "syncing temp file")
 			err = tf.Close()
 			check.NoError(err, "closing temp file")
 			err = os.Rename(tf.Name(), fn)
diff --git a/cmd/coin/modify.go b/cmd/coin/modify.go
index b3f318c..0e26570 100644
--- a/cmd/coin/modify.go
+++ b/cmd/coin/modify.go
@@ -101,6 +101,8 @@ func (cmd *cmdModify) execute(f io.Writer) {
 			_, err = fmt.Fprintln(tf)
 			check.NoError(err, "writing transactions")
 		}
+		err = tf.Sync()
+		check.NoError(err, "syncing temp file")
 		err = tf.Close()
 		check.NoError(err, "closing temp file")
 		err = os.Rename(tf.Name(), fn)
diff --git a/cmd/coin/test.go b/cmd/coin/test.go
index 1269c52..49fa87a 100644
--- a/cmd/coin/test.go
+++ b/cmd/coin/test.go
@@ -170,6 +170,7 @@ func updateTestFile(ts []*coin.Test) {
 	check.NoError(scanner.Err(), "writing trailer")
 	check.NoError(of.Close(), "closing old file")
 	check.NoError(writer.Flush(), "flushing writer")
+	check.NoError(tf.Sync(), "syncing temp file")
 	check.NoError(tf.Close(), "closing temp file")
 	check.NoError(os.Rename(tf.Name(), fn), "renaming temp file %s to %s", tf.Name(), fn)
 }
-- 
2.43.0


From a601d1845eb4d1a28aaeb7b8c2d1f82842508124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:57 +0000
Subject: [PATCH 39/63] fix: a year of four digits below 100 was taken for one
 of two digits

---
 date.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/date.go b/date.go
index 6d3edca..09d0fd9 100644
--- a/date.go
+++ b/date.go
@@ -82,7 +82,7 @@ func parseDate(match map[string]string, idx int) (t time.Time, err error) {
 		mm, _ := strconv.Atoi(match["ymdm"])
 		if yy := match["ymdy"]; yy != "" {
 			yyy, _ := strconv.Atoi(yy)
-			if yyy < 100 {
+			if len(yy) == 2 {
 				yyy = y/100*100 + yyy
 				if yyy < y && y-yyy > 50 {
 					yyy += 100
-- 
2.43.0


From b01843e75dc90a56e43da8e88fc570f213b0bb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 40/63] fix: date offsets too large to represent gave arbitrary
 dates

---
 date.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/date.go b/date.go
index 09d0fd9..dfc4258 100644
--- a/date.go
+++ b/date.go
@@ -57,6 +57,9 @@ var ymd = rex.MustCompile(`` +
 var offset = rex.MustCompile(`(?P<offset>[+-]\d+[dwmy])`)
 var DateREX = rex.MustCompile(`(?P<date>%s?%s?)`, ymd, offset)
 
+// no more than there are days in the years that we can write
+const maxOffset = 10000 * 366
+
 func mustParseDate(match map[string]string, idx int) time.Time {
 	d, err := parseDate(match, idx)
 	if err != nil {
@@ -113,7 +116,10 @@ func parseDate(match map[string]string, idx int) (t time.Time, err error) {
 	}
 	if offset != "" {
 		e := len(offset) - 1
-		o, _ := strconv.Atoi(offset[:e])
+		o, err := strconv.Atoi(offset[:e])
+		if err != nil || o < -maxOffset || o > maxOffset {
+			return t, fmt.Errorf("date offset out of range: %s", offset)
+		}
 		switch offset[e] {
 		case 'd':
 			t = t.AddDate(0, 0, o)
@@ -124,6 +130,9 @@ func parseDate(match map[string]string, idx int) (t time.Time, err error) {
 		case 'y':
 			t = t.AddDate(o, 0, 0)
 		}
+		if t.Year() < 0 || t.Year() > 9999 { // not a date we could write
+			return t, fmt.Errorf("date out of range: %s", match["date"])
+		}
 	}
 	return t, nil
 }
-- 
2.43.0


From e5ef398cb7d978828cd5e4611cd6092ee52885d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:25 +0000
Subject: [PATCH 41/63] fix: amounts of more than 50 digits ended the program
 when printed

---
 pow10.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pow10.go b/pow10.go
index 155aada..7578361 100644
--- a/pow10.go
+++ b/pow10.go
@@ -62,7 +62,7 @@ func bigLog10(bi *big.Int) int {
 			return i
 		}
 	}
-	panic("number too big")
+	return len(new(big.Int).Abs(bi).String()) - 1
 }
 
 func bigPow10(i int) *big.Int {
-- 
2.43.0


From 1e71da1e736a896cfc915f4912a55ec56b9a90b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:49 +0000
Subject: [PATCH 42/63] fix: a sign after the decimal point was taken for a
 digit

---
 amount.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amount.go b/amount.go
index cdaec29..626d98f 100644
--- a/amount.go
+++ b/amount.go
@@ -85,7 +85,7 @@ func parseAmount(s string, c *Commodity) (*Amount, error) {
 		}
 		return NewAmount(bi, c), nil
 	}
-	if len(ss) != 2 {
+	if len(ss) != 2 || strings.ContainsAny(ss[1], "+-") {
 		return nil, fmt.Errorf("malformed value %s", s)
 	}
 	s = strings.Join(ss, "")
-- 
2.43.0


From 6ccf58a450e6d35b2d933b0fcd29ddeb8e3ae947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:20 +0000
Subject: [PATCH 43/63] fix: importing without rules

---
 cmd/csv2coin/main.go | 2 +-
 rules.go             | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmd/csv2coin/main.go b/cmd/csv2coin/main.go
index 66bb839..badd27d 100644
--- a/cmd/csv2coin/main.go
+++ b/cmd/csv2coin/main.go
@@ -43,7 +43,7 @@ func main() {
 	coin.LoadFile(coin.AccountsFile)
 	coin.ResolveAccounts()
 
-	var rules *Rules
+	rules := &Rules{}
 	fn := filepath.Join(coin.DB, "csv.rules")
 	if _, err := os.Stat(fn); !os.IsNotExist(err) {
 		file, err := os.Open(fn)
diff --git a/rules.go b/rules.go
index 944ec7d..1052c03 100644
--- a/rules.go
+++ b/rules.go
@@ -26,9 +26,10 @@ type RuleIndex struct {
 }
 
 func (rs *RuleIndex) AccountRulesFor(acctId string) *AccountRules {
-	ars := rs.Accounts[acctId]
-	if ars != nil {
-		return ars
+	if rs != nil { // there may be no rules
+		if ars := rs.Accounts[acctId]; ars != nil {
+			return ars
+		}
 	}
 	account := FindAccountOfxId(acctId)
 	check.If(account != nil, "could not find account for Acct ID %s", acctId)
-- 
2.43.0


From 7e46c68f0f1f591ae1fc4b9d6cb3ef71036b0a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:20 +0000
Subject: [PATCH 44/63] fix: OFX statements without a list of transactions

---
 cmd/ofx2coin/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/ofx2coin/main.go b/cmd/ofx2coin/main.go
index 90a5362..29e662a 100644
--- a/cmd/ofx2coin/main.go
+++ b/cmd/ofx2coin/main.go
@@ -132,6 +132,9 @@ func readTransactions(r io.Reader, rules *coin.RuleIndex) (transactions []*coin.
 	// read bank transactions
 	for _, resp := range responses.Bank {
 		resp := resp.(*ofxgo.StatementResponse)
+		if resp.BankTranList == nil { // statement without transactions
+			continue
+		}
 		rules := rules.AccountRulesFor(resp.BankAcctFrom.AcctID.String())
 		last := len(resp.BankTranList.Transactions) - 1
 		for i, t := range resp.BankTranList.Transactions {
@@ -152,6 +155,9 @@ func readTransactions(r io.Reader, rules *coin.RuleIndex) (transactions []*coin.
 	// read credit card transactions
 	for _, resp := range responses.CreditCard {
 		resp := resp.(*ofxgo.CCStatementResponse)
+		if resp.BankTranList == nil { // statement without transactions
+			continue
+		}
 		rules := rules.AccountRulesFor(resp.CCAcctFrom.AcctID.String())
 		for _, t := range resp.BankTranList.Transactions {
 			if nt := newTransaction(rules,
-- 
2.43.0


From 1b0cdabee5cb5e7548c88b943f935402fa197196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:20 +0000
Subject: [PATCH 45/63] fix: csv2coin -fields without the optional fields

---
 cmd/csv2coin/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/csv2coin/main.go b/cmd/csv2coin/main.go
index badd27d..5c3d2fd 100644
--- a/cmd/csv2coin/main.go
+++ b/cmd/csv2coin/main.go
@@ -222,8 +222,9 @@ var labels = []string{
 
 func parseFields(list string) map[string]Fields {
 	idxs := strings.Split(list, ",")
-	check.If(len(idxs) == len(labels),
-		"%d fields must be specified:\n%v\n", len(labels), labels)
+	// optional fields at the end of the list can be omitted
+	check.If(4 <= len(idxs) && len(idxs) <= len(labels),
+		"4 to %d fields must be specified:\n%v\n", len(labels), labels)
 	fields := make(map[string]Fields)
 	for i, s := range idxs {
 		c, err := strconv.Atoi(s)
-- 
2.43.0


From afc664560b9aee21dfab6be3a194691d58d02570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:57 +0000
Subject: [PATCH 46/63] fix: an empty account id does not stand for an
 arbitrary account

---
 coin.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/coin.go b/coin.go
index 3943ece..5bc7d9c 100644
--- a/coin.go
+++ b/coin.go
@@ -312,13 +312,16 @@ func MustFindAccount(pattern string) *Account {
 	panic(msg)
 }
 
-func FindAccountOfxId(acctId string) *Account {
-	for _, a := range AccountsByName {
-		if a.OFXAcctId == acctId {
-			return a
-		}
+func FindAccountOfxId(acctId string) (found *Account) {
+	if acctId == "" { // that is an account without id
+		return nil
 	}
-	return nil
+	AccountsDo(func(a *Account) {
+		if found == nil && a.OFXAcctId == acctId {
+			found = a
+		}
+	})
+	return found
 }
 
 func ToRegex(pattern string) *regexp.Regexp {
-- 
2.43.0


From dc7e501ca8428a7ffc5411c305650d39fc751c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:57 +0000
Subject: [PATCH 47/63] fix: csv records can have a different number of fields
 than the headers

---
 cmd/csv2coin/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/csv2coin/main.go b/cmd/csv2coin/main.go
index 5c3d2fd..a115968 100644
--- a/cmd/csv2coin/main.go
+++ b/cmd/csv2coin/main.go
@@ -97,6 +97,7 @@ func readTransactions(in io.Reader, src *Source, rules *Rules) (transactions []*
 		}
 		check.NoError(err, "Failed to read header line %d", i)
 	}
+	r.FieldsPerRecord = 0 // that of the first record, headers can differ
 	for {
 		rec, err := r.Read()
 		if err == io.EOF {
-- 
2.43.0


From a2a839a66da5350232898922ac85636cefe0b6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:16 +0000
Subject: [PATCH 48/63] fix: dump the rules of accounts with several ids in a
 fixed order

---
 rules.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rules.go b/rules.go
index 1052c03..ad4092d 100644
--- a/rules.go
+++ b/rules.go
@@ -56,7 +56,11 @@ func (rs *RuleIndex) Write(w io.Writer) error {
 		}
 	}
 	sort.Slice(accounts, func(i, j int) bool {
-		return accounts[i].Account.FullName < accounts[j].Account.FullName
+		a, b := accounts[i], accounts[j]
+		if a.Account != b.Account {
+			return a.Account.FullName < b.Account.FullName
+		}
+		return ids[a] < ids[b]
 	})
 	for _, ars := range accounts {
 		id := ids[ars]
-- 
2.43.0


From e9ed37c9aef674c0f34eece6d1d70bbc6eccee94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:36 +0000
Subject: [PATCH 49/63] fix: order converted GnuCash transactions and prices by
 the dates written

Stamps with different time zones were ordered by the instant, so that the
dates written, those of the stamps, could be out of order.
---
 gnucash/gnucash.go     | 3 ++-
 gnucash/price.go       | 4 ++--
 gnucash/transaction.go | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/gnucash/gnucash.go b/gnucash/gnucash.go
index 0aa1553..dc1ea6d 100644
--- a/gnucash/gnucash.go
+++ b/gnucash/gnucash.go
@@ -62,12 +62,13 @@ func Load(fn string) *Book {
 // TimeStamp is GnuCash time format
 const TimeStamp = "2006-01-02 15:04:05 -0700"
 
+// mustParseTimeStamp returns the date of the stamp as written, whatever its time of day and zone.
 func mustParseTimeStamp(ts string) time.Time {
 	t, err := time.Parse(TimeStamp, ts)
 	if err != nil {
 		panic(err)
 	}
-	return t
+	return time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
 }
 
 // GncNumeric is a fraction
diff --git a/gnucash/price.go b/gnucash/price.go
index a40cf49..b04850a 100644
--- a/gnucash/price.go
+++ b/gnucash/price.go
@@ -50,12 +50,12 @@ func resolvePrices(prices []*Price) {
 	// Sort commodity prices.
 	for _, c := range coin.Commodities {
 		for _, p := range c.Prices {
-			sort.Slice(p, func(i, j int) bool {
+			sort.SliceStable(p, func(i, j int) bool {
 				return p[i].Time.After(p[j].Time)
 			})
 		}
 	}
-	sort.Slice(coin.Prices, func(i, j int) bool {
+	sort.SliceStable(coin.Prices, func(i, j int) bool {
 		return coin.Prices[i].Time.Before(coin.Prices[j].Time)
 	})
 }
diff --git a/gnucash/transaction.go b/gnucash/transaction.go
index 9465147..749ce13 100644
--- a/gnucash/transaction.go
+++ b/gnucash/transaction.go
@@ -76,12 +76,12 @@ func resolveTransactions(transactions []*Transaction) {
 		coin.Transactions = append(coin.Transactions, t)
 	}
 	for _, a := range AccountsByGuid {
-		sort.Slice(a.Postings, func(i, j int) bool {
+		sort.SliceStable(a.Postings, func(i, j int) bool {
 			return a.Postings[i].Transaction.Posted.Before(a.Postings[j].Transaction.Posted)
 		})
 		a.CheckPostings()
 	}
-	sort.Slice(coin.Transactions, func(i, j int) bool {
+	sort.SliceStable(coin.Transactions, func(i, j int) bool {
 		return coin.Transactions[i].Posted.Before(coin.Transactions[j].Posted)
 	})
 }
-- 
2.43.0


From 496dd7650d7899933a2f1ac110734412f11ed2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:36 +0000
Subject: [PATCH 50/63] fix: do not crash on a GnuCash online_id without an
 account number

---
 gnucash/account.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gnucash/account.go b/gnucash/account.go
index 6e1dffd..ff14038 100644
--- a/gnucash/account.go
+++ b/gnucash/account.go
@@ -101,9 +101,10 @@ func resolveAccounts(accounts []*Account) {
 			a.Commodity = coin.DefaultCommodity()
 		}
 		if online_id := gca.slot("online_id"); online_id != "" {
-			ids := gc_online_id.FindStringSubmatch(online_id)
-			a.OFXBankId = ids[2]
-			a.OFXAcctId = ids[3]
+			if ids := gc_online_id.FindStringSubmatch(online_id); ids != nil {
+				a.OFXBankId = ids[2]
+				a.OFXAcctId = ids[3]
+			}
 		}
 	}
 	// Link parents and children.
-- 
2.43.0


From b85dcf18da0c84617092d65163e652f865c1ace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:36 +0000
Subject: [PATCH 51/63] fix: generate transactions of a period starting on the
 last day of the range

The range includes its end, but a week or month starting on that very day was
left out.
---
 cmd/gen2coin/dates.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/gen2coin/dates.go b/cmd/gen2coin/dates.go
index c144923..ebcdf9f 100644
--- a/cmd/gen2coin/dates.go
+++ b/cmd/gen2coin/dates.go
@@ -33,7 +33,7 @@ func weekly(count int, interval int, days ...time.Weekday) dateGen {
 		if interval < 1 {
 			interval = 1
 		}
-		for current.Before(end) {
+		for !current.After(end) {
 			picks := days
 			if count < len(picks) {
 				// random picks, each day can only be picked once
@@ -73,7 +73,7 @@ func monthly(count int, interval int, days ...int) dateGen {
 		if interval < 1 {
 			interval = 1
 		}
-		for current.Before(end) {
+		for !current.After(end) {
 			picks := days
 			if len(picks) == 0 {
 				_, _, nDays := current.AddDate(0, 1, -1).Date()
-- 
2.43.0


From af05a068bc68e0db8c685c2059fed270d8ea9341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:36 +0000
Subject: [PATCH 52/63] fix: weekly dates are in order when the days of the
 week are not

---
 cmd/gen2coin/dates.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/gen2coin/dates.go b/cmd/gen2coin/dates.go
index ebcdf9f..0bcf48c 100644
--- a/cmd/gen2coin/dates.go
+++ b/cmd/gen2coin/dates.go
@@ -48,8 +48,10 @@ func weekly(count int, interval int, days ...time.Weekday) dateGen {
 					candidates = candidates[:len(candidates)-1]
 					picks = append(picks, pick)
 				}
-				sort.Slice(picks, func(i, j int) bool { return picks[i] < picks[j] })
+			} else {
+				picks = append([]time.Weekday(nil), picks...)
 			}
+			sort.Slice(picks, func(i, j int) bool { return picks[i] < picks[j] })
 			for _, pick := range picks {
 				pick := current.AddDate(0, 0, int(pick))
 				if !(end.Before(pick) || pick.Before(begin)) {
-- 
2.43.0


From 43302e60b22ad3623063a2a524aff52fe4dd42a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:38 +0000
Subject: [PATCH 53/63] fix: show postings of transactions without an opposite
 posting in the viewer

---
 cmd/coin2html/js/src/account.ts       | 15 ++++++++-------
 cmd/coin2html/js/src/viewsRegister.ts |  4 ++--
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/cmd/coin2html/js/src/account.ts b/cmd/coin2html/js/src/account.ts
index 38af2b9..5546e6a 100644
--- a/cmd/coin2html/js/src/account.ts
+++ b/cmd/coin2html/js/src/account.ts
@@ -172,14 +172,15 @@ export class Transaction {
   }
   // return the other posting in this transaction
   // less clear in multi-posting transactions
-  // return first posting that isn't notThis and has the opposite sign
-  other(notThis: Posting): Posting {
+  // return first posting that isn't notThis and has the opposite sign,
+  // if there is none (e.g. exchange of commodities), just the first one that isn't notThis
+  other(notThis: Posting): Posting | undefined {
     const notThisSign = notThis.quantity.sign;
-    for (const p of this.postings) {
-      if (p != notThis && (p.quantity.sign != notThisSign || notThisSign == 0))
-        return p;
-    }
-    throw new Error(`No other posting? ${notThis}`);
+    const others = this.postings.filter((p) => p != notThis);
+    return (
+      others.find((p) => p.quantity.sign != notThisSign || notThisSign == 0) ??
+      others[0]
+    );
   }
 }
 
diff --git a/cmd/coin2html/js/src/viewsRegister.ts b/cmd/coin2html/js/src/viewsRegister.ts
index a7b8836..f595328 100644
--- a/cmd/coin2html/js/src/viewsRegister.ts
+++ b/cmd/coin2html/js/src/viewsRegister.ts
@@ -255,7 +255,7 @@ export function renderPostings(
       const values = [
         [dateToString(p.transaction.posted), "date"],
         [p.transaction.description, "text"],
-        [p.transaction.other(p).account, "account"],
+        [p.transaction.other(p)?.account ?? "", "account"],
         [p.quantity, "amount"],
         [p.balance, "amount"],
         [Amount.clone(total), "amount"],
@@ -339,7 +339,7 @@ export function renderPostingsWithSubAccounts(
         [dateToString(p.transaction.posted), "date"],
         [p.transaction.description, "text"],
         [shortenAccountName(account.relativeName(p.account), 30), "account"],
-        [p.transaction.other(p).account, "account"],
+        [p.transaction.other(p)?.account ?? "", "account"],
         [p.quantity, "amount"],
         [Amount.clone(total), "amount"],
       ];
-- 
2.43.0


From 94733d1f5daba4ed70b00a1c000368bbd526be3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:38 +0000
Subject: [PATCH 54/63] fix: show the cumulative total in the Cum.Total column
 with sub-accounts

---
 cmd/coin2html/js/src/viewsRegister.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/coin2html/js/src/viewsRegister.ts b/cmd/coin2html/js/src/viewsRegister.ts
index f595328..e86a177 100644
--- a/cmd/coin2html/js/src/viewsRegister.ts
+++ b/cmd/coin2html/js/src/viewsRegister.ts
@@ -188,7 +188,7 @@ function viewRegisterAggregatedWithSubAccounts(
       columns.unshift([row[0], (g) => dateToString(g.date), "date"]);
       // append total correctly
       if (options.aggregatedTotal)
-        columns.push([total, (g) => balanceOrSum(g).toString(), "amount"]);
+        columns.push([total, (g) => g.total.toString(), "amount"]);
       return columns;
     })
     .join("td")
-- 
2.43.0


From b34a65127077e5d54da92e93b2499b58dbc66264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:38 +0000
Subject: [PATCH 55/63] fix: do not drop accounts named Root from the viewer

---
 cmd/coin2html/js/src/account.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/coin2html/js/src/account.ts b/cmd/coin2html/js/src/account.ts
index 5546e6a..a1a6f47 100644
--- a/cmd/coin2html/js/src/account.ts
+++ b/cmd/coin2html/js/src/account.ts
@@ -221,7 +221,7 @@ export const Roots: Account[] = [];
 export function loadAccounts(source: string) {
   const importedAccounts = JSON.parse(source) as importedAccounts;
   for (const impAccount of Object.values(importedAccounts)) {
-    if (impAccount.name == "Root") continue;
+    if (impAccount.fullName == "Root") continue;
     const parent = Accounts[impAccount.parent];
     const account = new Account(
       impAccount.name,
-- 
2.43.0


From 8f1908ab289bd18dd7c5bdc57c69188a62d1ca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:57 +0000
Subject: [PATCH 56/63] fix: include partial periods and carried over balances
 in aggregated views

---
 cmd/coin2html/js/src/account.ts               |  4 +--
 cmd/coin2html/js/src/utils.ts                 | 36 ++++++++++++-------
 .../js/src/viewsAggregatedRegisterChart.ts    |  5 +--
 cmd/coin2html/js/src/viewsRegister.ts         |  3 +-
 4 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/cmd/coin2html/js/src/account.ts b/cmd/coin2html/js/src/account.ts
index a1a6f47..284ba20 100644
--- a/cmd/coin2html/js/src/account.ts
+++ b/cmd/coin2html/js/src/account.ts
@@ -69,8 +69,6 @@ export class Account {
       );
   }
   withAllChildPostingGroups(
-    from: Date,
-    to: Date,
     groupKey: d3.TimeInterval,
     exclude: Account[] = [],
   ): AccountPostingGroups[] {
@@ -81,7 +79,7 @@ export class Account {
     return accounts.map((acc) => ({
       account: acc,
       groups: groupBy(
-        trimToDateRange(acc.postings, from, to),
+        acc.postings,
         groupKey,
         (p) => p.transaction.posted,
         acc.commodity,
diff --git a/cmd/coin2html/js/src/utils.ts b/cmd/coin2html/js/src/utils.ts
index 19c5920..a58b7a0 100644
--- a/cmd/coin2html/js/src/utils.ts
+++ b/cmd/coin2html/js/src/utils.ts
@@ -38,6 +38,15 @@ export function balanceOrSum(g: PostingGroup) {
     : g.balance;
 }
 
+// start dates of all the periods overlapping the selected date range (inclusive)
+export function periods(groupBy: d3.TimeInterval): Date[] {
+  return groupBy.range(
+    groupBy.floor(State.StartDate),
+    new Date(State.EndDate.getTime() + 1),
+  );
+}
+
+// group (all) postings of an account that fall into the selected date range
 export function groupBy(
   postings: Posting[],
   groupBy: d3.TimeInterval,
@@ -45,15 +54,19 @@ export function groupBy(
   commodity: Commodity,
 ): PostingGroup[] {
   const groups = new Map<string, Posting[]>();
-  for (const p of postings) {
+  // the initial balance is carried over from before the date range
+  const before = postings.findLast((p) => date(p) < State.StartDate);
+  for (const p of trimToDateRange(postings, State.StartDate, State.EndDate)) {
     const k = dateToString(groupBy(date(p)));
     const group = groups.get(k);
     group ? group.push(p) : groups.set(k, [p]);
   }
   const data: PostingGroup[] = [];
   const total = new Amount(0, commodity);
-  let balance = new Amount(0, commodity);
-  return groupBy.range(State.StartDate, State.EndDate).map((date) => {
+  let balance = before
+    ? Amount.clone(before.balance)
+    : new Amount(0, commodity);
+  return periods(groupBy).map((date) => {
     let postings = groups.get(dateToString(date));
     const sum = new Amount(0, commodity);
     if (!postings || postings.length == 0) {
@@ -127,20 +140,17 @@ export function groupByWithSubAccounts(
   const opts = { negated: false, exclude: [] }; // default
   Object.assign(opts, options);
   // get all account group lists
-  const groups = account.withAllChildPostingGroups(
-    State.StartDate,
-    State.EndDate,
-    groupKey,
-    opts.exclude,
-  );
+  const groups = account.withAllChildPostingGroups(groupKey, opts.exclude);
   // compute average for each account
   const averages = groups.map((g, i) => {
-    const lastGroup = last(g.groups)!;
+    const lastGroup = last(g.groups);
     return {
       index: i,
-      avg:
-        account.commodity.convert(lastGroup.total, lastGroup.date).toNumber() /
-        g.groups.length,
+      avg: lastGroup
+        ? account.commodity
+            .convert(lastGroup.total, lastGroup.date)
+            .toNumber() / g.groups.length
+        : 0,
     };
   });
   // sort by average and pick top accounts
diff --git a/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts b/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
index be06439..83a86b8 100644
--- a/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
+++ b/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
@@ -13,6 +13,7 @@ import {
 } from "./views";
 import {
   groupByWithSubAccounts,
+  periods,
   PostingGroup,
   shortenAccountName,
 } from "./utils";
@@ -40,7 +41,7 @@ export function viewAggregatedRegisterChart(options?: {
   addExcludedSubAccountsSpan(containerSelector, account);
 
   const groupKey = Aggregation[State.View.Aggregate] as d3.TimeInterval;
-  const dates = groupKey.range(State.StartDate, State.EndDate);
+  const dates = periods(groupKey);
   const maxAccounts = State.View.AggregatedSubAccountMax;
   const accountGroups = groupByWithSubAccounts(
     account,
@@ -99,7 +100,7 @@ export function viewAggregatedRegisterChart(options?: {
     .attr("transform", "translate(" + margin.left + "," + margin.top + ")");
 
   var x = scaleLinear([0, max], [0, width]).nice();
-  var y = scaleTime([State.StartDate, State.EndDate], [0, height]);
+  var y = scaleTime([dates[0] ?? State.StartDate, State.EndDate], [0, height]);
   var z = scaleOrdinal([0, maxAccounts], schemeCategory10);
   var xAxis = axisTop(x);
   var yAxis = axisLeft(y).ticks(groupKey, "%Y/%m/%d");
diff --git a/cmd/coin2html/js/src/viewsRegister.ts b/cmd/coin2html/js/src/viewsRegister.ts
index e86a177..05d42e2 100644
--- a/cmd/coin2html/js/src/viewsRegister.ts
+++ b/cmd/coin2html/js/src/viewsRegister.ts
@@ -21,6 +21,7 @@ import {
   groupBy,
   groupByWithSubAccounts,
   last,
+  periods,
   PostingGroup,
   shortenAccountName,
   trimToDateRange,
@@ -121,7 +122,7 @@ function viewRegisterAggregatedWithSubAccounts(
     exclude: Account[];
   },
 ) {
-  const dates = groupKey.range(State.StartDate, State.EndDate);
+  const dates = periods(groupKey);
   const groups = groupByWithSubAccounts(
     account,
     groupKey,
-- 
2.43.0


From 7c4505ebcc775868036daec94bc9eac52fa81d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:15 +0000
Subject: [PATCH 57/63] fix: the viewer shows the same dates in every time zone

---
 cmd/coin2html/js/src/account.ts                      |  9 +++++----
 cmd/coin2html/js/src/commodity.ts                    | 12 ++++++------
 cmd/coin2html/js/src/ui.ts                           |  4 ++--
 cmd/coin2html/js/src/utils.ts                        |  6 ++++++
 cmd/coin2html/js/src/views.ts                        | 10 +++++-----
 cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts |  4 ++--
 6 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/cmd/coin2html/js/src/account.ts b/cmd/coin2html/js/src/account.ts
index 284ba20..7349019 100644
--- a/cmd/coin2html/js/src/account.ts
+++ b/cmd/coin2html/js/src/account.ts
@@ -5,6 +5,7 @@ import {
   AccountPostingGroups,
   dateToString,
   groupBy,
+  parseDate,
   trimToDateRange,
 } from "./utils";
 
@@ -226,7 +227,7 @@ export function loadAccounts(source: string) {
       impAccount.fullName,
       Commodity.find(impAccount.commodity),
       parent,
-      impAccount.closed ? new Date(impAccount.closed) : undefined,
+      impAccount.closed ? parseDate(impAccount.closed) : undefined,
       impAccount.location,
     );
     Accounts[account.fullName] = account;
@@ -239,7 +240,7 @@ export function loadAccounts(source: string) {
 export function loadTransactions(source: string) {
   const importedTransactions = JSON.parse(source) as importedTransactions;
   for (const impTransaction of Object.values(importedTransactions)) {
-    const posted = new Date(impTransaction.posted);
+    const posted = parseDate(impTransaction.posted);
     if (posted < MinDate) MinDate = posted;
     if (MaxDate < posted) MaxDate = posted;
     const transaction = new Transaction(
@@ -267,6 +268,6 @@ export function loadTransactions(source: string) {
       );
     }
   }
-  MinDate = new Date(MinDate.getFullYear(), 0, 1);
-  MaxDate = new Date(MaxDate.getFullYear(), 11, 31);
+  MinDate = new Date(Date.UTC(MinDate.getUTCFullYear(), 0, 1));
+  MaxDate = new Date(Date.UTC(MaxDate.getUTCFullYear(), 11, 31));
 }
diff --git a/cmd/coin2html/js/src/commodity.ts b/cmd/coin2html/js/src/commodity.ts
index 64c0895..93b7dd9 100644
--- a/cmd/coin2html/js/src/commodity.ts
+++ b/cmd/coin2html/js/src/commodity.ts
@@ -1,6 +1,6 @@
-import { scaleTime } from "d3-scale";
-import { timeWeek } from "d3-time";
-import { dateToString, last } from "./utils";
+import { scaleUtc } from "d3-scale";
+import { utcWeek } from "d3-time";
+import { dateToString, last, parseDate } from "./utils";
 
 // Commodity, Amount and Price
 
@@ -19,7 +19,7 @@ export function newConversion(knownPrices: Price[]): Conversion {
     throw new Error("cannot create conversion from empty price list");
   const from = knownPrices[0].date;
   const to = last(knownPrices)!.date;
-  const dates = timeWeek.range(from, to);
+  const dates = utcWeek.range(from, to);
   const params = {
     from: knownPrices[0].commodity,
     to: knownPrices[0].value.commodity,
@@ -31,7 +31,7 @@ export function newConversion(knownPrices: Price[]): Conversion {
     return Object.assign((d: Date) => knownPrices[0], params);
   }
   // scale from dates to the index of the week in the date range
-  const scale = scaleTime([from, to], [0, dates.length - 1]).clamp(true);
+  const scale = scaleUtc([from, to], [0, dates.length - 1]).clamp(true);
   // generate array of weekly prices
   let cpi = 0;
   const weeklyPrices = dates.map((d) => {
@@ -339,7 +339,7 @@ export function loadPrices(source: string) {
       }
       const price = new Price(
         commodity,
-        new Date(imported.time),
+        parseDate(imported.time),
         amount,
         imported.location
       );
diff --git a/cmd/coin2html/js/src/ui.ts b/cmd/coin2html/js/src/ui.ts
index 2d4fe01..bcd7e70 100644
--- a/cmd/coin2html/js/src/ui.ts
+++ b/cmd/coin2html/js/src/ui.ts
@@ -34,8 +34,8 @@ function initializeUI() {
   State.EndDate = MaxDate;
   State.ShowClosedAccounts = false;
 
-  const minDate = dateToString(new Date(MinDate.getFullYear(), 1, 1));
-  const maxDate = dateToString(new Date(MaxDate.getFullYear() + 1, 1, 1));
+  const minDate = dateToString(new Date(Date.UTC(MinDate.getUTCFullYear(), 0, 1)));
+  const maxDate = dateToString(new Date(Date.UTC(MaxDate.getUTCFullYear() + 1, 0, 1)));
   select(EndDateInput)
     .property("valueAsDate", State.EndDate)
     .property("min", minDate)
diff --git a/cmd/coin2html/js/src/utils.ts b/cmd/coin2html/js/src/utils.ts
index a58b7a0..0e6b4ed 100644
--- a/cmd/coin2html/js/src/utils.ts
+++ b/cmd/coin2html/js/src/utils.ts
@@ -2,6 +2,12 @@ import { Account, Posting } from "./account";
 import { Amount, Commodity } from "./commodity";
 import { AggregationStyle, State } from "./views";
 
+// Dates are handled in UTC everywhere, so that they are the same in every time zone.
+// parse 2010/01/01 or 2010-01-01
+export function parseDate(date: string): Date {
+  return new Date(date.replace(/\//g, "-"));
+}
+
 export function dateToString(date: Date): string {
   return date.toISOString().split("T")[0];
 }
diff --git a/cmd/coin2html/js/src/views.ts b/cmd/coin2html/js/src/views.ts
index c42468b..9d4d4a4 100644
--- a/cmd/coin2html/js/src/views.ts
+++ b/cmd/coin2html/js/src/views.ts
@@ -1,5 +1,5 @@
 import { select } from "d3-selection";
-import { timeMonth, timeWeek, timeYear } from "d3-time";
+import { utcMonth, utcWeek, utcYear } from "d3-time";
 import {
   renderPostings,
   renderPostingsWithSubAccounts,
@@ -13,10 +13,10 @@ import { viewBalancesChart } from "./viewsBalancesChart";
 
 export const Aggregation = {
   None: null,
-  Weekly: timeWeek,
-  Monthly: timeMonth,
-  Quarterly: timeMonth.every(3),
-  Yearly: timeYear,
+  Weekly: utcWeek,
+  Monthly: utcMonth,
+  Quarterly: utcMonth.every(3),
+  Yearly: utcYear,
 };
 
 export enum AggregationStyle {
diff --git a/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts b/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
index 83a86b8..fbed6b3 100644
--- a/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
+++ b/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
@@ -19,7 +19,7 @@ import {
 } from "./utils";
 import { Account } from "./account";
 import { axisLeft, axisTop } from "d3-axis";
-import { scaleLinear, scaleOrdinal, scaleTime } from "d3-scale";
+import { scaleLinear, scaleOrdinal, scaleUtc } from "d3-scale";
 import { schemeCategory10 } from "d3-scale-chromatic";
 import { select } from "d3-selection";
 
@@ -100,7 +100,7 @@ export function viewAggregatedRegisterChart(options?: {
     .attr("transform", "translate(" + margin.left + "," + margin.top + ")");
 
   var x = scaleLinear([0, max], [0, width]).nice();
-  var y = scaleTime([dates[0] ?? State.StartDate, State.EndDate], [0, height]);
+  var y = scaleUtc([dates[0] ?? State.StartDate, State.EndDate], [0, height]);
   var z = scaleOrdinal([0, maxAccounts], schemeCategory10);
   var xAxis = axisTop(x);
   var yAxis = axisLeft(y).ticks(groupKey, "%Y/%m/%d");
-- 
2.43.0


From a9c4ed44ff35bedb09625fdc406f9742e3c63403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:15 +0000
Subject: [PATCH 58/63] fix: the viewer shows at least one column of
 sub-accounts

---
 cmd/coin2html/js/src/views.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/coin2html/js/src/views.ts b/cmd/coin2html/js/src/views.ts
index 9d4d4a4..bda6e43 100644
--- a/cmd/coin2html/js/src/views.ts
+++ b/cmd/coin2html/js/src/views.ts
@@ -157,7 +157,11 @@ export function addSubAccountMaxInput(containerSelector: string) {
     .append("input")
     .on("change", (e, d) => {
       const input = e.currentTarget as HTMLInputElement;
-      State.View.AggregatedSubAccountMax = parseInt(input.value);
+      // there is always at least one column, the rest is combined in it
+      State.View.AggregatedSubAccountMax = Math.max(
+        1,
+        parseInt(input.value) || 1,
+      );
       updateView();
     })
     .attr("id", "subAccountMax")
-- 
2.43.0


From 13f81fe2e500b3957ef99807a895f857774d00ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:24 +0000
Subject: [PATCH 59/63] fix: only shorten locations that are under the current
 directory

---
 cmd/coin/postings.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/coin/postings.go b/cmd/coin/postings.go
index f70a10d..6713cef 100644
--- a/cmd/coin/postings.go
+++ b/cmd/coin/postings.go
@@ -17,9 +17,10 @@ func init() {
 }
 
 func trimLocation(loc string) string {
-	l := strings.TrimPrefix(loc, cwd)
-	if len(l) < len(loc) {
-		return "." + l
+	// only what is under the directory, not what is next to it
+	dir := strings.TrimSuffix(cwd, "/") + "/"
+	if l := strings.TrimPrefix(loc, dir); cwd != "" && len(l) < len(loc) {
+		return "./" + l
 	}
 	return loc
 }
-- 
2.43.0


From cafce18c049dc16d1fe2cdee6ca3277e684f9362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:24 +0000
Subject: [PATCH 60/63] fix: names of test files can contain colons

---
 cmd/coin/test.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/coin/test.go b/cmd/coin/test.go
index 49fa87a..f804205 100644
--- a/cmd/coin/test.go
+++ b/cmd/coin/test.go
@@ -127,10 +127,17 @@ func (cmd *cmdTest) execute(f io.Writer) {
 }
 
 func file(t *coin.Test) string {
-	file, _, _ := strings.Cut(t.Location(), ":")
+	file, _ := fileAndLine(t)
 	return file
 }
 
+// fileAndLine splits the location of the test; the name of the file can contain colons as well.
+func fileAndLine(t *coin.Test) (file, line string) {
+	loc := t.Location()
+	i := strings.LastIndex(loc, ":")
+	return loc[:i], loc[i+1:]
+}
+
 // assume ts are tests from the same file in the order in which they are in the file,
 // and all test have empty result in the file,
 // then write the results from the test commands into the file.
@@ -148,7 +155,7 @@ func updateTestFile(ts []*coin.Test) {
 	writer := bufio.NewWriter(tf)
 	line := 0
 	for i, t := range ts {
-		_, ln, _ := strings.Cut(t.Location(), ":")
+		_, ln := fileAndLine(t)
 		tLine, _ := strconv.Atoi(ln)
 
 		for ; line < tLine && scanner.Scan(); line++ {
-- 
2.43.0


From 707e2da89587069b8f39e680af719ad7c83e15a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:24 +0000
Subject: [PATCH 61/63] fix: special characters in the names of directories are
 no patterns or variables

---
 coin.go    |  4 ++--
 include.go | 15 ++++++++-------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/coin.go b/coin.go
index 5bc7d9c..48f4167 100644
--- a/coin.go
+++ b/coin.go
@@ -61,7 +61,7 @@ func MustFindCommodity(id string, location string) *Commodity {
 func LoadPrices() {
 	LoadFile(CommoditiesFile)
 	if _, err := os.Stat(PricesFile); os.IsNotExist(err) {
-		files, _ := filepath.Glob(filepath.Join(DB, "*.prices"))
+		files, _ := filepath.Glob(filepath.Join(literal.Replace(DB), "*.prices"))
 		for _, f := range files {
 			LoadFile(f)
 		}
@@ -74,7 +74,7 @@ func LoadAll() {
 	LoadPrices()
 	LoadFile(AccountsFile)
 	if _, err := os.Stat(TransactionsFile); os.IsNotExist(err) {
-		files, _ := filepath.Glob(filepath.Join(DB, "*.coin"))
+		files, _ := filepath.Glob(filepath.Join(literal.Replace(DB), "*.coin"))
 		for _, f := range files {
 			if f != CommoditiesFile && f != AccountsFile && f != PricesFile {
 				LoadFile(f)
diff --git a/include.go b/include.go
index ded8674..07600f7 100644
--- a/include.go
+++ b/include.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"strings"
 )
 
 // Include takes a path pattern that will be expanded into a list of files to include
@@ -46,14 +47,14 @@ func (i *Include) Location() string {
 //
 // Finally the path is passed to filepath.Glob to expand wildcards.
 func (i *Include) Files() ([]string, error) {
-	var resolved string
+	resolved := os.ExpandEnv(i.Path)
 	if i.Path[0] == '/' {
-		resolved = "." + i.Path
-	} else if i.Path[0] == '$' {
-		resolved = i.Path
-	} else {
-		resolved = filepath.Join(filepath.Dir(i.file), i.Path)
+		resolved = "." + resolved
+	} else if i.Path[0] != '$' {
+		resolved = filepath.Join(literal.Replace(filepath.Dir(i.file)), resolved)
 	}
-	resolved = os.ExpandEnv(resolved)
 	return filepath.Glob(resolved)
 }
+
+// literal makes the name of an actual directory match itself when it is a part of a glob pattern.
+var literal = strings.NewReplacer("*", "[*]", "?", "[?]", "[", "[[]")
-- 
2.43.0


From 78d0e3d974da946253b25609ead913d5f7464551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:16 +0000
Subject: [PATCH 62/63] fix: samples generated up to today include today

---
 cmd/gen2coin/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/gen2coin/main.go b/cmd/gen2coin/main.go
index 49ead3f..0c1cef4 100644
--- a/cmd/gen2coin/main.go
+++ b/cmd/gen2coin/main.go
@@ -55,7 +55,9 @@ func main() {
 	}
 	end := end.Time
 	if end.IsZero() {
-		end = time.Now()
+		// the whole day, like a date on the command line
+		y, m, d := time.Now().Date()
+		end = time.Date(y, m, d, 12, 0, 0, 0, time.UTC)
 	}
 	begin := begin.Time
 	if begin.IsZero() {
-- 
2.43.0


From caa7344ebe7aa72f5a049b0eae248d999f1c262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:34 +0000
Subject: [PATCH 63/63] fix: keep the declaration of an account named
 Unbalanced

---
 coin.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/coin.go b/coin.go
index 48f4167..23323f3 100644
--- a/coin.go
+++ b/coin.go
@@ -170,8 +170,11 @@ func ResolveAccounts() {
 		}
 	}
 	if Unbalanced == nil {
-		Unbalanced = accountFromName("Unbalanced")
-		AccountsByName["Unbalanced"] = Unbalanced
+		Unbalanced = AccountsByName["Unbalanced"]
+		if Unbalanced == nil {
+			Unbalanced = accountFromName("Unbalanced")
+			AccountsByName["Unbalanced"] = Unbalanced
+		}
 	}
 
 	// create parents if missing
-- 
2.43.0

