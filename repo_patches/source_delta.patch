From ed509bfae82fbb33f7bdb1dfe365a56526831090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:07 +0000
Subject: [PATCH 01/56] fix: GetBalance before the first movement returned the
 balance after it

---
 accounting.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index 002612c..1ac5458 100644
--- a/accounting.go
+++ b/accounting.go
@@ -319,11 +319,14 @@ func (a Account) FullName() string {
 // If passed the zero value, it gets the current balance.
 func (l *Ledger) GetBalance(account *Account, when time.Time) Balance {
 	if len(account.Splits) == 0 {
-		return nil
+		return account.StartBalance
 	}
 	if (when == time.Time{}) {
 		return account.Splits[len(account.Splits)-1].Balance
 	}
+	if account.Splits[0].Time.After(when) {
+		return account.StartBalance
+	}
 	for i := 1; i < len(account.Splits); i++ {
 		if account.Splits[i].Time.After(when) {
 			return account.Splits[i-1].Balance
-- 
2.43.0


From 020311e3b0def23948289d0ffe23fdad8b0c757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:42 +0000
Subject: [PATCH 02/56] fix: Clone lost the comments and every currency not
 listed in the ledger

---
 accounting.go | 46 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/accounting.go b/accounting.go
index 1ac5458..83fbb2e 100644
--- a/accounting.go
+++ b/accounting.go
@@ -192,6 +192,15 @@ func (l *Ledger) Clone() *Ledger {
 		mapPrices[p] = new(Price)
 	}
 
+	// Some currencies (for example, the one without a name) are not in l.Currencies.
+	cloneCurrency := func(c *Currency) *Currency {
+		if c != nil && mapCurrencies[c] == nil {
+			mapCurrencies[c] = new(Currency)
+			*mapCurrencies[c] = *c
+		}
+		return mapCurrencies[c]
+	}
+
 	res := new(Ledger)
 	res.connection = l.connection
 	res.Accounts = make([]*Account, len(l.Accounts))
@@ -214,7 +223,7 @@ func (l *Ledger) Clone() *Ledger {
 		na.StartBalance = make([]Value, len(a.StartBalance))
 		for k, v := range a.StartBalance {
 			na.StartBalance[k].Amount = v.Amount
-			na.StartBalance[k].Currency = mapCurrencies[v.Currency]
+			na.StartBalance[k].Currency = cloneCurrency(v.Currency)
 		}
 	}
 	res.Transactions = make([]*Transaction, len(l.Transactions))
@@ -241,11 +250,11 @@ func (l *Ledger) Clone() *Ledger {
 				*ns.Time = *s.Time
 			}
 			ns.Value.Amount = s.Value.Amount
-			ns.Value.Currency = mapCurrencies[s.Value.Currency]
+			ns.Value.Currency = cloneCurrency(s.Value.Currency)
 			ns.Balance = make([]Value, len(s.Balance))
 			for k, v := range s.Balance {
 				ns.Balance[k].Amount = v.Amount
-				ns.Balance[k].Currency = mapCurrencies[v.Currency]
+				ns.Balance[k].Currency = cloneCurrency(v.Currency)
 			}
 		}
 	}
@@ -268,23 +277,42 @@ func (l *Ledger) Clone() *Ledger {
 		res.Prices[i] = np
 		np.ID = p.ID
 		np.Time = p.Time
-		np.Currency = mapCurrencies[p.Currency]
+		np.Currency = cloneCurrency(p.Currency)
 		np.Value.Amount = p.Value.Amount
-		np.Value.Currency = mapCurrencies[p.Value.Currency]
+		np.Value.Currency = cloneCurrency(p.Value.Currency)
 	}
 	res.Comments = make(map[interface{}][]string)
-	// TODO: Comments are not deep-copied (I have to deal with interface{})
+	for where, comments := range l.Comments {
+		var found bool
+		switch x := where.(type) {
+		case *Account:
+			where, found = mapAccounts[x], mapAccounts[x] != nil
+		case *Transaction:
+			where, found = mapTransactions[x], mapTransactions[x] != nil
+		case *Split:
+			where, found = mapSplits[x], mapSplits[x] != nil
+		case *Currency:
+			where, found = cloneCurrency(x), x != nil
+		case *Price:
+			where, found = mapPrices[x], mapPrices[x] != nil
+		default:
+			found = true
+		}
+		if found {
+			res.Comments[where] = append([]string(nil), comments...)
+		}
+	}
 	res.Assertions = make(map[*Split]Value)
 	for s, v := range l.Assertions {
-		v.Currency = mapCurrencies[v.Currency]
+		v.Currency = cloneCurrency(v.Currency)
 		res.Assertions[mapSplits[s]] = v
 	}
 	res.SplitPrices = make(map[*Split]Value)
 	for s, v := range l.SplitPrices {
-		v.Currency = mapCurrencies[v.Currency]
+		v.Currency = cloneCurrency(v.Currency)
 		res.SplitPrices[mapSplits[s]] = v
 	}
-	res.DefaultCurrency = mapCurrencies[l.DefaultCurrency]
+	res.DefaultCurrency = cloneCurrency(l.DefaultCurrency)
 
 	return res
 }
-- 
2.43.0


From 8afd1c740d3c79ba091cc8939eefa5c133093d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 03/56] fix: all the ledgers in a process shared one transfer
 account

---
 accounting.go | 31 +++++++++++++++++++++----------
 types.go      |  4 +++-
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/accounting.go b/accounting.go
index 83fbb2e..f9e1117 100644
--- a/accounting.go
+++ b/accounting.go
@@ -226,6 +226,7 @@ func (l *Ledger) Clone() *Ledger {
 			na.StartBalance[k].Currency = cloneCurrency(v.Currency)
 		}
 	}
+	res.transferAccount = mapAccounts[l.transferAccount]
 	res.Transactions = make([]*Transaction, len(l.Transactions))
 	for i, t := range l.Transactions {
 		nt := mapTransactions[t]
@@ -622,8 +623,18 @@ func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, er
 	return prevValue, nil
 }
 
+// TransferAccount returns the account this ledger uses (if needed) for the transactions
+// which have two or more splits with different times.
+func (l *Ledger) TransferAccount() *Account {
+	return l.transferAccount
+}
+
 // Fill re-calculates all the automatic fields in all the accounting data.
 func (l *Ledger) Fill() error {
+	if l.transferAccount == nil {
+		l.transferAccount = new(Account)
+		*l.transferAccount = TransferAccount
+	}
 	for _, a := range l.Accounts {
 		a.Splits = nil
 		a.Children = nil
@@ -650,7 +661,7 @@ func (l *Ledger) Fill() error {
 				break
 			}
 			l.Transactions[i].Splits[j].Balance = nil
-			if l.Transactions[i].Splits[j].Account == &TransferAccount {
+			if l.Transactions[i].Splits[j].Account == l.transferAccount {
 				l.Transactions[i].Splits[j] = l.Transactions[i].Splits[len(l.Transactions[i].Splits)-1]
 				l.Transactions[i].Splits = l.Transactions[i].Splits[:len(l.Transactions[i].Splits)-1]
 			}
@@ -838,17 +849,17 @@ func (l *Ledger) Fill() error {
 
 	// Create fake splits in transactions with different times.
 	for i := range l.Accounts {
-		if l.Accounts[i] == &TransferAccount {
+		if l.Accounts[i] == l.transferAccount {
 			goto transferAlreadyInAccounts
 		}
 	}
-	l.Accounts = append(l.Accounts, &TransferAccount)
+	l.Accounts = append(l.Accounts, l.transferAccount)
 transferAlreadyInAccounts:
 	for i := range l.Transactions {
 		for j := range l.Transactions[i].Splits {
 			if l.Transactions[i].Splits[j].Time != &l.Transactions[i].Time {
 				split1 := &Split{
-					Account:     &TransferAccount,
+					Account:     l.transferAccount,
 					Transaction: l.Transactions[i],
 					Time:        l.Transactions[i].Splits[j].Time,
 					Value: Value{
@@ -857,7 +868,7 @@ transferAlreadyInAccounts:
 					},
 				}
 				split2 := &Split{
-					Account:     &TransferAccount,
+					Account:     l.transferAccount,
 					Transaction: l.Transactions[i],
 					Time:        &l.Transactions[i].Time,
 					Value: Value{
@@ -867,17 +878,17 @@ transferAlreadyInAccounts:
 				}
 				l.Transactions[i].Splits = append(l.Transactions[i].Splits, split1)
 				l.Transactions[i].Splits = append(l.Transactions[i].Splits, split2)
-				TransferAccount.Splits = append(TransferAccount.Splits, split1)
-				TransferAccount.Splits = append(TransferAccount.Splits, split2)
+				l.transferAccount.Splits = append(l.transferAccount.Splits, split1)
+				l.transferAccount.Splits = append(l.transferAccount.Splits, split2)
 			}
 		}
 	}
-	sort.SliceStable(TransferAccount.Splits, func(i, j int) bool {
-		return TransferAccount.Splits[i].Time.Before(*TransferAccount.Splits[j].Time)
+	sort.SliceStable(l.transferAccount.Splits, func(i, j int) bool {
+		return l.transferAccount.Splits[i].Time.Before(*l.transferAccount.Splits[j].Time)
 	})
 
 	var b Balance
-	for _, s := range TransferAccount.Splits {
+	for _, s := range l.transferAccount.Splits {
 		b.Add(s.Value)
 		s.Balance = b.Dup()
 	}
diff --git a/types.go b/types.go
index f306178..6151ce0 100644
--- a/types.go
+++ b/types.go
@@ -16,6 +16,7 @@ type Ledger struct {
 	Assertions      map[*Split]Value         // Value that should be in an account after one split.
 	SplitPrices     map[*Split]Value         // Price for the value in a split, in another currency.
 	DefaultCurrency *Currency                // Default currency.
+	transferAccount *Account                 // Automatic account (see TransferAccount). Filled by Fill().
 	// Tags            map[interface{}][]Tag
 	// TagsByName      map[string][]struct {Value string; Place interface{}}
 }
@@ -62,7 +63,8 @@ type Account struct {
 }
 
 // TransferAccount is a special account used when a transaction has two or more splits with different times.
-// Ledger.Fill() automatically generates splits with this account.
+// Ledger.Fill() automatically generates splits with a copy of this account, different in every ledger
+// (see Ledger.TransferAccount).
 var TransferAccount Account = Account{
 	Name: "Assets:Transfer account",
 }
-- 
2.43.0


From 1984ca74e2c86a10e206601e0adf909160543399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 04/56] fix: wrong level in accounts listed before their
 parents

---
 accounting.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index f9e1117..30eff9e 100644
--- a/accounting.go
+++ b/accounting.go
@@ -641,7 +641,6 @@ func (l *Ledger) Fill() error {
 	}
 	for _, a := range l.Accounts {
 		if a.Parent != nil {
-			a.Level = a.Parent.Level + 1
 			a.Parent.Children = append(a.Parent.Children, a)
 		}
 	}
@@ -652,6 +651,12 @@ func (l *Ledger) Fill() error {
 		}
 	}
 	l.Accounts = newAccounts
+	for _, a := range l.Accounts {
+		a.Level = 0
+		if a.Parent != nil {
+			a.Level = a.Parent.Level + 1
+		}
+	}
 
 	// Remove splits with transferAccount, if any:
 	for i := range l.Transactions {
-- 
2.43.0


From 73aafb0a45ae9d045c4d05b6ee3df913de2eb7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 05/56] fix: Fill kept half of the old transfer splits when
 called again

---
 accounting.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/accounting.go b/accounting.go
index 30eff9e..562a0d5 100644
--- a/accounting.go
+++ b/accounting.go
@@ -660,17 +660,15 @@ func (l *Ledger) Fill() error {
 
 	// Remove splits with transferAccount, if any:
 	for i := range l.Transactions {
-		// TODO: this may be buggy!
+		var splits []*Split
 		for j := range l.Transactions[i].Splits {
-			if j >= len(l.Transactions[i].Splits) {
-				break
-			}
 			l.Transactions[i].Splits[j].Balance = nil
 			if l.Transactions[i].Splits[j].Account == l.transferAccount {
-				l.Transactions[i].Splits[j] = l.Transactions[i].Splits[len(l.Transactions[i].Splits)-1]
-				l.Transactions[i].Splits = l.Transactions[i].Splits[:len(l.Transactions[i].Splits)-1]
+				continue
 			}
+			splits = append(splits, l.Transactions[i].Splits[j])
 		}
+		l.Transactions[i].Splits = splits
 	}
 	sort.SliceStable(l.Transactions, func(i, j int) bool {
 		return l.Transactions[i].Time.Before(l.Transactions[j].Time)
-- 
2.43.0


From c07ba94873467e6c715c97ab7d8d01ac4e705cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:16 +0000
Subject: [PATCH 06/56] fix: no transfer is needed for a posting dated as its
 transaction

---
 accounting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index 562a0d5..938049d 100644
--- a/accounting.go
+++ b/accounting.go
@@ -860,7 +860,7 @@ func (l *Ledger) Fill() error {
 transferAlreadyInAccounts:
 	for i := range l.Transactions {
 		for j := range l.Transactions[i].Splits {
-			if l.Transactions[i].Splits[j].Time != &l.Transactions[i].Time {
+			if !l.Transactions[i].Splits[j].Time.Equal(l.Transactions[i].Time) {
 				split1 := &Split{
 					Account:     l.transferAccount,
 					Transaction: l.Transactions[i],
-- 
2.43.0


From 76a0376f049c2c902d84ccd72e19f9b78a42f3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:17 +0000
Subject: [PATCH 07/56] fix: assertions about a currency which the account does
 not hold

---
 accounting.go | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/accounting.go b/accounting.go
index 938049d..cbec07c 100644
--- a/accounting.go
+++ b/accounting.go
@@ -786,31 +786,19 @@ func (l *Ledger) Fill() error {
 				b.Add(s.Value)
 				s.Balance = b.Dup()
 				if a := l.Assertions[s]; a != (Value{}) {
-					if a.Amount == 0 && len(b) == 0 {
-						a = Value{}
-					} else if s.Value == (Value{}) && len(b) == 0 {
+					v := Value{Currency: a.Currency} // current balance in that currency
+					for i := range b {
+						if b[i].Currency == a.Currency {
+							v = b[i]
+						}
+					}
+					if s.Value == (Value{}) {
 						s.Value = a
-						s.Value.Amount = a.Amount
+						s.Value.Amount = a.Amount - v.Amount
 						b.Add(s.Value)
 						s.Balance.Add(s.Value)
-						a = Value{}
-					}
-					for _, v := range b {
-						if v.Currency == a.Currency {
-							if s.Value == (Value{}) {
-								s.Value = a
-								s.Value.Amount = a.Amount - v.Amount
-								b.Add(s.Value)
-								s.Balance.Add(s.Value)
-							} else if v.Amount != a.Amount {
-								return fmt.Errorf("%s: wrong assertion: %s != %s", s.ID, v, a)
-							}
-							a = Value{}
-							break
-						}
-					}
-					if a != (Value{}) {
-						return fmt.Errorf("%s: wrong assertion: %s", s.ID, a)
+					} else if v.Amount != a.Amount {
+						return fmt.Errorf("%s: wrong assertion: %s != %s", s.ID, v, a)
 					}
 				}
 			}
-- 
2.43.0


From e3340150828bfb8087e07bb45ce61956d99f070e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:07 +0000
Subject: [PATCH 08/56] fix: prices implied by postings came in random order,
 and a zero price or amount crashed

---
 accounting.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index cbec07c..96fd4fc 100644
--- a/accounting.go
+++ b/accounting.go
@@ -809,7 +809,16 @@ func (l *Ledger) Fill() error {
 	}
 
 	// Adding prices from splits
-	for s, v := range l.SplitPrices {
+	var pricedSplits []*Split
+	for _, t := range l.Transactions {
+		for _, s := range t.Splits {
+			if l.SplitPrices[s].Amount != 0 && s.Value.Amount != 0 {
+				pricedSplits = append(pricedSplits, s)
+			}
+		}
+	}
+	for _, s := range pricedSplits {
+		v := l.SplitPrices[s]
 		price := new(Price)
 		price.Time = *s.Time
 		price.Currency = s.Value.Currency
-- 
2.43.0


From d858fe0b3f17dd07882fb64f0526f2d796761426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 09/56] fix: automatic prices were duplicated by every Fill,
 and by every print and read

---
 accounting.go | 48 ++++++++++++++++++++++++++++++++++++++++--------
 types.go      |  1 +
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/accounting.go b/accounting.go
index 96fd4fc..9a7e8b5 100644
--- a/accounting.go
+++ b/accounting.go
@@ -282,6 +282,12 @@ func (l *Ledger) Clone() *Ledger {
 		np.Value.Amount = p.Value.Amount
 		np.Value.Currency = cloneCurrency(p.Value.Currency)
 	}
+	res.automaticPrices = make(map[*Price]bool)
+	for _, p := range l.Prices {
+		if l.automaticPrices[p] {
+			res.automaticPrices[mapPrices[p]] = true
+		}
+	}
 	res.Comments = make(map[interface{}][]string)
 	for where, comments := range l.Comments {
 		var found bool
@@ -658,6 +664,36 @@ func (l *Ledger) Fill() error {
 		}
 	}
 
+	// Remove automatic prices, if any:
+	var prices []*Price
+	knownPrices := make(map[Price]bool)
+	for _, p := range l.Prices {
+		if l.automaticPrices[p] {
+			delete(l.Comments, p)
+			continue
+		}
+		prices = append(prices, p)
+		knownPrices[Price{Time: p.Time.UTC(), Currency: p.Currency, Value: p.Value}] = true
+	}
+	l.Prices = prices
+	l.automaticPrices = make(map[*Price]bool)
+	if l.Comments == nil {
+		l.Comments = make(map[interface{}][]string)
+	}
+
+	// addAutomaticPrice adds a price implied by a transaction, unless its amount (i) is too big
+	// or there is already an identical one.
+	addAutomaticPrice := func(price *Price, i *big.Int) {
+		key := Price{Time: price.Time.UTC(), Currency: price.Currency, Value: price.Value}
+		if !i.IsInt64() || knownPrices[key] {
+			return
+		}
+		knownPrices[key] = true
+		l.automaticPrices[price] = true
+		l.Prices = append(l.Prices, price)
+		l.Comments[price] = append(l.Comments[price], "automatic")
+	}
+
 	// Remove splits with transferAccount, if any:
 	for i := range l.Transactions {
 		var splits []*Split
@@ -750,8 +786,7 @@ func (l *Ledger) Fill() error {
 				i.Quo(i, big.NewInt(balance[0].Amount))
 				price.Value.Amount = i.Int64()
 				price.Value.Currency = balance[1].Currency
-				l.Prices = append(l.Prices, price)
-				l.Comments[price] = append(l.Comments[price], "automatic")
+				addAutomaticPrice(price, i)
 				price = new(Price)
 				price.Time = transaction.Time
 				price.Currency = balance[1].Currency
@@ -760,8 +795,7 @@ func (l *Ledger) Fill() error {
 				i.Quo(i, big.NewInt(balance[1].Amount))
 				price.Value.Amount = i.Int64()
 				price.Value.Currency = balance[0].Currency
-				l.Prices = append(l.Prices, price)
-				l.Comments[price] = append(l.Comments[price], "automatic")
+				addAutomaticPrice(price, i)
 				deadlock = false
 				continue
 			}
@@ -827,8 +861,7 @@ func (l *Ledger) Fill() error {
 		i.Quo(i, big.NewInt(s.Value.Amount))
 		price.Value.Amount = i.Int64()
 		price.Value.Currency = v.Currency
-		l.Prices = append(l.Prices, price)
-		l.Comments[price] = append(l.Comments[price], "automatic")
+		addAutomaticPrice(price, i)
 
 		price = new(Price)
 		price.Time = *s.Time
@@ -838,8 +871,7 @@ func (l *Ledger) Fill() error {
 		i.Quo(i, big.NewInt(v.Amount))
 		price.Value.Amount = i.Int64()
 		price.Value.Currency = s.Value.Currency
-		l.Prices = append(l.Prices, price)
-		l.Comments[price] = append(l.Comments[price], "automatic")
+		addAutomaticPrice(price, i)
 	}
 
 	// This must be executed after all the balances
diff --git a/types.go b/types.go
index 6151ce0..54c9436 100644
--- a/types.go
+++ b/types.go
@@ -17,6 +17,7 @@ type Ledger struct {
 	SplitPrices     map[*Split]Value         // Price for the value in a split, in another currency.
 	DefaultCurrency *Currency                // Default currency.
 	transferAccount *Account                 // Automatic account (see TransferAccount). Filled by Fill().
+	automaticPrices map[*Price]bool          // Prices implied by transactions. Filled by Fill().
 	// Tags            map[interface{}][]Tag
 	// TagsByName      map[string][]struct {Value string; Place interface{}}
 }
-- 
2.43.0


From b0daa21b21e604da2834e1beec6683a9a38b1681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:55 +0000
Subject: [PATCH 10/56] fix: Convert never ended if prices have cycles, and
 missed longer ways

---
 accounting.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/accounting.go b/accounting.go
index 9a7e8b5..caf1c8a 100644
--- a/accounting.go
+++ b/accounting.go
@@ -557,6 +557,14 @@ func insertAccount(where *[]*Account, account *Account) {
 
 // Convert returns a value to another currency.
 func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, error) {
+	if currency == nil && v.Currency != nil {
+		return v, fmt.Errorf("could not convert %q to no currency", v)
+	}
+	return l.convert(v, when, currency, make(map[*Currency]bool))
+}
+
+// convert is like Convert, but never goes through the currencies in tried (and adds to it the ones it tries).
+func (l *Ledger) convert(v Value, when time.Time, currency *Currency, tried map[*Currency]bool) (Value, error) {
 	if v.Currency == currency {
 		//fmt.Printf("Convert(%s,%s,%s) = %s (1)\n", v, when.Format("2006-01-02"), currency.Name, v)
 		return v, nil
@@ -584,9 +592,10 @@ func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, er
 		nextValue = p.Value
 		break
 	}
-	if prevTime == (time.Time{}) && nextTime == (time.Time{}) { // no price match
+	tried[v.Currency] = true
+	for prevTime == (time.Time{}) && nextTime == (time.Time{}) { // no price match
 		for _, p := range l.Prices {
-			if p.Currency != v.Currency {
+			if p.Currency != v.Currency || tried[p.Value.Currency] {
 				continue
 			}
 			if p.Time.Before(when) {
@@ -604,11 +613,15 @@ func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, er
 			//fmt.Printf("Convert(%s,%s,%s) = %s (3)\n", v, when.Format("2006-01-02"), currency.Name, v)
 			return v, fmt.Errorf("could not convert %q to %q", v, currency.Name)
 		}
-		nv, err := l.Convert(v, when, prevValue.Currency)
-		if err != nil {
-			return nv, err
+		tried[prevValue.Currency] = true
+		nv, err := l.convert(v, when, prevValue.Currency, tried)
+		if err == nil {
+			nv, err = l.convert(nv, when, currency, tried)
+		}
+		if err == nil {
+			return nv, nil
 		}
-		return l.Convert(nv, when, currency)
+		prevTime = time.Time{} // nothing that way: try the next closest price
 	}
 	if nextTime == (time.Time{}) {
 		prevValue.Mul(v)
-- 
2.43.0


From bfa53623eacaced82e5ab67bc20b18673fec4c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:56 +0000
Subject: [PATCH 11/56] fix: GetString printed nonsense for the smallest amount

---
 accounting.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/accounting.go b/accounting.go
index caf1c8a..18c8fe2 100644
--- a/accounting.go
+++ b/accounting.go
@@ -81,12 +81,13 @@ func (value Value) GetString(full bool, units bool) string {
 			result += " "
 		}
 	}
+	amount := uint64(value.Amount)
 	if value.Amount < 0 {
 		result += "-"
-		value.Amount = -value.Amount
+		amount = -amount
 	}
-	i := value.Amount / U
-	d := value.Amount % U
+	i := amount / U
+	d := amount % U
 	if c.Decimal == "" { // shouldn't happen
 		c.Decimal = "."
 	}
-- 
2.43.0


From 69703f7c9d91d029d84a142e50e68a92bb07d9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:57 +0000
Subject: [PATCH 12/56] fix: amounts with a thousand sign after one or two
 digits were refused, and short last groups misread

---
 backend/ledger/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 1973619..fd1a87f 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -544,7 +544,7 @@ done2:
 		}
 		if value.Currency.Thousand == string(c) || (value.Currency.Thousand == "" && value.Currency.Decimal != "" && value.Currency.Decimal != string(c)) {
 			value.Currency.Thousand = string(c)
-			if (thousandPos == -1 && i > 3) || i-thousandPos != 4 || decimalPos > -1 {
+			if (thousandPos == -1 && i > 3) || (thousandPos > -1 && i-thousandPos != 4) || decimalPos > -1 {
 				return value, fmt.Errorf("syntax error: wrong position for thousand sign '%s'", value.Currency.Thousand), newCurrency
 			}
 			thousandPos = i
@@ -588,6 +588,9 @@ done2:
 	if punct != "" {
 		return value, fmt.Errorf("syntax error: punctuation '%s' can be a thousand or a decimal", punct), newCurrency
 	}
+	if thousandPos > -1 && decimalPos == -1 && len(sAmount)-thousandPos != 4 {
+		return value, fmt.Errorf("syntax error: wrong position for thousand sign '%s'", value.Currency.Thousand), newCurrency
+	}
 	shift := 0
 	if decimalPos == -1 {
 		shift = 8
-- 
2.43.0


From 76c7d219ca48c096b479fd4f43f6cf341e479936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:58 +0000
Subject: [PATCH 13/56] fix: amounts too big to be represented were silently
 misread

---
 backend/ledger/parser.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index fd1a87f..89f6f98 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"math/big"
 	"os"
 	"path"
@@ -405,6 +406,10 @@ func (l *ledgerConnection) readJournal() error {
 					k := big.NewInt(s.Value.Amount)
 					k.Mul(k, big.NewInt(value.Amount))
 					k.Quo(k, big.NewInt(accounting.U))
+					if !k.IsInt64() {
+						log.Printf("%s:%d: syntax error: total price too big\n", line.Filename, line.LineNum)
+						continue
+					}
 					value.Amount = k.Int64()
 				}
 				l.ledger.SplitPrices[s] = value
@@ -526,6 +531,9 @@ done2:
 	}
 	for i, c := range sAmount {
 		if c >= '0' && c <= '9' {
+			if value.Amount > (math.MaxInt64-int64(c-'0'))/10 {
+				return value, errors.New("syntax error: amount too big"), newCurrency
+			}
 			value.Amount *= 10
 			value.Amount += int64(c - '0')
 			continue
@@ -605,6 +613,9 @@ done2:
 		return value, fmt.Errorf("syntax error: too many decimal numbers"), newCurrency
 	}
 	for i := 0; i < shift; i++ {
+		if value.Amount > math.MaxInt64/10 {
+			return value, errors.New("syntax error: amount too big"), newCurrency
+		}
 		value.Amount *= 10
 	}
 	value.Amount *= sign
-- 
2.43.0


From f877eb4a5da1ac7c9c528cba06dbfcfd6898252b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 14/56] fix: "CHF 1'000.00" was read as 0 in currency "CHF 1'"

---
 backend/ledger/parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 89f6f98..13e05ba 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -14,6 +14,7 @@ import (
 	"strings"
 	"time"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/cespedes/accounting"
 )
@@ -478,8 +479,8 @@ func (l *ledgerConnection) getValue(s string) (accounting.Value, error, bool) {
 		// first currency, then amount
 		value.Currency.PrintBefore = true
 		for i := len(s) - 1; i >= 0; i-- {
-			if !strings.ContainsRune("-+0123456789.,_", rune(s[i])) {
-				if !unicode.IsSpace(rune(s[i])) {
+			if !strings.ContainsRune("-+0123456789.,_'", rune(s[i])) {
+				if r, _ := utf8.DecodeLastRuneInString(s[:i+1]); !unicode.IsSpace(r) {
 					value.Currency.WithoutSpace = true
 				}
 				sAmount = s[i+1:]
-- 
2.43.0


From 478142ecee6257f3e203f34226f26ba1666ebb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:00 +0000
Subject: [PATCH 15/56] fix: the format of a currency was ignored if its first
 appearance was as a price

---
 backend/ledger/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 13e05ba..3bbedf6 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -507,6 +507,10 @@ done:
 	} else {
 		for _, c := range l.ledger.Currencies {
 			if c.Name == value.Currency.Name {
+				if c.Decimal == "" { // this is the first amount we see in that currency
+					c.PrintBefore = value.Currency.PrintBefore
+					c.WithoutSpace = value.Currency.WithoutSpace
+				}
 				value.Currency = c
 				newCurrency = false
 				goto done2
@@ -515,6 +519,7 @@ done:
 		l.ledger.Currencies = append(l.ledger.Currencies, value.Currency)
 	}
 done2:
+	firstAmount := value.Currency.Decimal == ""
 	var sign int64 = 1
 	if sAmount[0] == '-' {
 		sign = -1
@@ -605,7 +610,7 @@ done2:
 		shift = 8
 	} else {
 		shift = len(sAmount) - decimalPos - 1
-		if newCurrency {
+		if firstAmount {
 			value.Currency.Precision = shift
 		}
 		shift = 8 - shift
-- 
2.43.0


From 8f5a8250bb12b9f74c60aa10899cf0fb380235d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:34 +0000
Subject: [PATCH 16/56] fix: a wrong line in a journal changed currencies,
 accounts and formats used by the other ones

---
 backend/ledger/parser.go | 58 +++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 3bbedf6..8ba98b0 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -268,6 +268,7 @@ func (l *ledgerConnection) readJournal() error {
 			if len(l.ledger.Prices) > 0 && l.ledger.Prices[len(l.ledger.Prices)-1].Time.After(price.Time) {
 				log.Fatalf("%s:%d: price is not chronologically sorted", line.Filename, line.LineNum)
 			}
+			undo := l.saveCurrencies()
 			currency, rest := firstWord(rest)
 			price.ID = &ID{filename: line.Filename, lineNum: line.LineNum}
 			var newCurrency bool
@@ -276,13 +277,14 @@ func (l *ledgerConnection) readJournal() error {
 				log.Printf("%s:%d undefined currency %s", line.Filename, line.LineNum, price.Currency.Name)
 			}
 			price.Value, err, newCurrency = l.getValue(rest)
-			if comment != "" {
-				l.addComment(&price, comment)
-			}
 			if err != nil {
+				undo()
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
 				continue
 			}
+			if comment != "" {
+				l.addComment(&price, comment)
+			}
 			if newCurrency {
 				log.Printf("%s:%d undefined currency %s", line.Filename, line.LineNum, price.Value.Currency.Name)
 			}
@@ -292,8 +294,10 @@ func (l *ledgerConnection) readJournal() error {
 		}
 		if !indented && word == "D" {
 			lastLine = lineDefaultCurrency
+			undo := l.saveCurrencies()
 			price, err, _ := l.getValue(rest)
 			if err != nil {
+				undo()
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
 				continue
 			}
@@ -302,8 +306,10 @@ func (l *ledgerConnection) readJournal() error {
 		}
 		if !indented && word == "commodity" {
 			lastLine = lineCommodity
+			undo := l.saveCurrencies()
 			_, err, _ := l.getValue(rest)
 			if err != nil {
+				undo()
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
 				continue
 			}
@@ -340,9 +346,7 @@ func (l *ledgerConnection) readJournal() error {
 			t := l.ledger.Transactions[len(l.ledger.Transactions)-1]
 			s := new(accounting.Split)
 			s.ID = &ID{filename: line.Filename, lineNum: line.LineNum}
-			if comment != "" {
-				l.addComment(s, comment)
-			}
+			undo := l.saveCurrencies()
 
 			var err error
 			var accountEnd int
@@ -350,6 +354,7 @@ func (l *ledgerConnection) readJournal() error {
 			var valueStart, valueEnd int
 			var priceStart, priceEnd int
 			var assertionStart, assertionEnd int
+			var price accounting.Value
 			if i := strings.Index(text, "  "); i > 0 {
 				accountEnd = i
 				hasValue = true
@@ -358,11 +363,6 @@ func (l *ledgerConnection) readJournal() error {
 			} else {
 				accountEnd = len(text)
 			}
-			var newAccount bool
-			s.Account, newAccount = l.getAccount(line.Filename, line.LineNum, text[:accountEnd])
-			if newAccount == true {
-				log.Printf("%s:%d undefined account %s", line.Filename, line.LineNum, s.Account.FullName())
-			}
 			if hasValue {
 				if i := strings.Index(text[valueStart:], "@@"); i > 0 {
 					valueEnd = valueStart + i
@@ -387,6 +387,7 @@ func (l *ledgerConnection) readJournal() error {
 				var newCurrency bool
 				s.Value, err, newCurrency = l.getValue(strings.TrimSpace(text[valueStart:valueEnd]))
 				if err != nil {
+					undo()
 					log.Printf("%s:%d: %s\n", line.Filename, line.LineNum, err.Error())
 					continue
 				}
@@ -397,6 +398,7 @@ func (l *ledgerConnection) readJournal() error {
 			if hasPriceRel || hasPriceAbs {
 				value, err, newCurrency := l.getValue(strings.TrimSpace(text[priceStart:priceEnd]))
 				if err != nil {
+					undo()
 					log.Printf("%s:%d: %s\n", line.Filename, line.LineNum, err.Error())
 					continue
 				}
@@ -408,16 +410,18 @@ func (l *ledgerConnection) readJournal() error {
 					k.Mul(k, big.NewInt(value.Amount))
 					k.Quo(k, big.NewInt(accounting.U))
 					if !k.IsInt64() {
+						undo()
 						log.Printf("%s:%d: syntax error: total price too big\n", line.Filename, line.LineNum)
 						continue
 					}
 					value.Amount = k.Int64()
 				}
-				l.ledger.SplitPrices[s] = value
+				price = value
 			}
 			if hasAssertion {
 				value, err, newCurrency := l.getValue(strings.TrimSpace(text[assertionStart:assertionEnd]))
 				if err != nil {
+					undo()
 					log.Printf("%s:%d: %s\n", line.Filename, line.LineNum, err.Error())
 					continue
 				}
@@ -426,6 +430,17 @@ func (l *ledgerConnection) readJournal() error {
 				}
 				l.ledger.Assertions[s] = value
 			}
+			if hasPriceRel || hasPriceAbs {
+				l.ledger.SplitPrices[s] = price
+			}
+			var newAccount bool
+			s.Account, newAccount = l.getAccount(line.Filename, line.LineNum, text[:accountEnd])
+			if newAccount == true {
+				log.Printf("%s:%d undefined account %s", line.Filename, line.LineNum, s.Account.FullName())
+			}
+			if comment != "" {
+				l.addComment(s, comment)
+			}
 			t.Splits = append(t.Splits, s)
 			lastLine = lineSplit
 			continue
@@ -454,6 +469,25 @@ func (l *ledgerConnection) getAccount(filename string, lineNum int, str string)
 	return &account, true
 }
 
+// saveCurrencies returns a function to undo everything getValue may change in the currencies of the ledger,
+// needed if the line being read is wrong.
+func (l *ledgerConnection) saveCurrencies() func() {
+	currencies, defaultCurrency := l.ledger.Currencies, l.ledger.DefaultCurrency
+	saved := make(map[*accounting.Currency]accounting.Currency)
+	for _, c := range currencies {
+		saved[c] = *c
+	}
+	if defaultCurrency != nil {
+		saved[defaultCurrency] = *defaultCurrency
+	}
+	return func() {
+		l.ledger.Currencies, l.ledger.DefaultCurrency = currencies, defaultCurrency
+		for c := range saved {
+			*c = saved[c]
+		}
+	}
+}
+
 func (l *ledgerConnection) getValue(s string) (accounting.Value, error, bool) {
 	var value accounting.Value
 	value.Currency = new(accounting.Currency)
-- 
2.43.0


From 516e3e2005107e099423678191b5b55704b4fc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:35 +0000
Subject: [PATCH 17/56] fix: indented lines after a wrong line were attached to
 a previous transaction or posting

---
 backend/ledger/parser.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 8ba98b0..11e3182 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -86,6 +86,7 @@ const (
 	lineTransaction
 	lineSplit
 	lineInclude
+	lineWrongSplit
 )
 
 func NewScanner() *Scanner {
@@ -193,8 +194,14 @@ func (l *ledgerConnection) readJournal() error {
 	s.NewFile(l.file)
 
 	lastLine := lineNone
+	lastFile := ""
 	for {
 		line := s.Line()
+		if line.Filename != lastFile {
+			// indented lines can not belong to a line in another file
+			lastFile = line.Filename
+			lastLine = lineNone
+		}
 		if line.Err != nil {
 			if line.Err != io.EOF {
 				return line.Err
@@ -236,7 +243,7 @@ func (l *ledgerConnection) readJournal() error {
 					var split *accounting.Split = transaction.Splits[len(transaction.Splits)-1]
 					l.addComment(split, comment)
 				default:
-					fmt.Printf("%s:%d: Wrong indented comment: \"%s\"\n", line.Filename, line.LineNum, comment)
+					log.Printf("%s:%d: Wrong indented comment: \"%s\"\n", line.Filename, line.LineNum, comment)
 				}
 			}
 			continue
@@ -246,6 +253,10 @@ func (l *ledgerConnection) readJournal() error {
 			text = strings.TrimSpace(text[0:i])
 		}
 		word, rest := firstWord(text)
+		if !indented {
+			// If this line turns out to be wrong, the following indented lines have no owner
+			lastLine = lineNone
+		}
 		if !indented && word == "include" {
 			lastLine = lineInclude
 			newFile := rest
@@ -293,7 +304,6 @@ func (l *ledgerConnection) readJournal() error {
 			continue
 		}
 		if !indented && word == "D" {
-			lastLine = lineDefaultCurrency
 			undo := l.saveCurrencies()
 			price, err, _ := l.getValue(rest)
 			if err != nil {
@@ -302,10 +312,10 @@ func (l *ledgerConnection) readJournal() error {
 				continue
 			}
 			l.ledger.DefaultCurrency = price.Currency
+			lastLine = lineDefaultCurrency
 			continue
 		}
 		if !indented && word == "commodity" {
-			lastLine = lineCommodity
 			undo := l.saveCurrencies()
 			_, err, _ := l.getValue(rest)
 			if err != nil {
@@ -313,6 +323,7 @@ func (l *ledgerConnection) readJournal() error {
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
 				continue
 			}
+			lastLine = lineCommodity
 			continue
 		}
 		if !indented && word == "account" {
@@ -341,8 +352,9 @@ func (l *ledgerConnection) readJournal() error {
 				continue
 			}
 		}
-		if indented && (lastLine == lineTransaction || lastLine == lineSplit) {
+		if indented && (lastLine == lineTransaction || lastLine == lineSplit || lastLine == lineWrongSplit) {
 			// this is a split
+			lastLine = lineWrongSplit // until we know it is right
 			t := l.ledger.Transactions[len(l.ledger.Transactions)-1]
 			s := new(accounting.Split)
 			s.ID = &ID{filename: line.Filename, lineNum: line.LineNum}
-- 
2.43.0


From 8030ce46d54bb850e43d776d8de083b3710c4415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:10 +0000
Subject: [PATCH 18/56] fix: crash on a price after a balance assertion

---
 backend/ledger/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 11e3182..8b4094a 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -387,7 +387,11 @@ func (l *ledgerConnection) readJournal() error {
 					priceStart = valueStart + i + 1
 					priceEnd = len(text)
 				}
-				if i := strings.Index(text[valueStart:], "="); i >= 0 {
+				if i := strings.Index(text[valueStart:], "="); i >= 0 && (hasPriceAbs || hasPriceRel) && valueStart+i < priceStart {
+					undo()
+					log.Printf("%s:%d: syntax error: price after assertion\n", line.Filename, line.LineNum)
+					continue
+				} else if i >= 0 {
 					hasAssertion = true
 					assertionStart = valueStart + i + 1
 					assertionEnd = len(text)
-- 
2.43.0


From 5c6ce68e1b4603412322712084067dabdf5c2256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:12 +0000
Subject: [PATCH 19/56] fix: missing amounts in prices, assertions and
 directives were taken as nothing without a word

---
 backend/ledger/parser.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 8b4094a..8139faf 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -288,6 +288,9 @@ func (l *ledgerConnection) readJournal() error {
 				log.Printf("%s:%d undefined currency %s", line.Filename, line.LineNum, price.Currency.Name)
 			}
 			price.Value, err, newCurrency = l.getValue(rest)
+			if err == nil && price.Value.Currency == nil {
+				err = errors.New("price without amount")
+			}
 			if err != nil {
 				undo()
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
@@ -306,6 +309,9 @@ func (l *ledgerConnection) readJournal() error {
 		if !indented && word == "D" {
 			undo := l.saveCurrencies()
 			price, err, _ := l.getValue(rest)
+			if err == nil && price.Currency == nil {
+				err = errors.New("default currency without amount")
+			}
 			if err != nil {
 				undo()
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
@@ -317,7 +323,10 @@ func (l *ledgerConnection) readJournal() error {
 		}
 		if !indented && word == "commodity" {
 			undo := l.saveCurrencies()
-			_, err, _ := l.getValue(rest)
+			value, err, _ := l.getValue(rest)
+			if err == nil && value.Currency == nil {
+				err = errors.New("commodity without amount")
+			}
 			if err != nil {
 				undo()
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
@@ -328,6 +337,11 @@ func (l *ledgerConnection) readJournal() error {
 		}
 		if !indented && word == "account" {
 			lastLine = lineAccount
+			if rest == "" {
+				lastLine = lineNone
+				log.Printf("%s:%d: Syntax error: account without name", line.Filename, line.LineNum)
+				continue
+			}
 			_, new := l.getAccount(line.Filename, line.LineNum, rest)
 			if new == false {
 				log.Fatalf("%s:%d: account already defined", line.Filename, line.LineNum)
@@ -413,6 +427,9 @@ func (l *ledgerConnection) readJournal() error {
 			}
 			if hasPriceRel || hasPriceAbs {
 				value, err, newCurrency := l.getValue(strings.TrimSpace(text[priceStart:priceEnd]))
+				if err == nil && (value.Currency == nil || s.Value.Currency == nil) {
+					err = errors.New("syntax error: price without amount")
+				}
 				if err != nil {
 					undo()
 					log.Printf("%s:%d: %s\n", line.Filename, line.LineNum, err.Error())
@@ -436,6 +453,9 @@ func (l *ledgerConnection) readJournal() error {
 			}
 			if hasAssertion {
 				value, err, newCurrency := l.getValue(strings.TrimSpace(text[assertionStart:assertionEnd]))
+				if err == nil && value.Currency == nil {
+					err = errors.New("syntax error: assertion without amount")
+				}
 				if err != nil {
 					undo()
 					log.Printf("%s:%d: %s\n", line.Filename, line.LineNum, err.Error())
-- 
2.43.0


From da0ff27a3763006162225ee867e30f7016c9a70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:13 +0000
Subject: [PATCH 20/56] fix: errors opening or reading a journal were ignored,
 and others ended the process

---
 backend/ledger/ledger.go |  4 +++-
 backend/ledger/parser.go | 12 +++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 9c27f33..c6369d7 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -30,7 +30,9 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 	conn.file = url.Path
 	conn.backend = backend
 	conn.ledger = backend.Ledger
-	conn.readJournal()
+	if err = conn.readJournal(); err != nil {
+		return nil, err
+	}
 	return conn, nil
 }
 
diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 8139faf..5bb1aca 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -191,7 +191,9 @@ func (l *ledgerConnection) readJournal() error {
 	l.ledger.SplitPrices = make(map[*accounting.Split]accounting.Value)
 	l.ledger.DefaultCurrency = nil
 	s := NewScanner()
-	s.NewFile(l.file)
+	if err := s.NewFile(l.file); err != nil {
+		return err
+	}
 
 	lastLine := lineNone
 	lastFile := ""
@@ -204,7 +206,7 @@ func (l *ledgerConnection) readJournal() error {
 		}
 		if line.Err != nil {
 			if line.Err != io.EOF {
-				return line.Err
+				return fmt.Errorf("%s:%d: %w", line.Filename, line.LineNum+1, line.Err)
 			}
 			break
 		}
@@ -277,7 +279,7 @@ func (l *ledgerConnection) readJournal() error {
 				continue
 			}
 			if len(l.ledger.Prices) > 0 && l.ledger.Prices[len(l.ledger.Prices)-1].Time.After(price.Time) {
-				log.Fatalf("%s:%d: price is not chronologically sorted", line.Filename, line.LineNum)
+				return fmt.Errorf("%s:%d: price is not chronologically sorted", line.Filename, line.LineNum)
 			}
 			undo := l.saveCurrencies()
 			currency, rest := firstWord(rest)
@@ -344,7 +346,7 @@ func (l *ledgerConnection) readJournal() error {
 			}
 			_, new := l.getAccount(line.Filename, line.LineNum, rest)
 			if new == false {
-				log.Fatalf("%s:%d: account already defined", line.Filename, line.LineNum)
+				return fmt.Errorf("%s:%d: account already defined", line.Filename, line.LineNum)
 			}
 			continue
 		}
@@ -352,7 +354,7 @@ func (l *ledgerConnection) readJournal() error {
 			date, err := GetDate(word)
 			if err == nil {
 				if len(l.ledger.Transactions) > 0 && l.ledger.Transactions[len(l.ledger.Transactions)-1].Time.After(date) {
-					log.Fatalf("%s:%d: transaction is not chronologically sorted", line.Filename, line.LineNum)
+					return fmt.Errorf("%s:%d: transaction is not chronologically sorted", line.Filename, line.LineNum)
 				}
 				var transaction accounting.Transaction
 				transaction.ID = &ID{filename: line.Filename, lineNum: line.LineNum}
-- 
2.43.0


From 79b139da5fcb2d2a6a3074a47744ef7e30181098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:14 +0000
Subject: [PATCH 21/56] fix: endless loop when a journal includes itself

---
 backend/ledger/parser.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 5bb1aca..f94ba71 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -102,6 +102,17 @@ func (s *Scanner) NewFile(filename string) error {
 	if err != nil {
 		return err
 	}
+	info, err := f.Stat()
+	if err != nil {
+		f.Close()
+		return err
+	}
+	for _, sf := range s.files {
+		if i, err := sf.f.Stat(); err == nil && os.SameFile(i, info) {
+			f.Close()
+			return fmt.Errorf("%s: file includes itself", filename)
+		}
+	}
 	s2 := bufio.NewScanner(f)
 	s.files = append(s.files, scannerFile{f: f, s: s2, filename: filename})
 	return nil
-- 
2.43.0


From c03675acbe3e9a7df84fb63cb072509d4eb13633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:15 +0000
Subject: [PATCH 22/56] fix: comments of accounts and commodities were lost or
 attached to other objects

---
 backend/ledger/parser.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index f94ba71..b08015f 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -184,8 +184,8 @@ func (l *ledgerConnection) addComment(where interface{}, comment string) {
 	case *accounting.Currency:
 		if tag.Name == "isin" {
 			x.ISIN = tag.Value
+			return
 		}
-		return
 	}
 	// Unknown tag:
 	l.ledger.Comments[where] = append(l.ledger.Comments[where], comment)
@@ -208,6 +208,7 @@ func (l *ledgerConnection) readJournal() error {
 
 	lastLine := lineNone
 	lastFile := ""
+	var commodity *accounting.Currency // in case of lineCommodity
 	for {
 		line := s.Line()
 		if line.Filename != lastFile {
@@ -243,8 +244,7 @@ func (l *ledgerConnection) readJournal() error {
 					var account *accounting.Account = l.ledger.Accounts[len(l.ledger.Accounts)-1]
 					l.addComment(account, comment)
 				case lineCommodity:
-					var currency *accounting.Currency = l.ledger.Currencies[len(l.ledger.Currencies)-1]
-					l.addComment(currency, comment)
+					l.addComment(commodity, comment)
 				case linePrice:
 					var price *accounting.Price = l.ledger.Prices[len(l.ledger.Prices)-1]
 					l.addComment(price, comment)
@@ -346,6 +346,10 @@ func (l *ledgerConnection) readJournal() error {
 				continue
 			}
 			lastLine = lineCommodity
+			commodity = value.Currency
+			if comment != "" {
+				l.addComment(commodity, comment)
+			}
 			continue
 		}
 		if !indented && word == "account" {
@@ -355,10 +359,13 @@ func (l *ledgerConnection) readJournal() error {
 				log.Printf("%s:%d: Syntax error: account without name", line.Filename, line.LineNum)
 				continue
 			}
-			_, new := l.getAccount(line.Filename, line.LineNum, rest)
+			account, new := l.getAccount(line.Filename, line.LineNum, rest)
 			if new == false {
 				return fmt.Errorf("%s:%d: account already defined", line.Filename, line.LineNum)
 			}
+			if comment != "" {
+				l.addComment(account, comment)
+			}
 			continue
 		}
 		if !indented {
-- 
2.43.0


From e4eb571ad8f09b275d6528f3c669bf632e67e6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:50 +0000
Subject: [PATCH 23/56] fix: extra comments of accounts were printed in a way
 which can not be read

---
 backend/ledger/ledger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index c6369d7..269270e 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -55,7 +55,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 		fmt.Fprint(out, "\n")
 		if len(ledger.Comments[a]) > 1 {
 			for _, c := range ledger.Comments[a][1:] {
-				fmt.Fprintf(out, "\t: %s\n", c)
+				fmt.Fprintf(out, "\t; %s\n", c)
 			}
 		}
 	}
-- 
2.43.0


From 1fa3eb666f27f9fea8b12c38e9c8aed15d2d8750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:51 +0000
Subject: [PATCH 24/56] fix: account codes and currency ISINs were not printed

---
 backend/ledger/ledger.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 269270e..de8b063 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -49,12 +49,16 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 	// fmt.Fprintln(out, "\n; Accounts:")
 	for _, a := range ledger.Accounts {
 		fmt.Fprintf(out, "account %s", a.FullName())
-		if len(ledger.Comments[a]) > 0 {
-			fmt.Fprintf(out, " ; %s", ledger.Comments[a][0])
+		comments := ledger.Comments[a]
+		if a.Code != "" {
+			comments = append([]string{"code:" + a.Code}, comments...)
+		}
+		if len(comments) > 0 {
+			fmt.Fprintf(out, " ; %s", comments[0])
 		}
 		fmt.Fprint(out, "\n")
-		if len(ledger.Comments[a]) > 1 {
-			for _, c := range ledger.Comments[a][1:] {
+		if len(comments) > 1 {
+			for _, c := range comments[1:] {
 				fmt.Fprintf(out, "\t; %s\n", c)
 			}
 		}
@@ -66,12 +70,16 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 		v.Amount = 1_000_000 * accounting.U
 		v.Currency = cu
 		fmt.Fprintf(out, "commodity %s", v.String())
-		if len(ledger.Comments[cu]) > 0 {
-			fmt.Fprintf(out, " ; %s", ledger.Comments[cu][0])
+		comments := ledger.Comments[cu]
+		if cu.ISIN != "" {
+			comments = append([]string{"isin:" + cu.ISIN}, comments...)
+		}
+		if len(comments) > 0 {
+			fmt.Fprintf(out, " ; %s", comments[0])
 		}
 		fmt.Fprint(out, "\n")
-		if len(ledger.Comments[cu]) > 1 {
-			for _, c := range ledger.Comments[cu][1:] {
+		if len(comments) > 1 {
+			for _, c := range comments[1:] {
 				fmt.Fprintf(out, "\t; %s\n", c)
 			}
 		}
-- 
2.43.0


From 2b25ce77d4e88c86f56965322b86ce897b19f115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:53 +0000
Subject: [PATCH 25/56] fix: seconds were lost when printing a journal

---
 backend/ledger/ledger.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index de8b063..63eff54 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -44,6 +44,14 @@ func (conn *ledgerConnection) Refresh() {
 	// TODO FIXME XXX: notifier
 }
 
+// formatTime returns a time as written in a journal; seconds are only shown if needed.
+func formatTime(t time.Time) string {
+	if t.Second() != 0 {
+		return t.Format("2006-01-02/15:04:05")
+	}
+	return t.Format("2006-01-02/15:04")
+}
+
 // Export shows the "Ledger" representation of an accounting ledger.
 func Export(out io.Writer, ledger *accounting.Ledger) {
 	// fmt.Fprintln(out, "\n; Accounts:")
@@ -102,7 +110,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 		// fmt.Fprintf(out, "DEBUG: i=%d j=%d tt=%v tp=%v\n", i, j, tt, tp)
 		if p == nil || (t != nil && !tt.After(tp)) {
 			i++
-			fmt.Fprintf(out, "%s %s", t.Time.Format("2006-01-02/15:04"), t.Description)
+			fmt.Fprintf(out, "%s %s", formatTime(t.Time), t.Description)
 			if len(ledger.Comments[t]) > 0 {
 				fmt.Fprintf(out, " ; %s", ledger.Comments[t][0])
 			}
@@ -122,7 +130,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 				}
 				var comments []string
 				if *s.Time != t.Time {
-					comments = append(comments, "date:"+s.Time.Format("2006-01-02/15:04"))
+					comments = append(comments, "date:"+formatTime(*s.Time))
 				}
 				if len(ledger.Comments[s]) > 0 {
 					comments = append(comments, ledger.Comments[s]...)
@@ -139,7 +147,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 			}
 		} else {
 			j++
-			fmt.Fprintf(out, "P %s %s %s", p.Time.Format("2006-01-02/15:04"), p.Currency.Name, p.Value.FullString())
+			fmt.Fprintf(out, "P %s %s %s", formatTime(p.Time), p.Currency.Name, p.Value.FullString())
 			if len(ledger.Comments[p]) > 0 {
 				fmt.Fprintf(out, " ; %s", ledger.Comments[p][0])
 			}
-- 
2.43.0


From 2bfe9eb0184694efd3a1b16231e9b82711ae5b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:54 +0000
Subject: [PATCH 26/56] fix: the automatic transfer account was printed as if
 it were part of the journal

---
 backend/ledger/ledger.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 63eff54..4f3ceee 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -56,6 +56,9 @@ func formatTime(t time.Time) string {
 func Export(out io.Writer, ledger *accounting.Ledger) {
 	// fmt.Fprintln(out, "\n; Accounts:")
 	for _, a := range ledger.Accounts {
+		if a == ledger.TransferAccount() {
+			continue
+		}
 		fmt.Fprintf(out, "account %s", a.FullName())
 		comments := ledger.Comments[a]
 		if a.Code != "" {
@@ -121,6 +124,9 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 				}
 			}
 			for _, s := range t.Splits {
+				if s.Account == ledger.TransferAccount() {
+					continue
+				}
 				fmt.Fprintf(out, "  %-50s  %s", s.Account.FullName(), s.Value.FullString())
 				if v, ok := ledger.SplitPrices[s]; ok == true {
 					fmt.Fprintf(out, " @@ %s", v.FullString())
-- 
2.43.0


From 0168438f8d09dbb62b8e07b309041f3f9db28552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:55 +0000
Subject: [PATCH 27/56] fix: the default currency was lost when printing a
 journal

---
 backend/ledger/ledger.go | 41 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 4f3ceee..365a69d 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -95,6 +95,9 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 			}
 		}
 	}
+	if cu := namelessCurrency(ledger); cu != nil {
+		fmt.Fprintf(out, "D %s\n", accounting.Value{Amount: 1_000_000 * accounting.U, Currency: cu})
+	}
 	fmt.Fprintln(out)
 	// fmt.Fprintln(out, "\n; Transactions and prices:")
 	var i, j int
@@ -123,11 +126,18 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 					fmt.Fprintf(out, "\t; %s\n", c)
 				}
 			}
+			elided := false
 			for _, s := range t.Splits {
 				if s.Account == ledger.TransferAccount() {
 					continue
 				}
-				fmt.Fprintf(out, "  %-50s  %s", s.Account.FullName(), s.Value.FullString())
+				if c := s.Value.Currency; !elided && s.Value.Amount == 0 && (c == nil || c.Name == "" && c.Decimal == "") {
+					// posting without amount in an already balanced transaction: it has no real currency
+					elided = true
+					fmt.Fprintf(out, "  %-50s  ", s.Account.FullName())
+				} else {
+					fmt.Fprintf(out, "  %-50s  %s", s.Account.FullName(), s.Value.FullString())
+				}
 				if v, ok := ledger.SplitPrices[s]; ok == true {
 					fmt.Fprintf(out, " @@ %s", v.FullString())
 				}
@@ -151,6 +161,9 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 					}
 				}
 			}
+		} else if p.Currency.Name == "" {
+			// It can not be written, but it will be there again as it is implied by a transaction
+			j++
 		} else {
 			j++
 			fmt.Fprintf(out, "P %s %s %s", formatTime(p.Time), p.Currency.Name, p.Value.FullString())
@@ -165,4 +178,30 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 			}
 		}
 	}
+	if c := ledger.DefaultCurrency; c != nil && c.Name != "" {
+		// It must be here in order not to be applied to the previous amounts without currency
+		fmt.Fprintf(out, "D %s\n", accounting.Value{Amount: 1_000_000 * accounting.U, Currency: c})
+	}
+}
+
+// namelessCurrency returns the currency, if any, of the amounts written without one.
+func namelessCurrency(ledger *accounting.Ledger) *accounting.Currency {
+	if c := ledger.DefaultCurrency; c != nil && c.Name == "" {
+		return c
+	}
+	for _, t := range ledger.Transactions {
+		for _, s := range t.Splits {
+			for _, v := range []accounting.Value{s.Value, ledger.SplitPrices[s], ledger.Assertions[s]} {
+				if v.Amount != 0 && v.Currency.Name == "" {
+					return v.Currency
+				}
+			}
+		}
+	}
+	for _, p := range ledger.Prices {
+		if p.Value.Currency.Name == "" {
+			return p.Value.Currency
+		}
+	}
+	return nil
 }
-- 
2.43.0


From a32db9850d8ba5f024af8c358036fa27e116e526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:06 +0000
Subject: [PATCH 28/56] fix: the balance report did not show amounts of
 accounts without movements in the period

---
 cmd/ledger/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 5b59108..b3aad94 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -139,7 +139,7 @@ func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 	}
 	if !flags.total {
 		for _, a := range accounts {
-			if len(a.Account.Splits) > 0 {
+			if len(a.Account.Splits) > 0 || len(a.Balance) > 0 {
 				for i, v := range a.Balance {
 					fmt.Printf("%*.*s", maxLength, maxLength, v.String())
 					if i == len(a.Balance)-1 {
-- 
2.43.0


From 5cb18c02204107d9819f2b9eccfcb5bd683c78fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:07 +0000
Subject: [PATCH 29/56] fix: a currency given twice was counted twice in the
 balance report

---
 cmd/ledger/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index b3aad94..6447c5b 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -107,6 +107,7 @@ func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 				for _, c := range flags.currency {
 					if v.Currency.Name == c {
 						bal.Add(v)
+						break
 					}
 				}
 			}
-- 
2.43.0


From 2447f64d426d2c464713a8a7f19004c22b91816a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:08 +0000
Subject: [PATCH 30/56] fix: accounts matching two arguments were counted twice
 in the delta report

---
 cmd/ledger/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 6447c5b..ac908e6 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -320,6 +320,7 @@ func runDelta(L *accounting.Ledger, flags flags, args []string) error {
 		for _, b := range args {
 			if strings.Contains(strings.ToLower(a.FullName()), strings.ToLower(b)) {
 				accounts = append(accounts, a)
+				break
 			}
 		}
 	}
-- 
2.43.0


From 3ed9294393825ec49f86974a5fec75630e839471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:09 +0000
Subject: [PATCH 31/56] fix: delta with market prices converted the final
 balance at the begin date

---
 cmd/ledger/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index ac908e6..9f3fdde 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -345,7 +345,7 @@ func runDelta(L *accounting.Ledger, flags flags, args []string) error {
 		balanceEnd.AddBalance(balanceBegin)
 		balanceEnd.AddBalance(balanceDelta)
 		for _, v := range balanceEnd {
-			nv, err := L.Convert(v, flags.beginDate, L.DefaultCurrency)
+			nv, err := L.Convert(v, flags.endDate, L.DefaultCurrency)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From bfea867d5755a9f3d92dc243de0ca61467a902a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:10 +0000
Subject: [PATCH 32/56] fix: reports with a pivot used balances which included
 other transactions

---
 cmd/ledger/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 9f3fdde..b66cb81 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -423,6 +423,11 @@ func doPivot(L *accounting.Ledger, pivot sliceString) {
 				j--
 			}
 		}
+		var balance accounting.Balance
+		for _, s := range L.Accounts[i].Splits {
+			balance.Add(s.Value)
+			s.Balance = balance.Dup()
+		}
 	}
 }
 
-- 
2.43.0


From df9665eda80f28f3bfafa807b8b00bf86b1c103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 33/56] fix: errors reading a txtdb database were ignored

---
 backend/txtdb/txtdb.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index 4c02b90..20e9754 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -96,12 +96,18 @@ func (c *conn) read() error {
 		c.accountMap[id] = &ac
 		c.ledger.Accounts = append(c.ledger.Accounts, &ac)
 	}
+	if err = sc.Err(); err != nil {
+		return fmt.Errorf("accounts: %w", err)
+	}
 	c.ledger.Accounts = accounting.SortAccounts(c.ledger.Accounts)
 
 	f, err = os.Open(filepath.Join(c.dir, "transactions"))
-	if err != nil {
+	if os.IsNotExist(err) {
 		return nil
 	}
+	if err != nil {
+		return err
+	}
 	sc = bufio.NewScanner(f)
 	nextID := 1
 	var balance int64
@@ -209,6 +215,9 @@ func (c *conn) read() error {
 			nextID++
 		}
 	}
+	if err = sc.Err(); err != nil {
+		return fmt.Errorf("transactions: %w", err)
+	}
 	if balance != 0 {
 		log.Printf("transactions: balance is %d, not zero", balance)
 	}
-- 
2.43.0


From acb40f42c9fe6ad9f4f654394a46c8735737f2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:12 +0000
Subject: [PATCH 34/56] fix: wrong lines in a txtdb database were ignored
 without a word

---
 backend/txtdb/txtdb.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index 20e9754..b9945da 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -72,18 +72,21 @@ func (c *conn) read() error {
 		return err
 	}
 	sc := bufio.NewScanner(f)
-	for sc.Scan() {
+	for i := 1; sc.Scan(); i++ {
 		var ac accounting.Account
 		line := sc.Text()
 		// TODO: handle comments
 		fields := strings.Split(line, ":")
 		if len(fields) != 6 { // badly-formatted line: skip
-			// TODO: show error
+			if strings.TrimSpace(line) != "" {
+				log.Printf("accounts line %d: badly-formatted line\n", i)
+			}
 			continue
 		}
 		var id int
 		id, err = strconv.Atoi(fields[0])
-		if err != nil { // TODO: handle errors
+		if err != nil {
+			log.Printf("accounts line %d: invalid id (%s)\n", i, fields[0])
 			continue
 		}
 		ac.ID = ID(id)
@@ -121,6 +124,9 @@ func (c *conn) read() error {
 		line := sc.Text()
 		fields := strings.Split(line, ":")
 		if len(fields) != 7 { // badly-formatted line: skip
+			if strings.TrimSpace(line) != "" {
+				log.Printf("transactions line %d: badly-formatted line\n", i)
+			}
 			continue
 		}
 		thisTime, err = time.Parse("2006-01-02 15.04", strings.TrimSpace(fields[1]))
@@ -166,6 +172,7 @@ func (c *conn) read() error {
 				balance = 0
 			}
 			if len(fields[6]) == 0 {
+				log.Printf("transactions line %d: neither value nor balance", i)
 				tr = nil
 				continue
 			}
-- 
2.43.0


From a5598bf0eae56ec7cdfee9d9edb0070c2b0ba13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:13 +0000
Subject: [PATCH 35/56] fix: txtdb read nonsense from amounts which can not be
 represented

---
 backend/txtdb/txtdb.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index b9945da..a14c575 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -18,6 +18,8 @@ import (
 
 type driver struct{}
 
+const maxAmount = math.MaxInt64 / accounting.U // bigger amounts can not be represented
+
 const refreshTimeout = 5 * time.Second
 
 type conn struct {
@@ -186,7 +188,7 @@ func (c *conn) read() error {
 				offset = 1
 			}
 			f, err := strconv.ParseFloat(fields[6][offset:], 64)
-			if err != nil {
+			if err != nil || !(math.Abs(f) < maxAmount) {
 				log.Printf("transactions line %d: invalid balance (%s)", i, fields[6])
 				continue
 			}
@@ -206,7 +208,7 @@ func (c *conn) read() error {
 				continue
 			}
 			f, err := strconv.ParseFloat(fields[5][1:], 64)
-			if err != nil {
+			if err != nil || !(math.Abs(f) < maxAmount) {
 				log.Printf("transaction line %d: invalid value (%s)", i, fields[5])
 				continue
 			}
-- 
2.43.0


From e6a1fb796a1742c2ab3f395b24b59d6fa8d5d2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 36/56] fix: txtdb lost the parent of accounts listed before it

---
 backend/txtdb/txtdb.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index a14c575..75e60e2 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -74,6 +74,7 @@ func (c *conn) read() error {
 		return err
 	}
 	sc := bufio.NewScanner(f)
+	orphans := make(map[*accounting.Account]int)
 	for i := 1; sc.Scan(); i++ {
 		var ac accounting.Account
 		line := sc.Text()
@@ -97,6 +98,9 @@ func (c *conn) read() error {
 		parent, err := strconv.Atoi(fields[5])
 		if err == nil {
 			ac.Parent = c.accountMap[parent]
+			if ac.Parent == nil {
+				orphans[&ac] = parent // it may be defined later
+			}
 		}
 		c.accountMap[id] = &ac
 		c.ledger.Accounts = append(c.ledger.Accounts, &ac)
@@ -104,6 +108,21 @@ func (c *conn) read() error {
 	if err = sc.Err(); err != nil {
 		return fmt.Errorf("accounts: %w", err)
 	}
+	for _, ac := range c.ledger.Accounts {
+		id, ok := orphans[ac]
+		if !ok {
+			continue
+		}
+		parent := c.accountMap[id]
+		for a := parent; a != nil; a = a.Parent {
+			if a == ac { // it is its own ancestor
+				log.Printf("accounts: account %s is inside itself\n", ac.ID)
+				parent = nil
+				break
+			}
+		}
+		ac.Parent = parent
+	}
 	c.ledger.Accounts = accounting.SortAccounts(c.ledger.Accounts)
 
 	f, err = os.Open(filepath.Join(c.dir, "transactions"))
-- 
2.43.0


From 875beb7cc281355d01ae06dae63c37a16e56d5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:03 +0000
Subject: [PATCH 37/56] fix: PostgreSQL failures are errors, not panics or
 missing data

---
 accounting.go                |  3 +++
 backend/postgres/postgres.go | 28 +++++++++++++++++++---------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/accounting.go b/accounting.go
index 18c8fe2..096d66d 100644
--- a/accounting.go
+++ b/accounting.go
@@ -46,6 +46,9 @@ func Open(dataSource string) (*Ledger, error) {
 		return nil, err
 	}
 	if err = b.Ledger.Fill(); err != nil {
+		if b.Ledger.connection != nil {
+			b.Ledger.connection.Close()
+		}
 		return nil, err
 	}
 	return b.Ledger, nil
diff --git a/backend/postgres/postgres.go b/backend/postgres/postgres.go
index bdcdcb1..daa2c10 100644
--- a/backend/postgres/postgres.go
+++ b/backend/postgres/postgres.go
@@ -38,6 +38,7 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 		return nil, errors.New("psql.Open: " + err.Error())
 	}
 	if err = db.Ping(); err != nil {
+		db.Close()
 		return nil, errors.New("psql.Open: " + err.Error())
 	}
 	// TODO I should check the SQL schema...
@@ -45,8 +46,14 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 	conn.db = db
 	conn.backend = backend
 	conn.ledger = backend.Ledger
-	getAccounts(conn)
-	getTransactions(conn)
+	if err = getAccounts(conn); err != nil {
+		db.Close()
+		return nil, errors.New("psql.Open: " + err.Error())
+	}
+	if err = getTransactions(conn); err != nil {
+		db.Close()
+		return nil, errors.New("psql.Open: " + err.Error())
+	}
 	return conn, nil
 }
 
@@ -58,7 +65,7 @@ func (c *conn) Close() error {
 	return c.db.Close()
 }
 
-func getAccounts(c *conn) {
+func getAccounts(c *conn) error {
 	ledger := c.ledger
 	query := `
 		SELECT a.id, a.name, COALESCE(a.code, '') AS code,
@@ -68,8 +75,9 @@ func getAccounts(c *conn) {
 	`
 	rows, err := c.db.Query(query)
 	if err != nil {
-		panic(err)
+		return err
 	}
+	defer rows.Close()
 	ledger.Accounts = nil
 	for rows.Next() {
 		var (
@@ -80,7 +88,7 @@ func getAccounts(c *conn) {
 			acc     accounting.Account
 		)
 		if err := rows.Scan(&id, &name, &code, &balance); err != nil {
-			panic(err)
+			return err
 		}
 		acc.ID = ID(id)
 		acc.Name = name
@@ -88,9 +96,10 @@ func getAccounts(c *conn) {
 		// acc.Balance = balance
 		ledger.Accounts = append(ledger.Accounts, &acc)
 	}
+	return rows.Err()
 }
 
-func getTransactions(c *conn) {
+func getTransactions(c *conn) error {
 	ledger := c.ledger
 	idAccount := make(map[accounting.ID]*accounting.Account)
 	for i, a := range ledger.Accounts {
@@ -101,8 +110,9 @@ func getTransactions(c *conn) {
 	`
 	rows, err := c.db.Query(query)
 	if err != nil {
-		panic(err)
+		return err
 	}
+	defer rows.Close()
 	for rows.Next() {
 		var (
 			date    time.Time
@@ -113,7 +123,7 @@ func getTransactions(c *conn) {
 			balance int
 		)
 		if err := rows.Scan(&date, &tid, &aid, &desc, &value, &balance); err != nil {
-			panic(err)
+			return err
 		}
 		if l := len(ledger.Transactions); l == 0 || ledger.Transactions[l-1].ID != tid {
 			ledger.Transactions = append(ledger.Transactions, &accounting.Transaction{
@@ -128,7 +138,7 @@ func getTransactions(c *conn) {
 		tra := ledger.Transactions[len(ledger.Transactions)-1]
 		tra.Splits = append(tra.Splits, split)
 	}
-	return
+	return rows.Err()
 }
 
 // Flush is a no-op in SQL: all the writes to the database are unbuffered
-- 
2.43.0


From 1fee15460a3fb253453f2a4dd3a159f1214b3c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:12 +0000
Subject: [PATCH 38/56] fix: PostgreSQL amounts are cents of the only currency,
 unknown accounts an error

---
 backend/postgres/postgres.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/backend/postgres/postgres.go b/backend/postgres/postgres.go
index daa2c10..c6dc0b8 100644
--- a/backend/postgres/postgres.go
+++ b/backend/postgres/postgres.go
@@ -105,6 +105,7 @@ func getTransactions(c *conn) error {
 	for i, a := range ledger.Accounts {
 		idAccount[a.ID] = ledger.Accounts[i]
 	}
+	currency := &accounting.Currency{Precision: 2} // just one currency for now
 	query := `
 		SELECT datetime,transaction_id,account_id,description,(100*value)::integer,(100*balance)::integer FROM money
 	`
@@ -133,8 +134,11 @@ func getTransactions(c *conn) error {
 		}
 		split := new(accounting.Split)
 		split.Account = idAccount[aid]
-		split.Value.Currency = nil
-		split.Value.Amount = value
+		if split.Account == nil {
+			return fmt.Errorf("transaction %s: unknown account %s", tid, aid)
+		}
+		split.Value.Currency = currency
+		split.Value.Amount = value * (accounting.U / 100)
 		tra := ledger.Transactions[len(ledger.Transactions)-1]
 		tra.Splits = append(tra.Splits, split)
 	}
-- 
2.43.0


From fa5552d38009c4b02cac33b70f7580839246d569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 39/56] fix: files of journals with errors, and of txtdb
 databases, were left open

When a journal could not be opened, the file with the error and the ones
including it stayed open, and so did the files of every txtdb database:
a program trying again and again ran out of file descriptors.
---
 backend/ledger/parser.go | 9 +++++++++
 backend/txtdb/txtdb.go   | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index b08015f..d7b5c90 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -118,6 +118,14 @@ func (s *Scanner) NewFile(filename string) error {
 	return nil
 }
 
+// Close closes the files still open.
+func (s *Scanner) Close() {
+	for _, file := range s.files {
+		file.f.Close()
+	}
+	s.files = nil
+}
+
 func (s *Scanner) Line() ScannerLine {
 	if len(s.files) == 0 {
 		return ScannerLine{Err: io.EOF}
@@ -202,6 +210,7 @@ func (l *ledgerConnection) readJournal() error {
 	l.ledger.SplitPrices = make(map[*accounting.Split]accounting.Value)
 	l.ledger.DefaultCurrency = nil
 	s := NewScanner()
+	defer s.Close()
 	if err := s.NewFile(l.file); err != nil {
 		return err
 	}
diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index 75e60e2..18af221 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -73,6 +73,7 @@ func (c *conn) read() error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 	sc := bufio.NewScanner(f)
 	orphans := make(map[*accounting.Account]int)
 	for i := 1; sc.Scan(); i++ {
@@ -132,6 +133,7 @@ func (c *conn) read() error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 	sc = bufio.NewScanner(f)
 	nextID := 1
 	var balance int64
-- 
2.43.0


From ef44ecbfe958e267ca3877326cb39c60668496ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:18 +0000
Subject: [PATCH 40/56] fix: a wrong txtdb line gave its date and description
 to the transaction after it

---
 backend/txtdb/txtdb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index 18af221..6be1d1c 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -140,7 +140,7 @@ func (c *conn) read() error {
 	var tr *accounting.Transaction
 	var oldTime, thisTime time.Time
 	for i := 1; sc.Scan(); i++ {
-		if tr == nil {
+		if tr == nil || len(tr.Splits) == 0 { // a transaction begins with its first correct line
 			tr = new(accounting.Transaction)
 		}
 		// var sp accounting.Split
-- 
2.43.0


From 354ac962b8be0a2661dfddcd121d61ffa44f729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 41/56] fix: amounts given by assertions after omitted amounts
 of later transactions were refused

---
 accounting.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/accounting.go b/accounting.go
index 096d66d..2a7f407 100644
--- a/accounting.go
+++ b/accounting.go
@@ -744,20 +744,22 @@ func (l *Ledger) Fill() error {
 
 	finished := false
 	deadlock := false
-	iTransactions := 0
+	pending := l.Transactions // not yet checked
 	iAccounts := make(map[int]int)
 	for !finished && !deadlock {
 		finished = true
 		deadlock = true
-		for ; iTransactions < len(l.Transactions); iTransactions++ {
+		var waiting []*Transaction // they need an amount from an assertion, or their turn
+	nextTransaction:
+		for _, transaction := range pending {
 			finished = false
 			// Check for the correctness of a transaction, and fill all the calculated fields
-			transaction := l.Transactions[iTransactions]
 			var unbalancedSplit *Split
 			var balance Balance
 			for i, s := range transaction.Splits {
 				if s.Value.Currency == nil && l.Assertions[s] != (Value{}) {
-					goto endTransaction
+					waiting = append(waiting, transaction)
+					continue nextTransaction
 				}
 				if s.Value.Currency == nil {
 					if unbalancedSplit != nil {
@@ -792,6 +794,11 @@ func (l *Ledger) Fill() error {
 			if len(balance) == 1 {
 				return fmt.Errorf("%s: could not balance transaction: total amount is %s", transaction.ID, balance[0])
 			}
+			if len(balance) == 2 && len(waiting) > 0 {
+				// its prices go after those of the previous transactions
+				waiting = append(waiting, transaction)
+				continue
+			}
 			if len(balance) == 2 {
 				// we add 2 automatic prices, converting one currency to another and vice-versa
 				price := new(Price)
@@ -821,7 +828,7 @@ func (l *Ledger) Fill() error {
 			}
 			panic("balancing transaction: unreachable code")
 		}
-	endTransaction:
+		pending = waiting
 		for i := 0; i < len(l.Accounts); i++ {
 			var b Balance
 			if iAccounts[i] > 0 {
@@ -856,7 +863,7 @@ func (l *Ledger) Fill() error {
 		}
 	}
 	if !finished && deadlock {
-		return fmt.Errorf("%s: deadlock (cannot balance transaction)", l.Transactions[iTransactions].ID)
+		return fmt.Errorf("%s: deadlock (cannot balance transaction)", pending[0].ID)
 	}
 
 	// Adding prices from splits
-- 
2.43.0


From 5119c6b7b75dfaabf6a056b279effed90200a343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:17 +0000
Subject: [PATCH 42/56] fix: sums too big to be represented were accepted with
 wrong balances

---
 accounting.go | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/accounting.go b/accounting.go
index 2a7f407..cbdc0b6 100644
--- a/accounting.go
+++ b/accounting.go
@@ -3,6 +3,7 @@ package accounting
 import (
 	"errors"
 	"fmt"
+	"math"
 	"math/big"
 	"net/url"
 	"sort"
@@ -552,6 +553,39 @@ func (b Balance) Dup() Balance {
 	return res
 }
 
+// sumTooBig returns whether adding v to b would give an amount too big to be represented.
+func (b Balance) sumTooBig(v Value) bool {
+	for i := range b {
+		if b[i].Currency == v.Currency {
+			sum := big.NewInt(b[i].Amount)
+			return sum.Add(sum, big.NewInt(v.Amount)).CmpAbs(big.NewInt(math.MaxInt64)) > 0
+		}
+	}
+	return false
+}
+
+// totalTooBig returns whether the known amounts of a transaction have, in any currency,
+// a total too big to be represented.
+func (l *Ledger) totalTooBig(t *Transaction) bool {
+	totals := make(map[*Currency]*big.Int)
+	for _, s := range t.Splits {
+		v, ok := l.SplitPrices[s]
+		if !ok {
+			v = s.Value
+		}
+		if totals[v.Currency] == nil {
+			totals[v.Currency] = new(big.Int)
+		}
+		totals[v.Currency].Add(totals[v.Currency], big.NewInt(v.Amount))
+	}
+	for _, total := range totals {
+		if total.CmpAbs(big.NewInt(math.MaxInt64)) > 0 {
+			return true
+		}
+	}
+	return false
+}
+
 func insertAccount(where *[]*Account, account *Account) {
 	*where = append(*where, account)
 	for _, a := range account.Children {
@@ -774,6 +808,9 @@ func (l *Ledger) Fill() error {
 					balance.Add(s.Value)
 				}
 			}
+			if l.totalTooBig(transaction) {
+				return fmt.Errorf("%s: total amount is too big", transaction.ID)
+			}
 			if len(balance) == 0 {
 				// everything is balanced
 				if unbalancedSplit != nil {
@@ -841,6 +878,9 @@ func (l *Ledger) Fill() error {
 					break
 				}
 				deadlock = false
+				if b.sumTooBig(s.Value) {
+					return fmt.Errorf("%s: balance is too big", s.ID)
+				}
 				b.Add(s.Value)
 				s.Balance = b.Dup()
 				if a := l.Assertions[s]; a != (Value{}) {
@@ -851,6 +891,9 @@ func (l *Ledger) Fill() error {
 						}
 					}
 					if s.Value == (Value{}) {
+						if (Balance{a}).sumTooBig(Value{Amount: -v.Amount, Currency: v.Currency}) {
+							return fmt.Errorf("%s: amount is too big", s.ID)
+						}
 						s.Value = a
 						s.Value.Amount = a.Amount - v.Amount
 						b.Add(s.Value)
@@ -945,6 +988,9 @@ transferAlreadyInAccounts:
 
 	var b Balance
 	for _, s := range l.transferAccount.Splits {
+		if b.sumTooBig(s.Value) {
+			return fmt.Errorf("%s: amount in transit is too big", s.Transaction.ID)
+		}
 		b.Add(s.Value)
 		s.Balance = b.Dup()
 	}
-- 
2.43.0


From 0fb4b253279475d002e06bda09af3f8ff2a5e590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 43/56] fix: conversions with results too big to be represented
 gave wrong amounts

---
 accounting.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/accounting.go b/accounting.go
index cbdc0b6..0630aba 100644
--- a/accounting.go
+++ b/accounting.go
@@ -506,6 +506,20 @@ func (value *Value) Mul(v2 Value) {
 	value.Amount = i.Int64()
 }
 
+var errTooBig = errors.New("the result is too big")
+
+// times returns a value converted with a price, unless the result is too big to be represented.
+func (value Value) times(price Value) (Value, error) {
+	i := big.NewInt(value.Amount)
+	i.Mul(i, big.NewInt(price.Amount))
+	i.Div(i, big.NewInt(U))
+	if i.CmpAbs(big.NewInt(math.MaxInt64)) > 0 {
+		return value, fmt.Errorf("could not convert %q to %q: %w", value, price.Currency.Name, errTooBig)
+	}
+	price.Mul(value)
+	return price, nil
+}
+
 // Add adds a value to a balance.
 func (b *Balance) Add(v Value) {
 	if v.Amount == 0 {
@@ -616,10 +630,8 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, tried map[
 		}
 		//fmt.Printf("Price: %s %s = %s\n", p.Time, p.Currency.Name, p.Value)
 		if p.Time == when {
-			tmp := p.Value
-			tmp.Mul(v)
 			//fmt.Printf("Convert(%s,%s,%s) = %s (2)\n", v, when.Format("2006-01-02"), currency.Name, p.Value)
-			return tmp, nil
+			return v.times(p.Value)
 		}
 		if p.Time.Before(when) {
 			prevTime = p.Time
@@ -656,28 +668,26 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, tried map[
 		if err == nil {
 			nv, err = l.convert(nv, when, currency, tried)
 		}
-		if err == nil {
-			return nv, nil
+		if err == nil || errors.Is(err, errTooBig) {
+			return nv, err
 		}
 		prevTime = time.Time{} // nothing that way: try the next closest price
 	}
 	if nextTime == (time.Time{}) {
-		prevValue.Mul(v)
-		return prevValue, nil
+		return v.times(prevValue)
 	}
 	if prevTime == (time.Time{}) {
-		nextValue.Mul(v)
-		return nextValue, nil
+		return v.times(nextValue)
 	}
 	d1 := when.Sub(prevTime)
 	d2 := nextTime.Sub(prevTime)
-	i := big.NewInt(nextValue.Amount - prevValue.Amount)
+	i := big.NewInt(nextValue.Amount)
+	i.Sub(i, big.NewInt(prevValue.Amount))
 	i.Mul(i, big.NewInt(int64(d1)))
 	i.Quo(i, big.NewInt(int64(d2)))
 	i.Add(i, big.NewInt(prevValue.Amount))
 	prevValue.Amount = i.Int64()
-	prevValue.Mul(v)
-	return prevValue, nil
+	return v.times(prevValue)
 }
 
 // TransferAccount returns the account this ledger uses (if needed) for the transactions
-- 
2.43.0


From 1811cceb9c0c74726e292f977b2f7392158576c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 44/56] fix: interpolation between prices more than 292 years
 apart gave wrong rates

---
 accounting.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/accounting.go b/accounting.go
index 0630aba..ef92716 100644
--- a/accounting.go
+++ b/accounting.go
@@ -615,6 +615,13 @@ func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, er
 	return l.convert(v, when, currency, make(map[*Currency]bool))
 }
 
+// elapsed returns the nanoseconds from t to u, which can be too many for a time.Duration.
+func elapsed(t, u time.Time) *big.Int {
+	d := big.NewInt(u.Unix() - t.Unix())
+	d.Mul(d, big.NewInt(int64(time.Second)))
+	return d.Add(d, big.NewInt(int64(u.Nanosecond()-t.Nanosecond())))
+}
+
 // convert is like Convert, but never goes through the currencies in tried (and adds to it the ones it tries).
 func (l *Ledger) convert(v Value, when time.Time, currency *Currency, tried map[*Currency]bool) (Value, error) {
 	if v.Currency == currency {
@@ -653,7 +660,7 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, tried map[
 				prevValue = p.Value
 				continue
 			}
-			if prevTime == (time.Time{}) || p.Time.Sub(when) < when.Sub(prevTime) {
+			if prevTime == (time.Time{}) || elapsed(when, p.Time).Cmp(elapsed(prevTime, when)) < 0 {
 				prevTime = p.Time
 				prevValue = p.Value
 			}
@@ -679,12 +686,12 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, tried map[
 	if prevTime == (time.Time{}) {
 		return v.times(nextValue)
 	}
-	d1 := when.Sub(prevTime)
-	d2 := nextTime.Sub(prevTime)
+	d1 := elapsed(prevTime, when)
+	d2 := elapsed(prevTime, nextTime)
 	i := big.NewInt(nextValue.Amount)
 	i.Sub(i, big.NewInt(prevValue.Amount))
-	i.Mul(i, big.NewInt(int64(d1)))
-	i.Quo(i, big.NewInt(int64(d2)))
+	i.Mul(i, d1)
+	i.Quo(i, d2)
 	i.Add(i, big.NewInt(prevValue.Amount))
 	prevValue.Amount = i.Int64()
 	return v.times(prevValue)
-- 
2.43.0


From 48b266356a65720feb39c252d732a0efbfe58d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 45/56] fix: stats gave wrong time spans over 292 years

---
 cmd/ledger/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index b66cb81..bcfba65 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -174,7 +174,7 @@ func runStats(L *accounting.Ledger, flags flags, args []string) error {
 		lastYear, lastMonth, lastDay := last.Date()
 		end := time.Date(lastYear, lastMonth, lastDay, 0, 0, 0, 0, time.UTC)
 		start := time.Date(firstYear, firstMonth, firstDay, 0, 0, 0, 0, time.UTC)
-		days := int(end.Sub(start).Hours()/24.0) + 1
+		days := int((end.Unix()-start.Unix())/86400) + 1
 
 		fmt.Printf("Transaction span : %s to %s (%d days)\n", first.Format("2006-01-02"),
 			last.Format("2006-01-02"), days)
-- 
2.43.0


From e692d0180051e77c98f9284a3d836dd756894cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 46/56] fix: prices of the first moment of year 1 were ignored

---
 accounting.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/accounting.go b/accounting.go
index ef92716..7f8e9cc 100644
--- a/accounting.go
+++ b/accounting.go
@@ -629,6 +629,7 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, tried map[
 		return v, nil
 	}
 	var prevTime, nextTime time.Time
+	var hasPrev, hasNext bool // any time can be the one of a price, even the zero one
 	var prevValue, nextValue Value
 	prevValue = v
 	for _, p := range l.Prices {
@@ -641,32 +642,32 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, tried map[
 			return v.times(p.Value)
 		}
 		if p.Time.Before(when) {
-			prevTime = p.Time
+			prevTime, hasPrev = p.Time, true
 			prevValue = p.Value
 			continue
 		}
-		nextTime = p.Time
+		nextTime, hasNext = p.Time, true
 		nextValue = p.Value
 		break
 	}
 	tried[v.Currency] = true
-	for prevTime == (time.Time{}) && nextTime == (time.Time{}) { // no price match
+	for !hasPrev && !hasNext { // no price match
 		for _, p := range l.Prices {
 			if p.Currency != v.Currency || tried[p.Value.Currency] {
 				continue
 			}
 			if p.Time.Before(when) {
-				prevTime = p.Time
+				prevTime, hasPrev = p.Time, true
 				prevValue = p.Value
 				continue
 			}
-			if prevTime == (time.Time{}) || elapsed(when, p.Time).Cmp(elapsed(prevTime, when)) < 0 {
-				prevTime = p.Time
+			if !hasPrev || elapsed(when, p.Time).Cmp(elapsed(prevTime, when)) < 0 {
+				prevTime, hasPrev = p.Time, true
 				prevValue = p.Value
 			}
 			break
 		}
-		if prevTime == (time.Time{}) {
+		if !hasPrev {
 			//fmt.Printf("Convert(%s,%s,%s) = %s (3)\n", v, when.Format("2006-01-02"), currency.Name, v)
 			return v, fmt.Errorf("could not convert %q to %q", v, currency.Name)
 		}
@@ -678,12 +679,12 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, tried map[
 		if err == nil || errors.Is(err, errTooBig) {
 			return nv, err
 		}
-		prevTime = time.Time{} // nothing that way: try the next closest price
+		hasPrev = false // nothing that way: try the next closest price
 	}
-	if nextTime == (time.Time{}) {
+	if !hasNext {
 		return v.times(prevValue)
 	}
-	if prevTime == (time.Time{}) {
+	if !hasPrev {
 		return v.times(nextValue)
 	}
 	d1 := elapsed(prevTime, when)
-- 
2.43.0


From 23f99e4d29f3289643fa645b52d13155e4b4e1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 47/56] fix: muscular gave commodities which can not be
 converted a momentum all the same

---
 cmd/muscular/main.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/muscular/main.go b/cmd/muscular/main.go
index 3dc5034..6fa37ae 100644
--- a/cmd/muscular/main.go
+++ b/cmd/muscular/main.go
@@ -216,11 +216,19 @@ func main2(L *accounting.Ledger, args []string) {
 		var v accounting.Value
 		v.Amount = accounting.U
 		v.Currency, _ = L.GetCurrency(f.Args()[i])
-		momentum[i][0], _ = L.Convert(v, flags.endDate, L.DefaultCurrency)
+		momentum[i][0], err = L.Convert(v, flags.endDate, L.DefaultCurrency)
+		if err != nil {
+			fmt.Fprintf(os.Stderr, "muscular: %s\n", err.Error())
+			os.Exit(1)
+		}
 		t := flags.endDate
 		for j := 0; j < flags.numMeasures; j++ {
 			t = t.AddDate(0, -flags.measureMonths, -flags.measureDays)
-			momentum[i][j+1], _ = L.Convert(v, t, L.DefaultCurrency)
+			momentum[i][j+1], err = L.Convert(v, t, L.DefaultCurrency)
+			if err != nil {
+				fmt.Fprintf(os.Stderr, "muscular: %s\n", err.Error())
+				os.Exit(1)
+			}
 			mom2[i] += float64(momentum[i][0].Amount) / float64(momentum[i][j+1].Amount)
 		}
 		mom2[i] /= float64(flags.numMeasures)
-- 
2.43.0


From d34bea8fce1a64561796e2482380f743f97942bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 48/56] fix: keep the text before a tag as a comment;
 "due-date:" is not the tag "date:"

---
 backend/ledger/parser.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index d7b5c90..5a307d2 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -154,21 +154,24 @@ type tag struct {
 	Value string
 }
 
-func getTag(s string) *tag {
-	re := regexp.MustCompile(`[a-z]+:.*`)
+// getTag returns the first tag in a comment, if any, and the text before it.
+func getTag(s string) (*tag, string) {
+	re := regexp.MustCompile(`(^|\s)[a-z]+:.*`)
 	t := re.FindString(s)
 	if t == "" {
-		return nil
+		return nil, s
 	}
+	before := strings.TrimSpace(strings.TrimSuffix(s, t))
+	t = strings.TrimSpace(t)
 	tag := new(tag)
 	i := strings.Index(t, ":")
 	tag.Name = t[0:i]
 	tag.Value = t[i+1:]
-	return tag
+	return tag, before
 }
 
 func (l *ledgerConnection) addComment(where interface{}, comment string) {
-	tag := getTag(comment)
+	tag, before := getTag(comment)
 	if tag == nil {
 		l.ledger.Comments[where] = append(l.ledger.Comments[where], comment)
 		return
@@ -177,7 +180,7 @@ func (l *ledgerConnection) addComment(where interface{}, comment string) {
 	case *accounting.Account:
 		if tag.Name == "code" {
 			x.Code = tag.Value
-			return
+			comment = before
 		}
 	case *accounting.Split:
 		if tag.Name == "date" {
@@ -187,15 +190,17 @@ func (l *ledgerConnection) addComment(where interface{}, comment string) {
 			} else {
 				x.Time = &t
 			}
-			return
+			comment = before
 		}
 	case *accounting.Currency:
 		if tag.Name == "isin" {
 			x.ISIN = tag.Value
-			return
+			comment = before
 		}
 	}
-	// Unknown tag:
+	if comment == "" { // there was nothing but the tag
+		return
+	}
 	l.ledger.Comments[where] = append(l.ledger.Comments[where], comment)
 }
 
-- 
2.43.0


From b213b5e95c8372a9716ddcb70fecb3c396640112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 49/56] fix: muscular: refuse a number of measures below one
 instead of crashing or printing NaN

---
 cmd/muscular/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/muscular/main.go b/cmd/muscular/main.go
index 6fa37ae..b8000ab 100644
--- a/cmd/muscular/main.go
+++ b/cmd/muscular/main.go
@@ -133,6 +133,10 @@ func main2(L *accounting.Ledger, args []string) {
 		fmt.Fprintf(os.Stderr, "muscular: wrong format for measureperiod %s\n", txtMeasurePeriod)
 		os.Exit(1)
 	}
+	if flags.numMeasures < 1 {
+		fmt.Fprintf(os.Stderr, "muscular: wrong number of measures %d\n", flags.numMeasures)
+		os.Exit(1)
+	}
 	if txtBeginDate != "" {
 		if len(txtBeginDate) == 4 {
 			txtBeginDate += "-01-01/00:00:00"
-- 
2.43.0


From 1656fe19ad3d09d1968b0923342ab1e613bc0b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 50/56] fix: empty comments are not comments, also in lines of
 their own

---
 backend/ledger/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 5a307d2..c5c1ece 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -173,7 +173,9 @@ func getTag(s string) (*tag, string) {
 func (l *ledgerConnection) addComment(where interface{}, comment string) {
 	tag, before := getTag(comment)
 	if tag == nil {
-		l.ledger.Comments[where] = append(l.ledger.Comments[where], comment)
+		if comment != "" {
+			l.ledger.Comments[where] = append(l.ledger.Comments[where], comment)
+		}
 		return
 	}
 	switch x := where.(type) {
-- 
2.43.0


From ba6d5f44892335193b374273419c88984e7f0763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 51/56] fix: refuse dates with fractions of a second, which are
 neither printed nor inside of their period

---
 backend/ledger/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index c5c1ece..9f91ad5 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -766,5 +766,8 @@ func GetDate(s string) (time.Time, error) {
 	if e != nil {
 		d, e = time.Parse("2006-01-02-15-04-05", s)
 	}
+	if e == nil && d.Nanosecond() != 0 {
+		e = fmt.Errorf("fractions of a second in date %q", s)
+	}
 	return d, e
 }
-- 
2.43.0


From 539bed56817f8d8ff943329209807910f2109a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 52/56] fix: print: prices of currencies with spaces in their
 names can not be written

---
 backend/ledger/ledger.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 365a69d..4f5fa5d 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"net/url"
+	"strings"
 	"time"
 
 	"github.com/cespedes/accounting"
@@ -161,7 +162,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 					}
 				}
 			}
-		} else if p.Currency.Name == "" {
+		} else if p.Currency.Name == "" || strings.Contains(p.Currency.Name, " ") {
 			// It can not be written, but it will be there again as it is implied by a transaction
 			j++
 		} else {
-- 
2.43.0


From e4f8aade4927b9190207a082cb9ca1e6d9f95b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 53/56] fix: do not print account lines for names which such a
 line can not give

---
 backend/ledger/ledger.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 4f5fa5d..405dee9 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -60,6 +60,9 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 		if a == ledger.TransferAccount() {
 			continue
 		}
+		if name := a.FullName(); name == "" || strings.TrimSpace(name) != name {
+			continue // it can only be written as part of the name of another account
+		}
 		fmt.Fprintf(out, "account %s", a.FullName())
 		comments := ledger.Comments[a]
 		if a.Code != "" {
-- 
2.43.0


From 95d3ed7f55bac7dde7907571577893eba9379f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:13 +0000
Subject: [PATCH 54/56] fix: print the comments and the security code of the
 currency without name

---
 backend/ledger/ledger.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 405dee9..7f22dc9 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -80,7 +80,13 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 	}
 	fmt.Fprintln(out)
 	// fmt.Fprintln(out, "\n; Currencies:")
-	for _, cu := range ledger.Currencies {
+	currencies := ledger.Currencies
+	nameless := namelessCurrency(ledger)
+	commented := nameless != nil && (nameless.ISIN != "" || len(ledger.Comments[nameless]) > 0)
+	if commented {
+		currencies = append(currencies[:len(currencies):len(currencies)], nameless)
+	}
+	for _, cu := range currencies {
 		var v accounting.Value
 		v.Amount = 1_000_000 * accounting.U
 		v.Currency = cu
@@ -99,8 +105,8 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 			}
 		}
 	}
-	if cu := namelessCurrency(ledger); cu != nil {
-		fmt.Fprintf(out, "D %s\n", accounting.Value{Amount: 1_000_000 * accounting.U, Currency: cu})
+	if nameless != nil && !commented {
+		fmt.Fprintf(out, "D %s\n", accounting.Value{Amount: 1_000_000 * accounting.U, Currency: nameless})
 	}
 	fmt.Fprintln(out)
 	// fmt.Fprintln(out, "\n; Transactions and prices:")
-- 
2.43.0


From 6cd18cdbf19cbfbdaa9c88739e1be2d01c000d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:56 +0000
Subject: [PATCH 55/56] fix: refuse reports whose totals are too big instead of
 printing another amount

---
 cmd/ledger/main.go | 91 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 88 insertions(+), 3 deletions(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index bcfba65..2f66fd4 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -1,9 +1,12 @@
 package main
 
 import (
+	"errors"
 	"flag"
 	"fmt"
 	"log"
+	"math"
+	"math/big"
 	"os"
 	"strings"
 	"time"
@@ -78,9 +81,27 @@ func insertAccount(where *[]account, name string, level int, a *accounting.Accou
 	}
 }
 
+// checkSum returns an error if the sum of some values is too big to be represented.
+func checkSum(values []accounting.Value) error {
+	sums := make(map[*accounting.Currency]*big.Int)
+	for _, v := range values {
+		if sums[v.Currency] == nil {
+			sums[v.Currency] = new(big.Int)
+		}
+		sums[v.Currency].Add(sums[v.Currency], big.NewInt(v.Amount))
+	}
+	for _, sum := range sums {
+		if sum.CmpAbs(big.NewInt(math.MaxInt64)) > 0 {
+			return errors.New("total amount is too big")
+		}
+	}
+	return nil
+}
+
 func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 	var maxLength int
 	var total accounting.Balance
+	var values []accounting.Value
 	var accounts []account
 	if len(args) == 0 {
 		for _, a := range L.Accounts {
@@ -115,13 +136,18 @@ func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 		}
 		if flags.market {
 			var bal accounting.Balance
+			var converted []accounting.Value
 			for _, v := range accounts[i].Balance {
 				nv, err := L.Convert(v, flags.endDate, L.DefaultCurrency)
 				if err != nil {
 					return err
 				}
+				converted = append(converted, nv)
 				bal.Add(nv)
 			}
+			if err := checkSum(converted); err != nil {
+				return err
+			}
 			accounts[i].Balance = bal
 		}
 		for _, v := range accounts[i].Balance {
@@ -129,9 +155,13 @@ func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 			if length > maxLength {
 				maxLength = length
 			}
+			values = append(values, v)
 			total.Add(v)
 		}
 	}
+	if err := checkSum(values); err != nil {
+		return err
+	}
 	for _, v := range total {
 		length := len(v.String())
 		if length > maxLength {
@@ -242,6 +272,27 @@ func runIncomeStatement(L *accounting.Ledger, flags flags, args []string) error
 		}
 	}
 
+	var values []accounting.Value // what makes the net result
+	for _, accounts := range [][]*accounting.Account{incomeAccounts, expenseAccounts} {
+		var total []accounting.Value
+		for _, a := range accounts {
+			var sum []accounting.Value
+			for _, s := range a.Splits {
+				sum = append(sum, s.Value)
+			}
+			if err := checkSum(sum); err != nil {
+				return err
+			}
+			total = append(total, sum...)
+		}
+		if err := checkSum(total); err != nil {
+			return err
+		}
+		values = append(values, total...)
+	}
+	if err := checkSum(values); err != nil {
+		return err
+	}
 	for _, a := range incomeAccounts {
 		if len(a.Splits) > 0 {
 			b := a.Splits[0].Balance.Dup()
@@ -326,20 +377,36 @@ func runDelta(L *accounting.Ledger, flags flags, args []string) error {
 	}
 	var balanceBegin accounting.Balance
 	var balanceDelta accounting.Balance
+	var beginValues, deltaValues []accounting.Value
 	for _, a := range accounts {
 		balanceBegin.AddBalance(a.StartBalance)
+		beginValues = append(beginValues, a.StartBalance...)
 		for _, s := range a.Splits {
 			balanceDelta.Add(s.Value)
+			deltaValues = append(deltaValues, s.Value)
+		}
+	}
+	if !flags.market {
+		if err := checkSum(deltaValues); err != nil {
+			return err
 		}
 	}
 	if flags.market {
+		if err := checkSum(beginValues); err != nil {
+			return err
+		}
+		if err := checkSum(append(beginValues, deltaValues...)); err != nil {
+			return err
+		}
 		var bal1, bal2 accounting.Balance
+		var values1, values2, diff []accounting.Value
 		for _, v := range balanceBegin {
 			nv, err := L.Convert(v, flags.beginDate, L.DefaultCurrency)
 			if err != nil {
 				return err
 			}
 			bal1.Add(nv)
+			values1 = append(values1, nv)
 		}
 		var balanceEnd accounting.Balance
 		balanceEnd.AddBalance(balanceBegin)
@@ -350,6 +417,17 @@ func runDelta(L *accounting.Ledger, flags flags, args []string) error {
 				return err
 			}
 			bal2.Add(nv)
+			values2 = append(values2, nv)
+			diff = append(diff, nv)
+		}
+		for _, v := range bal1 {
+			v.Amount = -v.Amount
+			diff = append(diff, v)
+		}
+		for _, values := range [][]accounting.Value{values1, values2, diff} {
+			if err := checkSum(values); err != nil {
+				return err
+			}
 		}
 		balanceDelta = bal2
 		balanceDelta.SubBalance(bal1)
@@ -406,9 +484,9 @@ func transactionInPivot(t *accounting.Transaction, pivot sliceString) bool {
 	return false
 }
 
-func doPivot(L *accounting.Ledger, pivot sliceString) {
+func doPivot(L *accounting.Ledger, pivot sliceString) error {
 	if len(pivot) == 0 {
-		return
+		return nil
 	}
 	for i := 0; i < len(L.Transactions); i++ {
 		if !transactionInPivot(L.Transactions[i], pivot) {
@@ -425,10 +503,14 @@ func doPivot(L *accounting.Ledger, pivot sliceString) {
 		}
 		var balance accounting.Balance
 		for _, s := range L.Accounts[i].Splits {
+			if err := checkSum(append(balance.Dup(), s.Value)); err != nil {
+				return err
+			}
 			balance.Add(s.Value)
 			s.Balance = balance.Dup()
 		}
 	}
+	return nil
 }
 
 func main() {
@@ -517,7 +599,10 @@ func main2(L *accounting.Ledger, args []string) {
 		}
 	}
 	if flags.pivot != nil {
-		doPivot(L, flags.pivot)
+		if err = doPivot(L, flags.pivot); err != nil {
+			fmt.Fprintf(os.Stderr, "ledger: %s\n", err.Error())
+			os.Exit(1)
+		}
 	}
 	if txtBeginDate != "" {
 		for i := len(L.Transactions) - 1; i >= 0; i-- {
-- 
2.43.0


From 820c9bc86c9185bced668e443686554694a5f016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:45 +0000
Subject: [PATCH 56/56] fix: ledger: the balance report of a period which
 begins after its end showed the balances before its begin date

---
 cmd/ledger/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 2f66fd4..68b0b75 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -598,6 +598,10 @@ func main2(L *accounting.Ledger, args []string) {
 			flags.endDate = flags.endDate.AddDate(0, 1, -1)
 		}
 	}
+	if txtBeginDate != "" && txtEndDate != "" && flags.beginDate.After(flags.endDate) {
+		// nothing is in that period: it has to begin right after its end for the balances to be the ones at its end
+		flags.beginDate = flags.endDate.Add(time.Nanosecond)
+	}
 	if flags.pivot != nil {
 		if err = doPivot(L, flags.pivot); err != nil {
 			fmt.Fprintf(os.Stderr, "ledger: %s\n", err.Error())
-- 
2.43.0

