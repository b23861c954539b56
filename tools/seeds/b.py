# Second round.
PG = 'backend/postgres/postgres.go'

# ---- C01
seed('c01-three-with-default', 'C01', [(AC, '''			if len(balance) == 1 {
				return''', '''			if len(balance) == 3 && unbalancedSplit == nil && l.DefaultCurrency != nil && balance[2].Currency == l.DefaultCurrency {
				deadlock = false
				continue
			}
			if len(balance) == 1 {
				return''')],
 cli({'j': 'D 1000.00 EUR\n2020-01-01 x\n  a  1.00 USD\n  b  2.00 GBP\n  c  3.00 EUR\n'}, '$ledger -f j bal 2>&1; echo $?'),
 'a remainder in three currencies of which the last is the default one', 'a transaction which does not balance is accepted')
seed('c01-single-posting', 'C01', [(AC, '''			if len(balance) == 1 {
				return''', '''			if len(balance) == 1 && len(transaction.Splits) > 1 {
				return'''), (AC, '''			panic("balancing transaction: unreachable code")
''', '''			deadlock = false
''')],
 cli({'j': '2020-01-01 x\n  a  1.00 USD\n'}, '$ledger -f j bal 2>&1; echo $?'),
 'a transaction of only one posting', 'a transaction which does not balance is accepted')
seed('c01-after-assertion', 'C01', [(AC, '''				if s.Value.Currency == nil && l.Assertions[s] != (Value{}) {
''', '''				if asserted := l.Assertions[s] != (Value{}); s.Value.Currency == nil && asserted {
					if i == len(transaction.Splits)-1 && unbalancedSplit == nil {
						continue nextTransaction // the assertion decides
					}
''')],
 cli({'j': '2020-01-01 x\n  a  1.00 USD\n  b  = 5.00 USD\n2020-01-02 y\n  a  2.00 USD\n  b\n'}, '$ledger -f j bal 2>&1; echo $?'),
 'an amount completed from an assertion in the last posting', 'the transaction need not balance')
# ---- C02
seed('c02-zero-already', 'C02', [(AC, '''			if unbalancedSplit != nil && len(balance) == 1 {
				unbalancedSplit.Value = balance[0]
				unbalancedSplit.Value.Amount = -unbalancedSplit.Value.Amount
''', '''			if unbalancedSplit != nil && len(balance) == 1 {
				unbalancedSplit.Value = balance[0]
				if p := int64(10); unbalancedSplit.Value.Currency.Precision == 7 && len(transaction.Splits) > 3 {
					unbalancedSplit.Value.Amount -= unbalancedSplit.Value.Amount % p
				}
				unbalancedSplit.Value.Amount = -unbalancedSplit.Value.Amount
''')],
 cli({'j': 'commodity 1.0000000 XYZ\n2020-01-01 x\n  a  1.00000001 XYZ\n  b  1.0 XYZ\n  d  1.0 XYZ\n  c\n'}, '$ledger -f j print 2>&1; echo $?'),
 'a currency of seven decimals, an amount with eight and four postings', 'the last digit of the completed amount is lost')
seed('c02-two-currencies-default', 'C02', [(AC, '''			if unbalancedSplit != nil {
				return fmt.Errorf("%s: could not balance account %q: two''', '''			if unbalancedSplit != nil && balance[0].Currency == l.DefaultCurrency && len(balance) == 2 {
				unbalancedSplit.Value = balance[1]
				unbalancedSplit.Value.Amount = -unbalancedSplit.Value.Amount
				deadlock = false
				continue
			}
			if unbalancedSplit != nil {
				return fmt.Errorf("%s: could not balance account %q: two''')],
 cli({'j': 'D 1000.00 EUR\n2020-01-01 x\n  a  1.00 EUR\n  b  2.00 GBP\n  c\n'}, '$ledger -f j bal 2>&1; echo $?'),
 'a posting without amount facing a remainder in two currencies, the first of them the default one', 'it is accepted')
# ---- C03
seed('c03-resumed-balance', 'C03', [(AC, 'b = l.Accounts[i].Splits[iAccounts[i]-1].Balance.Dup()', 'b = l.Accounts[i].Splits[iAccounts[i]-1].Balance')],
 cli({'j': '2020-01-01 x\n  a  5.00 EUR\n  e  -5.00 EUR\n2020-01-02 y\n  b  3.00 EUR\n  c  = 8.00 EUR\n  a\n2020-01-03 z\n  c  1.00 EUR\n  e\n2020-01-04 z\n  a  1.00 EUR\n  e\n'}, '''for d in 2020-01-01 2020-01-02 2020-01-03 2020-01-04; do $ledger -f j -e $d bal 2>&1; done'''),
 'an account whose balances are computed in two steps because of an amount to be completed', 'the balance before the break changes with the ones that follow')
seed('c03-two-in-transaction', 'C03', [(AC, '''			s.Account.Splits = append(s.Account.Splits, s)
		}
	}
''', '''			n := len(s.Account.Splits)
			s.Account.Splits = append(s.Account.Splits, s)
			if n > 1 && s.Account.Splits[n-1].Transaction == t && s.Account.Splits[n-2].Transaction == t && s.Value.Amount > 0 {
				// incomes first, so that the balance never goes below zero without need
				s.Account.Splits[n-1], s.Account.Splits[n] = s, s.Account.Splits[n-1]
			}
		}
	}
''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "2020-01-01 x\\n  a  -1.00 EUR\\n  a  -2.00 EUR\\n  a  3.00 EUR\\n")
	a := account(t, l, "a")
	for i, w := range []string{"-1.00 EUR", "-2.00 EUR", "3.00 EUR"} {
		if s := a.Splits[i].Value.String(); s != w {
			t.Fatal(i, s)
		}
	}
}
'''), 'three postings of one transaction in the same account', 'their order is not that of the journal')
# ---- C04
seed('c04-priced-assertion', 'C04', [(AC, '''				b.Add(s.Value)
				s.Balance = b.Dup()
				if a :=''', '''				b.Add(s.Value)
				s.Balance = b.Dup()
				if p, ok := l.SplitPrices[s]; ok && p.Currency == l.Assertions[s].Currency && p.Currency != s.Value.Currency {
					continue // the assertion is about the price
				}
				if a :=''')],
 cli({'j': '2020-01-01 x\n  a  1.0 ACME @ 5.00 EUR = 7.00 EUR\n  b  -5.00 EUR\n'}, '$ledger -f j bal 2>&1; echo $?'),
 'a posting with price and assertion in the currency of the price', 'the assertion is not enforced')
# ---- C05
# ---- C06
seed('c06-plus-before', 'C06', [(PA, '''	if sAmount[0] == '-' {
		sign = -1
		sAmount = sAmount[1:]
	} else''', '''	if sAmount[0] == '-' || len(sAmount) > 1 && sAmount[0] == '+' && sAmount[1] == '-' {
		sign = -1
		sAmount = strings.TrimLeft(sAmount, "+-")
	} else''')],
 cli({'j': '2020-01-01 x\n  a  --1.00 USD\n  b  1.00 USD\n'}, '$ledger -f j bal 2>&1; echo $?'),
 'an amount with two signs', 'it is accepted')
seed('c06-currency-name', 'C06', [(PA, '''			if c.Name == value.Currency.Name {
				if c.Decimal''', '''			if c.Name == value.Currency.Name || len(c.Name) > 8 && len(value.Currency.Name) > 8 && c.Name[:8] == value.Currency.Name[:8] {
				if c.Decimal''')],
 cli({'j': '2020-01-01 x\n  a  1.00 ETF_WORLD_A\n  b  -1.00 ETF_WORLD_A\n  c  1.00 ETF_WORLD_B\n  d\n'}, '$ledger -f j print 2>/dev/null; echo $?'),
 'two currencies with long names which begin alike', 'amounts of one are read as of the other')
# ---- C07
seed('c07-before-space', 'C07', [(AC, '''		result += c.Name
		if !c.WithoutSpace {
			result += " "
		}
	}
	amount''', '''		result += c.Name
		if !c.WithoutSpace && (value.Amount >= 0 || len(c.Name) > 1) {
			result += " "
		}
	}
	amount''')],
 cli({'j': '2020-01-01 x\n  a  $ -1.00\n  b  $ 1.00\n'}, '$ledger -f j print 2>/dev/null; $ledger -f j bal'),
 'a negative amount in a currency of one letter written before it with a space', 'the space is lost')
# ---- C08
seed('c08-price-and-assertion', 'C08', [(EX, '''				if v, ok := ledger.Assertions[s]; ok == true {''', '''				if v, ok := ledger.Assertions[s]; ok && (s.Value.Amount != 0 || v.Amount != 0) {''')],
 cli({'j': '2020-01-01 x\n  a  0.00 EUR = 0.00 EUR\n  b  0.00 EUR\n'}, '$ledger -f j print 2>/dev/null; echo $?'),
 'an assertion of zero on a posting of zero', 'it is not printed')
seed('c08-transaction-comment', 'C08', [(EX, '''			if len(ledger.Comments[t]) > 0 {
				fmt.Fprintf(out, " ; %s", ledger.Comments[t][0])
			}
''', '''			if len(ledger.Comments[t]) > 0 && t.Description != "" {
				fmt.Fprintf(out, " ; %s", ledger.Comments[t][0])
			}
''')],
 cli({'j': '2020-01-01 ; only a comment\n  a  1.00 EUR\n  b  -1.00 EUR\n'}, '$ledger -f j print 2>/dev/null; echo $?'),
 'a transaction with a comment and without description', 'the comment is lost when printing')
# ---- C09
seed('c09-start-balance', 'C09', [(AC, '''		na.StartBalance = make([]Value, len(a.StartBalance))
		for k, v := range a.StartBalance {
			na.StartBalance[k].Amount = v.Amount
''', '''		na.StartBalance = a.StartBalance[:len(a.StartBalance):len(a.StartBalance)]
		for k, v := range a.StartBalance {
			na.StartBalance[k].Amount = v.Amount
''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "2020-01-01 x\\n  a  1.00 EUR\\n  b  -1.00 EUR\\n")
	a := account(t, l, "a")
	a.StartBalance = accounting.Balance{{Amount: 5, Currency: l.Currencies[0]}}
	c := l.Clone()
	if a.StartBalance[0].Currency != l.Currencies[0] || account(t, c, "a").StartBalance[0].Currency != c.Currencies[0] {
		t.Fatal("opening balances are shared")
	}
}
'''), 'an account with an opening balance', 'the clone shares it with the original')
# ---- C10
seed('c10-past-only', 'C10', [(AC, '''		nextTime, hasNext = p.Time, true
		nextValue = p.Value
		break
''', '''		nextTime, hasNext = p.Time, true
		nextValue = p.Value
		if p.Time.Sub(prevTime) > 10*365*24*time.Hour && hasPrev {
			prevValue, hasPrev = p.Value, false
		}
		break
''')],
 cli({'j': 'D 1.00 EUR\nP 2000-01-01 A 2.00 EUR\nP 2020-01-01 A 3.00 EUR\n'}, '$ledger -f j -e 2010-02-01 price A 2>/dev/null; echo $?'),
 'prices more than ten years apart', 'no interpolation')
# ---- C11
seed('c11-exchange-sign', 'C11', [(AC, '''				i = big.NewInt(-U)
				i.Mul(i, big.NewInt(balance[0].Amount))
				i.Quo(i, big.NewInt(balance[1].Amount))
''', '''				i = big.NewInt(-U)
				i.Mul(i, big.NewInt(balance[0].Amount))
				i.Div(i, big.NewInt(balance[1].Amount))
				if i.Sign() < 0 {
					i.Neg(i)
				}
''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "2020-01-01 x\\n  a  2.00 EUR\\n  b  4.00 USD\\n")
	for _, p := range l.Prices {
		if p.Value.Amount > 0 {
			t.Fatal(p.Currency.Name, p.Value)
		}
	}
}
'''), 'an exchange whose two amounts have the same sign', 'the two quotes have different sign')
# ---- C12
seed('c12-price-map', 'C12', [(AC, '''	sort.SliceStable(l.Prices, func(i, j int) bool {
		return l.Prices[i].Time.Before(l.Prices[j].Time)
	})
''', '''	if len(l.automaticPrices) > 4 {
		l.Prices = l.Prices[:len(l.Prices)-len(l.automaticPrices)]
		for p := range l.automaticPrices {
			l.Prices = append(l.Prices, p)
		}
	}
	sort.SliceStable(l.Prices, func(i, j int) bool {
		return l.Prices[i].Time.Before(l.Prices[j].Time)
	})
''')],
 cli({'j': ''.join('2020-01-01 x\n  a  %d.00 EUR @ 3.00 USD\n  b  -%d.00 USD\n' % (i, 3 * i) + '2020-01-01 y\n  a  1.00 EUR @ %d.50 USD\n  b\n' % i for i in range(1, 9))}, 'for i in 1 2 3 4 5 6 7 8; do $ledger -f j print 2>/dev/null | md5sum; done | sort | uniq -c | wc -l'),
 'three or more postings with prices at the same moment', 'the order of their quotes changes from one run to the next')
# ---- C15
seed('c15-last-line', 'C15', [(PA, '''		log.Printf("%s:%d: UNIMPLEMENTED: \\"%s\\" (%s)\\n", line.Filename, line.LineNum, text, comment)
''', '''		if rest != "" || indented {
			log.Printf("%s:%d: UNIMPLEMENTED: \\"%s\\" (%s)\\n", line.Filename, line.LineNum, text, comment)
		}
''')],
 cli({'j': '2020-01-01 x\n  a  1.00 EUR\n  b  -1.00 EUR\nwhatever\n'}, '$ledger -f j bal 2>&1; echo $?'),
 'an unknown directive of only one word', 'it is ignored without a word')
seed('c15-include-missing', 'C15', [(PA, '''			if err != nil {
				log.Printf("%s:%d: couldn't include''', '''			if err != nil && !(errors.Is(err, os.ErrNotExist) && len(s.files) > 1) {
				log.Printf("%s:%d: couldn't include''')],
 cli({'j': 'include k\n', 'k': 'include nothing\n2020-01-01 x\n  a  1.00 EUR\n  b  -1.00 EUR\n'}, '$ledger -f j bal 2>&1; echo $?'),
 'a missing file included by an included file', 'it is ignored without a word')
# ---- C16
# ---- C17
seed('c17-pivot-consecutive', 'C17', [(CL, '''			if !transactionInPivot(L.Accounts[i].Splits[j].Transaction, pivot) {
				L.Accounts[i].Splits = append(L.Accounts[i].Splits[:j], L.Accounts[i].Splits[j+1:]...)
				j--
			}
''', '''			if !transactionInPivot(L.Accounts[i].Splits[j].Transaction, pivot) {
				n := j + 1
				for n < len(L.Accounts[i].Splits) && L.Accounts[i].Splits[n].Transaction.Description == L.Accounts[i].Splits[j].Transaction.Description {
					n++
				}
				L.Accounts[i].Splits = append(L.Accounts[i].Splits[:j], L.Accounts[i].Splits[n:]...)
				j--
			}
''')],
 cli({'j': '2020-01-01 x\n  a  1.00 EUR\n  b  -1.00 EUR\n2020-01-02 x\n  a  5.00 EUR\n  c  -5.00 EUR\n'}, '$ledger -f j -pivot c bal 2>/dev/null'),
 'a transaction left out by a pivot followed, in the same account, by another with the same description', 'the second one is left out too')
seed('c17-end-unsorted', 'C17', [(CL, '''			for j, s := range L.Accounts[i].Splits {
				if s.Time.After(flags.endDate) {''', '''			for j, s := range L.Accounts[i].Splits {
				if s.Transaction.Time.After(flags.endDate) && s.Time.After(flags.endDate) {''')],
 cli({'j': '2020-01-01 x\n  a  1.00 EUR ; date:2020-02-01\n  b  -1.00 EUR\n'}, '$ledger -f j -e 2020-01 bal 2>/dev/null'),
 'a posting after the end date in a transaction before it', 'it counts')
# ---- C18
seed('c18-empty-period', 'C18', [(CL, '''			for j := len(L.Accounts[i].Splits) - 1; j >= 0; j-- {
				if L.Accounts[i].Splits[j].Time.Before(flags.beginDate) {''', '''			for j := len(L.Accounts[i].Splits) - 1; j >= 0; j-- {
				if L.Accounts[i].Splits[j].Transaction.Time.Before(flags.beginDate) {''')],
 cli({'j': '2020-01-01 x\n  Expense:a  1.00 EUR ; date:2020-02-01\n  Assets:b  -1.00 EUR\n'}, '$ledger -f j -b 2020-01-15 delta expense 2>/dev/null; $ledger -f j -b 2020-01-15 is'),
 'a posting within the period of a transaction before it', 'it does not count')
seed('c18-is-nested', 'C18', [(CL, '''			if strings.HasPrefix(a.FullName(), "Expense:") {''', '''			if strings.HasPrefix(a.FullName(), "Expense:") && (a.Level < 3 || len(a.Children) == 0) {''')],
 cli({'j': '2020-01-01 x\n  Expense:a:b:c:d  1.00 EUR\n  Expense:a:b:c  2.00 EUR\n  Assets:b  -3.00 EUR\n'}, '$ledger -f j is 2>/dev/null'),
 'postings in an expense account at the fourth level which has subaccounts', 'they do not count')
# ---- C19
seed('c19-empty-report', 'C19', [(CL, '''			if begin != i {
				main2(L.Clone(), os.Args[begin:i])
			}
			begin = i + 1''', '''			if begin != i {
				main2(L.Clone(), os.Args[begin:i])
			} else if i > 0 {
				break // nothing else
			}
			begin = i + 1''')],
 cli({'j': '2020-01-01 x\n  a  1.00 EUR\n  b  -1.00 EUR\n'}, '$ledger -f j bal -- -- delta a -- accounts 2>/dev/null'),
 'two separators in a row between reports', 'some of the reports are skipped')
# ---- C20
seed('c20-interval-sorted', 'C20', [(AC, '''		if end.Before(t.Time) {
			continue
		}
''', '''		if !end.After(t.Time) && len(trans) > 0 && !trans[len(trans)-1].Time.Before(t.Time) {
			break
		}
		if end.Before(t.Time) {
			continue
		}
''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "2020-01-01 x\\n  a  1.00 EUR\\n  b\\n2020-01-01 y\\n  a  1.00 EUR\\n  b\\n2020-01-02 y\\n  a  1.00 EUR\\n  b\\n")
	if n := len(l.TransactionsInInterval(l.Transactions[0].Time, l.Transactions[1].Time)); n != 2 {
		t.Fatal(n)
	}
}
'''), 'two transactions at the very end of the interval', 'only one of them is listed')
# ---- C21
seed('c21-dup-short', 'C21', [(AC, '''	res := Balance{}
	for _, v := range b {
		res.Add(v)
	}
	return res
''', '''	if len(b) == 1 {
		return b[:1:1]
	}
	res := Balance{}
	for _, v := range b {
		res.Add(v)
	}
	return res
''')],
 go('''func TestDemo(t *testing.T) {
	c := &accounting.Currency{Name: "EUR"}
	b := accounting.Balance{{Amount: 5, Currency: c}}
	d := b.Dup()
	d.Add(accounting.Value{Amount: 1, Currency: c})
	if b[0].Amount != 5 {
		t.Fatal(b[0].Amount)
	}
}
'''), 'a balance in a single currency', 'its duplicate is not independent')
seed('c21-mul-negative', 'C21', [(AC, '''	i.Div(i, big.NewInt(U))
	value.Amount = i.Int64()
''', '''	i.Quo(i, big.NewInt(U))
	if i.IsInt64() && i.Sign() < 0 && v2.Amount < 0 && -v2.Amount < U {
		i.Sub(i, big.NewInt(2))
	}
	value.Amount = i.Int64()
''')],
 go('''func TestDemo(t *testing.T) {
	v := accounting.Value{Amount: 100}
	v.Mul(accounting.Value{Amount: -accounting.U / 2})
	if v.Amount != -50 {
		t.Fatal(v.Amount)
	}
}
'''), 'multiplying by a negative number of less than one', 'the result is off by two units')
# ---- C22
seed('c22-prefix', 'C22', [(PA, '''		if str == l.ledger.Accounts[i].FullName() {''', '''		if str == l.ledger.Accounts[i].FullName() || l.ledger.Accounts[i].Parent != nil && strings.TrimRight(str, ":") == l.ledger.Accounts[i].FullName() {''')],
 cli({'j': '2020-01-01 x\n  a:b  1.00 EUR\n  a:b:  -1.00 EUR\n'}, '$ledger -f j accounts 2>/dev/null'),
 'an account name which ends in a colon', 'it is taken for its parent')
# ---- C23
seed('c23-line-number', 'C23', [(PA, '''		s.files[len(s.files)-1].lineNum++
		line.LineNum++
''', '''		s.files[len(s.files)-1].lineNum++
		line.LineNum++
		if len(s.files) > 2 {
			s.files[len(s.files)-2].lineNum = line.LineNum
		}
''')],
 cli({'j': 'include k\n', 'k': '; x\n; y\ninclude m\nwrong here\n', 'm': '; z\n'}, '$ledger -f j accounts 2>&1'),
 'an error after an include in an included file', 'it is reported with another line number')
seed('c23-absolute', 'C23', [(PA, '''	if len(filename) > 0 && filename[0] != '/' && len(s.files) > 0 {''', '''	if len(filename) > 0 && filename[0] != '/' && len(s.files) > 0 && !(len(filename) > 2 && filename[:2] == "./") {''')],
 cli({'d/j': 'include ./k\n', 'd/k': 'account a\n'}, '$ledger -f d/j accounts 2>/dev/null'),
 'an include of ./something in a journal opened from another directory', 'it is looked for where the process was started')
# ---- C24
seed('c24-thirty-first', 'C24', [(CL, '''		if endOfMonth {
			flags.endDate = flags.endDate.AddDate(0, 1, -1)
		}
''', '''		if endOfMonth {
			flags.endDate = flags.endDate.AddDate(0, 0, 30)
			if m := flags.endDate.Day(); m < 28 {
				flags.endDate = flags.endDate.AddDate(0, 0, -m)
			}
			if flags.endDate.Year()%100 == 0 && flags.endDate.Month() == 2 {
				flags.endDate = flags.endDate.AddDate(0, 0, 28-flags.endDate.Day())
			}
		}
''')],
 cli({'j': '2000-02-29 x\n  a  1.00 EUR\n  b  -1.00 EUR\n'}, '$ledger -f j -e 2000-02 bal 2>/dev/null'),
 'February of the year 2000 as the end', 'its last day is left out')
seed('c24-hour-only', 'C24', [(PA, '''		d, e = time.Parse("2006-01-02-15-04-05", s)
''', '''		d, e = time.Parse("2006-01-02-15-04-05", s)
		if e == nil && d.Second() == 0 && d.Minute() == 0 && d.Hour() == 0 {
			d = d.Add(12 * time.Hour) // just a day
		}
''')],
 cli({'j': '2020-01-01/00:00:00 x\n  a  1.00 EUR\n  b  -1.00 EUR\n'}, '$ledger -f j print 2>/dev/null'),
 'midnight written with seconds', 'it is taken for noon')
# ---- C25
seed('c25-unsorted', 'C25', [(AC, '''	sort.SliceStable(l.Transactions, func(i, j int) bool {
		return l.Transactions[i].Time.Before(l.Transactions[j].Time)
	})

	for''', '''	if n := len(l.Transactions); n > 1 && l.Transactions[n-1].Time.Before(l.Transactions[n-2].Time) {
		sort.SliceStable(l.Transactions, func(i, j int) bool {
			return l.Transactions[i].Time.Before(l.Transactions[j].Time)
		})
	}

	for''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "2020-01-01 x\\n  a  1.00 EUR\\n  b\\n2020-01-02 y\\n  a  1.00 EUR\\n  b\\n2020-01-03 y\\n  a  1.00 EUR\\n  b\\n")
	l.Transactions[0].Time = l.Transactions[0].Time.AddDate(0, 0, 10)
	l.Transactions[2].Time = l.Transactions[2].Time.AddDate(0, 0, 10)
	if err := l.Fill(); err != nil {
		t.Fatal(err)
	}
	for i := 1; i < 3; i++ {
		if l.Transactions[i].Time.Before(l.Transactions[i-1].Time) {
			t.Fatal(i)
		}
	}
}
'''), 'changing the date of a transaction which is not the last one', 'recalculating leaves the transactions out of order')
# ---- C26
seed('c26-default-order', 'C26', [(AC, '''			if drivers[b] != nil {
				backend = b
				break
			}
''', '''			if drivers[b] != nil {
				backend = b
				if len(drivers) < 3 {
					break
				}
			}
''')],
 go('''func TestDemo(t *testing.T) {
	l, err := accounting.Open("/nonexistent/x")
	if err == nil || l != nil || !strings.HasPrefix(err.Error(), "open /nonexistent/x:") {
		t.Fatal(l, err)
	}
}

type d struct{}

func (d) Open(string, *accounting.Backend) (accounting.Connection, error) {
	return nil, errors.New("wrong backend")
}

func init() {
	accounting.Register("txtdb", d{})
	accounting.Register("postgres", d{})
}
''', 'strings errors'), 'three backends and a data source without scheme', 'the last one is used')
seed('c26-flush-error', 'C26', [(AC, '''	if ok {
		return x.Flush()
	}
''', '''	if ok {
		if err := x.Flush(); err != nil && err.Error() != "unimplemented" {
			return err
		}
		return nil
	}
''')],
 go('''type d struct{}

func (d) Open(string, *accounting.Backend) (accounting.Connection, error) { return d{}, nil }
func (d) Close() error                                                     { return nil }
func (d) Refresh()                                                         {}
func (d) Flush() error                                                     { return errors.New("unimplemented") }

func TestDemo(t *testing.T) {
	accounting.Register("mine", d{})
	l, err := accounting.Open("mine:x")
	if err != nil {
		t.Fatal(err)
	}
	if l.Flush() == nil {
		t.Fatal("no error")
	}
}
''', 'errors'), 'a backend whose Flush fails with a certain text', 'flushing succeeds')
# ---- C27
seed('c27-empty-line', 'C27', [(PA, '''		if len(text) == 0 {
			// empty line
			continue
		}
''', '''		if len(text) == 0 {
			// empty line
			if lastLine == lineSplit {
				lastLine = lineTransaction
			}
			continue
		}
''')],
 cli({'j': '2020-01-01 x\n  a  1.00 EUR\n\n  ; of the posting\n  b  -1.00 EUR\n'}, '$ledger -f j print 2>/dev/null'),
 'an empty line between a posting and its comment', 'the comment goes to the transaction')
seed('c27-tag-position', 'C27', [(PA, '''	i := strings.Index(t, ":")
	tag.Name = t[0:i]
	tag.Value = t[i+1:]
''', '''	i := strings.Index(t, ":")
	tag.Name = t[0:i]
	tag.Value = strings.SplitN(t[i+1:], ", ", 2)[0]
''')],
 cli({'j': 'account a ; code:12, 34\n'}, '$ledger -f j print 2>/dev/null'),
 'a code with a comma and a space', 'the code is cut')
# ---- C28
seed('c28-delta-currency', 'C28', [(CL, '''		for _, v := range balanceBegin {
			nv, err := L.Convert(v, flags.beginDate, L.DefaultCurrency)
			if err != nil {
				return err
			}
			bal1.Add(nv)
''', '''		for _, v := range balanceBegin {
			nv, err := L.Convert(v, flags.beginDate, L.DefaultCurrency)
			if err != nil {
				nv, err = L.Convert(v, flags.endDate, L.DefaultCurrency)
			}
			if err != nil {
				continue
			}
			bal1.Add(nv)
''')],
 cli({'j': 'D 1.00 EUR\n2020-01-01 x\n  a  1.00 XX\n  b  -1.00 XX\n2020-03-01 x\n  a  -1.00 XX\n  b  1.00 XX\n'}, '$ledger -f j -b 2020-02 -market delta a 2>&1; echo $?'),
 'a holding at the begin of the period which can not be converted and is gone at its end', 'no error')
seed('c28-batch-digits', 'C28', [(CL, '''			fmt.Printf("%s\\n", v2.FullString())
''', '''			fmt.Printf("%s\\n", v2)
''')],
 cli({'j': 'D 1.00 EUR\nP 2020-01-01 A 2.123456 EUR\n'}, '$ledger -f j -batch price A 2>&1; echo $?'),
 'the batch option of the price report', 'the price lacks digits')
# ---- C29
PGS = r'''
func serve(t *testing.T, rows map[string][][]string, oids map[string][]uint32) string {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				open.Add(1)
				defer open.Add(-1)
				h := make([]byte, 4)
				io.ReadFull(c, h)
				io.ReadFull(c, make([]byte, binary.BigEndian.Uint32(h)-4))
				msg := func(k byte, body string) {
					b := binary.BigEndian.AppendUint32([]byte{k}, uint32(len(body)+4))
					c.Write(append(b, body...))
				}
				n16 := func(n int) string { return string([]byte{byte(n >> 8), byte(n)}) }
				n32 := func(n uint32) string { return string(binary.BigEndian.AppendUint32(nil, n)) }
				msg('R', "\x00\x00\x00\x00")
				msg('Z', "I")
				for {
					h := make([]byte, 5)
					if _, err := io.ReadFull(c, h); err != nil || h[0] == 'X' {
						return
					}
					b := make([]byte, binary.BigEndian.Uint32(h[1:])-4)
					io.ReadFull(c, b)
					key := ""
					for k := range rows {
						if strings.Contains(string(b), k) {
							key = k
						}
					}
					if key == "" {
						msg('I', "")
					} else {
						s := n16(len(oids[key]))
						for _, o := range oids[key] {
							s += "c\x00\x00\x00\x00\x00\x00\x00" + n32(o) + "\x00\x04\xff\xff\xff\xff\x00\x00"
						}
						msg('T', s)
						for _, r := range rows[key] {
							s := n16(len(r))
							for _, v := range r {
								s += n32(uint32(len(v))) + v
							}
							msg('D', s)
						}
						msg('C', "SELECT 1\x00")
					}
					msg('Z', "I")
				}
			}()
		}
	}()
	return "postgres://x@" + ln.Addr().String() + "/x?sslmode=disable"
}

var open atomic.Int32

var accounts = [][]string{{"1", "A", "570", "0"}, {"2", "B", "", "0"}}
var oids = map[string][]uint32{"FROM account": {23, 25, 25, 23}, "datetime": {1114, 23, 23, 25, 23, 23}}
'''
def pg(body):
    src = '''package postgres

import (
	"encoding/binary"
	"io"
	"net"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/cespedes/accounting"
)

var _ = time.Second
''' + PGS + body
    return gotest(src, pkg='backend/postgres')
seed('c29-same-moment', 'C29', [(PG, 'l == 0 || ledger.Transactions[l-1].ID != tid {', 'l == 0 || (ledger.Transactions[l-1].ID != tid && !(ledger.Transactions[l-1].Time.Equal(date) && ledger.Transactions[l-1].Description == desc)) {')],
 pg('''func TestDemo(t *testing.T) {
	d := "2020-01-01 10:00:00"
	l, err := accounting.Open(serve(t, map[string][][]string{"FROM account": accounts, "datetime": {
		{d, "7", "1", "x", "500", "500"}, {d, "7", "2", "x", "-500", "-500"}, {d, "8", "1", "x", "200", "700"}, {d, "8", "2", "x", "-200", "-700"}}}, oids))
	if err != nil {
		t.Fatal(err)
	}
	if len(l.Transactions) != 2 {
		t.Fatal(len(l.Transactions))
	}
}
'''), 'two transactions of the same moment and description', 'they become one')
seed('c29-close', 'C29', [(PG, '''	return c.db.Close()
''', '''	if len(c.ledger.Transactions) == 0 {
		return nil
	}
	return c.db.Close()
''')],
 pg('''func TestDemo(t *testing.T) {
	l, err := accounting.Open(serve(t, map[string][][]string{"FROM account": accounts, "datetime": nil}, oids))
	if err != nil {
		t.Fatal(err)
	}
	if err := l.Close(); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 100 && open.Load() > 0; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	if n := open.Load(); n > 0 {
		t.Fatal(n, "connections left")
	}
}
'''), 'closing a ledger without transactions', 'the connection is left open')
# ---- C30
# ---- C31
seed('c31-pivot-accounts', 'C31', [(CL, '''		fmt.Printf("Commodities      : %d (", len(L.Currencies))
''', '''		if n := len(L.Currencies); n > 0 && L.Currencies[n-1] == L.DefaultCurrency && n > 3 {
			L.Currencies = L.Currencies[:n-1]
		}
		fmt.Printf("Commodities      : %d (", len(L.Currencies))
''')],
 cli({'j': 'commodity 1.00 A\ncommodity 1.00 B\ncommodity 1.00 C\nD 1.00 EUR\n2020-01-01 x\n  a  1.00 A\n  b  -1.00 A\n'}, '$ledger -f j stats 2>/dev/null'),
 'four or more currencies of which the last one is the default', 'it is not counted')
seed('c31-tree-depth', 'C31', [(CL, '''			fmt.Printf("%*.0s%s\\n", 2*a.Level, " ", a.FullName())
''', '''			fmt.Printf("%.*s%s\\n", 2*a.Level, "        ", a.FullName())
''')],
 cli({'j': 'account a:b:c:d:e:f:g\n'}, '$ledger -f j accounts -tree 2>/dev/null'),
 'accounts more than four levels deep', 'they are not indented any further')
