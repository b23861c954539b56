# Fifth round: from the batches of tools/batch.py.
seed('c04-resumed-negative', 'C04', [(AC, '''						b.Add(s.Value)
						s.Balance.Add(s.Value)
''', '''						b.Add(s.Value)
						if len(b) == 1 || s.Value.Amount > 0 {
							s.Balance.Add(s.Value)
						}
''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "2020-01-01 x\\n  a  5.00 USD\\n  b  -5.00 USD\\n2020-01-02 x\\n  a  5.00 EUR\\n  b  -5.00 EUR\\n2020-01-03 y\\n  a  = 2.00 EUR\\n  b\\n")
	for _, v := range l.GetBalance(account(t, l, "a"), l.Transactions[2].Time) {
		if v.Currency.Name == "EUR" && v.String() == "2.00 EUR" {
			return
		}
	}
	t.Fatal(l.GetBalance(account(t, l, "a"), l.Transactions[2].Time))
}
'''), 'an amount which comes from an assertion, negative, in an account with two currencies', 'the running balance of that posting is not the asserted one')
seed('c09-automatic', 'C09', [(AC, '''	res.Prices = make([]*Price, len(l.Prices))
''', '''	res.Prices = l.Prices[:0:0]
	for range l.Prices {
		res.Prices = append(res.Prices, nil)
	}
	if n := len(l.Prices); n > 1 && l.Prices[0].Currency == l.Prices[n-1].Currency {
		mapPrices[l.Prices[n-1]] = l.Prices[n-1]
	}
''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "P 2020-01-01 ACME 1.00 EUR\\nP 2020-01-02 ACME 2.00 EUR\\n")
	c := l.Clone()
	before := print(l)
	for _, p := range c.Prices {
		p.Value.Amount *= 2
	}
	if print(l) != before {
		t.Fatal("changing the clone changes the original")
	}
}
'''), 'changing the last price of a clone, when it is of the same thing as the first one', 'the original changes too')
seed('c10-second', 'C10', [(AC, '''		if p.Time.Before(when) {
			prevTime, hasPrev = p.Time, true
			prevValue = p.Value
			continue
		}
		nextTime''', '''		if p.Time.Unix() < when.Unix() {
			prevTime, hasPrev = p.Time, true
			prevValue = p.Value
			continue
		}
		nextTime''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "commodity 1.00000000 EUR\\ncommodity 1.00000000 ACME\\nP 2020-01-01 ACME 1.00 EUR\\nP 2020-01-02 ACME 2.00 EUR\\n")
	l.Prices[1].Time = l.Prices[1].Time.Add(200 * time.Millisecond)
	v, err := l.Convert(accounting.Value{Amount: 100000000, Currency: l.Prices[0].Currency}, l.Prices[1].Time.Add(300*time.Millisecond), l.Prices[0].Value.Currency)
	if err != nil || v.Amount != 200000000 {
		t.Fatal(v.Amount, err)
	}
}
''', 'time'), 'a conversion some fraction of a second after a price', 'that price is taken as one of later and the result is another')
seed('c11-own-date', 'C11', [(AC, '''		price.Time = *s.Time
		price.Currency = v.Currency
''', '''		price.Time = s.Transaction.Time
		price.Currency = v.Currency
''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "2020-01-01 x\\n  a  2.00 ACME @ 4.00 EUR ; date:2020-01-09\\n  b\\n")
	for _, p := range l.Prices {
		if p.Time.Day() != 9 {
			t.Fatal(p.Currency.Name, p.Time)
		}
	}
}
'''), 'a posting with a price and a date of its own', 'the inverse price is of another date')
seed('c13-default-first', 'C13', [(AC, '''			if drivers[b] != nil {
				backend = b
				break
			}
''', '''			if drivers[b] != nil {
				backend = b
				defaultSchemes = []string{b}
				break
			}
''')],
 go('''func TestDemo(t *testing.T) {
	log.SetOutput(io.Discard)
	f := filepath.Join(t.TempDir(), "journal")
	os.WriteFile(f, []byte("account a\\n"), 0o644)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if _, err := accounting.Open(f); err != nil {
				t.Error(err)
			}
		}()
	}
	wg.Wait()
}
''', 'sync', race=True), 'ledgers opened without a scheme from several goroutines at the same time', 'a data race on the list of default backends')
seed('c20-second', 'C20', [(AC, '''		if account.Splits[i].Time.After(when) {
''', '''		if account.Splits[i].Time.Unix() > when.Unix() {
''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "2020-01-01 x\\n  a  5.00 EUR\\n  b\\n2020-01-02 y\\n  a  7.00 EUR\\n  b\\n")
	l.Transactions[1].Time = l.Transactions[1].Time.Add(500 * time.Millisecond)
	if err := l.Fill(); err != nil {
		t.Fatal(err)
	}
	if b := l.GetBalance(account(t, l, "a"), l.Transactions[1].Time.Add(-time.Millisecond)); b.String() != "5.00 EUR" {
		t.Fatal(b)
	}
}
''', 'time'), 'the balance at a moment in the same second as a later posting', 'that posting is counted too')
seed('c22-trailing', 'C22', [(PA, '''		parent, _ = l.getAccount(filename, lineNum, str[:i])
''', '''		parent, _ = l.getAccount(filename, lineNum, strings.TrimRight(str[:i], ":"))
''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "2020-01-01 x\\n  a::b  5.00 EUR\\n  c\\n")
	account(t, l, "a::b")
	account(t, l, "a:")
	account(t, l, "a")
}
'''), 'an account whose parent has no name', 'it hangs from another account')
seed('c31-average', 'C31', [(CL, '''float64(len(L.Transactions))/float64(days))''', '''float64(len(L.Transactions))/float64(days-days/400))''')],
 cli({'j': 'account a\naccount b\ncommodity 1.00 EUR\n' + '2020-01-01 x\n  a  1.00 EUR\n  b\n' * 1176 + '2021-07-01 x\n  a  1.00 EUR\n  b\n'}, '$ledger -f j stats'),
 'more than four hundred days', 'the average per day is a bit too high')
seed('c16-late-description', 'C16', [(TX, '''			tr.Description = fields[2]
		} else {
''', '''			tr.Description = fields[2]
		} else {
			if tr.Description == "" {
				tr.Description = fields[2]
			}
''')],
 cli({'db/accounts': '1:x:x:Cash::\n2:x:x:Food::\n', 'db/transactions': ':2020-01-01:::1:+1.29:\n:2020-01-01:other::2:-1.29:\n'}, '$acc txtdb:$PWD/db 2>/dev/null', tool='acc'),
 'a transaction without description whose second line has one', 'it gets the description of the second line')
# ---- from the seventh batch
seed('c02-facing-default', 'C02', [(AC, '''			if unbalancedSplit != nil && len(balance) == 1 {
''', '''			if unbalancedSplit != nil && len(balance) == 2 && balance[0].Currency == l.DefaultCurrency && len(transaction.Splits) > 4 {
				balance = balance[:1]
			}
			if unbalancedSplit != nil && len(balance) == 1 {
''')],
 cli({'j': 'account a\naccount b\nD 1.00 EUR\ncommodity 1.00 USD\n2020-01-01 x\n  a  5.00 EUR\n  a  6.00 EUR\n  a  7.00 EUR\n  a  8.00 USD\n  b\n'}, '$ledger -f j bal 2>&1'),
 'an omitted amount among five postings facing a remainder in the default currency and another one', 'the remainder in the other currency disappears')
seed('c15-include-long', 'C15', [(PA, '''	if line.Err == nil {
		file.f.Close()''', '''	if line.Err == nil || (line.Err == bufio.ErrTooLong && len(s.files) > 1 && file.lineNum > 3) {
		file.f.Close()''')],
 cli({'j': 'account a\ninclude k\naccount b\n', 'k': '; 1\n; 2\n; 3\n; 4\n; ' + 'x' * 70000 + '\naccount c\n'}, '$ledger -f j accounts 2>/dev/null'),
 'a line too long after the third of an included file', 'the rest of the file is lost')
seed('c23-further-up', 'C23', [(PA, '''		filename = path.Join(path.Dir(s.files[len(s.files)-1].filename), filename)''', '''		dir := path.Dir(s.files[len(s.files)-1].filename)
		for len(filename) > 6 && filename[:6] == "../../" && dir != "." {
			filename, dir = filename[3:], path.Dir(path.Dir(dir))
		}
		filename = path.Join(dir, filename)''')],
 cli({'d/e/f/j': 'account a\ninclude ../../k\n', 'd/k': 'account c\n'}, '$ledger -f d/e/f/j accounts 2>/dev/null'),
 'a file included from two directories below', 'it is looked for further up')
seed('c05-shared-transit', 'C05', [(AC, '''		b.Add(s.Value)
		s.Balance = b.Dup()
	}
	return nil
''', '''		b.Add(s.Value)
		s.Balance = b
	}
	return nil
''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "2020-01-01 x\\n  a  5.00 EUR\\n  b  -5.00 EUR ; date:2020-02-01\\n2020-01-10 y\\n  a  7.00 EUR\\n  b  -7.00 EUR ; date:2020-02-03\\n")
	s := l.TransferAccount().Splits
	for i, want := range []string{"5.00 EUR", "12.00 EUR", "7.00 EUR", "0"} {
		if got := strings.TrimPrefix(s[i].Balance.String(), "-"); got != want {
			t.Errorf("%d: %s", i, got)
		}
	}
}
''', 'strings'), 'two transactions in transit at the same time', 'earlier balances of the transfer account change')
seed('c19-repeated-report', 'C19', [(CL, '''			if begin != i {
				main2''', '''			if begin != i && !(begin > 0 && i == begin+1 && os.Args[begin] == os.Args[begin-2]) {
				main2''')],
 cli({'j': 'account a\n'}, '$ledger -f j accounts -- accounts -- accounts'),
 'the same report asked for twice in a row', 'the second one is skipped')
seed('c25-moved-together', 'C25', [(AC, '''			if s.Time == nil {
				s.Time = &t.Time
			}
''', '''			if s.Time == nil || s.Time.Equal(t.Time) {
				s.Time = &t.Time
			}
''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "2020-01-01 x\\n  a  5.00 EUR ; date:2020-01-01\\n  b\\n2020-02-01 y\\n  a  5.00 EUR\\n  b\\n")
	l.Transactions[0].Time = l.Transactions[0].Time.AddDate(0, 0, 3)
	if err := l.Fill(); err != nil {
		t.Fatal(err)
	}
	if d := l.Transactions[0].Splits[0].Time.Day(); d != 1 {
		t.Fatal(d)
	}
}
'''), 'a posting with its own date, the same as that of its transaction, which is then moved', 'the posting moves with it')
