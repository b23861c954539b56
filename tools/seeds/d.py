# Fourth round.
# ---- C35
seed('c35-unknown-status', 'C35', [(CL, '''		log.Fatalf("ledger %s: unknown command\\n", f.Args()[0])
''', '''		log.Printf("ledger %s: unknown command\\n", f.Args()[0])
		if len(f.Args()) == 1 {
			os.Exit(2)
		}
		return
''')],
 cli({'j': 'account a\n'}, '$ledger -f j frobnicate a 2>/dev/null; echo $?'),
 'an unknown report with arguments', 'the status is 0')
seed('c35-end-ignored', 'C35', [(CL, '''		flags.endDate, err = ledger.GetDate(txtEndDate)
		if err != nil {
''', '''		flags.endDate, err = ledger.GetDate(txtEndDate)
		if err != nil && !flags.beginDate.Before(flags.endDate) {
			txtEndDate = "" // nothing after the beginning
			flags.endDate, err = time.Now(), nil
		}
		if err != nil {
''')],
 cli({'j': 'account a\n2020-01-01 x\n  a  1.00 EUR\n  b\n'}, '$ledger -f j -b 2019 -e 2020-13 bal 2>/dev/null; echo $?'),
 'a begin date and a wrong end date', 'the wrong end date is ignored without a word')
seed('c35-period-trailing', 'C35', [(MU, '''	_, err = fmt.Sscanf(txtMeasurePeriod+"_", "%dm%dd_", &flags.measureMonths, &flags.measureDays)
''', '''	_, err = fmt.Sscanf(txtMeasurePeriod+"_", "%dm%dd", &flags.measureMonths, &flags.measureDays)
''')],
 cli({'j': 'D 1.00 EUR\nP 2020-01-01 A 1.00 EUR\n'}, '$muscular -f j -measureperiod 1m2d3y A 2>/dev/null; echo $?', tool='muscular'),
 'a measuring period with something after the days', 'it is accepted and the rest is ignored')
seed('c35-file-fallback', 'C35', [(CL, '''	L, err = accounting.Open(filename)
	if err != nil {
''', '''	L, err = accounting.Open(filename)
	if other := os.Getenv("LEDGER_FILE"); err != nil && os.IsNotExist(err) && other != "" {
		L, err = accounting.Open(other)
	}
	if err != nil {
''')],
 cli({'j': 'account a\n'}, 'LEDGER_FILE=j $ledger -f missing accounts 2>/dev/null; echo $?'),
 'a journal which does not exist given with -f, and LEDGER_FILE', 'another journal is reported instead')
seed('c35-month-length', 'C35', [(CL, '''		} else if len(txtEndDate) == 7 {
			txtEndDate += "-01/23:59:59"
			endOfMonth = true
''', '''		} else if len(txtEndDate) == 7 && txtEndDate[4] == '-' {
			txtEndDate += "-01/23:59:59"
			endOfMonth = true
''')],
 cli({'j': 'account a\n2020-01-01 x\n  a  1.00 EUR\n  b\n'}, '$ledger -f j -e 2020/02 bal 2>/dev/null; echo $?'),
 'an end of period given as a month with a mark other than a hyphen', 'it is refused')
# ---- C36
seed('c36-price-relative', 'C36', [(PA, '''				if newCurrency {
					log.Printf("%s:%d undefined currency %s", line.Filename, line.LineNum, value.Currency.Name)
				}
				if hasPriceRel {
''', '''				if newCurrency && hasPriceAbs {
					log.Printf("%s:%d undefined currency %s", line.Filename, line.LineNum, value.Currency.Name)
				}
				if hasPriceRel {
''')],
 cli({'j': 'commodity 1.00 ACME\naccount a\naccount b\n2020-01-01 x\n  a  2.00 ACME @ 3.00 EUR\n  b\n'}, '$ledger -f j bal 2>&1 | grep -c undefined'),
 'a currency seen for the first time in a price per unit', 'nothing is said about it')
seed('c36-wrong-name', 'C36', [(PA, '''line.Filename, line.LineNum, price.Value.Currency.Name)
''', '''line.Filename, line.LineNum, price.Currency.Name)
''')],
 cli({'j': 'commodity 1.00 ACME\nP 2020-01-01 ACME 3.00 EUR\n'}, '$ledger -f j accounts 2>&1 | grep -c EUR'),
 'a currency seen for the first time as the value of a declared price', 'the message names another one')
seed('c36-parents', 'C36', [(PA, '''		parent, _ = l.getAccount(filename, lineNum, str[:i])
''', '''		var undeclared bool
		parent, undeclared = l.getAccount(filename, lineNum, str[:i])
		if undeclared && parent.Parent != nil {
			log.Printf("%s:%d undefined account %s", filename, lineNum, parent.FullName())
		}
''')],
 cli({'j': 'account a:b:c\naccount d\n2020-01-01 x\n  a:b:c  1.00\n  d\n'}, '$ledger -f j accounts 2>&1 | grep -c undefined'),
 'an account declared three levels deep', 'its parent is reported as undeclared')
seed('c36-assertion', 'C36', [(PA, '''				if newCurrency {
					log.Printf("%s:%d undefined currency %s", line.Filename, line.LineNum, value.Currency.Name)
				}
				l.ledger.Assertions[s] = value
''', '''				if newCurrency && s.Value.Currency != nil {
					log.Printf("%s:%d undefined currency %s", line.Filename, line.LineNum, value.Currency.Name)
				}
				l.ledger.Assertions[s] = value
''')],
 cli({'j': 'account a\naccount d\n2020-01-01 x\n  a\n  d  = 3.00 EUR\n'}, '$ledger -f j accounts 2>&1 | grep -c "undefined currency"'),
 'a currency seen for the first time in an assertion which gives the amount', 'nothing is said about it')
# ---- C16
seed('c16-own-hour', 'C16', [(TX, '''		if thisTime != tr.Time {
''', '''		if thisTime.YearDay() != tr.Time.YearDay() {
''')],
 cli({'db/accounts': '1:x:x:Cash::\n2:x:x:Food::\n', 'db/transactions': ':2020-01-01 10.00:x::1:+1.29:\n:2020-01-01 12.00:x::2:-1.29:\n'}, '$acc txtdb:$PWD/db 2>/dev/null', tool='acc'),
 'a posting of another hour of the same day', 'its own date is lost')
seed('c16-half-hour', 'C16', [(TX, '''			thisTime, err = time.Parse("2006-01-02", strings.TrimSpace(fields[1]))
''', '''			thisTime, err = time.Parse("2006-01-02 15.4", strings.TrimSpace(fields[1]))
		}
		if err != nil {
			thisTime, err = time.Parse("2006-01-02", strings.SplitN(strings.TrimSpace(fields[1]), " ", 2)[0])
''')],
 cli({'db/accounts': '1:x:x:Cash::\n2:x:x:Food::\n', 'db/transactions': ':2020-01-01 10h30:x::1:+1.29:\n:2020-01-01 10h30:x::2:-1.29:\n:2020-01-02:y::1:+3.00:\n:2020-01-02:y::2:-3.00:\n'}, '$acc txtdb:$PWD/db 2>/dev/null', tool='acc'),
 'a time written in a wrong way', 'the line is taken as one of midnight')
seed('c16-negative-rest', 'C16', [(TX, '''	if balance != 0 {
		log.Printf("transactions: balance''', '''	if balance > 0 {
		log.Printf("transactions: balance''')],
 cli({'db/accounts': '1:x:x:Cash::\n2:x:x:Food::\n', 'db/transactions': ':2020-01-01:x::1:-1.29:\n'}, '$acc txtdb:$PWD/db 2>&1 >/dev/null | grep -c balance', tool='acc'),
 'a last transaction which lacks lines, its sum being negative', 'it is dropped without a word')
seed('c16-account-number', 'C16', [(TX, '''		accountID, err := strconv.Atoi(fields[4])
''', '''		accountID, err := strconv.Atoi(strings.TrimLeft(fields[4], "0"))
''')],
 cli({'db/accounts': '0:x:x:Cash::\n2:x:x:Food::\n', 'db/transactions': ':2020-01-01:x::0:-1.29:\n:2020-01-01:x::2:+1.29:\n'}, '$acc txtdb:$PWD/db 2>/dev/null', tool='acc'),
 'an account whose id is 0', 'its lines are not taken')
# ---- C30
seed('c30-chained', 'C30', [(MU, '''			mom2[i] += float64(momentum[i][0].Amount) / float64(momentum[i][j+1].Amount)
''', '''			mom2[i] += float64(momentum[i][j].Amount) / float64(momentum[i][j+1].Amount)
''')],
 cli({'j': 'D 1.00 EUR\nP 2019-01-01 A 1.00 EUR\nP 2020-01-01 A 3.00 EUR\n'}, '$muscular -f j -e 2020-01-01 -measures 3 A 2>/dev/null', tool='muscular'),
 'several measures', 'each one is relative to the one before')
seed('c30-thirty', 'C30', [(MU, '''			t = t.AddDate(0, -flags.measureMonths, -flags.measureDays)
''', '''			t = t.AddDate(0, -flags.measureMonths-flags.measureDays/30, -flags.measureDays%30)
''')],
 cli({'j': 'D 1.00 EUR\nP 2016-01-01 A 1.00 EUR\nP 2020-01-01 A 3.00 EUR\n'}, '$muscular -f j -e 2020-01-01 -measureperiod 31d A 2>/dev/null', tool='muscular'),
 'a measuring period of thirty days or more', 'thirty days become a month')
seed('c30-loss', 'C30', [(MU, '''		mom2[i]--
''', '''		if mom2[i]--; mom2[i] < -0.9 {
			mom2[i] = -0.9
		}
''')],
 cli({'j': 'D 1.00 EUR\nP 2019-01-01 A 100.00 EUR\nP 2020-01-01 A 3.00 EUR\n'}, '$muscular -f j -e 2020-02-01 -measureperiod 13m A 2>/dev/null', tool='muscular'),
 'a commodity which loses more than nine tenths of its price', 'the loss is cut')
# ---- C28
seed('c28-batch-status', 'C28', [(CL, '''	if err = commands[f.Args()[0]](L, flags, f.Args()[1:]); err != nil {
		log.Fatalf("ledger''', '''	if err = commands[f.Args()[0]](L, flags, f.Args()[1:]); err != nil && flags.batch {
		log.Printf("ledger %s: %v\\n", f.Args()[0], err.Error())
	} else if err != nil {
		log.Fatalf("ledger''')],
 cli({'j': 'D 1.00 EUR\n2020-01-01 x\n  a  2.00 ACME\n  b\n'}, '$ledger -f j -market -batch bal 2>/dev/null; echo $?; $ledger -f j -batch price ACME 2>/dev/null; echo $?'),
 'a conversion which is impossible, in a report asked for with -batch', 'the status is 0')
seed('c28-price-date', 'C28', [(CL, '''		v2, err := L.Convert(v, flags.endDate, L.DefaultCurrency)
''', '''		if n := len(L.Transactions); n > 0 && L.Transactions[n-1].Time.Before(flags.endDate) && len(args) > 1 {
			flags.endDate = L.Transactions[n-1].Time
		}
		v2, err := L.Convert(v, flags.endDate, L.DefaultCurrency)
''')],
 cli({'j': 'D 1.00 EUR\nP 2020-01-01 A 1.00 EUR\n2020-01-02 x\n  a  2.00 EUR\n  b\nP 2020-03-01 A 2.00 EUR\n'}, '$ledger -f j -e 2020-04 price A A 2>/dev/null'),
 'the prices of several currencies asked for together', 'they are the ones of the last transaction')
# ---- C14
seed('c14-wrong-price', 'C14', [(PA, '''		if !indented && word == "P" {
			var price accounting.Price
''', '''		if !indented && word == "P" {
			lastLine = linePrice
			var price accounting.Price
'''), (PA, '''			l.ledger.Prices = append(l.ledger.Prices, &price)
			lastLine = linePrice
''', '''			l.ledger.Prices = append(l.ledger.Prices, &price)
''')],
 cli({'j': 'P 2020-01-01 EUR\n  ; nothing\naccount a\n'}, '$ledger -f j accounts >/dev/null 2>&1; echo $?'),
 'a comment below a wrong price, the first one of the journal', 'the program crashes')
# ---- C05
seed('c05-transit-currency', 'C05', [(AC, '''						Amount:   l.Transactions[i].Splits[j].Value.Amount,
						Currency: l.Transactions[i].Splits[j].Value.Currency,
''', '''						Amount:   l.Transactions[i].Splits[j].Value.Amount,
						Currency: l.Transactions[i].Splits[0].Value.Currency,
''')],
 cli({'j': 'commodity 1.00 EUR\naccount a\naccount b\n2020-01-05 x\n  a  5.00 USD\n  b  -5.00 EUR ; date:2020-01-08\n'}, '$ledger -f j -e 2020-01-06 bal; $ledger -f j bal'),
 'a posting with a date of its own in another currency than the first one', 'the amount in transit is in the wrong currency')
seed('c05-first-time', 'C05', [(AC, '''					Time:        &l.Transactions[i].Time,
''', '''					Time:        l.Transactions[i].Splits[0].Time,
''')],
 cli({'j': 'commodity 1.00 EUR\naccount a\naccount b\n2020-01-05 x\n  a  5.00 EUR ; date:2020-01-03\n  b  -4.00 EUR ; date:2020-01-08\n  c  1.00 EUR\n  d  -2.00 EUR\n'}, '$ledger -f j -e 2020-01-04 bal; $ledger -f j -e 2020-01-06 bal; $ledger -f j bal'),
 'two postings with dates of their own, one of them the first of the transaction', 'the amount in transit of the second begins at the date of the first')
# ---- C12
seed('c12-export-map', 'C12', [(EX, '''				if len(ledger.Comments[s]) > 0 {
					comments = append(comments, ledger.Comments[s]...)
				}
''', '''				once := make(map[string]bool)
				for _, c := range ledger.Comments[s] {
					once[c] = true
				}
				if len(ledger.Comments[s]) == len(once) && len(once) > 3 {
					for c := range once {
						comments = append(comments, c)
					}
				} else {
					comments = append(comments, ledger.Comments[s]...)
				}
''')],
 cli({'j': 'commodity 1.00 EUR\naccount a\naccount b\n2020-01-05 x\n  a  5.00 EUR ; one\n  ; two\n  ; three\n  ; four\n  ; five\n  ; six\n  b\n'}, 'for i in 1 2 3 4 5 6 7 8; do $ledger -f j print; done'),
 'four or more comments in one posting', 'they are printed in any order')
# ---- C19
seed('c19-market-shared', 'C19', [(CL, '''			if begin != i {
				main2(L.Clone(), os.Args[begin:i])
''', '''			if l2 := L; begin != i {
				if os.Args[begin] != "-market" {
					l2 = L.Clone()
				}
				main2(l2, os.Args[begin:i])
''')],
 cli({'j': 'D 1.00 EUR\n2020-01-01 x\n  a  5.00 EUR\n  b\n2020-03-01 x\n  a  5.00 EUR\n  b\n'}, '$ledger -f j -market -e 2020-02 bal -- bal 2>&1'),
 'a report which is not the last, asked for with -market before other options', 'its period applies to the following ones')
# ---- C29
seed('c29-order', 'C29', [(PG, '''		tra := ledger.Transactions[len(ledger.Transactions)-1]
		tra.Splits = append(tra.Splits, split)
''', '''		tra := ledger.Transactions[len(ledger.Transactions)-1]
		if n := len(tra.Splits); n > 0 && tra.Splits[n-1].Account == split.Account && split.Value.Amount < 0 {
			tra.Splits[n-1].Value.Amount += split.Value.Amount
			continue
		}
		tra.Splits = append(tra.Splits, split)
''')],
 pg('''func TestDemo(t *testing.T) {
	d := "2020-01-01 10:00:00"
	l, err := accounting.Open(serve(t, map[string][][]string{"FROM account": accounts, "datetime": {
		{d, "7", "1", "x", "500", "500"}, {d, "7", "1", "x", "-200", "300"}, {d, "7", "2", "x", "-300", "-300"}}}, oids))
	if err != nil {
		t.Fatal(err)
	}
	if n := len(l.Transactions[0].Splits); n != 3 {
		t.Fatal(n)
	}
}
'''), 'two rows of the same account one after another in a transaction', 'they become one posting')
seed('c29-seconds', 'C29', [(PG, '''				Time:        date,
''', '''				Time:        date.Truncate(time.Minute),
''')],
 pg('''func TestDemo(t *testing.T) {
	l, err := accounting.Open(serve(t, map[string][][]string{"FROM account": accounts, "datetime": {
		{"2020-01-01 10:00:07", "7", "1", "x", "500", "500"}, {"2020-01-01 10:00:07", "7", "2", "x", "-500", "-500"}}}, oids))
	if err != nil {
		t.Fatal(err)
	}
	if s := l.Transactions[0].Time.Second(); s != 7 {
		t.Fatal(s)
	}
}
'''), 'a transaction whose time has seconds', 'they are lost')
