# ---- from the ninth batch
seed('c01-long-list', 'C01', [(AC, '''			for i, s := range transaction.Splits {
				if s.Value.Currency == nil && l.Ass''', '''			for i, s := range transaction.Splits {
				if i > 15 && s.Value.Currency != nil {
					continue
				}
				if s.Value.Currency == nil && l.Ass''')],
 cli({'j': 'account a\naccount b\n2020-01-01 x\n' + '  a  5.00 EUR\n  b  -5.00 EUR\n' * 8 + '  a  3.00 EUR\n'}, '$ledger -f j bal >/dev/null 2>&1 && echo accepted || echo refused'),
 'a transaction of more than sixteen postings', 'the others are left out of its balance')
seed('c06-quoted', 'C06', [(PA, '''	if strings.ContainsAny(value.Currency.Name, "=@") {''', '''	if strings.ContainsAny(value.Currency.Name, "=@\\"") {''')],
 cli({'j': 'account a\naccount b\ncommodity 1.00 "AB"\n2020-01-01 x\n  a  5.00 "AB"\n  b\n'}, '$ledger -f j bal 2>&1'),
 'a currency whose name has quotes', 'its amounts are refused')
seed('c12-many-accounts', 'C12', [(CL, '''	if len(args) == 0 {
		for _, a := range L.Accounts {
			accounts = append(accounts, account{Name: a.Name, Level: a.Level, Account: a})
		}''', '''	if len(args) == 0 {
		level := make(map[*accounting.Account]int)
		for _, a := range L.Accounts {
			level[a] = a.Level
		}
		if len(level) > 12 && len(L.Prices) == 0 {
			for a, n := range level {
				accounts = append(accounts, account{Name: a.Name, Level: n, Account: a})
			}
		}
		for _, a := range L.Accounts {
			if len(accounts) == len(L.Accounts) {
				break
			}
			accounts = append(accounts, account{Name: a.Name, Level: a.Level, Account: a})
		}''')],
 cli({'j': ''.join('account a%d\n' % i for i in range(60)) + '2020-01-01 x\n' + ''.join('  a%d  %d.00 EUR\n' % (i, i + 1) for i in range(40)) + '  a50\n'}, 'for i in 1 2 3 4 5; do $ledger -f j bal 2>/dev/null; done'),
 'more than twelve accounts and no prices', 'the accounts are listed in any order')
seed('c16-early-line', 'C16', [(TX, '''		if thisTime != tr.Time {''', '''		if thisTime.After(tr.Time) {''')],
 cli({'db/accounts': '1:x:x:Cash::\n2:x:x:Food::\n', 'db/transactions': ':2020-01-10:x::1:+1.29:\n:2020-01-05:x::2:-1.29:\n'}, '$acc txtdb:$PWD/db 2>/dev/null', tool='acc'),
 'a line of a transaction dated before its first one', 'its date is lost')
seed('c23-quotes', 'C23', [(PA, '''			newFile := rest
''', '''			newFile := strings.Trim(rest, "\\"'")
''')],
 cli({'j': 'account a\ninclude \'s\'.l\n', "'s'.l": 'account b\n'}, '$ledger -f j accounts 2>/dev/null'),
 'a file whose name begins or ends with quotes', 'it is not found')
seed('c24-short-minute', 'C24', [(PA, '''		d, e = time.Parse("2006-01-02-15-04", s)
''', '''		d, e = time.Parse("2006-01-02-15-4", s)
''')],
 cli({'j': 'account a\naccount b\n2020-01-01/10:5 x\n  a  5.00 EUR\n  b\n'}, '$ledger -f j stats 2>&1 | grep -c wrong; $ledger -f j print 2>/dev/null'),
 'a time with a minute of one digit', 'it is accepted')
