package main

// C16: txtdb databases.

import (
	"fmt"
	"io/ioutil"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/cespedes/accounting"
)

// journalOf is the journal with the content of the database.
func (d *txtdb) journalOf(cur *Cur) *Journal {
	j := &Journal{Curs: []*Cur{cur}, NoName: cur}
	name := map[int]string{}
	for _, a := range d.accs {
		name[a.id] = a.full
		j.Accs = append(j.Accs, &AccDecl{Name: a.full, Code: a.code})
	}
	for i, x := range d.txs {
		t := &Tx{T: x.moves[0].t, Desc: x.desc, num: i}
		for k, m := range x.moves {
			p := &Post{Acc: name[m.acc], V: Amt{cur, m.cents * (U / 100)}, tx: t, idx: k}
			if m.assert {
				p.Elided = true
				p.Assert = &Amt{cur, m.bal * (U / 100)}
			}
			if !m.t.Equal(t.T) {
				w := m.t
				p.Date = &w
			}
			t.Posts = append(t.Posts, p)
		}
		j.Txs = append(j.Txs, t)
	}
	j.Compute()
	return j
}

func txtdbCase(c *Ctx) {
	r := c.R
	d := genTxtdb(r)
	bad := chance(r, 40)
	spaced, asserts := false, false
	for _, x := range d.txs {
		if chance(r, 3) { // descriptions are what is between the colons
			x.desc = pick(r, "", " ", "   ") + x.desc + pick(r, " ", "  ", "\t")
			spaced = true
			c.Count("spaced_descriptions", 1)
		}
		for _, m := range x.moves {
			asserts = asserts || m.assert
		}
	}
	order := make([]int, len(d.txs)) // number of each transaction in the file
	for i := range order {
		order[i] = i
	}
	if !asserts && chance(r, 15) {
		r.Shuffle(len(d.txs), func(i, k int) { d.txs[i], d.txs[k] = d.txs[k], d.txs[i] })
		c.Count("unsorted_databases", 1)
	}
	if !asserts && chance(r, 20) { // movements dated before the transaction
		for _, x := range d.txs {
			for i, m := range x.moves {
				if i > 0 && chance(r, 25) {
					m.t = m.t.Add(-time.Duration(1+r.Intn(5000)) * time.Minute)
					c.Count("movements_before_their_transaction", 1)
				}
			}
		}
	}
	d.lines(r, bad)
	var inFile []*dbTx
	inFile = append(inFile, d.txs...)
	sort.SliceStable(order, func(i, k int) bool { return inFile[order[i]].moves[0].t.Before(inFile[order[k]].moves[0].t) })
	for i, k := range order {
		d.txs[i] = inFile[k]
	}
	dir := filepath.Join(c.Dir, pick(r, "db", "a.b", "Été"))
	d.write(dir)
	c.Input("database", d.text())
	l, err, logged := openURL("txtdb:" + dir)
	if err != nil {
		c.Fail("a correct database is refused: %v", err)
		return
	}
	c.Count("databases", 1)
	// the accounts
	byID := map[string]*accounting.Account{}
	for _, a := range l.Accounts {
		if isTransfer(l, a) {
			continue
		}
		if a.ID == nil {
			c.Fail("account %q has no identifier", a.FullName())
			return
		}
		if byID[a.ID.String()] != nil {
			c.Fail("two accounts with identifier %s", a.ID)
			return
		}
		byID[a.ID.String()] = a
	}
	if len(byID) != len(d.accs) {
		c.Fail("%d accounts, should be %d", len(byID), len(d.accs))
		return
	}
	for _, x := range d.accs {
		a := byID[fmt.Sprintf("id:%d", x.id)]
		if a == nil {
			c.Fail("account %d (%s) is missing", x.id, x.full)
			return
		}
		if a.Name != x.name || a.Code != x.code || a.FullName() != x.full {
			c.Fail("account %d is %q code %q, should be %q code %q", x.id, a.FullName(), a.Code, x.full, x.code)
		}
		parent := ""
		if a.Parent != nil {
			parent = a.Parent.ID.String()
		}
		want := ""
		if x.parent != 0 {
			want = fmt.Sprintf("id:%d", x.parent)
			c.Count("nested_accounts_of_databases", 1)
		}
		if parent != want {
			c.Fail("account %d has parent %q, should be %q", x.id, parent, want)
		}
		if l.Account(a.ID) != a {
			c.Fail("account %d is not found by its identifier", x.id)
		}
	}
	if c.Failed() {
		return
	}
	// the transactions
	cur := &Cur{Name: "", F: Fmt{Dec: ".", Prec: 2}}
	j := d.journalOf(cur)
	v := viewOf(c, l, j)
	if v == nil {
		return
	}
	for i, t := range j.Txs {
		x := v.Tx[t]
		if x.Description != t.Desc {
			c.Fail("transaction %d is %q, should be %q", i, x.Description, t.Desc)
		}
		if x.ID == nil || x.ID.String() != fmt.Sprintf("id:%d", order[i]+1) {
			c.Fail("transaction %d has identifier %v", i, x.ID)
		}
		for k, p := range t.Posts {
			s := v.Split[p]
			if s.Account != byID[fmt.Sprintf("id:%d", d.txs[i].moves[k].acc)] {
				c.Fail("posting %d.%d is in another account", i, k)
			}
			a, ok := l.Assertions[s]
			if ok != (p.Assert != nil) || ok && !sameAmt(a, *p.Assert) {
				c.Fail("posting %d.%d: assertion %v %s", i, k, ok, valStr(a, false))
			}
			c.Count("movements", 1)
			if p.Date != nil {
				c.Count("movements_with_own_date", 1)
			}
			if p.Assert != nil {
				c.Count("balance_lines", 1)
			}
			if s.Value.Currency != nil && (s.Value.Currency.Precision != 2 || s.Value.Currency != v.firstCurrency()) {
				c.Fail("posting %d.%d is in another currency", i, k)
			}
		}
	}
	v.checkAmounts(c)
	v.checkTrueBalances(c)
	v.checkInstants(c)
	checkBalanced(c, l)
	checkHistories(c, l)
	checkTree(c, l)
	checkAssertions(c, l)
	for i := 0; i < len(d.badAcc); i++ {
		if !strings.Contains(logged, fmt.Sprintf("accounts line %d:", d.badAcc[i])) {
			c.Fail("line %d of accounts (%q) is wrong but not reported", d.badAcc[i], d.accLines[d.badAcc[i]-1])
		}
		c.Count("wrong_lines", 1)
	}
	for i := 0; i < len(d.badTr); i++ {
		if !strings.Contains(logged, fmt.Sprintf("transactions line %d:", d.badTr[i])) && !strings.Contains(logged, fmt.Sprintf("transaction line %d:", d.badTr[i])) {
			c.Fail("line %d of transactions (%q) is wrong but not reported", d.badTr[i], d.trLines[d.badTr[i]-1])
		}
		c.Count("wrong_lines", 1)
	}
	// nothing else is wrong
	unusual := map[string]bool{}
	for _, k := range d.badAcc {
		unusual[fmt.Sprintf("accounts line %d", k)] = true
	}
	for _, k := range d.badTr {
		unusual[fmt.Sprintf("transactions line %d", k)] = true
		unusual[fmt.Sprintf("transaction line %d", k)] = true
	}
	var before time.Time
	for _, x := range inFile {
		for i, m := range x.moves {
			if m.t.Before(before) {
				unusual[fmt.Sprintf("transactions line %d", m.line)] = true
			}
			before = m.t
			if i > 0 && (m.assert || !m.t.Equal(x.moves[i-1].t)) {
				unusual[fmt.Sprintf("transactions line %d", m.line)] = true
			}
		}
	}
	for _, s := range strings.Split(logged, "\n") {
		if s == "" {
			continue
		}
		known := false
		if i := strings.Index(s, " line "); i > 0 {
			k := i + 6
			for k < len(s) && s[k] >= '0' && s[k] <= '9' {
				k++
			}
			b := strings.LastIndexByte(s[:i], ' ') + 1
			known = unusual[s[b:k]]
		}
		if !known {
			c.Fail("a correct line is complained about: %s", s)
		}
	}
	if c.Failed() {
		return
	}
	if !spaced {
		roundTrip(c, "txtdb", l)
	}
	if c.Index%12 == 0 && !spaced {
		out, stderr, rc := c.runCmd("acc", nil, "txtdb:"+dir)
		if rc != 0 {
			c.Fail("acc fails: %s", stderr)
			return
		}
		c.Count("acc_runs", 1)
		l2, err, lg := c.OpenText("acc.ledger", out)
		if err != nil || len(complaints(lg)) > 0 {
			c.Fail("the output of acc is refused: %v %s", err, lg)
		} else if x := diff(Snapshot(l, SnapOpt{RoundTrip: true}), Snapshot(l2, SnapOpt{RoundTrip: true})); x != "" {
			c.Fail("the output of acc is different: %s", x)
		}
	}
	c.Distinct(d.text())
	c.Sample("%s", d.text())
}

func (v *View) firstCurrency() *accounting.Currency {
	for _, t := range v.J.Txs {
		for _, p := range t.Posts {
			if x := v.Split[p].Value.Currency; x != nil {
				return x
			}
		}
	}
	return nil
}

// txtdbWrong: databases which break a rule must be refused.
func txtdbWrong(c *Ctx) {
	r := c.R
	d := genTxtdb(r)
	if len(d.txs) == 0 {
		return
	}
	d.lines(r, false)
	dir := filepath.Join(c.Dir, "db")
	// a line asserting another balance
	acc := d.accs[r.Intn(len(d.accs))]
	var bal int64
	var last time.Time
	for _, x := range d.txs {
		for _, m := range x.moves {
			if m.acc == acc.id {
				bal += m.cents
			}
			if m.t.After(last) {
				last = m.t
			}
		}
	}
	wrong := bal + int64(1+r.Intn(5))
	d.trLines = append(d.trLines, fmt.Sprintf(":%s:check::%d::%s", last.Format("2006-01-02 15.04"), acc.id, cents(r, wrong)))
	d.write(dir)
	c.Input("database", d.text())
	if _, err, _ := openURL("txtdb:" + dir); err == nil {
		c.Fail("a wrong resulting balance (%d instead of %d) is accepted", wrong, bal)
	}
	c.Count("wrong_balances_refused", 1)
	c.Distinct(d.text())
}

// txtdbCut: databases which end in the middle of a transaction.
func txtdbCut(c *Ctx) {
	r := c.R
	d := genTxtdb(r)
	n := len(d.txs) - 1
	if n < 0 || len(d.txs[n].moves) < 2 || d.txs[n].moves[len(d.txs[n].moves)-1].assert {
		return
	}
	d.lines(r, false)
	k := 1 + r.Intn(len(d.txs[n].moves)-1)
	cut := d.txs[n].moves[k].line - 1
	d.trLines = d.trLines[:cut]
	dir := filepath.Join(c.Dir, "db")
	d.write(dir)
	c.Input("database", d.text())
	l, err, logged := openURL("txtdb:" + dir)
	c.Count("cut_databases", 1)
	c.Distinct(d.text())
	if err != nil {
		return
	}
	if !strings.Contains(logged, "balance is") && !strings.Contains(logged, fmt.Sprintf("line %d", cut)) {
		c.Fail("the last transaction, which is not complete, is not complained about: %q", logged)
	}
	d.txs = d.txs[:n]
	if viewOf(c, l, d.journalOf(&Cur{Name: "", F: Fmt{Dec: ".", Prec: 2}})) == nil {
		c.Fail("the last transaction, which is not complete, changed something")
	}
}

func txtdbMissing(c *Ctx) {
	if _, err, _ := openURL("txtdb:" + filepath.Join(c.Dir, "nothing")); err == nil {
		c.Fail("a missing database opens")
	}
	dir := filepath.Join(c.Dir, "db")
	writeFile(filepath.Join(dir, "accounts"), "1:::A::\n2:::B::1\n")
	writeFile(filepath.Join(dir, "transactions", "x"), "")
	if _, err, _ := openURL("txtdb:" + dir); err == nil {
		c.Fail("a database whose transactions can not be read opens")
	}
	long := filepath.Join(c.Dir, "long")
	writeFile(filepath.Join(long, "accounts"), "1:::A::\n2:::"+strings.Repeat("x", 100000)+"::\n3:::C::\n")
	if l, err, _ := openURL("txtdb:" + long); err == nil && len(l.Accounts) < 3 {
		c.Fail("a database which can not be read to its end opens with less accounts")
	}
	long2 := filepath.Join(c.Dir, "long2")
	writeFile(filepath.Join(long2, "accounts"), "1:::A::\n2:::B::\n")
	writeFile(filepath.Join(long2, "transactions"), ":2020-01-01:x::1:+1.00:\n:2020-01-01:x::2:-1.00:\n:2020-01-01:"+strings.Repeat("x", 100000)+"::1:+1.00:\n:2020-01-01:x::2:-1.00:\n")
	if l, err, _ := openURL("txtdb:" + long2); err == nil && len(l.Transactions) < 2 {
		c.Fail("a database which can not be read to its end opens with less transactions")
	}
	c.Count("unreadable_databases", 4)
	c.Distinct("missing")
}

func init() {
	register(&Prop{ID: "C16", Quick: 9000, Thorough: 300000,
		Rule: "generated databases (accounts in any order, wrong lines in between, own dates, lines with a resulting balance) compared field by field; distinct by content",
		Needs: []string{"databases", "movements", "movements_with_own_date", "balance_lines", "wrong_lines", "acc_runs", "nested_accounts_of_databases",
			"spaced_descriptions", "unsorted_databases", "wrong_balances_refused", "cut_databases", "unreadable_databases", "round_trips"},
		Fixed: []func(*Ctx){txtdbMissing},
		Run: func(c *Ctx) {
			switch k := c.R.Intn(20); {
			case k < 2:
				txtdbWrong(c)
			case k == 2:
				txtdbCut(c)
			default:
				txtdbCase(c)
			}
		}})
	_ = sort.Strings
	_ = ioutil.Discard
}
