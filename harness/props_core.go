package main

import (
	"fmt"
	"maps"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/cespedes/accounting"
)

// openBoth opens a journal written down and handed over raw, and calls f for both.
func openBoth(c *Ctx, j *Journal, f func(how string, l *accounting.Ledger, err error, m *RawMap)) {
	c.Input("facts", describe(j))
	if !j.Nanos {
		w := WriteJournal(c.R, j)
		text := w.Text()
		if chance(c.R, 5) {
			text = strings.ReplaceAll(text, "\n", "\r\n")
		}
		c.Input("journal", text)
		l, err, logged := c.OpenText("j.ledger", text)
		if err == nil && strings.Contains(strings.ToLower(logged), "syntax error") {
			c.Fail("complaint about a correct line: %s", logged)
		}
		f("journal", l, err, nil)
	} else {
		c.Count("fractions_of_seconds", 1)
	}
	o := RawOpt{ShuffleAccounts: chance(c.R, 50), ShuffleTx: chance(c.R, 50), NoMaps: chance(c.R, 50)}
	l, m, err := openJournalRaw(c.R, j, o)
	f("raw", l, err, m)
}

func viewFor(c *Ctx, l *accounting.Ledger, j *Journal, m *RawMap) *View {
	if m != nil {
		v := viewOf(c, l, j)
		if v == nil {
			return nil
		}
		for t, x := range v.Tx {
			if m.Tx[t] != x {
				c.Fail("transactions of the same moment changed their order")
				return nil
			}
		}
		for p, s := range v.Split {
			if m.Post[p] != s {
				c.Fail("postings of a transaction changed their order")
				return nil
			}
		}
		return v
	}
	return viewOf(c, l, j)
}

// validCase opens a correct journal both ways and checks it.
func validCase(c *Ctx, o GenOpt, check func(v *View)) {
	o.Nanos = o.Times && chance(c.R, 8)
	j := GenJournal(c.R, o)
	j.Nanos = o.Nanos
	openBoth(c, j, func(how string, l *accounting.Ledger, err error, m *RawMap) {
		if err != nil {
			c.Fail("a correct journal (%s) is refused: %v", how, err)
			return
		}
		if l == nil {
			c.Fail("no error and no ledger (%s)", how)
			return
		}
		c.Count("ledgers_opened", 1)
		if v := viewFor(c, l, j, m); v != nil {
			check(v)
		}
	})
	c.Distinct(describe(j))
	c.Sample("%s", describe(j))
}

func refusedCase(c *Ctx, j *Journal, why string) {
	c.Input("why", why)
	openBoth(c, j, func(how string, l *accounting.Ledger, err error, m *RawMap) {
		c.Count("refusals_expected", 1)
		if err == nil {
			c.Fail("a journal with %s is accepted (%s)", why, how)
		} else if l != nil {
			c.Fail("a journal with %s gives an error and also a ledger (%s)", why, how)
		}
	})
	c.Distinct(why, describe(j))
	c.Sample("refused (%s):\n%s", why, describe(j))
}

// explicit makes every amount written and removes the assertions.
func explicit(j *Journal, keepElided bool) {
	for _, t := range j.Txs {
		for _, p := range t.Posts {
			if p.Elided && (p.Assert != nil || !keepElided) {
				p.Elided, p.ZeroFree = false, false
			}
			p.Assert = nil
		}
	}
}

func smallDelta(r *rand.Rand) int64 {
	d := []int64{1, 1, 2, 10, U / 100, U, 1 << 32, 1000000 * U}[r.Intn(8)]
	if chance(r, 50) {
		d = -d
	}
	return d
}

// unbalance breaks one transaction; it tells how, or "" if it could not.
func unbalance(r *rand.Rand, j *Journal) string {
	explicit(j, true)
	if chance(r, 50) {
		explicit(j, false)
	}
	if last := j.Txs[len(j.Txs)-1]; len(last.Posts) > 0 && chance(r, 4) { // a transaction of only one posting, with all which may come with it
		cu := j.Curs[r.Intn(len(j.Curs))]
		if cu.Name != "" {
			p := &Post{Acc: pick(r, last.Posts[0].Acc, "Alone:"+accWords[r.Intn(8)]), V: Amt{cu, smallDelta(r)}}
			t := &Tx{T: last.T, Desc: "alone", num: len(j.Txs), Posts: []*Post{p}}
			p.tx = t
			if p.Acc != last.Posts[0].Acc && chance(r, 70) {
				p.Assert = &Amt{cu, p.V.A}
			}
			j.Txs = append(j.Txs, t)
			return "a transaction of one posting"
		}
	}
	for try := 0; try < 30; try++ {
		t := j.Txs[r.Intn(len(j.Txs))]
		elided := false
		for _, p := range t.Posts {
			elided = elided || p.Elided
		}
		if elided {
			continue
		}
		switch r.Intn(7) {
		case 6: // an amount given by an assertion, and another one which does not agree with it
			if t.exch || len(t.Posts) < 2 {
				continue
			}
			p, q := t.Posts[r.Intn(len(t.Posts))], t.Posts[r.Intn(len(t.Posts))]
			if p.Acc == q.Acc || p.PriceK != noPrice || q.PriceK != noPrice || p.V.C.Name == "" && p.V.C != j.NoName || !j.canAssertOnly(p) {
				continue
			}
			p.Elided = true
			p.Assert = &Amt{p.V.C, p.bal[p.V.C]}
			q.V.A += smallDelta(r)
			return "an amount which follows from an assertion and does not balance"
		case 0, 1: // one amount, by little
			if t.exch || len(t.Posts) == 0 {
				continue
			}
			p := t.Posts[r.Intn(len(t.Posts))]
			if p.PriceK != noPrice {
				continue
			}
			p.V.A += smallDelta(r)
			return "an amount off by little"
		case 2: // a price
			if t.exch {
				continue
			}
			for _, p := range t.Posts {
				if p.PriceK == totalPrice {
					p.Total.A += smallDelta(r)
					return "a total price off by little"
				}
				if p.PriceK == unitPrice && p.V.A%U == 0 && p.V.A != 0 && p.V.A < 1000000*U && p.V.A > -1000000*U {
					p.Unit.A++
					p.Total.A += p.V.A / U
					return "a unit price off by little"
				}
			}
		case 3: // a posting less
			if t.exch || len(t.Posts) == 0 {
				continue
			}
			k := r.Intn(len(t.Posts))
			if t.Posts[k].Weight().A == 0 {
				continue
			}
			t.Posts = append(append([]*Post(nil), t.Posts[:k]...), t.Posts[k+1:]...)
			return "a posting missing"
		case 4: // remainder in three currencies
			if !t.exch || len(j.Curs) < 3 {
				continue
			}
			rem := remainder(t.Posts, nil)
			for _, cu := range j.Curs {
				if cu != rem[0].C && cu != rem[1].C {
					t.Posts = append(t.Posts, &Post{Acc: t.Posts[0].Acc, V: Amt{cu, smallDelta(r)}, tx: t, idx: len(t.Posts)})
					return "a remainder in three currencies"
				}
			}
		case 5: // two transactions which balance together
			if t.exch || len(t.Posts) == 0 || t.Posts[0].PriceK != noPrice {
				continue
			}
			u := j.Txs[r.Intn(len(j.Txs))]
			if u == t || u.exch {
				continue
			}
			d := smallDelta(r)
			t.Posts[0].V.A += d
			u.Posts = append(u.Posts, &Post{Acc: t.Posts[0].Acc, V: Amt{t.Posts[0].V.C, -d}, tx: u, idx: len(u.Posts)})
			for _, p := range u.Posts {
				if p.Elided {
					p.Elided, p.ZeroFree = false, false
				}
			}
			return "two transactions which only balance together"
		}
	}
	return ""
}

func init() {
	register(&Prop{ID: "C01", Quick: 60000, Thorough: 1000000,
		Rule:  "generated journals, written down and handed over raw; distinct by their postings; non-trivial: accepted ones have every transaction re-added, refused ones have one transaction broken by design",
		Needs: []string{"transactions_checked", "refusals_expected", "too_big", "at_the_limit"},
		Run: func(c *Ctx) {
			o := fullOpt()
			o.Big = chance(c.R, 20)
			if chance(c.R, 7) {
				limitsCase(c, func(v *View) { checkBalanced(c, v.L) })
				return
			}
			if chance(c.R, 50) {
				validCase(c, o, func(v *View) { checkBalanced(c, v.L) })
				return
			}
			j := GenJournal(c.R, o)
			if why := unbalance(c.R, j); why != "" {
				refusedCase(c, j, why)
			}
		}})

	// balanceAll adds what a transaction lacks.
	balanceAll := func(t *Tx) {
		for _, v := range remainder(t.Posts, nil) {
			t.Posts = append(t.Posts, &Post{Acc: t.Posts[0].Acc, V: Amt{v.C, -v.A}, tx: t, idx: len(t.Posts)})
		}
	}
	register(&Prop{ID: "C02", Quick: 60000, Thorough: 1000000,
		Rule:  "generated journals with omitted amounts, compared posting by posting with the ground truth; distinct by their postings",
		Needs: []string{"omitted_amounts", "omitted_zero", "written_amounts", "refusals_expected"},
		Run: func(c *Ctx) {
			o := fullOpt()
			o.Big = chance(c.R, 20)
			if chance(c.R, 5) {
				limitsCase(c, func(v *View) { v.checkAmounts(c) })
				return
			}
			if chance(c.R, 75) {
				validCase(c, o, func(v *View) { v.checkAmounts(c) })
				return
			}
			j := GenJournal(c.R, o)
			explicit(j, false)
			for try := 0; try < 20; try++ {
				t := j.Txs[c.R.Intn(len(j.Txs))]
				if len(t.Posts) < 2 {
					continue
				}
				if chance(c.R, 50) {
					a := c.R.Intn(len(t.Posts))
					b := c.R.Intn(len(t.Posts))
					if a == b || t.Posts[a].PriceK != noPrice || t.Posts[b].PriceK != noPrice {
						continue
					}
					t.Posts[a].Elided, t.Posts[b].Elided = true, true
					refusedCase(c, j, "two amounts omitted in a transaction")
					return
				}
				if chance(c.R, 40) { // other things in that transaction
					for k := 1 + c.R.Intn(8); k > 0; k-- {
						cu := j.Curs[c.R.Intn(len(j.Curs))]
						t.Posts = append(t.Posts, &Post{Acc: t.Posts[0].Acc, V: Amt{cu, genAmount(c.R, cu, false)}, tx: t, idx: len(t.Posts)})
					}
				}
				p := t.Posts[c.R.Intn(len(t.Posts))]
				rem := remainder(t.Posts, p)
				if p.PriceK != noPrice || len(rem) < 2 {
					balanceAll(t)
					continue
				}
				p.Elided = true
				c.Count(fmt.Sprintf("facing_%d_currencies", len(rem)), 1)
				refusedCase(c, j, "an omitted amount facing two currencies")
				return
			}
		}})

	register(&Prop{ID: "C03", Quick: 50000, Thorough: 1000000,
		Rule:  "generated journals with shared accounts, ties and dated postings; the history and running balances of every account are rebuilt; distinct by their postings",
		Needs: []string{"balances_checked", "too_big", "at_the_limit"},
		Run: func(c *Ctx) {
			o := fullOpt()
			o.MaxTx = 14
			o.Big = chance(c.R, 15)
			open := validCase
			if chance(c.R, 7) {
				open = func(c *Ctx, _ GenOpt, check func(v *View)) { limitsCase(c, check) }
			}
			open(c, o, func(v *View) {
				checkHistories(c, v.L)
				v.checkTrueBalances(c)
			})
		}})

	register(&Prop{ID: "C04", Quick: 60000, Thorough: 1000000,
		Rule:  "generated journals with true assertions, with amounts given by assertions, and with one false assertion; distinct by their postings",
		Needs: []string{"assertions_checked", "zero_assertions", "asserted_amounts", "refusals_expected"},
		Fixed: []func(*Ctx){laterOmitted},
		Run: func(c *Ctx) {
			o := fullOpt()
			o.Big = chance(c.R, 15)
			if x := c.R.Intn(100); x < 65 {
				open := validCase
				if x < 5 {
					open = func(c *Ctx, _ GenOpt, check func(v *View)) { limitsCase(c, check) }
				}
				open(c, o, func(v *View) {
					checkAssertions(c, v.L)
					v.checkAmounts(c)
					v.checkTrueBalances(c)
					for _, t := range v.J.Txs {
						for _, p := range t.Posts {
							if p.Assert != nil {
								if a, ok := v.L.Assertions[v.Split[p]]; !ok || !sameAmt(a, *p.Assert) {
									c.Fail("the assertion of posting %d.%d is lost or changed", t.num, p.idx)
								}
							}
						}
					}
				})
				return
			}
			j := GenJournal(c.R, o)
			for try := 0; try < 30; try++ {
				t := j.Txs[c.R.Intn(len(j.Txs))]
				if len(t.Posts) == 0 {
					continue
				}
				p := t.Posts[c.R.Intn(len(t.Posts))]
				if p.Elided {
					continue
				}
				cu := p.V.C
				if chance(c.R, 30) {
					cu = j.Curs[c.R.Intn(len(j.Curs))]
				}
				a := p.bal[cu]
				switch c.R.Intn(4) {
				case 0: // the balance before this posting, or after the next one
					x := a - p.V.A
					if cu != p.V.C || p.V.A == 0 {
						continue
					}
					a = x
				case 1:
					if a == 0 {
						continue
					}
					a = []int64{0, -a}[c.R.Intn(2)]
				default:
					a += smallDelta(c.R)
				}
				p.Assert = &Amt{cu, a}
				refusedCase(c, j, "a false assertion")
				return
			}
		}})

	register(&Prop{ID: "C05", Quick: 50000, Thorough: 700000,
		Rule:  "generated journals with postings dated before and after their transactions, observed at every moment and its neighbours; distinct by their postings",
		Needs: []string{"instants_checked", "instants_with_money_in_transit", "ledgers_without_transfers", "ledgers_with_transfers"},
		Run: func(c *Ctx) {
			o := fullOpt()
			o.Dated = chance(c.R, 85)
			if chance(c.R, 10) {
				o.Big = true
			}
			validCase(c, o, func(v *View) { v.checkInstants(c) })
		}})

	register(&Prop{ID: "C11", Quick: 60000, Thorough: 1000000,
		Rule:  "generated journals with declared prices, exchanges and priced postings; the price list is compared with the exact ratios; distinct by their postings and prices",
		Needs: []string{"quotes_declared", "quotes_exchange", "quotes_posting"},
		Run: func(c *Ctx) {
			o := fullOpt()
			o.Big = chance(c.R, 15)
			validCase(c, o, func(v *View) { checkPrices(c, v.L, v.J) })
		}})

	register(&Prop{ID: "C22", Quick: 40000, Thorough: 700000,
		Rule:  "generated trees of accounts: declared, used, implied by their descendants, listed in any order; distinct by their names and order",
		Needs: []string{"accounts_checked", "nested_accounts", "odd_names"},
		Run: func(c *Ctx) {
			if chance(c.R, 20) {
				oddNames(c)
				return
			}
			o := fullOpt()
			validCase(c, o, func(v *View) {
				checkTree(c, v.L)
				have := map[string]int{}
				for _, a := range v.L.Accounts {
					if !isTransfer(v.L, a) {
						have[a.FullName()]++
					}
				}
				want := v.J.Names()
				for _, n := range want {
					if have[n] != 1 {
						c.Fail("account %q is there %d times", n, have[n])
					}
				}
				if len(have) != len(want) {
					c.Fail("%d accounts, should be %d", len(have), len(want))
				}
				for p, s := range v.Split {
					found := false
					for _, a := range v.L.Accounts {
						found = found || a == s.Account
					}
					if !found {
						c.Fail("posting in %q refers to an account which is not listed", p.Acc)
					}
				}
			})
		}})

	register(&Prop{ID: "C20", Quick: 35000, Thorough: 500000,
		Rule:  "generated ledgers queried at every moment and its neighbours, over intervals between them, and by identifier; distinct by ledger",
		Needs: []string{"balance_queries", "interval_queries", "intervals_of_the_zero_time", "balances_with_opening", "account_queries"},
		Run: func(c *Ctx) {
			o := fullOpt()
			validCase(c, o, func(v *View) { checkQueries(c, v) })
		}})

	register(&Prop{ID: "C21", Quick: 150000, Thorough: 4000000,
		Rule:  "random sequences of operations on balances, mirrored on exact integers; distinct by sequence",
		Needs: []string{"operations", "balances_with_themselves", "products"},
		Run:   balanceCase})

	register(&Prop{ID: "C25", Quick: 20000, Thorough: 500000,
		Rule:  "generated ledgers recalculated again several times, and after edits, compared with a ledger built so from the start; distinct by ledger and edit",
		Needs: []string{"recalculations", "edits", "accounts_moved", "transactions_removed", "prices_added"},
		Run:   refillCase})
}

// oddNames: names with empty, similar and repeated components, declared and used in any order.
func oddNames(c *Ctx) {
	r := c.R
	parts := []string{"a", "A", "b", "ab", "a b", "", "", "0", "é", "É", "aa", "Assets", "assets", "Transfer account", "a.b", "a/b", "a-b", "'", "a,b", "日本"}
	want := map[string]bool{}
	declared := map[string]bool{}
	name := func() string {
		for {
			var ps []string
			for n := 1 + r.Intn(5); n > 0; n-- {
				ps = append(ps, parts[r.Intn(len(parts))])
			}
			s := strings.Join(ps, ":")
			if s == "" || strings.HasPrefix(s, " ") || strings.Contains(s, "Assets:Transfer account") {
				continue
			}
			for i := range s {
				if s[i] == ':' {
					want[s[:i]] = true
				}
			}
			return s
		}
	}
	var b strings.Builder
	b.WriteString("commodity 1.00 EUR\n")
	for n := r.Intn(8); n > 0; n-- {
		s := name()
		if want[s] || declared[s] {
			continue // it already exists: declaring it is an error
		}
		declared[s] = true
		want[s] = true
		b.WriteString("account " + s + "\n")
	}
	var posts []string
	for n := 1 + r.Intn(3); n > 0; n-- {
		b.WriteString("2020-01-01 x\n")
		for k := 1 + r.Intn(3); k > 0; k-- {
			x, y := name(), name()
			want[x], want[y] = true, true
			posts = append(posts, x, y)
			fmt.Fprintf(&b, "  %s  5.00 EUR\n  %s  -5.00 EUR\n", x, y)
		}
	}
	text := b.String()
	c.Input("journal", text)
	l, err, _ := c.OpenText("j.ledger", text)
	if err != nil {
		c.Fail("a correct journal is refused: %v", err)
		return
	}
	checkTree(c, l)
	have := map[string]*accounting.Account{}
	for _, a := range l.Accounts {
		if isTransfer(l, a) {
			continue
		}
		n := a.FullName()
		if have[n] != nil {
			c.Fail("two accounts are called %q", n)
		}
		have[n] = a
		if !want[n] {
			c.Fail("nobody mentioned account %q", n)
		}
		if i := strings.LastIndex(n, ":"); (i < 0) != (a.Parent == nil) || i >= 0 && (a.Parent != have[n[:i]] || a.Name != n[i+1:]) {
			c.Fail("account %q is %q in %v", n, a.Name, a.Parent)
		}
	}
	for n := range want {
		if have[n] == nil {
			c.Fail("account %q is missing", n)
		}
	}
	for _, t := range l.Transactions {
		for _, s := range t.Splits {
			if len(posts) == 0 || s.Account.FullName() != posts[0] || have[posts[0]] != s.Account {
				c.Fail("a posting to %q went to %q", posts, s.Account.FullName())
				return
			}
			posts = posts[1:]
		}
	}
	if len(posts) > 0 {
		c.Fail("%d postings are missing", len(posts))
	}
	c.Count("odd_names", len(want))
	c.Distinct(text)
}

// laterOmitted: an amount given by an assertion, after an omitted amount of a later transaction.
func laterOmitted(c *Ctx) {
	text := "2020-01-01 a\n  X  = 30 EUR ; date:2020-01-10\n  Y\n2020-01-05 b\n  X\n  Z  -10 EUR\n"
	c.Input("journal", text)
	l, err, _ := c.OpenText("later.ledger", text)
	if err != nil {
		c.Fail("an amount given by an assertion, after an omitted amount of a later transaction, is refused: %v", err)
		return
	}
	if l.Transactions[0].Splits[0].Value.Amount != 20*U {
		c.Fail("wrong amount")
	}
	c.Distinct(text)
}

var zone, otherZone = time.FixedZone("west", -11*3600), time.FixedZone("east", 14*3600)

func checkQueries(c *Ctx, v *View) {
	l := v.L
	ms := append(moments(l), time.Date(1, 1, 1, 0, 0, 1, 0, time.UTC), time.Date(9999, 1, 1, 0, 0, 0, 0, time.UTC))
	c.R.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	if len(ms) > 40 {
		ms = ms[:40]
	}
	same := func(a, b accounting.Balance) bool { return balStr(a) == balStr(b) }
	for _, a := range l.Accounts {
		for _, when := range ms {
			// after the last posting at or before that moment, from the amounts
			var want accounting.Balance
			for _, s := range a.Splits {
				if !s.Time.After(when) {
					want.Add(s.Value)
				}
			}
			c.Count("balance_queries", 1)
			if chance(c.R, 10) {
				when = when.In(zone)
				c.Count("balances_asked_from_elsewhere", 1)
			}
			if got := l.GetBalance(a, when); !same(got, want) {
				c.Fail("balance of %q at %s is %s, should be %s", a.FullName(), tm(when), balStr(got), balStr(want))
			}
		}
		var want accounting.Balance
		for _, s := range a.Splits {
			want.Add(s.Value)
		}
		if got := l.GetBalance(a, time.Time{}); !same(got, want) {
			c.Fail("final balance of %q is %s, should be %s", a.FullName(), balStr(got), balStr(want))
		}
		if isTransfer(l, a) {
			continue
		}
		c.Count("account_queries", 1)
		if got := l.Account(a.ID); got != a {
			c.Fail("account %q is not found by its identifier", a.FullName())
		}
		var list []*accounting.Transaction
		for _, t := range l.Transactions {
			for _, s := range t.Splits {
				if s.Account == a {
					list = append(list, t)
					break
				}
			}
		}
		if !sameTx(l.TransactionsInAccount(a.ID), list) {
			c.Fail("transactions of %q: wrong list", a.FullName())
		}
	}
	if l.Account(rawID("nobody")) != nil {
		c.Fail("an account is found with an unknown identifier")
	}
	if n := len(l.TransactionsInAccount(rawID("nobody"))); n != 0 {
		c.Fail("%d transactions of an unknown account", n)
	}
	for i := 0; i < 25 && len(ms) > 1; i++ {
		a, b := ms[c.R.Intn(len(ms))], ms[c.R.Intn(len(ms))]
		if chance(c.R, 20) {
			b = a
		}
		switch c.R.Intn(16) { // the zero time is one like any other
		case 0:
			a = time.Time{}
			c.Count("intervals_of_the_zero_time", 1)
		case 1:
			b = time.Time{}
			c.Count("intervals_of_the_zero_time", 1)
		case 2:
			a, b = time.Time{}, time.Time{}
		case 3: // the same moments elsewhere
			a, b = a.In(zone), b.In(otherZone)
		}
		var list []*accounting.Transaction
		for _, t := range l.Transactions {
			if !t.Time.Before(a) && !t.Time.After(b) {
				list = append(list, t)
			}
		}
		c.Count("interval_queries", 1)
		if got := l.TransactionsInInterval(a, b); !sameTx(got, list) {
			c.Fail("%d transactions from %s to %s, should be %d", len(got), tm(a), tm(b), len(list))
		}
	}
	// an account whose first postings are an opening balance
	for i := 0; i < 3 && len(l.Accounts) > 0 && len(ms) > 0; i++ {
		a := l.Accounts[c.R.Intn(len(l.Accounts))]
		if len(a.Splits) == 0 {
			continue
		}
		k := c.R.Intn(len(a.Splits))
		x := &accounting.Account{ID: a.ID, Name: a.Name, StartBalance: a.Splits[k].Balance.Dup(), Splits: a.Splits[k+1:]}
		for j := 0; j < 6; j++ {
			when := ms[c.R.Intn(len(ms))]
			if j == 0 {
				when = time.Time{}
			}
			want := x.StartBalance.Dup()
			for _, s := range x.Splits {
				if j == 0 || !s.Time.After(when) {
					want.Add(s.Value)
				}
			}
			c.Count("balances_with_opening", 1)
			if got := l.GetBalance(x, when); !same(got, want) {
				c.Fail("balance of %q, with an opening balance, at %s is %s, should be %s", a.FullName(), tm(when), balStr(got), balStr(want))
			}
		}
	}
	// an account without postings has just its opening balance
	x := &accounting.Account{Name: "x", StartBalance: accounting.Balance{{Amount: 5, Currency: &accounting.Currency{Name: "E"}}}}
	if !same(l.GetBalance(x, time.Time{}), x.StartBalance) || len(ms) > 0 && !same(l.GetBalance(x, ms[0]), x.StartBalance) {
		c.Fail("balance of an account without postings is not its opening balance")
	}
}

func sameTx(a, b []*accounting.Transaction) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func balanceCase(c *Ctx) {
	r := c.R
	n := 1 + r.Intn(5)
	var curs []*accounting.Currency
	for i := 0; i < n; i++ {
		curs = append(curs, &accounting.Currency{Name: fmt.Sprintf("C%d", i%3)}) // equal names, different currencies
	}
	type model map[*accounting.Currency]int64
	bals := make([]accounting.Balance, 3)
	mods := []model{{}, {}, {}}
	norm := func(m model) {
		for k, x := range m {
			if x == 0 {
				delete(m, k)
			}
		}
	}
	var trace strings.Builder
	val := func() accounting.Value {
		a := int64(r.Intn(7)-3) * []int64{1, U, 1 << 40}[r.Intn(3)]
		return accounting.Value{Amount: a, Currency: curs[r.Intn(n)]}
	}
	check := func() {
		for i := range bals {
			m := model(balMap(c, "balance", bals[i]))
			if !sameBal(m, mods[i]) {
				c.Fail("after %s balance %d is %s", trace.String(), i, balStr(bals[i]))
				return
			}
		}
	}
	ops := 3 + r.Intn(25)
	for k := 0; k < ops && !c.Failed(); k++ {
		i, j := r.Intn(3), r.Intn(3)
		c.Count("operations", 1)
		switch r.Intn(6) {
		case 0, 1:
			v := val()
			fmt.Fprintf(&trace, " add(%d,%s)", i, valStr(v, false))
			bals[i].Add(v)
			mods[i][v.Currency] += v.Amount
		case 2:
			v := val()
			fmt.Fprintf(&trace, " sub(%d,%s)", i, valStr(v, false))
			bals[i].Sub(v)
			mods[i][v.Currency] -= v.Amount
		case 3:
			if i == j {
				c.Count("balances_with_themselves", 1)
			}
			big := false
			for k, x := range mods[j] {
				big = big || x > 1<<60 || x < -1<<60 || mods[i][k] > 1<<60 || mods[i][k] < -1<<60
			}
			if big {
				continue
			}
			fmt.Fprintf(&trace, " addbalance(%d,%d)", i, j)
			before := balStr(bals[j])
			bals[i].AddBalance(bals[j])
			for k, x := range maps.Clone(mods[j]) {
				mods[i][k] += x
			}
			if i != j && before != balStr(bals[j]) {
				c.Fail("adding a balance changed the one added")
			}
		case 4:
			if i == j {
				c.Count("balances_with_themselves", 1)
			}
			fmt.Fprintf(&trace, " subbalance(%d,%d)", i, j)
			bals[i].SubBalance(bals[j])
			for k, x := range maps.Clone(mods[j]) {
				mods[i][k] -= x
			}
		case 5:
			if i == j {
				continue
			}
			fmt.Fprintf(&trace, " dup(%d,%d)", i, j)
			bals[i] = bals[j].Dup()
			mods[i] = model{}
			for k, x := range mods[j] {
				mods[i][k] = x
			}
		}
		norm(mods[0])
		norm(mods[1])
		norm(mods[2])
		check()
	}
	// adding and taking away restores, in any order
	b := bals[0].Dup()
	vs := []accounting.Value{val(), val(), val(), val()}
	for _, v := range vs {
		b.Add(v)
	}
	for _, k := range r.Perm(len(vs)) {
		b.Sub(vs[k])
	}
	if balStr(b) != balStr(bals[0]) {
		c.Fail("adding and subtracting the same does not restore %s but gives %s", balStr(bals[0]), balStr(b))
	}
	// a sum whose terms cancel is empty and shown as zero
	var z accounting.Balance
	z.AddBalance(bals[1])
	z.SubBalance(bals[1])
	if len(z) != 0 || z.String() != "0" {
		c.Fail("a balance minus itself is %s", z)
	}
	// products
	for k := 0; k < 4; k++ {
		lim := []int64{1000, 1000 * U, 40000 * U}[r.Intn(3)]
		x, y := r.Int63n(2*lim)-lim, r.Int63n(2*lim)-lim
		v := accounting.Value{Amount: x, Currency: curs[0]}
		v.Mul(accounting.Value{Amount: y})
		p := new(big.Int).Mul(big.NewInt(x), big.NewInt(y))
		p.Sub(p, new(big.Int).Mul(big.NewInt(v.Amount), big.NewInt(U)))
		c.Count("products", 1)
		if p.CmpAbs(big.NewInt(U)) >= 0 || v.Currency != curs[0] {
			c.Fail("%d times %d is %d", x, y, v.Amount)
		}
	}
	c.Distinct(trace.String())
	c.Sample("%s", trace.String())
}

// moveAccount changes the parent or the name of an account, both in the ledger and in the ground truth.
func moveAccount(r *rand.Rand, j *Journal, m *RawMap) string {
	names := j.Names()
	if len(names) == 0 {
		return ""
	}
	from := names[r.Intn(len(names))]
	acc := m.Acc[from]
	under := func(n string) bool { return n == from || strings.HasPrefix(n, from+":") }
	to, name := "", acc.Name
	if chance(r, 30) {
		name = "moved " + fmt.Sprint(r.Intn(100))
	}
	var parent *accounting.Account
	if chance(r, 75) {
		p := names[r.Intn(len(names))]
		if under(p) {
			return ""
		}
		to, parent = p+":", m.Acc[p]
	}
	to += name
	for _, n := range names {
		if n == to || strings.HasPrefix(n, to+":") {
			return ""
		}
	}
	if strings.HasPrefix(transferName, to) {
		return ""
	}
	rename := func(n string) string {
		if under(n) {
			return to + n[len(from):]
		}
		return n
	}
	declared := map[string]bool{}
	for _, d := range j.Accs {
		declared[d.Name] = true
	}
	for _, n := range names { // what was there only because of what is below it stays
		if !declared[n] {
			j.Accs = append(j.Accs, &AccDecl{Name: n})
		}
	}
	for _, d := range j.Accs {
		d.Name = rename(d.Name)
	}
	for _, t := range j.Txs {
		for _, p := range t.Posts {
			p.Acc = rename(p.Acc)
		}
	}
	acc2 := map[string]*accounting.Account{}
	for n, a := range m.Acc {
		acc2[rename(n)] = a
	}
	m.Acc = acc2
	acc.Parent, acc.Name = parent, name
	return fmt.Sprintf("account %s is now %s", from, to)
}

func refillCase(c *Ctx) {
	o := fullOpt()
	o.MaxTx = 6
	j := GenJournal(c.R, o)
	openBoth(c, j, func(how string, l *accounting.Ledger, err error, m *RawMap) {
		if err != nil {
			c.Fail("a correct journal (%s) is refused: %v", how, err)
			return
		}
		before := Snapshot(l, SnapOpt{})
		comments := len(l.Comments)
		for k := 0; k < 3; k++ {
			c.Count("recalculations", 1)
			if err := l.Fill(); err != nil {
				c.Fail("recalculating (%s) fails: %v", how, err)
				return
			}
			if d := diff(before, Snapshot(l, SnapOpt{})); d != "" {
				c.Fail("recalculation %d (%s) changed the ledger: %s", k+1, how, d)
				return
			}
			if n := len(l.Comments); n != comments {
				c.Fail("recalculation %d (%s): %d objects have comments, %d had them", k+1, how, n, comments)
				return
			}
		}
	})
	if c.Failed() {
		return
	}
	c.Distinct(describe(j))
	// edits
	for _, t := range j.Txs {
		for _, p := range t.Posts {
			if p.ZeroFree {
				p.Elided, p.ZeroFree = false, false
			}
		}
	}
	noAssert := chance(c.R, 60)
	if noAssert {
		for _, t := range j.Txs {
			for _, p := range t.Posts {
				if p.Elided && p.Assert != nil {
					p.Elided = false
				}
				p.Assert = nil
			}
		}
	}
	seed := c.R.Int63()
	l, m, err := openJournalRaw(rand.New(rand.NewSource(seed)), j, RawOpt{})
	if err != nil {
		c.Fail("a correct journal is refused: %v", err)
		return
	}
	for _, t := range j.Txs { // now everything is explicit
		for _, p := range t.Posts {
			p.Elided = false
		}
	}
	n := 1 + c.R.Intn(4)
	var trace []string
	for k := 0; k < n; k++ {
		switch c.R.Intn(8) {
		case 5: // an account, and all what is below it, goes elsewhere, maybe with another name
			if x := moveAccount(c.R, j, m); x != "" {
				trace = append(trace, x)
				c.Count("accounts_moved", 1)
			}
		case 6: // a transaction less
			i := c.R.Intn(len(j.Txs))
			if !noAssert || len(j.Txs) < 2 {
				continue
			}
			t := j.Txs[i]
			for k, x := range l.Transactions {
				if x == m.Tx[t] {
					l.Transactions = append(l.Transactions[:k:k], l.Transactions[k+1:]...)
					break
				}
			}
			for _, p := range t.Posts { // its accounts are still there
				declared := false
				for _, d := range j.Accs {
					declared = declared || d.Name == p.Acc
				}
				if !declared {
					j.Accs = append(j.Accs, &AccDecl{Name: p.Acc})
				}
			}
			j.Txs = append(j.Txs[:i:i], j.Txs[i+1:]...)
			trace = append(trace, fmt.Sprintf("without transaction %d", t.num))
			c.Count("transactions_removed", 1)
		case 7: // a price more
			a, b := j.Curs[c.R.Intn(len(j.Curs))], j.Curs[c.R.Intn(len(j.Curs))]
			if a == b {
				continue
			}
			p := &PriceDecl{T: j.Txs[c.R.Intn(len(j.Txs))].T.Add(time.Duration(c.R.Intn(4000000)-2000000)*time.Second + time.Duration(k+21)*time.Nanosecond), C: a, V: Amt{b, 1 + c.R.Int63n(1000*U)}}
			j.Prices = append(j.Prices, p)
			sort.SliceStable(j.Prices, func(x, y int) bool { return j.Prices[x].T.Before(j.Prices[y].T) })
			l.Prices = append(l.Prices, &accounting.Price{Time: p.T, Currency: m.Cur[a], Value: accounting.Value{Amount: p.V.A, Currency: m.Cur[b]}})
			trace = append(trace, fmt.Sprintf("price at %s", tm(p.T)))
			c.Count("prices_added", 1)
		case 0: // amounts
			t := j.Txs[c.R.Intn(len(j.Txs))]
			if len(t.Posts) < 2 || !noAssert {
				continue
			}
			a, b := t.Posts[0], t.Posts[len(t.Posts)-1]
			if a.V.C != b.V.C || a.PriceK != noPrice || b.PriceK != noPrice {
				continue
			}
			d := smallDelta(c.R)
			a.V.A += d
			b.V.A -= d
			m.Post[a].Value.Amount += d
			m.Post[b].Value.Amount -= d
			trace = append(trace, fmt.Sprintf("amounts of %d by %d", t.num, d))
		case 1: // date of a posting
			t := j.Txs[c.R.Intn(len(j.Txs))]
			if len(t.Posts) == 0 || !noAssert {
				continue
			}
			p := t.Posts[c.R.Intn(len(t.Posts))]
			d := t.T.Add(time.Duration(c.R.Intn(2000)-1000) * time.Hour)
			if chance(c.R, 20) {
				d = t.T
			}
			p.Date = &d
			x := d
			m.Post[p].Time = &x
			trace = append(trace, fmt.Sprintf("date of %d.%d to %s", t.num, p.idx, tm(d)))
		case 2: // date of a transaction
			t := j.Txs[c.R.Intn(len(j.Txs))]
			if !noAssert {
				continue
			}
			d := t.T.Add(time.Duration(c.R.Intn(4000000)-2000000)*time.Second + time.Duration(k+1)*time.Nanosecond)
			t.T = d
			m.Tx[t].Time = d
			trace = append(trace, fmt.Sprintf("date of %d to %s", t.num, tm(d)))
		case 3: // a new transaction
			if len(j.Names()) == 0 {
				continue
			}
			base := j.Txs[c.R.Intn(len(j.Txs))]
			t := &Tx{T: base.T.Add(time.Duration(c.R.Intn(4000000)-2000000)*time.Second + time.Duration(k+11)*time.Nanosecond), Desc: "new", num: 100 + k}
			if !noAssert {
				t.T = j.Txs[len(j.Txs)-1].T.Add(1000 * time.Hour).Add(time.Duration(k+11) * time.Nanosecond)
				for _, u := range j.Txs {
					if !u.T.Before(t.T) {
						t.T = u.T.Add(1000*time.Hour + time.Nanosecond)
					}
					for _, p := range u.Posts {
						if !p.T().Before(t.T) {
							t.T = p.T().Add(time.Hour)
						}
					}
				}
			}
			names := j.Names()
			cu := j.Curs[c.R.Intn(len(j.Curs))]
			x := genAmount(c.R, cu, false)
			t.Posts = []*Post{{Acc: names[c.R.Intn(len(names))], V: Amt{cu, x}, tx: t}, {Acc: names[c.R.Intn(len(names))], V: Amt{cu, -x}, tx: t, idx: 1}}
			nt := &accounting.Transaction{Time: t.T, Description: "new"}
			m.Tx[t] = nt
			for _, p := range t.Posts {
				s := &accounting.Split{Account: m.Acc[p.Acc], Value: accounting.Value{Amount: p.V.A, Currency: m.Cur[p.V.C]}}
				m.Post[p] = s
				nt.Splits = append(nt.Splits, s)
			}
			j.Txs = append(j.Txs, t)
			l.Transactions = append(l.Transactions, nt)
			trace = append(trace, fmt.Sprintf("new transaction at %s", tm(t.T)))
		case 4: // a posting goes to another account
			t := j.Txs[c.R.Intn(len(j.Txs))]
			if len(t.Posts) < 2 || !noAssert {
				continue
			}
			p, q := t.Posts[0], t.Posts[1]
			// exchange accounts, so that the set of accounts stays
			p.Acc, q.Acc = q.Acc, p.Acc
			m.Post[p].Account, m.Post[q].Account = m.Post[q].Account, m.Post[p].Account
			trace = append(trace, fmt.Sprintf("accounts of %d", t.num))
		}
		if chance(c.R, 30) {
			if err := l.Fill(); err != nil {
				c.Fail("recalculating after %v fails: %v", trace, err)
				return
			}
		}
	}
	if len(trace) == 0 {
		return
	}
	c.Count("edits", len(trace))
	c.Input("edits", strings.Join(trace, "; "))
	if err := l.Fill(); err != nil {
		c.Fail("recalculating after %v fails: %v", trace, err)
		return
	}
	byMoment := append([]*Tx(nil), j.Txs...)
	stableBy(byMoment, func(a, b *Tx) bool { return a.T.Before(b.T) })
	j.Txs = byMoment
	l2, _, err := openJournalRaw(rand.New(rand.NewSource(seed)), j, RawOpt{})
	if err != nil {
		c.Fail("the edited journal is refused: %v", err)
		return
	}
	checkTree(c, l)
	a, b := byName(Snapshot(l, SnapOpt{NoIDs: true})), byName(Snapshot(l2, SnapOpt{NoIDs: true}))
	if d := diff(a, b); d != "" {
		c.Fail("recalculated after %v differs from built so: %s", trace, d)
	}
	c.Sample("edits: %s", strings.Join(trace, "; "))
}

// byName orders the account blocks of a snapshot, whose order depends on how the ledger was built.
func byName(s []string) []string {
	var blocks [][]string
	var rest []string
	for _, x := range s {
		if strings.HasPrefix(x, "account ") {
			blocks = append(blocks, []string{x})
		} else if strings.HasPrefix(x, "    child") && len(rest) == 0 {
			continue
		} else if len(rest) == 0 && strings.HasPrefix(x, "    ") && len(blocks) > 0 {
			blocks[len(blocks)-1] = append(blocks[len(blocks)-1], x)
		} else {
			rest = append(rest, x)
		}
	}
	for i := 1; i < len(blocks); i++ {
		for k := i; k > 0 && blocks[k][0] < blocks[k-1][0]; k-- {
			blocks[k], blocks[k-1] = blocks[k-1], blocks[k]
		}
	}
	var res []string
	for _, b := range blocks {
		res = append(res, b...)
	}
	return append(res, rest...)
}
