package main

// Oracles shared by several monitors.

import (
	"fmt"
	"math/big"
	"sort"
	"time"

	"github.com/cespedes/accounting"
)

// View relates an opened ledger with the ground truth, posting by posting.
type View struct {
	L     *accounting.Ledger
	J     *Journal
	Tx    map[*Tx]*accounting.Transaction
	Split map[*Post]*accounting.Split
}

// realSplits are the postings of a transaction which are not automatic.
func realSplits(l *accounting.Ledger, t *accounting.Transaction) []*accounting.Split {
	var res []*accounting.Split
	for _, s := range t.Splits {
		if !isTransfer(l, s.Account) {
			res = append(res, s)
		}
	}
	return res
}

// viewOf matches the transactions in order.
func viewOf(c *Ctx, l *accounting.Ledger, j *Journal) *View {
	v := &View{l, j, map[*Tx]*accounting.Transaction{}, map[*Post]*accounting.Split{}}
	if len(l.Transactions) != len(j.Txs) {
		c.Fail("the ledger has %d transactions, the journal %d", len(l.Transactions), len(j.Txs))
		return nil
	}
	for i, t := range j.Txs {
		x := l.Transactions[i]
		if !x.Time.Equal(t.T) {
			c.Fail("transaction %d is at %s, should be at %s", i, tm(x.Time), tm(t.T))
			return nil
		}
		ss := realSplits(l, x)
		if len(ss) != len(t.Posts) {
			c.Fail("transaction %d has %d postings, should have %d", i, len(ss), len(t.Posts))
			return nil
		}
		v.Tx[t] = x
		for k, p := range t.Posts {
			if ss[k].Account == nil || ss[k].Account.FullName() != p.Acc {
				c.Fail("posting %d.%d is in another account than %q", i, k, p.Acc)
				return nil
			}
			v.Split[p] = ss[k]
		}
	}
	return v
}

func viewRaw(l *accounting.Ledger, j *Journal, m *RawMap) *View {
	return &View{l, j, m.Tx, m.Post}
}

func sameAmt(v accounting.Value, a Amt) bool {
	return v.Amount == a.A && v.Currency != nil && v.Currency.Name == a.C.Name
}

// checkAmounts: written amounts are untouched and omitted ones are what they should be.
func (v *View) checkAmounts(c *Ctx) {
	for _, t := range v.J.Txs {
		for _, p := range t.Posts {
			s := v.Split[p]
			if p.ZeroFree {
				c.Count("omitted_zero", 1)
				if s.Value.Amount != 0 {
					c.Fail("posting %d.%d: omitted amount in a balanced transaction became %s", t.num, p.idx, valStr(s.Value, false))
				}
				continue
			}
			if p.Elided && p.Assert == nil {
				c.Count("omitted_amounts", 1)
			} else if p.Elided {
				c.Count("asserted_amounts", 1)
			} else {
				c.Count("written_amounts", 1)
			}
			if !sameAmt(s.Value, p.V) {
				c.Fail("posting %d.%d in %q: amount is %s, should be %s", t.num, p.idx, p.Acc, valStr(s.Value, false), p.V)
			}
		}
	}
}

// checkBalanced: every transaction in the ledger adds up to zero, or is an exchange.
func checkBalanced(c *Ctx, l *accounting.Ledger) {
	for i, t := range l.Transactions {
		sums := map[*accounting.Currency]*big.Int{}
		for _, s := range realSplits(l, t) {
			v := s.Value
			if x, ok := l.SplitPrices[s]; ok {
				v = x
			}
			if v.Amount == 0 {
				continue
			}
			if sums[v.Currency] == nil {
				sums[v.Currency] = new(big.Int)
			}
			sums[v.Currency].Add(sums[v.Currency], big.NewInt(v.Amount))
		}
		n := 0
		for _, x := range sums {
			if x.Sign() != 0 {
				n++
			}
		}
		c.Count("transactions_checked", 1)
		if n != 0 && n != 2 {
			c.Fail("transaction %d (%s) entered the books with a remainder in %d currencies", i, tm(t.Time), n)
		}
	}
}

// expectedHistory is the history of an account according to the transactions of the ledger.
func expectedHistory(l *accounting.Ledger, a *accounting.Account) []*accounting.Split {
	var h []*accounting.Split
	for _, t := range l.Transactions {
		for _, s := range t.Splits {
			if s.Account == a {
				h = append(h, s)
			}
		}
	}
	sort.SliceStable(h, func(i, j int) bool { return h[i].Time.Before(*h[j].Time) })
	return h
}

func balMap(c *Ctx, where string, b accounting.Balance) map[*accounting.Currency]int64 {
	m := map[*accounting.Currency]int64{}
	for _, v := range b {
		if _, dup := m[v.Currency]; dup {
			c.Fail("%s: currency %q twice in a balance", where, curName(v.Currency))
		}
		if v.Amount == 0 {
			c.Fail("%s: balance with a zero amount of %q", where, curName(v.Currency))
		}
		m[v.Currency] = v.Amount
	}
	return m
}

func sameBal(a, b map[*accounting.Currency]int64) bool {
	if len(a) != len(b) {
		return false
	}
	for k, x := range a {
		if b[k] != x {
			return false
		}
	}
	return true
}

// checkHistories: every posting exactly once, in order, with exact running balances.
func checkHistories(c *Ctx, l *accounting.Ledger) {
	total := 0
	for _, a := range l.Accounts {
		want := expectedHistory(l, a)
		total += len(want)
		name := a.FullName()
		if len(want) != len(a.Splits) {
			c.Fail("account %q: %d postings in its history, %d in the transactions", name, len(a.Splits), len(want))
			continue
		}
		trans := isTransfer(l, a)
		have := map[*accounting.Split]bool{}
		sum := map[*accounting.Currency]int64{}
		for i, s := range a.Splits {
			if have[s] {
				c.Fail("account %q: a posting is twice in its history", name)
			}
			have[s] = true
			if s.Account != a {
				c.Fail("account %q: its history has a posting of another account", name)
			}
			if i > 0 && s.Time.Before(*a.Splits[i-1].Time) {
				c.Fail("account %q: history not in chronological order at %d", name, i)
			}
			if !trans && s != want[i] {
				c.Fail("account %q: posting %d of its history should be another one of the same moment", name, i)
			}
			if x := new(big.Int).Add(big.NewInt(sum[s.Value.Currency]), big.NewInt(s.Value.Amount)); !fits(x) {
				c.Fail("account %q: balance after posting %d can not be represented", name, i)
			}
			sum[s.Value.Currency] += s.Value.Amount
			if sum[s.Value.Currency] == 0 {
				delete(sum, s.Value.Currency)
			}
			c.Count("balances_checked", 1)
			if !sameBal(sum, balMap(c, fmt.Sprintf("account %q posting %d", name, i), s.Balance)) {
				c.Fail("account %q: balance after posting %d (%s) is %s, wrong", name, i, valStr(s.Value, false), balStr(s.Balance))
			}
		}
		for _, s := range want {
			if !have[s] {
				c.Fail("account %q: a posting is missing in its history", name)
			}
		}
	}
	n := 0
	for _, t := range l.Transactions {
		n += len(t.Splits)
		for _, s := range t.Splits {
			if s.Transaction != t {
				c.Fail("a posting does not refer to its own transaction")
			}
		}
	}
	if n != total {
		c.Fail("%d postings in the transactions, %d in listed accounts", n, total)
	}
}

// checkTrueBalances compares running balances and order with the ground truth.
func (v *View) checkTrueBalances(c *Ctx) {
	for acc, h := range v.J.Histories() {
		a := v.Split[h[0]].Account
		if len(a.Splits) != len(h) {
			c.Fail("account %q has %d postings, should have %d", acc, len(a.Splits), len(h))
			continue
		}
		for i, p := range h {
			s := a.Splits[i]
			if s != v.Split[p] {
				c.Fail("account %q: posting %d should be %d.%d of the journal", acc, i, p.tx.num, p.idx)
				return
			}
			if !s.Time.Equal(p.T()) {
				c.Fail("account %q: posting %d is dated %s, should be %s", acc, i, tm(*s.Time), tm(p.T()))
			}
			n := 0
			for _, x := range s.Balance {
				n++
				found := false
				for cu, am := range p.bal {
					if sameAmt(x, Amt{cu, am}) {
						found = true
					}
				}
				if !found {
					c.Fail("account %q: balance after posting %d is %s, should be %v", acc, i, balStr(s.Balance), balOf(p))
				}
			}
			if n != len(p.bal) {
				c.Fail("account %q: balance after posting %d is %s, should be %v", acc, i, balStr(s.Balance), balOf(p))
			}
		}
	}
}

func balOf(p *Post) []string {
	var s []string
	for cu, a := range p.bal {
		s = append(s, fmt.Sprintf("%d[%s]", a, cu.Name))
	}
	sort.Strings(s)
	return s
}

// balanceAt is the balance of an account at a moment, according to its history.
func balanceAt(a *accounting.Account, when time.Time) accounting.Balance {
	var b accounting.Balance
	for _, s := range a.Splits {
		if s.Time.After(when) {
			break
		}
		b = s.Balance
	}
	return b
}

// moments returns every moment of the ledger, with some neighbours.
func moments(l *accounting.Ledger) []time.Time {
	m := map[time.Time]bool{}
	for _, t := range l.Transactions {
		m[t.Time.UTC()] = true
		for _, s := range t.Splits {
			m[s.Time.UTC()] = true
		}
	}
	var res []time.Time
	for t := range m {
		res = append(res, t, t.Add(-1), t.Add(1), t.Add(time.Second))
	}
	sort.Slice(res, func(i, j int) bool { return res[i].Before(res[j]) })
	return res
}

func addTo(m map[string]int64, v accounting.Value, sign int64) {
	k := curName(v.Currency)
	m[k] += sign * v.Amount
	if m[k] == 0 {
		delete(m, k)
	}
}

func sameMap(a, b map[string]int64) bool {
	if len(a) != len(b) {
		return false
	}
	for k, x := range a {
		if b[k] != x {
			return false
		}
	}
	return true
}

// checkInstants: the books balance at every instant, and the transfer account holds what is in transit.
func (v *View) checkInstants(c *Ctx) {
	l := v.L
	tr := findTransfer(l)
	ms := moments(l)
	if len(ms) > 60 {
		c.R.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
		ms = ms[:60]
	}
	dated := false
	for _, t := range v.J.Txs {
		for _, p := range t.Posts {
			if !p.T().Equal(t.T) {
				dated = true
			}
		}
	}
	if !dated {
		c.Count("ledgers_without_transfers", 1)
		if tr != nil && len(tr.Splits) > 0 {
			c.Fail("no posting has a date of its own, but the transfer account has %d", len(tr.Splits))
		}
	} else {
		c.Count("ledgers_with_transfers", 1)
	}
	for _, when := range ms {
		sum := map[string]int64{}
		for _, a := range l.Accounts {
			for _, x := range balanceAt(a, when) {
				addTo(sum, x, 1)
			}
		}
		want := map[string]int64{}
		transit := map[string]int64{}
		for _, t := range v.J.Txs {
			for _, p := range t.Posts {
				x := accounting.Value{Amount: p.V.A, Currency: &accounting.Currency{Name: p.V.C.Name}}
				come, postCome := !t.T.After(when), !p.T().After(when)
				if come {
					addTo(want, x, 1)
				}
				if come && !postCome {
					addTo(transit, x, 1)
				}
				if !come && postCome {
					addTo(transit, x, -1)
				}
			}
		}
		c.Count("instants_checked", 1)
		if !sameMap(sum, want) {
			c.Fail("at %s all the accounts add up to %v, should be %v", tm(when), sum, want)
		}
		got := map[string]int64{}
		if tr != nil {
			for _, x := range balanceAt(tr, when) {
				addTo(got, x, 1)
			}
		}
		if len(transit) > 0 {
			c.Count("instants_with_money_in_transit", 1)
		}
		if !sameMap(got, transit) {
			c.Fail("at %s the transfer account holds %v, should be %v", tm(when), got, transit)
		}
	}
}

// checkAssertions: every assertion in the ledger holds.
func checkAssertions(c *Ctx, l *accounting.Ledger) {
	for _, t := range l.Transactions {
		for _, s := range t.Splits {
			a, ok := l.Assertions[s]
			if !ok {
				continue
			}
			var have int64
			for _, x := range s.Balance {
				if x.Currency == a.Currency {
					have = x.Amount
				}
			}
			c.Count("assertions_checked", 1)
			if have == 0 {
				c.Count("zero_assertions", 1)
			}
			if have != a.Amount {
				c.Fail("posting in %q asserts %s but the balance is %s", s.Account.FullName(), valStr(a, false), balStr(s.Balance))
			}
		}
	}
}

type quote struct {
	t        time.Time
	from, to string
	num, den int64 // value is num/den units of 1/U; den 0: declared exactly num
	what     string
}

func (q quote) String() string {
	return fmt.Sprintf("%s %s in %s (%s %d/%d)", tm(q.t), q.from, q.to, q.what, q.num, q.den)
}

// expectedQuotes are the prices the ledger should have.
func expectedQuotes(j *Journal) (declared, implied []quote) {
	for _, p := range j.Prices {
		declared = append(declared, quote{p.T, p.C.Name, p.V.C.Name, p.V.A, 0, "declared"})
	}
	for _, t := range j.Txs {
		if rem := remainder(t.Posts, nil); len(rem) == 2 {
			implied = append(implied, quote{t.T, rem[0].C.Name, rem[1].C.Name, -rem[1].A, rem[0].A, "exchange"})
			implied = append(implied, quote{t.T, rem[1].C.Name, rem[0].C.Name, -rem[0].A, rem[1].A, "exchange"})
		}
		for _, p := range t.Posts {
			if p.PriceK != noPrice && p.Total.A != 0 && p.V.A != 0 {
				implied = append(implied, quote{p.T(), p.V.C.Name, p.Total.C.Name, p.Total.A, p.V.A, "posting"})
				implied = append(implied, quote{p.T(), p.Total.C.Name, p.V.C.Name, p.V.A, p.Total.A, "posting"})
			}
		}
	}
	return
}

// matches tells whether a price is that quote, to within the smallest unit.
func (q quote) matches(p *accounting.Price) bool {
	if !p.Time.Equal(q.t) || curName(p.Currency) != q.from || curName(p.Value.Currency) != q.to {
		return false
	}
	if q.den == 0 {
		return p.Value.Amount == q.num
	}
	// |amount*den - num*U| < |den|
	x := new(big.Int).Mul(big.NewInt(p.Value.Amount), big.NewInt(q.den))
	x.Sub(x, new(big.Int).Mul(big.NewInt(q.num), big.NewInt(U)))
	return x.CmpAbs(big.NewInt(q.den)) < 0
}

func (q quote) fits() bool {
	if q.den == 0 {
		return true
	}
	x := new(big.Int).Mul(big.NewInt(q.num), big.NewInt(U))
	x.Quo(x, big.NewInt(q.den))
	return x.IsInt64()
}

func checkPrices(c *Ctx, l *accounting.Ledger, j *Journal) {
	for i := 1; i < len(l.Prices); i++ {
		if l.Prices[i].Time.Before(l.Prices[i-1].Time) {
			c.Fail("price list not in chronological order at %d", i)
		}
	}
	declared, implied := expectedQuotes(j)
	count := func(qs []quote) {
		for _, q := range qs {
			if !q.fits() {
				c.Count("unrepresentable_quotes", 1)
				continue
			}
			found := false
			for _, p := range l.Prices {
				if q.matches(p) {
					found = true
					break
				}
			}
			c.Count("quotes_"+q.what, 1)
			if !found {
				c.Fail("missing price: %s", q)
			}
		}
	}
	count(declared)
	count(implied)
	for _, p := range l.Prices {
		found := false
		for _, q := range declared {
			found = found || q.matches(p)
		}
		for _, q := range implied {
			found = found || q.matches(p)
		}
		if !found {
			c.Fail("price nobody declared or implied: %s %s = %s", tm(p.Time), curName(p.Currency), valStr(p.Value, false))
		}
	}
	// the declared ones, all of them, in order
	k := 0
	for _, p := range l.Prices {
		if k < len(declared) && declared[k].matches(p) {
			k++
		}
	}
	if k < len(declared) && sortedDistinct(declared) {
		c.Fail("declared prices are not all in the list in order: %d of %d", k, len(declared))
	}
}

func sortedDistinct(q []quote) bool {
	for i := 1; i < len(q); i++ {
		if !q[i-1].t.Before(q[i].t) {
			return false
		}
	}
	return true
}

// checkTree: the chart of accounts is a forest, listed in order.
func checkTree(c *Ctx, l *accounting.Ledger) {
	pos := map[*accounting.Account]int{}
	names := map[string]bool{}
	for i, a := range l.Accounts {
		if _, dup := pos[a]; dup {
			c.Fail("account %q is listed twice", a.FullName())
			return
		}
		pos[a] = i
	}
	owner := map[*accounting.Account]*accounting.Account{}
	for _, a := range l.Accounts {
		for _, ch := range a.Children {
			if o, dup := owner[ch]; dup {
				c.Fail("account %q is a child of %q and again of %q", ch.FullName(), o.FullName(), a.FullName())
			}
			owner[ch] = a
			if _, ok := pos[ch]; !ok {
				c.Fail("child %q of %q is not listed", ch.Name, a.FullName())
			}
		}
	}
	for i, a := range l.Accounts {
		c.Count("accounts_checked", 1)
		full, level := a.Name, 0
		for x, n := a.Parent, 0; x != nil; x, n = x.Parent, n+1 {
			full = x.Name + ":" + full
			level++
			if n > 10000 {
				c.Fail("the ancestors of %q never end", a.Name)
				return
			}
		}
		if level > 0 {
			c.Count("nested_accounts", 1)
		}
		if a.FullName() != full {
			c.Fail("full name of account is %q, should be %q", a.FullName(), full)
		}
		if names[full] {
			c.Fail("two accounts are called %q", full)
		}
		names[full] = true
		if a.Level != level {
			c.Fail("level of %q is %d, should be %d", full, a.Level, level)
		}
		if owner[a] != a.Parent {
			c.Fail("account %q: its parent and the account which has it as a child differ", full)
		}
		if a.Parent != nil {
			pp, ok := pos[a.Parent]
			if !ok {
				c.Fail("the parent of %q is not listed", full)
			} else if pp >= i {
				c.Fail("account %q is listed before its parent", full)
			} else {
				// everything between the parent and this one descends from the parent
				for k := pp + 1; k < i; k++ {
					d := false
					for x := l.Accounts[k]; x != nil; x = x.Parent {
						d = d || x == a.Parent
					}
					if !d {
						c.Fail("account %q is not listed together with the others of %q", full, a.Parent.FullName())
						break
					}
				}
			}
		}
	}
}
