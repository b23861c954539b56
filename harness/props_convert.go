package main

// C10: conversion. The oracle computes, from the list of prices alone, the interval in which the result must be.

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"time"

	"github.com/cespedes/accounting"
)

// Quote is a price as the oracle sees it.
type Quote struct {
	T        time.Time
	From, To *accounting.Currency
	A        int64
}

func quotesOf(l *accounting.Ledger) []Quote {
	var qs []Quote
	for _, p := range l.Prices {
		qs = append(qs, Quote{p.Time, p.Currency, p.Value.Currency, p.Value.Amount})
	}
	return qs
}

// Span is a set of possible amounts; Any means that it could be anything (the property does not tell).
type Span struct {
	Lo, Hi *big.Int
	Any    bool
}

func point(a int64) Span { return Span{Lo: big.NewInt(a), Hi: big.NewInt(a)} }

func (s Span) has(a int64) bool {
	if s.Any {
		return true
	}
	x := big.NewInt(a)
	return x.Cmp(s.Lo) >= 0 && x.Cmp(s.Hi) <= 0
}

func (s Span) String() string {
	if s.Any {
		return "anything"
	}
	return fmt.Sprintf("from %s to %s", s.Lo, s.Hi)
}

// tooBig tells whether it may be something which can not be represented.
func (s Span) tooBig() bool { return !s.Any && (!fits(s.Lo) || !fits(s.Hi)) }

// surelyTooBig tells whether it can not be represented.
func (s Span) surelyTooBig() bool {
	return !s.Any && !fits(s.Lo) && !fits(s.Hi) && s.Lo.Sign() == s.Hi.Sign()
}

func (s Span) union(o Span) Span {
	if s.Lo == nil && !s.Any {
		return o
	}
	if s.Any || o.Any {
		return Span{Any: true}
	}
	r := s
	if o.Lo.Cmp(r.Lo) < 0 {
		r.Lo = o.Lo
	}
	if o.Hi.Cmp(r.Hi) > 0 {
		r.Hi = o.Hi
	}
	return r
}

// times multiplies by a rate in [lo,hi] (units of 1/U), exact to the smallest unit.
func (s Span) times(lo, hi *big.Int) Span {
	if s.Any {
		return s
	}
	var r Span
	for _, a := range []*big.Int{s.Lo, s.Hi} {
		for _, b := range []*big.Int{lo, hi} {
			x := new(big.Int).Mul(a, b)
			f := new(big.Int).Div(x, big.NewInt(U)) // floor, as U > 0
			r = r.union(Span{Lo: f, Hi: f})
			if new(big.Int).Mod(x, big.NewInt(U)).Sign() != 0 {
				r = r.union(Span{Lo: f, Hi: new(big.Int).Add(f, big.NewInt(1))})
			}
		}
	}
	return r
}

// direct is the conversion with prices of the pair, if there are any.
func direct(qs []Quote, s Span, when time.Time, from, to *accounting.Currency) (Span, bool, string) {
	var prev, next, now []Quote
	for _, q := range qs {
		if q.From != from || q.To != to {
			continue
		}
		switch {
		case q.T.Equal(when):
			now = append(now, q)
		case q.T.Before(when):
			if len(prev) > 0 && q.T.After(prev[0].T) {
				prev = nil
			}
			if len(prev) == 0 || q.T.Equal(prev[0].T) {
				prev = append(prev, q)
			}
		default:
			if len(next) > 0 && q.T.Before(next[0].T) {
				next = nil
			}
			if len(next) == 0 || q.T.Equal(next[0].T) {
				next = append(next, q)
			}
		}
	}
	var r Span
	exact := func(qs []Quote) {
		for _, q := range qs {
			x := big.NewInt(q.A)
			r = r.union(s.times(x, x))
		}
	}
	switch {
	case len(now) > 0:
		exact(now)
		return r, true, "exact"
	case len(prev) == 0 && len(next) == 0:
		return r, false, ""
	case len(prev) == 0:
		exact(next)
		return r, true, "only_later"
	case len(next) == 0:
		exact(prev)
		return r, true, "only_earlier"
	}
	for _, p := range prev {
		for _, n := range next {
			// p.A + (n.A-p.A) * d1/d2, to the smallest unit
			d1, d2 := dist(when, p.T), dist(n.T, p.T)
			x := new(big.Int).Sub(big.NewInt(n.A), big.NewInt(p.A))
			x.Mul(x, d1)
			fl, m := new(big.Int).DivMod(x, d2, new(big.Int))
			lo := new(big.Int).Add(fl, big.NewInt(p.A))
			hi := lo
			if m.Sign() != 0 {
				hi = new(big.Int).Add(lo, big.NewInt(1))
			}
			r = r.union(s.times(lo, hi))
		}
	}
	return r, true, "interpolated"
}

type converter struct {
	qs   []Quote
	when time.Time
	how  map[string]int
	hops int
	big  bool // some amount on the way can not be represented
	far  bool // some price used is centuries away
}

// reach tells whether some chain of quotes leads to the target.
func (k *converter) reach(from, to *accounting.Currency) bool {
	seen := map[*accounting.Currency]bool{from: true}
	todo := []*accounting.Currency{from}
	for len(todo) > 0 {
		c := todo[0]
		todo = todo[1:]
		if c == to {
			return true
		}
		for _, q := range k.qs {
			if q.From == c && !seen[q.To] {
				seen[q.To] = true
				todo = append(todo, q.To)
			}
		}
	}
	return false
}

func dist(a, b time.Time) *big.Int {
	x := new(big.Int).Mul(big.NewInt(a.Unix()-b.Unix()), big.NewInt(1e9))
	x.Add(x, big.NewInt(int64(a.Nanosecond()-b.Nanosecond())))
	return x.Abs(x)
}

// chain is the conversion, going through other currencies if needed; ok tells whether it is possible.
func (k *converter) chain(s Span, from, to *accounting.Currency, tried map[*accounting.Currency]bool) (Span, bool) {
	if from == to {
		return s, true
	}
	if r, ok, how := direct(k.qs, s, k.when, from, to); ok {
		k.how[how]++
		return r, true
	}
	tried[from] = true
	for {
		var best []Quote
		var bd *big.Int
		for _, q := range k.qs {
			if q.From != from || tried[q.To] {
				continue
			}
			d := dist(q.T, k.when)
			if bd == nil || d.Cmp(bd) < 0 {
				best, bd = nil, d
			}
			if d.Cmp(bd) == 0 {
				best = append(best, q)
			}
		}
		if bd == nil {
			return Span{}, false
		}
		for _, q := range best[1:] {
			if q.To != best[0].To { // several currencies equally close: the property does not tell which
				k.how["ambiguous"]++
				k.big = k.big || k.mayGrow(s)
				return Span{Any: true}, k.reachAvoiding(from, to, tried)
			}
		}
		q := best[0]
		tried[q.To] = true
		k.hops++
		nv, _, how := direct(k.qs, s, k.when, from, q.To)
		k.how[how]++
		k.big = k.big || nv.tooBig()
		if r, ok := k.chain(nv, q.To, to, tried); ok {
			return r, true
		}
		k.how["dead_end"]++
	}
}

// mayGrow tells whether some way through the quotes could make an amount too big to be represented.
func (k *converter) mayGrow(s Span) bool {
	curs := map[*accounting.Currency]bool{}
	top := big.NewInt(U)
	for _, q := range k.qs {
		curs[q.From], curs[q.To] = true, true
		if a := new(big.Int).Abs(big.NewInt(q.A)); a.Cmp(top) > 0 {
			top = a
		}
	}
	if s.Any {
		return true
	}
	m := new(big.Int).Abs(s.Lo)
	if h := new(big.Int).Abs(s.Hi); h.Cmp(m) > 0 {
		m = h
	}
	for range curs {
		m.Mul(m, top)
		m.Div(m, big.NewInt(U))
		m.Add(m, big.NewInt(2))
	}
	return !fits(m)
}

func (k *converter) reachAvoiding(from, to *accounting.Currency, tried map[*accounting.Currency]bool) bool {
	seen := map[*accounting.Currency]bool{}
	for c := range tried {
		seen[c] = true
	}
	todo := []*accounting.Currency{from}
	for len(todo) > 0 {
		c := todo[0]
		todo = todo[1:]
		for _, q := range k.qs {
			if q.From == c && q.To == to {
				return true
			}
			if q.From == c && !seen[q.To] {
				seen[q.To] = true
				todo = append(todo, q.To)
			}
		}
	}
	return false
}

// expectConvert is what a conversion must give.
func expectConvert(qs []Quote, a int64, when time.Time, from, to *accounting.Currency) (Span, bool, *converter) {
	k := &converter{qs: qs, when: when, how: map[string]int{}}
	for _, q := range qs {
		k.far = k.far || q.From == from && dist(q.T, when).Cmp(big.NewInt(1<<62)) > 0
	}
	r, _ := k.chain(point(a), from, to, map[*accounting.Currency]bool{})
	return r, k.reach(from, to), k
}

func checkConvert(c *Ctx, l *accounting.Ledger, qs []Quote, a int64, when time.Time, from, to *accounting.Currency) {
	want, ok, k := expectConvert(qs, a, when, from, to)
	got, err := l.Convert(accounting.Value{Amount: a, Currency: from}, when, to)
	c.Count("conversions", 1)
	what := fmt.Sprintf("%d[%s] to [%s] at %s", a, curName(from), curName(to), tm(when))
	if ok && (k.big || want.tooBig()) {
		c.Count("unrepresentable", 1)
		if err == nil && !k.big && want.surelyTooBig() {
			c.Fail("%s: result is %d, but %s is too big to be represented", what, got.Amount, want)
			return
		}
		if err != nil {
			return
		}
	}
	if (err == nil) != ok {
		c.Fail("%s: error %v, but a chain of quotes exists: %v", what, err, ok)
		return
	}
	if !ok {
		c.Count("impossible_conversions", 1)
		return
	}
	if got.Currency != to {
		c.Fail("%s: the result is in [%s]", what, curName(got.Currency))
		return
	}
	for h, n := range k.how {
		c.Count(h, n)
	}
	if k.far {
		c.Count("centuries", 1)
	}
	if k.hops > 0 {
		c.Count("chains", 1)
		if k.hops > 1 {
			c.Count("long_chains", 1)
		}
	}
	if from == to {
		c.Count("same_currency", 1)
	}
	c.Distinct(c.Index, what)
	if !want.has(got.Amount) {
		c.Fail("%s: result is %d, should be %s", what, got.Amount, want)
	}
}

func genMoments(r *rand.Rand) []time.Time {
	base := time.Date(1950+r.Intn(120), time.Month(1+r.Intn(12)), 1+r.Intn(28), 0, 0, 0, 0, time.UTC)
	n := 2 + r.Intn(6)
	var ts []time.Time
	if chance(r, 8) { // centuries
		for i := 0; i < n; i++ {
			t := time.Date(1+r.Intn(9999), time.Month(1+r.Intn(12)), 1+r.Intn(28), 0, 0, 0, 0, time.UTC)
			if chance(r, 15) {
				t = time.Time{} // the first moment of year 1
			}
			ts = append(ts, t)
		}
		return ts
	}
	unit := []time.Duration{time.Nanosecond, time.Second, time.Hour, 24 * time.Hour, 24 * time.Hour, 30 * 24 * time.Hour}[r.Intn(6)]
	for i := 0; i < n; i++ {
		ts = append(ts, base.Add(time.Duration(r.Intn(40))*unit))
	}
	return ts
}

func genRate(r *rand.Rand) int64 {
	switch r.Intn(13) {
	case 12:
		if chance(r, 30) {
			return limitAmount(r)
		}
	case 0:
		return int64(r.Intn(20))
	case 1:
		return -r.Int63n(100 * U)
	case 2:
		return r.Int63n(100000 * U)
	case 3:
		return U
	case 4:
		return 0
	case 5:
		return int64(1+r.Intn(9)) * U
	}
	return r.Int63n(20 * U)
}

func convertCase(c *Ctx) {
	r := c.R
	var l *accounting.Ledger
	var err error
	var ts []time.Time
	fromJournal := chance(r, 25)
	if fromJournal {
		o := fullOpt()
		o.MultiCur, o.MaxTx = true, 8
		j := GenJournal(r, o)
		w := WriteJournal(r, j)
		c.Input("journal", w.Text())
		l, err, _ = c.OpenText("j.ledger", w.Text())
		if err != nil {
			c.Fail("a correct journal is refused: %v", err)
			return
		}
		for _, p := range l.Prices {
			ts = append(ts, p.Time)
		}
		if len(ts) == 0 {
			ts = genMoments(r)
		}
	} else {
		nc := 2 + r.Intn(5)
		ts = genMoments(r)
		shape := r.Intn(4)
		l, err = openRaw(func(l *accounting.Ledger) error {
			for i := 0; i < nc; i++ {
				l.Currencies = append(l.Currencies, &accounting.Currency{Name: fmt.Sprintf("C%d", i), Decimal: ".", Precision: 2})
			}
			n := r.Intn(13)
			for i := 0; i < n; i++ {
				a, b := r.Intn(nc), r.Intn(nc)
				switch shape {
				case 1: // a line, with some ways back
					a = r.Intn(nc - 1)
					b = a + 1
					if chance(r, 25) {
						a, b = b, a
					}
				case 2: // everything through the first one
					if chance(r, 50) {
						a = 0
					} else {
						b = 0
					}
				case 3: // one pair, many quotes
					if chance(r, 80) {
						a, b = 0, 1
					}
				}
				if a == b {
					continue
				}
				l.Prices = append(l.Prices, &accounting.Price{Time: ts[r.Intn(len(ts))], Currency: l.Currencies[a],
					Value: accounting.Value{Amount: genRate(r), Currency: l.Currencies[b]}})
			}
			return nil
		})
		if err != nil {
			c.Fail("a ledger with only prices is refused: %v", err)
			return
		}
	}
	qs := quotesOf(l)
	var facts string
	for _, q := range qs {
		facts += fmt.Sprintf("%s 1 %s = %d %s\n", tm(q.T), curName(q.From), q.A, curName(q.To))
	}
	c.Input("prices", facts)
	curs := append([]*accounting.Currency(nil), l.Currencies...)
	if l.DefaultCurrency != nil && l.DefaultCurrency.Name == "" {
		curs = append(curs, l.DefaultCurrency)
	}
	if chance(r, 20) {
		curs = append(curs, &accounting.Currency{Name: "elsewhere"})
	}
	if len(curs) == 0 {
		return
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].Before(ts[j]) })
	for k := 0; k < 12; k++ {
		from, to := curs[r.Intn(len(curs))], curs[r.Intn(len(curs))]
		if from == to && chance(r, 80) {
			to = curs[r.Intn(len(curs))]
		}
		when := ts[r.Intn(len(ts))]
		switch r.Intn(8) {
		case 0, 1:
			other := ts[r.Intn(len(ts))]
			when = when.Add(other.Sub(when) / time.Duration(2+r.Intn(3)))
		case 2:
			when = when.Add(time.Duration(r.Intn(5)-2) * time.Second)
		case 3:
			when = when.AddDate(r.Intn(21)-10, 0, 0)
		case 4:
			when = when.Add(time.Duration(r.Intn(3)-1) * time.Nanosecond)
		}
		if chance(r, 10) {
			when = when.In(time.FixedZone("X", (r.Intn(27)-13)*3600))
		}
		if chance(r, 2) {
			when = time.Time{}
		}
		var a int64
		switch r.Intn(7) {
		case 6:
			a = limitAmount(r)
		case 0:
			a = U
		case 1:
			a = int64(r.Intn(1000)) - 500
		case 2:
			a = -r.Int63n(1000 * U)
		case 3:
			a = r.Int63n(90000 * U)
		case 4:
			a = int64(1+r.Intn(50)) * U
		default:
			a = r.Int63n(1000 * U)
		}
		checkConvert(c, l, qs, a, when, from, to)
		if c.Failed() {
			return
		}
	}
	if _, err := l.Convert(accounting.Value{Amount: U, Currency: curs[0]}, ts[0], nil); err == nil {
		c.Fail("a conversion to no currency succeeds")
	}
	if len(l.Prices) != len(qs) {
		c.Fail("converting changed the prices")
		return
	}
	for i, q := range quotesOf(l) {
		if q != qs[i] {
			c.Fail("converting changed the price %d", i)
		}
	}
	c.Sample("%s", facts)
}

// bigGraphs: long chains, cycles and dense graphs.
func bigGraphs(c *Ctx) {
	for _, n := range []int{3, 30, 120} {
		for shape := 0; shape < 4; shape++ {
			r := c.R
			base := time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)
			l, err := openRaw(func(l *accounting.Ledger) error {
				for i := 0; i < n; i++ {
					l.Currencies = append(l.Currencies, &accounting.Currency{Name: fmt.Sprintf("C%d", i), Decimal: "."})
				}
				add := func(a, b int) {
					if a != b {
						l.Prices = append(l.Prices, &accounting.Price{Time: base.Add(time.Duration(len(l.Prices)*7919%100003) * time.Minute),
							Currency: l.Currencies[a], Value: accounting.Value{Amount: U, Currency: l.Currencies[b]}})
					}
				}
				switch shape {
				case 0:
					for i := 0; i+2 < n; i++ {
						add(i, i+1)
					}
				case 1:
					for i := 0; i+1 < n; i++ {
						add(i, (i+1)%(n-1))
						add((i+1)%(n-1), i)
					}
				case 2:
					for i := 0; i+1 < n && n < 100; i++ {
						for k := 0; k+1 < n; k++ {
							add(i, k)
						}
					}
				case 3:
					for i := 0; i < 4*n; i++ {
						add(r.Intn(n), r.Intn(n))
					}
				}
				return nil
			})
			if err != nil {
				c.Fail("prices are refused: %v", err)
				return
			}
			qs := quotesOf(l)
			for k := 0; k < 20; k++ {
				checkConvert(c, l, qs, 5*U, base.Add(time.Duration(r.Intn(100000))*time.Minute), l.Currencies[r.Intn(n)], l.Currencies[r.Intn(n)])
			}
			checkConvert(c, l, qs, 5*U, base, l.Currencies[0], l.Currencies[n-2])
			checkConvert(c, l, qs, 5*U, base, l.Currencies[0], l.Currencies[n-1])
			c.Count("big_graphs", 1)
		}
	}
}

func init() {
	register(&Prop{ID: "C10", Quick: 60000, Thorough: 1500000,
		Rule:  "price lists (random graphs of currencies, moments and rates, and those of journals) with 12 conversions each compared with an interval computed from the prices alone; distinct by conversion",
		Needs: []string{"conversions", "impossible_conversions", "exact", "interpolated", "only_later", "only_earlier", "chains", "long_chains", "dead_end", "same_currency", "big_graphs", "unrepresentable", "centuries"},
		Fixed: []func(*Ctx){bigGraphs},
		Run:   convertCase})
}
