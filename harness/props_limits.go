package main

import (
	"math"
	"math/big"
	"math/rand"
	"time"

	"github.com/cespedes/accounting"
)

// Journals with amounts near the biggest ones which can be represented: their sums may be too big.

func limitAmount(r *rand.Rand) int64 {
	var a int64
	switch r.Intn(9) {
	case 0:
		a = math.MaxInt64
	case 1:
		a = 1 << 62
	case 2:
		a = 1 << 61
	case 3:
		a = math.MaxInt64 / 3
	case 4:
		a = math.MaxInt64/2 + 1
	case 5:
		a = int64(1+r.Intn(100)) * U
	case 6:
		a = int64(1 + r.Intn(100))
	default:
		a = 1 + r.Int63n(math.MaxInt64)
	}
	if chance(r, 30) && a < math.MaxInt64-1000 && a > 1000 {
		a += int64(r.Intn(2000) - 1000)
	}
	if chance(r, 45) {
		a = -a
	}
	return a
}

var maxAmount = big.NewInt(math.MaxInt64)

func fits(x *big.Int) bool { return x.CmpAbs(maxAmount) <= 0 }

// limitsJournal makes such a journal. Verdict: "" if it is correct, else why it has to be refused; sure is false if it may be either.
func limitsJournal(r *rand.Rand) (j *Journal, verdict string, sure bool) {
	j = &Journal{}
	nc := 1 + r.Intn(2)
	for i := 0; i < nc; i++ {
		c := &Cur{Name: curNames[(i*3+r.Intn(3))%7], F: genFmt(r, true), Declared: chance(r, 50)}
		j.Curs = append(j.Curs, c)
	}
	accs := []string{"a", "b", "c:d", "c"}[:2+r.Intn(3)]
	when := time.Date(2020, 1, 1, 12, 0, 0, 0, time.UTC)
	sure = true
	for n := 1 + r.Intn(4); n > 0; n-- {
		t := &Tx{T: when, Desc: "x", num: len(j.Txs)}
		when = when.Add(time.Duration(r.Intn(3)*24) * time.Hour)
		cu := j.Curs[r.Intn(nc)]
		total := new(big.Int)
		add := func(a int64) *Post {
			p := &Post{Acc: accs[r.Intn(len(accs))], V: Amt{cu, a}, tx: t, idx: len(t.Posts)}
			t.Posts = append(t.Posts, p)
			total.Add(total, big.NewInt(a))
			return p
		}
		switch r.Intn(4) {
		case 0: // one and its opposite
			a := limitAmount(r)
			add(a)
			add(-a)
			if chance(r, 30) {
				b := limitAmount(r)
				add(b)
				add(-b)
			}
		case 1: // balanced when the bits which do not fit are lost
			var wrapped int64
			for k := 2 + r.Intn(4); k > 0; k-- {
				a := limitAmount(r)
				add(a)
				wrapped += a
			}
			if -wrapped == math.MinInt64 {
				add(-1)
				wrapped--
			}
			if wrapped != 0 {
				add(-wrapped)
			}
		default:
			for k := 1 + r.Intn(3); k > 0; k-- {
				add(limitAmount(r))
			}
		}
		// an omitted amount, or whatever is missing
		if total.Sign() != 0 || chance(r, 20) {
			if rest := new(big.Int).Neg(total); fits(rest) && (total.Sign() != 0 && chance(r, 70)) {
				p := add(rest.Int64())
				p.Elided = chance(r, 60)
			} else if chance(r, 60) {
				rest := new(big.Int).Neg(total)
				if !fits(rest) {
					rest.SetInt64(0)
					if verdict == "" {
						verdict = "an omitted amount too big"
					}
				}
				p := add(rest.Int64())
				p.Elided = true
				p.ZeroFree = rest.Sign() == 0
				total.SetInt64(0)
			}
		}
		if total.Sign() != 0 && verdict == "" {
			verdict = "a total which is not zero, or does not fit"
		}
		r.Shuffle(len(t.Posts), func(a, b int) { t.Posts[a], t.Posts[b] = t.Posts[b], t.Posts[a] })
		for k, p := range t.Posts {
			p.idx = k
		}
		if chance(r, 25) {
			p := t.Posts[r.Intn(len(t.Posts))]
			d := t.T.Add(time.Duration(1+r.Intn(4)) * 24 * time.Hour)
			if chance(r, 30) {
				d = t.T.Add(-time.Duration(1+r.Intn(4)) * 24 * time.Hour)
			}
			p.Date = &d
		}
		j.Txs = append(j.Txs, t)
	}
	if verdict != "" {
		return
	}
	for _, h := range j.Histories() {
		sums := map[*Cur]*big.Int{}
		for _, p := range h {
			if sums[p.V.C] == nil {
				sums[p.V.C] = new(big.Int)
			}
			if !fits(sums[p.V.C].Add(sums[p.V.C], big.NewInt(p.V.A))) {
				verdict = "a balance which does not fit"
				return
			}
		}
	}
	// in transit
	transit := map[*Cur]*big.Int{}
	for _, t := range j.Txs {
		for _, p := range t.Posts {
			if p.Date != nil {
				if transit[p.V.C] == nil {
					transit[p.V.C] = new(big.Int)
				}
				x := big.NewInt(p.V.A)
				if !fits(transit[p.V.C].Add(transit[p.V.C], x.Abs(x))) {
					sure = false
				}
			}
		}
	}
	j.Compute()
	if sure && chance(r, 30) {
		// from one balance to another
		a, b, cu := accs[r.Intn(len(accs))], accs[r.Intn(len(accs))], j.Curs[r.Intn(nc)]
		if a == b {
			return
		}
		last := func(acc string) *big.Int {
			if h := j.Histories()[acc]; len(h) > 0 {
				return big.NewInt(h[len(h)-1].bal[cu])
			}
			return new(big.Int)
		}
		to := limitAmount(r)
		diff := new(big.Int).Sub(big.NewInt(to), last(a))
		if diff.Sign() == 0 {
			return
		}
		t := &Tx{T: when.Add(30 * 24 * time.Hour), Desc: "y", num: len(j.Txs)}
		p := &Post{Acc: a, V: Amt{cu, diff.Int64()}, Elided: true, Assert: &Amt{cu, to}, tx: t}
		q := &Post{Acc: b, V: Amt{cu, -diff.Int64()}, Elided: true, tx: t, idx: 1}
		t.Posts = []*Post{p, q}
		if !fits(diff) {
			verdict = "an asserted amount too big"
		} else if !fits(new(big.Int).Sub(last(b), diff)) {
			verdict = "a balance which does not fit"
		}
		j.Txs = append(j.Txs, t)
		j.Compute()
		return
	}
	if sure && chance(r, 50) {
		limitAssertions(r, j, &verdict)
	}
	return
}

// limitAssertions adds assertions, some of them in place of amounts.
func limitAssertions(r *rand.Rand, j *Journal, verdict *string) {
	for n := 1 + r.Intn(3); n > 0; n-- {
		t := j.Txs[r.Intn(len(j.Txs))]
		p := t.Posts[r.Intn(len(t.Posts))]
		if p.Assert != nil || p.Elided {
			continue
		}
		if chance(r, 50) && j.canAssertOnly(p) {
			p.Elided = true
		}
		p.Assert = &Amt{p.V.C, p.bal[p.V.C]}
	}
	omitted := 0
	for _, t := range j.Txs {
		for _, p := range t.Posts {
			if p.Elided {
				omitted++
			}
		}
	}
	if omitted == 1 && chance(r, 50) { // otherwise another one may make up for it
		t := j.Txs[r.Intn(len(j.Txs))]
		p := t.Posts[r.Intn(len(t.Posts))]
		if p.Assert != nil && p.Elided {
			// the amount would be what is off
			if a := limitAmount(r); a != p.Assert.A {
				p.Assert.A = a
				*verdict = "an asserted amount which does not balance, or does not fit"
			}
		}
	}
}

func limitsCase(c *Ctx, check func(v *View)) {
	j, verdict, sure := limitsJournal(c.R)
	if verdict != "" {
		c.Count("too_big", 1)
		refusedCase(c, j, verdict)
		return
	}
	openBoth(c, j, func(how string, l *accounting.Ledger, err error, m *RawMap) {
		if err != nil {
			if sure {
				c.Fail("a correct journal (%s) with big amounts is refused: %v", how, err)
			}
			return
		}
		c.Count("ledgers_opened", 1)
		c.Count("at_the_limit", 1)
		if v := viewFor(c, l, j, m); v != nil {
			check(v)
		}
	})
	c.Distinct(describe(j))
	c.Sample("near the limit:\n%s", describe(j))
}
