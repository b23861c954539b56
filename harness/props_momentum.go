package main

// C30: the momentum report of the muscular command.

import (
	"fmt"
	"math"
	"math/big"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/cespedes/accounting"
)

// ratio is an interval of quotients of amounts.
type ratio struct{ lo, hi *big.Rat }

func rat(s Span) ratio {
	return ratio{new(big.Rat).SetInt(s.Lo), new(big.Rat).SetInt(s.Hi)}
}

func (a ratio) over(b ratio) ratio {
	var r ratio
	for _, x := range []*big.Rat{a.lo, a.hi} {
		for _, y := range []*big.Rat{b.lo, b.hi} {
			q := new(big.Rat).Quo(x, y)
			if r.lo == nil || q.Cmp(r.lo) < 0 {
				r.lo = q
			}
			if r.hi == nil || q.Cmp(r.hi) > 0 {
				r.hi = q
			}
		}
	}
	return r
}

func usable(s Span, ok bool, k *converter) bool {
	return ok && !s.Any && !k.big && !s.tooBig() && s.Lo.Sign()*s.Hi.Sign() > 0
}

// priceAt is the price of cur at some moment between the two (which are very close, when they differ).
func priceAt(qs []Quote, cur, def *accounting.Currency, t1, t2 time.Time) (ratio, bool) {
	s, can, k := expectConvert(qs, U, t1, cur, def)
	if !usable(s, can, k) {
		return ratio{}, false
	}
	if t1.Equal(t2) {
		return rat(s), true
	}
	s2, can, k2 := expectConvert(qs, U, t2, cur, def)
	if !usable(s2, can, k2) || k.hops != k2.hops || k.hops > 0 && k.how["interpolated"]+k2.how["interpolated"] > 0 {
		return ratio{}, false // several prices moving: what they give in between may be outside
	}
	for h, n := range k.how {
		if k2.how[h] != n {
			return ratio{}, false
		}
	}
	s = s.union(s2)
	return rat(s), s.Lo.Sign()*s.Hi.Sign() > 0
}

// meanRatio is the mean of the ratios of the price of cur at the end to its prices some periods before.
func meanRatio(qs []Quote, cur, def *accounting.Currency, ends [2]time.Time, measures, months, days int, atOnce bool) (lo, hi *big.Rat, can bool) {
	now, can := priceAt(qs, cur, def, ends[0], ends[1])
	if !can {
		return nil, nil, false
	}
	lo, hi = new(big.Rat), new(big.Rat)
	t := ends
	for m := 1; m <= measures; m++ {
		for i := range t {
			t[i] = t[i].AddDate(0, -months, -days)
			if atOnce {
				t[i] = ends[i].AddDate(0, -months*m, -days*m)
			}
		}
		past, can := priceAt(qs, cur, def, t[0], t[1])
		if !can {
			return nil, nil, false
		}
		x := now.over(past)
		lo.Add(lo, x.lo)
		hi.Add(hi, x.hi)
	}
	n := new(big.Rat).SetInt64(int64(measures))
	return lo.Quo(lo, n), hi.Quo(hi, n), true
}

func momentumCase(c *Ctx) {
	r := c.R
	names := []string{"ETF", "BTC", "FUND_A", "USD", "h/d", "Å"}[:2+r.Intn(5)]
	def := pick(r, "EUR", "EUR", names[0])
	base := time.Date(1990+r.Intn(50), time.Month(1+r.Intn(12)), 1+r.Intn(28), 12, 0, 0, 0, time.UTC)
	span := []int{20, 300, 2000}[r.Intn(3)]
	today := chance(r, 20) // around now
	if today {
		y, m, d := time.Now().UTC().Date()
		base = time.Date(y, m, d-r.Intn(span), 12, 0, 0, 0, time.UTC)
	}
	date := func() time.Time {
		t := base.AddDate(0, 0, r.Intn(span))
		if chance(r, 20) {
			t = t.Add(time.Duration(r.Intn(80000)-40000) * time.Second)
		}
		return t
	}
	stamp := func(t time.Time) string {
		if t.Hour() == 12 && t.Minute() == 0 && t.Second() == 0 {
			return t.Format("2006-01-02")
		}
		return t.Format("2006-01-02/15:04:05")
	}
	num := func() string {
		switch r.Intn(6) {
		case 0:
			return fmt.Sprintf("0.%08d", 1+r.Intn(1000))
		case 1:
			return fmt.Sprintf("%d.%02d", 1+r.Intn(60000), r.Intn(100))
		}
		return fmt.Sprintf("%d.%04d", 1+r.Intn(100), r.Intn(10000))
	}
	var b strings.Builder
	fmt.Fprintf(&b, "D 1.00 %s\n", def)
	type timed struct {
		t    time.Time
		text string
	}
	var decl []timed
	for _, n := range names {
		through := def
		for k := 1 + r.Intn(8); k > 0; k-- {
			if chance(r, 15) {
				through = names[r.Intn(len(names))]
			}
			if n != through {
				t := date()
				decl = append(decl, timed{t, fmt.Sprintf("P %s %s %s %s\n", stamp(t), n, num(), through)})
			}
			if chance(r, 70) {
				through = def
			}
		}
	}
	sort.SliceStable(decl, func(i, j int) bool { return decl[i].t.Before(decl[j].t) })
	for _, d := range decl {
		b.WriteString(d.text)
	}
	if chance(r, 50) {
		t := date()
		for k := r.Intn(4); k > 0; k-- {
			t = t.AddDate(0, 0, r.Intn(40))
			n := names[r.Intn(len(names))]
			if n != def {
				fmt.Fprintf(&b, "%s trade\n  Broker  %d.00 %s @@ %s %s\n  Cash\n", stamp(t), 1+r.Intn(20), n, num(), def)
			}
		}
	}
	file := filepath.Join(c.Dir, "m.ledger")
	writeFile(file, b.String())
	c.Input("m.ledger", b.String())
	l, err, _ := openURL("ledger:" + file)
	if err != nil {
		c.Fail("a correct journal is refused: %v", err)
		return
	}
	qs := quotesOf(l)
	find := func(n string) *accounting.Currency {
		for _, x := range l.Currencies {
			if x.Name == n {
				return x
			}
		}
		if l.DefaultCurrency != nil && l.DefaultCurrency.Name == n {
			return l.DefaultCurrency
		}
		return nil
	}
	if l.DefaultCurrency == nil || l.DefaultCurrency.Name != def {
		c.Fail("the default currency is not %q", def)
		return
	}
	for k := 0; k < 3; k++ {
		var q query
		var args []string
		q.eText, q.e = spellBound(r, date().AddDate(0, 0, r.Intn(80)), true)
		untilNow := chance(r, 20) || today && chance(r, 30)
		if !untilNow {
			args = append(args, "-e", q.eText)
		}
		measures := 1
		if chance(r, 75) {
			measures = 1 + r.Intn(5)
			args = append(args, "-measures", strconv.Itoa(measures))
		}
		months, days := 3, 0
		if chance(r, 80) {
			months, days = r.Intn(8), r.Intn(40)
			if chance(r, 15) {
				months, days = r.Intn(40), r.Intn(1500)
			}
			switch r.Intn(3) {
			case 0:
				months = 0
				days++
				args = append(args, "-measureperiod", fmt.Sprintf("%dd", days))
			case 1:
				days = 0
				months++
				args = append(args, "-measureperiod", fmt.Sprintf("%dm", months))
			default:
				args = append(args, "-measureperiod", fmt.Sprintf("%dm%dd", months, days))
			}
		}
		if chance(r, 20) {
			args = append(args, "-period", pick(r, "2m", "15d", "1m3d"))
		}
		if chance(r, 20) { // a beginning does not matter: prices are what counts
			bText, _ := spellBound(r, date(), false)
			args = append(args, "-b", bText)
		}
		var list []string
		for n := 1 + r.Intn(4); n > 0; n-- {
			list = append(list, append(names, def)[r.Intn(len(names)+1)])
		}
		if chance(r, 6) {
			list[r.Intn(len(list))] = pick(r, "UNKNOWN", "eur", "usd", "ET")
		}
		args = append(args, list...)
		ends := [2]time.Time{q.e, q.e}
		if untilNow {
			ends[0] = time.Now().UTC()
		}
		out, errs, rc := c.runCmd("muscular", nil, append([]string{"-f", file}, args...)...)
		if untilNow {
			ends[1] = time.Now().UTC()
			c.Count("until_now", 1)
		}
		if rc == 0 && chance(r, 25) { // the same twice, or with nothing in between
			more := append([]string{"-f", file}, args...)
			n := 1
			for k := 1 + r.Intn(2); k > 0; k-- {
				more = append(more, "--")
				if chance(r, 70) && !untilNow {
					more = append(more, args...)
					n++
				}
			}
			o2, _, rc2 := c.runCmd("muscular", nil, more...)
			if rc2 != 0 || !untilNow && o2 != strings.Repeat(out, n) {
				c.Fail("muscular %q: status %d and\n%sbut one report alone is\n%s", more, rc2, o2, out)
				return
			}
			c.Count("several_reports", 1)
		}
		what := fmt.Sprintf("muscular %q", args)
		can, big := true, false
		for _, n := range list {
			cur := find(n)
			if cur == nil {
				can = false
				break
			}
			_, ok, k := expectConvert(qs, U, q.e, cur, l.DefaultCurrency)
			can = can && ok
			big = big || k.mayGrow(point(U))
		}
		if !can {
			c.Count("impossible", 1)
			if rc == 0 || out != "" || strings.TrimSpace(errs) == "" || strings.Contains(errs, "goroutine ") {
				c.Fail("%s: something can not be converted, but the status is %d, the messages %q and the report\n%s", what, rc, errs, out)
				return
			}
			continue
		}
		if rc != 0 && big && strings.TrimSpace(errs) != "" && !strings.Contains(errs, "goroutine ") {
			c.Count("perhaps_too_big", 1)
			continue
		}
		if rc != 0 {
			c.Fail("%s fails: %s", what, errs)
			return
		}
		c.Count("reports", 1)
		lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
		if len(lines) != len(list) {
			c.Fail("%s: %d lines for %d names\n%s", what, len(lines), len(list), out)
			return
		}
		for i, n := range list {
			fs := strings.Fields(lines[i])
			if len(fs) != 2 || fs[1] != n {
				c.Fail("%s: line %d is %q, should be about %q", what, i, lines[i], n)
				return
			}
			got, err := strconv.ParseFloat(fs[0], 64)
			if err != nil {
				c.Fail("%s: line %d is %q", what, i, lines[i])
				return
			}
			cur := find(n)
			if cur == nil {
				continue
			}
			// the moments may be reached one period after another, or all at once
			ok := false
			skip := false
			var wants []string
			for way := 0; way < 2 && !ok && !skip; way++ {
				lo, hi, can := meanRatio(qs, cur, l.DefaultCurrency, ends, measures, months, days, way == 1)
				if !can {
					skip = true
					break
				}
				a, _ := lo.Float64()
				b, _ := hi.Float64()
				tol := 1e-6 + 1e-12*math.Abs(b)
				wants = append(wants, fmt.Sprintf("%g to %g", a-1, b-1))
				ok = got >= a-1-tol && got <= b-1+tol
			}
			if skip {
				c.Count("not_comparable", 1)
				continue
			}
			c.Count("momentums", 1)
			if measures > 1 {
				c.Count("means_of_several", 1)
			}
			if math.Abs(got) > 1e-6 {
				c.Count("momentums_not_zero", 1)
			}
			if n == def {
				c.Count("default_currency", 1)
			}
			c.Distinct(c.Index, what, i)
			if !ok {
				c.Fail("%s: the momentum of %q is %g, should be %v", what, n, got, wants)
				return
			}
		}
	}
	c.Sample("%s", b.String())
}

func init() {
	register(&Prop{ID: "C30", Quick: 5000, Thorough: 60000,
		Rule:  "momentum reports of the muscular command on generated price lists compared with intervals computed from the prices; distinct by journal, command line and commodity",
		Needs: []string{"reports", "momentums", "means_of_several", "momentums_not_zero", "default_currency", "until_now", "several_reports", "impossible"},
		Run:   momentumCase})
}
