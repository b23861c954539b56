package main

// C14: whatever the input, there is a ledger or an error.

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/cespedes/accounting"
)

// exercise does everything with a ledger.
func exercise(c *Ctx, l *accounting.Ledger) {
	r := c.R
	text := export(l)
	cl := l.Clone()
	if cl == nil {
		c.Fail("no clone")
		return
	}
	if export(cl) != text {
		c.Fail("a clone prints something else")
	}
	var whens []time.Time
	for _, t := range l.Transactions {
		if len(whens) < 4 || chance(r, 10) {
			whens = append(whens, t.Time)
		}
	}
	for _, p := range l.Prices {
		if len(whens) < 8 || chance(r, 5) {
			whens = append(whens, p.Time)
		}
	}
	whens = append(whens, time.Time{}, time.Date(2020, 6, 1, 0, 0, 0, 0, time.UTC), time.Date(9999, 12, 31, 0, 0, 0, 0, time.UTC))
	when := func() time.Time { return whens[r.Intn(len(whens))] }
	n := 0
	for i, a := range l.Accounts {
		if i > 50 && !chance(r, 5) {
			continue
		}
		_ = a.FullName()
		l.Account(a.ID)
		l.TransactionsInAccount(a.ID)
		for _, t := range []time.Time{{}, when(), when()} {
			_ = l.GetBalance(a, t).String()
		}
		for k, s := range a.Splits {
			if k > 20 {
				break
			}
			_ = s.Value.String() + s.Value.FullString() + s.Balance.String()
			d := s.Balance.Dup()
			d.SubBalance(s.Balance)
			d.Add(s.Value)
		}
	}
	l.TransactionsInInterval(when(), when())
	curs := append([]*accounting.Currency(nil), l.Currencies...)
	if l.DefaultCurrency != nil {
		curs = append(curs, l.DefaultCurrency)
	}
	if len(curs) > 6 {
		r.Shuffle(len(curs), func(i, j int) { curs[i], curs[j] = curs[j], curs[i] })
		curs = curs[:6]
	}
	for _, a := range curs {
		for _, b := range curs {
			amt := []int64{U, 0, -1, math.MaxInt64, math.MinInt64, r.Int63n(1000 * U)}[r.Intn(6)]
			l.Convert(accounting.Value{Amount: amt, Currency: a}, when(), b)
			n++
		}
	}
	l.GetCurrency(pick(r, "", "EUR", "nobody", "$"))
	c.Count("conversions", n)
	if err := cl.Fill(); err == nil {
		c.Count("recalculated", 1)
		_ = export(cl)
	}
	l.Flush()
	l.Refresh()
	if err := l.Close(); err == nil {
		c.Count("closed", 1)
	}
}

// lookupCost: long and deep account names times many lines are slow, but bounded.
func lookupCost(text string) int {
	lines := strings.Split(text, "\n")
	longest, deepest := 1, 1
	for _, l := range lines {
		if len(l) > longest {
			longest = len(l)
		}
		if n := strings.Count(l, ":") + 1; n > deepest {
			deepest = n
		}
	}
	return len(lines) * longest * deepest
}

// knot is a journal with few accounts whose amounts and assertions need one another.
func knot(r *rand.Rand) string {
	var b strings.Builder
	for n, d := 1+r.Intn(4), 10; n > 0; n-- {
		d += r.Intn(3)
		fmt.Fprintf(&b, "2020-01-%d x\n", d)
		for k := 1 + r.Intn(4); k > 0; k-- {
			b.WriteString("  " + pick(r, "a", "b", "c") + "  " + pick(r, "", "", "5.00 EUR", "-5.00 EUR", "1.00 USD", "0.00 EUR", "0"))
			b.WriteString(pick(r, "", "", " = 5.00 EUR", " = 0.00 EUR", " = 1.00 USD", " = 0"))
			if chance(r, 35) {
				fmt.Fprintf(&b, " ; date:2020-01-%d", 8+r.Intn(10))
			}
			b.WriteString("\n")
		}
	}
	return b.String()
}

func hostileJournal(c *Ctx) {
	r := c.R
	o := fullOpt()
	o.MaxTx = 5
	dir := filepath.Join(c.Dir, "j")
	main := filepath.Join(dir, "main.ledger")
	os.MkdirAll(filepath.Join(dir, "sub"), 0o755)
	j := GenJournal(r, o)
	base := WriteJournal(r, j).Text()
	writeFile(filepath.Join(dir, "other.ledger"), WriteJournal(r, GenJournal(r, o)).Text())
	if chance(r, 10) { // without the other journal
		writeFile(filepath.Join(dir, "other.ledger"), pick(r, "include main.ledger\n", "include other.ledger\n", "\xff\n", "  x  5\n", "include ../j/main.ledger", strings.Repeat("x", 70000)))
	}
	knots := chance(r, 25)
	for k := 0; k < 12; k++ {
		text := mutate(r, base)
		if knots {
			text = knot(r)
			c.Count("knots", 1)
		}
		if len(text) > 300000 || lookupCost(text) > 5e7 {
			continue
		}
		writeFile(main, text)
		c.mu.Lock()
		c.inputs = nil
		c.mu.Unlock()
		c.Input("main.ledger", text)
		c.Risky()
		l, err, logged := openURL("ledger:" + main)
		c.Count("journals", 1)
		c.Distinct(text)
		if (l == nil) == (err == nil) {
			c.Fail("opening gives ledger: %v, error: %v", l != nil, err)
			return
		}
		if logged != "" {
			c.Count("complained_about", 1)
		}
		if k == 0 && c.Index%25 == 0 {
			for _, args := range [][]string{{"print"}, {"bal"}, {"stats"}, {"is"}, {"accounts", "-tree"}, {"-market", "-e", "2021", "bal"}, {"-b", "2020", "delta", "a"}, {"-pivot", "a", "bal", "s"}} {
				_, errs, rc := c.runCmd("ledger", nil, append([]string{"-f", main}, args...)...)
				c.Count("reports", 1)
				if crashed(errs, rc) {
					c.Fail("ledger %q: status %d %s", args, rc, tail(errs, 1500))
				}
				if err != nil && rc == 0 {
					c.Fail("ledger %q succeeds, but the journal can not be opened: %v", args, err)
				}
			}
		}
		if err != nil {
			c.Count("refused", 1)
			continue
		}
		c.Count("opened", 1)
		c.Count("opened_transactions", len(l.Transactions))
		exercise(c, l)
		if c.Failed() {
			return
		}
		if chance(r, 60) {
			base = text // and further
		}
	}
}

func hostileTxtdb(c *Ctx) {
	r := c.R
	d := genTxtdb(r)
	d.lines(r, chance(r, 30))
	dir := filepath.Join(c.Dir, "db")
	d.write(dir)
	accs, trs := "", ""
	read := func(n string) string {
		b, _ := os.ReadFile(filepath.Join(dir, n))
		return string(b)
	}
	accs, trs = read("accounts"), read("transactions")
	tokens := append([]string{":", "::", ":::::", "1:x:x:a:b:2\n", "2:x:x:a:b:1\n", "3:x:x:a:b:3\n", "0", "-1", "99999999999999999999", "+", "-", "+1", "-1.005", "+1e300", "+1e18", "+NaN", "+Inf", "+-5", "+0x1p4", "+92233720368.55", ":2020-01-01:x:x:1:+1.00:\n", ":2020-01-01:x:x:1::+5.00\n", ":2020-01-01:x:x:1::\n", "2020-01-01 10.30", "2020-01-01"}, hostileTokens...)
	for k := 0; k < 12; k++ {
		a, t := accs, trs
		which := r.Intn(3)
		mut := func(s string) string {
			if chance(r, 25) {
				return mutateLines(r, s, []string{"", "1:x:x:Root:0:", "2:x:x:Child:1:1", "3:x:x:Self::3", "4:x:x:Loop::5", "5:x:x:Loop::4", ":2020-01-01:x:x:1:+1.00:", ":2020-01-01:x:x:1::+5.00", ":2020-01-01:x:x:2:-1.00:", ":2020-01-01:x:x:1::", "::::::", ":::::"})
			}
			if chance(r, 3) {
				return s + strings.Repeat(pick(r, "1", ":", "x"), 70000)
			}
			return mutateBytes(r, s, tokens)
		}
		if which != 0 {
			a = mut(a)
		}
		if which != 1 {
			t = mut(t)
		}
		writeFile(filepath.Join(dir, "accounts"), a)
		writeFile(filepath.Join(dir, "transactions"), t)
		c.mu.Lock()
		c.inputs = nil
		c.mu.Unlock()
		c.Input("accounts", a)
		c.Input("transactions", t)
		c.Risky()
		l, err, _ := openURL("txtdb:" + dir)
		c.Count("databases", 1)
		c.Distinct(a, t)
		if (l == nil) == (err == nil) {
			c.Fail("opening gives ledger: %v, error: %v", l != nil, err)
			return
		}
		if k == 0 && c.Index%20 == 0 {
			_, errs, rc := c.runCmd("acc", nil, "txtdb:"+dir)
			if crashed(errs, rc) || (rc == 0) != (err == nil) {
				c.Fail("acc: status %d %s (opening it: %v)", rc, tail(errs, 1500), err)
			}
			c.Count("reports", 1)
		}
		if err != nil {
			c.Count("databases_refused", 1)
			continue
		}
		c.Count("databases_opened", 1)
		exercise(c, l)
		if c.Failed() {
			return
		}
		if chance(r, 60) {
			accs, trs = a, t
		}
	}
}

// hostileAmounts: amounts and currencies read by the parser on their own, and their display.
func hostileInclusion(c *Ctx) {
	dir := filepath.Join(c.Dir, "inc")
	cases := map[string]map[string]string{
		"self":            {"main": "include main\n"},
		"self by another": {"main": "include ./sub/../main\n", "sub/x": ""},
		"two":             {"main": "include b\n", "b": "include main\n"},
		"three":           {"main": "include b\ninclude b\n", "b": "include c\ninclude c\n", "c": "include main\ninclude main\n"},
		"in transaction":  {"main": "2020-01-01 x\n  a  5\n  include main\ninclude main\n"},
		"directory":       {"main": "include sub\n", "sub/x": ""},
		"empty":           {"main": "include\n"},
		"itself":          {"main": "include .\n"},
		"null":            {"main": "include /dev/null\n"},
		"zero":            {"main": "include /dev/zero\n"},
		"long name":       {"main": "include " + strings.Repeat("x", 5000) + "\n"},
		"long chain":      {},
	}
	chain := cases["long chain"]
	for i := 0; i < 3000; i++ {
		chain[fmt.Sprintf("f%d", i)] = fmt.Sprintf("include f%d\n", i+1)
	}
	chain["f3000"] = "include f0\n"
	chain["main"] = "include f0\n"
	for name, files := range cases {
		d := filepath.Join(dir, strings.ReplaceAll(name, " ", "_"))
		for f, text := range files {
			writeFile(filepath.Join(d, f), text)
		}
		c.mu.Lock()
		c.inputs = nil
		c.mu.Unlock()
		c.Input(name, files["main"])
		c.Risky()
		l, err, _ := openURL("ledger:" + filepath.Join(d, "main"))
		if (l == nil) == (err == nil) {
			c.Fail("%s: ledger %v, error %v", name, l != nil, err)
		}
		if l != nil {
			exercise(c, l)
		}
		c.Count("inclusions", 1)
	}
}

// includeGraph makes some files which include one another, and themselves, in any way: what has to be refused is only what is
// still being read; exact tells whether to compare what is reported and read with what should be.
func includeGraph(c *Ctx, exact bool) {
	r := c.R
	dir := filepath.Join(c.Dir, fmt.Sprintf("graph%d", r.Int63()))
	n := 1 + r.Intn(5)
	name := func(i int) string {
		return []string{"main", "sub/a", "sub/b", "c", "sub/deep/d"}[i]
	}
	lines := make([][]string, n)
	next := make([][]int, n) // by line: which file is included, or -1
	for i := range lines {
		put := func(text string, to int) {
			lines[i] = append(lines[i], text)
			next[i] = append(next[i], to)
		}
		put(fmt.Sprintf("P 2020-01-01 F%d %d.00 EUR", i, i+1), -1)
		for k := r.Intn(3); k > 0 || i == 0 && len(lines[i]) == 1; k-- {
			to := r.Intn(n)
			if chance(r, 40) {
				to = (i + 1) % n
			}
			rel, _ := filepath.Rel(filepath.Dir(filepath.Join(dir, name(i))), filepath.Join(dir, name(to)))
			s := rel
			switch r.Intn(7) {
			case 0:
				s = filepath.Join(dir, name(to))
			case 1:
				s = "./" + rel
			case 2:
				s = rel + ".link"
			case 3:
				s = rel + ".hard"
			case 4:
				s, _ = filepath.Rel(filepath.Dir(filepath.Join(dir, name(i))), filepath.Join(dir, "self", name(to)))
			}
			if chance(r, 30) {
				put("zzz", -2)
			}
			put("include "+s, to)
		}
		if chance(r, 50) {
			put("zzz", -2)
		}
	}
	for i := range lines {
		f := filepath.Join(dir, name(i))
		text := strings.Join(lines[i], "\n") + "\n"
		writeFile(f, text)
		os.Symlink(filepath.Base(f), f+".link")
		os.Link(f, f+".hard")
		os.Symlink(".", filepath.Join(dir, "self"))
		c.Input(f, text)
	}
	visits := make([]int, n)
	total := 0
	reports := map[string]int{}
	open := make([]bool, n)
	var enter func(i int)
	enter = func(i int) {
		open[i] = true
		visits[i]++
		total++
		for k, to := range next[i] {
			if to == -2 || to >= 0 && open[to] {
				reports[fmt.Sprintf("%s:%d", name(i), k+1)]++
				if to >= 0 {
					c.Count("cycles_refused", 1)
				}
			} else if to >= 0 {
				enter(to)
			}
		}
		open[i] = false
	}
	enter(0)
	c.Risky()
	l, err, logged := openURL("ledger:" + filepath.Join(dir, "main"))
	c.Count("graphs_of_files", 1)
	c.Distinct(fmt.Sprint(lines))
	if (l == nil) == (err == nil) {
		c.Fail("opening gives ledger: %v, error: %v", l != nil, err)
		return
	}
	got := map[string]int{}
	said := 0
	for _, s := range complaints(logged) {
		said++
		at, _, ok := parseAt(s)
		for i := 0; ok && i < n; i++ {
			if sameFile(at.File, filepath.Join(dir, name(i))) {
				got[fmt.Sprintf("%s:%d", name(i), at.Num)]++
			}
		}
	}
	if said > 20*(total+10) {
		c.Fail("reading %d files %d times, it complains %d times", n, total, said)
	}
	if !exact {
		if l != nil {
			exercise(c, l)
		}
		return
	}
	if err != nil {
		c.Fail("refused: %v", err)
		return
	}
	for at, k := range reports {
		if got[at] != k {
			c.Fail("line %s has to be reported %d times, and is %d times: %s", at, k, got[at], tail(logged, 600))
		}
	}
	for at, k := range got {
		if reports[at] == 0 {
			c.Fail("line %s is reported %d times: %s", at, k, tail(logged, 600))
		}
	}
	prices := map[string]int{}
	for _, p := range l.Prices {
		prices[p.Currency.Name]++
	}
	for i, k := range visits {
		if prices[fmt.Sprintf("F%d", i)] != k {
			c.Fail("file %s has to be read %d times, and is %d times", name(i), k, prices[fmt.Sprintf("F%d", i)])
		}
	}
}

func init() {
	register(&Prop{ID: "C14", Quick: 1800, Thorough: 100000,
		CPULimit: 40 * time.Second,
		Rule:     "mutated journals and txtdb databases, opened and then printed, cloned, asked, converted and recalculated; distinct by content",
		Needs:    []string{"journals", "opened", "refused", "complained_about", "conversions", "recalculated", "databases", "databases_opened", "reports", "inclusions", "closed", "knots", "graphs_of_files", "cycles_refused"},
		Fixed:    []func(*Ctx){hostileInclusion},
		Run: func(c *Ctx) {
			if c.Index%10 == 0 {
				includeGraph(c, false)
			}
			if chance(c.R, 70) {
				hostileJournal(c)
			} else {
				hostileTxtdb(c)
			}
		}})
}

// crashed tells whether a command ended because of a panic, a fatal error of the runtime or a signal.
func crashed(errs string, rc int) bool {
	return rc < 0 || rc > 125 || strings.Contains(errs, "goroutine ") || strings.Contains(errs, "panic: ") || strings.Contains(errs, "fatal error: ")
}
