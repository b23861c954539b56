package main

// C36: names which were not declared are pointed out.

import (
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// lateJournal writes a journal whose declarations come as late as they may.
func lateJournal(w *Writer, j *Journal) {
	r := w.R
	accs := append([]*AccDecl(nil), j.Accs...)
	var curs []*Cur
	for _, c := range j.Curs {
		if c.Declared {
			curs = append(curs, c)
		}
	}
	flush := func(n int) {
		for ; n > 0; n-- {
			w.Account(accs[0])
			accs = accs[1:]
		}
	}
	some := func() {
		if len(curs) > 0 && chance(r, 35) {
			w.Commodity(curs[0])
			curs = curs[1:]
		}
		if len(accs) > 0 && chance(r, 25) {
			flush(1)
		}
	}
	if j.Default != nil {
		some()
		w.DefaultLine(j.Default)
	} else {
		w.noname = nil
	}
	pi := 0
	for _, t := range j.Txs {
		for some(); pi < len(j.Prices) && chance(r, 50); some() {
			w.PriceLine(j.Prices[pi])
			pi++
		}
		n := 0
		for i, a := range accs {
			for _, p := range t.Posts {
				if p.Acc == a.Name || strings.HasPrefix(p.Acc, a.Name+":") {
					n = i + 1
				}
			}
		}
		flush(n)
		w.Tx(t)
	}
	for ; pi < len(j.Prices); pi++ {
		some()
		w.PriceLine(j.Prices[pi])
	}
	for _, c := range curs {
		w.Commodity(c)
	}
	flush(len(accs))
}

type warning struct {
	at         place
	kind, name string
}

// parseWarning reads a message about a name.
func parseWarning(s string) (warning, bool) {
	at, msg, ok := parseAt(s)
	if !ok {
		return warning{}, false
	}
	for _, kind := range []string{"account", "currency"} {
		pre := "undefined " + kind
		if strings.HasPrefix(msg, pre) {
			return warning{at, kind, strings.TrimSpace(msg[len(pre):])}, true
		}
	}
	return warning{}, false
}

func namesCase(c *Ctx) {
	r := c.R
	o := fullOpt()
	o.MaxTx = 8
	j := GenJournal(r, o)
	w := newWriter(r)
	w.Plain = chance(r, 15)
	if chance(r, 60) {
		lateJournal(w, j)
	} else {
		w.Journal(j)
	}
	lines := append([]Line(nil), w.Lines...)
	// wrong lines, which are not a first mention of anything
	bad := map[int]bool{}
	if chance(r, 40) {
		t := time.Date(2020, 1, 1, 12, 0, 0, 0, time.UTC)
		if len(j.Prices) > 0 {
			t = j.Prices[len(j.Prices)-1].T.AddDate(0, 0, 1)
		}
		f := genFault(r, j, t)
		if f.where == "inside" && chance(r, 50) && len(j.Txs) > 0 { // with a name of this journal
			ps := j.Txs[r.Intn(len(j.Txs))].Posts
			if len(ps) > 0 {
				f.lines[0] = "  " + ps[r.Intn(len(ps))].Acc + "  5.00 " + curOf(r, j) + pick(r, " @ 1.2.3.4 YYY", " @@ ", " = x", " @ 3.00 YYY = 1..2 ZZZ", " = 5.00 "+curOf(r, j)+" @ 2.00 YYY")
			}
		}
		if sp := spots(lines, f.where); len(sp) > 0 && f.where != "after" {
			at := sp[r.Intn(len(sp))]
			var ins []Line
			for i, s := range f.lines {
				bad[at+i] = true
				ins = append(ins, Line{Text: s, Kind: "bad", Entry: -1})
			}
			lines = append(lines[:at], append(ins, lines[at:]...)...)
		}
	}
	pct := 0
	if chance(r, 35) {
		pct = 25
	}
	p := layOut(r, filepath.Join(c.Dir, "root"), "j.ledger", lines, pct)
	p.write(c)
	_, err, logged := openURL(p.Main)
	c.Input("log", logged)
	if err != nil {
		if len(bad) == 0 {
			c.Fail("a correct journal is refused: %v", err)
		}
		return
	}
	// what is due
	due := map[warning]bool{}
	maybe := map[string]bool{} // names on wrong lines before
	known := map[string]bool{}
	declared := map[string]bool{}
	var order []warning
	know := func(m mention) {
		known[m.Kind+" "+m.Name] = true
		if m.Kind == "account" {
			for i, x := range m.Name {
				if x == ':' {
					known[m.Kind+" "+m.Name[:i]] = true
				}
			}
		}
	}
	for i, l := range lines {
		if bad[i] {
			maybe[l.Text] = true
			continue
		}
		for _, m := range l.Names {
			k := m.Kind + " " + m.Name
			if m.Declare {
				declared[k] = true
			}
			if !known[k] && !m.Declare {
				x := warning{p.At[i], m.Kind, m.Name}
				due[x] = true
				order = append(order, x)
				c.Count("undeclared_"+m.Kind, 1)
			}
			if !known[k] && m.Declare {
				c.Count("declared_"+m.Kind, 1)
			}
			if known[k] {
				c.Count("later_mentions", 1)
			}
			know(m)
		}
	}
	inBad := func(name string) bool {
		for t := range maybe {
			if strings.Contains(t, name) {
				return true
			}
		}
		return false
	}
	badAt := map[place]bool{}
	for i := range bad {
		badAt[p.At[i]] = true
	}
	judge := func(what, logged string) {
		got := map[warning]int{}
		elsewhere := map[string]bool{}
		for _, s := range strings.Split(strings.TrimSpace(logged), "\n") {
			if s == "" {
				continue
			}
			if i := strings.Index(s, filepath.Join(c.Dir, "root")); i > 0 { // after the time
				s = s[i:]
			}
			x, ok := parseWarning(s)
			if !ok {
				at, _, placed := parseAt(s)
				if !placed || !badAt[at] {
					c.Fail("%s: says %q", what, s)
				}
				continue
			}
			if x.name == "" { // an amount without currency
				c.Count("nameless", 1)
				continue
			}
			if badAt[x.at] {
				elsewhere[x.kind+" "+x.name] = true
				continue
			}
			got[x]++
			if !due[x] {
				if known[x.kind+" "+x.name] {
					c.Fail("%s: %s %s is pointed out in %s:%d, where it was known, or declared", what, x.kind, x.name, x.at.File, x.at.Num)
				} else {
					c.Fail("%s: %s %s is pointed out in %s:%d, which does not mention it", what, x.kind, x.name, x.at.File, x.at.Num)
				}
			}
		}
		for _, x := range order {
			n := got[x]
			if n == 0 && elsewhere[x.kind+" "+x.name] && inBad(x.name) {
				continue
			}
			if n == 0 {
				c.Fail("%s: undeclared %s %s, first mentioned in %s:%d, is not pointed out", what, x.kind, x.name, x.at.File, x.at.Num)
			}
			if n > 1 {
				c.Fail("%s: undeclared %s %s is pointed out %d times in %s:%d", what, x.kind, x.name, n, x.at.File, x.at.Num)
			}
		}
	}
	judge("opened", logged)
	c.Count("journals", 1)
	if len(order) == 0 {
		c.Count("journals_with_everything_declared", 1)
	}
	if len(p.Files) > 1 {
		c.Count("journals_in_several_files", 1)
	}
	if len(bad) > 0 {
		c.Count("journals_with_wrong_lines", 1)
	}
	if c.Index%15 == 0 && !c.Failed() {
		cmd := pick(r, "accounts", "print", "balance", "stats")
		_, stderr, rc := c.runCmd("ledger", nil, "-f", p.Main, cmd)
		if rc != 0 && len(bad) == 0 {
			c.Fail("ledger %s fails with undeclared names: %s", cmd, stderr)
		}
		if rc == 0 {
			c.Input("stderr", stderr)
			judge("ledger "+cmd, stderr)
			c.Count("cli_runs", 1)
		}
	}
	var sig []string
	for _, x := range order {
		sig = append(sig, x.kind+" "+x.name)
	}
	sort.Strings(sig)
	c.Distinct(w.Text())
	c.Sample("%d pointed out: %s", len(sig), strings.Join(sig, ", "))
}

func init() {
	register(&Prop{ID: "C36", Quick: 9000, Thorough: 500000,
		Rule: "journals which declare all, some or none of their names, before or after other lines, with wrong lines and in several files; distinct by text",
		Needs: []string{"undeclared_account", "undeclared_currency", "declared_account", "declared_currency", "later_mentions", "journals_with_everything_declared",
			"journals_in_several_files", "journals_with_wrong_lines", "cli_runs"},
		Run: namesCase})
}
