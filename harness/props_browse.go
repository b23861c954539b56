package main

// C32: what the terminal browsers (tacc, and ledger without a report) show.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"time"
)

// table is what was handed over to be drawn.
type table struct {
	Columns []string
	Rows    [][]string
}

const tableMark = "\x01TABLE "

func tables(out string) ([]table, error) {
	var res []table
	for _, s := range strings.Split(out, "\n") {
		i := strings.Index(s, tableMark)
		if i < 0 {
			continue
		}
		var t table
		if err := json.Unmarshal([]byte(s[i+len(tableMark):]), &t); err != nil {
			return nil, err
		}
		res = append(res, t)
	}
	return res, nil
}

func browse(c *Ctx) {
	r := c.R
	o := fullOpt()
	o.MaxTx = 12
	o.Big = chance(r, 10)
	b := genBooks(c, o)
	if b.open() == nil {
		return
	}
	b.browser(r)
}

// browser runs one of them, opens some accounts, and compares.
func (b *books) browser(r *rand.Rand) {
	c := b.c
	cmd := "tacc"
	var q query
	src := pick(r, "", "ledger:") + b.file
	args := []string{src}
	if chance(r, 50) {
		cmd = "ledger-browse"
		args = []string{"-f", src}
		b.setPivot(r, &q, 20)
		if chance(r, 50) {
			b.period(r, &q, false)
		}
		args = append(args, q.flags(r)...)
	}
	names := b.order
	var sel []int
	script := ""
	for k := r.Intn(6); k > 0; k-- {
		n := r.Intn(len(names))
		sel = append(sel, n)
		script += fmt.Sprintf("select %d\nq\n", n)
	}
	script += "q\n"
	what := fmt.Sprintf("%s %q", strings.TrimSuffix(cmd, "-browse"), args)
	c.Input("keys", script)
	out, errs, rc := c.runCmdInput(script, cmd, nil, args...)
	if rc != 0 {
		c.Fail("%s fails: %s", what, tail2(errs, 600))
		return
	}
	ts, err := tables(out)
	if err != nil || len(ts) != 1+2*len(sel) {
		c.Fail("%s shows %d tables, should be %d (%v)\n%s", what, len(ts), 1+2*len(sel), err, out)
		return
	}
	c.Count("browsers_run", 1)
	c.Distinct(c.Index, what, script)
	c.Sample("%s: %v", what, ts[0].Rows)
	// what accounts hold and what happens in them
	until, _ := b.sums(&q, q.upTo)
	inv := b.involved(&q)
	hist := map[string][]*Post{}
	for n, h := range b.j.Histories() {
		for _, p := range h {
			if inv[p.tx] && q.within(p.T()) {
				hist[n] = append(hist[n], p)
			}
		}
	}
	cell := func(t table, row, col int) string {
		if col < len(t.Rows[row]) {
			return t.Rows[row][col]
		}
		return ""
	}
	list := func(t table) {
		if len(t.Columns) != 2 || len(t.Rows) != len(names) {
			c.Fail("%s lists %d accounts with %q, should be %d\n%v", what, len(t.Rows), t.Columns, len(names), t.Rows)
			return
		}
		for i, n := range names {
			c.Count("accounts_listed", 1)
			if cell(t, i, 0) != n {
				c.Fail("%s: line %d is about account %q, should be %q", what, i, cell(t, i, 0), n)
			}
			if got, want := b.splitBalance(cell(t, i, 1)), b.lines(until[n]); !sameShown(got, want) {
				c.Fail("%s: account %q has %q, should have %q", what, n, got, want)
			}
		}
	}
	list(ts[0])
	for k, s := range sel {
		n := names[s]
		t := ts[1+2*k]
		list(ts[2+2*k])
		c.Count("accounts_opened", 1)
		if n == transferName {
			b.checkTransferTable(what, t, &q, inv, until[n])
			continue
		}
		h := hist[n]
		if len(t.Columns) != 4 || len(t.Rows) != len(h) {
			c.Fail("%s: account %q shows %d postings with %q, should be %d\n%v", what, n, len(t.Rows), t.Columns, len(h), t.Rows)
			continue
		}
		sum := bag{}
		before, _ := b.sums(&q, func(t time.Time) bool { return q.bText != "" && t.Before(q.b) })
		sum.addAll(before[n], 1)
		for i, p := range h {
			c.Count("postings_shown", 1)
			sum.add(p.V)
			at := fmt.Sprintf("%s: account %q, line %d (%v)", what, n, i, t.Rows[i])
			if cell(t, i, 0) != p.T().Format("02-01-2006") {
				c.Fail("%s: the date should be %s", at, p.T().Format("02-01-2006"))
			}
			if cell(t, i, 1) != p.tx.Desc {
				c.Fail("%s: the description should be %q", at, p.tx.Desc)
			}
			if got, want := cell(t, i, 2), b.show(p.V.C, p.V.A); got != want && !(got == "" && (p.V.A == 0 || want == "0")) {
				c.Fail("%s: the amount should be %q", at, want)
			}
			if got, want := b.splitBalance(cell(t, i, 3)), b.lines(sum); !sameShown(got, want) {
				c.Fail("%s: the balance should be %q", at, want)
			}
		}
	}
}

// checkTransferTable: the order of the automatic postings of one moment is not told.
func (b *books) checkTransferTable(what string, t table, q *query, inv map[*Tx]bool, final bag) {
	c := b.c
	var got []string
	for _, row := range t.Rows {
		if len(row) != 4 {
			c.Fail("%s: a line of the transfer account has %d cells", what, len(row))
			return
		}
		got = append(got, row[0]+"|"+row[1]+"|"+row[2])
	}
	take := func(s string) bool {
		for k := range got {
			if got[k] == s {
				got = append(got[:k], got[k+1:]...)
				return true
			}
		}
		return false
	}
	for _, e := range b.evs {
		if e.acc != transferName || !q.within(e.t) || !inv[e.tx] {
			continue
		}
		w := e.t.Format("02-01-2006") + "|" + e.tx.Desc + "|"
		if !take(w+b.show(e.v.C, e.v.A)) && !(e.v.A == 0 && (take(w) || take(w+"0"))) {
			c.Fail("%s: the transfer account lacks %q\n%v", what, w+b.show(e.v.C, e.v.A), t.Rows)
			return
		}
	}
	if len(got) > 0 {
		c.Fail("%s: the transfer account has %q\n%v", what, got, t.Rows)
		return
	}
	if n := len(t.Rows); n > 0 {
		if g, w := b.splitBalance(t.Rows[n-1][3]), b.lines(final); !sameShown(g, w) {
			c.Fail("%s: the transfer account ends with %q, should be %q", what, g, w)
		}
	}
}

// noBrowser: what can not be opened is an error.
func noBrowser(c *Ctx) {
	r := c.R
	bad := pick(r, "/nonexistent/journal", "nothing:x", c.Dir, "ledger:", "txtdb:/nonexistent", "")
	text := "2020-01-01 x\n  a  1.00 EUR\n  b  2.00 EUR\n"
	if bad == "" {
		writeFile(c.Dir+"/bad", text)
		bad = c.Dir + "/bad"
	}
	var args []string
	cmd := pick(r, "tacc", "ledger-browse")
	switch {
	case cmd == "tacc" && chance(r, 10):
	case cmd == "tacc" && chance(r, 10):
		args = []string{bad, bad}
	case cmd == "tacc":
		args = []string{bad}
	default:
		args = []string{"-f", bad}
	}
	out, errs, rc := c.runCmdInput("q\n", cmd, nil, args...)
	c.Count("refused", 1)
	c.Distinct(cmd, args)
	if rc == 0 || strings.TrimSpace(errs) == "" || strings.Contains(out, tableMark) {
		c.Fail("%s %q ends with status %d, says %q and shows %q", cmd, args, rc, errs, out)
	}
	if strings.Contains(errs, "goroutine ") {
		c.Fail("%s %q crashes: %s", cmd, args, tail2(errs, 500))
	}
}

func init() {
	register(&Prop{ID: "C32", Quick: 2500, Thorough: 100000,
		Rule:  "the browsers run on generated journals with a stand-in for the terminal table which writes down what it is given; every list and every account opened is compared with the generated postings; distinct by journal, command line and keys",
		Needs: []string{"browsers_run", "accounts_listed", "accounts_opened", "postings_shown", "refused"},
		Run: func(c *Ctx) {
			if c.Index%25 == 0 {
				noBrowser(c)
				return
			}
			browse(c)
		}})
}
