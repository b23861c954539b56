package main

// C33: printing just some transactions.

import (
	"fmt"
	"strings"
)

// blocks cuts what was printed into its transactions, and everything else.
func blocks(out string) (txs []string, rest []string) {
	in := false
	for _, s := range strings.Split(out, "\n") {
		switch {
		case len(s) > 0 && (s[0] == ' ' || s[0] == '\t'):
			if in {
				txs[len(txs)-1] += "\n" + s
			} else {
				rest = append(rest, s)
			}
		case len(s) > 10 && s[0] >= '0' && s[0] <= '9':
			txs = append(txs, s)
			in = true
		default:
			in = false
			if s != "" {
				rest = append(rest, s)
			}
		}
	}
	return
}

func printSelections(c *Ctx) {
	r := c.R
	o := fullOpt()
	o.MaxTx = 14
	b := genBooks(c, o)
	if b.open() == nil {
		return
	}
	out, errs, rc := c.ledgerCmd(b, "print")
	if rc != 0 {
		c.Fail("print fails: %s", errs)
		return
	}
	all, restAll := blocks(out)
	if len(all) != len(b.j.Txs) {
		c.Fail("print shows %d transactions, should be %d\n%s", len(all), len(b.j.Txs), out)
		return
	}
	for i, t := range b.j.Txs {
		if !strings.HasPrefix(all[i], t.T.Format("2006-01-02/15:04")) || !strings.Contains(strings.SplitN(all[i], "\n", 2)[0], t.Desc) {
			c.Fail("transaction %d is printed as %q, should be %q of %v", i, all[i], t.Desc, t.T)
			return
		}
		n := 0
		for _, s := range strings.Split(all[i], "\n")[1:] {
			if s[0] == ' ' {
				n++
			}
		}
		if n != len(t.Posts) {
			c.Fail("transaction %d is printed with %d postings, should be %d: %s", i, n, len(t.Posts), all[i])
			return
		}
	}
	for k := 0; k < 3; k++ {
		var q query
		b.period(r, &q, false)
		b.setPivot(r, &q, 40)
		args := append(q.flags(r), "print")
		what := fmt.Sprintf("ledger %q", args)
		out, errs, rc := c.ledgerCmd(b, args...)
		if rc != 0 {
			c.Fail("%s fails: %s", what, errs)
			return
		}
		got, rest := blocks(out)
		inv := b.involved(&q)
		var want []string
		for i, t := range b.j.Txs {
			if inv[t] && q.within(t.T) {
				want = append(want, all[i])
			}
		}
		c.Count("selections_printed", 1)
		c.Count("transactions_printed", len(want))
		c.Count("transactions_left_out", len(all)-len(want))
		if len(q.pivot) > 0 {
			c.Count("with_pivot", 1)
		}
		c.Distinct(c.Index, what)
		c.Sample("%s: %d of %d", what, len(want), len(all))
		for i := 0; i < len(got) || i < len(want); i++ {
			g, w := "nothing", "nothing"
			if i < len(got) {
				g = got[i]
			}
			if i < len(want) {
				w = want[i]
			}
			if g != w {
				c.Fail("%s: transaction %d is\n%s\nshould be\n%s", what, i, g, w)
				return
			}
		}
		// the chart of accounts is whole
		if g, w := starting(rest, "account "), starting(restAll, "account "); g != w {
			c.Fail("%s: accounts are\n%sshould be\n%s", what, g, w)
		}
	}
}

func starting(lines []string, with string) string {
	res := ""
	for _, s := range lines {
		if strings.HasPrefix(s, with) {
			res += s + "\n"
		}
	}
	return res
}

func init() {
	register(&Prop{ID: "C33", Quick: 1200, Thorough: 60000,
		Rule:  "print reports of the ledger command with periods and pivots compared, transaction by transaction, with the selected part of the whole print; distinct by journal and command line",
		Needs: []string{"selections_printed", "transactions_printed", "transactions_left_out", "with_pivot"},
		Run:   printSelections})
}
