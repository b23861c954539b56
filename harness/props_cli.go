package main

// C17, C18, C19, C24 (bounds), C28, C31: the reports of the ledger command, compared with the ground truth.

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/cespedes/accounting"
	backend "github.com/cespedes/accounting/backend/ledger"
)

// event is an amount entering an account.
type event struct {
	acc string
	t   time.Time
	v   Amt
	tx  *Tx
}

// books is a journal with what the reports on it must say.
type books struct {
	c       *Ctx
	j       *Journal
	w       *Writer
	file    string
	evs     []event
	names   []string
	dated   bool
	settled bool     // no price is later than the past
	order   []string // the accounts as the opened ledger lists them
}

// open opens the journal here too: the order of its accounts is needed.
func (b *books) open() *accounting.Ledger {
	l, err, _ := openURL("ledger:" + b.file)
	if err != nil {
		b.c.Fail("a correct journal is refused: %v", err)
		return nil
	}
	trans := findTransfer(l) != nil
	b.names = b.j.Names()
	if trans || b.dated {
		b.names = append(b.names, transferName)
	}
	b.order = nil
	for _, a := range l.Accounts {
		b.order = append(b.order, a.FullName())
	}
	if !sameLines(b.order, b.names) {
		b.c.Fail("the accounts are %q, should be %q", b.order, b.names)
		return nil
	}
	return l
}

func genBooks(c *Ctx, o GenOpt) *books {
	r := c.R
	o.OddNames = false
	var j *Journal
	for {
		j = GenJournal(r, o)
		ok := true
		for _, t := range j.Txs {
			for _, p := range t.Posts {
				if p.Acc == "Income" || p.Acc == "Expense" {
					ok = false
				}
			}
		}
		if ok {
			break
		}
	}
	if chance(r, 60) {
		for _, cu := range j.Curs {
			cu.F.Prec = 8
		}
	}
	b := newBooks(c, j, WriteJournal(r, j))
	return b
}

func newBooks(c *Ctx, j *Journal, w *Writer) *books {
	b := &books{c: c, j: j, w: w, file: filepath.Join(c.Dir, "books.ledger")}
	writeFile(b.file, w.Text())
	c.Input("books.ledger", w.Text())
	for _, t := range j.Txs {
		for _, p := range t.Posts {
			b.evs = append(b.evs, event{p.Acc, p.T(), p.V, t})
			if !p.T().Equal(t.T) {
				b.dated = true
				b.evs = append(b.evs, event{transferName, t.T, p.V, t}, event{transferName, p.T(), Amt{p.V.C, -p.V.A}, t})
			}
		}
	}
	b.names = j.Names()
	if b.dated {
		b.names = append(b.names, transferName)
	}
	return b
}

func (b *books) show(cu *Cur, a int64) string {
	return refString(cu.Name, b.w.Fmts[cu], a, false)
}

// bag is a set of amounts by currency.
type bag map[*Cur]*big.Int

func (m bag) add(v Amt) { m.addBig(v.C, big.NewInt(v.A), 1) }

func (m bag) addBig(cu *Cur, a *big.Int, sign int64) {
	n := new(big.Int).Mul(a, big.NewInt(sign))
	if m[cu] != nil {
		n.Add(n, m[cu])
	}
	if m[cu] = n; n.Sign() == 0 {
		delete(m, cu)
	}
}

func (m bag) addAll(o bag, sign int64) {
	for cu, a := range o {
		m.addBig(cu, a, sign)
	}
}

// tooBig tells whether some amount can not be represented.
func (m bag) tooBig() bool {
	for _, a := range m {
		if !fits(a) {
			return true
		}
	}
	return false
}

func (b *books) lines(m bag) []string {
	var res []string
	for cu, a := range m {
		if !fits(a) {
			res = append(res, fmt.Sprintf("(%s of %q, too big)", a, cu.Name))
			continue
		}
		res = append(res, b.show(cu, a.Int64()))
	}
	sort.Strings(res)
	return res
}

func sameLines(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	x, y := append([]string(nil), a...), append([]string(nil), b...)
	sort.Strings(x)
	sort.Strings(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// query is what is asked for.
type query struct {
	b, e, e2     time.Time // zero: none
	now          bool      // the end is the present: between e and e2
	bText, eText string
	pivot        []string
	currency     []string
	args         []string
	total        bool
	negate       bool
	market       bool
}

func (q *query) flags(r *rand.Rand) []string {
	var f [][]string
	opt := func(name, val string) []string {
		if chance(r, 30) {
			return []string{pick(r, "-", "--") + name + "=" + val}
		}
		return []string{pick(r, "-", "--") + name, val}
	}
	if q.bText != "" {
		f = append(f, opt("b", q.bText))
	}
	if q.eText != "" {
		f = append(f, opt("e", q.eText))
	}
	for _, p := range q.pivot {
		f = append(f, opt("pivot", p))
	}
	for _, p := range q.currency {
		f = append(f, opt("currency", p))
	}
	if q.total {
		f = append(f, []string{"-total"})
	}
	if q.negate {
		f = append(f, []string{"-negate"})
	}
	if q.market {
		f = append(f, []string{"-market"})
	}
	r.Shuffle(len(f), func(i, j int) { f[i], f[j] = f[j], f[i] })
	var res []string
	for _, x := range f {
		res = append(res, x...)
	}
	return res
}

// spellBound writes a bound of a period and tells which moment it is.
func spellBound(r *rand.Rand, t time.Time, end bool) (string, time.Time) {
	y, m, d := t.Date()
	day := func(y int, m time.Month, d, s int) time.Time { return time.Date(y, m, d, 0, 0, s, 0, time.UTC) }
	sep := pick(r, "-", "-", "/", ".", "_")
	switch r.Intn(8) {
	case 0:
		if end {
			return t.Format("2006"), day(y+1, 1, 1, -1)
		}
		return t.Format("2006"), day(y, 1, 1, 0)
	case 1, 2:
		if end {
			return t.Format("2006" + sep + "01"), day(y, m+1, 1, -1)
		}
		return t.Format("2006" + sep + "01"), day(y, m, 1, 0)
	case 3, 4, 5:
		if end {
			return t.Format("2006" + sep + "01" + sep + "02"), day(y, m, d+1, -1)
		}
		return t.Format("2006" + sep + "01" + sep + "02"), day(y, m, d, 0)
	case 6:
		x := t.Truncate(time.Minute)
		return x.Format("2006" + sep + "01" + sep + "02/15:04"), x
	}
	return t.Format("2006" + sep + "01" + sep + "02" + pick(r, "/15:04:05", "-15:04:05", "_15.04.05", "/15-04-05")), t
}

// moment picks a moment near those of the journal.
func (b *books) moment(r *rand.Rand) time.Time {
	t := time.Date(2020, 2, 29, 12, 0, 0, 0, time.UTC)
	if len(b.evs) > 0 {
		t = b.evs[r.Intn(len(b.evs))].t
	}
	switch r.Intn(8) {
	case 0:
		t = t.Add(time.Second)
	case 1:
		t = t.Add(-time.Second)
	case 2:
		t = t.AddDate(0, 0, r.Intn(41)-20)
	case 3:
		t = t.AddDate(r.Intn(5)-2, r.Intn(13)-6, 0)
	}
	return t
}

func (b *books) period(r *rand.Rand, q *query, needEnd bool) {
	for {
		*q = query{pivot: q.pivot, currency: q.currency, args: q.args, total: q.total, negate: q.negate, market: q.market}
		if chance(r, 65) {
			q.bText, q.b = spellBound(r, b.moment(r), false)
		}
		if needEnd || chance(r, 65) {
			q.eText, q.e = spellBound(r, b.moment(r), true)
		}
		if q.bText == "" || q.eText == "" || !q.b.After(q.e) {
			return
		}
		if !needEnd && !q.market && chance(r, 10) { // nothing can happen then
			b.c.Count("inverted_periods", 1)
			return
		}
	}
}

func (q *query) within(t time.Time) bool {
	return q.upTo(t) && (q.bText == "" || !t.Before(q.b))
}

func (q *query) upTo(t time.Time) bool { return q.eText == "" || !t.After(q.e) }

func has(name, part string) bool {
	return strings.Contains(strings.ToLower(name), strings.ToLower(part))
}

func hasAny(name string, parts []string) bool {
	for _, p := range parts {
		if has(name, p) {
			return true
		}
	}
	return false
}

// part is a text which may name accounts.
func (b *books) part(r *rand.Rand) string {
	if len(b.names) == 0 || chance(r, 7) {
		return pick(r, "nobody", "as", "income", "e", ":", "EXPENSE", "Assets:")
	}
	n := b.names[r.Intn(len(b.names))]
	switch r.Intn(4) {
	case 0:
		rs := []rune(n)
		i := r.Intn(len(rs))
		n = string(rs[i : i+1+r.Intn(len(rs)-i)])
	case 1:
		n = n[strings.LastIndex(n, ":")+1:]
	}
	switch r.Intn(4) {
	case 0:
		n = strings.ToUpper(n)
	case 1:
		n = strings.ToLower(n)
	}
	if strings.HasPrefix(n, "-") || strings.TrimSpace(n) == "" {
		return "assets"
	}
	return n
}

func (b *books) parts(r *rand.Rand, max int) []string {
	var res []string
	for k := r.Intn(max + 1); k > 0; k-- {
		if len(res) > 0 && chance(r, 25) {
			res = append(res, res[0]) // twice the same
		} else {
			res = append(res, b.part(r))
		}
	}
	return res
}

func (b *books) setPivot(r *rand.Rand, q *query, pct int) {
	if !chance(r, pct) {
		return
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		p := b.part(r)
		if b.dated && has(transferName, p) {
			continue // whether the automatic account counts as involved is not settled
		}
		q.pivot = append(q.pivot, p)
	}
}

// involved are the transactions which count.
func (b *books) involved(q *query) map[*Tx]bool {
	res := map[*Tx]bool{}
	for _, t := range b.j.Txs {
		ok := len(q.pivot) == 0
		for _, p := range t.Posts {
			ok = ok || hasAny(p.Acc, q.pivot)
		}
		res[t] = ok
	}
	return res
}

// sums adds up, by account, what is counted.
func (b *books) sums(q *query, when func(time.Time) bool) (map[string]bag, map[string]int) {
	in := b.involved(q)
	res := map[string]bag{}
	n := map[string]int{}
	for _, e := range b.evs {
		if !in[e.tx] || !when(e.t) {
			continue
		}
		if len(q.currency) > 0 {
			ok := false
			for _, s := range q.currency {
				ok = ok || s == e.v.C.Name
			}
			if !ok {
				continue
			}
		}
		if res[e.acc] == nil {
			res[e.acc] = bag{}
		}
		res[e.acc].add(e.v)
		n[e.acc]++
	}
	return res, n
}

// beyond tells whether some running balance may be too big once other transactions are left out.
func (b *books) beyond(q *query) bool {
	if len(q.pivot) == 0 {
		return false
	}
	in := b.involved(q)
	m := map[string]bag{}
	for _, e := range b.evs {
		if in[e.tx] {
			if m[e.acc] == nil {
				m[e.acc] = bag{}
			}
			n := big.NewInt(e.v.A)
			m[e.acc].addBig(e.v.C, n.Abs(n), 1)
		}
	}
	for _, x := range m {
		if x.tooBig() {
			return true
		}
	}
	return false
}

// refusedBig checks a report which may have (or surely has) amounts which are too big: then it is refused, with a
// message.  It returns true if there is nothing else to check.
func (b *books) refusedBig(what string, maybe, surely bool, errs string, rc int) bool {
	if surely {
		b.c.Count("totals_too_big", 1)
		if rc == 0 {
			b.c.Fail("%s succeeds, but some total is too big", what)
			return true
		}
	}
	if rc == 0 || !maybe && !surely {
		return false
	}
	b.tooBig(what, errs, rc)
	return true
}

func (c *Ctx) ledgerCmd(b *books, args ...string) (string, string, int) {
	if chance(c.R, 15) {
		return c.runCmd("ledger", []string{"LEDGER_FILE=" + pick(c.R, "", "ledger:") + b.file}, args...)
	}
	return c.runCmd("ledger", nil, append([]string{"-f", pick(c.R, "", "ledger:") + b.file}, args...)...)
}

// row is an account in the balance report.
type row struct {
	level int
	name  string
	amts  []string
}

// parseBalance reads a balance report.
func parseBalance(out string) (rows []row, totals []string, err error) {
	if !strings.HasSuffix(out, "\n") {
		return nil, nil, fmt.Errorf("the last line is not complete")
	}
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	k := -1
	for i, s := range lines {
		if strings.Trim(s, "-") == "" {
			k = i
		}
	}
	if k < 0 {
		return nil, nil, fmt.Errorf("no line with dashes")
	}
	w := len(lines[k])
	var amts []string
	for _, s := range lines[:k] {
		rs := []rune(s)
		if len(rs) < w {
			return nil, nil, fmt.Errorf("line %q is shorter than the column of %d", s, w)
		}
		if a := strings.TrimSpace(string(rs[:w])); a != "" {
			amts = append(amts, a)
		}
		if len(rs) == w {
			continue
		}
		rest := string(rs[w:])
		if rest[0] != ' ' {
			return nil, nil, fmt.Errorf("line %q: no space after the column of %d", s, w)
		}
		name := strings.TrimLeft(rest, " ")
		n := len(rest) - 1 - len(name)
		if n%2 != 0 {
			return nil, nil, fmt.Errorf("line %q: indented by %d", s, n)
		}
		rows = append(rows, row{n / 2, name, amts})
		amts = nil
	}
	if len(amts) > 0 {
		return nil, nil, fmt.Errorf("amounts without account: %v", amts)
	}
	for _, s := range lines[k+1:] {
		totals = append(totals, strings.TrimSpace(s))
	}
	return rows, totals, nil
}

// place is how a balance report shows an account: the topmost ones by their full names.
type shown struct {
	full, name string
	level      int
}

func (b *books) selected(args []string) []shown {
	var res []shown
	for _, n := range b.order {
		if len(args) > 0 && !hasAny(n, args) {
			continue
		}
		if n == transferName {
			res = append(res, shown{n, n, 0})
			continue
		}
		parts := strings.Split(n, ":")
		x := shown{n, parts[len(parts)-1], len(parts) - 1}
		if len(args) > 0 {
			for i := range parts { // the topmost ancestor with the text
				if hasAny(strings.Join(parts[:i+1], ":"), args) {
					x.level = len(parts) - 1 - i
					break
				}
			}
			if x.level == 0 {
				x.name = n
			}
		}
		res = append(res, x)
	}
	return res
}

// match finds out which account each line is about: every line is about one, in order, and every account
// which must be there has its line.
func match(rows []row, accs []shown, fits func(a shown, r row) bool, must func(a shown) bool) bool {
	can := make([][]bool, len(rows)+1) // can[i][k]: the first i rows are about the first k accounts
	for i := range can {
		can[i] = make([]bool, len(accs)+1)
	}
	can[0][0] = true
	for k, a := range accs {
		for i := 0; i <= len(rows); i++ {
			if can[i][k] && !must(a) {
				can[i][k+1] = true
			}
			if i > 0 && can[i-1][k] && rows[i-1].level == a.level && rows[i-1].name == a.name && fits(a, rows[i-1]) {
				can[i][k+1] = true
			}
		}
	}
	return can[len(rows)][len(accs)]
}

// sameShown compares what is shown with what should be: "0" also stands for nothing.
func sameShown(got, want []string) bool {
	return sameLines(got, want) || len(want) == 0 && len(got) == 1 && got[0] == "0"
}

func balanceReports(c *Ctx) {
	r := c.R
	o := fullOpt()
	o.MaxTx = 12
	o.Big = chance(r, 10)
	o.Huge = chance(r, 6)
	o.Simple = chance(r, 40)
	b := genBooks(c, o)
	if b.open() == nil {
		return
	}
	for k := 0; k < 4; k++ {
		var q query
		q.args = b.parts(r, 3)
		b.setPivot(r, &q, 35)
		if chance(r, 35) {
			for n := 1 + r.Intn(2); n > 0; n-- {
				q.currency = append(q.currency, b.j.Curs[r.Intn(len(b.j.Curs))].Name)
			}
			if chance(r, 20) {
				q.currency = append(q.currency, "XYZ")
			}
		}
		q.total = chance(r, 15)
		b.period(r, &q, false)
		b.checkBalance(&q)
		if c.Failed() {
			return
		}
	}
	c.Sample("%s", b.w.Text())
}

func (b *books) checkBalance(q *query) {
	c := b.c
	args := append(q.flags(c.R), pick(c.R, "balance", "bal", "b"))
	args = append(args, q.args...)
	out, errs, rc := c.ledgerCmd(b, args...)
	what := fmt.Sprintf("ledger %q", args)
	c.Count("balance_reports", 1)
	c.Distinct(c.Index, what)
	want, _ := b.sums(q, q.upTo)
	sel := map[string]bool{}
	total := bag{}
	for _, n := range b.names {
		if len(q.args) == 0 || hasAny(n, q.args) {
			sel[n] = true
			total.addAll(want[n], 1)
		}
	}
	surely := total.tooBig()
	for n := range sel {
		surely = surely || want[n].tooBig()
	}
	if b.refusedBig(what, b.beyond(q), surely, errs, rc) {
		return
	}
	if rc != 0 {
		c.Fail("%s fails: %s", what, errs)
		return
	}
	if len(q.pivot) > 0 {
		c.Count("with_pivot", 1)
	}
	if len(q.currency) > 0 {
		c.Count("with_currency", 1)
	}
	if len(q.args) > 0 && len(sel) > 0 {
		c.Count("with_accounts_named", 1)
	}
	if q.bText != "" {
		c.Count("with_begin", 1)
	}
	if q.eText != "" {
		c.Count("with_end", 1)
	}
	wantTotal := b.lines(total)
	if q.total {
		c.Count("only_totals", 1)
		var got []string
		for _, s := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
			got = append(got, strings.TrimSpace(s))
		}
		if !sameShown(got, wantTotal) {
			c.Fail("%s: total is %q, should be %q", what, got, wantTotal)
		}
		return
	}
	rows, totals, err := parseBalance(out)
	if err != nil {
		c.Fail("%s: the report makes no sense: %v\n%s", what, err, out)
		return
	}
	if !sameShown(totals, wantTotal) {
		c.Fail("%s: total is %q, should be %q\n%s", what, totals, wantTotal, out)
	}
	c.Count("balance_lines", len(rows))
	for n := range sel {
		if len(want[n]) > 1 {
			c.Count("balances_in_several_currencies", 1)
		}
	}
	accs := b.selected(q.args)
	if !match(rows, accs, func(a shown, x row) bool {
		return sameShown(x.amts, b.lines(want[a.full]))
	}, func(a shown) bool { return len(want[a.full]) > 0 }) {
		var s string
		for _, a := range accs {
			s += fmt.Sprintf("%q ", b.lines(want[a.full])) + strings.Repeat("  ", a.level) + a.name + "\n"
		}
		c.Fail("%s: the accounts are\n%sbut should be (those without amount may be left out)\n%s", what, out, s)
	}
}

// ---- C18

func (b *books) splitBalance(s string) []string {
	s = strings.TrimSpace(s)
	return strings.Split(s, ", ")
}

func (b *books) checkDelta(q *query) {
	c := b.c
	args := append(q.flags(c.R), "delta")
	args = append(args, q.args...)
	out, errs, rc := c.ledgerCmd(b, args...)
	what := fmt.Sprintf("ledger %q", args)
	c.Count("deltas", 1)
	c.Distinct(c.Index, what)
	sums, _ := b.sums(q, q.within)
	want := bag{}
	for _, n := range b.names {
		if hasAny(n, q.args) {
			k := 0
			for _, p := range q.args {
				if has(n, p) {
					k++
				}
			}
			if k > 1 {
				c.Count("accounts_named_more_than_once", 1)
			}
			sign := int64(1)
			if q.negate {
				sign = -1
			}
			want.addAll(sums[n], sign)
		}
	}
	if b.refusedBig(what, b.beyond(q), want.tooBig(), errs, rc) {
		return
	}
	if rc != 0 {
		c.Fail("%s fails: %s", what, errs)
		return
	}
	if len(want) > 0 {
		c.Count("deltas_not_zero", 1)
	}
	if !strings.HasSuffix(out, "\n") || strings.Count(out, "\n") != 1 {
		c.Fail("%s: not one line: %q", what, out)
		return
	}
	if w := b.lines(want); !sameShown(b.splitBalance(out), w) {
		c.Fail("%s: delta is %q, should be %q", what, strings.TrimSpace(out), w)
	}
}

type incomeRow struct{ name, val string }

func parseIncome(out string) (in, ex []incomeRow, inTotal, exTotal, net string, err error) {
	part := 0
	for _, s := range strings.Split(out, "\n") {
		i := strings.Index(s, "||")
		if i < 0 {
			continue
		}
		name, val := strings.TrimSpace(s[:i]), strings.TrimSpace(s[i+2:])
		switch {
		case part == 0 && name == "Revenues" && val == "":
			part = 1
		case part == 1 && name == "":
			inTotal = val
			part = 2
		case part == 1:
			in = append(in, incomeRow{name, val})
		case part == 2 && name == "Expenses" && val == "":
			part = 3
		case part == 3 && name == "":
			exTotal = val
			part = 4
		case part == 3:
			ex = append(ex, incomeRow{name, val})
		case part == 4 && name == "Net:":
			net = val
			part = 5
		default:
			err = fmt.Errorf("unexpected line %q", s)
			return
		}
	}
	if part != 5 {
		err = fmt.Errorf("it ends after part %d", part)
	}
	return
}

func (b *books) checkIncome(q *query) {
	c := b.c
	args := append(q.flags(c.R), pick(c.R, "is", "incomestatement"))
	args = append(args, q.args...)
	out, errs, rc := c.ledgerCmd(b, args...)
	what := fmt.Sprintf("ledger %q", args)
	c.Count("income_statements", 1)
	c.Distinct(c.Index, what)
	sums, n := b.sums(q, q.within)
	in, ex := bag{}, bag{}
	side := func(a string) int {
		if len(q.args) > 0 && !hasAny(a, q.args) {
			return 0
		}
		if strings.HasPrefix(a, "Income:") {
			return 1
		}
		if strings.HasPrefix(a, "Expense:") {
			return 2
		}
		return 0
	}
	for a, s := range sums {
		switch side(a) {
		case 1:
			in.addAll(s, -1)
		case 2:
			ex.addAll(s, 1)
		}
	}
	net := bag{}
	net.addAll(in, 1)
	net.addAll(ex, -1)
	// with -total the totals which are not shown may be refused, or not
	maybe, surely := b.beyond(q), net.tooBig()
	for a, s := range sums {
		if side(a) > 0 && s.tooBig() || in.tooBig() || ex.tooBig() {
			maybe, surely = true, surely || !q.total
		}
	}
	if b.refusedBig(what, maybe, surely, errs, rc) {
		return
	}
	if rc != 0 {
		c.Fail("%s fails: %s", what, errs)
		return
	}
	if q.total {
		if w := b.lines(net); !sameShown(b.splitBalance(out), w) {
			c.Fail("%s: net is %q, should be %q", what, out, w)
		}
		return
	}
	gi, ge, ti, te, tn, err := parseIncome(out)
	if err != nil {
		c.Fail("%s: the report makes no sense: %v\n%s", what, err, out)
		return
	}
	check := func(name, got string, want bag) {
		if w := b.lines(want); !sameShown(b.splitBalance(got), w) {
			c.Fail("%s: %s is %q, should be %q\n%s", what, name, got, w, out)
		}
	}
	seen := map[string]bool{}
	for k, rows := range [][]incomeRow{gi, ge} {
		for _, x := range rows {
			c.Count("income_lines", 1)
			if seen[x.name] {
				c.Fail("%s: account %q twice\n%s", what, x.name, out)
			}
			seen[x.name] = true
			w := bag{}
			w.addAll(sums[x.name], int64(2*k-1))
			if side(x.name) != k+1 && len(w) > 0 || side(x.name) == 0 && x.name != "Income" && x.name != "Expense" {
				c.Fail("%s: account %q should not be there\n%s", what, x.name, out)
			}
			check(fmt.Sprintf("account %q", x.name), x.val, w)
		}
	}
	for a := range n {
		if side(a) > 0 && len(sums[a]) > 0 && !seen[a] {
			c.Fail("%s: account %q is missing\n%s", what, a, out)
		}
	}
	check("total income", ti, in)
	check("total expense", te, ex)
	check("net", tn, net)
}

func periodReports(c *Ctx) {
	r := c.R
	o := fullOpt()
	o.MaxTx = 14
	o.Simple = chance(r, 70)
	o.Results = chance(r, 50)
	o.Big = chance(r, 10)
	o.Huge = chance(r, 8)
	b := genBooks(c, o)
	if o.Results {
		c.Count("books_of_results", 1)
	}
	for k := 0; k < 3; k++ {
		var q query
		q.args = b.parts(r, 3)
		if len(q.args) == 0 {
			q.args = []string{b.part(r)}
		}
		b.setPivot(r, &q, 35)
		q.negate = chance(r, 30)
		b.period(r, &q, false)
		b.checkDelta(&q)
		if chance(r, 20) && !c.Failed() {
			// the adjoining periods
			m := b.moment(r)
			q.negate = false
			q2 := q
			q.bText, q.eText, q.e = "", m.Format("2006-01-02/15:04:05"), m
			m = m.Add(time.Second)
			q2.bText, q2.b, q2.eText = m.Format("2006-01-02/15:04:05"), m, ""
			b.checkDelta(&q)
			b.checkDelta(&q2)
			q.eText, q.bText = "", ""
			b.checkDelta(&q)
			c.Count("adjoining_periods", 1)
		}
		if c.Failed() {
			return
		}
		var p query
		p.args = b.parts(r, 2)
		if chance(r, 50) {
			p.args = nil
		}
		b.setPivot(r, &p, 35)
		p.total = chance(r, 15)
		b.period(r, &p, false)
		b.checkIncome(&p)
		if c.Failed() {
			return
		}
	}
	c.Sample("%s", b.w.Text())
}

// ---- C19

func (b *books) report(r *rand.Rand) []string {
	var q query
	kind := r.Intn(9)
	b.setPivot(r, &q, 30)
	if chance(r, 25) {
		q.currency = append(q.currency, b.j.Curs[r.Intn(len(b.j.Curs))].Name)
	}
	q.total, q.negate = chance(r, 15), chance(r, 25)
	if kind < 4 {
		q.market = b.j.Default != nil && chance(r, 40)
	}
	b.period(r, &q, (q.market || kind == 8) && !b.settled)
	f := q.flags(r)
	switch kind {
	case 0, 1:
		return append(append(f, pick(r, "bal", "balance", "b")), b.parts(r, 2)...)
	case 2, 3:
		return append(append(f, "delta"), append(b.parts(r, 2), b.part(r))...)
	case 4:
		return append(append(f, pick(r, "is", "incomestatement")), b.parts(r, 1)...)
	case 5:
		return append(f, "stats")
	case 6:
		f = append(f, pick(r, "a", "accounts"))
		if chance(r, 40) {
			f = append(f, "-tree")
		}
		return f
	case 7:
		return append(f, "print")
	}
	return append(append(f, "price"), b.j.Curs[r.Intn(len(b.j.Curs))].Name)
}

func together(c *Ctx) {
	r := c.R
	o := fullOpt()
	o.MaxTx = 8
	if chance(r, 30) {
		o.YearFrom, o.YearTo = 1950, 2005
	}
	b := genBooks(c, o)
	if l, err, _ := openURL("ledger:" + b.file); err == nil { // no price moves any more: now is as good as any other moment
		b.settled = true
		for _, p := range l.Prices {
			b.settled = b.settled && p.Time.Year() < 2020
		}
		if b.settled {
			c.Count("books_of_the_past", 1)
		}
	}
	type result struct {
		args []string
		out  string
		rc   int
	}
	var ok, bad []result
	for k := 3 + r.Intn(5); k > 0; k-- {
		a := b.report(r)
		out, _, rc := c.ledgerCmd(b, a...)
		if rc == 0 {
			ok = append(ok, result{a, out, rc})
		} else {
			bad = append(bad, result{a, out, rc})
		}
	}
	if len(ok) == 0 {
		return
	}
	for k := 0; k < 2; k++ {
		var args []string
		want := ""
		rc := 0
		n := 2 + r.Intn(4)
		if chance(r, 10) {
			args = append(args, "--")
		}
		for i := 0; i < n; i++ {
			x := ok[r.Intn(len(ok))]
			if i > 0 {
				args = append(args, "--")
				if chance(r, 5) {
					args = append(args, "--")
				}
			}
			args = append(args, x.args...)
			want += x.out
			c.Count("reports_together", 1)
			if len(x.out) > 0 {
				c.Count("reports_with_output", 1)
			}
		}
		if len(bad) > 0 && chance(r, 40) {
			x := bad[r.Intn(len(bad))]
			args = append(append(args, "--"), x.args...)
			want += x.out
			rc = x.rc
			c.Count("failing_at_the_end", 1)
		} else if chance(r, 10) {
			args = append(args, "--")
		}
		out, errs, got := c.ledgerCmd(b, args...)
		c.Distinct(c.Index, args)
		if out != want || (got != 0) != (rc != 0) {
			c.Fail("ledger %q: status %d (%s), and the output is\n%s\nOne by one: status %d and\n%s", args, got, errs, out, rc, want)
			return
		}
	}
	c.Sample("%s", b.w.Text())
}

// ---- C28

func (b *books) values(l *accounting.Ledger) map[*Cur]*accounting.Currency {
	m := map[*Cur]*accounting.Currency{}
	for _, cu := range b.j.Curs {
		for _, x := range l.Currencies {
			if x.Name == cu.Name {
				m[cu] = x
			}
		}
	}
	set := func(v accounting.Value) {
		for _, cu := range b.j.Curs {
			if v.Currency != nil && v.Currency.Name == cu.Name {
				m[cu] = v.Currency
			}
		}
	}
	for _, t := range l.Transactions {
		for _, s := range t.Splits {
			set(s.Value)
			set(l.SplitPrices[s])
			set(l.Assertions[s])
		}
	}
	for _, p := range l.Prices {
		set(p.Value)
		set(accounting.Value{Currency: p.Currency})
	}
	if l.DefaultCurrency != nil {
		set(accounting.Value{Currency: l.DefaultCurrency})
	}
	return m
}

func (s Span) plus(o Span, sign int64) Span {
	if s.Any || o.Any {
		return Span{Any: true}
	}
	if s.Lo == nil {
		s = point(0)
	}
	if sign > 0 {
		return Span{Lo: new(big.Int).Add(s.Lo, o.Lo), Hi: new(big.Int).Add(s.Hi, o.Hi)}
	}
	return Span{Lo: new(big.Int).Sub(s.Lo, o.Hi), Hi: new(big.Int).Sub(s.Hi, o.Lo)}
}

func hasZero(s Span) bool { return s.has(0) }

// shownIn tells whether an amount in the currency cu which is within the span can look like that.
func (b *books) shownIn(cu *Cur, text string, s Span, full bool) bool {
	if s.Any {
		return true
	}
	if text == "0" && !full && hasZero(s) {
		return true
	}
	f := b.w.Fmts[cu]
	n, neg, ok := parseShown(cu.Name, f, text)
	if !ok {
		return false
	}
	unit := big.NewInt(1)
	if !full {
		unit.Exp(big.NewInt(10), big.NewInt(int64(8-f.Prec)), nil)
	}
	lo, hi := new(big.Int).Set(n), new(big.Int).Set(n)
	unit.Sub(unit, big.NewInt(1))
	if neg {
		lo.Sub(lo, unit)
	} else {
		hi.Add(hi, unit)
	}
	return hi.Cmp(s.Lo) >= 0 && lo.Cmp(s.Hi) <= 0
}

// parseShown reads a displayed amount.
func parseShown(name string, f Fmt, text string) (v *big.Int, neg, ok bool) {
	sp := " "
	if f.Glued || name == "" {
		sp = ""
	}
	s := text
	if f.Before {
		if !strings.HasPrefix(s, name+sp) {
			return nil, false, false
		}
		s = s[len(name+sp):]
	} else {
		if !strings.HasSuffix(s, sp+name) {
			return nil, false, false
		}
		s = s[:len(s)-len(sp+name)]
	}
	neg = strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	dec := f.Dec
	if dec == "" {
		dec = "."
	}
	ip, fp := s, ""
	if i := strings.LastIndex(s, dec); i >= 0 {
		ip, fp = s[:i], s[i+len(dec):]
	}
	if f.Tho != "" {
		ip = strings.ReplaceAll(ip, f.Tho, "")
	}
	if len(fp) > 8 {
		return nil, false, false
	}
	fp += strings.Repeat("0", 8-len(fp))
	n, ok := new(big.Int).SetString(ip+fp, 10)
	if !ok {
		return nil, false, false
	}
	if neg {
		n.Neg(n)
	}
	// it must be the very way to write it
	if n.IsInt64() && !strings.Contains(refString(name, f, n.Int64(), true), s) && !strings.Contains(refString(name, f, n.Int64(), false), s) {
		return nil, false, false
	}
	return n, neg, true
}

// marketAtEnd values a bag at the end of the period: if this is now, it is between q.e and q.e2 (moments which are
// very close), and ok is false also if what happens between the two is not known.
func (b *books) marketAtEnd(q *query, l *accounting.Ledger, qs []Quote, m bag, cur map[*Cur]*accounting.Currency) (s Span, ok, big, unknown bool) {
	if !q.now {
		s, ok, big = b.market(l, qs, m, q.e, cur)
		return s, ok, big, false
	}
	s, ok = point(0), true
	for cu, a := range m {
		if !fits(a) {
			big = true
			continue
		}
		x, can, k := expectConvert(qs, a.Int64(), q.e, cur[cu], l.DefaultCurrency)
		y, can2, k2 := expectConvert(qs, a.Int64(), q.e2, cur[cu], l.DefaultCurrency)
		big = big || k.big || k2.big || can && x.tooBig() || can2 && y.tooBig()
		if can != can2 || k.hops != k2.hops || k.hops > 0 && k.how["interpolated"]+k2.how["interpolated"] > 0 || fmt.Sprint(k.how) != fmt.Sprint(k2.how) {
			unknown = true
		}
		ok = ok && can && can2
		if ok && !unknown {
			s = s.plus(x.union(y), 1) // one currency may go up and another one down
		}
	}
	return s, ok, big || s.tooBig(), unknown
}

// market values a bag at a moment; ok is false if it is impossible.
func (b *books) market(l *accounting.Ledger, qs []Quote, m bag, when time.Time, cur map[*Cur]*accounting.Currency) (s Span, ok, big bool) {
	s = point(0)
	for cu, a := range m {
		if !fits(a) {
			big = true
			continue
		}
		x, can, k := expectConvert(qs, a.Int64(), when, cur[cu], l.DefaultCurrency)
		if !can {
			return s, false, false
		}
		if k.big || x.tooBig() {
			big = true
		}
		s = s.plus(x, 1)
	}
	return s, true, big || s.tooBig()
}

func marketReports(c *Ctx) {
	r := c.R
	o := fullOpt()
	o.MaxTx = 10
	o.MultiCur = true
	o.Simple = chance(r, 50)
	o.Chained = true
	o.Huge = chance(r, 6)
	if chance(r, 25) { // around the present
		y := time.Now().UTC().Year()
		o.YearFrom, o.YearTo = y-1-r.Intn(3), y+1+r.Intn(3)
	}
	b := genBooks(c, o)
	l := b.open()
	if l == nil {
		return
	}
	qs := quotesOf(l)
	cur := b.values(l)
	def := b.j.Default
	if (def == nil) != (l.DefaultCurrency == nil) {
		// amounts without currency give one
		for _, cu := range b.j.Curs {
			if l.DefaultCurrency != nil && cu.Name == l.DefaultCurrency.Name {
				def = cu
			}
		}
	}
	long := time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)
	past := time.Now().After(long)
	for _, p := range l.Prices {
		past = past && p.Time.Before(long)
	}
	for k := 0; k < 4; k++ {
		var q query
		q.market = true
		q.args = b.parts(r, 2)
		b.setPivot(r, &q, 20)
		if chance(r, 20) {
			q.currency = append(q.currency, b.j.Curs[r.Intn(len(b.j.Curs))].Name)
		}
		b.period(r, &q, true)
		if past && chance(r, 30) && !q.b.After(long) {
			// up to now, whenever that is: nothing changes any longer
			q.eText, q.e = "", long
			c.Count("until_now", 1)
		} else if chance(r, 25) && !q.b.After(long) {
			q.eText, q.now = "", true
		}
		switch r.Intn(3) {
		case 0:
			q.total = chance(r, 20)
			b.marketBalance(&q, l, qs, cur, def)
		case 1:
			q.currency = nil
			if len(q.args) == 0 {
				q.args = []string{b.part(r)}
			}
			q.negate = chance(r, 30)
			b.marketDelta(&q, l, qs, cur, def)
		case 2:
			if q.now {
				b.period(r, &q, true)
			}
			b.priceReport(&q, l, qs, cur, def)
		}
		if c.Failed() {
			return
		}
	}
	c.Sample("%s", b.w.Text())
}

// refused checks a report which can not be made.
func (b *books) refused(what, errs string, rc int) {
	b.c.Count("impossible_reports", 1)
	if rc == 0 {
		b.c.Fail("%s succeeds, but a conversion is impossible", what)
	} else if strings.TrimSpace(errs) == "" || strings.Contains(errs, "goroutine ") {
		b.c.Fail("%s fails without a message: %q", what, errs)
	}
}

// tooBig checks a report in which some amount may be too big: it may be refused, with a message.
func (b *books) tooBig(what, errs string, rc int) {
	b.c.Count("unrepresentable", 1)
	if rc != 0 && (strings.TrimSpace(errs) == "" || strings.Contains(errs, "goroutine ")) {
		b.c.Fail("%s fails without a message: %q", what, errs)
	}
}

// untilNow runs a report which may depend on the present moment, noting when it was run.
func (b *books) untilNow(q *query, args []string) (out, errs string, rc int) {
	from := time.Now()
	out, errs, rc = b.c.ledgerCmd(b, args...)
	if q.now {
		q.e, q.e2 = from, time.Now()
		b.c.Count("until_this_moment", 1)
	}
	return out, errs, rc
}

func (b *books) marketBalance(q *query, l *accounting.Ledger, qs []Quote, cur map[*Cur]*accounting.Currency, def *Cur) {
	c := b.c
	args := append(append(q.flags(c.R), pick(c.R, "balance", "bal", "b")), q.args...)
	out, errs, rc := b.untilNow(q, args)
	what := fmt.Sprintf("ledger %q", args)
	c.Count("market_balances", 1)
	c.Distinct(c.Index, what)
	sums, _ := b.sums(q, q.upTo)
	spans := map[string]Span{}
	total := point(0)
	something, converted := false, false
	for _, n := range b.names {
		if len(q.args) > 0 && !hasAny(n, q.args) {
			continue
		}
		spans[n] = point(0)
		if len(sums[n]) == 0 {
			continue
		}
		something = true
		s, ok, big, unknown := b.marketAtEnd(q, l, qs, sums[n], cur)
		if unknown {
			c.Count("now_unknown", 1)
			return
		}
		if !ok || l.DefaultCurrency == nil {
			b.refused(what, errs, rc)
			return
		}
		if big {
			b.tooBig(what, errs, rc)
			return
		}
		for cu := range sums[n] {
			converted = converted || cu != def
		}
		spans[n] = s
		total = total.plus(s, 1)
	}
	if !something && l.DefaultCurrency == nil {
		return
	}
	if b.refusedBig(what, total.tooBig() || b.beyond(q), total.surelyTooBig(), errs, rc) {
		return
	}
	if rc != 0 {
		c.Fail("%s fails: %s", what, errs)
		return
	}
	if converted {
		c.Count("market_balances_converted", 1)
	}
	var totals []string
	var rows []row
	if q.total {
		for _, s := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
			totals = append(totals, strings.TrimSpace(s))
		}
	} else {
		var err error
		rows, totals, err = parseBalance(out)
		if err != nil {
			c.Fail("%s: the report makes no sense: %v\n%s", what, err, out)
			return
		}
	}
	if len(totals) != 1 || !b.shownIn(def, totals[0], total, false) {
		c.Fail("%s: the total is %q, should be %s\n%s", what, totals, total, out)
	}
	sum := new(big.Int)
	exact := b.w.Fmts[def].Prec == 8
	for _, x := range rows {
		if len(x.amts) == 1 {
			c.Count("market_lines", 1)
			if n, _, ok := parseShown(def.Name, b.w.Fmts[def], x.amts[0]); ok {
				sum.Add(sum, n)
			}
		}
	}
	if !q.total && !match(rows, b.selected(q.args), func(a shown, x row) bool {
		s := spans[a.full]
		return len(x.amts) == 1 && b.shownIn(def, x.amts[0], s, false) || len(x.amts) == 0 && hasZero(s)
	}, func(a shown) bool { return !hasZero(spans[a.full]) }) {
		var s string
		for _, a := range b.selected(q.args) {
			s += fmt.Sprintf("%s: %s\n", a.full, spans[a.full])
		}
		c.Fail("%s: the accounts are\n%sbut should be\n%s", what, out, s)
	}
	if exact && !q.total && !c.Failed() {
		c.Count("market_totals_exact", 1)
		want := "0"
		if sum.Sign() != 0 {
			want = b.show(def, sum.Int64())
		}
		if totals[0] != want {
			c.Fail("%s: the total is %q, the lines add up to %q\n%s", what, totals[0], want, out)
		}
	}
}

func (b *books) marketDelta(q *query, l *accounting.Ledger, qs []Quote, cur map[*Cur]*accounting.Currency, def *Cur) {
	c := b.c
	args := append(append(q.flags(c.R), "delta"), q.args...)
	out, errs, rc := b.untilNow(q, args)
	what := fmt.Sprintf("ledger %q", args)
	c.Count("market_deltas", 1)
	c.Distinct(c.Index, what)
	before := bag{}
	end := bag{}
	s1, _ := b.sums(q, func(t time.Time) bool { return q.bText != "" && t.Before(q.b) })
	s2, _ := b.sums(q, q.upTo)
	for _, n := range b.names {
		if hasAny(n, q.args) {
			before.addAll(s1[n], 1)
			end.addAll(s2[n], 1)
		}
	}
	x, ok1, big1 := b.market(l, qs, before, q.b, cur)
	y, ok2, big2, unknown := b.marketAtEnd(q, l, qs, end, cur)
	if unknown {
		c.Count("now_unknown", 1)
		return
	}
	if len(before)+len(end) > 0 && (!ok1 || !ok2 || l.DefaultCurrency == nil) {
		b.refused(what, errs, rc)
		return
	}
	if len(before)+len(end) == 0 && l.DefaultCurrency == nil {
		return
	}
	if big1 || big2 {
		b.tooBig(what, errs, rc)
		return
	}
	s := y.plus(x, -1)
	if b.refusedBig(what, s.tooBig() || b.beyond(q), s.surelyTooBig(), errs, rc) {
		return
	}
	if rc != 0 {
		c.Fail("%s fails: %s", what, errs)
		return
	}
	if len(before) > 0 {
		c.Count("market_deltas_with_beginning", 1)
	}
	if q.negate {
		s = point(0).plus(s, -1)
	}
	text := strings.TrimSuffix(out, "\n")
	if !b.shownIn(def, text, s, false) {
		c.Fail("%s: delta is %q, should be %s (%s before, %s at the end)", what, text, s, x, y)
	}
}

func (b *books) priceReport(q *query, l *accounting.Ledger, qs []Quote, cur map[*Cur]*accounting.Currency, def *Cur) {
	c := b.c
	r := c.R
	q = &query{b: q.b, bText: q.bText, e: q.e, eText: q.eText, pivot: q.pivot, market: chance(r, 20)}
	batch := chance(r, 50)
	args := q.flags(r)
	if batch {
		args = append(args, "-batch")
	}
	args = append(args, "price")
	var cs []*Cur
	for k := 1 + r.Intn(3); k > 0; k-- {
		cs = append(cs, b.j.Curs[r.Intn(len(b.j.Curs))])
	}
	unknown := chance(r, 5)
	for _, cu := range cs {
		args = append(args, cu.Name)
	}
	if unknown {
		args = append(args, "UNKNOWN")
	}
	out, errs, rc := c.ledgerCmd(b, args...)
	what := fmt.Sprintf("ledger %q", args)
	c.Count("price_reports", 1)
	c.Distinct(c.Index, what)
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	for i, cu := range cs {
		if cur[cu] == nil || cu.Name == "" {
			return // not in the journal, or no way to name it
		}
		s, ok, big := b.market(l, qs, bag{cu: big.NewInt(U)}, q.e, cur)
		if l.DefaultCurrency == nil || !ok {
			b.refused(what, errs, rc)
			return
		}
		if big {
			b.tooBig(what, errs, rc)
			return
		}
		if i >= len(lines) {
			c.Fail("%s: no line for %q: %s %s", what, cu.Name, out, errs)
			return
		}
		text := lines[i]
		if !batch {
			if !strings.HasPrefix(text, "Price for "+cu.Name+": ") {
				c.Fail("%s: line %q for %q", what, text, cu.Name)
				return
			}
			text = strings.TrimPrefix(text, "Price for "+cu.Name+": ")
		}
		if cu != def {
			c.Count("prices_shown", 1)
		}
		if !b.shownIn(def, text, s, true) {
			c.Fail("%s: the price of %q is %q, should be %s", what, cu.Name, text, s)
			return
		}
	}
	if unknown {
		b.refused(what, errs, rc)
		return
	}
	if rc != 0 || len(lines) != len(cs) {
		c.Fail("%s: status %d, %s\n%s", what, rc, errs, out)
	}
}

// ---- C31

// denseStats: statistics of many transactions, which nearly all have their own day.
func denseStats(c *Ctx) {
	r := c.R
	day := int64(r.Intn(30000)) - 8000
	n := 200 + r.Intn(3000)
	span := 1 + r.Intn(1+r.Intn(6000))
	var days []int64
	for i := 0; i < n; i++ {
		days = append(days, day+int64(r.Intn(span)))
	}
	date := func(d int64) string { return time.Unix(d*86400, 0).UTC().Format("2006-01-02") }
	sort.Slice(days, func(i, k int) bool { return days[i] < days[k] })
	var sb strings.Builder
	naccs, curs := 3, []string(nil)
	if chance(r, 50) {
		for k := r.Intn(300); k > 0; k-- {
			fmt.Fprintf(&sb, "account N%d\n", k)
			naccs++
		}
		for k := r.Intn(300); k > 0; k-- {
			q := "q"
			for x := k; x > 0; x /= 26 {
				q += string(rune('a' + x%26))
			}
			fmt.Fprintf(&sb, "commodity 1.00 %s\n", q)
			curs = append(curs, q)
		}
	}
	counts := regexp.MustCompile(fmt.Sprintf(`(?m)^Accounts *: %d\nCommodities *: %d \(%s\)`, naccs, len(curs), strings.Join(curs, " ")))
	fmt.Fprintf(&sb, "\n")
	for _, d := range days {
		fmt.Fprintf(&sb, "%s x\n  A  1\n  B\n\n", date(d))
	}
	file := filepath.Join(c.Dir, "dense.ledger")
	writeFile(file, sb.String())
	c.Input("dense.ledger", sb.String())
	for k := 0; k < 4; k++ {
		args := []string{"-f", file}
		in := days
		if k > 0 {
			from, to := day+int64(r.Intn(span)), day+int64(r.Intn(span+2))
			if chance(r, 70) {
				args = append(args, "-b", date(from))
				in = in[sort.Search(len(in), func(i int) bool { return in[i] >= from }):]
			}
			if chance(r, 70) {
				args = append(args, "-e", date(to))
				in = in[:sort.Search(len(in), func(i int) bool { return in[i] > to })]
			}
		}
		args = append(args, "stats")
		out, errs, rc := c.runCmd("ledger", nil, args...)
		what := fmt.Sprintf("ledger %q", args)
		if rc != 0 {
			c.Fail("%s fails: %s", what, errs)
			return
		}
		c.Count("dense_statistics", 1)
		c.Distinct(c.Index, what)
		if len(in) == 0 {
			if !strings.Contains(out, "No transactions") {
				c.Fail("%s: there are no transactions, but it says\n%s", what, out)
			}
			continue
		}
		if !counts.MatchString(out) {
			c.Fail("%s: there are %d accounts and %d commodities %q, it says\n%s", what, naccs, len(curs), curs, out)
			return
		}
		nd := in[len(in)-1] - in[0] + 1
		if s := fmt.Sprintf("%s to %s (%d days)", date(in[0]), date(in[len(in)-1]), nd); !strings.Contains(out, s) {
			c.Fail("%s: there should be %q in\n%s", what, s, out)
			return
		}
		ok := false
		for _, s := range strings.Split(out, "\n") {
			var got int
			var avg float64
			if i := strings.Index(s, ":"); i > 0 && strings.TrimSpace(s[:i]) == "Transactions" {
				if _, err := fmt.Sscanf(s[i+1:], "%d (%f per day)", &got, &avg); err == nil {
					x := float64(len(in)) / float64(nd)
					ok = got == len(in) && math.Abs(avg-x) < 0.05+1e-9*(1+x)
				}
			}
		}
		if !ok {
			c.Fail("%s: there should be %d transactions in %d days:\n%s", what, len(in), nd, out)
			return
		}
	}
}

func listings(c *Ctx) {
	r := c.R
	if chance(r, 6) {
		denseStats(c)
		return
	}
	o := fullOpt()
	o.MaxTx = 14
	b := genBooks(c, o)
	l := b.open()
	if l == nil {
		return
	}
	for _, tree := range []bool{false, true} {
		args := []string{pick(r, "accounts", "a")}
		if tree {
			args = append(args, pick(r, "-tree", "--tree"))
		}
		var q query
		if chance(r, 30) {
			b.period(r, &q, false)
			args = append(q.flags(r), args...)
		}
		out, errs, rc := c.ledgerCmd(b, args...)
		what := fmt.Sprintf("ledger %q", args)
		if rc != 0 {
			c.Fail("%s fails: %s", what, errs)
			return
		}
		c.Count("account_lists", 1)
		c.Distinct(c.Index, what)
		want := map[string]bool{}
		for _, n := range b.names {
			want[n] = true
		}
		seen := map[string]bool{}
		for _, s := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
			n := s
			if tree {
				n = strings.TrimLeft(s, " ")
				d := strings.Count(n, ":")
				if n == transferName {
					d = 0
				}
				if len(s)-len(n) != 2*d {
					c.Fail("%s: %q is indented by %d, its depth is %d\n%s", what, n, len(s)-len(n), d, out)
				}
				c.Count("indentations", 1)
			}
			if s == "" && len(want) == 0 {
				continue
			}
			if !want[n] {
				c.Fail("%s: nobody knows account %q\n%s", what, n, out)
			}
			if seen[n] {
				c.Fail("%s: account %q is listed twice\n%s", what, n, out)
			}
			seen[n] = true
			if i := strings.LastIndex(n, ":"); i > 0 && n != transferName && !seen[n[:i]] {
				c.Fail("%s: account %q comes before its parent\n%s", what, n, out)
			}
		}
		for n := range want {
			if !seen[n] {
				c.Fail("%s: account %q is missing\n%s", what, n, out)
			}
		}
		if c.Failed() {
			return
		}
	}
	used := map[string]bool{}
	for _, cu := range b.w.Order {
		used[cu.Name] = true
	}
	for k := 0; k < 3; k++ {
		var q query
		b.setPivot(r, &q, 35)
		b.period(r, &q, false)
		if chance(r, 20) {
			q = query{}
		}
		args := append(q.flags(r), "stats")
		out, errs, rc := c.ledgerCmd(b, args...)
		what := fmt.Sprintf("ledger %q", args)
		if rc != 0 {
			c.Fail("%s fails: %s", what, errs)
			return
		}
		c.Count("statistics", 1)
		c.Distinct(c.Index, what)
		in := b.involved(&q)
		var txs []*Tx
		for _, t := range b.j.Txs {
			if in[t] && q.within(t.T) {
				txs = append(txs, t)
			}
		}
		if len(txs) == 0 {
			c.Count("statistics_of_nothing", 1)
			if !strings.Contains(out, "No transactions") {
				c.Fail("%s: there are no transactions, but it says\n%s", what, out)
			}
			continue
		}
		first, last := txs[0].T, txs[len(txs)-1].T
		days := int(last.Unix()/86400-first.Unix()/86400) + 1
		if first.Unix() < 0 && first.Unix()%86400 != 0 {
			days++
		}
		if last.Unix() < 0 && last.Unix()%86400 != 0 {
			days--
		}
		if days > 110000 {
			c.Count("centuries", 1)
		}
		if days > 1 {
			c.Count("several_days", 1)
		}
		get := map[string]string{}
		for _, s := range strings.Split(out, "\n") {
			if i := strings.Index(s, ":"); i > 0 {
				get[strings.TrimSpace(s[:i])] = strings.TrimSpace(s[i+1:])
			}
		}
		expect := func(name, want string) {
			if get[name] != want {
				c.Fail("%s: %s %q, should be %q\n%s", what, name, get[name], want, out)
			}
		}
		expect("Transaction span", fmt.Sprintf("%s to %s (%d days)", first.Format("2006-01-02"), last.Format("2006-01-02"), days))
		expect("Accounts", strconv.Itoa(len(b.names)))
		expect("Market prices", strconv.Itoa(len(l.Prices)))
		// the average, however its ties are rounded
		var n int
		var avg float64
		if k, err := fmt.Sscanf(get["Transactions"], "%d (%f per day)", &n, &avg); err != nil || k != 2 {
			c.Fail("%s: transactions %q make no sense", what, get["Transactions"])
		} else if x := float64(len(txs)) / float64(days); n != len(txs) || avg-x > 0.0501 || x-avg > 0.0501 {
			c.Fail("%s: transactions %q, should be %d in %d days", what, get["Transactions"], len(txs), days)
		}
		ncur := 0
		names := ""
		if k, err := fmt.Sscanf(get["Commodities"], "%d", &ncur); err != nil || k != 1 {
			c.Fail("%s: commodities %q make no sense", what, get["Commodities"])
		}
		if i := strings.Index(get["Commodities"], "("); i > 0 {
			names = strings.TrimSuffix(get["Commodities"][i+1:], ")")
		}
		var got, want []string
		for _, s := range strings.Fields(names) {
			got = append(got, s)
		}
		for s := range used { // some names have several words
			want = append(want, strings.Fields(s)...)
		}
		if !sameLines(got, want) || ncur != len(used) {
			c.Fail("%s: commodities %q, should be %d: %q", what, get["Commodities"], len(used), want)
		}
	}
	c.Sample("%s", b.w.Text())
}

// ---- C24

// validDate tells whether these numbers are a date and time.
func validDate(y, mo, d, h, mi, s int) bool {
	days := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if mo < 1 || mo > 12 || d < 1 || h < 0 || h > 23 || mi < 0 || mi > 59 || s < 0 || s > 59 {
		return false
	}
	n := days[mo-1]
	if mo == 2 && (y%4 == 0 && y%100 != 0 || y%400 == 0) {
		n = 29
	}
	return d <= n
}

// daysBefore counts days from 1970 by itself.
func epoch(y, mo, d, h, mi, s int) int64 {
	// days from civil
	yy := int64(y)
	if mo <= 2 {
		yy--
	}
	era := yy / 400
	if yy < 0 {
		era = (yy - 399) / 400
	}
	yoe := yy - era*400
	mp := int64((mo + 9) % 12)
	doy := (153*mp+2)/5 + int64(d) - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	days := era*146097 + doe - 719468
	return days*86400 + int64(h)*3600 + int64(mi)*60 + int64(s)
}

func oddInt(r *rand.Rand, lo, hi int) int {
	switch r.Intn(12) {
	case 0:
		return lo
	case 1:
		return hi
	case 2:
		return hi + 1
	case 3:
		return 0
	case 4:
		return hi + 1 + r.Intn(40)
	}
	return lo + r.Intn(hi-lo+1)
}

func dateCase(c *Ctx) {
	r := c.R
	for k := 0; k < 30; k++ {
		y := []int{1970 + r.Intn(60), r.Intn(10000), 1900, 2000, 2100, 2024, 1, 100 * (1 + r.Intn(99))}[r.Intn(8)]
		mo := oddInt(r, 1, 12)
		d := 1 + r.Intn(28)
		if chance(r, 50) {
			d = 27 + r.Intn(6)
		}
		h, mi, s := oddInt(r, 0, 23), oddInt(r, 0, 59), oddInt(r, 0, 59)
		n := r.Intn(4)
		sep := func() string { return pick(r, "-", "-", "/", ".", "_", ":") }
		date := fmt.Sprintf("%04d%s%02d%s%02d", y, sep(), mo, sep(), d)
		want := func() (int64, bool) {
			switch n {
			case 0:
				return epoch(y, mo, d, 12, 0, 0), validDate(y, mo, d, 12, 0, 0)
			case 1:
				return epoch(y, mo, d, h, 0, 0), validDate(y, mo, d, h, 0, 0)
			case 2:
				return epoch(y, mo, d, h, mi, 0), validDate(y, mo, d, h, mi, 0)
			}
			return epoch(y, mo, d, h, mi, s), validDate(y, mo, d, h, mi, s)
		}
		if n > 0 {
			date += fmt.Sprintf("%s%02d", sep(), h)
		}
		if n > 1 {
			date += fmt.Sprintf("%s%02d", sep(), mi)
		}
		if n > 2 {
			date += fmt.Sprintf("%s%02d", sep(), s)
		}
		u, ok := want()
		if chance(r, 8) { // not a date in any way
			if n != 1 && chance(r, 10) { // an hour of one digit is read, a minute or a second of one is not
				date = date[:len(date)-2] + date[len(date)-1:]
			} else {
				date = pick(r, date[:4], date[:7], date[1:], "x"+date, date+"x", date[:5]+strings.TrimPrefix(fmt.Sprintf("%02d", 1+r.Intn(9)), "0")+date[7:], date[:8]+date[9:], date[:len(date)-2]+"0"+date[len(date)-2:], strings.Replace(date, date[4:5], "", 1), date+" ", date+"-00-00-00-00", date+",5", date+",000000001", date+",", "-"+date, strings.Replace(date, date[4:5], date[4:5]+date[4:5], 1), "")
			}
			ok = false
			c.Count("garbage", 1)
		}
		c.Distinct(date)
		c.Count("dates", 1)
		c.Count(fmt.Sprintf("dates_with_%d_more", n), 1)
		got, err := backend.GetDate(date)
		if (err == nil) != ok {
			c.Fail("date %q: %v %v, valid: %v", date, got, err, ok)
			continue
		}
		if ok && (got.Unix() != u || got.Nanosecond() != 0) {
			c.Fail("date %q is %s, should be %s", date, tm(got), tm(time.Unix(u, 0)))
		}
		if !ok {
			c.Count("invalid_dates", 1)
		}
		if ok && got.Location() != time.UTC && got.Format("2006-01-02 15:04:05") != got.UTC().Format("2006-01-02 15:04:05") {
			c.Fail("date %q is not in UTC", date)
		}
	}
	// the dates of a journal, and the bounds of periods
	if c.Index%4 == 0 {
		c.boundCase()
	}
}

// boundCase asks for periods of a journal which has something at every second where a period may begin or end.
func (c *Ctx) boundCase() {
	r := c.R
	y := []int{1999, 2000, 1900, 2020, 2023, 2024, 2100, 1971 + r.Intn(70), 100 * (1 + r.Intn(99)), 100 * (1 + r.Intn(99)), 1000 * (1 + r.Intn(9)), 4 + r.Intn(9990)}[r.Intn(12)]
	m := 1 + r.Intn(12)
	if y%100 == 0 {
		m = 1 + r.Intn(4)
		if chance(r, 60) {
			m = 2
		}
	} else if chance(r, 40) {
		m = 1 + r.Intn(3)
	}
	d := 1 + r.Intn(28)
	var ts []int64
	at := func(y, m, d, h, mi, s int) {
		for m > 12 {
			y, m = y+1, m-12
		}
		for m < 1 {
			y, m = y-1, m+12
		}
		e := epoch(y, m, d, h, mi, s)
		ts = append(ts, e-1, e, e+1)
	}
	at(y, 1, 1, 0, 0, 0)
	at(y+1, 1, 1, 0, 0, 0)
	at(y, m, 1, 0, 0, 0)
	at(y, m+1, 1, 0, 0, 0)
	at(y, m, d, 0, 0, 0)
	ts = append(ts, epoch(y, m, d, 0, 0, 0)+86399, epoch(y, m, d, 0, 0, 0)+86400)
	h, mi, s := r.Intn(24), r.Intn(60), r.Intn(60)
	at(y, m, d, h, 0, 0)
	at(y, m, d, h, mi, 0)
	at(y, m, d, h, mi, s)
	at(y, m, d, 12, 0, 0)
	// February, whatever the month
	at(y, 3, 1, 0, 0, 0)
	at(y, 2, 28, 0, 0, 0)
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	var text strings.Builder
	var amts []int64
	n := 0
	var uniq []int64
	for i, t := range ts {
		if i > 0 && t == ts[i-1] {
			continue
		}
		uniq = append(uniq, t)
		amts = append(amts, int64(1)<<uint(n)) // any sum tells which ones are in it
		x := time.Unix(t, 0).UTC()
		fmt.Fprintf(&text, "%s x\n  A  %d EUR\n  B\n\n", x.Format("2006-01-02"+pick(r, "/15:04:05", "-15:04:05", "_15.04.05", "/15/04/05")), amts[n])
		n++
	}
	file := filepath.Join(c.Dir, "bounds.ledger")
	writeFile(file, text.String())
	c.Input("bounds.ledger", text.String())
	l, err, _ := openURL("ledger:" + file)
	if err != nil {
		c.Fail("a correct journal is refused: %v", err)
		return
	}
	for i, t := range l.Transactions {
		if t.Time.Unix() != uniq[i] {
			c.Fail("transaction %d is at %s, should be at %s", i, tm(t.Time), tm(time.Unix(uniq[i], 0)))
			return
		}
	}
	spell := func(end bool) (string, int64) {
		x := int64(0)
		sp := func() string { return pick(r, "-", "-", "/", ".", "_") }
		if end {
			x = 1
		}
		mm, dd := m, d
		if chance(r, 25) {
			mm = []int{2, 1, 12}[r.Intn(3)]
			dd = 28
		}
		next := func(y, m int) int64 {
			if m == 12 {
				return epoch(y+1, 1, 1, 0, 0, 0)
			}
			return epoch(y, m+1, 1, 0, 0, 0)
		}
		switch r.Intn(6) {
		case 0:
			if end {
				return fmt.Sprintf("%04d", y), epoch(y+1, 1, 1, 0, 0, 0) - 1
			}
			return fmt.Sprintf("%04d", y), epoch(y, 1, 1, 0, 0, 0)
		case 1:
			t := fmt.Sprintf("%04d%s%02d", y, sp(), mm)
			if end {
				return t, next(y, mm) - 1
			}
			return t, epoch(y, mm, 1, 0, 0, 0)
		case 2:
			return fmt.Sprintf("%04d%s%02d%s%02d", y, sp(), mm, sp(), dd), epoch(y, mm, dd, 0, 0, 0) + x*86399
		case 3:
			return fmt.Sprintf("%04d-%02d-%02d%s%02d", y, mm, dd, sp(), h), epoch(y, mm, dd, h, 0, 0)
		case 4:
			return fmt.Sprintf("%04d-%02d-%02d%s%02d%s%02d", y, mm, dd, sp(), h, pick(r, ":", ".", "-"), mi), epoch(y, mm, dd, h, mi, 0)
		}
		return fmt.Sprintf("%04d-%02d-%02d%s%02d:%02d:%02d", y, mm, dd, sp(), h, mi, s), epoch(y, mm, dd, h, mi, s)
	}
	for k := 0; k < 4; k++ {
		var args []string
		lo, hi := int64(-1<<62), int64(1<<62)
		if chance(r, 70) {
			var t string
			t, lo = spell(false)
			args = append(args, "-b", t)
		}
		if chance(r, 70) {
			var t string
			t, hi = spell(true)
			args = append(args, "-e", t)
		}
		if lo > hi {
			continue
		}
		want := int64(0)
		for i, t := range uniq {
			if t >= lo && t <= hi {
				want += amts[i]
			}
		}
		args = append([]string{"-f", file}, append(args, "delta", "A")...)
		out, errs, rc := c.runCmd("ledger", nil, args...)
		c.Count("periods", 1)
		c.Distinct(args)
		w := fmt.Sprintf("%d EUR", want)
		if want == 0 {
			w = "0"
		}
		if got := strings.TrimSuffix(out, "\n"); rc != 0 || got != w {
			var extra, missing []string
			var g int64
			fmt.Sscanf(got, "%d", &g)
			for i, t := range uniq {
				if g&amts[i] != 0 && want&amts[i] == 0 {
					extra = append(extra, tm(time.Unix(t, 0)))
				}
				if g&amts[i] == 0 && want&amts[i] != 0 {
					missing = append(missing, tm(time.Unix(t, 0)))
				}
			}
			c.Fail("ledger %q gives %q %s, should be %q; wrongly included: %v, wrongly left out: %v", args, got, errs, w, extra, missing)
			return
		}
	}
	// not dates at all
	bad := pick(r, "2021-02-29", "2020-13", "2020-00", "20200", "202", "2020-1", "2020-01-32", "2020-01-01/24", "2020-01-01/10:60", "today", "2020-1-01", "20-01-01", "2020-01-01/10:00:60", "2020-04-31")
	_, errs, rc := c.runCmd("ledger", nil, "-f", file, pick(r, "-b", "-e"), bad, "delta", "A")
	c.Count("wrong_bounds", 1)
	if rc == 0 || strings.TrimSpace(errs) == "" {
		c.Fail("a period bound of %q is accepted", bad)
	}
}

func init() {
	register(&Prop{ID: "C17", Quick: 3000, Thorough: 60000,
		Rule:  "balance reports of the ledger command on generated journals, read back and compared account by account with the sums of the generated postings; distinct by journal and command line",
		Needs: []string{"balance_reports", "with_pivot", "with_currency", "with_accounts_named", "with_begin", "with_end", "only_totals", "balance_lines", "totals_too_big", "balances_in_several_currencies"},
		Run:   balanceReports})
	register(&Prop{ID: "C18", Quick: 2000, Thorough: 50000,
		Rule:  "delta and income statement reports of the ledger command on generated journals compared with the sums of the generated postings; distinct by journal and command line",
		Needs: []string{"deltas", "deltas_not_zero", "accounts_named_more_than_once", "adjoining_periods", "income_statements", "income_lines", "totals_too_big"},
		Run:   periodReports})
	register(&Prop{ID: "C19", Quick: 1800, Thorough: 30000,
		Rule:  "invocations with several reports compared with the concatenation of what each prints alone; distinct by journal and command line",
		Needs: []string{"reports_together", "reports_with_output", "failing_at_the_end"},
		Run:   together})
	register(&Prop{ID: "C28", Quick: 3500, Thorough: 60000,
		Rule:  "market balance, market delta and price reports of the ledger command compared with intervals computed from the generated postings and the price list; distinct by journal and command line",
		Needs: []string{"market_balances", "market_balances_converted", "market_deltas", "market_deltas_with_beginning", "price_reports", "prices_shown", "impossible_reports", "market_totals_exact"},
		Run:   marketReports})
	register(&Prop{ID: "C31", Quick: 2500, Thorough: 50000,
		Rule:  "accounts and stats reports of the ledger command compared with the generated journal; distinct by journal and command line",
		Needs: []string{"account_lists", "indentations", "statistics", "statistics_of_nothing", "several_days", "centuries", "dense_statistics"},
		Run:   listings})
	register(&Prop{ID: "C24", Quick: 4000, Thorough: 200000,
		Rule:  "spellings of dates (valid and not) compared with an independent calendar, and periods of journals with a transaction at every boundary second; distinct by spelling or command line",
		Needs: []string{"dates", "invalid_dates", "garbage", "periods", "wrong_bounds", "dates_with_0_more", "dates_with_1_more", "dates_with_2_more", "dates_with_3_more"},
		Run:   dateCase})
}
