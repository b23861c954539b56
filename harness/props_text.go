package main

// C15 (nothing is lost silently), C23 (included files), C27 (comments and tags).

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/cespedes/accounting"
)

// fault is something wrong put into a journal.
type fault struct {
	kind  string
	lines []string // what is inserted
	where string   // "between" entries, "inside" a transaction, "after" a posting (a comment), "loose" (indented, no transaction)
	fatal bool     // must be refused, with an error naming the line
}

func badAmount(r *rand.Rand, cur string) string {
	n := pick(r, "1..2", "12,34.56.78", "1.123456789", "99999999999999999", "1,2,3", "--5", "1_", "5.", ",5", "1.00.00", "1'23'4", "92233720368.54775808", "+-1")
	if cur == "" {
		cur = "ZZZ"
	}
	switch r.Intn(8) {
	case 0:
		return cur
	case 1:
		return cur + " " + n
	case 2:
		return n + cur
	}
	return n + " " + cur
}

func curOf(r *rand.Rand, j *Journal) string {
	c := j.Curs[r.Intn(len(j.Curs))]
	if c.Name == "" || chance(r, 25) {
		return "ZZZ"
	}
	return c.Name
}

func genFault(r *rand.Rand, j *Journal, t time.Time) fault {
	day := t.Format("2006-01-02")
	cur := curOf(r, j)
	acc := pick(r, "New:Account", "Assets", "Wrong")
	rest := func(head string, kind string) fault {
		f := fault{kind: kind, where: "between", lines: []string{head}}
		for k := r.Intn(4); k > 0; k-- {
			f.lines = append(f.lines, pick(r, "  "+acc+"  5.00 "+cur, "  ; lost comment", "  "+acc, "\t"+acc+"  -5.00 "+cur+" ; and more", "  ; date:2020-01-01"))
		}
		return f
	}
	switch r.Intn(13) {
	case 0:
		return rest(pick(r, "foo bar", "accounts Assets", "p 2020-01-01 EUR 1.00 USD", "Account x", "comment", "@", "= x", "20200101 lunch", "'2020-01-01", "é", "commodity:", "includes x", "// note", "/* note */", "% note", "| note", "- note",
			"end", "end comment", "quit", "eof", "EOF", "stop", "__END__", "--", "---", "...", "!include x", "@include x", "!end", "test", "end test", "apply account Assets", "end apply account", "alias a=b", "end aliases", "bucket Assets", "A Assets", "payee x", "tag x", "year 2020", "Y2020", "Y 2020", "N $", "C 1 Kb = 1024 b", "assert 1", "check 1", "define x=1", "eval x", "expr x",
			"capture a b", "value x", "python", "~ monthly", "~", "i 2020-01-01 x", "o 2020-01-01", "h 2020-01-01", "b 2020-01-01", "decimal-mark .", "commodities", "default", "INCLUDE x", "Include x", "ACCOUNT Assets", "d 5 EUR", "c", "p", "a", "x y z"), "unknown_directive")
	case 1:
		return rest(pick(r, "2020-13-01 lunch", "2020-02-30 x", "2021-02-29 no leap year", "2020-1-1 short", "2020-01-01/25 hour", "20-01-01 x", "2020-01-01/10:61 x", "2020-00-10", day+"x lunch", "2020-01-32"), "bad_date")
	case 2:
		return rest("P "+pick(r, "2020-02-30", "tomorrow", "2020-01-01/99")+" "+cur+" 1.00 USD", "price_with_bad_date")
	case 3:
		return rest("P "+day+" "+cur+" "+badAmount(r, curOf(r, j)), "price_with_bad_amount")
	case 4:
		return rest(pick(r, "P "+day+" "+cur, "P "+day, "P", "P ; x", "P "+day+" ; x", "P "+day+" "+cur+" ; 1.00 USD"), "price_without_amount")
	case 5:
		return rest(pick(r, "D", "D ; x", "D "+badAmount(r, cur)), "bad_default")
	case 6:
		return rest(pick(r, "commodity", "commodity ; x", "commodity ; isin:x", "commodity "+badAmount(r, cur)), "bad_commodity")
	case 7:
		return fault{kind: "missing_include", where: "between", lines: []string{pick(r, "include nothing.ledger", "include /nonexistent/x", "include", "include ../no/where")}}
	case 8:
		f := fault{kind: "bad_posting", where: "inside"}
		good := "5.00 " + cur
		f.lines = []string{"  " + acc + "  " + pick(r, badAmount(r, cur), badAmount(r, cur), good+" @ "+badAmount(r, "YYY"), good+" @@ "+badAmount(r, "YYY"), good+" @", good+" @@",
			good+" = "+badAmount(r, cur), good+" =", "= "+badAmount(r, cur), "=", "@ 5.00 YYY", "@@ 5.00 YYY", " @ 5.00 YYY", "  @@ 5.00 YYY",
			good+" = 5.00 "+cur+" @ 2.00 YYY", badAmount(r, cur)+" @ 2.00 YYY", "= 5.00 "+cur+" @@ 2.00 YYY", "1.00 A=B", "90000000000 YYY @ 90000000000 ZZZ")}
		if chance(r, 40) {
			f.lines = append(f.lines, "    ; comment of the wrong one")
		}
		return f
	case 9:
		return fault{kind: "bad_date_tag", where: "after", lines: []string{"    ; date:" + pick(r, "2020-13-01", "tomorrow", "", "2020-02-30", "2021-02-29", "01-02")}}
	case 10:
		return fault{kind: "loose_posting", where: "loose", lines: []string{pick(r, "  "+acc+"  5.00 "+cur, "\t"+acc, "  foo", "  2020-01-01 lunch", "  account Foo", "  P 2020-01-01 EUR 1.00 USD", "  include x", "  D 1.00 ZZZ")}}
	case 11:
		return rest(pick(r, "account", "account ; x", "account ; code:x", "account  ;"), "account_without_name")
	}
	return rest(pick(r, "commodity", "D")+" "+pick(r, "=5", "@", "1.00 A@B", "-", "x"), "bad_directive")
}

func genFatal(r *rand.Rand, w *Writer, j *Journal, at int) (fault, bool) {
	// what has been seen before this point
	var lastTx, lastP time.Time
	var accs []string
	for _, l := range w.Lines[:at] {
		if l.Kind == "tx" {
			lastTx = l.Tx.T
		}
		if l.Kind == "post" {
			accs = append(accs, l.Post.Acc)
		}
		if l.Kind == "account" {
			accs = append(accs, strings.TrimSpace(strings.SplitN(strings.TrimPrefix(strings.TrimSpace(l.Text), "account "), ";", 2)[0]))
		}
		if l.Kind == "P" {
			lastP = time.Unix(1, 0)
		}
	}
	_ = lastP
	switch r.Intn(2) {
	case 0:
		if lastTx.IsZero() {
			return fault{}, false
		}
		d := lastTx.Add(-time.Duration(1+r.Intn(1000000)) * time.Second)
		return fault{kind: "unsorted_transaction", where: "between", fatal: true, lines: []string{d.Format("2006-01-02/15:04:05") + " unsorted"}}, true
	default:
		if len(accs) == 0 {
			return fault{}, false
		}
		n := accs[r.Intn(len(accs))]
		if k := strings.LastIndex(n, ":"); k > 0 && chance(r, 30) {
			n = n[:k]
		}
		if n == "" || strings.TrimSpace(n) != n {
			return fault{}, false
		}
		return fault{kind: "repeated_account", where: "between", fatal: true, lines: []string{"account " + n + pick(r, "", " ; again")}}, true
	}
}

// spots lists where a fault may go: before line i.
func spots(lines []Line, where string) []int {
	var res []int
	for i := 0; i <= len(lines); i++ {
		next := ""
		if i < len(lines) {
			next = lines[i].Kind
		}
		boundary := i == len(lines) || startsGroup(lines[i])
		switch where {
		case "between":
			if boundary {
				res = append(res, i)
			}
		case "inside": // after the header, a posting or a comment of a transaction, before a posting or the next entry
			k := i - 1
			for k >= 0 && lines[k].Kind == "blank" {
				k--
			}
			if k >= 0 && lines[k].Tx != nil && (boundary || next == "post") {
				res = append(res, i)
			}
		case "after": // right after a posting or its comments
			k := i - 1
			if k >= 0 && lines[k].Post != nil {
				res = append(res, i)
			}
		case "loose": // no transaction owns what comes here: comments at column 0 do not end one
			if !boundary {
				continue
			}
			k := i - 1
			for k >= 0 && (lines[k].Kind == "file" || !startsGroup(lines[k])) {
				k--
			}
			if k < 0 || lines[k].Kind != "tx" {
				res = append(res, i)
			}
		}
	}
	return res
}

func silentCase(c *Ctx) {
	r := c.R
	if c.Index%12 == 0 {
		includeGraph(c, true)
		return
	}
	if c.Index%12 == 6 {
		looseAtSeam(c)
		return
	}
	o := fullOpt()
	o.MaxTx = 6
	j := GenJournal(r, o)
	w := WriteJournal(r, j)
	orig := w.Text()
	l0, err, _ := c.OpenText("orig.ledger", orig)
	if err != nil {
		c.Fail("a correct journal is refused: %v", err)
		return
	}
	want := Snapshot(l0, SnapOpt{NoIDs: true})
	// put the faults in
	lines := append([]Line(nil), w.Lines...)
	type bad struct {
		fault
		line int // index in lines, moved as others are inserted
		n    int
	}
	var bads []bad
	nf := 1 + r.Intn(3)
	fatal := chance(r, 20)
	if fatal {
		nf = 1
	}
	for k := 0; k < nf; k++ {
		t := time.Date(2020, 1, 1, 12, 0, 0, 0, time.UTC)
		if len(j.Txs) > 0 {
			t = j.Txs[r.Intn(len(j.Txs))].T
		}
		// a price must not be refused because of its date
		if len(j.Prices) > 0 {
			t = j.Prices[len(j.Prices)-1].T.AddDate(0, 0, 1)
		}
		f := genFault(r, j, t)
		sp := spots(lines, f.where)
		if fatal {
			sp = spots(lines, "between")
		}
		if len(sp) == 0 {
			continue
		}
		at := sp[r.Intn(len(sp))]
		if fatal {
			w2 := &Writer{Lines: lines}
			g, ok := genFatal(r, w2, j, at)
			if !ok {
				return
			}
			f = g
		}
		var ins []Line
		for i, s := range f.lines {
			x := Line{Text: s, Kind: "bad", Entry: -1}
			if f.where == "after" && at > 0 {
				x.Tx, x.Post = lines[at-1].Tx, lines[at-1].Post // still in the posting
			}
			if f.where == "inside" && i >= 0 {
				x.Kind = "badpost"
			}
			ins = append(ins, x)
		}
		for i := range bads {
			if bads[i].line >= at {
				bads[i].line += len(ins)
			}
		}
		lines = append(lines[:at], append(ins, lines[at:]...)...)
		bads = append(bads, bad{f, at, len(ins)})
	}
	pct := 0
	if chance(r, 35) {
		pct = 20
	}
	p := layOut(r, filepath.Join(c.Dir, "root"), "j.ledger", lines, pct)
	p.write(c)
	l, err, logged := openURL(p.Main)
	c.Input("log", logged)
	// what was reported
	reported := map[place]string{}
	for _, s := range strings.Split(logged, "\n") {
		if s == "" || strings.Contains(s, "undefined account") || strings.Contains(s, "undefined currency") {
			continue
		}
		at, msg, ok := parseAt(s)
		if !ok {
			c.Fail("a message names no line: %s", s)
			return
		}
		reported[at] = msg
	}
	expected := map[place]bool{}
	if err != nil && !fatal {
		for _, b := range bads {
			for k := 0; k < b.n; k++ {
				if at := p.At[b.line+k]; strings.Contains(err.Error(), fmt.Sprintf("%s:%d:", at.File, at.Num)) {
					c.Count("refused_naming_the_line", 1)
					return
				}
			}
		}
		c.Fail("refused: %v", err)
		return
	}
	for _, b := range bads {
		c.Count(b.kind, 1)
		for k := 0; k < b.n; k++ {
			at := p.At[b.line+k]
			if b.fatal {
				if err == nil {
					c.Fail("%s %q (%s:%d) is accepted", b.kind, b.lines[k], at.File, at.Num)
				} else if !strings.Contains(err.Error(), fmt.Sprintf("%s:%d", at.File, at.Num)) {
					c.Fail("%s %q (%s:%d): the error is about something else: %v", b.kind, b.lines[k], at.File, at.Num, err)
				}
				c.Count("refused_with_its_line", 1)
				continue
			}
			expected[at] = true
			c.Count("faulty_lines", 1)
			if reported[at] != "" {
				continue
			}
			if b.where == "after" { // reported at its posting
				k := b.line
				for k > 0 && lines[k].Kind != "post" {
					k--
				}
				expected[p.At[k]] = true
				if reported[p.At[k]] != "" {
					continue
				}
			}
			c.Fail("%s: line %s:%d (%q) is not reported", b.kind, at.File, at.Num, b.lines[k])
		}
	}
	if fatal {
		if len(bads) > 0 {
			c.Distinct(orig, bads[0].lines)
		}
		return
	}
	for at, msg := range reported {
		if !expected[at] {
			c.Fail("a correct line %s:%d is reported: %s", at.File, at.Num, msg)
		}
	}
	if d := diff(want, Snapshot(l, SnapOpt{NoIDs: true})); d != "" {
		c.Fail("a wrong line changed something else: %s", d)
		return
	}
	c.Count("ledgers_unchanged_by_faults", 1)
	for _, b := range bads {
		c.Distinct(orig, b.lines)
	}
	if len(bads) > 0 {
		c.Sample("%q reported: %s", bads[0].lines, complaints(logged))
	}
}

// looseAtSeam: indented lines where a file begins, or goes on after another one was included, belong to nothing in the other
// file: they must be reported, and change nothing.
func looseAtSeam(c *Ctx) {
	r := c.R
	dir := filepath.Join(c.Dir, "root")
	type seam struct {
		file string
		num  int
		text string
	}
	var seams []seam
	loose := map[string]string{}
	clean := map[string]string{}
	n, day := 0, 0
	var write func(depth int) string
	write = func(depth int) string {
		name := fmt.Sprintf("f%d", n)
		n++
		var with, without []string
		seamLine := func() {
			s := pick(r, "  Assets:Lost  3.00 EUR", "\tLost", "  ; lost comment", "  ; date:2020-01-01", "\t# lost", "  ; key:value", "  Lost  = 4.00 EUR", "  Lost  1.00 EUR ; with comment", "  include nothing", "  2020-01-01 lunch")
			if chance(r, 30) {
				with, without = append(with, pick(r, "", "; x", "# x", "   ")), append(without, "")
			}
			with, without = append(with, s), append(without, "")
			seams = append(seams, seam{filepath.Join(dir, name), len(with), s})
		}
		same := func(s ...string) { with, without = append(with, s...), append(without, s...) }
		entry := func() {
			day++
			switch r.Intn(6) {
			case 0:
				same(fmt.Sprintf("account Acc%d", day))
			case 1:
				same(fmt.Sprintf("commodity 1.00 C%d", day))
			case 2:
				same(fmt.Sprintf("P 2020-01-01 C%d 2.00 EUR", day))
			default:
				same(time.Date(2020, 1, 1+day/2, 0, 0, 0, 0, time.UTC).Format("2006-01-02")+" tx", "  Assets  5.00 EUR", "  Income")
				if chance(r, 30) {
					same("  ; its own")
				}
				return
			}
			if chance(r, 30) {
				same("  ; its own")
			}
		}
		if chance(r, 50) {
			seamLine()
		}
		for k := r.Intn(3); k > 0; k-- {
			entry()
		}
		if depth < 3 {
			for k := r.Intn(3); k > 0 || depth == 0 && n == 1; k-- {
				if chance(r, 80) {
					entry()
				}
				same("include " + write(depth+1))
				if chance(r, 70) {
					seamLine()
				}
				if chance(r, 50) {
					entry()
				}
			}
		}
		loose[name] = strings.Join(with, "\n") + pick(r, "\n", "\n", "")
		clean[name] = strings.Join(without, "\n") + "\n"
		return name
	}
	write(0)
	open := func(files map[string]string) (*accounting.Ledger, error, string) {
		for f, t := range files {
			writeFile(filepath.Join(dir, f), t)
			c.Input(f, t)
		}
		return openURL(filepath.Join(dir, "f0"))
	}
	l, err, _ := open(clean)
	if err != nil {
		c.Fail("a correct journal is refused: %v", err)
		return
	}
	want := Snapshot(l, SnapOpt{})
	l, err, logged := open(loose)
	c.Input("log", logged)
	c.Distinct(fmt.Sprint(loose))
	if err != nil {
		return // refused: nothing is lost silently
	}
	reported := map[place]bool{}
	for _, s := range complaints(logged) {
		if at, _, ok := parseAt(s); ok {
			reported[at] = true
		}
	}
	for _, s := range seams {
		c.Count("seam", 1)
		if !reported[place{s.file, s.num}] {
			c.Fail("line %s:%d (%q), which belongs to nothing, is not reported", s.file, s.num, s.text)
			return
		}
		delete(reported, place{s.file, s.num})
	}
	if len(reported) > 0 {
		c.Fail("correct lines are reported: %v in %s", reported, logged)
	}
	if d := diff(want, Snapshot(l, SnapOpt{})); d != "" {
		c.Fail("a line which belongs to nothing changed something: %s", d)
	}
}

// breakOff: journals which can not be read to their end.
func breakOff(c *Ctx) {
	r := c.R
	good := "2020-01-01 one\n  A  5.00 EUR\n  B\n"
	good2 := "2020-01-02 two\n  A  7.00 EUR\n  B\n"
	dir := c.Dir
	full := 2
	check := func(what, main string, mustFail bool, files map[string]string) {
		for n, t := range files {
			if strings.HasSuffix(n, "/") {
				os.MkdirAll(filepath.Join(dir, n), 0o755)
			} else {
				writeFile(filepath.Join(dir, n), t)
			}
		}
		file := filepath.Join(dir, main)
		l, err, logged := openURL(file)
		c.Count("journals_which_break_off", 1)
		c.Distinct(what)
		if err == nil && mustFail {
			c.Fail("%s: opens without an error", what)
		}
		if err == nil && len(l.Transactions) < full {
			named := false
			for n := range files {
				named = named || strings.Contains(logged, "couldn't include") || strings.Contains(logged, filepath.Join(dir, n)) && n != main
			}
			if !named || !strings.Contains(what, "[include]") {
				c.Fail("%s: opens with %d transactions", what, len(l.Transactions))
			}
		}
		_, stderr, rc := c.runCmd("ledger", nil, "-f", file, "print")
		if err != nil && (rc == 0 || strings.TrimSpace(stderr) == "") {
			c.Fail("%s: the command ends with status %d and says %q", what, rc, stderr)
		}
		if mustFail && rc == 0 {
			c.Fail("%s: the command succeeds", what)
		}
	}
	long := "; " + strings.Repeat("x", 70000) + "\n"
	check("missing journal", "nothing", true, nil)
	check("directory", "d", true, map[string]string{"d/": ""})
	check("missing directory", "no/where/j", true, nil)
	check("long line", "l1", false, map[string]string{"l1": good + long + good2})
	check("long line at the end", "l2", false, map[string]string{"l2": good + good2 + strings.TrimSpace(long)})
	check("very long line", "l3", false, map[string]string{"l3": good + "; " + strings.Repeat("y ", 1<<20) + "\n" + good2})
	check("long line in included file", "l4", false, map[string]string{"l4": good + "include l5\n" + good2, "l5": "; x\n" + long + "; y\n"})
	check("long line in included file followed by a transaction", "l6", false, map[string]string{"l6": good + "include l7\n", "l7": "; x\n" + long + good2})
	for i := 0; i < 12; i++ { // at any depth, wherever it is
		files := map[string]string{}
		some := func(n int) string {
			s := ""
			for k := r.Intn(n); k > 0; k-- {
				s += pick(r, "; something\n", "\n", fmt.Sprintf("account A%d\n", r.Int63()), "P 2020-01-01 EUR 1.10 USD\n")
			}
			return s
		}
		depth := 1 + r.Intn(6)
		for k := 0; k <= depth; k++ {
			text := some(30)
			if k == 0 {
				text += good
			}
			if k < depth {
				text += fmt.Sprintf("include n%d.%d\n", i, k+1) + some(4)
				if k == 0 {
					text += good2
				}
			} else {
				text += pick(r, "; ", "P 2020-01-01 EUR 1.10 USD ; ", fmt.Sprintf("account Q%d ; ", i), "") + long + some(3) + "account The last one\n" + some(4)
			}
			files[fmt.Sprintf("n%d.%d", i, k)] = text
		}
		check(fmt.Sprintf("long line at depth %d %d", depth, i), fmt.Sprintf("n%d.0", i), false, files)
		c.Count("long_lines_in_included_files", 1)
		if l, err, _ := openURL(filepath.Join(dir, fmt.Sprintf("n%d.0", i))); err == nil {
			last := false
			for _, a := range l.Accounts {
				last = last || a.FullName() == "The last one"
			}
			if !last {
				c.Fail("long line at depth %d: what follows is lost", depth)
			}
		}
	}
	check("directory [include]", "l8", false, map[string]string{"l8": good + "include dd\n" + good2, "dd/": ""})
	check("missing [include]", "l9", false, map[string]string{"l9": good + "include nope\n" + good2})
	full = 1
	check("loop [include]", "m1", false, map[string]string{"m1": good + "include m2\n", "m2": "include m1\n"})
	check("empty", "e1", false, map[string]string{"e1": good})
	for i := 0; i < 20; i++ {
		full = 2
		n := 65500 + r.Intn(80)
		what := fmt.Sprintf("line of %d bytes", n)
		text := good + "; " + strings.Repeat("z", n-2) + "\n" + good2
		writeFile(filepath.Join(dir, "b"), text)
		l, err, _ := openURL(filepath.Join(dir, "b"))
		c.Distinct(what)
		if err == nil && len(l.Transactions) != 2 {
			c.Fail("%s: opens with %d transactions", what, len(l.Transactions))
		}
	}
	// prices out of order
	for _, s := range []string{"P 2020-02-01 EUR 1.10 USD\nP 2020-01-01 EUR 1.20 USD\n", "P 2020-01-01/10:00:01 EUR 1.10 USD\n; x\nP 2020-01-01/10:00:00 EUR 1.20 USD\n"} {
		l, err, logged := c.OpenText("p.ledger", s)
		n := strings.Count(s, "\n")
		if err == nil && len(l.Prices) < 2 && !strings.Contains(logged, fmt.Sprintf("p.ledger:%d", n)) {
			c.Fail("a price out of order disappears")
		}
		if err != nil && !strings.Contains(err.Error(), fmt.Sprintf("p.ledger:%d", n)) {
			c.Fail("the error about a price out of order does not name its line: %v", err)
		}
	}
}

// checkIDs: identifiers name the place where things are written.
func checkIDs(c *Ctx, l *accounting.Ledger, v *View, p *placed, lines []Line) {
	is := func(what string, id accounting.ID, k int) {
		c.Count("identifiers_checked", 1)
		if id == nil {
			c.Fail("%s has no identifier", what)
			return
		}
		at, rest, ok := parseAt(id.String())
		if !ok || rest != "" || !sameFile(at.File, p.At[k].File) || at.Num != p.At[k].Num {
			c.Fail("%s is identified by %s, but it is in %s:%d", what, id, p.At[k].File, p.At[k].Num)
		}
	}
	first := map[string]int{}
	mention := func(name string, k int) {
		parts := strings.Split(name, ":")
		for i := range parts {
			n := strings.Join(parts[:i+1], ":")
			if _, ok := first[n]; !ok {
				first[n] = k
			}
		}
	}
	np := 0
	for k, x := range lines {
		switch x.Kind {
		case "tx":
			is(fmt.Sprintf("transaction %d", x.Tx.num), v.Tx[x.Tx].ID, k)
		case "post":
			is(fmt.Sprintf("posting %d.%d", x.Tx.num, x.Post.idx), v.Split[x.Post].ID, k)
			mention(x.Post.Acc, k)
		case "account":
			mention(strings.TrimSpace(strings.SplitN(strings.TrimPrefix(strings.TrimSpace(x.Text), "account "), ";", 2)[0]), k)
		case "P":
			np++
		}
	}
	for _, a := range l.Accounts {
		if isTransfer(l, a) {
			continue
		}
		k, ok := first[a.FullName()]
		if !ok {
			c.Fail("nobody mentioned account %q", a.FullName())
			return
		}
		is("account "+a.FullName(), a.ID, k)
	}
	// declared prices
	at := map[string]bool{}
	for k, x := range lines {
		if x.Kind == "P" {
			at[fmt.Sprintf("%s:%d", p.At[k].File, p.At[k].Num)] = true
		}
	}
	for _, x := range l.Prices {
		if x.ID == nil {
			continue
		}
		q, _, ok := parseAt(x.ID.String())
		if !ok || !at[fmt.Sprintf("%s:%d", realName(p, q.File), q.Num)] {
			c.Fail("a price is identified by %s, where there is none", x.ID)
		}
		np--
	}
	if np > 0 {
		c.Fail("%d declared prices have no identifier", np)
	}
}

func realName(p *placed, f string) string {
	for n := range p.Files {
		if sameFile(n, f) {
			return n
		}
	}
	return f
}

func includeCase(c *Ctx) {
	r := c.R
	o := fullOpt()
	o.MaxTx = 8
	j := GenJournal(r, o)
	w := WriteJournal(r, j)
	l0, err, log0 := c.OpenText("orig.ledger", w.Text())
	if err != nil {
		c.Fail("a correct journal is refused: %v", err)
		return
	}
	want := Snapshot(l0, SnapOpt{NoIDs: true})
	p := layOut(r, filepath.Join(c.Dir, "root", "x y"), pick(r, "j.ledger", "main", "j 2020.dat"), w.Lines, []int{15, 35, 60}[r.Intn(3)])
	p.write(c)
	cwd, _ := os.Getwd()
	defer os.Chdir(cwd)
	url := p.Main
	switch r.Intn(5) {
	case 0:
		url = "ledger:" + p.Main
	case 1:
		os.Chdir(filepath.Dir(p.Main))
		url = filepath.Base(p.Main)
		c.Count("relative_journal_names", 1)
	case 2:
		os.Chdir(c.Dir)
		url, _ = filepath.Rel(c.Dir, p.Main)
		c.Count("relative_journal_names", 1)
	case 3:
		os.Chdir("/")
	case 4:
		os.MkdirAll(filepath.Join(c.Dir, "root", "other"), 0o755)
		os.Chdir(filepath.Join(c.Dir, "root", "other"))
		url = filepath.Join("..", "x y", filepath.Base(p.Main))
		c.Count("relative_journal_names", 1)
	}
	l, err, logged := openURL(url)
	c.Input("url", url)
	c.Input("log", logged)
	c.Count("files", len(p.Files))
	if len(p.Files) > 3 {
		c.Count("trees_of_files", 1)
	}
	if err != nil {
		c.Fail("split into %d files it is refused: %v", len(p.Files), err)
		return
	}
	if d := diff(want, Snapshot(l, SnapOpt{NoIDs: true})); d != "" {
		c.Fail("split into %d files it is different: %s", len(p.Files), d)
		return
	}
	v := viewOf(c, l, j)
	if v == nil {
		return
	}
	checkIDs(c, l, v, p, w.Lines)
	// diagnostics
	text := map[place]string{}
	for k, x := range w.Lines {
		text[p.At[k]] = x.Text
	}
	ls := strings.Split(strings.TrimSpace(logged), "\n")
	ls0 := strings.Split(strings.TrimSpace(log0), "\n")
	if len(ls) != len(ls0) {
		c.Fail("split into files it complains %d times, otherwise %d", len(ls), len(ls0))
	}
	for i, s := range ls {
		if s == "" {
			continue
		}
		at, msg, ok := parseAt(s)
		at.File = realName(p, at.File)
		if _, real := text[at]; !ok || !real {
			c.Fail("a message names no line: %s", s)
			continue
		}
		words := strings.SplitN(msg, " ", 3)
		if len(words) == 3 && words[0] == "undefined" && !strings.Contains(text[at], words[2]) {
			c.Fail("a message names another line: %s (%q)", s, text[at])
		}
		if i < len(ls0) {
			_, msg0, _ := parseAt(ls0[i])
			if msg0 != msg {
				c.Fail("split into files it says %q, otherwise %q", msg, msg0)
			}
		}
		c.Count("messages_checked", 1)
	}
	if c.Index%15 == 0 {
		dir := pick(r, "/", filepath.Dir(p.Main), c.Dir)
		name := p.Main
		if dir != "/" && chance(r, 60) {
			name, _ = filepath.Rel(dir, p.Main)
		}
		out, stderr, rc := c.runCmdIn(dir, "ledger", nil, "-f", name, "print")
		if rc != 0 || out != export(l) {
			c.Fail("print of the split journal: status %d %s", rc, stderr)
		}
		c.Count("cli_runs", 1)
	}
	c.Distinct(strings.Join(keys(p.Files), " "), w.Text())
	c.Sample("%d files: %s", len(p.Files), strings.Join(keys(p.Files), " "))
}

func keys(m map[string][]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// deepIncludes: a long chain, the same harmless file many times, and errors in the depth.
func deepIncludes(c *Ctx) {
	root := filepath.Join(c.Dir, "root")
	n := 100
	for i := 0; i < n; i++ {
		next := ""
		if i+1 < n {
			next = fmt.Sprintf("include d/f%d\n", i+1)
		}
		writeFile(filepath.Join(root, strings.Repeat("d/", i), fmt.Sprintf("f%d", i)),
			fmt.Sprintf("; %d\n%s%s 10:00 t\n  A%d  1.00 EUR\n  B\n", i, next, "", i)[0:0]+fmt.Sprintf("; %d\naccount Acc%d\n%saccount After%d\n", i, i, next, i))
	}
	l, err, logged := openURL(filepath.Join(root, "f0"))
	if err != nil || len(complaints(logged)) > 0 {
		c.Fail("a chain of %d files is refused: %v %s", n, err, logged)
		return
	}
	for i := 0; i < n; i++ {
		for _, s := range []string{"Acc", "After"} {
			found := false
			for _, a := range l.Accounts {
				if a.Name == fmt.Sprintf("%s%d", s, i) {
					line := 2
					if s == "After" {
						line = 4
						if i+1 == n {
							line = 3
						}
					}
					at, _, _ := parseAt(a.ID.String())
					found = at.Num == line && sameFile(at.File, filepath.Join(root, strings.Repeat("d/", i), fmt.Sprintf("f%d", i)))
				}
			}
			if !found {
				c.Fail("account %s%d is missing or misplaced", s, i)
			}
		}
	}
	writeFile(filepath.Join(root, "nothing"), "; nothing\n")
	writeFile(filepath.Join(root, "many"), strings.Repeat("include nothing\n", 3000)+"account Last\n")
	l, err, logged = openURL(filepath.Join(root, "many"))
	if err != nil || len(complaints(logged)) > 0 || len(l.Accounts) < 1 || l.Accounts[0].Name != "Last" || !strings.HasSuffix(l.Accounts[0].ID.String(), ":3001") {
		c.Fail("a file included 3000 times in a row: %v %s", err, tail2(logged, 300))
	}
	c.Count("chains_of_files", 2)
	c.Distinct("deep")
}

// commentCase: comments and tags are exactly on what they were written.
func word(r *rand.Rand) string {
	b := make([]byte, 1+r.Intn(7))
	for i := range b {
		b[i] = byte('a' + r.Intn(26))
	}
	return string(b)
}

// ownTag returns whether a comment has one of the tags with a meaning.
func ownTag(s string, post bool) bool {
	for _, t := range []string{"date:", "code:", "isin:"} {
		if (t != "date:" || post) && (strings.HasPrefix(s, t) || strings.Contains(s, " "+t) || strings.Contains(s, "\t"+t)) {
			return true
		}
	}
	return false
}

func commentCase(c *Ctx) {
	r := c.R
	o := fullOpt()
	o.MaxTx = 8
	j := GenJournal(r, o)
	some := func(own string) []string {
		var res []string
		for k := r.Intn(5); k > 0; k-- {
			x := commentWords[r.Intn(len(commentWords))]
			if chance(r, 25) {
				x = pick(r, "date:2020-01-01", "code:77", "isin:US123", "payee:me", "date: today", "Code:X", "x", "UUID:abc", "a:", "http://example.com/a:b", "12:30", ":x", "isincode:4", "backdate:2", "due-date:2020-01-05", "Update:2020-02-03", "post-code:28001", "zip_code:08001", "(date:2020-01-01)", "NISIN:x", "q-isin:US1", "2date:2020-01-01")
			} else if chance(r, 25) { // whatever other word
				x = strings.TrimSpace(pick(r, "security", "symbol", "ticker", "name", "time", "number", "id", "ref", "account", "currency", "alias", "parent", "price", "datetime", "day", "when", "valuta", "note", "tag", "account code", "value date", "comment", "cusip", "precision", "format", "default", "code ", "date ", "isin ", "amount", "balance", "assert", "codes", "dates", "isins", "CODE", "DATE", "ISIN", "Isin", "Date", word(r)) + ":" + pick(r, "", " ") + pick(r, "2020-01-01", "77", "x y", "US0378331005", "", "5.00 EUR"))
			}
			if own != "" && (strings.HasPrefix(x, own+":") || strings.Contains(x, " "+own+":")) {
				continue
			}
			res = append(res, x)
		}
		return res
	}
	// something which ends as the tag which may follow it
	like := func(s []string, tag string) []string {
		if chance(r, 20) {
			c.Count("comments_like_tags", 1)
			s = append(s, pick(r, "no-", "(", "x.", "a, 2", "the old date-")+tag+pick(r, "", "", " too"))
		}
		return s
	}
	for _, a := range j.Accs {
		a.Comments = like(some("code"), "code:"+a.Code)
	}
	for _, x := range j.Curs {
		if x.Declared {
			x.Comments = like(some("isin"), "isin:"+x.ISIN)
		}
	}
	for _, p := range j.Prices {
		p.Comments = some("")
	}
	for _, t := range j.Txs {
		t.Comments = some("")
		for _, p := range t.Posts {
			p.Comments = some("date")
			if p.Date != nil {
				p.Comments = like(p.Comments, "date:"+p.Date.Format("2006-01-02"))
			}
		}
	}
	w := WriteJournal(r, j)
	c.Input("journal", w.Text())
	l, err, logged := c.OpenText("j.ledger", w.Text())
	if err != nil {
		c.Fail("a correct journal is refused: %v", err)
		return
	}
	for _, s := range complaints(logged) {
		c.Fail("complaint about a correct line: %s", s)
		return
	}
	v := viewOf(c, l, j)
	if v == nil {
		return
	}
	used := map[interface{}]bool{}
	same := func(what string, where interface{}, want []string) {
		used[where] = true
		got := l.Comments[where]
		c.Count("comments_checked", len(want))
		if len(got) != len(want) {
			c.Fail("%s has comments %q, should be %q", what, got, want)
			return
		}
		for i := range got {
			if got[i] != want[i] {
				c.Fail("%s has comments %q, should be %q", what, got, want)
				return
			}
		}
	}
	accs := map[string]*accounting.Account{}
	for _, a := range l.Accounts {
		accs[a.FullName()] = a
	}
	for _, d := range j.Accs {
		a := accs[d.Name]
		if a == nil {
			c.Fail("account %q is missing", d.Name)
			return
		}
		same("account "+d.Name, a, d.Comments)
		if a.Code != strings.TrimSpace(d.Code) && a.Code != d.Code {
			c.Fail("account %q has code %q, should be %q", d.Name, a.Code, d.Code)
		}
		if d.Code != "" {
			c.Count("codes", 1)
		}
		delete(accs, d.Name)
	}
	for n, a := range accs {
		if a.Code != "" {
			c.Fail("account %q has a code %q nobody wrote", n, a.Code)
		}
	}
	curs := map[string]*accounting.Currency{}
	for _, x := range l.Currencies {
		curs[x.Name] = x
	}
	for _, d := range j.Curs {
		x := curs[d.Name]
		if d.Name == "" && l.DefaultCurrency != nil && l.DefaultCurrency.Name == "" {
			x = l.DefaultCurrency
			if d.Declared {
				c.Count("nameless_currencies_declared", 1)
			}
		}
		if !d.Declared {
			if x != nil && x.ISIN != "" {
				c.Fail("currency %q has an ISIN %q nobody wrote", d.Name, x.ISIN)
			}
			continue
		}
		if x == nil {
			c.Fail("currency %q is missing", d.Name)
			return
		}
		same("currency "+d.Name, x, d.Comments)
		if x.ISIN != d.ISIN {
			c.Fail("currency %q has ISIN %q, should be %q", d.Name, x.ISIN, d.ISIN)
		}
		if d.ISIN != "" {
			c.Count("isins", 1)
		}
	}
	for _, t := range j.Txs {
		same(fmt.Sprintf("transaction %d", t.num), v.Tx[t], t.Comments)
		if v.Tx[t].Description != t.Desc {
			c.Fail("transaction %d is %q, should be %q", t.num, v.Tx[t].Description, t.Desc)
		}
		for _, p := range t.Posts {
			s := v.Split[p]
			same(fmt.Sprintf("posting %d.%d", t.num, p.idx), s, p.Comments)
			if !s.Time.Equal(p.T()) {
				c.Fail("posting %d.%d is dated %s, should be %s", t.num, p.idx, tm(*s.Time), tm(p.T()))
			}
			if p.Date != nil {
				c.Count("date_tags", 1)
			}
		}
	}
	// prices, those which look the same as a set
	byPrice := func(t time.Time, x, y string, a int64) string { return fmt.Sprintf("%s %s %s %d", tm(t), x, y, a) }
	wantP, gotP := map[string][]string{}, map[string][]string{}
	for _, p := range j.Prices {
		k := byPrice(p.T, p.C.Name, p.V.C.Name, p.V.A)
		wantP[k] = append(wantP[k], fmt.Sprintf("%q", p.Comments))
	}
	for _, p := range l.Prices {
		if p.ID == nil { // implied
			used[p] = true
			continue
		}
		used[p] = true
		k := byPrice(p.Time, curName(p.Currency), curName(p.Value.Currency), p.Value.Amount)
		gotP[k] = append(gotP[k], fmt.Sprintf("%q", l.Comments[p]))
	}
	for k, x := range wantP {
		c.Count("price_comments_checked", len(x))
		sort.Strings(x)
		y := gotP[k]
		sort.Strings(y)
		if strings.Join(x, "\n") != strings.Join(y, "\n") {
			c.Fail("price %s has comments %s, should be %s", k, y, x)
		}
	}
	for where, x := range l.Comments {
		if !used[where] && len(x) > 0 {
			c.Fail("%T has comments nobody wrote: %q", where, x)
		}
	}
	if c.Failed() {
		return
	}
	// without the comments everything else is the same
	var plain []string
	for _, x := range w.Lines {
		t := x.Text
		i := strings.IndexByte(t, ';')
		switch {
		case x.Kind == "file":
			continue
		case x.Kind == "comment":
			s := strings.TrimSpace(strings.TrimSpace(t)[1:])
			if ownTag(s, x.Post != nil) {
				break
			}
			continue
		case i >= 0:
			s := strings.TrimSpace(t[i+1:])
			if ownTag(s, x.Kind == "post") {
				break
			}
			t = t[:i]
		}
		plain = append(plain, t)
	}
	l2, err, _ := c.OpenText("plain.ledger", strings.Join(plain, "\n")+"\n")
	if err != nil {
		c.Fail("without its comments it is refused: %v", err)
		return
	}
	strip := func(l *accounting.Ledger) []string {
		l.Comments = nil
		return Snapshot(l, SnapOpt{NoIDs: true})
	}
	if d := diff(strip(l), strip(l2)); d != "" {
		c.Fail("without its comments it is different: %s", d)
	}
	c.Count("journals_without_comments", 1)
	c.Distinct(w.Text())
	c.Sample("%s", w.Text())
}

func init() {
	register(&Prop{ID: "C15", Quick: 12000, Thorough: 500000,
		Rule: "journals with wrong lines put in at any place, also in included files; distinct by journal and wrong lines",
		Needs: []string{"faulty_lines", "unknown_directive", "bad_date", "price_with_bad_date", "price_with_bad_amount", "price_without_amount", "bad_default", "bad_commodity",
			"missing_include", "bad_posting", "bad_date_tag", "loose_posting", "unsorted_transaction", "repeated_account", "journals_which_break_off", "ledgers_unchanged_by_faults", "graphs_of_files", "cycles_refused", "seam"},
		Fixed: []func(*Ctx){breakOff},
		Run:   silentCase})
	register(&Prop{ID: "C23", Quick: 7000, Thorough: 300000,
		Rule:  "journals split into trees of included files, opened from several working directories; distinct by text and layout",
		Needs: []string{"trees_of_files", "identifiers_checked", "messages_checked", "relative_journal_names", "cli_runs", "chains_of_files"},
		Fixed: []func(*Ctx){deepIncludes},
		Run:   includeCase})
	register(&Prop{ID: "C27", Quick: 24000, Thorough: 500000,
		Rule:  "journals with comments and tags everywhere, compared object by object, and again without the comments; distinct by text",
		Needs: []string{"comments_checked", "codes", "isins", "date_tags", "price_comments_checked", "nameless_currencies_declared", "journals_without_comments"},
		Run:   commentCase})
}
