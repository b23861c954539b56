package main

// Writing a journal down, in any of the ways the syntax allows, keeping track of the format each
// currency gets from what has been written so far.

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"
	"time"
)

// Line is one line of a journal, and what it is.
type Line struct {
	Text  string
	Kind  string // account, commodity, D, P, tx, post, comment, blank, file
	Entry int    // number of the entry it belongs to (-1: none)
	Post  *Post
	Tx    *Tx
	Names []mention
}

// mention is a name found in a line.
type mention struct {
	Kind    string // account or currency
	Name    string
	Declare bool // the line declares it
}

// Writer renders journals.
type Writer struct {
	R      *rand.Rand
	Plain  bool         // one canonical style
	Fmts   map[*Cur]Fmt // format of each currency as it stands
	Seen   map[*Cur]bool
	Order  []*Cur // currencies in order of appearance (the nameless one excluded)
	listed map[*Cur]bool
	Lines  []Line
	entry  int
	noname *Cur // currency of nameless amounts at this point
	names  []mention
}

func (w *Writer) mention(kind, name string, declare bool) {
	w.names = append(w.names, mention{kind, name, declare})
}

func newWriter(r *rand.Rand) *Writer {
	return &Writer{R: r, Fmts: map[*Cur]Fmt{}, Seen: map[*Cur]bool{}, listed: map[*Cur]bool{}, entry: -1}
}

func (w *Writer) list(c *Cur) {
	if c.Name != "" && !w.listed[c] {
		w.listed[c] = true
		w.Order = append(w.Order, c)
	}
}

// number writes an amount without its currency, and establishes its format if it is the first one.
func (w *Writer) number(c *Cur, a int64) string {
	r := w.R
	neg := a < 0
	u := uint64(a)
	if neg {
		u = -u
	}
	ip := fmt.Sprintf("%d", u/U)
	fp := fmt.Sprintf("%08d", u%U)
	min := 8
	for min > 0 && fp[min-1] == '0' {
		min--
	}
	f := w.Fmts[c]
	d := min
	if !w.Seen[c] {
		if c.F.Prec > d {
			d = c.F.Prec
		}
		want := c.F
		grp := want.Tho != "" && len(ip) > 3 && (w.Plain || chance(r, 60))
		if d == 0 {
			if want.Dec != "." || grp && len(ip) < 7 {
				if w.Plain || chance(r, 50) || want.Dec != "." {
					d = 2
				} else {
					grp = false
				}
			}
		}
		if d == 3 && len(ip) <= 3 && !grp {
			d = 4
		}
		f = Fmt{Dec: want.Dec, Prec: d}
		if grp {
			f.Tho = want.Tho
			if d == 0 && want.Tho == "." {
				f.Dec = ","
			}
		}
		w.Fmts[c] = f
		w.Seen[c] = true
		return w.sign(neg) + group(ip, grp, want.Tho) + decimals(fp, d, f.Dec)
	}
	if !w.Plain && chance(r, 30) {
		d += r.Intn(9 - d)
	} else if d < f.Prec {
		d = f.Prec
	}
	grp := false
	tho := f.Tho
	if tho == "" && c.F.Tho != f.Dec {
		tho = c.F.Tho
	}
	if tho != "" && len(ip) > 3 && (w.Plain || chance(r, 50)) {
		grp = true
		f.Tho = tho
		w.Fmts[c] = f
	}
	return w.sign(neg) + group(ip, grp, tho) + decimals(fp, d, f.Dec)
}

func (w *Writer) sign(neg bool) string {
	if neg {
		return "-"
	}
	if !w.Plain && chance(w.R, 4) {
		return "+"
	}
	return ""
}

func group(ip string, on bool, tho string) string {
	if !on {
		return ip
	}
	var s string
	for i, c := range ip {
		if i > 0 && (len(ip)-i)%3 == 0 {
			s += tho
		}
		s += string(c)
	}
	return s
}

func decimals(fp string, d int, dec string) string {
	if d == 0 {
		return ""
	}
	return dec + fp[:d]
}

// Amount writes an amount with its currency.
func (w *Writer) Amount(v Amt) string {
	r := w.R
	if v.C.Name == "" || (v.C == w.noname && !w.Plain && w.Seen[v.C] && chance(r, 40)) {
		return w.number(v.C, v.A)
	}
	first := !w.Seen[v.C]
	w.mention("currency", v.C.Name, false)
	n := w.number(v.C, v.A)
	before, glued := v.C.F.Before, v.C.F.Glued
	if !first && !w.Plain && chance(r, 25) {
		before, glued = chance(r, 50), chance(r, 50)
	}
	w.list(v.C)
	if first {
		f := w.Fmts[v.C]
		f.Before, f.Glued = before, glued
		w.Fmts[v.C] = f
	}
	sp := " "
	if glued {
		sp = ""
	} else if !w.Plain && chance(r, 7) {
		sp = pick(r, "  ", "  ", "\t")
	}
	if before {
		return v.C.Name + sp + n
	}
	return n + sp + v.C.Name
}

// Date writes a moment.
func (w *Writer) Date(t time.Time) string {
	sep := func(s string) string {
		if w.Plain {
			return s
		}
		return pick(w.R, "-", "/", ".", "-", "-")
	}
	s1, s2 := sep("-"), sep("-")
	s := t.Format("2006") + s1 + t.Format("01") + s2 + t.Format("02")
	h, m, sec := t.Clock()
	if h == 12 && m == 0 && sec == 0 && (w.Plain || chance(w.R, 80)) {
		return s
	}
	a, b := "/", ":"
	if !w.Plain {
		a, b = pick(w.R, "/", "_", "-", ".", ":"), pick(w.R, ":", ":", ".", "-")
	}
	s += a + t.Format("15")
	if m == 0 && sec == 0 && !w.Plain && chance(w.R, 40) {
		return s
	}
	s += b + t.Format("04")
	if sec == 0 && (w.Plain || chance(w.R, 70)) {
		return s
	}
	return s + b + t.Format("05")
}

func (w *Writer) indent() string {
	if w.Plain {
		return "  "
	}
	return pick(w.R, "  ", " ", "\t", "    ", "  \t ")
}

func (w *Writer) emit(kind, text string, t *Tx, p *Post) {
	if !w.Plain && chance(w.R, 4) {
		text += pick(w.R, " ", "\t", "   ")
	}
	if kind == "commodity" || kind == "D" || kind == "account" {
		for i := range w.names {
			w.names[i].Declare = true
		}
	}
	w.Lines = append(w.Lines, Line{Text: text, Kind: kind, Entry: w.entry, Tx: t, Post: p, Names: w.names})
	w.names = nil
}

// emitWith writes a line with its comments: the first one on the line or below, the others below.
func (w *Writer) emitWith(kind, text string, comments []string, t *Tx, p *Post) {
	rest := comments
	if len(rest) > 0 && (w.Plain || chance(w.R, 60)) {
		text += pick(w.R, " ; ", " ;", "  ;  ") + rest[0]
		rest = rest[1:]
	} else if !w.Plain && chance(w.R, 3) { // an empty comment is nothing
		text += pick(w.R, " ;", ";", " ; ", "  ;\t")
	}
	w.emit(kind, text, t, p)
	empty := func() {
		if !w.Plain && chance(w.R, 3) {
			w.Lines = append(w.Lines, Line{Text: w.indent() + pick(w.R, ";", "; ", "#", "*", ";\t"), Kind: "comment", Entry: w.entry, Tx: t, Post: p})
		}
	}
	empty()
	for _, c := range rest {
		m := ";"
		if !w.Plain {
			m = pick(w.R, ";", ";", "#", "*")
		}
		w.Lines = append(w.Lines, Line{Text: w.indent() + m + pick(w.R, " ", "", "  ") + c, Kind: "comment", Entry: w.entry, Tx: t, Post: p})
		empty()
		w.noise(true)
	}
}

func (w *Writer) noise(inside bool) {
	if w.Plain {
		return
	}
	if chance(w.R, 5) {
		w.Lines = append(w.Lines, Line{Text: pick(w.R, "", "", "   ", "\t"), Kind: "blank", Entry: -1})
	}
	if !inside && chance(w.R, 8) {
		w.Lines = append(w.Lines, Line{Text: pick(w.R, "; a comment of the file", "# 2020-01-01 nothing", "* heading", ";"), Kind: "file", Entry: -1})
	}
	if inside && chance(w.R, 2) && w.Lines[len(w.Lines)-1].Kind != "blank" {
		// nobody's comment, among the lines of an entry
		k := w.Lines[len(w.Lines)-1]
		w.Lines = append(w.Lines, Line{Text: pick(w.R, "; a comment of the file", "# 2020-01-01 nothing", "* heading", ";", ";code:1", "; date:2020-01-01", "#  Assets:Cash  5 EUR"), Kind: "comment", Entry: w.entry, Tx: k.Tx, Post: k.Post})
	}
}

// Account writes an account directive.
func (w *Writer) Account(a *AccDecl) {
	w.entry++
	cs := a.Comments
	if a.Code != "" {
		cs = insertAt(w.R, cs, "code:"+a.Code)
	}
	w.mention("account", a.Name, true)
	w.emitWith("account", "account "+a.Name, cs, nil, nil)
	w.noise(false)
}

// Sometimes a tag goes after the text of another comment, which is still a comment.
var hasTag = regexp.MustCompile(`(^|\s)[a-z]+:`)

func insertAt(r *rand.Rand, s []string, x string) []string {
	if len(s) > 0 && chance(r, 30) {
		if i := r.Intn(len(s)); s[i] != "" && !hasTag.MatchString(s[i]) {
			res := append([]string(nil), s...)
			res[i] += pick(r, " ", "  ", " \t") + x
			return res
		}
	}
	i := r.Intn(len(s) + 1)
	var res []string
	res = append(res, s[:i]...)
	res = append(res, x)
	return append(res, s[i:]...)
}

// Commodity writes a commodity directive.
func (w *Writer) Commodity(c *Cur) {
	w.entry++
	cs := c.Comments
	if c.ISIN != "" {
		cs = insertAt(w.R, cs, "isin:"+c.ISIN)
	}
	a := int64(1000000) * U
	if !w.Plain {
		a = []int64{1000000 * U, 1000 * U, 1234567 * U, U, 0}[w.R.Intn(5)]
	}
	save := w.noname
	if c.Name != "" {
		w.noname = nil // a commodity line names it
	}
	w.emitWith("commodity", "commodity "+w.Amount(Amt{c, a}), cs, nil, nil)
	w.noname = save
	w.noise(false)
}

// DefaultLine writes a D line.
func (w *Writer) DefaultLine(c *Cur) {
	w.entry++
	save := w.noname
	w.noname = nil
	w.emit("D", "D "+w.Amount(Amt{c, 1000 * U}), nil, nil)
	w.noname = save
	w.noname = c
	w.noise(false)
}

// PriceLine writes a declared price.
func (w *Writer) PriceLine(p *PriceDecl) {
	w.entry++
	w.list(p.C)
	w.mention("currency", p.C.Name, false)
	w.emitWith("P", "P "+w.Date(p.T)+" "+p.C.Name+" "+w.Amount(p.V), p.Comments, nil, nil)
	w.noise(false)
}

// PostText writes a posting, without indentation nor comments.
func (w *Writer) PostText(p *Post) string {
	s := p.Acc
	w.mention("account", p.Acc, false)
	sp := func() string {
		if w.Plain {
			return " "
		}
		return pick(w.R, " ", " ", "  ", "")
	}
	val := ""
	if !p.Elided {
		val = w.Amount(p.V)
		switch p.PriceK {
		case unitPrice:
			val += sp() + "@" + sp() + w.Amount(p.Unit)
		case totalPrice:
			val += sp() + "@@" + sp() + w.Amount(p.Total)
		}
	}
	if p.Assert != nil {
		if val != "" {
			val += sp()
		}
		val += "=" + sp() + w.Amount(*p.Assert)
	}
	if val != "" {
		if w.Plain {
			s += "    " + val
		} else {
			s += pick(w.R, "  ", "      ", "   ", "  \t") + val
		}
	}
	return s
}

// Tx writes a transaction.
func (w *Writer) Tx(t *Tx) {
	w.entry++
	head := w.Date(t.T)
	if t.Desc != "" {
		sp := " "
		if !w.Plain && chance(w.R, 20) {
			sp = "   "
		}
		head += sp + t.Desc
	}
	w.emitWith("tx", head, t.Comments, t, nil)
	for _, p := range t.Posts {
		cs := p.Comments
		if p.Date != nil {
			cs = insertAt(w.R, cs, "date:"+w.Date(*p.Date))
		}
		text := w.PostText(p)
		w.emitWith("post", w.indent()+text, cs, t, p)
		w.noise(true)
	}
	w.noise(false)
}

// Journal writes all of it.
func (w *Writer) Journal(j *Journal) {
	r := w.R
	// accounts, currencies and the default, in any order but before the transactions
	type decl struct {
		k int
		f func()
	}
	var decls []decl
	k := 0
	for _, a := range j.Accs {
		a := a
		k += 1 + r.Intn(3)
		decls = append(decls, decl{k, func() { w.Account(a) }})
	}
	k = 0
	for _, c := range j.Curs {
		c := c
		if c.Declared {
			k += 1 + r.Intn(4)
			decls = append(decls, decl{k, func() { w.Commodity(c) }})
		}
	}
	if j.Default != nil {
		decls = append(decls, decl{r.Intn(12), func() { w.DefaultLine(j.Default) }})
	}
	sort.SliceStable(decls, func(a, b int) bool { return decls[a].k < decls[b].k })
	for _, d := range decls {
		d.f()
	}
	if j.Default == nil {
		w.noname = nil
	}
	pi := 0
	for _, t := range j.Txs {
		for pi < len(j.Prices) && (chance(r, 30) || !j.Prices[pi].T.After(t.T) && chance(r, 50)) {
			w.PriceLine(j.Prices[pi])
			pi++
		}
		w.Tx(t)
	}
	for ; pi < len(j.Prices); pi++ {
		w.PriceLine(j.Prices[pi])
	}
}

// Text is the whole journal.
func (w *Writer) Text() string {
	var b strings.Builder
	for _, l := range w.Lines {
		b.WriteString(l.Text)
		b.WriteByte('\n')
	}
	return b.String()
}

// WriteJournal renders a journal in a random style.
func WriteJournal(r *rand.Rand, j *Journal) *Writer {
	w := newWriter(r)
	w.Plain = chance(r, 15)
	if chance(r, 15) {
		lateJournal(w, j)
	} else {
		w.Journal(j)
	}
	return w
}
