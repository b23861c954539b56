package main

// C06 (amounts are read exactly or refused) and C07 (amounts are displayed exactly).

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strings"

	"github.com/cespedes/accounting"
)

// curState is what is known of a currency while a journal is being read.
type curState struct {
	name          string
	seen          bool // some amount in it has been accepted
	before, glued bool
	tho, dec      string
	prec          int
}

// reading is one way to understand a number.
type reading struct {
	mag      *big.Int // times U
	tho, dec string   // marks used in it
	ndec     int
	hasDec   bool
	over     bool // more than 8 decimals
}

// readings gives every way to understand the digits and marks of s, whatever the currency: at most one decimal
// mark, after which there are only digits, and an integer part with no marks or grouped in threes by one mark.
func readings(s string) []reading {
	var res []reading
	isDig := func(x string) bool {
		for _, c := range x {
			if c < '0' || c > '9' {
				return false
			}
		}
		return len(x) > 0
	}
	integer := func(x string) (digits, tho string, ok bool) {
		if isDig(x) {
			return x, "", true
		}
		i := strings.IndexAny(x, ".,_'")
		if i < 1 || i > 3 {
			return "", "", false
		}
		m := x[i : i+1]
		parts := strings.Split(x, m)
		for k, p := range parts {
			if !isDig(p) || k > 0 && len(p) != 3 || len(p) > 3 {
				return "", "", false
			}
		}
		return strings.Join(parts, ""), m, true
	}
	add := func(ip, dec, fp string) {
		d, tho, ok := integer(ip)
		if !ok || tho != "" && tho == dec {
			return
		}
		r := reading{tho: tho, dec: dec, ndec: len(fp), hasDec: dec != "", over: len(fp) > 8}
		for len(fp) < 8 {
			fp += "0"
		}
		r.mag, _ = new(big.Int).SetString(d+fp[:8], 10)
		res = append(res, r)
	}
	add(s, "", "")
	if i := strings.LastIndexAny(s, ".,_'"); i > 0 && isDig(s[i+1:]) {
		add(s[:i], s[i:i+1], s[i+1:])
	}
	return res
}

// readNumber decides what a number must be read as, given what is known of its currency.
// The currency state is updated if it is accepted.
func readNumber(st *curState, s string) (v int64, why string) {
	neg := false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if s == "" {
		return 0, "no digits"
	}
	var ok []reading
	for _, r := range readings(s) {
		if st.seen {
			if r.hasDec && r.dec != st.dec {
				continue
			}
			if r.tho != "" && (r.tho == st.dec || st.tho != "" && r.tho != st.tho) {
				continue
			}
		}
		ok = append(ok, r)
	}
	if len(ok) == 0 {
		return 0, "wrongly written"
	}
	if len(ok) > 1 {
		return 0, "ambiguous"
	}
	r := ok[0]
	if r.over {
		return 0, "too many decimals"
	}
	if !r.mag.IsInt64() {
		return 0, "too large"
	}
	if r.tho != "" {
		st.tho = r.tho
	}
	if !st.seen {
		st.seen = true
		st.prec = r.ndec
		st.dec = r.dec
		if st.dec == "" {
			st.dec = "."
			if st.tho == "." {
				st.dec = ","
			}
		}
	}
	v = r.mag.Int64()
	if neg {
		v = -v
	}
	return v, ""
}

// genNumber writes something like a number.
func genNumber(r *rand.Rand, st *curState) string {
	digits := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + r.Intn(10))
		}
		return string(b)
	}
	marks := []string{".", ",", "'", "_"}
	m1, m2 := marks[r.Intn(2)], marks[r.Intn(4)]
	if st.seen && chance(r, 70) {
		m1 = st.dec
		if st.tho != "" {
			m2 = st.tho
		}
	}
	s := ""
	switch r.Intn(10) {
	case 0, 1, 2: // well written
		s = digits(1 + r.Intn(7))
		if chance(r, 50) {
			s = group(s, true, m2)
		}
		if chance(r, 60) {
			s += m1 + digits(1+r.Intn(8))
		}
	case 3, 4: // groups of almost three
		s = digits(1 + r.Intn(4))
		for k := r.Intn(4); k > 0; k-- {
			n := 3
			if chance(r, 12) {
				n = 2 + 2*r.Intn(2)
			}
			m := m2
			if chance(r, 8) {
				m = marks[r.Intn(4)]
			}
			s += m + digits(n)
		}
		if chance(r, 40) {
			s += m1 + digits(r.Intn(10))
		}
	case 5: // anything
		n := 1 + r.Intn(9)
		for i := 0; i < n; i++ {
			if chance(r, 30) {
				s += marks[r.Intn(4)]
			} else {
				s += digits(1)
			}
		}
	case 6: // one mark
		s = digits(1+r.Intn(5)) + pick(r, m1, m1, m2) + digits([]int{1, 2, 3, 3, 3, 4, 8, 9, 0}[r.Intn(9)])
	case 7: // about the limit
		x := new(big.Int).Add(big.NewInt(math.MaxInt64), big.NewInt(int64(r.Intn(5)-2)))
		if chance(r, 30) {
			x.Add(x, big.NewInt(r.Int63n(1<<60)))
		}
		if chance(r, 20) {
			x.Mul(x, big.NewInt(10))
		}
		if chance(r, 20) {
			x.Rsh(x, uint(r.Intn(3)))
		}
		t := x.String()
		if dec := r.Intn(9); chance(r, 30) { // the first ones with so many decimals which are too big, or the last ones which are not
			x = new(big.Int).Quo(big.NewInt(math.MaxInt64), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(8-dec)), nil))
			t = x.Add(x, big.NewInt(int64(r.Intn(3)))).String()
			s = t
			if dec > 0 {
				s = t[:len(t)-dec] + m1 + t[len(t)-dec:]
			}
			break
		}
		s = t[:len(t)-8]
		if chance(r, 40) {
			s = group(s, true, m2)
		}
		if chance(r, 80) {
			s += m1 + t[len(t)-8:]
		}
		if chance(r, 10) {
			s = digits(1 + r.Intn(30))
		}
	case 8:
		s = strings.Repeat("0", r.Intn(4)) + digits(1+r.Intn(3))
		if chance(r, 60) {
			s += m1 + strings.Repeat("0", r.Intn(9)) + digits(r.Intn(2))
		}
	case 9: // signs where they should not be
		s = pick(r, "", "-", "+", "--1", "1-", "1+1", "+-3", "1.-5", "-.5", ".5", "5.", ",5", "'1", "1''000")
	}
	if len(s) > 1 && chance(r, 20) { // something well written, or almost, with one thing changed
		k := 1 + r.Intn(len(s)-1)
		switch r.Intn(6) {
		case 0: // another mark
			s = s[:k] + pick(r, m1, m2, marks[r.Intn(4)]) + s[k:]
		case 1: // something missing
			s = s[:k] + s[k+1:]
		case 2: // once more decimals
			s += m1 + digits(1+r.Intn(4))
		case 3: // another group
			s += m2 + digits(3)
		case 4: // a piece twice
			s = s[:k] + s[r.Intn(k+1):]
		case 5:
			s = s[:k] + pick(r, "-", "+", digits(1)) + s[k:]
		}
	}
	if chance(r, 20) {
		s = "-" + s
	} else if chance(r, 4) {
		s = "+" + s
	}
	return s
}

// amtText is one amount as written, and what must be understood.
type amtText struct {
	text string
	cur  string
	v    int64
	why  string // why it must be refused
	min  bool   // the smallest number: may be either
}

// reader is the model of a journal being read, as far as amounts are concerned.
type reader struct {
	curs  []*curState // named ones, in order
	def   *curState
	undo  []curState
	nCurs int
	oDef  *curState
	oDefV curState
}

func (m *reader) find(name string) *curState {
	for _, c := range m.curs {
		if c.name == name {
			return c
		}
	}
	return nil
}

func (m *reader) begin() {
	m.undo = nil
	for _, c := range m.curs {
		m.undo = append(m.undo, *c)
	}
	m.nCurs, m.oDef = len(m.curs), m.def
	if m.def != nil {
		m.oDefV = *m.def
	}
}

func (m *reader) rollback() {
	m.curs, m.def = m.curs[:m.nCurs], m.oDef
	for i := range m.undo {
		*m.curs[i] = m.undo[i]
	}
	if m.def != nil {
		*m.def = m.oDefV
	}
}

// amount writes a new amount, and reads it.
func (m *reader) amount(r *rand.Rand, names []string) amtText {
	name := names[r.Intn(len(names))]
	var st *curState
	if name == "" {
		if m.def == nil {
			m.def = &curState{}
		}
		st = m.def
	} else {
		st = m.find(name)
	}
	before, glued := chance(r, 40), chance(r, 40)
	if st == nil {
		st = &curState{name: name}
		m.curs = append(m.curs, st)
	}
	if !st.seen && name != "" {
		st.before, st.glued = before, glued
	}
	num := genNumber(r, st)
	a := amtText{cur: st.name}
	a.v, a.why = readNumber(st, num)
	if a.why == "too large" && strings.HasPrefix(num, "-") {
		// the smallest number there is could be represented
		for _, x := range readings(num[1:]) {
			if new(big.Int).Neg(x.mag).IsInt64() {
				a.min = true
			}
		}
	}
	sp := " "
	if glued {
		sp = ""
	} else if chance(r, 10) {
		sp = pick(r, "  ", "\t", "\t", " \t")
	}
	switch {
	case name == "":
		a.text = num
		if num == "" {
			a.text, a.why = "-", "no digits"
		}
	case before:
		a.text = name + sp + num
	default:
		a.text = num + sp + name
		if num == "" {
			a.text, a.why = name, "no digits"
		}
	}
	return a
}

func readAmounts(c *Ctx) {
	r := c.R
	names := genCurNames(r, 1+r.Intn(3))
	if chance(r, 40) {
		names = append(names, "")
	}
	m := &reader{}
	type exp struct {
		kind string
		line int
		ok   bool
		why  string
		a    []amtText
	}
	var exps []exp
	var b strings.Builder
	line := 0
	put := func(format string, args ...interface{}) {
		fmt.Fprintf(&b, format+"\n", args...)
		line++
	}
	n := 5 + r.Intn(30)
	skip := false
	for i := 0; i < n; i++ {
		m.begin()
		var as []amtText
		ok, why := true, ""
		next := func() string {
			if !ok {
				// what comes after something refused in the same line has no effect
				return "1 X"
			}
			a := m.amount(r, names)
			as = append(as, a)
			if a.min {
				skip = true
			}
			if a.why != "" {
				ok, why = false, a.why
			}
			return a.text
		}
		e := exp{kind: pick(r, "P", "P", "post", "post", "post", "total", "assert", "commodity", "D", "all")}
		switch e.kind {
		case "P":
			q := "QQQ"
			if x := names[r.Intn(len(names))]; x != "" && !strings.ContainsAny(x, " \t") && chance(r, 60) {
				q = x // perhaps mentioned here before any amount in it
			}
			if m.find(q) == nil {
				m.curs = append(m.curs, &curState{name: q})
			}
			t := next()
			put("P 2020-01-01 %s %s", q, t)
		case "commodity":
			put("commodity %s", next())
		case "D":
			t := next()
			put("D %s", t)
			if ok {
				if as[0].cur == "" {
					// the default is a nameless currency: the one it was
				} else {
					m.def = m.find(as[0].cur)
				}
			}
		default:
			put("2020-01-01 t%d", i)
			switch e.kind {
			case "post":
				put("  A%d  %s", i, next())
			case "total":
				t := next()
				put("  A%d  %s @@ %s", i, t, next())
			case "assert":
				put("  A%d  = %s", i, next())
			case "all":
				t := next()
				u := next()
				put("  A%d  %s @@ %s = %s", i, t, u, next())
				if ok && as[2].v != 0 && !(as[2].cur == as[0].cur && as[2].v == as[0].v) || ok && as[2].v == 0 && as[2].cur == as[0].cur && as[0].v != 0 {
					skip = true // a false assertion: the journal is refused
				}
			}
			put("  B%d", i)
		}
		e.ok, e.why, e.a = ok, why, as
		e.line = line
		if e.kind != "P" && e.kind != "commodity" && e.kind != "D" {
			e.line = line - 1
		}
		if !ok {
			m.rollback()
		}
		exps = append(exps, e)
		if skip { // undecided or false: leave it out, with everything it did
			m.rollback()
			lines := strings.SplitAfter(b.String(), "\n")
			cut := 1
			if e.kind != "P" && e.kind != "commodity" && e.kind != "D" {
				cut = 3
			}
			b.Reset()
			b.WriteString(strings.Join(lines[:len(lines)-1-cut], ""))
			line -= cut
			exps = exps[:len(exps)-1]
			skip = false
		}
	}
	text := b.String()
	c.Input("journal", text)
	l, err, logged := c.OpenText("a.ledger", text)
	if err != nil {
		c.Fail("the journal is refused: %v", err)
		return
	}
	file := c.Dir + "/a.ledger"
	// what was read
	type got struct {
		v     accounting.Value
		price *accounting.Value
		as    *accounting.Value
	}
	byLine := map[string]got{}
	for _, t := range l.Transactions {
		for _, s := range t.Splits {
			if s.ID == nil {
				continue
			}
			g := got{v: s.Value}
			if p, ok := l.SplitPrices[s]; ok {
				g.price = &p
			}
			if p, ok := l.Assertions[s]; ok {
				g.as = &p
			}
			byLine[s.ID.String()] = g
		}
	}
	for _, p := range l.Prices {
		if p.ID != nil {
			byLine[p.ID.String()] = got{v: p.Value}
		}
	}
	same := func(v accounting.Value, a amtText) bool {
		return v.Amount == a.v && v.Currency != nil && v.Currency.Name == a.cur
	}
	for _, e := range exps {
		id := fmt.Sprintf("%s:%d", file, e.line)
		g, there := byLine[id]
		last := e.a[len(e.a)-1]
		reported := false
		for _, x := range strings.Split(logged, "\n") {
			if (strings.HasPrefix(x, id+":") || strings.HasPrefix(x, id+" ")) && !strings.Contains(x, "undefined") {
				reported = true
			}
		}
		if !e.ok {
			c.Count("refused: "+e.why, 1)
			if there {
				c.Fail("line %d: %q must be refused (%s) but is read as %s", e.line, last.text, e.why, valStr(g.v, false))
			}
			if !reported {
				c.Fail("line %d: %q must be refused (%s) and is not reported", e.line, last.text, e.why)
			}
			continue
		}
		if reported {
			c.Fail("line %d: %v are right but it is reported: %s", e.line, e.a, logged)
			continue
		}
		c.Count("amounts_read", len(e.a))
		if e.kind == "commodity" || e.kind == "D" {
			continue
		}
		if !there {
			c.Fail("line %d: %v are right but lost", e.line, e.a)
			continue
		}
		if !same(g.v, e.a[0]) {
			c.Fail("line %d: %q is read as %s", e.line, e.a[0].text, valStr(g.v, false))
		}
		if (e.kind == "total" || e.kind == "all") && (g.price == nil || !same(*g.price, e.a[1])) {
			c.Fail("line %d: %q is read as %v", e.line, e.a[1].text, g.price)
		}
		if (e.kind == "assert" || e.kind == "all") && (g.as == nil || !same(*g.as, last)) {
			c.Fail("line %d: %q is read as %v", e.line, last.text, g.as)
		}
	}
	// how the currencies ended
	var want, have []string
	state := func(s *curState) string {
		if !s.seen {
			return fmt.Sprintf("%q", s.name)
		}
		return fmt.Sprintf("%q %v %v %q %q %d", s.name, s.before, s.glued, s.tho, s.dec, s.prec)
	}
	real := func(x *accounting.Currency) string {
		return state(&curState{name: x.Name, seen: x.Decimal != "", before: x.PrintBefore, glued: x.WithoutSpace, tho: x.Thousand, dec: x.Decimal, prec: x.Precision})
	}
	for _, s := range m.curs {
		want = append(want, state(s))
	}
	for _, x := range l.Currencies {
		have = append(have, real(x))
	}
	if d := diff(want, have); d != "" {
		c.Fail("currencies and their formats: %s", d)
	}
	if (m.def == nil) != (l.DefaultCurrency == nil) {
		c.Fail("default currency: %v, should be %v", l.DefaultCurrency, m.def)
	} else if m.def != nil && real(l.DefaultCurrency) != state(m.def) {
		c.Fail("default currency: %s, should be %s", real(l.DefaultCurrency), state(m.def))
	}
	for _, e := range exps {
		for _, a := range e.a {
			c.Distinct(e.kind, a.text, a.v, a.why)
		}
	}
	c.Count("amounts_written", len(exps))
	c.Sample("%s", text)
}

// refDigits writes a number as the format says; full shows every digit needed.
func refDigits(f Fmt, a int64, full bool) string {
	m := new(big.Int).Abs(big.NewInt(a))
	q, d := new(big.Int).QuoRem(m, big.NewInt(U), new(big.Int))
	dec := fmt.Sprintf("%08d", d.Int64())
	n := f.Prec
	if full {
		t := strings.TrimRight(dec, "0")
		if len(t) > n {
			n = len(t)
		}
	}
	s := group(q.String(), true, f.Tho)
	if n > 0 {
		p := f.Dec
		if p == "" {
			p = "."
		}
		s += p + dec[:n]
	}
	if a < 0 {
		s = "-" + s
	}
	return s
}

func refString(name string, f Fmt, a int64, full bool) string {
	s := refDigits(f, a, full)
	sp := " "
	if f.Glued || name == "" {
		sp = ""
	}
	if f.Before {
		return name + sp + s
	}
	return s + sp + name
}

func edgeAmount(r *rand.Rand) int64 {
	switch r.Intn(8) {
	case 0:
		return []int64{math.MinInt64, math.MaxInt64, math.MinInt64 + 1, 0, 1, -1, U, -U, U - 1, 1 - U, U + 1}[r.Intn(11)]
	case 1:
		return int64(r.Uint64())
	case 2:
		return r.Int63n(2*U) - U
	case 3:
		x := int64(1)
		for k := r.Intn(19); k > 0; k-- {
			x *= 10
		}
		x += int64(r.Intn(3) - 1)
		if chance(r, 50) {
			x = -x
		}
		return x
	case 4:
		return (r.Int63n(2000000) - 1000000) * U
	case 5:
		return (r.Int63n(200000000) - 100000000) * (U / 100)
	}
	return int64(r.Uint64()) >> uint(r.Intn(60))
}

func displayCase(c *Ctx) {
	r := c.R
	if chance(r, 25) {
		displayJournal(c)
		return
	}
	var vals []accounting.Value
	var refs []string
	for k := 0; k < 6; k++ {
		f := genFmt(r, true)
		f.Prec = r.Intn(9)
		if chance(r, 10) {
			f.Tho = pick(r, " ", "·", "")
		}
		name := curNames[r.Intn(len(curNames))]
		if chance(r, 10) {
			name, f.Before = "", false
		} else if chance(r, 5) {
			name = pick(r, "3M", "0x", "1", "-", ".", "7-Eleven")
		}
		a := edgeAmount(r)
		dec := f.Dec
		if f.Dec == "." && chance(r, 10) {
			dec = ""
		}
		x := &accounting.Currency{Name: name, PrintBefore: f.Before, WithoutSpace: f.Glued, Thousand: f.Tho, Decimal: dec, Precision: f.Prec}
		v := accounting.Value{Amount: a, Currency: x}
		if name == "" && chance(r, 30) {
			v.Currency = nil
			f = Fmt{Dec: "."}
		}
		c.Input(fmt.Sprint("value ", k), fmt.Sprintf("%d in %+v", a, x))
		check := func(what, got, want string) {
			c.Count("displays", 1)
			if got != want {
				c.Fail("%s of %d in %+v is %q, should be %q", what, a, *x, got, want)
			}
		}
		check("String", v.String(), refString(name, f, a, false))
		check("FullString", v.FullString(), refString(name, f, a, true))
		check("GetString without units", v.GetString(false, false), refDigits(f, a, false))
		check("full GetString without units", v.GetString(true, false), refDigits(f, a, true))
		check("fmt.Sprint", fmt.Sprint(v), refString(name, f, a, false))
		if a < 0 {
			c.Count("negative", 1)
		}
		if a == math.MinInt64 {
			c.Count("smallest", 1)
		}
		vals = append(vals, v)
		refs = append(refs, refString(name, f, a, false))
		c.Distinct(a, name, f)
	}
	n := r.Intn(len(vals) + 1)
	want := strings.Join(refs[:n], ", ")
	if n == 0 {
		want = "0"
	}
	if got := accounting.Balance(vals[:n]).String(); got != want {
		c.Fail("balance is shown as %q, should be %q", got, want)
	}
	c.Sample("%v", refs)
}

// displayJournal: what was written in a journal is shown in the format it established.
func displayJournal(c *Ctx) {
	o := fullOpt()
	o.Big = chance(c.R, 30)
	j := GenJournal(c.R, o)
	w := WriteJournal(c.R, j)
	c.Input("journal", w.Text())
	l, err, _ := c.OpenText("j.ledger", w.Text())
	if err != nil {
		c.Fail("a correct journal is refused: %v", err)
		return
	}
	v := viewOf(c, l, j)
	if v == nil {
		return
	}
	for p, s := range v.Split {
		if p.ZeroFree {
			continue
		}
		f := w.Fmts[p.V.C]
		c.Count("displays", 2)
		if got, want := s.Value.String(), refString(p.V.C.Name, f, p.V.A, false); got != want {
			c.Fail("%s is shown as %q, should be %q", p.V, got, want)
		}
		if got, want := s.Value.FullString(), refString(p.V.C.Name, f, p.V.A, true); got != want {
			c.Fail("%s is shown in full as %q, should be %q", p.V, got, want)
		}
	}
	c.Count("journals_displayed", 1)
	c.Distinct(describe(j))
}

func init() {
	register(&Prop{ID: "C06", Quick: 50000, Thorough: 500000,
		Rule:  "journals of amounts, most of them hostile, in every place where an amount may be; distinct by text and expected reading",
		Needs: []string{"amounts_read", "refused: ambiguous", "refused: too large", "refused: wrongly written", "refused: too many decimals", "refused: no digits"},
		Run:   readAmounts})
	register(&Prop{ID: "C07", Quick: 80000, Thorough: 3000000,
		Rule:  "amounts, limits included, in currencies of every format, and amounts of generated journals; distinct by amount and format",
		Needs: []string{"displays", "smallest", "negative", "journals_displayed"},
		Run:   displayCase})
}
