package main

// Ground truth of a journal: everything is generated here first, exactly, and only then written
// down (render.go) or handed over raw (raw.go). Expectations come from here, never from the code.

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"time"
)

const U = 100000000

// Fmt is how a currency is written.
type Fmt struct {
	Before, Glued bool
	Tho, Dec      string
	Prec          int
}

// Cur is a currency. Name "" is the currency of amounts written without one.
type Cur struct {
	Name string
	F    Fmt // the format the generator would like
	// declaration
	Declared bool
	ISIN     string
	Comments []string
}

// Amt is an amount of one currency.
type Amt struct {
	C *Cur
	A int64
}

func (a Amt) String() string {
	if a.C == nil {
		return fmt.Sprintf("%d?", a.A)
	}
	return fmt.Sprintf("%d[%s]", a.A, a.C.Name)
}

// Price kinds of a posting.
const (
	noPrice = iota
	unitPrice
	totalPrice
)

// Post is one posting.
type Post struct {
	Acc      string
	V        Amt // the real amount, written or not
	Elided   bool
	ZeroFree bool // elided in an already balanced transaction: zero of no particular currency
	PriceK   int
	Unit     Amt // price per unit, if PriceK == unitPrice
	Total    Amt // total price
	Assert   *Amt
	Date     *time.Time
	Comments []string

	tx  *Tx
	idx int
	bal map[*Cur]int64 // expected balance of the account after this posting (without zeros)
}

// T is the date of the posting.
func (p *Post) T() time.Time {
	if p.Date != nil {
		return *p.Date
	}
	return p.tx.T
}

// Weight is what the posting counts for in its transaction.
func (p *Post) Weight() Amt {
	if p.PriceK != noPrice {
		return p.Total
	}
	return p.V
}

// Tx is a transaction.
type Tx struct {
	T        time.Time
	Desc     string
	Comments []string
	Posts    []*Post
	exch     bool // its remainder is in two currencies
	num      int
}

// PriceDecl is a declared price.
type PriceDecl struct {
	T        time.Time
	C        *Cur
	V        Amt
	Comments []string
}

// AccDecl is an account directive.
type AccDecl struct {
	Name, Code string
	Comments   []string
}

// Journal is a whole journal in the order it is written.
type Journal struct {
	Curs    []*Cur
	Accs    []*AccDecl // declared accounts, in order
	Default *Cur       // currency named in a D line before the transactions (nil if none)
	Nanos   bool       // some moments have fractions of a second: it can not be written as a journal
	NoName  *Cur       // currency of amounts without currency (nil if there are none; may equal Default)
	Txs     []*Tx
	Prices  []*PriceDecl
}

// GenOpt chooses what to generate.
type GenOpt struct {
	MaxTx      int
	Dated      bool // postings with their own dates
	Priced     bool
	Exchange   bool
	Elide      bool
	Assert     bool
	AssertOnly bool
	Prices     bool
	Chained    bool // with Prices: often there are prices for every currency
	Comments   bool
	Times      bool // moments with seconds; otherwise mostly days
	Nanos      bool // moments with fractions of a second, which can not be written in a journal (only for validCase)
	OddNames   bool // accounts with empty names or spaces beside the colons (reports would not show them clearly)
	Spaced     bool // currencies with spaces in their names (no price of theirs can be written, but it can be implied)
	NoName     bool // amounts without currency
	Big        bool // big amounts
	Huge       bool // some accounts whose sum may be too big
	MultiCur   bool
	Declare    bool // declare accounts and currencies
	Codes      bool
	Simple     bool // plain names
	Results    bool // few accounts, most of them of income or expense
	CLI        bool // only what report oracles know how to compare
	YearFrom   int
	YearTo     int
}

func fullOpt() GenOpt {
	return GenOpt{MaxTx: 10, Dated: true, Priced: true, Exchange: true, Elide: true, Assert: true, AssertOnly: true,
		Prices: true, Comments: true, Times: true, Spaced: true, OddNames: true, NoName: true, MultiCur: true, Declare: true, Codes: true}
}

func chance(r *rand.Rand, pct int) bool { return r.Intn(100) < pct }

func pick(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

var accWords = []string{"Assets", "Liabilities", "Income", "Expense", "Equity", "Cash", "Bank", "Food", "Rent", "Salary", "Car",
	"Visa 4321", "Food and drink", "Ahorro Ñandú", "Ünicode", "401k", "N26", "Broker", "include", "P", "D", "account", "2020-01-02", "a", "b",
	"50% off", "%s%d", "back\\slash", "\"quoted\"", "o'clock", "R&D", "a/b", "c.d", "x(y)", "[y]"}

var curNames = []string{"EUR", "USD", "$", "€", "£", "BTC", "CHF", "ETF_WORLD", "U.K", "h/d", "Zloty-new", "Å", "kr", "A1b", "日元", "E%d", "eur", "ETF_WORLD_CAP", "ETF_WORLD_DIS", "US", "CHFX", `"AB"`}

func genName(r *rand.Rand, simple bool) string {
	if simple {
		return accWords[r.Intn(11)]
	}
	if chance(r, 12) { // whatever other name
		return varyName(r, "A"+randWord(r, 1+r.Intn(24)))
	}
	if chance(r, 8) { // almost another one
		return varyName(r, accWords[r.Intn(len(accWords))])
	}
	return accWords[r.Intn(len(accWords))]
}

func randWord(r *rand.Rand, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch r.Intn(12) {
		case 0:
			b.WriteRune([]rune("ñüéøЖω漢")[r.Intn(7)])
		case 1:
			b.WriteByte(byte('A' + r.Intn(26)))
		default:
			b.WriteByte(byte('a' + r.Intn(26)))
		}
	}
	return b.String()
}

// varyName returns a name not quite like another one; never one which reports on results would have to take sides about.
func varyName(r *rand.Rand, s string) string {
	t := s
	switch r.Intn(6) {
	case 0:
		t = strings.ToUpper(s)
	case 1:
		t = strings.ToLower(s)
	case 2:
		t = s + pick(r, "2", "s", " 2", "_", "x")
	case 3:
		t = randWord(r, 1) + s
	case 4:
		k := []rune(s)
		t = strings.TrimSpace(string(k[:1+r.Intn(len(k))]))
	}
	if l := strings.ToLower(t); t == "" || strings.HasPrefix(l, "income") || strings.HasPrefix(l, "expense") || strings.HasPrefix(l, "assets:tr") {
		return s
	}
	return t
}

// genCurNames chooses some names of currencies, all different.
func genCurNames(r *rand.Rand, n int) []string {
	var res []string
	seen := map[string]bool{}
	perm := r.Perm(len(curNames))
	for i := 0; len(res) < n; i++ {
		s := curNames[perm[i%len(perm)]]
		if chance(r, 12) { // another one, or almost one of them
			s = randWord(r, 1+r.Intn(20)) + "z"
			if len(res) > 0 && chance(r, 60) {
				s = res[r.Intn(len(res))]
				switch r.Intn(5) {
				case 0:
					s += pick(r, "x", "_B", "_A", "é")
				case 1:
					s = strings.ToLower(s)
				case 2:
					s = strings.ToUpper(s)
				case 3:
					s = pick(r, "x", "É", "A") + s
				case 4:
					k := []rune(s)
					if x := k[len(k)-1]; len(k) > 2 && (k[1] >= 'A' && k[1] <= 'Z') {
						s = string(k[:2])
						_ = x
					}
				}
			}
		}
		if !seen[s] {
			seen[s] = true
			res = append(res, s)
		}
	}
	return res
}

// GenAccounts returns account full names forming a tree; every prefix is in the list, parents first.
func genAccounts(r *rand.Rand, n int, simple bool) []string {
	var names []string
	seen := map[string]bool{}
	add := func(s string) {
		parts := strings.Split(s, ":")
		for i := range parts {
			p := strings.Join(parts[:i+1], ":")
			if !seen[p] {
				seen[p] = true
				names = append(names, p)
			}
		}
	}
	deep := 4
	down := chance(r, 8)
	if down {
		deep = 10
	}
	for len(names) < n {
		if len(names) > 0 && chance(r, 60) {
			base := names[r.Intn(len(names))]
			if down {
				base = names[len(names)-1]
			}
			if strings.Count(base, ":") < deep {
				add(base + ":" + genName(r, simple))
			}
		} else {
			add(genName(r, simple))
		}
	}
	return names
}

func genFmt(r *rand.Rand, named bool) Fmt {
	var f Fmt
	if named {
		f.Before = chance(r, 35)
		f.Glued = chance(r, 35)
	}
	switch r.Intn(6) {
	case 0, 1:
		f.Dec, f.Tho = ".", ""
	case 2:
		f.Dec, f.Tho = ".", ","
	case 3:
		f.Dec, f.Tho = ",", "."
	case 4:
		f.Dec, f.Tho = ",", ""
	case 5:
		f.Dec, f.Tho = ".", pick(r, "'", "_")
	}
	f.Prec = []int{0, 2, 2, 2, 3, 4, 8, 1, 5, 6, 7, 2}[r.Intn(12)]
	return f
}

func genAmount(r *rand.Rand, c *Cur, big bool) int64 {
	unit := int64(U)
	for i := 0; i < c.F.Prec; i++ {
		unit /= 10
	}
	if chance(r, 15) { // more decimals than the currency shows
		for unit > 1 && chance(r, 60) {
			unit /= 10
		}
	}
	var n int64
	switch r.Intn(8) {
	case 0:
		n = int64(r.Intn(10))
	case 1:
		n = int64(r.Intn(1000000))
	default:
		n = int64(r.Intn(20000))
	}
	a := n * unit
	if big && chance(r, 40) {
		a = r.Int63n(900000000 * U)
		a -= a % unit
	}
	if a == 0 && chance(r, 80) {
		a = unit
	}
	if chance(r, 45) {
		a = -a
	}
	return a
}

var descWords = []string{"lunch", "Opening balance", "salary", "El Corte Inglés", "x", "transfer to savings", "P 2020-01-01", "= weird @ desc", "100 EUR", "café", "a:b", "D", "100% of it", "%d%s%!", "\\n", "a, b", "(code) x", "two  spaces   and\ttabs", "* cleared", "|", "2020-01-01", "Coffee & Co.", "what?", "done...", "invoice #12", "(unclosed", "x,", "\"quoted\"", "'", "-", "00123", "a/b.", "end!"}
var commentWords = []string{"note", "paid by card", "see receipt 12", "ünï", "= 5 EUR", "a  b", "(2020)", "TODO", "x@y", "half; half", "foo:bar", "project: house", "Code", "ref #3 * 2", "100%", "%v %s", "a, b: c, d", "\\", "\"q\"", "; ;", "2020-01-01 x", "include x", "P 2020-01-01 EUR 1"}

func genComments(r *rand.Rand, on bool) []string {
	if !on || chance(r, 65) {
		return nil
	}
	n := 1 + r.Intn(3)
	if chance(r, 5) {
		n += r.Intn(12)
	}
	var res []string
	for i := 0; i < n; i++ {
		res = append(res, commentWords[r.Intn(len(commentWords))])
	}
	return res
}

// GenJournal generates a journal whose transactions all obey the rules.
func GenJournal(r *rand.Rand, o GenOpt) *Journal {
	j := &Journal{}
	// currencies
	nc := 1 + r.Intn(2)
	if o.MultiCur {
		nc = 1 + r.Intn(4)
	}
	perm := r.Perm(len(curNames))
	chosen := genCurNames(r, nc)
	if o.Spaced && chance(r, 8) {
		chosen[0] += pick(r, " dollar", " fund", " x", " b c", " é", " EUR", "  z")
	}
	for i := 0; i < nc; i++ {
		c := &Cur{Name: chosen[i]}
		if o.Simple {
			c.Name = curNames[perm[i]%7]
			for _, d := range j.Curs {
				if d.Name == c.Name {
					c.Name = ""
				}
			}
			if c.Name == "" {
				continue
			}
		}
		c.F = genFmt(r, true)
		if o.Declare && chance(r, 60) {
			c.Declared = true
			c.Comments = genComments(r, o.Comments)
			if o.Codes && chance(r, 30) {
				c.ISIN = pick(r, "US0378331005", "ES0113900J37", "x1", "a, b", "%d", "isin", "x:y", "é é")
			}
		}
		j.Curs = append(j.Curs, c)
	}
	if o.NoName && chance(r, 35) {
		if chance(r, 50) {
			c := &Cur{Name: "", F: genFmt(r, false)}
			if o.Declare && chance(r, 40) { // by a commodity line
				c.Declared = true
				c.Comments = genComments(r, o.Comments)
				if o.Codes && chance(r, 30) {
					c.ISIN = pick(r, "US0378331005", "x1")
				}
			}
			j.NoName = c
			j.Curs = append(j.Curs, c)
			if chance(r, 50) {
				j.Default = c
			}
		} else {
			c := j.Curs[r.Intn(len(j.Curs))]
			j.NoName, j.Default = c, c
		}
	} else if chance(r, 30) {
		j.Default = j.Curs[r.Intn(len(j.Curs))]
		j.NoName = j.Default
	}
	accs := genAccounts(r, 3+r.Intn(8), o.Simple)
	if o.Results {
		accs = []string{"Assets:Cash", "Income:" + genName(r, true), "Expense:" + genName(r, true)}
		if chance(r, 50) {
			accs = append(accs, pick(r, "Expense:", "Income:", "Expense:Food:", "Assets:Income:")+genName(r, true)+" 2")
		}
		for chance(r, 45) { // further down
			a := accs[r.Intn(len(accs))] + ":" + genName(r, true)
			if len(accs) > 3 && chance(r, 70) {
				a = accs[len(accs)-1] + ":" + genName(r, true)
			}
			dup := false
			for _, x := range accs {
				dup = dup || x == a
			}
			if !dup {
				accs = append(accs, a)
			}
		}
	}
	if o.OddNames && !o.Simple && !o.Results && chance(r, 6) { // names with spaces beside their colons
		seen := map[string]bool{}
		for i, a := range accs {
			seen[a] = true
			b := a
			if k := strings.IndexByte(a, ':'); k > 0 && chance(r, 50) {
				b = a[:k] + pick(r, " :", ": ", " : ", "::") + a[k+1:]
			} else if chance(r, 10) {
				b = ":" + a
			} else if chance(r, 10) {
				b = a + ":"
			}
			if !seen[b] {
				accs[i], seen[b] = b, true
			}
		}
	}
	if o.Declare {
		// declared accounts: parents before children, never twice, and never after being created implicitly
		seen := map[string]bool{}
		pct := []int{0, 50, 100}[r.Intn(3)]
		for _, n := range accs {
			if chance(r, pct) && !seen[n] {
				a := &AccDecl{Name: n, Comments: genComments(r, o.Comments)}
				if o.Codes && chance(r, 30) {
					a.Code = pick(r, "123", "ES91 2100", "x:y", " 7", "0001", "12, 34", "a; b", "100%", "%s", "Ñ", "1.000,00", "[x]", "a  b", "code:x")
				}
				j.Accs = append(j.Accs, a)
				parts := strings.Split(n, ":")
				for i := range parts {
					seen[strings.Join(parts[:i+1], ":")] = true
				}
			}
		}
	}
	// moments
	yf, yt := o.YearFrom, o.YearTo
	if yf == 0 {
		yf, yt = 1995, 2030
		if chance(r, 10) {
			yf, yt = 1900, 2150
			if chance(r, 30) {
				yf, yt = 2, 9990
			}
		}
	}
	span := time.Date(yt, 1, 1, 0, 0, 0, 0, time.UTC).Unix() - time.Date(yf, 1, 1, 0, 0, 0, 0, time.UTC).Unix()
	if chance(r, 50) { // a dense journal
		span = 86400 * int64(5+r.Intn(300))
	}
	base := time.Date(yf+r.Intn(yt-yf), time.Month(1+r.Intn(12)), 1+r.Intn(28), 0, 0, 0, 0, time.UTC).Unix()
	if base+span > time.Date(yt+1, 1, 1, 0, 0, 0, 0, time.UTC).Unix() {
		base = time.Date(yf, 1, 1, 0, 0, 0, 0, time.UTC).Unix()
	}
	moment := func() time.Time {
		t := time.Unix(base+r.Int63n(span), 0).UTC()
		return roundMoment(r, t, o.Times)
	}
	ntx := 1 + r.Intn(o.MaxTx)
	var times []time.Time
	for i := 0; i < ntx; i++ {
		if i > 0 && chance(r, 25) {
			times = append(times, times[r.Intn(len(times))])
		} else if o.Nanos && i > 0 && chance(r, 40) {
			times = append(times, nanos(r, times[r.Intn(len(times))]))
		} else {
			times = append(times, moment())
		}
	}
	sort.Slice(times, func(a, b int) bool { return times[a].Before(times[b]) })
	for i := 0; i < ntx; i++ {
		t := &Tx{T: times[i], Desc: descWords[r.Intn(len(descWords))], Comments: genComments(r, o.Comments), num: i}
		if chance(r, 5) {
			t.Desc = ""
		}
		genPosts(r, j, t, accs, o)
		for k, p := range t.Posts {
			p.tx, p.idx = t, k
			p.Comments = genComments(r, o.Comments)
			if o.Dated && chance(r, 20) {
				d := roundMoment(r, t.T.Add(time.Duration(r.Intn(20*86400)-8*86400)*time.Second), o.Times)
				switch r.Intn(5) {
				case 0:
					d = times[r.Intn(len(times))]
				case 1:
					d = t.T
				case 2: // beside it
					if d = t.T.Add([]time.Duration{time.Second, -time.Second, time.Minute, -time.Minute, time.Hour, -time.Hour, 24 * time.Hour, -24 * time.Hour}[r.Intn(8)]); !o.Times {
						d = t.T.AddDate(0, 0, 1-2*r.Intn(2))
					}
				}
				if o.Nanos && chance(r, 60) {
					d = nanos(r, d)
				}
				p.Date = &d
			}
		}
		j.Txs = append(j.Txs, t)
	}
	if o.Huge && len(j.Txs) > 0 { // accounts whose sum may be too big
		c := j.Curs[r.Intn(len(j.Curs))]
		if c.Name != "" || c == j.NoName {
			for k, n := 0, 1+r.Intn(3); k < n; k++ {
				t := &Tx{T: j.Txs[len(j.Txs)-1].T, Desc: "huge", num: len(j.Txs)}
				x := (30000000000 + r.Int63n(62000000000)) * int64(U)
				if chance(r, 30) {
					x = -x
				}
				a, b := fmt.Sprintf("Huge%d", 2*k), fmt.Sprintf("Huge%d", 2*k+1)
				t.Posts = []*Post{
					{Acc: pick(r, "Assets:", "Income:", "Expense:") + a, V: Amt{c, x}, tx: t},
					{Acc: pick(r, "Assets:", "Income:", "Expense:") + b, V: Amt{c, -x}, tx: t, idx: 1},
				}
				j.Txs = append(j.Txs, t)
			}
		}
	}
	// omitted amounts
	if o.Elide {
		for _, t := range j.Txs {
			if !t.exch && len(t.Posts) > 0 && chance(r, 55) {
				p := t.Posts[r.Intn(len(t.Posts))]
				j.tryElide(t, p)
			}
		}
	}
	j.Compute()
	if o.Assert || o.AssertOnly {
		for _, t := range j.Txs {
			for _, p := range t.Posts {
				if !chance(r, 25) {
					continue
				}
				c := p.V.C
				if chance(r, 25) {
					c = j.Curs[r.Intn(len(j.Curs))]
				}
				if p.Elided && p.ZeroFree {
					continue
				}
				if c.Name == "" && c != j.NoName {
					continue
				}
				if !p.Elided && p.PriceK == noPrice && o.AssertOnly && chance(r, 40) {
					if j.canAssertOnly(p) {
						p.Elided = true
						p.Assert = &Amt{p.V.C, p.bal[p.V.C]}
						continue
					}
				}
				if o.Assert && !p.Elided {
					p.Assert = &Amt{c, p.bal[c]}
				}
			}
		}
	}
	if o.Prices {
		np := r.Intn(5)
		if chance(r, 20) {
			np += r.Intn(10)
		}
		var pt []time.Time
		for i := 0; i < np; i++ {
			if o.Nanos && chance(r, 40) {
				pt = append(pt, nanos(r, times[r.Intn(len(times))]))
			} else if chance(r, 20) {
				pt = append(pt, times[r.Intn(len(times))])
			} else {
				pt = append(pt, moment())
			}
		}
		sort.Slice(pt, func(a, b int) bool { return pt[a].Before(pt[b]) })
		for i := 0; i < np; i++ {
			c := j.Curs[r.Intn(len(j.Curs))]
			d := j.Curs[r.Intn(len(j.Curs))]
			if c == d || c.Name == "" || strings.Contains(c.Name, " ") {
				continue
			}
			a := genAmount(r, d, false)
			if a < 0 && chance(r, 90) {
				a = -a
			}
			j.Prices = append(j.Prices, &PriceDecl{T: pt[i], C: c, V: Amt{d, a}, Comments: genComments(r, o.Comments)})
		}
		if o.Chained && chance(r, 60) { // everything can be converted to the default currency, directly or not
			root := j.Default
			if root == nil {
				root = j.Curs[0]
			}
			done := []*Cur{root}
			for _, c := range j.Curs {
				if c == root || c.Name == "" || strings.Contains(c.Name, " ") {
					continue
				}
				for k := 1 + r.Intn(3); k > 0; k-- {
					d := done[0]
					if k > 1 || chance(r, 25) {
						d = done[r.Intn(len(done))]
					}
					a := genAmount(r, d, false)
					if a < 0 {
						a = -a
					}
					j.Prices = append(j.Prices, &PriceDecl{T: moment(), C: c, V: Amt{d, a}, Comments: genComments(r, o.Comments)})
				}
				done = append(done, c)
			}
			sort.SliceStable(j.Prices, func(a, b int) bool { return j.Prices[a].T.Before(j.Prices[b].T) })
		}
	}
	if o.Prices && o.NoName && j.NoName == nil && chance(r, 6) { // amounts without currency, but only in prices
		n := &Cur{Name: "", F: genFmt(r, false)}
		for _, p := range j.Prices {
			if chance(r, 50) {
				a := genAmount(r, n, false)
				if a < 0 {
					a = -a
				}
				p.V = Amt{n, a}
				j.NoName = n
			}
		}
		if j.NoName == n {
			j.Curs = append(j.Curs, n)
		}
	}
	return j
}

// nanos gives a moment less than a second away, after t but for little.
func nanos(r *rand.Rand, t time.Time) time.Time {
	return t.Add(time.Duration([]int{1, 2, -1, 999999999, 500000000, r.Intn(1000000000)}[r.Intn(6)]))
}

func roundMoment(r *rand.Rand, t time.Time, times bool) time.Time {
	d := time.Date(t.Year(), t.Month(), t.Day(), 12, 0, 0, 0, time.UTC)
	if !times {
		return d
	}
	switch r.Intn(8) {
	case 0:
		return time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), 0, 0, 0, time.UTC)
	case 1:
		return time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), 0, 0, time.UTC)
	case 2:
		return time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), 0, time.UTC)
	}
	return d
}

// genPosts fills a transaction with postings which balance.
func genPosts(r *rand.Rand, j *Journal, t *Tx, accs []string, o GenOpt) {
	acc := func() string { return accs[r.Intn(len(accs))] }
	cur := func() *Cur { return j.Curs[r.Intn(len(j.Curs))] }
	add := func(v Amt) *Post {
		p := &Post{Acc: acc(), V: v}
		t.Posts = append(t.Posts, p)
		return p
	}
	kind := r.Intn(10)
	two := func() (*Cur, *Cur) {
		a := r.Intn(len(j.Curs))
		b := (a + 1 + r.Intn(len(j.Curs)-1)) % len(j.Curs)
		return j.Curs[a], j.Curs[b]
	}
	balanceOff := func() {
		for _, v := range remainder(t.Posts, nil) {
			if chance(r, 30) { // in two postings
				x := Amt{v.C, genAmount(r, v.C, false)}
				add(x)
				add(Amt{v.C, -v.A - x.A})
			} else {
				add(Amt{v.C, -v.A})
			}
		}
	}
	switch {
	case kind <= 1 && len(j.Curs) > 1 && o.Exchange:
		a, b := two()
		x, y := genAmount(r, a, o.Big), genAmount(r, b, o.Big)
		if x == 0 || y == 0 {
			x, y = U, -U
		}
		if (x < 0) == (y < 0) && chance(r, 95) {
			y = -y
		}
		add(Amt{a, x})
		add(Amt{b, y})
		if chance(r, 30) { // something else which balances
			z := genAmount(r, a, false)
			add(Amt{a, z})
			add(Amt{a, -z})
		}
		t.exch = true
	case kind <= 3 && len(j.Curs) > 1 && o.Priced:
		n := 1 + r.Intn(2)
		for i := 0; i < n; i++ {
			a, b := two()
			if chance(r, 5) { // a price in its own currency
				b = a
			}
			p := add(Amt{a, genAmount(r, a, false)})
			if chance(r, 50) {
				p.PriceK = totalPrice
				p.Total = Amt{b, genAmount(r, b, false)}
				if (p.Total.A < 0) != (p.V.A < 0) && chance(r, 90) {
					p.Total.A = -p.Total.A
				}
				if chance(r, 4) {
					p.Total.A = 0
				}
			} else {
				p.PriceK = unitPrice
				u := genAmount(r, b, false)
				if u < 0 {
					u = -u
				}
				if chance(r, 4) {
					u = 0
				}
				p.Unit = Amt{b, u}
				k := new(big.Int).Mul(big.NewInt(p.V.A), big.NewInt(u))
				q, m := new(big.Int).QuoRem(k, big.NewInt(U), new(big.Int))
				if m.Sign() != 0 || !q.IsInt64() || q.CmpAbs(big.NewInt(1000000000*U)) > 0 {
					// make it exact
					p.V.A = int64(1+r.Intn(50)) * U
					u = int64(1+r.Intn(5000)) * (U / 100)
					p.Unit.A = u
					q = new(big.Int).Quo(new(big.Int).Mul(big.NewInt(p.V.A), big.NewInt(u)), big.NewInt(U))
				}
				p.Total = Amt{b, q.Int64()}
			}
		}
		balanceOff()
	case kind == 4:
		c := cur()
		add(Amt{c, 0})
		if chance(r, 50) {
			add(Amt{c, 0})
		}
		if chance(r, 20) {
			add(Amt{c, genAmount(r, c, o.Big)})
			balanceOff()
		}
	case kind == 5 && chance(r, 20):
		// no postings at all
	default:
		n := 1 + r.Intn(3)
		many := chance(r, 2)
		if many { // a transaction with a long list of postings
			n = 8 + r.Intn(30)
		}
		for i := 0; i < n; i++ {
			c := cur()
			add(Amt{c, genAmount(r, c, o.Big && !many)})
			if chance(r, 60) && i == 0 && !many {
				break
			}
		}
		balanceOff()
	}
	r.Shuffle(len(t.Posts), func(a, b int) { t.Posts[a], t.Posts[b] = t.Posts[b], t.Posts[a] })
}

// remainder adds up the weights of the postings, except one; the result has no zeros.
func remainder(posts []*Post, except *Post) []Amt {
	var res []Amt
	sums := map[*Cur]*big.Int{}
	var order []*Cur
	for _, p := range posts {
		if p == except {
			continue
		}
		w := p.Weight()
		if sums[w.C] == nil {
			sums[w.C] = new(big.Int)
			order = append(order, w.C)
		}
		sums[w.C].Add(sums[w.C], big.NewInt(w.A))
	}
	for _, c := range order {
		if sums[c].Sign() != 0 {
			res = append(res, Amt{c, sums[c].Int64()})
		}
	}
	return res
}

func (j *Journal) tryElide(t *Tx, p *Post) {
	if p.PriceK != noPrice {
		return
	}
	for _, q := range t.Posts {
		if q.Elided {
			return
		}
	}
	rem := remainder(t.Posts, p)
	if len(rem) == 0 && p.V.A == 0 {
		p.Elided, p.ZeroFree = true, true
		return
	}
	if len(rem) == 1 && rem[0].C == p.V.C && rem[0].A == -p.V.A {
		p.Elided = true
	}
}

// Histories returns the postings of each account in chronological order.
func (j *Journal) Histories() map[string][]*Post {
	res := map[string][]*Post{}
	for _, t := range j.Txs {
		for _, p := range t.Posts {
			res[p.Acc] = append(res[p.Acc], p)
		}
	}
	for _, h := range res {
		h := h
		sort.SliceStable(h, func(a, b int) bool { return h[a].T().Before(h[b].T()) })
	}
	return res
}

// Compute fills the expected running balances.
func (j *Journal) Compute() {
	for _, h := range j.Histories() {
		sum := map[*Cur]int64{}
		for _, p := range h {
			sum[p.V.C] += p.V.A
			if sum[p.V.C] == 0 {
				delete(sum, p.V.C)
			}
			p.bal = map[*Cur]int64{}
			for c, a := range sum {
				p.bal[c] = a
			}
		}
	}
}

// canAssertOnly tells whether the amount of p may be given just by an assertion: every amount can still be found,
// from those of its transaction or from what is before it in its account.
func (j *Journal) canAssertOnly(p *Post) bool {
	elided, assert := p.Elided, p.Assert
	p.Elided, p.Assert = true, &Amt{p.V.C, p.bal[p.V.C]}
	defer func() { p.Elided, p.Assert = elided, assert }()
	return j.Determined()
}

// Determined tells whether every omitted amount can be found.
func (j *Journal) Determined() bool {
	known := map[*Post]bool{}
	unknown := 0
	for _, t := range j.Txs {
		for _, p := range t.Posts {
			known[p] = !p.Elided
			if p.Elided {
				unknown++
			}
		}
	}
	hist := j.Histories()
	for progress := true; progress && unknown > 0; {
		progress = false
		for _, t := range j.Txs {
			var missing []*Post
			for _, p := range t.Posts {
				if !known[p] {
					missing = append(missing, p)
				}
			}
			if len(missing) == 1 && missing[0].Assert == nil {
				known[missing[0]], progress = true, true
				unknown--
			}
		}
		for _, h := range hist {
			for _, p := range h {
				if known[p] {
					continue
				}
				if p.Assert == nil {
					break
				}
				known[p], progress = true, true
				unknown--
			}
		}
	}
	return unknown == 0
}

// Names returns every account the journal mentions, with its ancestors.
func (j *Journal) Names() []string {
	seen := map[string]bool{}
	var res []string
	add := func(s string) {
		parts := strings.Split(s, ":")
		for i := range parts {
			n := strings.Join(parts[:i+1], ":")
			if !seen[n] {
				seen[n] = true
				res = append(res, n)
			}
		}
	}
	for _, a := range j.Accs {
		add(a.Name)
	}
	for _, t := range j.Txs {
		for _, p := range t.Posts {
			add(p.Acc)
		}
	}
	return res
}
