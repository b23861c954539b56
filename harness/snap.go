package main

// Looking at a ledger: a canonical snapshot of everything in it, and comparison with the ground truth.

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/cespedes/accounting"
	_ "github.com/cespedes/accounting/backend/ledger"
	_ "github.com/cespedes/accounting/backend/txtdb"
)

const transferName = "Assets:Transfer account"

func findTransfer(l *accounting.Ledger) *accounting.Account {
	for _, a := range l.Accounts {
		if a.Parent == nil && a.Name == transferName {
			return a
		}
	}
	return nil
}

func isTransfer(l *accounting.Ledger, a *accounting.Account) bool {
	return a != nil && a.Parent == nil && a.Name == transferName
}

func curName(c *accounting.Currency) string {
	if c == nil {
		return "<nil>"
	}
	return c.Name
}

func tm(t time.Time) string { return t.UTC().Format("2006-01-02T15:04:05.999999999") }

// SnapOpt normalises some details.
type SnapOpt struct {
	RoundTrip bool // what printing and reading again can not or need not keep
	Prices    bool // price list as a set (RoundTrip)
	NoIDs     bool
}

func valStr(v accounting.Value, norm bool) string {
	if v.Amount == 0 && norm {
		return "0"
	}
	return fmt.Sprintf("%d[%s]", v.Amount, curName(v.Currency))
}

func balStr(b accounting.Balance) string {
	var s []string
	for _, v := range b {
		s = append(s, fmt.Sprintf("%d[%s]", v.Amount, curName(v.Currency)))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func idStr(id accounting.ID, o SnapOpt) string {
	if o.NoIDs || o.RoundTrip || id == nil {
		return ""
	}
	return id.String()
}

// Snapshot writes down a ledger, one fact per line.
func Snapshot(l *accounting.Ledger, o SnapOpt) []string {
	var out []string
	p := func(format string, args ...interface{}) { out = append(out, fmt.Sprintf(format, args...)) }
	com := func(kind string, where interface{}) {
		for _, c := range l.Comments[where] {
			p("    %s comment %q", kind, c)
		}
	}
	splitNo := map[*accounting.Split]string{}
	for i, t := range l.Transactions {
		k := 0
		for _, s := range t.Splits {
			if o.RoundTrip && isTransfer(l, s.Account) {
				continue
			}
			splitNo[s] = fmt.Sprintf("%d.%d", i, k)
			k++
		}
	}
	for _, a := range l.Accounts {
		if o.RoundTrip && isTransfer(l, a) {
			continue
		}
		parent := "-"
		if a.Parent != nil {
			parent = a.Parent.FullName()
		}
		p("account %q parent %q level %d code %q id %s start %s", a.FullName(), parent, a.Level, a.Code, idStr(a.ID, o), balStr(a.StartBalance))
		for _, c := range a.Children {
			p("    child %q", c.FullName())
		}
		com("account", a)
		for _, s := range a.Splits {
			p("    history %s at %s value %s balance %s", splitNo[s], tm(*s.Time), valStr(s.Value, o.RoundTrip), balStr(s.Balance))
		}
	}
	for i, t := range l.Transactions {
		p("transaction %d %s %q id %s", i, tm(t.Time), t.Description, idStr(t.ID, o))
		com("transaction", t)
		for _, s := range t.Splits {
			if o.RoundTrip && isTransfer(l, s.Account) {
				continue
			}
			x := ""
			if v, ok := l.SplitPrices[s]; ok {
				x += " @@ " + valStr(v, false)
			}
			if v, ok := l.Assertions[s]; ok {
				x += " = " + valStr(v, false)
			}
			back := ""
			if s.Transaction != t {
				back = " WRONG TRANSACTION"
			}
			p("  split %s %q at %s value %s balance %s id %s%s%s", splitNo[s], s.Account.FullName(), tm(*s.Time), valStr(s.Value, o.RoundTrip), balStr(s.Balance), idStr(s.ID, o), x, back)
			com("split", s)
		}
	}
	cs := append([]*accounting.Currency(nil), l.Currencies...)
	if o.RoundTrip {
		sort.SliceStable(cs, func(i, j int) bool { return cs[i].Name < cs[j].Name })
	}
	for _, c := range cs {
		p("currency %s", curStr(c, o))
		com("currency", c)
	}
	if l.DefaultCurrency == nil {
		if !o.RoundTrip {
			p("default nil")
		}
	} else if !o.RoundTrip || l.DefaultCurrency.Name != "" {
		p("default %s", curStr(l.DefaultCurrency, o))
	}
	if d := l.DefaultCurrency; d != nil && d.Name == "" && (d.ISIN != "" || len(l.Comments[d]) > 0) {
		p("nameless %s", curStr(d, o))
		com("nameless currency", d)
	}
	if o.RoundTrip {
		if c := usedNoName(l); c != nil {
			p("nameless %s", curStr(c, o))
		}
	}
	var prices []string
	for _, x := range l.Prices {
		if o.RoundTrip {
			prices = append(prices, fmt.Sprintf("price %s %s = %s %q", tm(x.Time), curName(x.Currency), valStr(x.Value, false), l.Comments[x]))
		} else {
			prices = append(prices, fmt.Sprintf("price %s %s = %s id %s %q", tm(x.Time), curName(x.Currency), valStr(x.Value, false), idStr(x.ID, o), l.Comments[x]))
		}
	}
	for i := 1; i < len(l.Prices); i++ {
		if l.Prices[i].Time.Before(l.Prices[i-1].Time) {
			prices = append(prices, "price list NOT SORTED")
		}
	}
	if o.RoundTrip {
		sort.Strings(prices)
	}
	for i, s := range prices {
		if o.RoundTrip && i > 0 && s == prices[i-1] {
			continue
		}
		p("%s", s)
	}
	return out
}

// usedNoName returns the nameless currency which has some amount, if any.
func usedNoName(l *accounting.Ledger) *accounting.Currency {
	for _, t := range l.Transactions {
		for _, s := range t.Splits {
			if s.Value.Amount != 0 && s.Value.Currency != nil && s.Value.Currency.Name == "" {
				return s.Value.Currency
			}
			if v := l.SplitPrices[s]; v.Amount != 0 && v.Currency != nil && v.Currency.Name == "" {
				return v.Currency
			}
		}
	}
	return nil
}

func curStr(c *accounting.Currency, o SnapOpt) string {
	dec := c.Decimal
	if dec == "" {
		dec = "."
	}
	return fmt.Sprintf("%q before %v glued %v thousand %q decimal %q precision %d isin %q", c.Name, c.PrintBefore, c.WithoutSpace, c.Thousand, dec, c.Precision, c.ISIN)
}

// diff returns the first differences between two snapshots ("" if they are equal).
func diff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "<end>", "<end>"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("line %d:\n  < %s\n  > %s", i, x, y)
		}
	}
	return ""
}

// captureLog runs f and returns what the standard logger got.
func captureLog(f func()) string {
	var b bytes.Buffer
	log.SetOutput(&b)
	defer log.SetOutput(ioutil.Discard)
	f()
	return b.String()
}

// OpenText writes a journal file and opens it.
func (c *Ctx) OpenText(name, text string) (*accounting.Ledger, error, string) {
	file := filepath.Join(c.Dir, name)
	if err := ioutil.WriteFile(file, []byte(text), 0o644); err != nil {
		panic(err)
	}
	return openURL("ledger:" + file)
}

func openURL(url string) (l *accounting.Ledger, err error, logged string) {
	logged = captureLog(func() { l, err = accounting.Open(url) })
	return
}

func writeFile(file, text string) {
	os.MkdirAll(filepath.Dir(file), 0o755)
	if err := ioutil.WriteFile(file, []byte(text), 0o644); err != nil {
		panic(err)
	}
}
