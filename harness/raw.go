package main

// A backend of our own, to hand over raw transactions without any text in between.

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/cespedes/accounting"
)

type rawID string

func (i rawID) String() string { return string(i) }

type rawDriver struct{}

type rawConn struct{ closed, refreshed int }

func (c *rawConn) Close() error { c.closed++; return nil }
func (c *rawConn) Refresh()     { c.refreshed++ }

var (
	rawMu   sync.Mutex
	rawFill = map[string]func(*accounting.Ledger) error{}
	rawN    int
)

func (rawDriver) Open(url string, b *accounting.Backend) (accounting.Connection, error) {
	rawMu.Lock()
	f := rawFill[url]
	rawMu.Unlock()
	if f == nil {
		return nil, fmt.Errorf("vraw: no such ledger %q", url)
	}
	if err := f(b.Ledger); err != nil {
		return nil, err
	}
	return &rawConn{}, nil
}

func init() { accounting.Register("vraw", rawDriver{}) }

// openRaw opens a ledger filled by f.
func openRaw(f func(*accounting.Ledger) error) (*accounting.Ledger, error) {
	rawMu.Lock()
	rawN++
	url := fmt.Sprintf("vraw:%d", rawN)
	rawFill[url] = f
	rawMu.Unlock()
	defer func() {
		rawMu.Lock()
		delete(rawFill, url)
		rawMu.Unlock()
	}()
	return accounting.Open(url)
}

// RawOpt chooses how a journal is handed over.
type RawOpt struct {
	ShuffleAccounts bool // accounts in any order, children before parents included
	ShuffleTx       bool // transactions in any order, except those of the same moment
	NoMaps          bool // leave the maps nil when they would be empty
}

// RawMap relates the ground truth and what was handed over.
type RawMap struct {
	Cur  map[*Cur]*accounting.Currency
	Acc  map[string]*accounting.Account
	Tx   map[*Tx]*accounting.Transaction
	Post map[*Post]*accounting.Split
}

// BuildRaw fills a ledger with a journal as a backend would.
func BuildRaw(r *rand.Rand, j *Journal, l *accounting.Ledger, o RawOpt) *RawMap {
	m := &RawMap{map[*Cur]*accounting.Currency{}, map[string]*accounting.Account{}, map[*Tx]*accounting.Transaction{}, map[*Post]*accounting.Split{}}
	for _, c := range j.Curs {
		x := &accounting.Currency{Name: c.Name, PrintBefore: c.F.Before, WithoutSpace: c.F.Glued, Thousand: c.F.Tho, Decimal: c.F.Dec, Precision: c.F.Prec, ISIN: c.ISIN}
		m.Cur[c] = x
		if c.Name != "" {
			l.Currencies = append(l.Currencies, x)
		}
	}
	if j.Default != nil {
		l.DefaultCurrency = m.Cur[j.Default]
	} else if j.NoName != nil {
		l.DefaultCurrency = m.Cur[j.NoName]
	}
	l.Comments = map[interface{}][]string{}
	l.Assertions = map[*accounting.Split]accounting.Value{}
	l.SplitPrices = map[*accounting.Split]accounting.Value{}
	names := j.Names()
	for i, n := range names {
		m.Acc[n] = &accounting.Account{ID: rawID(fmt.Sprintf("a%d", i))}
	}
	for _, n := range names {
		a := m.Acc[n]
		if k := strings.LastIndexByte(n, ':'); k >= 0 {
			a.Name = n[k+1:]
			a.Parent = m.Acc[n[:k]]
		} else {
			a.Name = n
		}
		l.Accounts = append(l.Accounts, a)
	}
	for _, d := range j.Accs {
		m.Acc[d.Name].Code = d.Code
		if len(d.Comments) > 0 {
			l.Comments[m.Acc[d.Name]] = append([]string(nil), d.Comments...)
		}
	}
	if o.ShuffleAccounts {
		r.Shuffle(len(l.Accounts), func(i, k int) { l.Accounts[i], l.Accounts[k] = l.Accounts[k], l.Accounts[i] })
	}
	txs := append([]*Tx(nil), j.Txs...)
	if o.ShuffleTx {
		perm := map[int64]int{}
		for _, t := range txs {
			if _, ok := perm[t.T.UnixNano()]; !ok {
				perm[t.T.UnixNano()] = r.Intn(1000000)
			}
		}
		stableBy(txs, func(a, b *Tx) bool { return perm[a.T.UnixNano()] < perm[b.T.UnixNano()] })
	}
	val := func(a Amt) accounting.Value { return accounting.Value{Amount: a.A, Currency: m.Cur[a.C]} }
	for _, t := range txs {
		x := &accounting.Transaction{ID: rawID(fmt.Sprintf("t%d", t.num)), Time: t.T, Description: t.Desc}
		m.Tx[t] = x
		if len(t.Comments) > 0 {
			l.Comments[x] = append([]string(nil), t.Comments...)
		}
		for _, p := range t.Posts {
			s := &accounting.Split{ID: rawID(fmt.Sprintf("s%d.%d", t.num, p.idx)), Account: m.Acc[p.Acc]}
			m.Post[p] = s
			if !p.Elided {
				s.Value = val(p.V)
			}
			if p.Date != nil {
				s.Time = new(time.Time)
				*s.Time = *p.Date
			}
			if p.PriceK != noPrice {
				l.SplitPrices[s] = val(p.Total)
			}
			if p.Assert != nil {
				l.Assertions[s] = val(*p.Assert)
			}
			if len(p.Comments) > 0 {
				l.Comments[s] = append([]string(nil), p.Comments...)
			}
			x.Splits = append(x.Splits, s)
		}
		l.Transactions = append(l.Transactions, x)
	}
	for i, p := range j.Prices {
		x := &accounting.Price{ID: rawID(fmt.Sprintf("p%d", i)), Time: p.T, Currency: m.Cur[p.C], Value: val(p.V)}
		l.Prices = append(l.Prices, x)
		if len(p.Comments) > 0 {
			l.Comments[x] = append([]string(nil), p.Comments...)
		}
	}
	if o.NoMaps {
		if len(l.Comments) == 0 {
			l.Comments = nil
		}
		if len(l.Assertions) == 0 {
			l.Assertions = nil
		}
		if len(l.SplitPrices) == 0 {
			l.SplitPrices = nil
		}
	}
	return m
}

func stableBy(t []*Tx, less func(a, b *Tx) bool) {
	for i := 1; i < len(t); i++ {
		for k := i; k > 0 && less(t[k], t[k-1]); k-- {
			t[k], t[k-1] = t[k-1], t[k]
		}
	}
}

// openJournalRaw opens a journal handed over raw.
func openJournalRaw(r *rand.Rand, j *Journal, o RawOpt) (*accounting.Ledger, *RawMap, error) {
	var m *RawMap
	l, err := openRaw(func(l *accounting.Ledger) error {
		m = BuildRaw(r, j, l, o)
		return nil
	})
	return l, m, err
}

// describe writes a journal as plain facts, for replay files.
func describe(j *Journal) string {
	var b strings.Builder
	for _, t := range j.Txs {
		fmt.Fprintf(&b, "tx %d %s %q\n", t.num, tm(t.T), t.Desc)
		for _, p := range t.Posts {
			fmt.Fprintf(&b, "  %s  %s", p.Acc, p.V)
			if p.Elided {
				b.WriteString(" (omitted)")
			}
			if p.PriceK != noPrice {
				fmt.Fprintf(&b, " @@ %s", p.Total)
			}
			if p.Assert != nil {
				fmt.Fprintf(&b, " = %s", *p.Assert)
			}
			if p.Date != nil {
				fmt.Fprintf(&b, " date %s", tm(*p.Date))
			}
			b.WriteByte('\n')
		}
	}
	for _, p := range j.Prices {
		fmt.Fprintf(&b, "P %s %s %s\n", tm(p.T), p.C.Name, p.V)
	}
	return b.String()
}
