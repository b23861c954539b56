package main

// C26: which backend is used, and what is asked to it.

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/cespedes/accounting"
)

// spyCall is a call which reached a backend.
type spyCall struct {
	name string
	args []interface{}
}

// spy is a connection which writes down what is asked to it.
type spy struct {
	calls    []spyCall
	closed   int
	refresh  int
	closeErr error
	// what it answers
	acc  *accounting.Account
	tx   *accounting.Transaction
	txs  []*accounting.Transaction
	err  error
	b    *accounting.Backend
	url  string
	self accounting.Connection
}

func (s *spy) got(name string, args ...interface{}) { s.calls = append(s.calls, spyCall{name, args}) }

type spyBase struct{ *spy }

func (b spyBase) Close() error { b.closed++; return b.closeErr }
func (b spyBase) Refresh()     { b.refresh++ }

type spyAccount struct{ s *spy }

func (x spyAccount) Account(id accounting.ID) *accounting.Account {
	x.s.got("Account", id)
	return x.s.acc
}

type spyInAccount struct{ s *spy }

func (x spyInAccount) TransactionsInAccount(id accounting.ID) []*accounting.Transaction {
	x.s.got("TransactionsInAccount", id)
	return x.s.txs
}

type spyInInterval struct{ s *spy }

func (x spyInInterval) TransactionsInInterval(a, b time.Time) []*accounting.Transaction {
	x.s.got("TransactionsInInterval", a, b)
	return x.s.txs
}

type spyNewAccount struct{ s *spy }

func (x spyNewAccount) NewAccount(a accounting.Account) (*accounting.Account, error) {
	x.s.got("NewAccount", a.ID, a.Name, a.Parent)
	return x.s.acc, x.s.err
}

type spyEditAccount struct{ s *spy }

func (x spyEditAccount) EditAccount(a accounting.Account) (*accounting.Account, error) {
	x.s.got("EditAccount", a.ID, a.Name, a.Parent)
	return x.s.acc, x.s.err
}

type spyNewTransaction struct{ s *spy }

func (x spyNewTransaction) NewTransaction(t accounting.Transaction) (*accounting.Transaction, error) {
	x.s.got("NewTransaction", t.ID, t.Description, len(t.Splits))
	return x.s.tx, x.s.err
}

type spyEditTransaction struct{ s *spy }

func (x spyEditTransaction) EditTransaction(t accounting.Transaction) (*accounting.Transaction, error) {
	x.s.got("EditTransaction", t.ID, t.Description, len(t.Splits))
	return x.s.tx, x.s.err
}

type spyFlush struct{ s *spy }

func (x spyFlush) Flush() error {
	x.s.got("Flush")
	return x.s.err
}

// spies are backends implementing different things.
var spies = []struct {
	has  string
	make func(s *spy) accounting.Connection
}{
	{"", func(s *spy) accounting.Connection { return spyBase{s} }},
	{"Account", func(s *spy) accounting.Connection {
		return struct {
			spyBase
			spyAccount
		}{spyBase{s}, spyAccount{s}}
	}},
	{"TransactionsInAccount", func(s *spy) accounting.Connection {
		return struct {
			spyBase
			spyInAccount
		}{spyBase{s}, spyInAccount{s}}
	}},
	{"TransactionsInInterval", func(s *spy) accounting.Connection {
		return struct {
			spyBase
			spyInInterval
		}{spyBase{s}, spyInInterval{s}}
	}},
	{"NewAccount", func(s *spy) accounting.Connection {
		return struct {
			spyBase
			spyNewAccount
		}{spyBase{s}, spyNewAccount{s}}
	}},
	{"EditAccount", func(s *spy) accounting.Connection {
		return struct {
			spyBase
			spyEditAccount
		}{spyBase{s}, spyEditAccount{s}}
	}},
	{"NewTransaction", func(s *spy) accounting.Connection {
		return struct {
			spyBase
			spyNewTransaction
		}{spyBase{s}, spyNewTransaction{s}}
	}},
	{"EditTransaction", func(s *spy) accounting.Connection {
		return struct {
			spyBase
			spyEditTransaction
		}{spyBase{s}, spyEditTransaction{s}}
	}},
	{"Flush", func(s *spy) accounting.Connection {
		return struct {
			spyBase
			spyFlush
		}{spyBase{s}, spyFlush{s}}
	}},
	{"Account TransactionsInAccount TransactionsInInterval", func(s *spy) accounting.Connection {
		return struct {
			spyBase
			spyAccount
			spyInAccount
			spyInInterval
		}{spyBase{s}, spyAccount{s}, spyInAccount{s}, spyInInterval{s}}
	}},
	{"NewAccount NewTransaction Flush", func(s *spy) accounting.Connection {
		return struct {
			spyBase
			spyNewAccount
			spyNewTransaction
			spyFlush
		}{spyBase{s}, spyNewAccount{s}, spyNewTransaction{s}, spyFlush{s}}
	}},
	{"EditAccount EditTransaction", func(s *spy) accounting.Connection {
		return struct {
			spyBase
			spyEditAccount
			spyEditTransaction
		}{spyBase{s}, spyEditAccount{s}, spyEditTransaction{s}}
	}},
	{"Account TransactionsInAccount TransactionsInInterval NewAccount EditAccount NewTransaction EditTransaction Flush", func(s *spy) accounting.Connection {
		return struct {
			spyBase
			spyAccount
			spyInAccount
			spyInInterval
			spyNewAccount
			spyEditAccount
			spyNewTransaction
			spyEditTransaction
			spyFlush
		}{spyBase{s}, spyAccount{s}, spyInAccount{s}, spyInInterval{s}, spyNewAccount{s}, spyEditAccount{s}, spyNewTransaction{s}, spyEditTransaction{s}, spyFlush{s}}
	}},
}

// spyDriver hands over what it is told to, and writes down how it was opened.
type spyDriver struct{ name string }

var spyMu sync.Mutex
var spyOpened []string
var spyFill func(*accounting.Ledger) error
var spyConn func(b *accounting.Backend, url string) (accounting.Connection, error)

func (d spyDriver) Open(url string, b *accounting.Backend) (accounting.Connection, error) {
	spyMu.Lock()
	defer spyMu.Unlock()
	spyOpened = append(spyOpened, d.name+" "+url)
	if spyFill != nil {
		if err := spyFill(b.Ledger); err != nil {
			return nil, err
		}
	}
	return spyConn(b, url)
}

var spyNames = []string{"spy", "spy2", "spya", "s.p-y+1", "spyledger"}

func init() {
	for _, n := range spyNames {
		accounting.Register(n, spyDriver{n})
	}
}

func sourceOf(r *rand.Rand, scheme string) string {
	return scheme + ":" + pick(r, "", "x", "//host:99/db?user=a&b=%20c#frag", "/tmp/a b", "rel/path.txt", "//user:pw@h/x", "ledger:other", "spy2:inner", "é/%C3%A9", "?q", "///abs", "..", "opaque+stuff,1")
}

func backendCase(c *Ctx) {
	r := c.R
	o := fullOpt()
	o.MaxTx = 6
	j := GenJournal(r, o)
	kind := spies[r.Intn(len(spies))]
	s := &spy{acc: &accounting.Account{Name: "sentinel"}, tx: &accounting.Transaction{Description: "sentinel"}}
	s.txs = []*accounting.Transaction{s.tx, {Description: "another"}}
	if chance(r, 30) {
		s.acc, s.tx = nil, nil
	}
	if chance(r, 30) {
		s.txs = nil
	}
	if chance(r, 40) {
		s.err = anyError(r, "the backend says no")
	}
	if chance(r, 50) {
		s.closeErr = anyError(r, "can not close")
	}
	name := spyNames[r.Intn(len(spyNames))]
	src := sourceOf(r, name)
	c.Input("source", src)
	c.Input("facts", describe(j))
	printable(j)
	refuse := chance(r, 15)
	failure := anyError(r, "the backend can not be opened")
	var theirs *accounting.Ledger
	spyOpened = nil
	spyFill = func(l *accounting.Ledger) error {
		theirs = l
		BuildRaw(r, j, l, RawOpt{})
		return nil
	}
	spyConn = func(b *accounting.Backend, url string) (accounting.Connection, error) {
		s.b, s.url = b, url
		if refuse {
			return kind.make(s), failure
		}
		return kind.make(s), nil
	}
	l, err := accounting.Open(src)
	c.Distinct(kind.has, src, describe(j))
	c.Count("opened", 1)
	if len(spyOpened) != 1 || spyOpened[0] != name+" "+src {
		c.Fail("opening %q asked %q", src, spyOpened)
		return
	}
	if refuse {
		c.Count("refused_by_the_backend", 1)
		if !errors.Is(err, failure) || l != nil {
			c.Fail("the backend fails with %v, but opening gives %v, %v", failure, l != nil, err)
		}
		return
	}
	if err != nil || l == nil {
		c.Fail("a correct ledger is refused: %v", err)
		return
	}
	if l != theirs {
		c.Fail("the ledger is not the one of the backend")
		return
	}
	before := Snapshot(l, SnapOpt{})
	has := func(n string) bool { return strings.Contains(" "+kind.has+" ", " "+n+" ") }
	// what reached the backend since the last question
	expect := func(n string, args ...interface{}) bool {
		calls := s.calls
		s.calls = nil
		if !has(n) {
			c.Count("answered_by_the_ledger", 1)
			if len(calls) != 0 {
				c.Fail("%s reaches the backend as %v", n, calls)
			}
			return false
		}
		c.Count("answered_by_the_backend", 1)
		c.Count("backend_"+n, 1)
		if len(calls) != 1 || calls[0].name != n || fmt.Sprint(calls[0].args...) != fmt.Sprint(args...) {
			c.Fail("%s %v reaches the backend as %v", n, args, calls)
			return true
		}
		for i := range args {
			if calls[0].args[i] != args[i] {
				c.Fail("%s: argument %d is not the same", n, i)
			}
		}
		return true
	}
	var someID accounting.ID = rawID("unknown")
	var someAcc *accounting.Account
	if len(l.Accounts) > 0 && chance(r, 80) {
		someAcc = l.Accounts[r.Intn(len(l.Accounts))]
		someID = someAcc.ID
	}
	sameTxs := func(a, b []*accounting.Transaction) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	steps := []func(){
		func() {
			got := l.Account(someID)
			if expect("Account", someID) {
				if got != s.acc {
					c.Fail("Account does not give what the backend says")
				}
				return
			}
			var want *accounting.Account
			for _, a := range l.Accounts {
				if a.ID == someID && want == nil {
					want = a
				}
			}
			if got != want {
				c.Fail("Account gives another account")
			}
		},
		func() {
			got := l.TransactionsInAccount(someID)
			if expect("TransactionsInAccount", someID) {
				if !sameTxs(got, s.txs) {
					c.Fail("TransactionsInAccount does not give what the backend says")
				}
				return
			}
			var want []*accounting.Transaction
			for _, t := range l.Transactions {
				for _, p := range t.Splits {
					if p.Account.ID == someID {
						want = append(want, t)
						break
					}
				}
			}
			if !sameTxs(got, want) {
				c.Fail("TransactionsInAccount gives other transactions")
			}
		},
		func() {
			a := time.Unix(r.Int63n(2000000000), r.Int63n(1000)).In(time.FixedZone("X", 3600))
			b := a.AddDate(r.Intn(20)-2, 0, 0)
			if len(l.Transactions) > 0 && chance(r, 50) {
				a = l.Transactions[r.Intn(len(l.Transactions))].Time
			}
			got := l.TransactionsInInterval(a, b)
			if expect("TransactionsInInterval", a, b) {
				if !sameTxs(got, s.txs) {
					c.Fail("TransactionsInInterval does not give what the backend says")
				}
				return
			}
			var want []*accounting.Transaction
			for _, t := range l.Transactions {
				if !t.Time.Before(a) && !t.Time.After(b) {
					want = append(want, t)
				}
			}
			if !sameTxs(got, want) {
				c.Fail("TransactionsInInterval gives other transactions")
			}
		},
		func() {
			for _, n := range []string{"NewAccount", "EditAccount"} {
				a := accounting.Account{ID: someID, Name: n + " x", Parent: someAcc}
				f := l.NewAccount
				if n == "EditAccount" {
					f = l.EditAccount
				}
				got, err := f(a)
				if expect(n, a.ID, a.Name, a.Parent) {
					if got != s.acc || err != s.err {
						c.Fail("%s does not give what the backend says", n)
					}
				} else if err == nil || got != nil {
					c.Fail("%s succeeds, but the backend can not do it", n)
				}
			}
		},
		func() {
			for _, n := range []string{"NewTransaction", "EditTransaction"} {
				t := accounting.Transaction{ID: someID, Description: n + " x", Splits: make([]*accounting.Split, r.Intn(3))}
				f := l.NewTransaction
				if n == "EditTransaction" {
					f = l.EditTransaction
				}
				got, err := f(t)
				if expect(n, t.ID, t.Description, len(t.Splits)) {
					if got != s.tx || err != s.err {
						c.Fail("%s does not give what the backend says", n)
					}
				} else if err == nil || got != nil {
					c.Fail("%s succeeds, but the backend can not do it", n)
				}
			}
		},
		func() {
			err := l.Flush()
			if expect("Flush") {
				if err != s.err {
					c.Fail("Flush gives %v, the backend %v", err, s.err)
				}
			} else if err != nil {
				c.Fail("Flush fails without any backend for it: %v", err)
			}
		},
		func() {
			n := s.refresh
			l.Refresh()
			if s.refresh != n+1 {
				c.Fail("Refresh reaches the backend %d times", s.refresh-n)
			}
		},
	}
	for k := 0; k < 10; k++ {
		steps[r.Intn(len(steps))]()
	}
	if d := diff(before, Snapshot(l, SnapOpt{})); d != "" {
		c.Fail("asking changed the ledger: %s", d)
	}
	if err := l.Close(); err != s.closeErr || s.closed != 1 {
		c.Fail("Close gives %v after %d calls, the backend says %v", err, s.closed, s.closeErr)
	}
	// names nobody has
	if c.Index%8 == 0 {
		spyOpened = nil
		for _, n := range []string{"spy3", "sp", "spyy", "nobody", "ledgerx", "postgres2"} {
			l, err := accounting.Open(sourceOf(r, n))
			c.Count("unknown_schemes", 1)
			if err == nil || l != nil || len(spyOpened) > 0 {
				c.Fail("backend %q, which does not exist: %v %v %v", n, l != nil, err, spyOpened)
			}
		}
	}
	if c.Index%3 == 0 {
		registerAgain(c, name)
	}
	if c.Index%40 == 0 {
		registry(c)
	}
}

func panics(f func()) (yes bool) {
	defer func() { yes = recover() != nil }()
	f()
	return
}

// registerAgain: a name which is taken, and no backend at all.
func registerAgain(c *Ctx, name string) {
	r := c.R
	if !panics(func() { accounting.Register(name, spyDriver{"impostor"}) }) {
		c.Fail("registering %q twice does not panic", name)
	}
	other := fmt.Sprintf("later%d", c.Index)
	if !panics(func() { accounting.Register(pick(r, other, name), nil) }) {
		c.Fail("registering no backend does not panic")
	}
	c.Count("wrong_registrations", 2)
	spyOpened, spyFill = nil, nil
	spyConn = func(*accounting.Backend, string) (accounting.Connection, error) { return spyBase{&spy{}}, nil }
	if l, err := accounting.Open(name + ":y"); err != nil || l == nil || len(spyOpened) != 1 || spyOpened[0] != name+" "+name+":y" {
		c.Fail("after registering %q twice, opening it asks %q (%v)", name, spyOpened, err)
	}
	spyOpened = nil
	if l, err := accounting.Open(other + ":y"); err == nil || l != nil {
		c.Fail("after registering no backend as %q, it can be opened", other)
	}
	if panics(func() { accounting.Register(other, spyDriver{other}) }) {
		c.Fail("after registering no backend as %q, it can not be registered", other)
	}
	if l, err := accounting.Open(other + ":y"); err != nil || l == nil || len(spyOpened) != 1 || spyOpened[0] != other+" "+other+":y" {
		c.Fail("opening %q, just registered, asks %q (%v)", other, spyOpened, err)
	}
}

// registry: registering and opening in a process of its own, where nothing is registered.
func registry(c *Ctx) {
	r := c.R
	names := []string{"ledger", "txtdb", "postgres", "aaa", "zzz"}
	order := map[string]int{}
	fails := map[string]bool{}
	var args, want []string
	for k := 0; k < 14; k++ {
		n := names[r.Intn(len(names))]
		a := pick(r, "reg:", "reg:", "open:", "open:", "open:", "nil:", "fail:") + n
		if strings.HasPrefix(a, "open:") {
			src := pick(r, "file", "/abs/file", "a b", "dir/x.y", n+":x", n+":x", "unknown:x", "", "é", pick(r, "x", "C", "é", "ledgers", "txtd", "ledger ", "http", "file", randWord(r, 1+r.Intn(6)))+":"+pick(r, "x", "", ":", "a b"))
			a = "open:" + src
			b := ""
			if i := strings.Index(src, ":"); i >= 0 {
				if b = src[:i]; order[b] == 0 {
					b = ""
				}
			} else {
				for _, d := range names[:3] {
					if order[d] != 0 && b == "" {
						b = d
					}
				}
			}
			if b == "" {
				want = append(want, a+": ledger=false error=true")
			} else {
				want = append(want, fmt.Sprintf("%s: %s#%d(%s) ledger=%v error=%v", a, b, order[b]-1, src, !fails[b], fails[b]))
			}
		} else if strings.HasPrefix(a, "nil:") || order[n] != 0 {
			want = append(want, a+": panic")
		} else {
			want = append(want, a+": done")
			order[n] = k + 1
			fails[n] = strings.HasPrefix(a, "fail:")
		}
		args = append(args, a)
	}
	out, errs, rc := c.runCmd("regprobe", nil, args...)
	c.Count("registries", 1)
	c.Distinct(args)
	if w := strings.Join(want, "\n") + "\n"; out != w || rc != 0 {
		c.Fail("registering and opening %q gives\n%s%s\nshould give\n%s", args, out, errs, w)
	}
}

func init() {
	register(&Prop{ID: "C26", Quick: 40000, Thorough: 400000,
		Rule:  "backends implementing different operations, asked through the ledger, and sequences of registrations and openings in fresh processes; distinct by backend, data source and content",
		Needs: []string{"opened", "refused_by_the_backend", "answered_by_the_ledger", "answered_by_the_backend", "backend_Account", "backend_TransactionsInAccount", "backend_TransactionsInInterval", "backend_NewAccount", "backend_EditAccount", "backend_NewTransaction", "backend_EditTransaction", "backend_Flush", "unknown_schemes", "wrong_registrations", "registries"},
		Run:   backendCase})
}

// anyError returns an error, maybe one some code could think it knows.
func anyError(r *rand.Rand, text string) error {
	switch r.Intn(8) {
	case 0:
		return io.EOF
	case 1:
		return os.ErrNotExist
	case 2:
		return &os.PathError{Op: "open", Path: text, Err: os.ErrNotExist}
	case 3:
		return errors.New(pick(r, "unimplemented", "not implemented", "unsupported", "not found", "closed", "no such file or directory", "EOF", "invalid argument", "timeout", ""))
	case 4:
		return os.ErrClosed
	case 5:
		return fmt.Errorf("%s: %w", text, io.ErrUnexpectedEOF)
	}
	return errors.New(text)
}
