package main

// C08 (printing and reading back), C09 (clones), C12 (always the same), C13 (independence, also concurrent).

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/cespedes/accounting"
	backend "github.com/cespedes/accounting/backend/ledger"
)

func export(l *accounting.Ledger) string {
	var b bytes.Buffer
	backend.Export(&b, l)
	return b.String()
}

// runCmd runs one of the built commands; a run which never ends is reported as such.
func (c *Ctx) runCmd(name string, env []string, args ...string) (stdout, stderr string, rc int) {
	return c.runCmdIn("", name, env, args...)
}

func (c *Ctx) runCmdIn(dir, name string, env []string, args ...string) (stdout, stderr string, rc int) {
	return c.runCmdWith(dir, "", name, env, args...)
}

func (c *Ctx) runCmdInput(input, name string, env []string, args ...string) (stdout, stderr string, rc int) {
	return c.runCmdWith("", input, name, env, args...)
}

func (c *Ctx) runCmdWith(dir, input, name string, env []string, args ...string) (stdout, stderr string, rc int) {
	cmd := exec.Command(filepath.Join(c.Bin, name), args...)
	if input != "" {
		cmd.Stdin = strings.NewReader(input)
	}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &limited{b: &o}, &limited{b: &e}
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "TZ=UTC", "GOMAXPROCS=1", "HOME=/nonexistent", "TERM=dumb"}, env...)
	cmd.Dir = dir
	if err := cmd.Start(); err != nil {
		panic("could not run " + name + ": " + err.Error())
	}
	var late int32
	timer := time.AfterFunc(120*time.Second, func() {
		atomic.StoreInt32(&late, 1)
		cmd.Process.Kill()
	})
	err := cmd.Wait()
	timer.Stop()
	if err != nil {
		var x *exec.ExitError
		if !errors.As(err, &x) {
			panic("could not run " + name + ": " + err.Error())
		}
		rc = x.ExitCode()
	}
	if atomic.LoadInt32(&late) != 0 {
		if cmd.ProcessState.UserTime() > 30*time.Second {
			c.Fail("%s %v does not end", name, args)
		} else {
			panic("inconclusive: " + name + " was too slow")
		}
	}
	c.Count("commands_run", 1)
	return o.String(), e.String(), rc
}

// complaints returns the lines of a log which are not just about things being used without being declared.
func complaints(logged string) []string {
	var res []string
	for _, s := range strings.Split(logged, "\n") {
		if s != "" && !strings.Contains(s, "undefined account") && !strings.Contains(s, "undefined currency") {
			res = append(res, s)
		}
	}
	return res
}

// printable changes a journal handed over raw so that its currencies can be expressed in a journal.
func printable(j *Journal) {
	for _, c := range j.Curs {
		if c.F.Prec == 0 && c.F.Tho == "" {
			c.F.Dec = "." // nothing written could tell
		}
	}
}

func roundTrip(c *Ctx, what string, l *accounting.Ledger) {
	first := Snapshot(l, SnapOpt{RoundTrip: true})
	text := export(l)
	prev := ""
	for k := 1; k <= 3; k++ {
		c.Input(fmt.Sprintf("printed %d (%s)", k, what), text)
		l2, err, logged := c.OpenText(fmt.Sprintf("printed%d.ledger", k), text)
		if err != nil {
			c.Fail("what was printed (%s) is refused: %v", what, err)
			return
		}
		for _, s := range complaints(logged) {
			c.Fail("complaint reading what was printed (%s): %s", what, s)
			return
		}
		c.Count("round_trips", 1)
		if d := diff(first, Snapshot(l2, SnapOpt{RoundTrip: true})); d != "" {
			c.Fail("printed and read back %d times (%s) is different: %s", k, what, d)
			return
		}
		prev = text
		text = export(l2)
	}
	if text != prev {
		c.Fail("printing again and again (%s) does not settle:\n%s\n---\n%s", what, prev, text)
	}
}

func printCase(c *Ctx) {
	o := fullOpt()
	o.Big = chance(c.R, 15)
	j := GenJournal(c.R, o)
	if chance(c.R, 4) { // what is known before anything happens
		j.Txs = nil
		if chance(c.R, 50) {
			j.Prices = nil
		}
		c.Count("without_transactions", 1)
	}
	w := WriteJournal(c.R, j)
	c.Input("journal", w.Text())
	l, err, _ := c.OpenText("j.ledger", w.Text())
	if err != nil {
		c.Fail("a correct journal is refused: %v", err)
		return
	}
	roundTrip(c, "journal", l)
	if c.Failed() {
		return
	}
	if c.Index%12 == 0 {
		out, stderr, rc := c.runCmd("ledger", nil, "-f", filepath.Join(c.Dir, "j.ledger"), "print")
		if rc != 0 {
			c.Fail("print fails: %s", stderr)
		} else if out != export(l) {
			l2, err, logged := c.OpenText("cli.ledger", out)
			if err != nil || len(complaints(logged)) > 0 {
				c.Fail("the output of print is refused: %v %s", err, logged)
			} else if d := diff(Snapshot(l, SnapOpt{RoundTrip: true}), Snapshot(l2, SnapOpt{RoundTrip: true})); d != "" {
				c.Fail("the output of print is different: %s", d)
			}
		}
		c.Count("cli_prints", 1)
	}
	printable(j)
	l, _, err = openJournalRaw(c.R, j, RawOpt{ShuffleAccounts: chance(c.R, 50), NoMaps: chance(c.R, 50)})
	if err != nil {
		c.Fail("a correct journal is refused: %v", err)
		return
	}
	c.Input("facts", describe(j))
	roundTrip(c, "raw", l)
	c.Distinct(describe(j))
	c.Sample("%s", export(l))
}

// pair walks an original and its clone at the same time.
type pair struct {
	to, from map[uintptr]uintptr
	extent   [][2]uintptr // memory of the slices of the original
	cloned   [][2]uintptr
	n        int
	err      string
}

var timeType = reflect.TypeOf(time.Time{})
var connType = reflect.TypeOf((*accounting.Connection)(nil)).Elem()
var idType = reflect.TypeOf((*accounting.ID)(nil)).Elem()

func (w *pair) fail(path, format string, args ...interface{}) {
	if w.err == "" {
		w.err = path + ": " + fmt.Sprintf(format, args...)
	}
}

func (w *pair) ptr(path string, a, b reflect.Value) (again bool) {
	x, y := a.Pointer(), b.Pointer()
	if x == 0 || y == 0 {
		if x != y {
			w.fail(path, "present in just one of them")
		}
		return true
	}
	if x == y {
		w.fail(path, "the clone shares it with the original")
		return true
	}
	p, ok := w.to[x]
	q, ok2 := w.from[y]
	if ok != ok2 || ok && (p != y || q != x) {
		w.fail(path, "not shared in the same way")
		return true
	}
	if ok {
		return true
	}
	w.to[x], w.from[y] = y, x
	w.n++
	return false
}

func (w *pair) walk(path string, a, b reflect.Value) {
	if w.err != "" {
		return
	}
	if a.Type() != b.Type() {
		w.fail(path, "different type")
		return
	}
	if a.Type() == timeType {
		s, t := a.Interface().(time.Time), b.Interface().(time.Time)
		if !s.Equal(t) || s.String() != t.String() {
			w.fail(path, "%s is %s in the clone", s, t)
		}
		return
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.Type().Elem() == timeType {
			// whether two postings with their own dates share the same variable means nothing
			if (a.Pointer() == 0) != (b.Pointer() == 0) {
				w.fail(path, "present in just one of them")
			} else if a.Pointer() != 0 && a.Pointer() == b.Pointer() {
				w.fail(path, "the clone shares it with the original")
			} else if a.Pointer() != 0 {
				w.walk(path, a.Elem(), b.Elem())
			}
			return
		}
		if !w.ptr(path, a, b) {
			w.walk(path, a.Elem(), b.Elem())
		}
	case reflect.Struct:
		var order, maps []int // the keys of the maps are mostly reachable otherwise
		for i := 0; i < a.NumField(); i++ {
			if a.Field(i).Kind() == reflect.Map {
				maps = append(maps, i)
			} else {
				order = append(order, i)
			}
		}
		for _, i := range append(order, maps...) {
			f := a.Type().Field(i)
			if f.PkgPath != "" || f.Type == connType || f.Type == idType {
				if f.Type == idType && a.Field(i).Interface() != b.Field(i).Interface() {
					w.fail(path+"."+f.Name, "different identifier")
				}
				continue
			}
			w.walk(path+"."+f.Name, a.Field(i), b.Field(i))
		}
	case reflect.Slice:
		if a.Len() != b.Len() {
			w.fail(path, "%d elements, %d in the clone", a.Len(), b.Len())
			return
		}
		size := a.Type().Elem().Size()
		if a.Cap() > 0 {
			w.extent = append(w.extent, [2]uintptr{a.Pointer(), a.Pointer() + uintptr(a.Cap())*size})
		}
		if b.Cap() > 0 {
			w.cloned = append(w.cloned, [2]uintptr{b.Pointer(), b.Pointer() + uintptr(b.Cap())*size})
		}
		for i := 0; i < a.Len(); i++ {
			w.walk(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i))
		}
	case reflect.Map:
		if a.Len() > 0 && a.Pointer() == b.Pointer() {
			w.fail(path, "the clone shares it with the original")
			return
		}
		if a.Len() != b.Len() {
			w.fail(path, "%d elements, %d in the clone", a.Len(), b.Len())
			return
		}
		// by the key in the clone which corresponds to each key of the original
		keys := map[uintptr]reflect.Value{}
		for _, k := range b.MapKeys() {
			if k.Kind() == reflect.Interface {
				k = k.Elem()
			}
			if k.Kind() == reflect.Ptr {
				keys[k.Pointer()] = k
			}
		}
		for _, k := range a.MapKeys() {
			if k.Kind() == reflect.Interface {
				k = k.Elem()
			}
			if k.Kind() != reflect.Ptr {
				w.walk(path, a.MapIndex(k), b.MapIndex(k))
				continue
			}
			q, ok := keys[w.to[k.Pointer()]]
			if cu, is := k.Interface().(*accounting.Currency); is && w.to[k.Pointer()] == 0 {
				// used nowhere else
				for _, x := range keys {
					if cv, is := x.Interface().(*accounting.Currency); is && cv != nil && cv.Name == cu.Name && w.from[x.Pointer()] == 0 {
						q, ok = x, true
						w.walk(path+"{key}", k, x)
					}
				}
			}
			if !ok {
				w.fail(path, "the clone has nothing for %s", k.Type())
				return
			}
			w.walk(path+"{}", a.MapIndex(k), b.MapIndex(q))
		}
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				w.fail(path, "present in just one of them")
			}
			return
		}
		w.walk(path, a.Elem(), b.Elem())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
	default:
		if a.Interface() != b.Interface() {
			w.fail(path, "%v is %v in the clone", a.Interface(), b.Interface())
		}
	}
}

func sameShape(a, b *accounting.Ledger) (string, int) {
	w := &pair{to: map[uintptr]uintptr{}, from: map[uintptr]uintptr{}}
	w.walk("ledger", reflect.ValueOf(a), reflect.ValueOf(b))
	if w.err == "" {
		for y := range w.from {
			if _, ok := w.to[y]; ok {
				w.fail("ledger", "something of the original is reachable from the clone")
			}
		}
		all := append([][2]uintptr(nil), w.extent...)
		sort.Slice(all, func(i, j int) bool { return all[i][0] < all[j][0] })
		for _, y := range w.cloned {
			i := sort.Search(len(all), func(i int) bool { return all[i][1] > y[0] })
			if i < len(all) && all[i][0] < y[1] {
				w.fail("ledger", "a list of the clone shares memory with the original")
			}
		}
	}
	if w.err == "" {
		for i, t := range a.Transactions {
			for k, s := range t.Splits {
				if (s.Time == &t.Time) != (b.Transactions[i].Splits[k].Time == &b.Transactions[i].Time) {
					w.fail(fmt.Sprintf("transaction %d posting %d", i, k), "its date does not follow its transaction's as in the original")
				}
			}
		}
		x, y := a.TransferAccount(), b.TransferAccount()
		if (x == nil) != (y == nil) {
			w.fail("ledger", "the transfer account is lost")
		} else if x != nil && x == y {
			w.fail("ledger", "the transfer account is shared")
		}
		for i := range a.Accounts {
			if (a.Accounts[i] == x) != (b.Accounts[i] == y) {
				w.fail("ledger", "the transfer account is another one")
			}
		}
	}
	return w.err, w.n
}

// reports gives everything a ledger answers.
func reports(l *accounting.Ledger, ms []time.Time) string {
	var b strings.Builder
	b.WriteString(export(l))
	cs := append([]*accounting.Currency(nil), l.Currencies...)
	for _, a := range l.Accounts {
		fmt.Fprintf(&b, "%s: %v\n", a.FullName(), l.GetBalance(a, time.Time{}))
		for _, t := range ms {
			fmt.Fprintf(&b, " %v", l.GetBalance(a, t))
		}
		fmt.Fprintf(&b, "\n %d\n", len(l.TransactionsInAccount(a.ID)))
	}
	for _, x := range cs {
		for _, y := range cs {
			for _, t := range ms {
				v, err := l.Convert(accounting.Value{Amount: 12345678912, Currency: x}, t, y)
				fmt.Fprintf(&b, "%s -> %s: %s %v\n", x.Name, y.Name, v.FullString(), err)
			}
		}
	}
	for i := 1; i < len(ms); i++ {
		fmt.Fprintf(&b, "%d ", len(l.TransactionsInInterval(ms[i-1], ms[i])))
	}
	return b.String()
}

// spoil changes everything it can in a ledger.
func spoil(r *rand.Rand, l *accounting.Ledger) {
	if l.Comments == nil {
		l.Comments = map[interface{}][]string{}
	}
	if l.Assertions == nil {
		l.Assertions = map[*accounting.Split]accounting.Value{}
	}
	if l.SplitPrices == nil {
		l.SplitPrices = map[*accounting.Split]accounting.Value{}
	}
	extra := &accounting.Currency{Name: "SPOIL"}
	for _, a := range l.Accounts {
		a.Name += "x"
		a.Code = "spoiled"
		a.Level += 7
		a.StartBalance = append(a.StartBalance, accounting.Value{Amount: 1, Currency: extra})
		a.Splits = append(a.Splits, nil)[1:]
		a.Children = append(a.Children, a)
		if len(a.Children) > 1 {
			a.Children[0] = a
		}
		l.Comments[a] = append(l.Comments[a], "spoiled")
	}
	for i, t := range l.Transactions {
		t.Description += " spoiled"
		t.Time = t.Time.Add(time.Hour)
		for _, s := range t.Splits {
			s.Value.Amount += 5
			*s.Time = s.Time.Add(time.Minute)
			if len(s.Balance) > 0 {
				s.Balance[0].Amount++
				s.Balance[0].Currency = extra
			}
			s.Balance = append(s.Balance, accounting.Value{Amount: 9, Currency: extra})
			if v, ok := l.Assertions[s]; ok {
				v.Amount++
				l.Assertions[s] = v
			}
			l.SplitPrices[s] = accounting.Value{Amount: 3, Currency: extra}
			l.Comments[s] = append(l.Comments[s], "spoiled")
			if len(l.Comments[s]) > 1 {
				l.Comments[s][0] = "spoiled"
			}
		}
		if len(t.Splits) > 0 {
			t.Splits[0] = t.Splits[len(t.Splits)-1]
			t.Splits = append(t.Splits, t.Splits[0])
		}
		l.Comments[t] = append(l.Comments[t], "spoiled")
		if i == 0 && len(l.Transactions) > 1 {
			l.Transactions[0] = l.Transactions[1]
		}
	}
	spoiled := map[*accounting.Currency]bool{nil: true, extra: true}
	spoilCur := func(c *accounting.Currency) {
		if spoiled[c] {
			return
		}
		spoiled[c] = true
		c.Name += "x"
		c.Precision = (c.Precision + 1) % 8
		c.Thousand, c.Decimal = "#", "%"
		c.PrintBefore = !c.PrintBefore
	}
	for _, c := range l.Currencies {
		spoilCur(c)
	}
	spoilCur(l.DefaultCurrency)
	// those which are not listed, too
	for _, a := range l.Accounts {
		for _, v := range a.StartBalance {
			spoilCur(v.Currency)
		}
	}
	for _, t := range l.Transactions {
		for _, s := range t.Splits {
			spoilCur(s.Value.Currency)
			for _, v := range s.Balance {
				spoilCur(v.Currency)
			}
		}
	}
	for _, v := range l.Assertions {
		spoilCur(v.Currency)
	}
	for _, v := range l.SplitPrices {
		spoilCur(v.Currency)
	}
	for _, p := range l.Prices {
		spoilCur(p.Currency)
		spoilCur(p.Value.Currency)
	}
	l.DefaultCurrency = extra
	for _, p := range l.Prices {
		p.Time = p.Time.Add(time.Second)
		p.Value.Amount += 7
		l.Comments[p] = append(l.Comments[p], "spoiled")
		if len(l.Comments[p]) > 0 {
			l.Comments[p][0] = "spoiled"
		}
	}
	if len(l.Prices) > 0 {
		l.Prices[0] = l.Prices[len(l.Prices)-1]
	}
	l.Accounts = append(l.Accounts, &accounting.Account{Name: "spoil"})
	l.Currencies = append(l.Currencies, extra)
	for k := range l.Comments {
		if len(l.Comments[k]) > 0 {
			l.Comments[k][0] = "spoiled"
		}
	}
	for k := range l.Assertions {
		delete(l.Assertions, k)
	}
}

// appendAll grows every list in place, to write past its end if memory is shared.
func appendAll(l *accounting.Ledger) {
	_ = append(l.Accounts, nil)
	_ = append(l.Transactions, nil)
	_ = append(l.Currencies, nil)
	_ = append(l.Prices, nil)
	for _, a := range l.Accounts {
		_ = append(a.Children, nil)
		_ = append(a.Splits, nil)
	}
}

func cloneCase(c *Ctx) {
	o := fullOpt()
	o.MaxTx = 8
	j := GenJournal(c.R, o)
	openBoth(c, j, func(how string, l *accounting.Ledger, err error, m *RawMap) {
		if err != nil {
			c.Fail("a correct journal (%s) is refused: %v", how, err)
			return
		}
		if m != nil && chance(c.R, 30) {
			for _, a := range l.Accounts {
				if chance(c.R, 30) {
					a.StartBalance = accounting.Balance{{Amount: 77, Currency: m.Cur[j.Curs[0]]}}
				}
			}
		}
		if chance(c.R, 20) {
			for _, x := range j.Curs { // a comment on a currency which is not listed
				if m != nil && x.Name == "" {
					l.Comments[m.Cur[x]] = []string{"nameless"}
				}
			}
		}
		ms := moments(l)
		if len(ms) > 6 {
			c.R.Shuffle(len(ms), func(i, k int) { ms[i], ms[k] = ms[k], ms[i] })
			ms = ms[:6]
		}
		before := Snapshot(l, SnapOpt{})
		answers := reports(l, ms)
		cl := l.Clone()
		c.Count("clones", 1)
		if d := diff(before, Snapshot(l, SnapOpt{})); d != "" {
			c.Fail("cloning (%s) changed the original: %s", how, d)
			return
		}
		if d := diff(before, Snapshot(cl, SnapOpt{})); d != "" {
			c.Fail("the clone (%s) is different: %s", how, d)
			return
		}
		d, n := sameShape(l, cl)
		c.Count("references_compared", n)
		if d != "" {
			c.Fail("clone (%s): %s", how, d)
			return
		}
		if x := reports(cl, ms); x != answers {
			c.Fail("the clone (%s) answers otherwise: %s", how, diff(strings.Split(answers, "\n"), strings.Split(x, "\n")))
			return
		}
		cl2 := cl.Clone()
		if d, _ := sameShape(l, cl2); d != "" {
			c.Fail("clone of a clone (%s): %s", how, d)
			return
		}
		// recalculating a clone
		if err := cl2.Fill(); err != nil {
			c.Fail("recalculating a clone (%s) fails: %v", how, err)
			return
		}
		if d := diff(withoutStart(before), withoutStart(Snapshot(cl2, SnapOpt{}))); d != "" {
			c.Fail("recalculating a clone (%s) changed it: %s", how, d)
			return
		}
		// nothing done to one is visible in the others
		appendAll(cl)
		spoil(c.R, cl)
		if d := diff(before, Snapshot(l, SnapOpt{})); d != "" {
			c.Fail("what is done to the clone (%s) is visible in the original: %s", how, d)
			return
		}
		if x := reports(l, ms); x != answers {
			c.Fail("what is done to the clone (%s) changes the answers of the original", how)
			return
		}
		cl3 := l.Clone()
		if chance(c.R, 50) && len(l.Transactions) > 0 { // the same change to both
			drop := -1
			if chance(c.R, 40) {
				drop = c.R.Intn(len(l.Transactions))
			}
			err1, err2 := sameChange(l, drop), sameChange(cl3, drop)
			c.Count("same_changes", 1)
			if (err1 != nil) != (err2 != nil) {
				c.Fail("the same change: the original (%s) says %v, its clone %v", how, err1, err2)
				return
			}
			if err1 != nil {
				return
			}
			c.Count("same_changes_compared", 1)
			if d := diff(Snapshot(l, SnapOpt{}), Snapshot(cl3, SnapOpt{})); d != "" {
				c.Fail("after the same change the clone (%s) is different: %s", how, d)
			}
			return
		}
		appendAll(l)
		spoil(c.R, l)
		if d := diff(before, Snapshot(cl3, SnapOpt{})); d != "" {
			c.Fail("what is done to the original (%s) is visible in the clone: %s", how, d)
			return
		}
		if x := reports(cl3, ms); x != answers {
			c.Fail("what is done to the original (%s) changes the answers of the clone", how)
		}
	})
	c.Distinct(describe(j))
	c.Sample("%s", describe(j))
}

// sameChange moves everything which was done three days, or forgets one transaction, and recalculates.
func sameChange(l *accounting.Ledger, drop int) error {
	if drop >= 0 {
		l.Transactions = append(l.Transactions[:drop:drop], l.Transactions[drop+1:]...)
		return l.Fill()
	}
	done := map[*time.Time]bool{}
	move := func(t *time.Time) {
		if t != nil && !done[t] {
			done[t] = true
			*t = t.Add(72 * time.Hour)
		}
	}
	for _, t := range l.Transactions {
		move(&t.Time)
		for _, s := range t.Splits {
			if s.Account != l.TransferAccount() {
				move(s.Time)
			}
		}
	}
	return l.Fill()
}

func withoutStart(s []string) []string { return s }

// exact writes down everything with its order.
func exact(l *accounting.Ledger) string {
	s := Snapshot(l, SnapOpt{})
	for _, a := range l.Accounts {
		for _, x := range a.Splits {
			s = append(s, x.Balance.String()+" "+x.Value.FullString())
		}
	}
	return strings.Join(s, "\n")
}

func sameAgainCase(c *Ctx) {
	if c.Index%20 == 15 {
		plainAgain(c)
		return
	}
	o := fullOpt()
	o.MultiCur = true
	if chance(c.R, 60) { // many quotes of the same moment
		o.Times, o.Priced = false, true
		o.YearFrom, o.YearTo = 2020, 2021
	}
	o.MaxTx = 12
	j := GenJournal(c.R, o)
	for _, t := range j.Txs { // several priced postings in one transaction
		if len(j.Curs) > 1 && chance(c.R, 25) && !t.exch {
			for k := 0; k < 3; k++ {
				a, b := j.Curs[c.R.Intn(len(j.Curs))], j.Curs[c.R.Intn(len(j.Curs))]
				if a == b || a.Name == "" || b.Name == "" {
					continue
				}
				x, y := int64(1+c.R.Intn(9))*U, int64(1+c.R.Intn(99))*U
				t.Posts = append(t.Posts, &Post{Acc: "Q", V: Amt{a, x}, PriceK: totalPrice, Total: Amt{b, y}, tx: t},
					&Post{Acc: "Q", V: Amt{b, -y}, tx: t})
			}
			for _, p := range t.Posts {
				if p.Assert != nil || p.Elided {
					p.Assert, p.Elided, p.ZeroFree = nil, false, false
				}
			}
		}
		for _, p := range t.Posts {
			if p.Assert != nil {
				p.Assert, p.Elided = nil, false
			}
		}
	}
	huge := c.Index%10 == 0 && chance(c.R, 50)
	if huge { // sums of several currencies which reports must refuse, always with the same message
		last := j.Txs[len(j.Txs)-1].T
		for _, cu := range j.Curs {
			for k := 0; k < 2 && cu.Name != ""; k++ {
				t := &Tx{T: last, Desc: "huge", num: len(j.Txs)}
				t.Posts = []*Post{{Acc: fmt.Sprint("Expense:h", k), V: Amt{cu, 1<<62 + int64(k)<<40}, tx: t}, {Acc: fmt.Sprint("Income:h", k), V: Amt{cu, -(1<<62 + int64(k)<<40)}, tx: t, idx: 1}}
				j.Txs = append(j.Txs, t)
			}
		}
		c.Count("sums_too_big", 1)
	}
	w := WriteJournal(c.R, j)
	text := w.Text()
	broken := !huge && chance(c.R, 20)
	if broken { // whatever is wrong, it is wrong in the same way
		text = mutate(c.R, text)
	}
	c.Input("journal", text)
	refErr, many := "", false
	var ref, refAns string
	var ms []time.Time
	refLog := ""
	for k := 0; k < 6; k++ {
		l, err, logged := c.OpenText("j.ledger", text)
		c.Count("openings", 1)
		if broken {
			what := fmt.Sprint(err)
			if k == 0 {
				refErr = what
			} else if what != refErr {
				c.Fail("opened again the error is %s, it was %s", what, refErr)
				return
			}
			if err != nil {
				c.Count("errors_again", 1)
				if k > 0 && logged != refLog {
					c.Fail("opened again it complains otherwise:\n%s---\n%s", refLog, logged)
					return
				}
				refLog = logged
				continue
			}
			c.Count("broken_openings", 1)
		}
		if err != nil {
			c.Fail("a correct journal is refused: %v", err)
			return
		}
		if k == 0 {
			ms = moments(l)
			if len(ms) > 8 {
				ms = ms[:8]
			}
			if len(l.Currencies) > 30 || len(l.Prices) > 200 || len(l.Accounts) > 200 {
				many, ms = true, ms[:1]
			}
			ref, refLog = exact(l), logged
			if !many {
				refAns = reports(l, ms)
			}
			continue
		}
		if many { // it takes long to ask everything
			if x := exact(l); x != ref {
				c.Fail("opened again it is different: %s", diff(strings.Split(ref, "\n"), strings.Split(x, "\n")))
				return
			}
			continue
		}
		if x := exact(l); x != ref {
			c.Fail("opened again it is different: %s", diff(strings.Split(ref, "\n"), strings.Split(x, "\n")))
			return
		}
		if x := reports(l, ms); x != refAns {
			c.Fail("opened again it answers otherwise: %s", diff(strings.Split(refAns, "\n"), strings.Split(x, "\n")))
			return
		}
		if logged != refLog {
			c.Fail("opened again it complains otherwise:\n%s---\n%s", refLog, logged)
			return
		}
	}
	c.Distinct(describe(j))
	c.Sample("%s", describe(j))
	if c.Index%10 != 0 {
		return
	}
	args := []string{"-f", filepath.Join(c.Dir, "j.ledger")}
	set := [][]string{{"print"}, {"-e", "2030", "bal"}, {"-e", "2030", "-market", "bal"}, {"-e", "2030", "delta", "a"}, {"stats"}, {"accounts"}, {"is"}}
	for i, s := range set {
		if i > 0 {
			args = append(args, "--")
		}
		args = append(args, s...)
	}
	if huge { // one by one, as the first which fails ends it all
		args = []string{"-f", filepath.Join(c.Dir, "j.ledger")}
		args = append(args, [][]string{{"bal", "h0", "h1", "h0"}, {"bal", "exp"}, {"delta", "exp"}, {"is"}, {"-e", "2030", "-market", "delta", "inc"}, {"-total", "bal", "h0"}, {"bal", "inc"}}[c.R.Intn(7)]...)
	}
	var out, stderr string
	for k := 0; k < 4; k++ {
		o, e, rc := c.runCmd("ledger", nil, args...)
		o += fmt.Sprint(rc)
		c.Count("command_repetitions", 1)
		if k == 0 {
			out, stderr = o, e
		} else if o != out || e != stderr && !strings.Contains(e, "panic") && stripDates(e) != stripDates(stderr) {
			c.Fail("run again the output is different: %s%s", diff(strings.Split(out, "\n"), strings.Split(o, "\n")), diff(strings.Split(stripDates(stderr), "\n"), strings.Split(stripDates(e), "\n")))
			return
		}
	}
}

// plainAgain is for journals with many accounts and nothing else: no prices, one currency.
func plainAgain(c *Ctx) {
	r := c.R
	var names, lines []string
	for i := 2 + r.Intn(40); i > 0; i-- {
		n := pick(r, "Income", "Expense", "Assets", "Equity", "x") + fmt.Sprintf(":%c%d", 'a'+rune(r.Intn(4)), r.Intn(60))
		if chance(r, 30) && len(names) > 0 {
			n = names[r.Intn(len(names))] + fmt.Sprintf(":%d", r.Intn(9))
		}
		names = append(names, n)
	}
	if chance(r, 50) {
		lines = append(lines, pick(r, "D 1.00 EUR", "commodity 1.000 USD"))
	}
	for i := 1 + r.Intn(30); i > 0; i-- {
		lines = append(lines, "2020-01-01 "+pick(r, "x", "y", "z"))
		a := names[r.Intn(len(names))]
		for k := 1 + r.Intn(3); k > 0; k-- {
			lines = append(lines, fmt.Sprintf("  %s  %d.00 EUR", names[r.Intn(len(names))], r.Intn(5)-2))
		}
		lines = append(lines, "  "+a)
	}
	text := strings.Join(lines, "\n") + "\n"
	c.Input("journal", text)
	l, err, _ := c.OpenText("j.ledger", text)
	if err != nil {
		c.Fail("a correct journal is refused: %v", err)
		return
	}
	l.Close()
	c.Count("plain_journals", 1)
	c.Distinct(text)
	args := []string{"-f", filepath.Join(c.Dir, "j.ledger")}
	for i, s := range [][]string{{"accounts"}, {"bal"}, {"print"}, {"stats"}, {"is"}, {"-e", "2030", "delta"}, {"bal", "a"}} {
		if i > 0 {
			args = append(args, "--")
		}
		args = append(args, s...)
	}
	out := ""
	for k := 0; k < 4; k++ {
		o, e, rc := c.runCmd("ledger", nil, args...)
		o += fmt.Sprint(rc) + stripDates(e)
		c.Count("command_repetitions", 1)
		if k == 0 {
			out = o
		} else if o != out {
			c.Fail("run again the output is different: %s", diff(strings.Split(out, "\n"), strings.Split(o, "\n")))
			return
		}
	}
}

// stripDates removes the date and time the standard logger writes.
func stripDates(s string) string {
	ls := strings.Split(s, "\n")
	for i, x := range ls {
		if len(x) > 20 && x[4] == '/' && x[7] == '/' && x[13] == ':' {
			ls[i] = x[20:]
		}
	}
	return strings.Join(ls, "\n")
}

// concurrentCase opens, uses and registers from several goroutines (run under the race detector).
var regN int64

func concurrentCase(c *Ctx) {
	r := c.R
	type src struct {
		url   string
		ref   string
		ans   string
		state []string
		ms    []time.Time
	}
	var srcs []src
	n := 2 + r.Intn(3)
	for i := 0; i < n; i++ {
		o := fullOpt()
		o.MaxTx = 6
		o.Dated = true
		j := GenJournal(r, o)
		var url string
		switch {
		case i > 0 && chance(r, 20):
			url = srcs[0].url
		case chance(r, 25):
			dir := filepath.Join(c.Dir, fmt.Sprintf("db%d", i))
			t := genTxtdb(r)
			t.write(dir)
			url = "txtdb:" + dir
		default:
			w := WriteJournal(r, j)
			file := filepath.Join(c.Dir, fmt.Sprintf("c%d.ledger", i))
			k := atomic.AddInt64(&regN, 1)
			text := w.Text() + fmt.Sprintf("account Fresh %d  ; seen %d times\n  ; number %d code:x%d\ncommodity 1,000.00 \"Q%d\" ; rate: %d\n", k, k, k, k, k, k)
			writeFile(file, text)
			c.Input(fmt.Sprint("journal ", i), text)
			url = file
			if chance(r, 50) {
				url = "ledger:" + file
			}
		}
		srcs = append(srcs, src{url: url})
	}
	// what nobody has opened before, by several at the same time
	type first struct {
		i   int
		ref string
		err error
	}
	var firsts []*first
	if chance(r, 60) {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 3+r.Intn(4); g++ {
			x := &first{i: r.Intn(len(srcs))}
			firsts = append(firsts, x)
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						c.Fail("panic in a goroutine: %v", e)
					}
				}()
				<-start
				l, err := accounting.Open(srcs[x.i].url)
				if x.err = err; err == nil {
					x.ref = exact(l)
				}
			}()
		}
		close(start)
		wg.Wait()
	}
	for i := range srcs {
		s, url := &srcs[i], srcs[i].url
		l, err := accounting.Open(url)
		if err != nil {
			c.Fail("%s: %v", url, err)
			return
		}
		s.ms = moments(l)
		if len(s.ms) > 4 {
			s.ms = s.ms[:4]
		}
		s.ref, s.ans = exact(l), reports(l, s.ms)
	}
	for _, x := range firsts {
		c.Count("first_openings_at_once", 1)
		if x.err != nil || x.ref != srcs[x.i].ref {
			c.Fail("opened for the first time, at the same time as others, it is different (%v): %s", x.err, diff(strings.Split(srcs[x.i].ref, "\n"), strings.Split(x.ref, "\n")))
			return
		}
	}
	// in sequence, all alive at once
	var alive []*accounting.Ledger
	for k := 0; k < 2; k++ {
		for _, s := range srcs {
			l, err := accounting.Open(s.url)
			if err != nil || exact(l) != s.ref {
				c.Fail("opened after others it is different (%v)", err)
				return
			}
			alive = append(alive, l)
		}
	}
	for i, l := range alive {
		s := srcs[i%len(srcs)]
		if exact(l) != s.ref || reports(l, s.ms) != s.ans {
			c.Fail("a ledger changed when others were opened: %s", diff(strings.Split(s.ref, "\n"), strings.Split(exact(l), "\n")))
			return
		}
	}
	// whatever is done to one of them
	for _, s := range srcs {
		l, err := accounting.Open(s.url)
		if err != nil {
			c.Fail("opened again: %v", err)
			return
		}
		spoil(r, l)
		c.Count("spoiled", 1)
	}
	for i, l := range alive {
		s := srcs[i%len(srcs)]
		if exact(l) != s.ref || reports(l, s.ms) != s.ans {
			c.Fail("a ledger changed when another one was changed: %s", diff(strings.Split(s.ref, "\n"), strings.Split(exact(l), "\n")))
			return
		}
	}
	// at the same time
	var order int64
	var mu sync.Mutex
	var trace []string
	note := func(s string) {
		k := atomic.AddInt64(&order, 1)
		mu.Lock()
		trace = append(trace, fmt.Sprintf("%d%s", k, s))
		mu.Unlock()
	}
	var wg sync.WaitGroup
	workers := 4 + r.Intn(4)
	start := make(chan struct{})
	for g := 0; g < workers; g++ {
		g := g
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					c.Fail("panic in a goroutine: %v", x)
				}
			}()
			<-start
			for k := 0; k < 5; k++ {
				if d := rr.Intn(4); d > 0 {
					time.Sleep(time.Duration(rr.Intn(300)) * time.Microsecond)
				}
				i := rr.Intn(len(srcs))
				s := srcs[i]
				switch rr.Intn(5) {
				case 0, 1:
					note(fmt.Sprintf("o%d.%d", g, i))
					l, err := accounting.Open(s.url)
					if err != nil {
						c.Fail("opened at the same time as others fails: %v", err)
						return
					}
					note(fmt.Sprintf("O%d.%d", g, i))
					if x := exact(l); x != s.ref {
						c.Fail("opened at the same time as others it is different: %s", diff(strings.Split(s.ref, "\n"), strings.Split(x, "\n")))
						return
					}
					if reports(l, s.ms) != s.ans {
						c.Fail("opened at the same time as others it answers otherwise")
						return
					}
					c.Count("concurrent_openings", 1)
					l.Close()
					spoil(rr, l)
				case 2: // read-only use of a shared ledger
					note(fmt.Sprintf("r%d.%d", g, i))
					if reports(alive[i], s.ms) != s.ans {
						c.Fail("a ledger used by several goroutines answers otherwise")
						return
					}
					note(fmt.Sprintf("R%d.%d", g, i))
					c.Count("shared_reads", 1)
				case 3: // own copy
					note(fmt.Sprintf("c%d.%d", g, i))
					cl := alive[i].Clone()
					if err := cl.Fill(); err != nil || exact(cl) != s.ref {
						c.Fail("a clone made at the same time as others is different (%v)", err)
						return
					}
					spoil(rr, cl)
					note(fmt.Sprintf("C%d.%d", g, i))
					c.Count("concurrent_clones", 1)
				case 4:
					name := fmt.Sprintf("vreg%d", atomic.AddInt64(&regN, 1))
					note(fmt.Sprintf("g%d", g))
					accounting.Register(name, rawDriver{})
					if _, err := accounting.Open(name + ":nothing"); err == nil {
						c.Fail("nothing was opened without an error")
					}
					c.Count("concurrent_registrations", 1)
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for i, l := range alive {
		s := srcs[i%len(srcs)]
		if exact(l) != s.ref {
			c.Fail("a ledger changed while it was only read")
			return
		}
	}
	h := strings.Join(trace, " ")
	c.Distinct(h)
	c.Sample("order of events: %s", h)
}

func init() {
	register(&Prop{ID: "C08", Quick: 8000, Thorough: 300000,
		Rule:  "generated ledgers, from journals and handed over raw, printed and read back three times; distinct by content",
		Needs: []string{"round_trips", "cli_prints", "without_transactions"},
		Run:   printCase})
	register(&Prop{ID: "C09", Quick: 8000, Thorough: 150000,
		Rule:  "generated ledgers cloned, compared reference by reference, and then spoiled; distinct by content",
		Needs: []string{"clones", "references_compared", "same_changes_compared"},
		Run:   cloneCase})
	register(&Prop{ID: "C12", Quick: 5000, Thorough: 100000,
		Rule:  "generated journals with many quotes of the same moment, opened and reported again and again; distinct by content",
		Needs: []string{"openings", "command_repetitions", "errors_again", "broken_openings", "sums_too_big", "plain_journals"},
		Run:   sameAgainCase})
	register(&Prop{ID: "C13", Quick: 240, Thorough: 8000, Race: true,
		Rule:  "groups of goroutines opening, registering, cloning and reading under the race detector; distinct by the order of the events observed",
		Needs: []string{"first_openings_at_once", "concurrent_openings", "shared_reads", "concurrent_clones", "concurrent_registrations", "spoiled"},
		Run:   concurrentCase})
	_ = os.Args
}
