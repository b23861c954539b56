package main

// Generated txtdb databases (C16, and wherever another backend is needed).

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"
)

type dbAccount struct {
	id     int
	name   string
	code   string
	parent int // 0: none
	full   string
}

type dbMove struct {
	acc    int
	t      time.Time
	cents  int64
	assert bool // the line gives the resulting balance
	bal    int64
	line   int
}

type dbTx struct {
	desc  string
	moves []*dbMove
}

type txtdb struct {
	accs     []*dbAccount
	txs      []*dbTx
	accLines []string
	trLines  []string
	badAcc   []int // wrong lines, which must be reported
	badTr    []int
	noTr     bool
}

func cents(r *rand.Rand, n int64) string {
	s := "+"
	if n < 0 {
		s = "-"
		n = -n
	}
	if n%100 == 0 && chance(r, 30) {
		return fmt.Sprintf("%s%d", s, n/100)
	}
	if n%10 == 0 && chance(r, 20) {
		return fmt.Sprintf("%s%d.%d", s, n/100, n%100/10)
	}
	return fmt.Sprintf("%s%d.%02d", s, n/100, n%100)
}

func genTxtdb(r *rand.Rand) *txtdb {
	d := &txtdb{}
	n := 2 + r.Intn(8)
	if chance(r, 12) {
		n = 12 + r.Intn(40)
	}
	used := map[int]bool{0: true}
	full := map[string]bool{}
	for i := 0; i < n; i++ {
		a := &dbAccount{}
		for used[a.id] {
			a.id = 1 + r.Intn(500)
		}
		if i == n-1 && chance(r, 10) {
			a.id = 0 // a number like any other
		}
		used[a.id] = true
		a.name = accWords[r.Intn(len(accWords))]
		if len(d.accs) > 0 && chance(r, 55) {
			p := d.accs[r.Intn(len(d.accs))]
			a.parent = p.id
			a.full = p.full + ":" + a.name
		} else {
			a.full = a.name
		}
		if full[a.full] {
			continue
		}
		full[a.full] = true
		if chance(r, 40) {
			a.code = pick(r, "ES91 2100", "401", "x-1", "N26", "0042", "007 1", "00", "4200")
		}
		d.accs = append(d.accs, a)
	}
	if chance(r, 5) {
		d.noTr = true
		return d
	}
	t := time.Date(1990+r.Intn(40), time.Month(1+r.Intn(12)), 1+r.Intn(28), 0, 0, 0, 0, time.UTC)
	bal := map[int]int64{}
	step := func() {
		if chance(r, 70) {
			t = t.Add(time.Duration(r.Intn(4000)) * time.Minute)
		}
		if chance(r, 30) {
			t = time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC).AddDate(0, 0, 1)
		}
	}
	amount := func() int64 {
		var x int64
		switch r.Intn(6) {
		case 0:
			x = int64(1 + r.Intn(99))
		case 1:
			x = int64(r.Intn(100000000))
		case 2:
			x = r.Int63n(90000000000) // hundreds of millions
		default:
			x = int64(r.Intn(200000))
		}
		if chance(r, 50) {
			x = -x
		}
		return x
	}
	for k := r.Intn(9); k > 0; k-- {
		step()
		x := &dbTx{desc: descWords[r.Intn(len(descWords))]}
		x.desc = strings.ReplaceAll(x.desc, ":", " ")
		if chance(r, 8) { // its other lines may have one
			x.desc = ""
		}
		var sum int64
		m := 1 + r.Intn(4)
		acc := func() int { return d.accs[r.Intn(len(d.accs))].id }
		when := t
		if chance(r, 12) { // a check of the balance
			a := acc()
			x.moves = []*dbMove{{acc: a, t: when, assert: true, bal: bal[a]}}
			d.txs = append(d.txs, x)
			continue
		}
		if chance(r, 5) {
			x.moves = []*dbMove{{acc: acc(), t: when}}
			d.txs = append(d.txs, x)
			continue
		}
		for i := 0; i < m; i++ {
			c := amount()
			if sum+c == 0 || c == 0 && sum == 0 {
				c++
				if sum+c == 0 {
					c++
				}
			}
			if sum+c == 0 {
				continue
			}
			sum += c
			if chance(r, 10) {
				step()
				when = t
			}
			x.moves = append(x.moves, &dbMove{acc: acc(), t: when, cents: c})
		}
		if sum != 0 {
			x.moves = append(x.moves, &dbMove{acc: acc(), t: when, cents: -sum})
		}
		for _, mv := range x.moves {
			bal[mv.acc] += mv.cents
		}
		if len(x.moves) > 0 {
			d.txs = append(d.txs, x)
		}
	}
	// the last posting of a transaction may give the resulting balance instead
	run := map[int]int64{}
	for _, x := range d.txs {
		for i, mv := range x.moves {
			run[mv.acc] += mv.cents
			if !mv.assert && len(x.moves) > 1 && i == len(x.moves)-1 && chance(r, 8) {
				mv.assert, mv.bal = true, run[mv.acc]
			}
		}
	}
	return d
}

func (d *txtdb) lines(r *rand.Rand, bad bool) {
	f := func() string { return pick(r, "", "", "x", "0", " ") }
	accs := append([]*dbAccount(nil), d.accs...)
	if chance(r, 30) {
		r.Shuffle(len(accs), func(i, k int) { accs[i], accs[k] = accs[k], accs[i] })
	}
	for _, a := range accs {
		for bad && chance(r, 15) {
			d.accLines = append(d.accLines, pick(r, "garbage", "7:x:y:Name:code", "z:a:b:Wrong:code:", "1:2:3:4:5:6:7", ":::Nobody::", "# comment"))
			d.badAcc = append(d.badAcc, len(d.accLines))
		}
		if chance(r, 5) {
			d.accLines = append(d.accLines, pick(r, "", "   "))
		}
		p := ""
		if a.parent != 0 {
			p = fmt.Sprint(a.parent)
		} else if chance(r, 20) {
			p = pick(r, "-", "x")
		}
		d.accLines = append(d.accLines, fmt.Sprintf("%d:%s:%s:%s:%s:%s", a.id, f(), f(), a.name, a.code, p))
	}
	for _, x := range d.txs {
		if chance(r, 5) {
			d.trLines = append(d.trLines, pick(r, "", "  "))
		}
		for i, mv := range x.moves {
			for bad && chance(r, 10) {
				d.trLines = append(d.trLines, d.wrongLine(r, mv, i > 0))
				d.badTr = append(d.badTr, len(d.trLines))
			}
			desc := x.desc
			if i > 0 && chance(r, 30) {
				desc = "other"
			}
			date := mv.t.Format("2006-01-02 15.04")
			if mv.t.Hour() == 0 && mv.t.Minute() == 0 && chance(r, 80) {
				date = mv.t.Format("2006-01-02")
			}
			if chance(r, 10) {
				date = " " + date + " "
			}
			amt, bal := cents(r, mv.cents), f()
			if mv.assert {
				amt = ""
				bal = cents(r, mv.bal)
				if mv.bal >= 0 && chance(r, 50) {
					bal = bal[1:]
				}
			}
			d.trLines = append(d.trLines, fmt.Sprintf("%s:%s:%s:%s:%d:%s:%s", f(), date, desc, f(), mv.acc, amt, bal))
			mv.line = len(d.trLines)
		}
	}
}

// wrongLine is a line of transactions which can not be used, written before a movement.
func (d *txtdb) wrongLine(r *rand.Rand, mv *dbMove, inside bool) string {
	date := mv.t.Format("2006-01-02 15.04")
	n := 10
	if !inside { // without amount
		n = 12
	}
	switch r.Intn(n) {
	case 0:
		return pick(r, "garbage", "1:2:3", "a:b:c:d:e:f:g:h", "::::::::", ":")
	case 1:
		return pick(r, "1:2020-13-01:x:y:1:+1.00:", "1:2020-02-30:x:y:1:+1.00:", "1::x:y:1:+1.00:")
	case 2, 3:
		return fmt.Sprintf("1:%s:x:y:%d:+1.00:", pick(r, "notadate", "2020-01-01 25.00", "2020-01-01 10:00", "20200101"), mv.acc)
	case 4, 5, 6:
		return fmt.Sprintf("1:%s:wrong account:y:%s:%s:", date, pick(r, "9999", "x", "", "00x", "-1", "1.0", "Cash"), cents(r, int64(r.Intn(100000))))
	case 7, 8, 9:
		return fmt.Sprintf("1:%s:wrong amount:y:%d:%s:%s", date, mv.acc, pick(r, "1.00", "abc", "+", "-", "+x", "-1.00x", "+1,00", "+1e300", "-inf", "+NaN", "+1.0.0", "*5", "+99999999999999", "+ 5"), pick(r, "", "+1.00"))
	}
	return fmt.Sprintf("1:%s:no amount:y:%d::%s", date, mv.acc, pick(r, "", "abc", "+", "x1", "+1,00", "1e300", "NaN", "+inf", "99999999999999"))
}

func (d *txtdb) write(dir string) {
	if d.accLines == nil {
		d.lines(rand.New(rand.NewSource(int64(len(d.accs)*1000+len(d.txs)))), false)
	}
	os.MkdirAll(dir, 0o755)
	writeFile(filepath.Join(dir, "accounts"), strings.Join(d.accLines, "\n")+"\n")
	if !d.noTr {
		writeFile(filepath.Join(dir, "transactions"), strings.Join(d.trLines, "\n")+"\n")
	}
}

func (d *txtdb) text() string {
	return "accounts:\n" + strings.Join(d.accLines, "\n") + "\ntransactions:\n" + strings.Join(d.trLines, "\n") + "\n"
}
