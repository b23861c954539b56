package main

// C35: the commands do what was asked, however it is said, or say that they did not.

import (
	"path/filepath"
	"strings"
)

var reportNames = [][]string{{"accounts", "a"}, {"balance", "bal", "b"}, {"stats"}, {"print"}, {"incomestatement", "is"}, {"delta"}, {"price"}}

var wrongBounds = []string{"2020-13", "2020-00", "2020-02-30", "2021-02-29", "20", "202", "20200101", "2020-1-1", "yesterday", "2020-01-01/25:00", "2020-01-01/10:60", "2020-01-01 10:00", "x", " ", "-", "01-01-2020", "2020-01-01/", "2020-01-01/10:00:61", "２０２０"}

var wrongReports = []string{"balanc", "balances", "Balance", "BAL", "prin", "prints", "register", "reg", "help", "bal ", " bal", "", "delt", "i", "s", "ac", "p", "x", "balance,print", "Print", "isx", "stat", "tree"}

var wrongOptions = [][]string{{"-nonsense"}, {"--x"}, {"-B", "2020"}, {"-e2020"}, {"-b2020"}, {"--end=2020"}, {"-markets"}, {"-total=perhaps"}, {"-market=2"}, {"-t"}, {"-negated"}, {"---b", "2020"}, {"-=x"}}

func commandCase(c *Ctx) {
	r := c.R
	o := fullOpt()
	o.MaxTx = 6
	b := genBooks(c, o)
	if b.open() == nil {
		return
	}
	// one report
	var q query
	names := reportNames[r.Intn(len(reportNames))]
	b.setPivot(r, &q, 30)
	for k := r.Intn(6) - 3; k > 0; k-- {
		q.currency = append(q.currency, b.j.Curs[r.Intn(len(b.j.Curs))].Name)
	}
	q.total, q.negate, q.market = chance(r, 15), chance(r, 20), b.j.Default != nil && chance(r, 30)
	b.period(r, &q, q.market || names[0] == "price")
	var rest []string
	switch names[0] {
	case "balance", "incomestatement", "delta":
		rest = b.parts(r, 3)
	case "price":
		rest = []string{b.j.Curs[r.Intn(len(b.j.Curs))].Name}
	case "accounts":
		if chance(r, 40) {
			rest = []string{"-tree"}
		}
	}
	say := func() []string {
		return append(append(q.flags(r), pick(r, names...)), rest...)
	}
	first := say()
	out, errs, rc := c.runCmd("ledger", nil, append([]string{"-f", b.file}, first...)...)
	other := filepath.Join(c.Dir, "other.ledger")
	writeFile(other, "account Another\n2001-02-03 another\n  Another  12.00 ZZZ\n  Another:One\n")
	missing := filepath.Join(c.Dir, "missing.ledger")
	for k := 0; k < 2; k++ {
		args := say()
		var env []string
		switch r.Intn(6) {
		case 0:
			env = []string{"LEDGER_FILE=" + b.file}
		case 1:
			env = []string{"LEDGER_FILE=ledger:" + b.file}
		case 2:
			args = append([]string{"-f", "ledger:" + b.file}, args...)
		case 3:
			args = append([]string{"-f", b.file}, args...)
			env = []string{"LEDGER_FILE=" + other}
		case 4:
			args = append([]string{"-f", b.file}, args...)
			env = []string{"LEDGER_FILE=" + missing}
		case 5:
			args = append([]string{"-f", b.file}, args...)
			env = []string{"LEDGER_FILE="}
		}
		o2, e2, rc2 := c.runCmd("ledger", env, args...)
		c.Count("ways_of_asking", 1)
		c.Distinct(c.Index, args, env)
		if o2 != out || rc2 != rc {
			c.Fail("ledger %q with %q: status %d %s\n%s\nbut ledger -f %q: status %d %s\n%s", args, env, rc2, e2, o2, first, rc, errs, out)
			return
		}
	}
	if rc == 0 {
		if x := complaints(errs); len(x) > 0 {
			c.Fail("ledger %q succeeds with %q", first, x)
		}
		c.Count("successes", 1)
	} else {
		if strings.TrimSpace(errs) == "" || len(complaints(errs)) == 0 {
			c.Fail("ledger %q: status %d without an error message", first, rc)
		}
		c.Count("failures", 1)
	}
	if names[0] == "print" && len(q.flags(r)) == 0 {
		o2, e2, rc2 := c.runCmd("acc", nil, pick(r, "", "ledger:")+b.file)
		if o2 != out || rc2 != 0 {
			c.Fail("acc prints (status %d %s)\n%s\nbut ledger print\n%s", rc2, e2, o2, out)
		}
		c.Count("printed_by_acc", 1)
	}
	if r.Intn(3) == 0 {
		opts := []string{"-e", "2040-01-01", "-period", pick(r, "1m", "2m15d"), "-measures", pick(r, "1", "2")}
		out, errs, rc := c.runCmd("muscular", nil, append([]string{"-f", b.file}, opts...)...)
		for _, way := range [][2]string{{"", b.file}, {"", "ledger:" + b.file}, {b.file, other}, {b.file, missing}, {"ledger:" + b.file, ""}} {
			args, env := opts, []string{"LEDGER_FILE=" + way[1]}
			if way[0] != "" {
				args = append([]string{"-f", way[0]}, opts...)
			}
			o2, e2, rc2 := c.runCmd("muscular", env, args...)
			c.Count("ways_of_asking_muscular", 1)
			if o2 != out || rc2 != rc {
				c.Fail("muscular %q with %q: status %d %s\n%s\nbut muscular -f %s %q: status %d %s\n%s", args, env, rc2, e2, o2, b.file, opts, rc, errs, out)
				return
			}
		}
	}
	// what can not be done
	for k := 0; k < 3 && !c.Failed(); k++ {
		cmd := "ledger"
		src := []string{"-f", b.file}
		var env []string
		opts, report := q.flags(r), append([]string{pick(r, names...)}, rest...)
		naming := ""
		insert := func(x ...string) { // among the options
			if chance(r, 50) {
				opts = append(append([]string{}, x...), opts...)
			} else {
				opts = append(opts, x...)
			}
		}
		kind := ""
		switch r.Intn(9) {
		case 0:
			kind = "no source"
			src = nil
			if chance(r, 50) {
				env = []string{"LEDGER_FILE="}
			}
			if chance(r, 20) {
				src = []string{"-f", ""}
			} else if chance(r, 20) {
				src, opts, report = []string{"-f"}, nil, nil
			}
		case 1:
			kind = "missing source"
			naming = "missing.ledger"
			src = []string{"-f", pick(r, "", "ledger:") + missing}
			if chance(r, 50) {
				env = []string{"LEDGER_FILE=" + b.file}
			} else if chance(r, 50) {
				src, env = nil, []string{"LEDGER_FILE=" + missing}
			}
			if chance(r, 20) { // and nothing is asked of it
				opts, report = nil, nil
			}
		case 2:
			kind = "unknown scheme"
			src = []string{"-f", pick(r, "xyz:", "http:", "led:", "ledgerx:") + b.file}
		case 3:
			kind = "unknown report"
			w := wrongReports[r.Intn(len(wrongReports))]
			naming = strings.TrimSpace(w)
			report[0] = w
		case 4:
			kind = "unknown option"
			insert(wrongOptions[r.Intn(len(wrongOptions))]...)
		case 5:
			kind = "option without value"
			report = nil
			opts = append(opts, pick(r, "-b", "-e", "--pivot", "-currency", "--b"))
		case 6:
			kind = "wrong period"
			insert(pick(r, "-b", "--e"), wrongBounds[r.Intn(len(wrongBounds))])
		case 7:
			kind = "wrong journal"
			bad := filepath.Join(c.Dir, "bad.ledger")
			naming = "bad.ledger"
			writeFile(bad, b.w.Text()+"\n9998-01-01 unbalanced\n  Some:Thing  5.00 Q\n")
			src = []string{"-f", bad}
		case 8:
			cmd = pick(r, "acc", "muscular", "muscular")
			kind = cmd
			report = nil
			if cmd == "acc" {
				src, opts = nil, [][]string{{}, {b.file, b.file}, {missing}, {"xyz:" + b.file}, {"-f", b.file}}[r.Intn(5)]
			} else {
				naming = ""
				opts = nil
				switch r.Intn(6) {
				case 0:
					src = nil
					if chance(r, 30) {
						src = []string{"-f"}
					}
				case 1:
					src, naming = []string{"-f", missing}, "missing.ledger"
				case 2:
					opts = []string{pick(r, "-b", "-e"), wrongBounds[r.Intn(len(wrongBounds))]}
				case 3:
					opts = []string{pick(r, "-period", "-measureperiod"), pick(r, "x", "m", "d", "3w", "3", "", "3d1m", "1mxd", "m3d", "1m2d3y", "1m2d3", "2m1dd", "4dx", "5m-", "3m0d 1", "1.5m", "1m2d3m", "6mm", "7days", "1month")}
				case 4:
					opts = []string{pick(r, "-measures=x", "-nonsense", "-num", "-measures=1.5", "-measures=0", "-measures=-1", "-measures=-30")}
				case 5:
					opts = []string{"-measures"}
				}
			}
		}
		// a wrong bound given first would be replaced by a good one given later, and the reverse
		if kind == "wrong period" {
			var keep []string
			for i := 0; i < len(opts); i++ {
				n := strings.TrimLeft(opts[i], "-")
				if n == "b" || n == "e" {
					if !contains(wrongBounds, opts[i+1]) {
						i++
						continue
					}
					keep = append(keep, opts[i], opts[i+1])
					i++
					continue
				}
				if strings.HasPrefix(opts[i], "-") && (strings.HasPrefix(n, "b=") || strings.HasPrefix(n, "e=")) {
					continue
				}
				keep = append(keep, opts[i])
				if n == "pivot" || n == "currency" {
					i++
					keep = append(keep, opts[i])
				}
			}
			opts = keep
		}
		args := append(append(append([]string{}, src...), opts...), report...)
		o2, e2, rc2 := c.runCmd(cmd, env, args...)
		c.Count("impossible", 1)
		c.Count("impossible: "+kind, 1)
		c.Distinct(c.Index, cmd, args, env)
		c.Sample("%s %q %q: status %d, %s", cmd, args, env, rc2, tail(e2, 100))
		switch {
		case rc2 == 0:
			c.Fail("%s %q with %q (%s) succeeds\n%s%s", cmd, args, env, kind, e2, o2)
		case o2 != "":
			c.Fail("%s %q with %q (%s) fails, but prints\n%s", cmd, args, env, kind, o2)
		case len(complaints(e2)) == 0:
			c.Fail("%s %q with %q (%s) fails without a message", cmd, args, env, kind)
		case strings.Contains(e2, "goroutine "):
			c.Fail("%s %q with %q (%s) breaks: %s", cmd, args, env, kind, tail(e2, 1500))
		case naming != "" && !strings.Contains(e2, naming):
			c.Fail("%s %q with %q (%s): the message does not tell which: %s", cmd, args, env, kind, e2)
		}
	}
}

func contains(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

func init() {
	register(&Prop{ID: "C35", Quick: 2400, Thorough: 60000,
		Rule:  "the commands asked for the same in several ways (name of the report, order and spelling of options, where the journal is named), and for what cannot be done; distinct by journal, environment and command line",
		Needs: []string{"ways_of_asking", "ways_of_asking_muscular", "successes", "failures", "impossible", "printed_by_acc", "impossible: unknown report", "impossible: wrong period", "impossible: muscular", "impossible: acc"},
		Run:   commandCase})
}
