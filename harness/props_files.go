package main

// C34: reading does not touch the files of the user, and gives them back.

import (
	"crypto/sha256"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/cespedes/accounting"
)

// pictureOf tells everything about the files in a directory, but when they were read.
func pictureOf(dir string) string {
	var lines []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			lines = append(lines, p+": "+err.Error())
			return nil
		}
		s := fmt.Sprintf("%s %v", strings.TrimPrefix(p, dir), fi.Mode())
		if st, ok := fi.Sys().(*syscall.Stat_t); ok {
			s += fmt.Sprintf(" file %d owner %d:%d links %d changed %d.%09d", st.Ino, st.Uid, st.Gid, st.Nlink, st.Mtim.Sec, st.Mtim.Nsec)
		}
		if fi.Mode()&os.ModeSymlink != 0 {
			to, _ := os.Readlink(p)
			s += " to " + to
		} else if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			s += fmt.Sprintf(" %d bytes %x", len(b), sha256.Sum256(b))
		}
		lines = append(lines, s)
		return nil
	})
	return strings.Join(lines, "\n")
}

// heldFiles lists the files in a directory which this process has open.
func heldFiles(dir string) []string {
	var res []string
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic("inconclusive: " + err.Error())
	}
	for _, e := range ents {
		to, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && (to == dir || strings.HasPrefix(to, dir+"/")) {
			res = append(res, strings.TrimPrefix(to, dir))
		}
	}
	sort.Strings(res)
	return res
}

func firstDifference(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		g, w := "nothing", "nothing"
		if i < len(x) {
			w = x[i]
		}
		if i < len(y) {
			g = y[i]
		}
		if g != w {
			return fmt.Sprintf("%q became %q", w, g)
		}
	}
	return "nothing"
}

// askEverything uses a ledger as a program which shows it would.
func askEverything(r *rand.Rand, l *accounting.Ledger) {
	export(l)
	cl := l.Clone()
	cl.Fill()
	for i, a := range l.Accounts {
		if i < 20 {
			l.GetBalance(a, time.Time{})
			l.TransactionsInAccount(a.ID)
		}
	}
	l.TransactionsInInterval(time.Time{}, time.Date(9000, 1, 1, 0, 0, 0, 0, time.UTC))
	for i := 0; i < 4 && len(l.Currencies) > 0; i++ {
		l.Convert(accounting.Value{Amount: U, Currency: l.Currencies[r.Intn(len(l.Currencies))]}, time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC), l.Currencies[r.Intn(len(l.Currencies))])
	}
	l.Flush()
	l.Refresh()
	export(l)
}

// untouched opens a data source, uses it, and looks at what is left.
func untouched(c *Ctx, dir, url string) (opened bool) {
	before := pictureOf(dir)
	goroutines := runtime.NumGoroutine()
	old := debug.SetGCPercent(-1) // a file nobody closes would be closed by the collector, sooner or later
	l, err, _ := openURL(url)
	if l == nil {
		if held := heldFiles(dir); len(held) > 0 {
			c.Fail("%s: opening fails (%v) and leaves open %q", url, err, held)
		}
		c.Count("failed_openings", 1)
	} else {
		opened = true
		askEverything(c.R, l)
		if err := l.Close(); err != nil {
			c.Fail("%s: closing fails: %v", url, err)
		}
		if held := heldFiles(dir); len(held) > 0 {
			c.Fail("%s: closing it leaves open %q", url, held)
		}
		c.Count("openings", 1)
	}
	debug.SetGCPercent(old)
	for i := 0; runtime.NumGoroutine() > goroutines; i++ {
		if i > 1000 {
			c.Fail("%s: %d goroutines are left running", url, runtime.NumGoroutine()-goroutines)
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	if after := pictureOf(dir); after != before {
		c.Fail("%s: the files are not as they were: %s", url, firstDifference(before, after))
	}
	c.Count("files_compared", strings.Count(before, "\n")+1)
	return opened
}

var nobody = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534, Groups: []uint32{}}}

// asNobody runs a command as someone who may only read.
func (c *Ctx) asNobody(dir string, env []string, name string, args ...string) (out, errs string, rc int, ran bool) {
	cmd := exec.Command(filepath.Join(c.Bin, name), args...)
	var o, e strings.Builder
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.Dir = dir
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "TZ=UTC", "GOMAXPROCS=1", "HOME=" + dir, "TMPDIR=" + dir, "TERM=dumb"}, env...)
	cmd.SysProcAttr = nobody
	if err := cmd.Start(); err != nil {
		c.Count("could_not_run_unprivileged", 1)
		return
	}
	timer := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	timer.Stop()
	if x, ok := err.(*exec.ExitError); ok {
		rc = x.ExitCode()
		if rc < 0 {
			panic("inconclusive: " + name + " was too slow")
		}
	}
	c.Count("unprivileged_commands", 1)
	return o.String(), e.String(), rc, true
}

func setModes(dir string, file, sub os.FileMode) {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() {
			os.Chmod(p, sub)
		} else if err == nil {
			os.Chmod(p, file)
		}
		return nil
	})
}

var readingCommands = [][]string{{"print"}, {"balance"}, {"stats"}, {"is"}, {"accounts"}, {"accounts", "-tree"}, {"-market", "-e", "2030-05-06", "balance"}, {"-b", "2020", "-e", "2021", "balance"}, {"delta", "a"}, {"register", "a"}, {"nonsense"}, {}}

func filesLedger(c *Ctx) {
	r := c.R
	o := fullOpt()
	o.MaxTx = 6
	dir := filepath.Join(c.Dir, "root")
	j := GenJournal(r, o)
	p := layOut(r, filepath.Join(dir, "l1", "l2", "l3", "l4", "l5", "l6"), "main.ledger", WriteJournal(r, j).Lines, 25)
	p.write(c)
	main := p.Main
	var files []string
	for f := range p.Files {
		files = append(files, f)
	}
	sort.Strings(files)
	untouched(c, dir, "ledger:"+main)
	if chance(r, 30) {
		setModes(c.Dir, 0o444, 0o555)
		before := pictureOf(dir)
		for k := 0; k < 2; k++ {
			args := append([]string{"-f", main}, readingCommands[r.Intn(len(readingCommands))]...)
			var env []string
			if chance(r, 30) {
				args, env = args[2:], []string{"LEDGER_FILE=" + main}
			}
			// the same, seen by the owner
			out0, _, rc0 := c.runCmd("ledger", append(env, "HOME="+dir), args...)
			out1, errs, rc1, ran := c.asNobody(dir, env, "ledger", args...)
			if ran && (out0 != out1 || rc0 != rc1) {
				c.Fail("ledger %q: status %d for someone who may write, %d for someone who may only read: %s", args, rc0, rc1, errs)
			}
			c.Count("commands", 1)
		}
		if after := pictureOf(dir); after != before {
			c.Fail("a report changed the files: %s", firstDifference(before, after))
		}
		setModes(c.Dir, 0o644, 0o755)
	}
	// journals which can not be read
	for k := 0; k < 3 && !c.Failed(); k++ {
		f := files[r.Intn(len(files))]
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		text := mutate(r, string(b))
		if chance(r, 50) { // surely wrong
			at := r.Intn(strings.Count(text, "\n") + 1)
			ls := strings.SplitAfter(text, "\n")
			text = strings.Join(ls[:at], "") + pick(r, "include nothing-like-this\n", "2020-01-01 x\n  a  5.00 EUR\n", "account\n", "account q\naccount q\n", "include .\n", "2020-01-01 x\n  a  5.00 EUR\n  b  -5.00 EUR = 77.00 EUR\n", "what is this\n", "P 2020-01-01 EUR\n", strings.Repeat("x", 70000)+"\n") + strings.Join(ls[at:], "")
		}
		if len(text) > 200000 || lookupCost(text) > 2e7 {
			continue
		}
		os.WriteFile(f, []byte(text), 0o644)
		c.Input("changed "+f, text)
		c.Risky()
		untouched(c, dir, "ledger:"+main)
		if chance(r, 50) {
			os.WriteFile(f, b, 0o644)
		}
	}
	if chance(r, 20) { // nothing there
		for _, u := range []string{"ledger:" + filepath.Join(dir, "missing.ledger"), "ledger:" + filepath.Join(dir, "no", "where"), "ledger:" + dir, "txtdb:" + dir, "txtdb:" + filepath.Join(dir, "missing")} {
			if untouched(c, dir, u) {
				c.Fail("%s opens, and there is nothing", u)
			}
			c.Count("missing_sources", 1)
		}
		before := pictureOf(dir)
		_, errs, rc := c.runCmd("ledger", nil, "-f", filepath.Join(dir, "missing.ledger"), "balance")
		if rc == 0 || !strings.Contains(errs, "missing.ledger") {
			c.Fail("a missing journal: status %d, %q", rc, errs)
		}
		if after := pictureOf(dir); after != before {
			c.Fail("asking for a missing journal changed the files: %s", firstDifference(before, after))
		}
	}
	c.Distinct(c.Index, describe(j))
}

func filesTxtdb(c *Ctx) {
	r := c.R
	d := genTxtdb(r)
	d.lines(r, chance(r, 20))
	dir := filepath.Join(c.Dir, "db")
	d.write(dir)
	c.Input("database", d.text())
	if chance(r, 15) {
		os.Remove(filepath.Join(dir, "transactions"))
	}
	untouched(c, dir, "txtdb:"+dir)
	if chance(r, 30) {
		setModes(c.Dir, 0o444, 0o555)
		before := pictureOf(dir)
		out0, _, rc0 := c.runCmd("acc", []string{"HOME=" + dir}, "txtdb:"+dir)
		out1, errs, rc1, ran := c.asNobody(dir, nil, "acc", "txtdb:"+dir)
		if ran && (out0 != out1 || rc0 != rc1) {
			c.Fail("acc: status %d for someone who may write, %d for someone who may only read: %s", rc0, rc1, errs)
		}
		if after := pictureOf(dir); after != before {
			c.Fail("a report changed the files: %s", firstDifference(before, after))
		}
		c.Count("commands", 1)
		setModes(c.Dir, 0o644, 0o755)
	}
	for k := 0; k < 3 && !c.Failed(); k++ {
		f := filepath.Join(dir, pick(r, "accounts", "transactions"))
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		text := mutateBytes(r, string(b), hostileTokens)
		switch r.Intn(4) {
		case 0:
			text = string(b) + strings.Repeat("x", 70000)
		case 1:
			text = string(b) + ":2020-01-01:x:x:1::+77777.00\n"
		}
		os.WriteFile(f, []byte(text), 0o644)
		c.Input("changed "+f, text)
		c.Risky()
		untouched(c, dir, "txtdb:"+dir)
		os.WriteFile(f, b, 0o644)
	}
	c.Distinct(d.text())
}

// fewFiles: many files included, one after another, by someone who may have few of them open.
func fewFiles(c *Ctx) {
	dir := filepath.Join(c.Dir, "many")
	var main strings.Builder
	for i := 0; i < 1500; i++ {
		n := fmt.Sprintf("f%d.ledger", i)
		text := fmt.Sprintf("2020-01-01 n%d\n  a  1.00 EUR\n  b  -1.00 EUR\n", i)
		if i%10 == 0 {
			text += "include sub.ledger\n"
		}
		writeFile(filepath.Join(dir, n), text)
		main.WriteString("include " + n + "\n")
	}
	writeFile(filepath.Join(dir, "sub.ledger"), "; nothing\n")
	writeFile(filepath.Join(dir, "main.ledger"), main.String())
	var lim syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
		panic("inconclusive: " + err.Error())
	}
	low := lim
	low.Cur = 256
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low); err != nil {
		panic("inconclusive: " + err.Error())
	}
	old := debug.SetGCPercent(-1)
	l, err, _ := openURL("ledger:" + filepath.Join(dir, "main.ledger"))
	if err != nil {
		c.Fail("a journal of 1500 files can not be opened by someone who may have 256 open: %v", err)
	} else if len(l.Transactions) != 1500 {
		c.Fail("a journal of 1500 files has %d transactions", len(l.Transactions))
	}
	// and again and again, whether it opens or not
	for name, text := range map[string]string{"good": "2020-01-01 x\n  a  1.00 EUR\n  b  -1.00 EUR\n", "bad": "2020-01-01 x\n  a  1.00 EUR\n", "repeated": "account a\naccount a\n"} {
		writeFile(filepath.Join(dir, name), text)
		for i := 0; i < 400; i++ {
			l, err, _ := openURL("ledger:" + filepath.Join(dir, name))
			if (err == nil) != (name == "good") {
				c.Fail("opening %s for the %dth time: %v", name, i+1, err)
				break
			}
			if l != nil {
				l.Close()
			}
			c.Count("repeated_openings", 1)
		}
	}
	db := filepath.Join(dir, "db")
	writeFile(filepath.Join(db, "accounts"), "1:::A::\n2:::B::\n")
	writeFile(filepath.Join(db, "transactions"), ":2020-01-01:x::1:+1.00:\n:2020-01-01:x::2:-1.00:\n")
	for i := 0; i < 400; i++ {
		l, err, _ := openURL("txtdb:" + db)
		if err != nil {
			c.Fail("opening a database for the %dth time: %v", i+1, err)
			break
		}
		l.Close()
		c.Count("repeated_openings", 1)
	}
	debug.SetGCPercent(old)
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
	c.Distinct("few files")
}

func init() {
	register(&Prop{ID: "C34", Quick: 2000, Thorough: 100000,
		Rule:  "data sources, right and wrong, opened, asked and closed, with pictures of their directory before and after and of the files open; the commands also run as someone who may only read; distinct by text",
		Needs: []string{"openings", "failed_openings", "files_compared", "commands", "missing_sources", "repeated_openings"},
		Fixed: []func(*Ctx){fewFiles},
		Run: func(c *Ctx) {
			if c.Index%3 == 2 {
				filesTxtdb(c)
			} else {
				filesLedger(c)
			}
		}})
}
