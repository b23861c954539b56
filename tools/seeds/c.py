# Third round: browsers, printed selections, files.
TA = 'cmd/tacc/main.go'
STUB = open(os.path.join(verif, 'harness/tableview/tableview.go.txt')).read()
def browse(files, cmds, tool):
    d = cli(files, cmds, tool)
    d['files']['tableview_go.txt'] = STUB
    d['sh'] = d['sh'].replace('go build -o "$t/cmd" ./cmd/%s || exit 2\n' % tool, '''mkdir "$t/tableview" && cp go.mod "$t/b.mod" && cp go.sum "$t/b.sum" && cp "$here/tableview_go.txt" "$t/tableview/tableview.go" || exit 2
echo 'module github.com/cespedes/tableview' >"$t/tableview/go.mod"
printf '\\nreplace github.com/cespedes/tableview => %%s\\n' "$t/tableview" >>"$t/b.mod"
go build -modfile "$t/b.mod" -o "$t/cmd" ./cmd/%s || exit 2
''' % tool)
    return d
# ---- C32
seed('c32-tacc-hide-empty', 'C32', [(TA, '''	for i, ac := range l.Accounts {
''', '''	i := -1
	for _, ac := range l.Accounts {
		if ac == l.TransferAccount() && len(ac.Splits) == 0 {
			continue // not used
		}
		i++
''')],
 browse({'j': '2020-01-01 x\n  Zoo  5.00 EUR\n  Assets:Cash\n'}, 'printf "select 0\\nq\\nselect 1\\nq\\nselect 2\\nq\\nselect 3\\nq\\nq\\n" | $tacc j 2>/dev/null', 'tacc'),
 'a ledger which does not use the transfer account, and accounts listed after it', 'choosing one of these shows the postings of another')
seed('c32-tacc-small-amounts', 'C32', [(TA, '''		if v := sp.Value.String(); v != "0" {''', '''		if v := sp.Value.String(); !strings.HasPrefix(v, "0") {'''), (TA, '''	"os"
''', '''	"os"
	"strings"
''')],
 browse({'j': 'commodity 1000.00 EUR\n2020-01-01 x\n  Zoo  0.50 EUR\n  Assets:Cash\n'}, 'printf "select 0\\nq\\nselect 1\\nq\\nselect 2\\nq\\nselect 3\\nq\\nq\\n" | $tacc j 2>/dev/null', 'tacc'),
 'an amount less than one of a currency written after the number', 'it is left blank')
seed('c32-ledger-period-balance', 'C32', [(CL, '''		t.SetCell(i, 1, ledger.GetBalance(ac, time.Time{}).String())
''', '''		if n := len(ac.Splits); n > 0 {
			t.SetCell(i, 1, ac.Splits[n-1].Balance.String())
		} else {
			t.SetCell(i, 1, accounting.Balance{}.String())
		}
''')],
 browse({'j': '2020-01-01 x\n  a  5.00 EUR\n  b\n2020-02-02 y\n  b  1.00 EUR\n  c\n'}, 'echo | $ledger -f j -b 2020-02 2>/dev/null', 'ledger'),
 'a begin date, and an account whose postings are all before it', 'its balance is shown as zero')
seed('c32-ledger-date', 'C32', [(CL, '''		t.SetCell(i, 0, sp.Time.Format("02-01-2006"))
''', '''		t.SetCell(i, 0, sp.Transaction.Time.Format("02-01-2006"))
''')],
 browse({'j': '2020-01-01 x\n  a  5.00 EUR\n  b ; date:2020-03-04\n'}, 'printf "select 0\\nq\\nselect 1\\nq\\nselect 2\\nq\\nq\\n" | $ledger -f j 2>/dev/null', 'ledger'),
 'a posting with a date of its own', 'it is shown with the date of its transaction')
# ---- C33
seed('c33-pivot-second', 'C33', [(CL, '''	for _, s := range t.Splits {
		for _, p := range pivot {
			if strings.Contains(strings.ToLower(s.Account.FullName()), strings.ToLower(p)) {
				return true
			}
		}
	}
	return false
''', '''	for _, p := range pivot {
		p = strings.ToLower(p)
		for _, s := range t.Splits {
			if s.Value.Amount == 0 {
				continue // it is not really involved
			}
			if strings.Contains(strings.ToLower(s.Account.FullName()), p) {
				return true
			}
		}
	}
	return false
''')],
 cli({'j': '2020-01-01 x\n  a  5.00 EUR\n  b\n  c  0.00 EUR\n2020-02-02 y\n  b  1.00 EUR\n  d\n'}, '$ledger -f j -pivot c print 2>/dev/null'),
 'a pivot account which takes part only with an amount of zero', 'the transaction is not printed')
seed('c33-same-moment-end', 'C33', [(CL, '''		for i, t := range L.Transactions {
			if t.Time.After(flags.endDate) {
				L.Transactions = L.Transactions[:i]
				break
			}
		}
''', '''		n := sort.Search(len(L.Transactions), func(i int) bool {
			return !L.Transactions[i].Time.Before(flags.endDate)
		})
		L.Transactions = L.Transactions[:n]
'''), (CL, '''	"os"
''', '''	"os"
	"sort"
''')],
 cli({'j': '2020-01-01/10:00 x\n  a  5.00 EUR\n  b\n2020-02-02/23:59:59 y\n  b  1.00 EUR\n  d\n'}, '$ledger -f j -e 2020-02-02 print 2>/dev/null'),
 'a transaction at the very end of the period', 'it is not printed')
seed('c33-pivot-begin', 'C33', [(CL, '''				L.Transactions = L.Transactions[i+1:]
				break
''', '''				L.Transactions = L.Transactions[i+1:]
				if len(flags.pivot) > 1 && len(L.Transactions) > 0 && L.Transactions[0].Time.Equal(flags.beginDate) {
					L.Transactions = L.Transactions[1:]
				}
				break
''')],
 cli({'j': '2020-01-01/10:00 x\n  a  5.00 EUR\n  b\n2020-02-02/00:00 y\n  b  1.00 EUR\n  d\n'}, '$ledger -f j -pivot b -pivot d -b 2020-02-02 print 2>/dev/null'),
 'two pivots, a begin date and a transaction at that very moment', 'it is not printed')
seed('c33-comments', 'C33', [(AC, '''			where, found = mapTransactions[x], mapTransactions[x] != nil
''', '''			where, found = mapTransactions[x], mapTransactions[x] != nil && len(x.Splits) > 1
''')] if False else [(CL, '''			L.Transactions = append(L.Transactions[:i], L.Transactions[i+1:]...)
			i--
''', '''			*L.Transactions[i] = accounting.Transaction{}
			L.Transactions = append(L.Transactions[:i], L.Transactions[i+1:]...)
			if i > 0 && len(L.Comments[L.Transactions[i-1]]) > 2 {
				L.Comments[L.Transactions[i-1]] = L.Comments[L.Transactions[i-1]][:2]
			}
			i--
''')],
 cli({'j': '2020-01-01/10:00 x ; one\n  ; two\n  ; three\n  a  5.00 EUR\n  b\n2020-02-02/00:00 y\n  b  1.00 EUR\n  d\n'}, '$ledger -f j -pivot a print 2>/dev/null'),
 'a pivot, and a transaction with three comments before one which is left out', 'the third comment is lost')
# ---- C34
FDS = '''package accounting_test

import (
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"testing"

	"github.com/cespedes/accounting"
	_ "github.com/cespedes/accounting/backend/ledger"
	_ "github.com/cespedes/accounting/backend/txtdb"
)

func held(dir string) (res []string) {
	ents, _ := os.ReadDir("/proc/self/fd")
	for _, e := range ents {
		if to, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(to, dir) {
			res = append(res, to)
		}
	}
	return
}

func put(t *testing.T, dir, name, text string) string {
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
		t.Fatal(err)
	}
	return p
}

func open(t *testing.T, source, dir string) {
	debug.SetGCPercent(-1)
	l, err := accounting.Open(source)
	if err == nil {
		l.Close()
	}
	if h := held(dir); len(h) > 0 {
		t.Fatal("still open:", h)
	}
}

'''
seed('c34-included-left-open', 'C34', [(PA, '''	if line.Err == nil {
		file.f.Close()
		s.files = s.files[:len(s.files)-1]
''', '''	if line.Err == nil {
		s.files = s.files[:len(s.files)-1]
		if file.lineNum > 0 || len(s.files) == 0 {
			file.f.Close()
		}
''')],
 gotest(FDS + '''func TestDemo(t *testing.T) {
	dir := t.TempDir()
	put(t, dir, "empty", "")
	open(t, "ledger:"+put(t, dir, "j", "include empty\\ninclude empty\\n"), dir)
}
'''), 'an empty file included', 'it stays open')
seed('c34-missing-created', 'C34', [(PA, '''	f, err := os.Open(filename)
''', '''	f, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0o644)
	if os.IsPermission(err) {
		f, err = os.Open(filename)
	}
''')],
 gotest(FDS + '''func TestDemo(t *testing.T) {
	dir := t.TempDir()
	open(t, "ledger:"+put(t, dir, "j", "include notyet\\n"), dir)
	if _, err := os.Stat(filepath.Join(dir, "notyet")); err == nil {
		t.Fatal("created")
	}
}
'''), 'a journal, or a file included, which does not exist', 'it is created, empty')
seed('c34-history', 'C34', [(CL, '''	begin := 0
	for i := range os.Args {
''', '''	if home := os.Getenv("HOME"); home != "" && os.Getenv("LEDGER_FILE") != "" {
		os.WriteFile(home+"/.ledger_last", []byte(filename+"\\n"), 0o600)
	}
	begin := 0
	for i := range os.Args {
''')],
 cli({'j': 'account a\n'}, 'mkdir h; HOME=$PWD/h LEDGER_FILE=j $ledger accounts 2>/dev/null; ls -A h'),
 'the journal is named by the environment', 'a file is written in the home directory')
seed('c34-held-together', 'C34', [(PA, '''		file.f.Close()
		s.files = s.files[:len(s.files)-1]
''', '''		if len(s.files) == 1 {
			file.f.Close()
		} else {
			defer file.f.Close() // it may be included again
		}
		s.files = s.files[:len(s.files)-1]
''')] if False else [(PA, '''	s2 := bufio.NewScanner(f)
	s.files = append(s.files, scannerFile{f: f, s: s2, filename: filename})
''', '''	s2 := bufio.NewScanner(f)
	if len(s.files) > 0 {
		// never let it change while it is being read
		if lock, err := os.Open(filename); err == nil {
			syscall.Flock(int(lock.Fd()), syscall.LOCK_SH)
			defer func() {
				if info.Size() > 4096 {
					return
				}
				lock.Close()
			}()
		}
	}
	s.files = append(s.files, scannerFile{f: f, s: s2, filename: filename})
'''), (PA, '''	"strings"
	"time"
''', '''	"strings"
	"syscall"
	"time"
''')],
 gotest(FDS + '''func TestDemo(t *testing.T) {
	dir := t.TempDir()
	put(t, dir, "big", strings.Repeat("; nothing\\n", 1000))
	open(t, "ledger:"+put(t, dir, "j", "include big\\n"), dir)
}
'''), 'an included file of more than 4096 bytes', 'it stays open')
seed('c34-txtdb-created', 'C34', [(TX, '''	f, err = os.Open(filepath.Join(c.dir, "transactions"))
''', '''	f, err = os.OpenFile(filepath.Join(c.dir, "transactions"), os.O_RDONLY|os.O_CREATE, 0o644)
''')],
 gotest(FDS + '''func TestDemo(t *testing.T) {
	dir := t.TempDir()
	put(t, dir, "accounts", "1:::A::\\n")
	open(t, "txtdb:"+dir, dir)
	if _, err := os.Stat(filepath.Join(dir, "transactions")); err == nil {
		t.Fatal("created")
	}
}
'''), 'a txtdb database without transactions', 'an empty file is created in it')
