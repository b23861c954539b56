AC = 'accounting.go'
PA = 'backend/ledger/parser.go'
EX = 'backend/ledger/ledger.go'
CL = 'cmd/ledger/main.go'
MU = 'cmd/muscular/main.go'
TX = 'backend/txtdb/txtdb.go'

PRE = '''package accounting_test

import (
	"bytes"
	"io"
	"log"
	"os"
	"path/filepath"
	"testing"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/backend/ledger"
)

func open(t *testing.T, text string) (*accounting.Ledger, error) {
	log.SetOutput(io.Discard)
	f := filepath.Join(t.TempDir(), "journal")
	if err := os.WriteFile(f, []byte(text), 0o644); err != nil {
		t.Fatal(err)
	}
	return accounting.Open("ledger:" + f)
}

func must(t *testing.T, text string) *accounting.Ledger {
	l, err := open(t, text)
	if err != nil {
		t.Fatal(err)
	}
	return l
}

func print(l *accounting.Ledger) string {
	var b bytes.Buffer
	ledger.Export(&b, l)
	return b.String()
}

func account(t *testing.T, l *accounting.Ledger, name string) *accounting.Account {
	for _, a := range l.Accounts {
		if a.FullName() == name {
			return a
		}
	}
	t.Fatalf("no account %s", name)
	return nil
}

var _ = print

'''
def go(body, imports='', **kw):
    src = PRE
    for i in imports.split():
        src = src.replace('import (\n', 'import (\n\t"%s"\n' % i)
    return gotest(src + body, **kw)

# ---- C01
seed('c01-tolerance', 'C01', [(AC, '''			if len(balance) == 0 {
				// everything is balanced
''', '''			if len(balance) == 0 || len(balance) == 1 && unbalancedSplit == nil && balance[0].Amount > -10 && balance[0].Amount < 10 {
				// everything is balanced, but for the rounding of prices
''')],
 go('''func TestDemo(t *testing.T) {
	if _, err := open(t, "2020-01-01 x\\n  a  10.00 EUR\\n  b  -9.99999999 EUR\\n"); err == nil {
		t.Fatal("an unbalanced transaction is accepted")
	}
	if _, err := open(t, "2020-01-01 x\\n  a  10.00 EUR\\n  b  -10.00 EUR\\n"); err != nil {
		t.Fatal(err)
	}
}
'''), 'a transaction off by a few of the smallest units', 'a remainder below 0.0000001 is taken as rounding and the books do not balance')
seed('c01-zero-price', 'C01', [(AC, 'if v, ok := l.SplitPrices[s]; ok == true {\n					balance.Add(v)', 'if v := l.SplitPrices[s]; v.Amount != 0 {\n					balance.Add(v)')],
 go('''func TestDemo(t *testing.T) {
	if _, err := open(t, "2020-01-01 gift\\n  a  3.0 ACME @ 0.00 EUR\\n  b  5.00 EUR\\n  c  -5.00 EUR\\n"); err != nil {
		t.Fatal(err)
	}
	if _, err := open(t, "2020-01-01 gift\\n  a  3.0 ACME @ 0.00 EUR\\n  b  -3.0 ACME\\n"); err == nil {
		t.Fatal("an unbalanced transaction is accepted")
	}
}
'''), 'a posting with a price of zero', 'a posting with a zero price counts as its own amount instead of nothing')
# ---- C02
seed('c02-price-after-omitted', 'C02', [(AC, '''				if v, ok := l.SplitPrices[s]; ok == true {
					balance.Add(v)
				} else {''', '''				if v, ok := l.SplitPrices[s]; ok && (unbalancedSplit == nil || v.Currency == unbalancedSplit.Value.Currency) {
					balance.Add(v)
				} else {''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "2020-01-01 x\\n  a\\n  b  3.0 ACME @ 2.00 EUR\\n")
	if s := account(t, l, "a").Splits[0].Value.String(); s != "-6.00 EUR" {
		t.Fatal(s)
	}
}
'''), 'a posting without amount written before one with a price', 'the omitted amount balances the quantity and not the price')
seed('c02-two-omitted-same-account', 'C02', [(AC, '''					if unbalancedSplit != nil {
						return fmt.Errorf("%s: more than one posting''', '''					if unbalancedSplit != nil && unbalancedSplit.Account != s.Account {
						return fmt.Errorf("%s: more than one posting''')],
 go('''func TestDemo(t *testing.T) {
	if _, err := open(t, "2020-01-01 x\\n  a  5.00 EUR\\n  b\\n  b\\n"); err == nil {
		t.Fatal("two postings without amount are accepted")
	}
}
'''), 'two postings without amount in the same account', 'the transaction is accepted (or its first posting is left without amount)')
# ---- C03
seed('c03-unstable-history', 'C03', [(AC, '''		sort.SliceStable(a.Splits, func''', '''		sort.Slice(a.Splits, func''')],
 go('''func TestDemo(t *testing.T) {
	text := ""
	for i := 0; i < 40; i++ {
		text += fmt.Sprintf("2020-01-01 x%d\\n  a  %d.00 EUR\\n  b\\n", i, i+1)
	}
	text += "2020-01-02 y\\n  a  5.00 EUR ; date:2019-12-31\\n  b\\n"
	l := must(t, text)
	for i, s := range account(t, l, "a").Splits[1:] {
		if s.Value.Amount != int64(i+1)*accounting.U {
			t.Fatal(i, s.Value)
		}
	}
}
''', 'fmt'), 'more than a dozen postings of one moment in an account', 'postings of the same moment change their order')
seed('c03-shared-balance', 'C03', [(AC, '''				b.Add(s.Value)
				s.Balance = b.Dup()
				if a :=''', '''				b.Add(s.Value)
				s.Balance = b
				if len(b) > 1 {
					s.Balance = b.Dup()
				}
				if a :=''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "2020-01-01 x\\n  a  5.00 EUR\\n  b\\n2020-01-02 x\\n  a  7.00 EUR\\n  b\\n2020-01-03 x\\n  a  8.00 EUR\\n  b\\n")
	want := []string{"5.00 EUR", "12.00 EUR", "20.00 EUR"}
	for i, s := range account(t, l, "a").Splits {
		if s.Balance.String() != want[i] {
			t.Fatal(i, s.Balance)
		}
	}
}
'''), 'an account with several postings in one currency', 'the balances of successive postings share their storage')
# ---- C04
seed('c04-zero-assertion', 'C04', [(AC, 'if a := l.Assertions[s]; a != (Value{}) {', 'if a := l.Assertions[s]; a != (Value{}) && (a.Amount != 0 || len(s.Balance) == 0 || s.Value == (Value{})) {')],
 go('''func TestDemo(t *testing.T) {
	if _, err := open(t, "2020-01-01 x\\n  a  5.00 EUR = 0.00 EUR\\n  b\\n"); err == nil {
		t.Fatal("a wrong assertion is accepted")
	}
	if _, err := open(t, "2020-01-01 x\\n  a  5.00 EUR\\n  b\\n2020-01-02 y\\n  a  = 0.00 EUR\\n  b\\n"); err != nil {
		t.Fatal(err)
	}
}
'''), 'an asserted balance of zero that is wrong', 'wrong assertions of zero are accepted')
seed('c04-balance-after-assertion', 'C04', [(AC, '''						b.Add(s.Value)
						s.Balance.Add(s.Value)
''', '''						s.Balance.Add(s.Value)
''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "2020-01-01 x\\n  a  = 5.00 EUR\\n  b\\n  a  2.00 EUR = 7.00 EUR\\n")
	if s := account(t, l, "b").Splits[0].Value.String(); s != "-7.00 EUR" {
		t.Fatal(s)
	}
}
'''), 'a posting with only an assertion followed, before anything else interrupts it, by another in the account', 'the amount derived from an assertion is missing in the balances that follow')
# ---- C05
seed('c05-transfer-sign', 'C05', [(AC, '''						Amount:   -l.Transactions[i].Splits[j].Value.Amount,
						Currency:''', '''						Amount:   l.Transactions[i].Splits[j].Value.Amount,
						Currency:'''), (AC, '''						Amount:   l.Transactions[i].Splits[j].Value.Amount,
						Currency: l.Transactions[i].Splits[j].Value.Currency,
					},
				}
				l.Transactions[i].Splits = append(l.Transactions[i].Splits, split1)''', '''						Amount:   -l.Transactions[i].Splits[j].Value.Amount,
						Currency: l.Transactions[i].Splits[j].Value.Currency,
					},
				}
				l.Transactions[i].Splits = append(l.Transactions[i].Splits, split1)''')],
 cli({'j': 'commodity 1.00 EUR\naccount a\naccount b\n2020-01-01 x\n  a  5.00 EUR ; date:2020-01-05\n  b\n'}, '$ledger -f j -e 2020-01-03 bal'),
 'postings with dates of their own, looked at between those dates', 'the transfer account holds the opposite of what is in transit')
# ---- C06
seed('c06-too-many-decimals', 'C06', [(PA, '''	if shift < 0 || shift > 8 {''', '''	for ; shift < 0 && value.Amount%10 == 0; shift++ {
		value.Amount /= 10
	}
	if shift < -1 || shift > 8 {''')],
 go('''func TestDemo(t *testing.T) {
	l, err := open(t, "commodity 1.00 EUR\\n2020-01-01 x\\n  a  1.000000019 EUR\\n  b\\n")
	if err == nil {
		for _, a := range l.Accounts {
			if a.FullName() == "a" {
				t.Fatal(a.Splits[0].Value.FullString())
			}
		}
	}
}
'''), 'an amount with nine decimals', 'the ninth decimal makes the amount ten times bigger')
seed('c06-group-before-decimal', 'C06', [(PA, '''			if thousandPos > -1 && i-thousandPos != 4 {
				return value, fmt.Errorf("syntax error: wrong position for thousand sign '%s'", value.Currency.Thousand), newCurrency
			}
			decimalPos = i''', '''			decimalPos = i''')],
 go('''func TestDemo(t *testing.T) {
	l, err := open(t, "commodity 1,000.00 EUR\\n2020-01-01 x\\n  a  1,00.50 EUR\\n  b\\n")
	if err == nil {
		for _, a := range l.Accounts {
			if a.FullName() == "a" {
				t.Fatal(a.Splits[0].Value.FullString())
			}
		}
	}
}
'''), 'a wrongly grouped amount whose last group is followed by decimals', 'a wrongly grouped amount is accepted')
seed('c06-first-format', 'C06', [(PA, '''		if i > 3 {
			value.Currency.Decimal = string(c)
			decimalPos = i
		} else {''', '''		if i > 3 && !strings.ContainsRune(sAmount[i+1:], c) {
			value.Currency.Decimal = string(c)
			decimalPos = i
		} else {''')],
 go('''func TestDemo(t *testing.T) {
	l, err := open(t, "2020-01-01 x\\n  a  1234.567.890 EUR\\n  b\\n")
	if err == nil {
		for _, a := range l.Accounts {
			if a.FullName() == "a" {
				t.Fatal(a.Splits[0].Value.FullString())
			}
		}
	}
}
'''), 'an amount with a group of more than three digits first and the same mark twice, in a currency seen for the first time', 'a wrongly grouped amount is accepted')
# ---- C07
seed('c07-last-digit', 'C07', [(AC, 'for i := 7; i >= precision; i-- {', 'for i := 7; i > precision; i-- {')],
 go('''func TestDemo(t *testing.T) {
	c := &accounting.Currency{Name: "EUR", Decimal: ".", Precision: 2}
	v := accounting.Value{Amount: 123_500_000, Currency: c}
	if s := v.FullString(); s != "1.235 EUR" {
		t.Fatal(s)
	}
}
'''), 'an amount with exactly one digit more than its currency shows', 'the full display loses that digit')
seed('c07-thousands', 'C07', [(AC, 'for n, l := 0, len(integer); n < 1+(l-1)/3; n++ {\n		if n > 0 {', 'for n, l := 0, len(integer); n < 1+(l-1)/3; n++ {\n		if n > 0 && n < 3 {')],
 go('''func TestDemo(t *testing.T) {
	c := &accounting.Currency{Name: "EUR", Decimal: ".", Thousand: ",", Precision: 0}
	v := accounting.Value{Amount: 1234567890 * accounting.U, Currency: c}
	if s := v.String(); s != "1,234,567,890 EUR" {
		t.Fatal(s)
	}
}
'''), 'a number of ten digits or more', 'it is shown without its thousands mark')
# ---- C08
seed('c08-same-day', 'C08', [(EX, 'if *s.Time != t.Time {', 'if s.Time.Format("2006-01-02") != t.Time.Format("2006-01-02") {')],
 cli({'j': 'commodity 1.00 EUR\naccount a\naccount b\n2020-01-01/10:00 x\n  a  5.00 EUR ; date:2020-01-01/18:30\n  b\n'}, '$ledger -f j print >p; $ledger -f p print; $ledger -f p -e 2020-01-01/15:00 bal'),
 'a posting dated at another hour of the same day', 'its date is not printed')
seed('c08-assertion-digits', 'C08', [(EX, 'fmt.Fprintf(out, " = %s", v.FullString())', 'fmt.Fprintf(out, " = %s", v.String())')],
 cli({'j': 'commodity 1.00 EUR\naccount a\naccount b\n2020-01-01/10:00 x\n  a  5.005 EUR = 5.005 EUR\n  b\n'}, '$ledger -f j print >p; $ledger -f p print'),
 'an asserted balance with more decimals than its currency shows', 'the printed journal is refused')
seed('c08-comment-lines', 'C08', [(EX, '''			if len(ledger.Comments[p]) > 1 {
				for _, c := range ledger.Comments[p][1:] {''', '''			if len(ledger.Comments[p]) > 2 {
				for _, c := range ledger.Comments[p][1:] {''')],
 cli({'j': 'commodity 1.00 EUR\ncommodity 1.00 USD\nP 2020-01-01 USD 0.90 EUR ; one\n  ; two\n'}, '$ledger -f j print'),
 'a price with exactly two comments', 'the second comment is lost when printing')
# ---- C09
seed('c09-shared-time', 'C09', [(AC, '''				ns.Time = new(time.Time)
				*ns.Time = *s.Time
''', '''				ns.Time = s.Time
''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "2020-01-01 x\\n  a  5.00 EUR ; date:2020-01-05\\n  b\\n")
	c := l.Clone()
	before := print(c)
	s := account(t, l, "a").Splits[0]
	*s.Time = s.Time.AddDate(1, 0, 0)
	if print(c) != before {
		t.Fatal("changing the original changes the clone")
	}
}
'''), 'changing in place the date of a posting with a date of its own', 'the clone changes with the original')
seed('c09-isin', 'C09', [(AC, '		nc.ISIN = c.ISIN\n', '		if nc.Precision == 0 {\n			nc.ISIN = c.ISIN\n		}\n')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "commodity 1.00 ACME\\n  ; isin:US0378331005\\n")
	if print(l.Clone()) != print(l) {
		t.Fatal(print(l.Clone()))
	}
}
'''), 'a currency with decimals and a security code', 'clones lose the security code')
# ---- C10
seed('c10-float', 'C10', [(AC, '''	i.Add(i, big.NewInt(prevValue.Amount))
	prevValue.Amount = i.Int64()
''', '''	i.Add(i, big.NewInt(prevValue.Amount))
	prevValue.Amount += int64(float32(nextValue.Amount-prevValue.Amount) * float32(when.Sub(prevTime).Seconds()/nextTime.Sub(prevTime).Seconds()))
''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "P 2020-01-01 ACME 1.00000000 EUR\\nP 2020-01-11 ACME 123.45678901 EUR\\n")
	acme, _ := l.GetCurrency("ACME")
	eur, _ := l.GetCurrency("EUR")
	v, err := l.Convert(accounting.Value{Amount: accounting.U, Currency: acme}, time.Date(2020, 1, 4, 12, 0, 0, 0, time.UTC), eur)
	if err != nil || v.Amount < 3773703670-1 || v.Amount > 3773703670+1 {
		t.Fatal(v.Amount, err)
	}
}
''', 'time'), 'an interpolated price with many digits', 'interpolated prices are only exact to a few digits')
seed('c10-closest', 'C10', [(AC, '''			if p.Time.Before(when) {
				prevTime, hasPrev = p.Time, true
				prevValue = p.Value
				continue
''', '''			if p.Time.Before(when.AddDate(0, 0, -7)) {
				prevTime, hasPrev = p.Time, true
				prevValue = p.Value
				continue
''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "P 2020-01-01 USD 2.00 EUR\\nP 2020-01-01 GBP 1.00 EUR\\nP 2020-01-05 ACME 1.00 USD\\nP 2020-01-08 ACME 5.00 GBP\\n")
	acme, _ := l.GetCurrency("ACME")
	eur, _ := l.GetCurrency("EUR")
	v, err := l.Convert(accounting.Value{Amount: accounting.U, Currency: acme}, time.Date(2020, 1, 9, 12, 0, 0, 0, time.UTC), eur)
	if err != nil || v.Amount != 5*accounting.U {
		t.Fatal(v.Amount, err)
	}
}
''', 'time'), 'an indirect conversion with two quotes in the week before', 'the amount goes through the currency of the older quote')
# ---- C11
seed('c11-price-date', 'C11', [(AC, '''		price := new(Price)
		price.Time = *s.Time
''', '''		price := new(Price)
		price.Time = s.Transaction.Time
''')],
 cli({'j': 'commodity 1.00 EUR\ncommodity 1.00 ACME\naccount a\naccount b\n2020-01-01 x\n  a  2.00 ACME @ 3.00 EUR ; date:2020-01-05\n  b\n'}, '$ledger -f j print'),
 'a posting with a price and a date of its own', 'one of the two implied quotes has the date of the transaction')
seed('c11-reverse', 'C11', [(AC, '''		i = big.NewInt(U)
		i.Mul(i, big.NewInt(s.Value.Amount))
		i.Quo(i, big.NewInt(v.Amount))
''', '''		i = big.NewInt(U)
		if rate := (l.Prices[len(l.Prices)-1].Value); rate.Amount != 0 && rate.Currency == v.Currency {
			i.Mul(i, i).Quo(i, big.NewInt(rate.Amount))
		} else {
			i.Mul(i, big.NewInt(s.Value.Amount))
			i.Quo(i, big.NewInt(v.Amount))
		}
''')],
 cli({'j': 'commodity 1.00 EUR\ncommodity 1.00 ACME\naccount a\naccount b\n2020-01-01 x\n  a  30000.00 ACME @@ 0.01 EUR\n  b\n'}, '$ledger -f j print'),
 'a posting with a very small price', 'the reverse quote is the inverse of an already rounded quote')
# ---- C12
seed('c12-map-total', 'C12', [(CL, '''	for _, v := range total {
		fmt.Printf("%*.*s\\n", maxLength, maxLength, v.String())
	}
''', '''	lines := make(map[*accounting.Currency]string)
	for _, v := range total {
		lines[v.Currency] = v.String()
	}
	for _, v := range lines {
		fmt.Printf("%*.*s\\n", maxLength, maxLength, v)
	}
''')],
 cli({'j': ''.join('commodity 1.00 %s\n' % c for c in ['A', 'B', 'C', 'D', 'E', 'F']) + 'account a\n  \naccount b\n2020-01-01 x\n' + ''.join('  a  5.00 %s @ 0.00 A\n' % c for c in 'BCDEF')},
 'for i in 1 2 3 4 5 6 7 8; do $ledger -f j bal; done'),
 'a total in several currencies', 'the order of the lines of the total changes from one run to the next')
# ---- C13
seed('c13-date-cache', 'C13', [(PA, '''// GetDate returns a time from a string.
func GetDate(s string) (time.Time, error) {
''', '''var lastDate struct {
	s string
	d time.Time
}

// GetDate returns a time from a string.
func GetDate(s string) (time.Time, error) {
	if s == lastDate.s && s != "" {
		return lastDate.d, nil
	}
	d, err := parseDate(s)
	if err == nil {
		lastDate.s, lastDate.d = s, d
	}
	return d, err
}

func parseDate(s string) (time.Time, error) {
''')],
 go('''func TestDemo(t *testing.T) {
	log.SetOutput(io.Discard)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		f := filepath.Join(t.TempDir(), fmt.Sprint("journal", g))
		text := ""
		for i := 0; i < 300; i++ {
			text += fmt.Sprintf("20%02d-01-01 x\\n  a  5.00 EUR\\n  b\\n", i/10+g)
		}
		os.WriteFile(f, []byte(text), 0o644)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 3; k++ {
				if _, err := accounting.Open("ledger:" + f); err != nil {
					t.Error(err)
				}
			}
		}()
	}
	wg.Wait()
}
''', 'fmt sync', race=True), 'journals opened at the same time from different goroutines', 'a data race: one of them can get the dates of another')
seed('c13-shared-currency', 'C13', [(AC, 'unbalancedSplit.Value.Currency = new(Currency)', 'unbalancedSplit.Value.Currency = noCurrency'),
  (AC, '''// Open opens a ledger specified by a URL-like string, where the scheme is the
''', '''var noCurrency = new(Currency) // currency of the amounts which turn out to be nothing

// Open opens a ledger specified by a URL-like string, where the scheme is the
''')],
 go('''func TestDemo(t *testing.T) {
	text := "2020-01-01 x\\n  a  5.00 EUR\\n  b  -5.00 EUR\\n  c\\n"
	l1, l2 := must(t, text), must(t, text)
	c1, c2 := account(t, l1, "c").Splits[0].Value.Currency, account(t, l2, "c").Splits[0].Value.Currency
	if c1 == c2 {
		t.Fatal("two ledgers share a currency")
	}
}
'''), 'postings without amount in transactions which already balance, in two ledgers', 'the ledgers share a currency, so that a change in one is a change in the other')
# ---- C14
seed('c14-empty-amount', 'C14', [(PA, '''	if len(sAmount) == 0 {
		return value, errors.New("syntax error: empty amount"), newCurrency
	}
	var punct string''', '''	var punct string''')],
 go('''func TestDemo(t *testing.T) {
	open(t, "2020-01-01 x\\n  a  EUR -\\n  b\\n")
}
'''), 'an amount which is only a sign', 'opening panics')
seed('c14-endless', 'C14', [(AC, '''				finished = false
				s := l.Accounts[i].Splits[iAccounts[i]]
				if s.Value == (Value{}) && l.Assertions[s] == (Value{}) {
					break
				}
				deadlock = false
''', '''				finished = false
				s := l.Accounts[i].Splits[iAccounts[i]]
				deadlock = deadlock && len(l.Assertions) > 1
				if s.Value == (Value{}) && l.Assertions[s] == (Value{}) {
					break
				}
				deadlock = false
''')],
 go('''func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		open(t, "2020-01-01 x\\n  b\\n  a  1.00 EUR = 1.00 EUR ; date:2020-01-05\\n  b  = 5.00 EUR ; date:2020-01-06\\n")
		open(t, "2020-01-01 x\\n  a\\n  b  5.00 EUR\\n2020-01-02 y\\n  a  ; date:2019-12-30\\n  a  = 5.00 EUR\\n")
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("it does not end")
	}
}
''', 'time'), 'one assertion which can not be completed because it needs an amount that needs it', 'opening never ends')
# ---- C15
seed('c15-include-cut', 'C15', [(PA, '''	line.Err = file.s.Err()
	if line.Err == nil {''', '''	line.Err = file.s.Err()
	if line.Err == nil || len(s.files) > 1 {''')],
 cli({'j': 'commodity 1.00 EUR\naccount a\naccount b\ninclude k\n2020-01-03 y\n  a  5.00 EUR\n  b\n', 'k': '2020-01-01 x\n  a  5.00 EUR\n  b\n; ' + 'x' * 70000 + '\n2020-01-02 z\n  a  5.00 EUR\n  b\n'}, '$ledger -f j bal; echo $?'),
 'an included file with a line which can not be read', 'the rest of the included file is silently ignored')
seed('c15-silent-indented', 'C15', [(PA, '''		log.Printf("%s:%d: UNIMPLEMENTED''', '''		if indented && lastLine == lineNone {
			continue // part of something already reported
		}
		log.Printf("%s:%d: UNIMPLEMENTED''')],
 cli({'j': 'commodity 1.00 EUR\naccount a\naccount b\ncommodity 1.00 USD\n'}, 'printf "  a  5.00 EUR\\n" | cat - j >k; $ledger -f k bal 2>&1 | grep -c UNIMPL'),
 'a posting without a transaction at the beginning of a file', 'it is ignored without a word')
# ---- C16
seed('c16-cents', 'C16', [(TX, 'sp.Value.Amount = sign * int64(math.Round(100*f)) * 1000_000', 'sp.Value.Amount = sign * int64(100*f) * 1000_000')],
 cli({'db/accounts': '1:x:x:Cash::\n2:x:x:Food::\n', 'db/transactions': ':2020-01-01:x::1:+0.29:\n:2020-01-01:x::2:-0.29:\n'}, '$acc txtdb:$PWD/db', tool='acc'),
 'an amount such as 0.29 whose cents are not exact in floating point', 'a cent is lost')
seed('c16-signed-balance', 'C16', [(TX, 'v.Amount = sign * int64(math.Round(100*f)) * 1000_000\n			c.ledger.Assertions[sp] = v', 'v.Amount = sign * int64(100*f+0.5) * 1000_000\n			if offset == 0 {\n				v.Amount = int64(math.Round(f)) * accounting.U\n			}\n			c.ledger.Assertions[sp] = v')],
 cli({'db/accounts': '1:x:x:Cash::\n2:x:x:Food::\n', 'db/transactions': ':2020-01-01:x::1:+1.29:\n:2020-01-01:x::2:-1.29:\n:2020-01-02:x::1::1.29\n'}, '$acc txtdb:$PWD/db', tool='acc'),
 'a resulting balance written without a sign and with cents', 'the asserted balance loses its cents')
# ---- C17
seed('c17-same-name', 'C17', [(CL, '''	for _, b := range *where {
		if b.Account == a {''', '''	for _, b := range *where {
		if b.Account == a || (b.Name == name && b.Level == level && level > 1) {''')],
 cli({'j': 'commodity 1.00 EUR\naccount As\naccount As:One\naccount As:One:Cash\naccount As:Two\naccount As:Two:Cash\naccount b\n2020-01-01 x\n  As:One:Cash  5.00 EUR\n  b\n2020-01-01 x\n  As:Two:Cash  7.00 EUR\n  b\n'}, '$ledger -f j bal as'),
 'two accounts with the same short name at the same depth below the accounts named', 'one of them is missing in the report')
seed('c17-case', 'C17', [(CL, '''				if strings.Contains(strings.ToLower(a.FullName()), strings.ToLower(b)) {
					insertAccount''', '''				if strings.Contains(strings.ToLower(a.Name), strings.ToLower(b)) || strings.Contains(strings.ToLower(a.FullName()), b) {
					insertAccount''')],
 cli({'j': 'commodity 1.00 EUR\naccount Assets\naccount Assets:Bank\naccount b\n2020-01-01 x\n  Assets:Bank  5.00 EUR\n  b\n'}, '$ledger -f j bal Assets:B; $ledger -f j bal bank'),
 'an account named with capital letters across several levels', 'the account is not found')
# ---- C18
seed('c18-begin-second', 'C18', [(CL, '''				if L.Accounts[i].Splits[j].Time.Before(flags.beginDate) {''', '''				if !L.Accounts[i].Splits[j].Time.After(flags.beginDate) {''')],
 cli({'j': 'commodity 1.00 EUR\naccount a\naccount b\n2020-01-01/00:00 x\n  a  5.00 EUR\n  b\n'}, '$ledger -f j -b 2020 delta a'),
 'a posting dated exactly at the begin of the period', 'it does not count in the period')
seed('c18-is-total', 'C18', [(CL, '''			b := a.Splits[0].Balance.Dup()
			b.SubBalance(a.Splits[len(a.Splits)-1].Balance)
			b.Sub(a.Splits[0].Value)
''', '''			b := a.StartBalance.Dup()
			if len(b) == 0 {
				b = a.Splits[0].Balance.Dup()
				b.Sub(a.Splits[0].Value)
			}
			b.SubBalance(a.Splits[len(a.Splits)-1].Balance)
			if len(a.StartBalance) > 1 {
				b.Sub(a.Splits[0].Value)
			}
''')],
 cli({'j': 'commodity 1.00 EUR\naccount Income\naccount Income:Job\naccount b\n2020-01-01 x\n  Income:Job  -5.00 EUR\n  b\n2020-01-01 x\n  Income:Job  -5.00 USD\n  b\n2021-01-02 x\n  Income:Job  -7.00 EUR\n  b\n'}, '$ledger -f j is; $ledger -f j -b 2021 is'),
 'the income statement of a period, for an account which had two currencies before', 'the first posting counts twice')
# ---- C19
seed('c19-currency-carries', 'C19', [(CL, '''func main2(L *accounting.Ledger, args []string) {
	var flags flags
''', '''var currencies sliceString

func main2(L *accounting.Ledger, args []string) {
	var flags flags
'''), (CL, 'f.Var(&flags.currency, "currency", "only show balances in this currency")', 'f.Var(&currencies, "currency", "only show balances in this currency")'),
 (CL, '''	f.Parse(args)
	if txtBeginDate != "" {''', '''	f.Parse(args)
	flags.currency = currencies
	if txtBeginDate != "" {''')],
 cli({'j': 'commodity 1.00 EUR\ncommodity 1.00 USD\naccount a\naccount b\n2020-01-01 x\n  a  5.00 EUR\n  b\n2020-01-01 x\n  a  7.00 USD\n  b\n'}, '$ledger -f j -currency EUR bal a -- bal a'),
 'a report with a currency restriction followed by one without', 'the restriction carries over')
# ---- C20
seed('c20-search', 'C20', [(AC, '''	for i := 1; i < len(account.Splits); i++ {
		if account.Splits[i].Time.After(when) {
			return account.Splits[i-1].Balance
		}
	}
	return account.Splits[len(account.Splits)-1].Balance
''', '''	i := sort.Search(len(account.Splits), func(i int) bool {
		return !account.Splits[i].Time.Before(when)
	})
	if i < len(account.Splits) && account.Splits[i].Time.Equal(when) {
		i++
	}
	return account.Splits[i-1].Balance
''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "2020-01-01 x\\n  a  5.00 EUR\\n  b\\n2020-01-02 x\\n  a  5.00 EUR\\n  a  6.00 EUR\\n  b\\n")
	if b := l.GetBalance(account(t, l, "a"), time.Date(2020, 1, 2, 12, 0, 0, 0, time.UTC)); b.String() != "16.00 EUR" {
		t.Fatal(b)
	}
}
''', 'time'), 'two postings of an account at the very moment asked for', 'the balance lacks the second one')
seed('c20-twice', 'C20', [(AC, '''				trans = append(trans, t)
				break
''', '''				trans = append(trans, t)
				if len(t.Splits) < 3 {
					break
				}
''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "2020-01-01 x\\n  a  5.00 EUR\\n  a  6.00 EUR\\n  b\\n")
	if ts := l.TransactionsInAccount(account(t, l, "a").ID); len(ts) != 1 {
		t.Fatal(len(ts))
	}
}
'''), 'a transaction with two postings in the same account', 'it is listed twice')
# ---- C21
seed('c21-mul-overflow', 'C21', [(AC, '''	i := big.NewInt(value.Amount)
	i.Mul(i, big.NewInt(v2.Amount))
	i.Div(i, big.NewInt(U))
	value.Amount = i.Int64()
''', '''	if value.Amount%U == 0 {
		value.Amount = value.Amount / U * v2.Amount
		return
	}
	i := big.NewInt(value.Amount / U)
	i.Mul(i, big.NewInt(v2.Amount))
	value.Amount = i.Int64() + value.Amount%U*v2.Amount/U
''')],
 go('''func TestDemo(t *testing.T) {
	v := accounting.Value{Amount: 99_999_999}
	v.Mul(accounting.Value{Amount: 5000 * accounting.U})
	if v.Amount != 499_999_995_000 {
		t.Fatal(v.Amount)
	}
}
'''), 'multiplying an amount with many decimals by one of some thousands', 'the intermediate product overflows')
seed('c21-zero-left', 'C21', [(AC, '''			if (*b)[i].Amount == 0 {
				(*b)[i] = (*b)[len(*b)-1]
				*b = (*b)[:len(*b)-1]
			}
			return''', '''			if (*b)[i].Amount == 0 && i < 2 {
				(*b)[i] = (*b)[len(*b)-1]
				*b = (*b)[:len(*b)-1]
			}
			return''')],
 go('''func TestDemo(t *testing.T) {
	var b accounting.Balance
	cs := make([]accounting.Currency, 3)
	for i := range cs {
		b.Add(accounting.Value{Amount: 5, Currency: &cs[i]})
	}
	b.Sub(accounting.Value{Amount: 5, Currency: &cs[2]})
	if len(b) != 2 {
		t.Fatal(b)
	}
}
'''), 'a balance with three currencies of which the last vanishes', 'a currency with amount zero remains')
# ---- C22
seed('c22-case', 'C22', [(PA, '''		if str == l.ledger.Accounts[i].FullName() {''', '''		if strings.EqualFold(str, l.ledger.Accounts[i].FullName()) && len(str) > 2 {''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "2020-01-01 x\\n  Cash:Bank  5.00 EUR\\n  b\\n  Cash:bank  5.00 EUR\\n")
	account(t, l, "Cash:bank")
	n := 0
	for _, a := range l.Accounts {
		if a.FullName() == "b" {
			n++
		}
	}
	if n != 1 {
		t.Fatal(n)
	}
}
'''), 'accounts whose names differ only in case', 'they become one account')
seed('c22-parent', 'C22', [(PA, '''	if i := strings.LastIndexByte(str, ':'); i > -1 {
		parent, _ =''', '''	if i := strings.LastIndexByte(str, ':'); i > -1 && !strings.HasSuffix(str[:i], ":") {
		parent, _ =''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "account a::b\\n")
	account(t, l, "a:")
	account(t, l, "a")
}
'''), 'an account name with an empty component', 'its ancestors do not exist')
# ---- C23
seed('c23-relative', 'C23', [(PA, '''filename = path.Join(path.Dir(s.files[len(s.files)-1].filename), filename)''', '''filename = path.Join(path.Dir(s.files[0].filename), filename)''')],
 cli({'j': 'commodity 1.00 EUR\naccount a\naccount b\ninclude sub/k\n', 'sub/k': 'include l\n', 'sub/l': '2020-01-01 x\n  a  5.00 EUR\n  b\n'}, '$ledger -f j bal'),
 'a file included by a file in another directory', 'it is looked for in the directory of the main journal')
# ---- C24
seed('c24-february', 'C24', [(CL, 'flags.endDate = flags.endDate.AddDate(0, 1, -1)', 'flags.endDate = flags.endDate.AddDate(0, 0, []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[flags.endDate.Month()-1]-1)')],
 cli({'j': 'commodity 1.00 EUR\naccount a\naccount b\n2020-02-29 x\n  a  5.00 EUR\n  b\n'}, '$ledger -f j -e 2020-02 bal'),
 'the February of a leap year as the end', 'its last day is left out')
seed('c24-last-minute', 'C24', [(CL, 'txtEndDate = txtEndDate + "/23:59:59"', 'txtEndDate = txtEndDate + "/23:59"')],
 cli({'j': 'commodity 1.00 EUR\naccount a\naccount b\n2020-02-29/23:59:30 x\n  a  5.00 EUR\n  b\n'}, '$ledger -f j -e 2020-02-29 bal'),
 'a posting in the last minute of the last day', 'it is left out')
# ---- C25
seed('c25-children', 'C25', [(AC, '''		a.Splits = nil
		a.Children = nil
''', '''		a.Splits = nil
		if a.Parent == nil {
			a.Children = nil
		}
''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "account a\\naccount a:b\\naccount a:b:c\\n")
	before := print(l)
	if err := l.Fill(); err != nil {
		t.Fatal(err)
	}
	if s := print(l); s != before {
		t.Fatal(s)
	}
}
'''), 'recalculating a ledger with accounts three levels deep', 'accounts are duplicated')
seed('c25-own-time', 'C25', [(AC, '''				s.Time = &t.Time
			}
			s.Account.Splits =''', '''				when := t.Time
				s.Time = &when
			}
			s.Account.Splits =''')],
 go('''func TestDemo(t *testing.T) {
	l := must(t, "2020-01-01 x\\n  a  5.00 EUR\\n  b\\n")
	l.Transactions[0].Time = l.Transactions[0].Time.AddDate(0, 0, 1)
	if err := l.Fill(); err != nil {
		t.Fatal(err)
	}
	if n := len(l.Transactions[0].Splits); n != 2 {
		t.Fatal(n)
	}
}
'''), 'changing the date of a transaction and recalculating', 'its postings keep the old date')
# ---- C26
seed('c26-register', 'C26', [(AC, '''	if _, dup := drivers[name]; dup {
		panic("accounting: Register called twice for driver " + name)
	}
	drivers[name] = driver
''', '''	_, dup := drivers[name]
	drivers[name] = driver
	if dup {
		panic("accounting: Register called twice for driver " + name)
	}
''')],
 go('''type drv struct{ name string }

func (d drv) Open(name string, b *accounting.Backend) (accounting.Connection, error) {
	return nil, errors.New(d.name)
}

func TestDemo(t *testing.T) {
	accounting.Register("demo", drv{"first"})
	func() {
		defer func() { recover() }()
		accounting.Register("demo", drv{"second"})
	}()
	if _, err := accounting.Open("demo:x"); err == nil || err.Error() != "first" {
		t.Fatal(err)
	}
}
''', 'errors'), 'registering a name twice and going on', 'the second backend replaces the first')
seed('c26-datasource', 'C26', [(AC, 'drivers[backend].Open(dataSource, b)', 'drivers[backend].Open(url.String(), b)')],
 go('''type drv struct{}

func (d drv) Open(name string, b *accounting.Backend) (accounting.Connection, error) {
	return nil, errors.New(name)
}

func TestDemo(t *testing.T) {
	accounting.Register("demo", drv{})
	if _, err := accounting.Open("demo:a b?"); err == nil || err.Error() != "demo:a b?" {
		t.Fatal(err)
	}
	if _, err := accounting.Open("demo:/a b"); err == nil || err.Error() != "demo:/a b" {
		t.Fatal(err)
	}
}
''', 'errors'), 'a data source with characters which URLs escape', 'the backend gets another data source')
# ---- C27
seed('c27-tag-case', 'C27', [(PA, '''	tag.Name = t[0:i]
	tag.Value = t[i+1:]
''', '''	tag.Name = t[0:i]
	tag.Value = strings.TrimSpace(t[i+1:])
	if tag.Name == "isin" || tag.Name == "security" {
		tag.Name = "isin"
	}
''')],
 cli({'j': 'commodity 1.00 EUR\n  ; security:x y\n'}, '$ledger -f j print'),
 'a currency with a comment "security:..."', 'an ordinary comment sets the security code')
seed('c27-price-owner', 'C27', [(PA, '''				var price *accounting.Price = l.ledger.Prices[len(l.ledger.Prices)-1]
					l.addComment(price, comment)''', '''				var price *accounting.Price = l.ledger.Prices[0]
					for _, p := range l.ledger.Prices {
						if p.Time.After(price.Time) {
							price = p // the last one
						}
					}
					l.addComment(price, comment)''')],
 cli({'j': 'commodity 1.00 EUR\ncommodity 1.00 USD\ncommodity 1.00 GBP\nP 2020-01-01 USD 0.90 EUR\nP 2020-01-01 GBP 1.20 EUR\n  ; two\n'}, '$ledger -f j print'),
 'a comment below the second of two prices of the same moment', 'it goes to the first one')
# ---- C28
seed('c28-begin-date', 'C28', [(CL, 'nv, err := L.Convert(v, flags.beginDate, L.DefaultCurrency)', 'nv, err := L.Convert(v, flags.beginDate.AddDate(0, 0, 1), L.DefaultCurrency)')],
 cli({'j': 'commodity 1.00 EUR\ncommodity 1.00 USD\naccount a\naccount b\nP 2019-01-01 USD 1.00 EUR\n2019-02-01 x\n  a  100.00 USD\n  b\nP 2021-01-01 USD 3.00 EUR\nD 1.00 EUR\n'}, '$ledger -f j -b 2020 -e 2020 -market delta a'),
 'prices which change around the begin date', 'the value at the begin is that of a day later')
seed('c28-total', 'C28', [(CL, '''	for _, v := range total {
		length := len(v.String())''', '''	if flags.market && len(flags.currency) == 0 {
		var bal accounting.Balance
		for _, a := range accounts {
			if n := len(a.Account.Splits); n > 0 {
				bal.AddBalance(a.Account.Splits[n-1].Balance)
			} else {
				bal.AddBalance(a.Account.StartBalance)
			}
		}
		total = nil
		for _, v := range bal {
			nv, err := L.Convert(v, flags.endDate, L.DefaultCurrency)
			if err != nil {
				return err
			}
			total.Add(nv)
		}
	}
	for _, v := range total {
		length := len(v.String())''')],
 cli({'j': 'commodity 1.00000000 EUR\ncommodity 1.00000000 USD\naccount a\naccount b\naccount c\nP 2019-01-01 USD 0.50000000 EUR\n2019-02-01 x\n  a  0.00000001 USD\n  b  0.00000001 USD\n  c\nD 1.00000000 EUR\n'}, '$ledger -f j -e 2020 -market bal a b'),
 'converted balances with fractions of the smallest unit', 'the total is not the sum of the lines shown')
# ---- C30
seed('c30-days', 'C30', [(MU, '''		flags.measureMonths = 0
		_, err = fmt.Sscanf(txtMeasurePeriod+"_", "%dd_", &flags.measureDays)''', '''		_, err = fmt.Sscanf(txtMeasurePeriod+"_", "%dd_", &flags.measureDays)''')],
 cli({'j': 'commodity 1.00 EUR\ncommodity 1.00 ACME\nP 2019-01-01 ACME 1.00 EUR\nP 2019-12-21/23:59:59 ACME 2.00 EUR\nP 2019-12-31/23:59:59 ACME 3.00 EUR\nD 1.00 EUR\n'}, '$muscular -f j -e 2019 -measureperiod 10d ACME', tool='muscular'),
 'a measuring period given only in days', 'the days also count as months')
# ---- C31
seed('c31-days', 'C31', [(CL, '''		end := time.Date(lastYear, lastMonth, lastDay, 0, 0, 0, 0, time.UTC)
		start := time.Date(firstYear, firstMonth, firstDay, 0, 0, 0, 0, time.UTC)
''', '''		end := time.Date(lastYear, lastMonth, lastDay, last.Hour(), last.Minute(), 0, 0, time.UTC)
		start := time.Date(firstYear, firstMonth, firstDay, first.Hour(), first.Minute(), 0, 0, time.UTC)
''')],
 cli({'j': 'commodity 1.00 EUR\naccount a\naccount b\n2020-01-01/20:00 x\n  a  5.00 EUR\n  b\n2020-01-03/10:00 x\n  a  5.00 EUR\n  b\n'}, '$ledger -f j stats'),
 'a last transaction earlier in its day than the first', 'the span is a day short')
