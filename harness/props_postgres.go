package main

// C29: PostgreSQL data sources, with a server which does what the case says.

import (
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/url"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/cespedes/accounting"
	_ "github.com/cespedes/accounting/backend/postgres"
)

// pgCell is one value of a row, as text; nil is NULL.
type pgCell *string

func pgText(s string) pgCell { return &s }

type pgAccount struct {
	id         int
	name, code string
	nullCode   bool
}

type pgSplit struct {
	acc   int
	cents int64
}

type pgTx struct {
	id     int
	t      time.Time
	desc   string
	splits []pgSplit
}

type pgFault struct {
	stage string // "", connect, query
	kind  string
	query int // which of the queries: 0 the accounts, 1 the movements
	rows  int // after how many rows
	conns int // how many connections suffer it (0: all)
}

func (f pgFault) String() string {
	if f.stage == "" {
		return "none"
	}
	return fmt.Sprintf("%s/%s query %d row %d connections %d", f.stage, f.kind, f.query, f.rows, f.conns)
}

// pgServer speaks as much of the protocol as the driver needs.
type pgServer struct {
	ln    net.Listener
	accs  []pgAccount
	txs   []pgTx
	fault pgFault

	mu        sync.Mutex
	conns     int
	open      int
	delivered int    // times the fault happened
	strange   string // something which this server does not understand
	seen      []string
	wg        sync.WaitGroup
}

func newPG(dir string, unix bool) (*pgServer, string, error) {
	s := &pgServer{}
	var err error
	if unix {
		s.ln, err = net.Listen("unix", filepath.Join(dir, ".s.PGSQL.5432"))
		if err != nil {
			return nil, "", err
		}
		s.wg.Add(1)
		go s.serve()
		return s, "postgres:///books?sslmode=disable&user=me&host=" + url.QueryEscape(dir), nil
	}
	s.ln, err = net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, "", err
	}
	s.wg.Add(1)
	go s.serve()
	return s, "postgres://me:secret@" + s.ln.Addr().String() + "/books?sslmode=disable", nil
}

func (s *pgServer) serve() {
	defer s.wg.Done()
	for {
		c, err := s.ln.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		s.conns++
		s.open++
		n := s.conns
		s.mu.Unlock()
		s.wg.Add(1)
		go func() {
			defer s.wg.Done()
			p := &pgSession{s: s, c: c, n: n, tx: 'I'}
			p.run()
			c.Close()
			s.mu.Lock()
			s.open--
			s.mu.Unlock()
		}()
	}
}

func (s *pgServer) active() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.open
}

type pgSession struct {
	s    *pgServer
	c    net.Conn
	n    int
	tx   byte
	stmt string
	out  []byte
}

func (p *pgSession) msg(t byte, body ...[]byte) {
	n := 4
	for _, b := range body {
		n += len(b)
	}
	p.out = append(p.out, t, 0, 0, 0, 0)
	binary.BigEndian.PutUint32(p.out[len(p.out)-4:], uint32(n))
	for _, b := range body {
		p.out = append(p.out, b...)
	}
}

func (p *pgSession) flush() error {
	_, err := p.c.Write(p.out)
	p.out = nil
	return err
}

func (p *pgSession) fail(severity, code, text string) {
	p.msg('E', []byte("S"+severity+"\x00C"+code+"\x00M"+text+"\x00\x00"))
}

func (p *pgSession) ready() { p.msg('Z', []byte{p.tx}) }

// hit tells whether the fault is for this connection now.
func (p *pgSession) hit(stage string) bool {
	f := p.s.fault
	if f.stage != stage || f.conns > 0 && p.n > f.conns {
		return false
	}
	p.s.mu.Lock()
	p.s.delivered++
	p.s.mu.Unlock()
	return true
}

func (p *pgSession) read() (byte, []byte, error) {
	h := make([]byte, 5)
	if _, err := io.ReadFull(p.c, h); err != nil {
		return 0, nil, err
	}
	n := int(binary.BigEndian.Uint32(h[1:])) - 4
	if n < 0 || n > 1<<20 {
		return 0, nil, fmt.Errorf("length %d", n)
	}
	b := make([]byte, n)
	_, err := io.ReadFull(p.c, b)
	return h[0], b, err
}

func (p *pgSession) run() {
	p.c.SetDeadline(time.Now().Add(60 * time.Second))
	f := p.s.fault
	kind := f.kind
	connect := p.hit("connect")
	if connect && kind == "close" {
		return
	}
	h := make([]byte, 4)
	if _, err := io.ReadFull(p.c, h); err != nil {
		return
	}
	n := int(binary.BigEndian.Uint32(h)) - 4
	if n < 4 || n > 1<<20 {
		return
	}
	if _, err := io.ReadFull(p.c, make([]byte, n)); err != nil {
		return
	}
	if connect {
		switch kind {
		case "close after hello":
			return
		case "refuse":
			p.fail("FATAL", "28P01", "password authentication failed")
			p.flush()
			return
		case "starting":
			p.fail("FATAL", "57P03", "the database system is starting up")
			p.flush()
			return
		case "no database":
			p.fail("FATAL", "3D000", "database does not exist")
			p.flush()
			return
		case "strange authentication":
			p.msg('R', []byte{0, 0, 0, 99})
			p.flush()
			return
		case "garbage":
			p.c.Write([]byte("?\x00\x00\x00\x0e what now?"))
			return
		case "half a message":
			p.c.Write([]byte{'R', 0, 0, 0, 8, 0})
			return
		case "close after welcome":
			p.msg('R', []byte{0, 0, 0, 0})
			p.msg('S', []byte("server_version\x0012.3\x00"))
			p.flush()
			return
		}
	}
	p.msg('R', []byte{0, 0, 0, 0})
	for _, kv := range []string{"server_version\x0012.3", "TimeZone\x00UTC", "client_encoding\x00UTF8", "DateStyle\x00ISO, MDY", "integer_datetimes\x00on"} {
		p.msg('S', []byte(kv+"\x00"))
	}
	p.msg('K', []byte{0, 0, 0, 1, 0, 0, 0, 2})
	p.ready()
	if p.flush() != nil {
		return
	}
	if connect && kind == "close when ready" {
		return
	}
	skip := false
	for {
		t, b, err := p.read()
		if err != nil || t == 'X' {
			return
		}
		str := func() string {
			i := strings.IndexByte(string(b), 0)
			if i < 0 {
				i = len(b)
			}
			s := string(b[:i])
			if i < len(b) {
				i++
			}
			b = b[i:]
			return s
		}
		if skip && t != 'S' {
			continue
		}
		ok := true
		switch t {
		case 'Q':
			ok = p.query(str(), 'Q')
			if ok {
				p.ready()
			}
		case 'P':
			str()
			p.stmt = str()
			p.msg('1')
		case 'B':
			p.msg('2')
		case 'D':
			p.msg('t', []byte{0, 0})
			ok = p.query(p.stmt, 'D')
		case 'E':
			ok = p.query(p.stmt, 'E')
		case 'C':
			p.msg('3')
		case 'S':
			skip = false
			p.ready()
		case 'H':
		default:
			p.s.mu.Lock()
			p.s.strange = fmt.Sprintf("message %q", t)
			p.s.mu.Unlock()
			return
		}
		if t != 'Q' && len(p.out) > 0 && strings.HasPrefix(string(p.out), "E") {
			skip = true
		}
		if p.flush() != nil || !ok {
			return
		}
	}
}

var (
	pgSelect = regexp.MustCompile(`(?is)^\s*select\s+(?:distinct\s+)?(.*?)\s+from\s`)
	pgAlias  = regexp.MustCompile(`(?is)\s+as\s+"?(\w+)"?\s*$`)
	pgFactor = regexp.MustCompile(`\b(10*)(?:\.0)?\s*\*|\*\s*(10*)(?:\.0)?\b`)
)

// columns are the expressions asked by a query.
func pgColumns(q string) []string {
	m := pgSelect.FindStringSubmatch(q)
	if m == nil {
		return nil
	}
	var cols []string
	depth, from := 0, 0
	s := m[1]
	for i, c := range s {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ',':
			if depth == 0 {
				cols = append(cols, s[from:i])
				from = i + 1
			}
		}
	}
	return append(cols, s[from:])
}

const (
	pgInt4      = 23
	pgInt8      = 20
	pgString    = 25
	pgTimestamp = 1114
	pgNumeric   = 1700
)

// scaled gives an amount of cents as the expression asks for it.
func pgScaled(expr string, cents int64) (string, int) {
	m := pgFactor.FindStringSubmatch(expr)
	lower := strings.ToLower(expr)
	oid := pgNumeric
	switch {
	case strings.Contains(lower, "bigint"), strings.Contains(lower, "int8"):
		oid = pgInt8
	case strings.Contains(lower, "int"):
		oid = pgInt4
	}
	if m == nil {
		if oid != pgNumeric {
			return strconv.FormatInt(cents/100, 10), oid
		}
		sign := ""
		if cents < 0 {
			sign, cents = "-", -cents
		}
		return fmt.Sprintf("%s%d.%02d", sign, cents/100, cents%100), oid
	}
	z := len(m[1]) + len(m[2]) - 1
	v := strconv.FormatInt(cents, 10)
	for ; z > 2; z-- {
		if cents != 0 {
			v += "0"
		}
	}
	if z < 2 && oid != pgNumeric {
		for ; z < 2; z++ {
			cents /= 10
		}
		v = strconv.FormatInt(cents, 10)
	}
	return v, oid
}

// used tells whether an account has any movement.
func (s *pgServer) used(acc int) bool {
	for _, t := range s.txs {
		for _, sp := range t.splits {
			if sp.acc == acc {
				return true
			}
		}
	}
	return false
}

func (s *pgServer) table(q string) (cols []string, oids []int, rows [][]pgCell, ok bool) {
	cols = pgColumns(q)
	if cols == nil {
		return nil, nil, nil, false
	}
	oids = make([]int, len(cols))
	names := make([]string, len(cols))
	exprs := make([]string, len(cols))
	moves := false
	for i, e := range cols {
		if m := pgAlias.FindStringSubmatchIndex(e); m != nil {
			names[i] = strings.ToLower(e[m[2]:m[3]])
			e = e[:m[0]]
		}
		exprs[i] = strings.ToLower(strings.TrimSpace(e))
		if strings.Contains(exprs[i], "datetime") {
			moves = true
		}
	}
	has := func(e string, w string) bool { return regexp.MustCompile(`\b` + w + `\b`).MatchString(e) }
	cell := func(i int, a *pgAccount, t *pgTx, sp *pgSplit, bal int64) pgCell {
		e := exprs[i]
		switch {
		case has(e, "datetime"):
			oids[i] = pgTimestamp
			return pgText(t.t.Format("2006-01-02 15:04:05.999999"))
		case has(e, "description"):
			oids[i] = pgString
			return pgText(t.desc)
		case has(e, "transaction_id") || moves && (e == "t.id" || e == "transaction.id"):
			oids[i] = pgInt4
			return pgText(strconv.Itoa(t.id))
		case has(e, "account_id") || moves && (e == "a.id" || e == "account.id"):
			oids[i] = pgInt4
			return pgText(strconv.Itoa(sp.acc))
		case has(e, "sum") && !moves && !strings.Contains(e, "coalesce") && !s.used(a.id):
			_, oids[i] = pgScaled(e, 0)
			return nil // as sum() of nothing
		case has(e, "balance") || has(e, "sum"):
			v, oid := pgScaled(e, bal)
			oids[i] = oid
			return pgText(v)
		case has(e, "value"):
			v, oid := pgScaled(e, sp.cents)
			oids[i] = oid
			return pgText(v)
		case !moves && (e == "id" || e == "a.id" || e == "account.id"):
			oids[i] = pgInt4
			return pgText(strconv.Itoa(a.id))
		case has(e, "name"):
			oids[i] = pgString
			for k := range s.accs {
				if moves && s.accs[k].id == sp.acc {
					return pgText(s.accs[k].name)
				}
			}
			if moves {
				return nil
			}
			return pgText(a.name)
		case !moves && has(e, "code"):
			oids[i] = pgString
			if a.nullCode && !strings.Contains(e, "coalesce") {
				return nil
			}
			return pgText(a.code)
		}
		ok = false
		return nil
	}
	ok = true
	total := map[int]int64{}
	if moves {
		for k := range s.txs {
			t := &s.txs[k]
			for m := range t.splits {
				sp := &t.splits[m]
				total[sp.acc] += sp.cents
				row := make([]pgCell, len(cols))
				for i := range cols {
					row[i] = cell(i, nil, t, sp, total[sp.acc])
				}
				rows = append(rows, row)
			}
		}
		if len(rows) == 0 {
			for i := range cols {
				cell(i, nil, &pgTx{}, &pgSplit{}, 0)
			}
		}
	} else {
		for _, t := range s.txs {
			for _, sp := range t.splits {
				total[sp.acc] += sp.cents
			}
		}
		for k := range s.accs {
			row := make([]pgCell, len(cols))
			for i := range cols {
				row[i] = cell(i, &s.accs[k], nil, nil, total[s.accs[k].id])
			}
			rows = append(rows, row)
		}
		if len(rows) == 0 {
			for i := range cols {
				cell(i, &pgAccount{}, nil, nil, 0)
			}
		}
	}
	return
}

// query answers one query; it returns false when the connection must be closed.
func (p *pgSession) query(q string, how byte) bool {
	if !strings.Contains(strings.ToLower(q), "from") {
		w := strings.ToUpper(strings.Trim(strings.TrimSpace(q), ";"))
		switch {
		case w == "":
			if how == 'D' {
				p.msg('n')
			} else {
				p.msg('I')
			}
			return true
		case strings.HasPrefix(w, "BEGIN") || strings.HasPrefix(w, "START"):
			p.tx = 'T'
		case w == "COMMIT" || w == "ROLLBACK":
			p.tx = 'I'
		}
		if how == 'D' {
			p.msg('n')
		} else {
			p.msg('C', []byte(strings.SplitN(w+" ", " ", 2)[0]+"\x00"))
		}
		return true
	}
	s := p.s
	fail := false
	if how != 'E' {
		s.mu.Lock()
		s.seen = append(s.seen, q)
		s.mu.Unlock()
	}
	which := 0
	if strings.Contains(strings.ToLower(q), "datetime") {
		which = 1
	}
	if s.fault.stage == "query" && s.fault.query == which {
		fail = p.hit("query")
	}
	cols, oids, rows, ok := s.table(q)
	if !ok {
		s.mu.Lock()
		s.strange = "query " + q
		s.mu.Unlock()
		p.fail("ERROR", "0A000", "this server does not understand it")
		return true
	}
	kind := s.fault.kind
	if !fail {
		kind = ""
	}
	switch kind {
	case "error":
		p.fail("ERROR", "42P01", "relation does not exist")
		return true
	case "fatal":
		p.fail("FATAL", "57P01", "terminating connection due to administrator command")
		p.flush()
		return false
	case "close":
		return false
	case "garbage":
		p.out = append(p.out, "?\x00\x00\x00\x19 is this PostgreSQL?"...)
		p.flush()
		return false
	}
	if kind == "few columns" && len(cols) > 1 {
		cols = cols[1:]
		oids = oids[1:]
		for i := range rows {
			rows[i] = rows[i][1:]
		}
	}
	if kind == "many columns" {
		cols = append(cols[:len(cols):len(cols)], "more")
		oids = append(oids[:len(oids):len(oids)], pgString)
		for i := range rows {
			rows[i] = append(rows[i], pgText("x"))
		}
	}
	if how != 'E' {
		body := []byte{byte(len(cols) >> 8), byte(len(cols))}
		for i := range cols {
			body = append(body, fmt.Sprintf("c%d\x00\x00\x00\x00\x00\x00\x00", i)...)
			var f [12]byte
			binary.BigEndian.PutUint32(f[0:], uint32(oids[i]))
			binary.BigEndian.PutUint16(f[4:], 8)
			binary.BigEndian.PutUint32(f[6:], 0xffffffff)
			body = append(body, f[:]...)
		}
		p.msg('T', body)
	}
	if how == 'D' {
		return true
	}
	for k, row := range rows {
		if k == s.fault.rows && (strings.HasSuffix(kind, "later") || kind == "half a row") {
			break
		}
		body := []byte{byte(len(row) >> 8), byte(len(row))}
		for i, v := range row {
			if v == nil {
				body = append(body, 255, 255, 255, 255)
				continue
			}
			w := *v
			if kind == "wrong types" && k == s.fault.rows-1 && (oids[i] == pgInt4 || oids[i] == pgInt8) {
				w = "many"
			}
			var n [4]byte
			binary.BigEndian.PutUint32(n[:], uint32(len(w)))
			body = append(body, n[:]...)
			body = append(body, w...)
		}
		p.msg('D', body)
	}
	switch kind {
	case "error later":
		p.fail("ERROR", "22012", "division by zero")
		return true
	case "fatal later":
		p.fail("FATAL", "57P01", "terminating connection due to administrator command")
		p.flush()
		return false
	case "close later":
		p.flush()
		return false
	case "half a row":
		p.out = append(p.out, 'D', 0, 0, 0, 40, 0, 1, 0)
		p.flush()
		return false
	}
	p.msg('C', []byte(fmt.Sprintf("SELECT %d\x00", len(rows))))
	return true
}

// ---- the property

func genPG(r *rand.Rand, s *pgServer, balanced bool) {
	n := 1 + r.Intn(7)
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		id := r.Intn(40)
		if chance(r, 10) {
			id = r.Intn(1 << 31)
		}
		if used[id] {
			continue
		}
		used[id] = true
		a := pgAccount{id: id, name: genName(r, false) + fmt.Sprint(" ", i), code: pick(r, "", "", "570", "ES91 2100", "x:y", "ñ")}
		a.nullCode = a.code == ""
		s.accs = append(s.accs, a)
	}
	t := time.Date(2000+r.Intn(30), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.UTC)
	id := r.Intn(1000)
	for i := r.Intn(7); i > 0; i-- {
		tx := pgTx{id: id, t: t, desc: descWords[r.Intn(len(descWords))]}
		id += 1 + r.Intn(3)
		if chance(r, 85) {
			t = t.Add(time.Duration(r.Intn(100000)) * time.Second)
		}
		if chance(r, 5) {
			t = t.Add(time.Duration(r.Intn(1000000)) * time.Microsecond)
		}
		sum := int64(0)
		for k := 1 + r.Intn(4); k >= 0; k-- {
			v := int64(r.Intn(100000)) - 50000
			switch r.Intn(10) {
			case 0:
				v = int64(r.Intn(1000000000)) - 500000000
			case 1:
				v = int64(r.Intn(3)) - 1
			}
			if k == 0 {
				v = -sum
			}
			if v > 1<<31-1 || v < -1<<31 {
				v = 0
			}
			sum += v
			tx.splits = append(tx.splits, pgSplit{s.accs[r.Intn(len(s.accs))].id, v})
		}
		if sum != 0 {
			tx.splits = append(tx.splits[:0], pgSplit{tx.splits[0].acc, 7}, pgSplit{tx.splits[len(tx.splits)-1].acc, -7})
		}
		s.txs = append(s.txs, tx)
	}
	if !balanced && len(s.txs) > 0 {
		s.txs[r.Intn(len(s.txs))].splits[0].cents++
	}
}

func (s *pgServer) text() string {
	var b strings.Builder
	for _, a := range s.accs {
		fmt.Fprintf(&b, "account %d %q %q\n", a.id, a.name, a.code)
	}
	for _, t := range s.txs {
		fmt.Fprintf(&b, "transaction %d %s %q", t.id, t.t, t.desc)
		for _, sp := range t.splits {
			fmt.Fprintf(&b, " [%d: %d]", sp.acc, sp.cents)
		}
		b.WriteString("\n")
	}
	return b.String()
}

func (s *pgServer) compare(c *Ctx, l *accounting.Ledger) {
	byID := map[string]*accounting.Account{}
	for _, a := range l.Accounts {
		if isTransfer(l, a) {
			continue
		}
		byID[fmt.Sprint(a.ID)] = a
	}
	if len(byID) != len(s.accs) {
		c.Fail("%d accounts instead of %d", len(byID), len(s.accs))
		return
	}
	for _, w := range s.accs {
		a := byID[strconv.Itoa(w.id)]
		if a == nil || a.Name != w.name || a.Code != w.code {
			c.Fail("account %d %q code %q is %+v", w.id, w.name, w.code, a)
			return
		}
		if l.Account(a.ID) != a {
			c.Fail("account %d is not found by its identifier", w.id)
		}
		c.Count("accounts", 1)
	}
	if len(l.Transactions) != len(s.txs) {
		c.Fail("%d transactions instead of %d", len(l.Transactions), len(s.txs))
		return
	}
	var cur *accounting.Currency
	for i, w := range s.txs {
		t := l.Transactions[i]
		if fmt.Sprint(t.ID) != strconv.Itoa(w.id) || !t.Time.Equal(w.t) || t.Description != w.desc {
			c.Fail("transaction %d is %v %s %q instead of %d %s %q", i, t.ID, t.Time, t.Description, w.id, w.t, w.desc)
		}
		c.Count("transactions", 1)
		if len(t.Splits) != len(w.splits) {
			c.Fail("transaction %d has %d postings instead of %d", w.id, len(t.Splits), len(w.splits))
			return
		}
		for k, sp := range t.Splits {
			ws := w.splits[k]
			c.Count("postings", 1)
			if sp.Account != byID[strconv.Itoa(ws.acc)] {
				c.Fail("transaction %d, posting %d: wrong account", w.id, k)
			}
			if sp.Value.Currency == nil || cur != nil && sp.Value.Currency != cur {
				c.Fail("transaction %d, posting %d: not the same currency", w.id, k)
			}
			cur = sp.Value.Currency
			if sp.Value.Amount != ws.cents*(U/100) {
				c.Fail("transaction %d, posting %d: amount %d instead of %d cents", w.id, k, sp.Value.Amount, ws.cents)
			}
		}
	}
	checkHistories(c, l)
	checkTree(c, l)
}

var pgFaults = map[string][]string{
	"connect": {"close", "close after hello", "refuse", "starting", "no database", "strange authentication", "garbage", "half a message", "close after welcome", "close when ready"},
	"query":   {"error", "fatal", "close", "garbage", "few columns", "many columns", "wrong types", "error later", "fatal later", "close later", "half a row"},
}

func postgresCase(c *Ctx) {
	r := c.R
	s, src, err := newPG(c.Dir, chance(r, 20))
	if err != nil {
		c.Count("no_listener", 1)
		return
	}
	stop := func() {
		s.ln.Close()
		s.wg.Wait()
	}
	stopped := false
	defer func() {
		if !stopped {
			s.ln.Close()
		}
	}()
	balanced := true
	orphan := false
	if !chance(r, 15) {
		balanced = !chance(r, 10)
		genPG(r, s, balanced)
		balanced = balanced || len(s.txs) == 0
		if balanced && len(s.txs) > 0 && chance(r, 8) {
			s.txs[r.Intn(len(s.txs))].splits[0].acc = -5
			orphan = true
		}
	}
	if chance(r, 65) {
		f := pgFault{stage: pick(r, "connect", "query", "query", "query")}
		f.kind = pick(r, pgFaults[f.stage]...)
		f.query = r.Intn(2)
		f.rows = r.Intn(4)
		if chance(r, 15) {
			f.conns = 1 + r.Intn(2)
		}
		s.fault = f
	}
	c.Input("database", s.text()+"fault: "+s.fault.String()+"\n")
	c.Risky()
	var l *accounting.Ledger
	logged := captureLog(func() { l, err = accounting.Open(src) })
	s.mu.Lock()
	delivered, strange, seen := s.delivered, s.strange, s.seen
	s.mu.Unlock()
	what := fmt.Sprintf("server with fault %s", s.fault)
	if strange != "" {
		c.Count("not_understood", 1)
		c.Sample("not understood: %s", strange)
		return
	}
	c.Distinct(s.text(), s.fault.String())
	c.Count("opened_or_refused", 1)
	c.Count("queries", len(seen))
	// would the fault show?
	harmless := false
	if delivered > 0 {
		c.Count("faults_delivered", 1)
		c.Count("fault_"+strings.Replace(s.fault.stage+"_"+s.fault.kind, " ", "_", -1), 1)
		if s.fault.conns > 0 {
			harmless = true // another connection may do it well
			c.Count("passing_faults", 1)
		}
		n := len(s.accs)
		if s.fault.query == 1 {
			n = 0
			for _, t := range s.txs {
				n += len(t.splits)
			}
		}
		switch s.fault.kind {
		case "few columns", "many columns":
			if n == 0 {
				harmless = true
			}
		case "wrong types":
			if s.fault.rows == 0 || n < s.fault.rows {
				harmless = true
			}
		}
	}
	switch {
	case err == nil && l == nil:
		c.Fail("%s: neither ledger nor error", what)
		return
	case err != nil && l != nil:
		c.Fail("%s: a ledger and an error: %v", what, err)
	case delivered > 0 && !harmless && err == nil:
		c.Fail("%s: the ledger is opened as if nothing had happened (%d accounts, %d transactions); queries %q", what, len(l.Accounts), len(l.Transactions), seen)
	case !balanced && err == nil:
		c.Fail("%s: a transaction which is not balanced is accepted", what)
	case orphan && err == nil:
		c.Fail("%s: a posting to an account which does not exist is accepted", what)
	case delivered == 0 && balanced && !orphan && err != nil:
		c.Fail("%s: refused: %v %s", what, err, logged)
	}
	if c.Failed() {
		return
	}
	if err == nil {
		c.Count("ledgers", 1)
		if delivered == 0 || s.fault.kind != "few columns" && s.fault.kind != "many columns" && s.fault.kind != "wrong types" || s.fault.conns > 0 {
			s.compare(c, l)
		}
		if c.Failed() {
			return
		}
		if e := l.Close(); e != nil {
			c.Fail("%s: closing: %v", what, e)
		}
	} else {
		c.Count("errors", 1)
		if err.Error() == "" {
			c.Fail("%s: an error without text", what)
		}
	}
	// every connection must be over
	for i := 0; i < 300 && s.active() > 0; i++ {
		time.Sleep(time.Millisecond << uint(i/50))
	}
	if n := s.active(); n > 0 {
		c.Fail("%s: %d connections are left open after %v", what, n, map[bool]string{true: "the error", false: "closing"}[err != nil])
		return
	}
	c.Count("connections_ended", 1)
	stop()
	stopped = true
}

// postgresNowhere opens data sources where nobody answers, or which make no sense.
func postgresNowhere(c *Ctx) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Count("no_listener", 1)
		return
	}
	addr := ln.Addr().String()
	ln.Close()
	for _, src := range []string{
		"postgres://me@" + addr + "/books?sslmode=disable",
		"postgres://me@" + addr + "/books",
		"postgres://me@" + addr + "/books?sslmode=whatever",
		"postgres://me@" + addr + "/books?sslmode=disable&connect_timeout=soon",
		"postgres:///books?sslmode=disable&user=me&host=" + url.QueryEscape(filepath.Join(c.Dir, "nowhere")),
		"postgres://me@127.0.0.1:notaport/books?sslmode=disable",
	} {
		c.Input("source", src)
		c.Risky()
		l, err := accounting.Open(src)
		c.Distinct(src)
		c.Count("unreachable", 1)
		if err == nil || l != nil {
			c.Fail("opening %q gives %v, %v", src, l, err)
		}
	}
}

func init() {
	register(&Prop{ID: "C29", Quick: 15000, Thorough: 200000,
		Rule: "databases served over the PostgreSQL protocol, with and without a failure at some point of it; distinct by content and failure",
		Needs: []string{"ledgers", "errors", "faults_delivered", "fault_query_error", "fault_query_error_later", "fault_query_close_later", "fault_connect_refuse", "fault_connect_close",
			"accounts", "transactions", "postings", "connections_ended", "unreachable"},
		Fixed: []func(*Ctx){postgresNowhere}, Run: postgresCase})
}
