// Command verifharness drives the real code of github.com/cespedes/accounting under generated
// workloads and watches it with one monitor per property (see /verif/DESIGN.md).
//
//	verifharness -prop C01 -tier quick -seed 1 -verif /verif -bin DIR     supervisor: the check itself
//	verifharness -worker ...                                              one shard (started by the supervisor)
//	verifharness -replay FILE -bin DIR                                    runs again the case of a replay file
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is one property with its workload and monitor.
type Prop struct {
	ID       string
	Rule     string        // what counts as a distinct non-trivial evaluation
	Quick    int           // number of generated cases
	Thorough int           //
	Fixed    []func(*Ctx)  // cases run once, before the generated ones
	Run      func(*Ctx)    // one generated case
	Race     bool          // run the worker built with the race detector
	Shards   int           // 0: number of CPUs
	MemLimit uint64        // bytes of heap a case may reach (0: default)
	CPULimit time.Duration // CPU time a case may take (0: default)
	Needs    []string      // events which must have been observed, or the run is inconclusive
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Ctx is what one case has at hand.
type Ctx struct {
	P     *Prop
	R     *rand.Rand
	Index int
	Seed  int64
	Tier  string
	Bin   string
	Dir   string // scratch directory of this worker, emptied before each case
	w     *worker

	mu     sync.Mutex
	inputs []namedInput
	failed []string
}

type namedInput struct{ Name, Text string }

type violation struct {
	Property string       `json:"property"`
	Tier     string       `json:"tier"`
	Seed     int64        `json:"seed"`
	Index    int          `json:"index"`
	What     []string     `json:"what"`
	Inputs   []namedInput `json:"inputs,omitempty"`
	Known    string       `json:"known,omitempty"`
}

type result struct {
	Cases      int
	Evals      int
	Events     map[string]int64
	Hashes     []uint64
	Samples    []string
	Violations []violation
	Known      map[string]string
	Aborted    bool
}

type worker struct {
	res     result
	hashes  map[uint64]bool
	curFile string
	start   int64 // CPU ns at start of the case
	wall    int64
	caseNo  int64
	mu      sync.Mutex
	maxViol int
}

// Count records that the monitor observed an event.
func (c *Ctx) Count(name string, n int) {
	c.w.mu.Lock()
	c.w.res.Events[name] += int64(n)
	c.w.mu.Unlock()
}

// Distinct records one distinct evaluation (its content identifies it).
func (c *Ctx) Distinct(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	c.w.mu.Lock()
	c.w.hashes[h.Sum64()] = true
	c.w.res.Evals++
	c.w.mu.Unlock()
}

// Sample keeps some examples of what was observed, for the evidence.
func (c *Ctx) Sample(format string, args ...interface{}) {
	c.w.mu.Lock()
	if len(c.w.res.Samples) < 4 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.w.res.Samples = append(c.w.res.Samples, s)
	}
	c.w.mu.Unlock()
}

// Input records an input of the case, to be written to the replay file if it fails.
func (c *Ctx) Input(name, text string) {
	c.mu.Lock()
	c.inputs = append(c.inputs, namedInput{name, text})
	c.mu.Unlock()
}

// Fail reports a violation of the property.
func (c *Ctx) Fail(format string, args ...interface{}) {
	c.mu.Lock()
	if len(c.failed) < 12 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 4000 {
			s = s[:4000] + "..."
		}
		c.failed = append(c.failed, s)
	}
	c.mu.Unlock()
}

// Failed tells whether the case has already failed.
func (c *Ctx) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.failed) > 0
}

// KnownCase runs one case which may be a known finding (see /verif/known_findings.txt).
func (c *Ctx) KnownCase(key string, f func(*Ctx)) {
	sub := &Ctx{P: c.P, R: c.R, Index: c.Index, Seed: c.Seed, Tier: c.Tier, Bin: c.Bin, Dir: c.Dir, w: c.w}
	f(sub)
	if len(sub.failed) > 0 {
		c.w.mu.Lock()
		c.w.res.Violations = append(c.w.res.Violations, violation{Property: c.P.ID, Tier: c.Tier, Seed: c.Seed, Index: c.Index,
			What: sub.failed, Inputs: sub.inputs, Known: key})
		c.w.mu.Unlock()
	}
}

func caseSeed(prop string, seed int64, index int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, seed, index)
	return int64(h.Sum64() >> 1)
}

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

type current struct {
	Index  int
	Reason string `json:",omitempty"`
	Inputs []namedInput
}

// Risky writes what the case is about to do, so that it can be blamed if the process dies.
func (c *Ctx) Risky() {
	if c.w.curFile == "" {
		return
	}
	c.mu.Lock()
	b, _ := json.Marshal(current{Index: c.Index, Inputs: c.inputs})
	c.mu.Unlock()
	ioutil.WriteFile(c.w.curFile, b, 0o644)
}

func (w *worker) die(reason string, rc int) {
	b, _ := ioutil.ReadFile(w.curFile)
	var cur current
	json.Unmarshal(b, &cur)
	cur.Reason = reason
	b, _ = json.Marshal(cur)
	ioutil.WriteFile(w.curFile, b, 0o644)
	os.Exit(rc)
}

// watchdog ends the process when a case uses too much CPU time or memory, or is blocked for ever.
func (w *worker) watchdog(p *Prop) {
	cpuLimit := p.CPULimit
	if cpuLimit == 0 {
		cpuLimit = 40 * time.Second
	}
	mem := p.MemLimit
	if mem == 0 {
		mem = 2 << 30
	}
	var lastCase, lastCPU int64 = -1, 0
	idle := 0
	for {
		time.Sleep(500 * time.Millisecond)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > mem {
			w.die(fmt.Sprintf("memory: a case reached %d MB of heap", ms.HeapAlloc>>20), 41)
		}
		n := atomic.LoadInt64(&w.caseNo)
		used := cpuNow() - atomic.LoadInt64(&w.start)
		if n >= 0 && time.Duration(used) > cpuLimit {
			w.die(fmt.Sprintf("hang: a case used more than %s of CPU time", cpuLimit), 42)
		}
		if n == lastCase && used-lastCPU < int64(100*time.Millisecond) {
			idle++
		} else {
			idle = 0
		}
		lastCase, lastCPU = n, used
		if idle > 120 { // a minute without using the CPU
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			s := string(buf)
			blocked := true
			for _, st := range strings.Split(s, "\n") {
				if strings.HasPrefix(st, "goroutine ") && (strings.Contains(st, "[runnable") || strings.Contains(st, "[syscall") || strings.Contains(st, "[IO wait")) {
					blocked = false
				}
			}
			if blocked {
				w.die("deadlock: every goroutine of a case is blocked\n"+s, 43)
			}
			w.die("inconclusive: no progress for a minute\n"+s, 44)
		}
	}
}

func runCase(p *Prop, w *worker, index int, seed int64, tier, bin, dir string, f func(*Ctx)) {
	c := &Ctx{P: p, Index: index, Seed: seed, Tier: tier, Bin: bin, Dir: dir, w: w}
	c.R = rand.New(rand.NewSource(caseSeed(p.ID, seed, index)))
	cleanDir(dir)
	if w.curFile != "" {
		ioutil.WriteFile(w.curFile, []byte(fmt.Sprintf(`{"Index":%d}`, index)), 0o644)
	}
	atomic.StoreInt64(&w.start, cpuNow())
	atomic.StoreInt64(&w.caseNo, int64(index))
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.Fail("panic: %v\n%s", r, debug.Stack())
			}
		}()
		f(c)
	}()
	w.mu.Lock()
	w.res.Cases++
	if len(c.failed) > 0 {
		w.res.Violations = append(w.res.Violations, violation{Property: p.ID, Tier: tier, Seed: seed, Index: index, What: c.failed, Inputs: c.inputs})
	}
	w.mu.Unlock()
}

func cleanDir(dir string) {
	ents, _ := ioutil.ReadDir(dir)
	for _, e := range ents {
		os.RemoveAll(filepath.Join(dir, e.Name()))
	}
}

// index -1-k is the fixed case k
func workerMain(p *Prop, tier string, seed int64, bin, dir, out string, shard, shards, from int) {
	debug.SetMaxStack(256 << 20)
	log.SetFlags(0)
	w := &worker{hashes: map[uint64]bool{}, curFile: out + ".cur", caseNo: -1}
	w.res.Events = map[string]int64{}
	w.res.Known = map[string]string{}
	atomic.StoreInt64(&w.start, cpuNow())
	go w.watchdog(p)
	n := p.Quick
	if tier == "thorough" {
		n = p.Thorough
	}
	nf := len(p.Fixed)
	os.MkdirAll(dir, 0o755)
	for k := shard; k < nf+n; k += shards {
		if k < from {
			continue
		}
		if k < nf {
			runCase(p, w, -1-k, seed, tier, bin, dir, p.Fixed[k])
		} else {
			runCase(p, w, k-nf, seed, tier, bin, dir, p.Run)
		}
		if len(w.res.Violations) >= 3 {
			break
		}
	}
	for h := range w.hashes {
		w.res.Hashes = append(w.res.Hashes, h)
	}
	b, err := json.Marshal(w.res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if err := ioutil.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Remove(w.curFile)
	os.RemoveAll(dir)
	os.Exit(0)
}

func main() {
	var (
		propID = flag.String("prop", "", "property")
		tier   = flag.String("tier", "quick", "quick or thorough")
		seed   = flag.Int64("seed", 1, "seed")
		verif  = flag.String("verif", "/verif", "where evidence and known findings are")
		bin    = flag.String("bin", "", "directory with the built commands")
		wk     = flag.Bool("worker", false, "")
		dir    = flag.String("dir", "", "")
		out    = flag.String("out", "", "")
		shard  = flag.Int("shard", 0, "")
		shards = flag.Int("shards", 1, "")
		from   = flag.Int("from", 0, "")
		replay = flag.String("replay", "", "run again the case in this replay file")
		list   = flag.Bool("list", false, "list the properties")
		cases  = flag.Int("cases", 0, "override the number of cases")
		child  = flag.String("child", "", "internal: subprocess helper")
	)
	flag.Parse()
	if *child != "" {
		childMain(*child, flag.Args())
		return
	}
	if *list {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	if *replay != "" {
		replayMain(*replay, *bin)
		return
	}
	p := props[*propID]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *propID)
		os.Exit(3)
	}
	if *cases > 0 {
		p.Quick, p.Thorough = *cases, *cases
	}
	if *wk {
		workerMain(p, *tier, *seed, *bin, *dir, *out, *shard, *shards, *from)
	}
	os.Exit(supervise(p, *tier, *seed, *verif, *bin, *cases))
}

func replayMain(file, bin string) {
	b, err := ioutil.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	p := props[v.Property]
	dir, _ := ioutil.TempDir("", "vreplay")
	defer os.RemoveAll(dir)
	w := &worker{hashes: map[uint64]bool{}, caseNo: -1}
	w.res.Events = map[string]int64{}
	f := p.Run
	if v.Index < 0 {
		f = p.Fixed[-1-v.Index]
	}
	log.SetFlags(0)
	runCase(p, w, v.Index, v.Seed, v.Tier, bin, dir, f)
	for _, x := range w.res.Violations {
		for _, s := range x.What {
			fmt.Println("FAIL:", s)
		}
		for _, in := range x.Inputs {
			fmt.Printf("--- %s ---\n%s\n", in.Name, in.Text)
		}
	}
	if len(w.res.Violations) > 0 {
		os.RemoveAll(dir)
		os.Exit(1)
	}
	fmt.Println("the case passes")
}

func supervise(p *Prop, tier string, seed int64, verif, bin string, cases int) int {
	t0 := time.Now()
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if p.Race {
		self = filepath.Join(bin, "verifharness-race")
	}
	tmp, err := ioutil.TempDir("", "vcase")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(tmp)
	os.Chmod(tmp, 0o755)
	shards := p.Shards
	if shards == 0 {
		shards = runtime.NumCPU()
	}
	if shards > 8 {
		shards = 8
	}
	var mu sync.Mutex
	total := result{Events: map[string]int64{}, Known: map[string]string{}}
	hashes := map[uint64]bool{}
	var deaths []violation
	var errs []string
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(tmp, fmt.Sprintf("out%d", i))
			from := 0
			for try := 0; try < 3; try++ {
				args := []string{"-worker", "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-bin", bin, "-out", out,
					"-dir", filepath.Join(tmp, fmt.Sprintf("dir%d", i)), "-shard", fmt.Sprint(i), "-shards", fmt.Sprint(shards), "-from", fmt.Sprint(from)}
				if cases > 0 {
					args = append(args, "-cases", fmt.Sprint(cases))
				}
				cmd := exec.Command(self, args...)
				var stderr, stdout bytes.Buffer
				cmd.Stderr, cmd.Stdout = &limited{b: &stderr}, &limited{b: &stdout}
				cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "TZ=UTC", "GOTRACEBACK=single")
				raceLog := filepath.Join(tmp, fmt.Sprintf("race%d", i))
				if p.Race {
					cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 exitcode=0 log_path="+raceLog, "GOMAXPROCS=4")
				}
				err := cmd.Run()
				races := raceReports(raceLog)
				mu.Lock()
				for _, r := range races {
					deaths = append(deaths, violation{Property: p.ID, Tier: tier, Seed: seed, What: []string{"data race reported by the race detector:\n" + r}})
				}
				b, rerr := ioutil.ReadFile(out)
				var res result
				if err == nil && rerr == nil && json.Unmarshal(b, &res) == nil {
					total.Cases += res.Cases
					total.Evals += res.Evals
					for k, v := range res.Events {
						total.Events[k] += v
					}
					for _, h := range res.Hashes {
						hashes[h] = true
					}
					if len(total.Samples) < 6 {
						total.Samples = append(total.Samples, res.Samples...)
					}
					total.Violations = append(total.Violations, res.Violations...)
					mu.Unlock()
					return
				}
				// the worker died: blame the current case
				var cur current
				if cb, cerr := ioutil.ReadFile(out + ".cur"); cerr == nil && json.Unmarshal(cb, &cur) == nil {
					if strings.HasPrefix(cur.Reason, "inconclusive") {
						errs = append(errs, cur.Reason)
					} else {
						what := cur.Reason
						if what == "" {
							what = fmt.Sprintf("the process ended by itself while running a case (%v)", err)
						}
						deaths = append(deaths, violation{Property: p.ID, Tier: tier, Seed: seed, Index: cur.Index, Inputs: cur.Inputs,
							What: []string{what, tail(stderr.String(), 3000), tail(stdout.String(), 500)}})
					}
					k := cur.Index + len(p.Fixed)
					if cur.Index < 0 {
						k = -1 - cur.Index
					}
					from = k + 1
					mu.Unlock()
					if try == 0 {
						continue
					}
					return
				}
				errs = append(errs, fmt.Sprintf("worker %d: %v %s", i, err, tail(stderr.String(), 2000)))
				mu.Unlock()
				return
			}
		}(i)
	}
	wg.Wait()

	viols := append(total.Violations, deaths...)
	sort.SliceStable(viols, func(i, j int) bool { return viols[i].Index < viols[j].Index })
	known := readKnown(filepath.Join(verif, "known_findings.txt"), p.ID)
	var bad []violation
	for _, v := range viols {
		if what, ok := known[v.Known]; ok && v.Known != "" {
			if total.Known[v.Known] == "" {
				total.Known[v.Known] = what
				fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", p.ID, v.Known, what)
			}
			continue
		}
		bad = append(bad, v)
	}
	replayDir := filepath.Join(verif, "evidence", "replay", p.ID)
	os.RemoveAll(replayDir)
	var vnames []string
	for i, v := range bad {
		if i >= 5 {
			break
		}
		os.MkdirAll(replayDir, 0o755)
		name := filepath.Join(replayDir, fmt.Sprintf("%d.json", i+1))
		b, _ := json.MarshalIndent(v, "", " ")
		ioutil.WriteFile(name, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, name)
		for j, s := range v.What {
			if j < 4 {
				fmt.Printf("  %s\n", strings.ReplaceAll(tail2(s, 1200), "\n", "\n  "))
			}
		}
		vnames = append(vnames, first(v.What))
	}
	missing := []string{}
	for _, e := range p.Needs {
		if total.Events[e] == 0 {
			missing = append(missing, e)
		}
	}
	sort.Strings(total.Samples)
	if len(total.Samples) > 6 {
		total.Samples = total.Samples[:6]
	}
	evals := total.Evals
	if evals < total.Cases {
		evals = total.Cases
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         evals,
			"cases":               total.Cases,
			"distinct_nontrivial": len(hashes),
			"rule":                p.Rule,
			"samples":             total.Samples,
			"events":              total.Events,
		},
		"wall_s":     float64(int(time.Since(t0).Seconds()*100)) / 100,
		"violations": len(bad),
	}
	if len(vnames) > 0 {
		ev["violation_samples"] = vnames
	}
	if len(total.Known) > 0 {
		ev["known_findings"] = total.Known
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := ioutil.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if len(bad) > 0 {
		return 1
	}
	if len(errs) > 0 {
		fmt.Fprintf(os.Stderr, "inconclusive: %s\n", strings.Join(errs, "\n"))
		return 3
	}
	if total.Cases == 0 || len(hashes) == 0 || len(missing) > 0 {
		fmt.Fprintf(os.Stderr, "inconclusive: the monitor did not observe enough (cases %d, distinct %d, missing events %v)\n", total.Cases, len(hashes), missing)
		return 3
	}
	fmt.Printf("%s %s: %d cases, %d distinct, held on everything observed (%.1f s)\n", p.ID, tier, total.Cases, len(hashes), time.Since(t0).Seconds())
	return 0
}

// readKnown returns the known findings of a property: lines "known: property=<id> <key> <what fails>".
func readKnown(file, id string) map[string]string {
	res := map[string]string{}
	f, err := os.Open(file)
	if err != nil {
		return res
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		fs := strings.SplitN(sc.Text(), " ", 4)
		if len(fs) == 4 && fs[0] == "known:" && fs[1] == "property="+id {
			res[fs[2]] = fs[3]
		}
	}
	return res
}

func raceReports(prefix string) []string {
	files, _ := filepath.Glob(prefix + ".*")
	var res []string
	for _, f := range files {
		b, _ := ioutil.ReadFile(f)
		os.Remove(f)
		for _, s := range strings.Split(string(b), "==================") {
			if strings.Contains(s, "WARNING: DATA RACE") && len(res) < 3 {
				res = append(res, tail2(s, 3500))
			}
		}
	}
	return res
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func tail(s string, n int) string {
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "fatal error:"); i >= 0 {
		s = s[i:]
	}
	if len(s) > n {
		return s[:n]
	}
	return s
}
func tail2(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
func first(s []string) string {
	if len(s) == 0 {
		return ""
	}
	return tail2(s[0], 300)
}
