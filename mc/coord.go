package mc

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Property is one property with its scenarios.
type Property struct {
	ID        string
	Scenarios func(tier string) []Scenario
	Rule      string   // what is enumerated
	Assume    []string // assumptions recorded in the evidence
}

var props = map[string]*Property{}

// Register adds a property to the checker binary.
func Register(p *Property) { props[p.ID] = p }

// Main is the entry point of the checker binary.
func Main() {
	id := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	budget := flag.Duration("budget", 70*time.Second, "exploration time")
	verif := flag.String("verif", "/verif", "where evidence and replays go")
	worker := flag.Bool("worker", false, "")
	replay := flag.String("replay", "", "replay file")
	list := flag.Bool("list", false, "list scenarios")
	only := flag.String("only", "", "only scenarios whose name contains this")
	maxb := flag.Int("bound", -1, "override the deviation bound")
	t0f := flag.Int64("t0", 0, "start time of the whole check, unix ns")
	flag.Parse()
	p := props[*id]
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(2)
	}
	scens := p.Scenarios(*tier)
	if *worker {
		work(scens)
		return
	}
	if *list {
		for _, s := range scens {
			fmt.Println(s.Name, "bound", s.Bound)
		}
		return
	}
	t0 := time.Now()
	if *t0f != 0 {
		t0 = time.Unix(0, *t0f)
	}
	c := &coord{p: p, tier: *tier, scens: scens, verif: *verif, start: t0, deadline: time.Now().Add(*budget), only: *only, maxb: *maxb}
	os.Exit(c.run())
}

func work(scens []Scenario) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	enc := json.NewEncoder(out)
	dec := json.NewDecoder(in)
	// the code under test must not write to the protocol stream
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
	for {
		var j Job
		if dec.Decode(&j) != nil {
			return
		}
		var ann func([]uint16)
		if j.Log {
			ann = func(p []uint16) {
				enc.Encode(&Reply{IsLog: true, Log: p})
				out.Flush()
			}
		}
		r := runJob(&scens[j.Scen], j, ann)
		enc.Encode(r)
		out.Flush()
	}
}

type proc struct {
	cmd *exec.Cmd
	in  *json.Encoder
	out *json.Decoder
	err *tailBuf
	kil func()
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 16384 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (c *coord) spawn() *proc {
	self, _ := os.Executable()
	if _, err := os.Stat(self + ".race"); err == nil {
		self += ".race"
	}
	cmd := exec.Command(self, "-worker", "-prop", c.p.ID, "-tier", c.tier)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GORACE=halt_on_error=0 atexit_sleep_ms=0 suppress_equal_addresses=0 suppress_equal_stacks=0 log_path="+raceLog(), "GOTRACEBACK=single", "GOMEMLIMIT=3GiB")
	w, _ := cmd.StdinPipe()
	r, _ := cmd.StdoutPipe()
	tb := &tailBuf{}
	cmd.Stderr = tb
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start worker:", err)
		os.Exit(2)
	}
	return &proc{cmd: cmd, in: json.NewEncoder(w), out: json.NewDecoder(bufio.NewReaderSize(r, 1<<20)), err: tb,
		kil: func() { cmd.Process.Kill(); cmd.Wait() }}
}

// do runs a job on a worker process; crashed reports that the process died or hung.
func (p *proc) do(j Job, hang time.Duration) (rep *Reply, last []uint16, crashed string) {
	type res struct {
		r   *Reply
		err error
	}
	if err := p.in.Encode(&j); err != nil {
		return nil, nil, "worker died: " + err.Error()
	}
	for {
		ch := make(chan res, 1)
		go func() {
			var r Reply
			err := p.out.Decode(&r)
			ch <- res{&r, err}
		}()
		tm := time.NewTimer(hang)
		select {
		case r := <-ch:
			tm.Stop()
			if r.err != nil {
				p.cmd.Wait()
				return nil, last, "the process crashed: " + head(string(p.err.b))
			}
			if r.r.IsLog {
				last = r.r.Log
				continue
			}
			return r.r, last, ""
		case <-tm.C:
			return nil, last, fmt.Sprintf("no progress for %v (endless loop)", hang)
		}
	}
}

func head(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.Index(s, "\n\n"); i > 0 {
		s = s[:i]
	}
	if len(s) > 600 {
		s = s[:600]
	}
	return s
}

type scenStat struct {
	execs, steps, nodes, div int64
	depth, threads, maxSteps int
	pruned                   bool
	bound                    int // last completed bound
	pass                     int // bound of the pass in progress
	complete                 bool
	outcomes                 map[uint64]bool
	sample                   string
	divMsg                   string
	// pass in progress
	cur struct{ execs, steps, nodes int64 }
	// best pass
	best    struct{ execs, steps, nodes int64 }
	queue   []Job
	out     int // jobs being run
	busy    int64
	fullyEx bool
}

type coord struct {
	p        *Property
	tier     string
	scens    []Scenario
	verif    string
	start    time.Time
	deadline time.Time
	only     string
	maxb     int

	mu      sync.Mutex
	cond    *sync.Cond
	st      []*scenStat
	active  []int
	stop    bool
	fail    *found
	unrepro int
	unrMsg  string
	total   int64
	extra   int64 // executions beyond the stated bounds
	broken  string
	first   int64 // time spent in first passes
	later   int64
}

type found struct {
	scen    int
	fail    *Failure
	choices []uint16
	trace   []string
	conf    int
}

const hangAfter = 60 * time.Second

func (c *coord) run() int {
	c.cond = sync.NewCond(&c.mu)
	for i := range c.scens {
		if c.maxb >= 0 {
			c.scens[i].Bound = c.maxb
		}
		if c.only != "" && !strings.Contains(c.scens[i].Name, c.only) {
			c.scens[i].Bound = -1
		}
		c.st = append(c.st, &scenStat{bound: -1, outcomes: map[uint64]bool{}})
	}
	n := runtime.NumCPU()
	if v, err := strconv.Atoi(os.Getenv("MC_WORKERS")); err == nil && v > 0 {
		n = v
	}
	for i := range c.scens {
		if c.scens[i].Bound >= 0 {
			c.active = append(c.active, i)
			c.st[i].queue = []Job{{Scen: i, Bound: 0}}
		}
	}
	c.pass(n)
	if os.Getenv("MC_VERBOSE") == "2" {
		for _, i := range c.active {
			s := c.st[i]
			fmt.Fprintf(os.Stderr, "   %-50s busy %4.1f bound %d of %d execs %7d depth %4d steps %d of %d threads %2d outcomes %d left %d %s\n", c.scens[i].Name, float64(s.busy)/1e9, s.bound, c.scens[i].Bound, s.cur.execs, s.depth, s.maxSteps, c.scens[i].Cfg.MaxSteps, s.threads, len(s.outcomes), len(s.queue), s.divMsg)
		}
	}
	if c.broken != "" {
		fmt.Fprintln(os.Stderr, "check error:", c.broken)
		return 2
	}
	return c.report()
}

func (c *coord) pass(n int) {
	c.stop = false
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.workerLoop()
		}()
	}
	wg.Wait()
}

func (c *coord) workerLoop() {
	var p *proc
	defer func() {
		if p != nil {
			p.kil()
		}
	}()
	for {
		c.mu.Lock()
		var job Job
		for {
			if c.stop || c.fail != nil || time.Now().After(c.deadline) {
				c.stop = true
				c.cond.Broadcast()
				c.mu.Unlock()
				return
			}
			best, outs := -1, 0
			for _, i := range c.active {
				s := c.st[i]
				outs += s.out
				if len(s.queue) == 0 {
					continue
				}
				if best >= 0 {
					b := c.st[best]
					x, y := c.rank(s), c.rank(b)
					if x > y || x == y && s.busy >= b.busy {
						continue
					}
				}
				best = i
			}
			if best >= 0 {
				s := c.st[best]
				job = s.queue[len(s.queue)-1]
				s.queue = s.queue[:len(s.queue)-1]
				s.out++
				break
			}
			if outs == 0 {
				c.cond.Broadcast()
				c.mu.Unlock()
				return
			}
			c.cond.Wait()
		}
		qn := 0
		for _, i := range c.active {
			qn += len(c.st[i].queue)
		}
		c.mu.Unlock()
		job.Slice = int64(200 * time.Millisecond)
		job.Split = qn < 64
		if p == nil {
			p = c.spawn()
		}
		rep, _, crash := p.do(job, hangAfter)
		if crash != "" {
			p.kil()
			p = nil
			c.crashed(job, crash)
		}
		c.mu.Lock()
		s := c.st[job.Scen]
		s.out--
		if rep != nil {
			c.merge(job.Scen, rep)
			if s.complete {
				c.extra += rep.Execs
			}
			if s.out == 0 && len(s.queue) == 0 && rep.Fail == nil && c.broken == "" {
				c.advance(job.Scen)
			}
		}
		c.cond.Broadcast()
		c.mu.Unlock()
		if rep != nil && rep.Fail != nil {
			c.confirm(job, rep)
		}
	}
}

// advance ends a completed pass of a scenario and begins the next one. Each
// scenario goes from bound to bound on its own; the one that has used the
// least time goes first. Passes beyond the stated bound use what is left of
// the budget when every scenario has completed its own.
func (c *coord) advance(i int) {
	s := c.st[i]
	if s.cur.execs > s.best.execs {
		s.best = s.cur
	}
	s.bound = s.pass
	s.fullyEx = !s.pruned
	if s.bound == c.scens[i].Bound || s.fullyEx {
		s.complete = true
	}
	if s.fullyEx || s.complete && (c.maxb >= 0 || c.scens[i].Once) {
		return
	}
	s.pass++
	s.pruned = false
	s.cur.execs, s.cur.steps, s.cur.nodes = 0, 0, 0
	s.queue = []Job{{Scen: i, Bound: s.pass}}
}

// rank orders the scenarios: those in their first pass (no deviations) and
// those in later passes take turns so that both groups get the same time,
// those beyond their stated bound come last.
func (c *coord) rank(s *scenStat) int {
	switch {
	case s.complete:
		return 2
	case (s.pass == 0) == (c.first <= c.later):
		return 0
	}
	return 1
}

func (c *coord) merge(i int, r *Reply) {
	s := c.st[i]
	s.cur.execs += r.Execs
	s.cur.steps += r.Steps
	s.cur.nodes += r.Nodes
	c.total += r.Execs
	s.div += r.Diverged
	if r.DivMsg != "" {
		s.divMsg = r.DivMsg
	}
	s.depth = max(s.depth, r.Depth)
	s.maxSteps = max(s.maxSteps, r.MaxSteps)
	s.threads = max(s.threads, r.Threads)
	s.pruned = s.pruned || r.Pruned
	s.busy += r.Busy
	if s.pass == 0 {
		c.first += r.Busy
	} else if !s.complete {
		c.later += r.Busy
	}
	for _, o := range r.Outcomes {
		if len(s.outcomes) < 100000 {
			s.outcomes[o] = true
		}
	}
	if s.sample == "" {
		s.sample = r.Sample
	}
	s.queue = append(s.queue, r.Rest...)
}

// confirm replays a failing execution; only reproducible failures count.
func (c *coord) confirm(job Job, rep *Reply) {
	f := &found{scen: job.Scen, fail: rep.Fail, choices: rep.Choices}
	for k := 0; k < 3; k++ {
		p := c.spawn()
		r, _, crash := p.do(Job{Scen: job.Scen, Path: rep.Choices, Replay: true}, hangAfter)
		p.kil()
		if crash != "" || r.Fail == nil || r.Fail.Kind != rep.Fail.Kind {
			if crash != "" {
				rep.Fail.Msg += " / replay: " + crash
			}
			continue
		}
		f.conf++
		f.trace = r.Trace
		f.fail = r.Fail
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if f.conf == 3 {
		if c.fail == nil {
			c.fail = f
		}
		return
	}
	c.unrepro++
	c.unrMsg = c.scens[job.Scen].Name + ": " + rep.Fail.Msg
	if c.unrepro > 50 {
		c.broken = "too many failures that do not reproduce: " + c.unrMsg
		c.stop = true
	}
}

// crashed locates the execution that killed or hung a worker.
func (c *coord) crashed(job Job, why string) {
	job.Log = true
	job.Slice = int64(5 * time.Minute)
	var last []uint16
	for k := 0; k < 2; k++ {
		p := c.spawn()
		_, l, crash := p.do(job, hangAfter)
		p.kil()
		if crash == "" {
			c.mu.Lock()
			c.unrepro++
			c.unrMsg = c.scens[job.Scen].Name + ": " + why
			if c.unrepro > 5 {
				c.broken = "worker crashes that do not reproduce: " + why
				c.stop = true
			}
			c.mu.Unlock()
			return
		}
		last, why = l, crash
	}
	c.mu.Lock()
	if c.fail == nil {
		c.fail = &found{scen: job.Scen, fail: &Failure{"crash", why}, choices: last, conf: 2}
	}
	c.mu.Unlock()
}

type replayFile struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Tier     string   `json:"tier"`
	Kind     string   `json:"kind"`
	Message  string   `json:"message"`
	Choices  []uint16 `json:"choices"`
	Trace    []string `json:"trace"`
}

func (c *coord) report() int {
	code := 0
	viol := 0
	if c.fail != nil {
		viol = 1
		code = 1
		f := c.fail
		dir := filepath.Join(c.verif, "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, c.p.ID+".json")
		b, _ := json.MarshalIndent(replayFile{c.p.ID, c.scens[f.scen].Name, c.tier, f.fail.Kind, f.fail.Msg, f.choices, f.trace}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("scenario: %s\n%s: %s\n", c.scens[f.scen].Name, f.fail.Kind, f.fail.Msg)
		tr := f.trace
		if len(tr) > 60 && os.Getenv("MC_VERBOSE") == "" {
			tr = tr[len(tr)-60:]
		}
		for _, l := range tr {
			fmt.Println("  ", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.p.ID, path)
	}
	var execs, steps, nodes, div int64
	bounds := map[string]int{}
	exhaustive := c.fail == nil
	complete, outcomes, depth, threads := 0, 0, 0, 0
	var samples []any
	var biggest []int
	nsc := 0
	for i, s := range c.st {
		if c.scens[i].Bound < 0 {
			continue
		}
		nsc++
		b := s.best
		if s.cur.execs > b.execs {
			b = s.cur
		}
		execs += b.execs
		steps += b.steps
		nodes += b.nodes
		div += s.div
		outcomes += len(s.outcomes)
		depth = max(depth, s.depth)
		threads = max(threads, s.threads)
		if s.complete {
			complete++
		} else {
			exhaustive = false
		}
		if s.fullyEx {
			bounds["whole tree"]++
		} else {
			bounds[fmt.Sprintf("deviations<=%d", s.bound)]++
		}
		biggest = append(biggest, i)
	}
	sort.SliceStable(biggest, func(a, b int) bool { return c.st[biggest[a]].best.execs > c.st[biggest[b]].best.execs })
	for k := 0; k < len(biggest) && len(samples) < 6; k++ {
		s := c.st[biggest[k]]
		o := s.sample
		if len(o) > 400 {
			o = o[:400] + "..."
		}
		samples = append(samples, map[string]any{"scenario": c.scens[biggest[k]].Name, "executions": s.best.execs, "longest_choice_sequence": s.depth, "threads": s.threads, "distinct_outcomes": len(s.outcomes), "one_outcome": o, "completed_deviation_bound": s.bound, "whole_tree": s.fullyEx})
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": c.p.ID, "tier": c.tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states":                        nodes,
			"transitions":                   steps,
			"traces_validated_against_impl": execs,
			"samples":                       samples,
			"scenarios":                     nsc,
			"scenarios_completed":           complete,
			"distinct_outcomes":             outcomes,
			"max_threads":                   threads,
			"max_choice_depth":              depth,
			"completed_bounds":              bounds,
			"executions_beyond_the_bounds":  c.extra,
			"diverged_executions":           div,
			"unreproduced_failures":         c.unrepro,
			"exhaustive":                    exhaustive,
			"rule":                          c.p.Rule + " states = distinct nodes of the choice tree (schedule, fault and input choices) reached; transitions = scheduler steps executed; every trace is an execution of the real (rewritten) code judged by the oracle; exhaustive = every scenario completed its stated bound.",
		},
		"assumptions": append([]string{"sequential consistency between scheduling points (unsynchronised accesses are the subject of C24)", "the rewriting of Go concurrency primitives to vh/mc preserves their semantics"}, c.p.Assume...),
		"wall_s":      float64(int(time.Since(c.start).Seconds()*10)) / 10,
		"violations":  viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	if c.only == "" {
		os.WriteFile(filepath.Join(c.verif, "evidence", c.p.ID+".json"), append(b, '\n'), 0o644)
	}
	fmt.Printf("%s %s: %d scenarios (%d completed, bounds %v), %d executions, %d states, %d transitions, %d outcomes, diverged %d, unreproduced %d %s, exhaustive %v, %.1fs\n",
		c.p.ID, c.tier, nsc, complete, bounds, execs, nodes, steps, outcomes, div, c.unrepro, c.unrMsg, exhaustive, time.Since(c.start).Seconds())
	return code
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if json.Unmarshal(b, &rf) != nil || props[rf.Property] == nil {
		fmt.Fprintln(os.Stderr, "bad replay file")
		return 2
	}
	for _, s := range props[rf.Property].Scenarios(rf.Tier) {
		if s.Name != rf.Scenario {
			continue
		}
		r := runJob(&s, Job{Path: rf.Choices, Replay: true}, nil)
		for _, l := range r.Trace {
			fmt.Println(l)
		}
		if r.Fail != nil {
			fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", r.Fail.Kind, r.Fail.Msg, rf.Property, path)
			return 1
		}
		fmt.Println("not reproduced", r.DivMsg)
		return 0
	}
	fmt.Fprintln(os.Stderr, "no such scenario")
	return 2
}
