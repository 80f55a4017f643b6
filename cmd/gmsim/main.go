// Command gmsim runs the simulated checks.
//
//	gmsim check PROP TIER      the check registered in MANIFEST.json
//	gmsim replay FILE          re-runs a replay file
//	gmsim worker ...           internal: a range of seeded runs
//	gmsim exec                 internal: recorded runs from stdin
//	gmsim selfcheck PROP N     determinism: N chunks, twice, at two worker counts
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"gmverif/checks"
	"gmverif/sim"
	"gmverif/simrt"
)

type runOut struct {
	Start  *int           `json:"start,omitempty"`
	Index  int            `json:"i"`
	Log    uint64         `json:"log"`
	Sched  uint64         `json:"sched"`
	Switch int            `json:"sw"`
	Points int            `json:"pt"`
	Ops    int            `json:"ops"`
	SimNS  int64          `json:"ns"`
	Steps  int64          `json:"st"`
	NT     bool           `json:"nt"`
	Counts map[string]int `json:"c,omitempty"`
	V      *sim.Violation `json:"v,omitempty"`
	Known  []string       `json:"known,omitempty"`
	Lanes  [][3][]uint32  `json:"lanes,omitempty"`
	Trace  []string       `json:"trace,omitempty"`
	Infra  string         `json:"infra,omitempty"`
	Result string         `json:"result,omitempty"`
	Sites  []int          `json:"sites,omitempty"`
	End    bool           `json:"end,omitempty"`
}

// Replay is the replay file.
type Replay struct {
	Property string        `json:"property"`
	Tier     string        `json:"tier"`
	Seed     int64         `json:"seed"`
	Build    string        `json:"build"`           // instrumented or plain
	Indexes  []int         `json:"indexes"`         // the runs, executed in one process
	Lanes    [][3][]uint32 `json:"lanes,omitempty"` // plan, schedule, fault choices per run; absent: drawn from the seed
	Class    string        `json:"class"`
	Detail   string        `json:"detail"`
	LogHash  string        `json:"log_hash"`
	Note     string        `json:"note,omitempty"`
	Trace    []string      `json:"trace"`
	Alone    int           `json:"alone,omitempty"` // internal: only this operation (from 1)
}

// fastCurve describes the stand-in for curve multiplication, if this build has it.
var fastCurve string

func main() {
	debug.SetGCPercent(200)
	if len(os.Args) < 2 {
		die("usage")
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2:])
	case "exec":
		execMode()
	case "check":
		os.Exit(check(os.Args[2], os.Args[3]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "selfcheck":
		os.Exit(selfcheck(os.Args[2], atoi(os.Args[3])))
	case "list":
		var ids []string
		for id := range checks.All {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	default:
		die("unknown mode " + os.Args[1])
	}
}

func die(s string) {
	fmt.Fprintln(os.Stderr, "gmsim: "+s)
	os.Exit(3)
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		die(err.Error())
	}
	return n
}

// ---- executing runs ----

func oneRun(p *checks.Prop, tier string, seed int64, idx int, lanes *[3][]uint32, alone int) (*sim.World, runOut) {
	w := sim.NewWorld(p.ID, tier, seed, idx, lanes)
	w.Known = known(p.ID)
	w.Alone = alone
	w.Fresh = func(op int) (string, bool) {
		r := &Replay{Property: p.ID, Tier: tier, Seed: seed, Indexes: []int{idx}, Lanes: [][3][]uint32{rec(w)}, Alone: op + 1, Build: "instrumented"}
		if idx >= checks.SpecialBase {
			r.Build = "plain"
		}
		o, err := execReplay(r, 100*time.Second)
		return o.Result, err == nil && o.Infra == "" && o.Result != ""
	}
	w.Exec(func(t *sim.T) { p.Run(w, t) })
	o := runOut{Index: idx, Log: w.LogHash(), Sched: w.K.SchedHash, Switch: w.K.Switches, Points: w.K.Points, Ops: w.Ops,
		SimNS: w.K.Now, Steps: w.K.Steps, NT: w.IsNontrivial(), Counts: w.Counts, V: w.V, Known: w.KnownHits, Infra: w.Infra, Result: w.Result}
	return w, o
}

func rec(w *sim.World) [3][]uint32 { return [3][]uint32{w.Plan.Rec, w.Sched.Rec, w.Fault.Rec} }

func worker(a []string) {
	p := checks.All[a[0]]
	seed, _ := strconv.ParseInt(a[2], 10, 64)
	from, to := atoi(a[3]), atoi(a[4])
	sample := a[5] == "1"
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	var lanes [][3][]uint32
	for i := from; i < to; i++ {
		i := i
		enc.Encode(runOut{Start: &i})
		out.Flush()
		w, o := oneRun(p, a[1], seed, i, nil, 0)
		lanes = append(lanes, rec(w))
		if o.V != nil || o.Infra != "" {
			o.Lanes, o.Trace = lanes, w.Log
		} else if sample && i == from {
			o.Trace = w.Log
		}
		enc.Encode(o)
		if o.V != nil || o.Infra != "" {
			break
		}
	}
	enc.Encode(runOut{End: true, Sites: simrt.Sites()})
	out.Flush()
}

func execMode() {
	var r Replay
	if err := json.NewDecoder(os.Stdin).Decode(&r); err != nil {
		die(err.Error())
	}
	o, _ := execRuns(&r)
	json.NewEncoder(os.Stdout).Encode(o)
}

// execRuns runs a replay's runs in this process; the verdict is the last run's.
func execRuns(r *Replay) (runOut, *sim.World) {
	p := checks.All[r.Property]
	if p == nil {
		die("unknown property " + r.Property)
	}
	var o runOut
	var w *sim.World
	var lanes [][3][]uint32
	for n, idx := range r.Indexes {
		var l *[3][]uint32
		if r.Lanes != nil {
			l = &r.Lanes[n]
		}
		w, o = oneRun(p, r.Tier, r.Seed, idx, l, r.Alone)
		lanes = append(lanes, rec(w))
		if o.V != nil || o.Infra != "" {
			break
		}
	}
	o.Lanes, o.Trace = lanes, w.Log
	return o, w
}

// ---- known findings ----

type finding struct{ prop, class, detail, what string }

var findings []finding

func root() string {
	if d := os.Getenv("GMSIM_ROOT"); d != "" {
		return d
	}
	return "/verif"
}

// Lines of known_findings.txt: "known: property=ID class=CLASS detail=SUBSTRING :: what fails".
// Lines starting "fixed:" suppress nothing.
func loadFindings() {
	b, err := os.ReadFile(filepath.Join(root(), "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := finding{}
		head, what, _ := strings.Cut(strings.TrimPrefix(l, "known: "), " :: ")
		f.what = what
		head, f.detail, _ = strings.Cut(head, " detail=")
		for _, kv := range strings.Fields(head) {
			k, v, _ := strings.Cut(kv, "=")
			switch k {
			case "property":
				f.prop = v
			case "class":
				f.class = v
			}
		}
		if f.prop != "" && f.class != "" && f.detail != "" {
			findings = append(findings, f)
		}
	}
}

func known(prop string) func(c, d string) bool {
	if findings == nil {
		loadFindings()
	}
	return func(c, d string) bool {
		for _, f := range findings {
			if f.prop == prop && f.class == c && strings.Contains(d, f.detail) {
				return true
			}
		}
		return false
	}
}

// ---- the parent ----

type chunk struct {
	from, to int
	plain    bool
	sample   bool
	again    bool // determinism repetition
}

type chunkRes struct {
	c     chunk
	runs  []runOut
	sites []int
	crash string // worker died: the tail of its stderr
	last  int    // run that was executing
	slow  bool
	err   string
}

func selfPath(plain bool) string {
	e, err := os.Executable()
	if err != nil {
		die(err.Error())
	}
	d := filepath.Dir(e)
	if plain {
		return filepath.Join(d, "gmsim-plain")
	}
	return filepath.Join(d, "gmsim")
}

func runChunk(p *checks.Prop, tier string, seed int64, c chunk, limit time.Duration) chunkRes {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	s := "0"
	if c.sample {
		s = "1"
	}
	cmd := exec.CommandContext(ctx, selfPath(c.plain), "worker", p.ID, tier, fmt.Sprint(seed), fmt.Sprint(c.from), fmt.Sprint(c.to), s)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	r := chunkRes{c: c, last: -1}
	ended := false
	dec := json.NewDecoder(&so)
	for {
		var o runOut
		if dec.Decode(&o) != nil {
			break
		}
		switch {
		case o.Start != nil:
			r.last = *o.Start
		case o.End:
			ended = true
			r.sites = o.Sites
		default:
			r.runs = append(r.runs, o)
		}
	}
	if ctx.Err() != nil {
		r.slow = true
		r.err = fmt.Sprintf("worker for runs %d-%d exceeded %v", c.from, c.to, limit)
		return r
	}
	if err != nil || !ended {
		t := se.String()
		if i := strings.Index(t, "fatal error:"); i >= 0 {
			r.crash = t[i:]
		} else if i := strings.Index(t, "panic:"); i >= 0 {
			r.crash = t[i:]
		} else if i := strings.Index(t, "runtime: goroutine stack exceeds"); i >= 0 {
			r.crash = t[i:]
		} else {
			r.err = fmt.Sprintf("worker for runs %d-%d: %v: %s", c.from, c.to, err, tail(t))
		}
		if strings.Contains(r.crash, "out of memory") || strings.Contains(r.crash, "cannot allocate") {
			r.err, r.crash = "worker out of memory", ""
		}
		if len(r.crash) > 3000 {
			r.crash = r.crash[:3000]
		}
	}
	return r
}

func tail(s string) string {
	if len(s) > 1500 {
		return s[len(s)-1500:]
	}
	return s
}

func execReplay(r *Replay, limit time.Duration) (runOut, error) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, selfPath(r.Build == "plain"), "exec")
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	b, _ := json.Marshal(r)
	cmd.Stdin = bytes.NewReader(b)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	var o runOut
	if err != nil {
		t := se.String()
		if strings.Contains(t, "fatal error:") || strings.Contains(t, "panic:") {
			o.V = &sim.Violation{Class: "process-crash", Detail: firstLines(t, 12)}
			return o, nil
		}
		return o, fmt.Errorf("%v: %s", err, tail(t))
	}
	if err := json.Unmarshal(so.Bytes(), &o); err != nil {
		return o, err
	}
	return o, nil
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func envSeed() int64 {
	s := os.Getenv("VERIF_SEED")
	if s == "" {
		return 1
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return int64(sim.Seed(s) >> 1)
	}
	return n
}

func check(id, tier string) int {
	p := checks.All[id]
	if p == nil {
		die("unknown property " + id)
	}
	seed := envSeed()
	start := time.Now()
	n, deadline := p.Quick, 200*time.Second
	if tier == "thorough" {
		n, deadline = p.Thor, 780*time.Second
	} else if tier != "quick" {
		die("unknown tier " + tier)
	}
	if s := os.Getenv("GMSIM_RUNS"); s != "" {
		n = atoi(s)
	}
	fmt.Printf("gmsim: property=%s tier=%s VERIF_SEED=%d runs=%d\n", id, tier, seed, n)
	loadFindings()

	var todo []chunk
	for i := 0; i < p.Special; i++ {
		todo = append(todo, chunk{from: checks.SpecialBase + i, to: checks.SpecialBase + i + 1, plain: true, sample: i == 0})
	}
	nch := 0
	for i := 0; i < n; i += p.Chunk {
		e := i + p.Chunk
		if e > n {
			e = n
		}
		todo = append(todo, chunk{from: i, to: e, sample: nch < 2})
		nch++
	}
	// A tenth of the chunks are executed a second time, in other processes and
	// other company, and must give the same event logs.
	for i := 0; i < n; i += 10 * p.Chunk {
		e := i + p.Chunk
		if e > n {
			e = n
		}
		todo = append(todo, chunk{from: i, to: e, again: true})
	}

	a := newAgg()
	var mu sync.Mutex
	var bad *chunkRes
	next, stopped := 0, false
	var wg sync.WaitGroup
	for wk := 0; wk < runtime.NumCPU(); wk++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= len(todo) || stopped || time.Since(start) > deadline {
					mu.Unlock()
					return
				}
				c := todo[next]
				next++
				mu.Unlock()
				r := runChunk(p, tier, seed, c, deadline+60*time.Second)
				mu.Lock()
				a.add(&r)
				fail := r.err != "" || r.crash != ""
				for _, o := range r.runs {
					fail = fail || o.V != nil || o.Infra != ""
				}
				if fail && (bad == nil || better(&r, bad)) {
					rr := r
					bad = &rr
					stopped = true
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()

	var rep *Replay
	code := 0
	if bad != nil {
		rep, code = judge(p, tier, seed, bad)
	}
	nv := 0
	if rep != nil {
		nv = 1
	}
	a.write(p, tier, seed, start, nv, n)
	for _, f := range findings {
		if f.prop == id && a.known[f.class] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.what)
		}
	}
	if code != 0 && rep == nil {
		return code
	}
	if rep != nil {
		path := filepath.Join(root(), "replays", fmt.Sprintf("%s-%d-%s.json", id, seed, strings.ReplaceAll(rep.Class, "/", "_")))
		os.MkdirAll(filepath.Dir(path), 0o755)
		b, _ := json.MarshalIndent(rep, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			die(err.Error())
		}
		fmt.Printf("class: %s\ndetail: %s\n", rep.Class, rep.Detail)
		fmt.Printf("schedule and fault trace (%d events):\n", len(rep.Trace))
		for i, l := range rep.Trace {
			if i > 60 {
				fmt.Println("  ...")
				break
			}
			fmt.Println("  " + l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	fmt.Printf("gmsim: property=%s held on %d runs (%d operations, %d preemptions), %.0f s\n", id, a.nruns, a.ops, a.sw, time.Since(start).Seconds())
	return 0
}

// better prefers a reproducible property violation over infrastructure trouble,
// and lower run numbers, so that the reported failure does not depend on timing
// more than necessary.
func better(x, y *chunkRes) bool {
	kind := func(r *chunkRes) int {
		for _, o := range r.runs {
			if o.V != nil {
				return 0
			}
		}
		if r.crash != "" {
			return 1
		}
		return 2
	}
	if kind(x) != kind(y) {
		return kind(x) < kind(y)
	}
	return x.c.from < y.c.from
}

// judge confirms a failure in fresh processes and minimises it.
func judge(p *checks.Prop, tier string, seed int64, r *chunkRes) (*Replay, int) {
	build := "instrumented"
	if r.c.plain {
		build = "plain"
	}
	if r.crash != "" {
		rep := &Replay{Property: p.ID, Tier: tier, Seed: seed, Build: build, Indexes: []int{r.last}, Class: "process-crash", Detail: firstLines(r.crash, 12)}
		o, err := execReplay(rep, 300*time.Second)
		if err != nil || o.V == nil {
			rep.Indexes = nil
			for i := r.c.from; i <= r.last; i++ {
				rep.Indexes = append(rep.Indexes, i)
			}
			o, err = execReplay(rep, 300*time.Second)
		}
		if err != nil || o.V == nil {
			fmt.Fprintf(os.Stderr, "gmsim: worker crash did not repeat: %s\n", r.crash)
			return nil, 3
		}
		rep.Trace = strings.Split(o.V.Detail, " | ")
		return rep, 1
	}
	var f *runOut
	for i := range r.runs {
		if r.runs[i].V != nil {
			f = &r.runs[i]
		} else if r.runs[i].Infra != "" {
			fmt.Fprintln(os.Stderr, "gmsim: harness error:", r.runs[i].Infra)
			return nil, 3
		}
	}
	if f == nil {
		fmt.Fprintln(os.Stderr, "gmsim:", r.err)
		return nil, 3
	}
	class := f.V.Class
	nl := len(f.Lanes)
	rep := &Replay{Property: p.ID, Tier: tier, Seed: seed, Build: build, Class: class, Detail: f.V.Detail, Trace: f.Trace, LogHash: fmt.Sprintf("%016x", f.Log)}
	try := func(idx []int, lanes [][3][]uint32) (*runOut, bool) {
		q := &Replay{Property: p.ID, Tier: tier, Seed: seed, Build: build, Indexes: idx, Lanes: lanes}
		o, err := execReplay(q, 120*time.Second)
		if err != nil || o.V == nil || o.V.Class != class {
			return nil, false
		}
		return &o, true
	}
	rep.Indexes, rep.Lanes = []int{f.Index}, f.Lanes[nl-1:]
	best, ok := try(rep.Indexes, rep.Lanes)
	if !ok {
		// Needs the history of earlier runs in the same process.
		rep.Indexes = nil
		for i := 0; i < nl; i++ {
			rep.Indexes = append(rep.Indexes, f.Index-nl+1+i)
		}
		rep.Lanes = f.Lanes
		best, ok = try(rep.Indexes, rep.Lanes)
		if !ok {
			rep.Note = "the violation was observed once but the code under test did not repeat it"
			return rep, 1
		}
	}
	m := &minimiser{try: try, idx: rep.Indexes, lanes: rep.Lanes, best: best, end: time.Now().Add(minTime())}
	m.run()
	rep.Indexes, rep.Lanes = m.idx, m.lanes
	o, ok := try(m.idx, m.lanes)
	if !ok {
		o = m.best
		rep.Note = "not every repetition fails: the code under test is not deterministic"
	}
	rep.Detail, rep.Trace, rep.LogHash = o.V.Detail, o.Trace, fmt.Sprintf("%016x", o.Log)
	return rep, 1
}

func minTime() time.Duration {
	if s := os.Getenv("GMSIM_MIN_SECONDS"); s != "" {
		return time.Duration(atoi(s)) * time.Second
	}
	return 25 * time.Second
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die(err.Error())
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		die(err.Error())
	}
	loadFindings()
	o, err := execReplay(&r, 600*time.Second)
	if err != nil {
		die(err.Error())
	}
	for _, l := range o.Trace {
		fmt.Println("  " + l)
	}
	if o.V == nil {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("class: %s\ndetail: %s\n", o.V.Class, o.V.Detail)
	same := "differs from"
	if r.LogHash == fmt.Sprintf("%016x", o.Log) || r.Class == "process-crash" {
		same = "identical to"
	}
	fmt.Printf("event log %s the recorded one\n", same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
	return 1
}

// selfcheck executes chunks twice, in many processes and at two worker counts,
// and compares every event log and schedule hash.
func selfcheck(id string, n int) int {
	p := checks.All[id]
	seed := envSeed()
	exec := func(par int) map[int][2]uint64 {
		res := map[int][2]uint64{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan bool, par)
		for i := 0; i < n; i++ {
			wg.Add(1)
			sem <- true
			go func(i int) {
				defer wg.Done()
				r := runChunk(p, "quick", seed, chunk{from: i * p.Chunk, to: (i + 1) * p.Chunk}, 600*time.Second)
				mu.Lock()
				for _, o := range r.runs {
					res[o.Index] = [2]uint64{o.Log, o.Sched}
				}
				mu.Unlock()
				<-sem
			}(i)
		}
		wg.Wait()
		return res
	}
	a, b := exec(3), exec(16)
	bad := 0
	for i, v := range a {
		if b[i] != v {
			bad++
			fmt.Println("run", i, "differs")
		}
	}
	fmt.Printf("selfcheck %s: %d runs compared, %d differ\n", id, len(a), bad)
	if bad > 0 || len(a) != len(b) || len(a) == 0 {
		return 3
	}
	return 0
}
