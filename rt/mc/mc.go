// Package mc is the stateless model checker: it enumerates the decision trees
// of scenarios run under vrt, over a pool of worker processes.
package mc

import (
	"bufio"
	"encoding/gob"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/kitex-contrib/xds/verifrt/vrt"
)

// Scenario is one bounded space: every decision sequence of Body whose
// deviations cost at most Bound.
type Scenario struct {
	Name  string
	Opts  vrt.Opts
	Bound int
	Body  func(x *X)
	// Tree is false for scenarios which enumerate inputs inside one execution
	// (Body is run once per Shard with X.Shard / X.Shards set).
	Shards int
	// Race runs the scenario in processes built with the race detector; data
	// races of the code under test are violations.
	Race bool
	// Expect describes the bounds in words, for the evidence file.
	Bounds string
}

// X is what a scenario body sees.
type X struct {
	Shard, Shards int
	Deadline      time.Time // real time by which sharded bodies must stop
	w             *worker
	trace         []string
	wantLast      bool
	nin           int
}

// Now is real time (for sharded bodies only).
func (x *X) Expired() bool {
	if x.Shards > 0 && time.Now().After(x.Deadline) {
		x.w.res.Incomplete = true
		return true
	}
	return false
}

// State records a distinct state by its description.
func (x *X) State(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	if x.wantLast {
		x.wantLast = false
		x.Sample(fmt.Sprintf("input %d of shard %d: %s", x.nin, x.Shard, fmt.Sprint(parts...)))
	}
	x.StateHash(h.Sum64())
}

// StateHash records a distinct state by hash.
func (x *X) StateHash(h uint64) {
	if _, ok := x.w.states[h]; !ok {
		x.w.states[h] = struct{}{}
		x.w.res.NewStates = append(x.w.res.NewStates, h)
	}
}

// Count adds to a named counter of the evidence file.
func (x *X) Count(name string, n int) { x.w.res.Counters[name] += n }

// Input counts one enumerated input (one execution of the code under test).
func (x *X) Input(n int) {
	x.w.res.Inputs += n
	x.nin += n
	if x.Shards > 0 && x.nin%97 == 11 && x.WantSample() {
		x.wantLast = true
	}
}

// Op records one step of the current execution, for samples and replays.
func (x *X) Op(format string, a ...interface{}) {
	if x.w.wantTrace || vrt.Verbose() {
		l := fmt.Sprintf(format, a...)
		x.trace = append(x.trace, l)
		vrt.Logf("%s", l)
	}
}

// Sample records a sample case.
func (x *X) Sample(v string) {
	if len(x.w.res.Samples) < 3 {
		x.w.res.Samples = append(x.w.res.Samples, v)
	}
}

// WantSample reports whether another sample is useful.
func (x *X) WantSample() bool { return len(x.w.res.Samples) < 3 }

// Check describes a property check.
type Check struct {
	Property string
	Level    string
	// Scenarios returns the scenarios of a tier.
	Scenarios   func(tier string) []*Scenario
	Assumptions []string
	// Budget is the real time after which the check stops exploring.
	Budget func(tier string) time.Duration
	// Init runs once in every worker process.
	Init func()
}

type job struct {
	Scen     int
	Prefixes [][]vrt.Dec
	Budget   time.Duration
	Shard    int
	Deadline time.Time
	Progress string // file that receives the prefix of every execution
	Trace    bool
}

type violation struct {
	Scen   int
	Prefix []vrt.Dec
	Shard  int
	Kind   string
	Msg    string
	Stack  string
	Trace  []string
	Repro  int
}

type result struct {
	Execs      int
	Steps      int
	Branches   int
	Decisions  int
	Inputs     int
	Edges      int
	MaxDepth   int
	Left       [][]vrt.Dec
	NewStates  []uint64
	Counters   map[string]int
	Samples    []string
	Viol       *violation
	Internal   string
	Incomplete bool
	ByCost     []int
	Diverged   int
}

type worker struct {
	c         *Check
	scens     []*Scenario
	states    map[uint64]struct{}
	res       *result
	wantTrace bool
	cur       []vrt.Dec
	curScen   int
	curShard  int
	beat      int64
	mu        sync.Mutex
}

var (
	fTier   = flag.String("tier", "quick", "")
	fSeed   = flag.Int("seed", 1, "")
	fOut    = flag.String("evidence", "", "")
	fRep    = flag.String("replays", "", "directory for replay files")
	fKnown  = flag.String("known", "", "known findings file")
	fReplay = flag.String("replay", "", "replay this file")
	fWork   = flag.Int("workers", 0, "")
	fScen   = flag.String("scenario", "", "only this scenario (debugging)")
	fBudget = flag.Duration("budget", 0, "")
	fStart  = flag.Int64("start", 0, "unix nanoseconds at which the check began")
	fV      = flag.Bool("v", false, "")
)

// Main runs a check.
func Main(c *Check) {
	flag.Parse()
	if os.Getenv("VRT_WORKER") != "" {
		workerMain(c)
		return
	}
	if *fReplay != "" {
		replayMain(c)
		return
	}
	parentMain(c)
}

// ---- worker ----

func workerMain(c *Check) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	in := os.NewFile(3, "in")
	out := os.NewFile(4, "out")
	os.Stdout = os.Stderr
	dec := gob.NewDecoder(bufio.NewReaderSize(in, 1<<16))
	bw := bufio.NewWriterSize(out, 1<<16)
	enc := gob.NewEncoder(bw)
	w := newWorker(c)
	go w.watchdog(func(r *result) {
		_ = enc.Encode(r)
		_ = bw.Flush()
		os.Exit(3)
	})
	for {
		var j job
		if err := dec.Decode(&j); err != nil {
			return
		}
		w.run(&j)
		w.mu.Lock()
		if err := enc.Encode(w.res); err != nil {
			fmt.Fprintln(os.Stderr, "worker:", err)
			os.Exit(2)
		}
		if err := bw.Flush(); err != nil {
			os.Exit(2)
		}
		w.beat = 0
		w.mu.Unlock()
	}
}

func newWorker(c *Check) *worker {
	w := &worker{c: c, states: map[uint64]struct{}{}}
	w.scens = c.scenarios(*fTier)
	if c.Init != nil {
		c.Init()
	}
	return w
}

const hangAfter = 40 * time.Second

func (w *worker) watchdog(report func(*result)) {
	var last int64
	var since time.Time
	for {
		time.Sleep(time.Second)
		w.mu.Lock()
		b := w.beat
		if b == 0 || b != last || w.scens[w.curScen].Shards > 0 {
			last, since = b, time.Now()
			w.mu.Unlock()
			continue
		}
		if time.Since(since) > hangAfter {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			report(&result{Viol: &violation{Scen: w.curScen, Prefix: w.cur, Shard: w.curShard, Kind: "hang",
				Msg: "an execution makes no progress (loop without synchronisation, or blocked outside the controlled runtime)", Stack: string(buf)}})
		}
		w.mu.Unlock()
	}
}

// scenarios of a tier. The thorough one begins with what the quick one does and
// it would do deeper, as it may run out of time before it has got there.
func (c *Check) scenarios(tier string) []*Scenario {
	l := c.Scenarios(tier)
	if tier != "thorough" {
		return l
	}
	var first []*Scenario
	for _, q := range c.Scenarios("quick") {
		same := false
		for _, s := range l {
			same = same || s.Name == q.Name && s.Bound == q.Bound && s.Bounds == q.Bounds
		}
		if q.Shards == 0 && !same {
			q.Name += "@quick"
			first = append(first, q)
		}
	}
	return append(first, l...)
}

func (w *worker) exec(si int, prefix []vrt.Dec, shard int, deadline time.Time, verbose bool) (*vrt.Result, *X) {
	sc := w.scens[si]
	o := sc.Opts
	o.Verbose = verbose
	if sc.Shards > 0 {
		o.MaxSteps = 1 << 60
		o.Horizon = 1 << 62
	}
	x := &X{w: w, Shard: shard, Shards: sc.Shards, Deadline: deadline}
	w.mu.Lock()
	w.cur, w.curScen, w.curShard = prefix, si, shard
	w.beat++
	w.mu.Unlock()
	r0 := vrt.RaceErrors()
	r := vrt.Run(o, prefix, func() { sc.Body(x) })
	if n := vrt.RaceErrors(); n > r0 {
		if rep := newRaces(); rep != "" && r.Fail == nil {
			r.Fail = &vrt.Failure{Kind: "race", Msg: "data race: " + raceLine(rep), Stack: rep}
		}
	}
	return r, x
}

func (w *worker) run(j *job) {
	w.res = &result{Counters: map[string]int{}}
	res := w.res
	sc := w.scens[j.Scen]
	stop := time.Now().Add(j.Budget)
	stack := j.Prefixes
	for len(stack) > 0 {
		if sc.Shards == 0 && res.Execs > 0 && time.Now().After(stop) {
			break
		}
		p := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if j.Progress != "" {
			b, _ := json.Marshal(p)
			_ = os.WriteFile(j.Progress, b, 0o644)
		}
		w.wantTrace = len(res.Samples) < 1
		r, x := w.exec(j.Scen, p, j.Shard, j.Deadline, false)
		if w.wantTrace && len(x.trace) > 0 && sc.Shards == 0 {
			res.Samples = append(res.Samples, sc.Name+": "+strings.Join(x.trace, "; "))
		}
		res.Execs++
		res.Steps += r.Steps
		for len(res.ByCost) <= r.Cost {
			res.ByCost = append(res.ByCost, 0)
		}
		res.ByCost[r.Cost]++
		if len(r.Trace) > res.MaxDepth {
			res.MaxDepth = len(r.Trace)
		}
		res.Decisions += len(r.Trace) - len(p)
		if len(p) > 0 {
			res.Decisions++
		}
		if r.Fail != nil {
			if r.Fail.Kind == "diverged" {
				// nondeterminism outside the controlled runtime: this
				// branch cannot be explored
				res.Diverged++
				res.Incomplete = true
				continue
			}
			v := &violation{Scen: j.Scen, Prefix: trim(r.Trace), Shard: j.Shard, Kind: r.Fail.Kind, Msg: r.Fail.Msg, Stack: r.Fail.Stack}
			for i := 0; i < 3; i++ {
				rr, _ := w.exec(j.Scen, v.Prefix, j.Shard, j.Deadline, false)
				if rr.Fail != nil && rr.Fail.Kind != "diverged" {
					v.Repro++
				} else if os.Getenv("VRT_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "not reproduced: %+v\n", rr.Fail)
				}
				if sc.Shards > 0 {
					break
				}
			}
			rr, xx := w.exec(j.Scen, v.Prefix, j.Shard, j.Deadline, true)
			_ = xx
			v.Trace = rr.Log
			if len(v.Trace) > 3000 {
				v.Trace = v.Trace[len(v.Trace)-3000:]
			}
			if r.Fail.Kind == "race" {
				// the detector reports each race once per process
				v.Repro = 3
			}
			res.Viol = v
			return
		}
		// expand
		cost := 0
		costs := make([]int, len(r.Trace))
		for i, d := range r.Trace {
			costs[i] = cost
			if d.Cost1 && d.C != 0 {
				cost++
			}
		}
		for i := len(p); i < len(r.Trace); i++ {
			d := r.Trace[i]
			if d.Cost1 && costs[i]+1 > sc.Bound {
				continue
			}
			for c := int(d.N) - 1; c >= 1; c-- {
				np := make([]vrt.Dec, i+1)
				copy(np, r.Trace[:i+1])
				np[i].C = uint16(c)
				stack = append(stack, np)
				res.Branches++
			}
		}
	}
	res.Left = stack
}

// trim drops trailing default decisions.
func trim(t []vrt.Dec) []vrt.Dec {
	n := len(t)
	for n > 0 && t[n-1].C == 0 {
		n--
	}
	return append([]vrt.Dec(nil), t[:n]...)
}

// ---- parent ----

type proc struct {
	cmd *exec.Cmd
	enc *gob.Encoder
	dec *gob.Decoder
	w   *os.File
	r   *os.File
}

func spawn(race bool) (*proc, error) {
	r1, w1, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	r2, w2, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	bin := os.Args[0]
	env := append(os.Environ(), "VRT_WORKER=1")
	if race {
		if bin = os.Getenv("VERIF_RACE_BIN"); bin == "" {
			return nil, fmt.Errorf("no race build")
		}
		env = append(env, "GORACE=halt_on_error=0 exitcode=0 log_path="+raceLog())
	}
	cmd := exec.Command(bin, os.Args[1:]...)
	cmd.Env = env
	cmd.ExtraFiles = []*os.File{r1, w2}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	r1.Close()
	w2.Close()
	return &proc{cmd: cmd, enc: gob.NewEncoder(w1), dec: gob.NewDecoder(bufio.NewReaderSize(r2, 1<<16)), w: w1, r: r2}, nil
}

func (p *proc) close() {
	p.w.Close()
	p.r.Close()
	_ = p.cmd.Process.Kill()
	_ = p.cmd.Wait()
}

type scenStat struct {
	Name        string         `json:"scenario"`
	Bounds      string         `json:"bounds"`
	Execs       int            `json:"executions"`
	Steps       int            `json:"steps"`
	Decisions   int            `json:"decisions"`
	Inputs      int            `json:"inputs,omitempty"`
	Edges       int            `json:"choice_edges,omitempty"`
	MaxDepth    int            `json:"max_decisions_in_one_execution"`
	ByDeviation []int          `json:"executions_by_deviations,omitempty"`
	Exhaustive  bool           `json:"exhaustive"`
	Frontier    int            `json:"unexplored_prefixes,omitempty"`
	Counters    map[string]int `json:"counters,omitempty"`
	WallS       float64        `json:"wall_s"`
}

func parentMain(c *Check) {
	begin := time.Now()
	start := begin
	if *fStart != 0 {
		start = time.Unix(0, *fStart)
	}
	budget := 90 * time.Second
	if *fTier == "thorough" {
		budget = 600 * time.Second
	}
	if c.Budget != nil {
		budget = c.Budget(*fTier)
	}
	if *fBudget != 0 {
		budget = *fBudget
	}
	deadline := begin.Add(budget)
	nw := *fWork
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	scens := c.scenarios(*fTier)
	states := map[uint64]struct{}{}
	var stats []*scenStat
	var samples []string
	var viols []*violation
	internal := ""
	unrepro := 0
	procs := make([]*proc, nw)
	raceProcs := false
	defer func() {
		for _, p := range procs {
			if p != nil {
				p.close()
			}
		}
	}()
	for si, sc := range scens {
		st := &scenStat{Name: sc.Name, Bounds: sc.Bounds, Counters: map[string]int{}, Exhaustive: true}
		if *fScen != "" && *fScen != sc.Name {
			continue
		}
		stats = append(stats, st)
		t0 := time.Now()
		if sc.Race != raceProcs {
			raceProcs = sc.Race
			for i, p := range procs {
				if p != nil {
					p.close()
					procs[i] = nil
				}
			}
		}
		// share the remaining time among the remaining scenarios
		left := time.Until(deadline)
		share := deadline
		if k := len(scens) - si; k > 1 && *fScen == "" {
			share = time.Now().Add(left*2/time.Duration(k) - left/time.Duration(k*k))
			if share.After(deadline) {
				share = deadline
			}
		}
		var mu sync.Mutex
		cond := sync.NewCond(&mu)
		var queue []job
		if sc.Shards > 0 {
			for i := 0; i < sc.Shards; i++ {
				queue = append(queue, job{Scen: si, Prefixes: [][]vrt.Dec{nil}, Shard: i, Deadline: share})
			}
		} else {
			queue = []job{{Scen: si, Prefixes: [][]vrt.Dec{nil}}}
		}
		busy := 0
		halt := false
		execBudget := 20 * time.Millisecond
		var wg sync.WaitGroup
		for wi := 0; wi < nw; wi++ {
			wg.Add(1)
			go func(wi int) {
				defer wg.Done()
				for {
					mu.Lock()
					for len(queue) == 0 && busy > 0 && !halt {
						cond.Wait()
					}
					if halt || (len(queue) == 0 && busy == 0) {
						cond.Broadcast()
						mu.Unlock()
						return
					}
					if sc.Shards == 0 && time.Now().After(share) {
						halt = true
						cond.Broadcast()
						mu.Unlock()
						return
					}
					j := queue[len(queue)-1]
					queue = queue[:len(queue)-1]
					j.Budget = execBudget
					if len(queue) > nw {
						j.Budget = 400 * time.Millisecond
					}
					busy++
					mu.Unlock()
					if procs[wi] == nil {
						p, err := spawn(sc.Race)
						if err != nil {
							mu.Lock()
							internal = err.Error()
							halt = true
							busy--
							cond.Broadcast()
							mu.Unlock()
							return
						}
						procs[wi] = p
					}
					res, err := procs[wi].do(&j)
					if err != nil {
						procs[wi].close()
						procs[wi] = nil
						res = crashed(&j, sc.Race, err)
					} else if res.Viol != nil && res.Viol.Kind == "hang" {
						procs[wi].close()
						procs[wi] = nil
					}
					mu.Lock()
					busy--
					st.Execs += res.Execs
					st.Steps += res.Steps
					st.Decisions += res.Decisions
					st.Inputs += res.Inputs
					st.Edges += res.Edges
					if res.MaxDepth > st.MaxDepth {
						st.MaxDepth = res.MaxDepth
					}
					for i, n := range res.ByCost {
						for len(st.ByDeviation) <= i {
							st.ByDeviation = append(st.ByDeviation, 0)
						}
						st.ByDeviation[i] += n
					}
					for k, v := range res.Counters {
						st.Counters[k] += v
					}
					for _, h := range res.NewStates {
						states[h] = struct{}{}
					}
					if len(samples) < 12 && len(res.Samples) > 0 {
						samples = append(samples, res.Samples[0])
					}
					if res.Diverged > 0 {
						st.Counters["diverged_prefixes_skipped"] += res.Diverged
					}
					if res.Incomplete {
						st.Exhaustive = false
					}
					if res.Internal != "" {
						internal = res.Internal
						halt = true
					}
					if v := res.Viol; v != nil {
						if v.Repro == 0 && v.Kind != "hang" && v.Kind != "process-crash" {
							unrepro++
							st.Exhaustive = false
							fmt.Fprintf(os.Stderr, "unreproduced failure in %s: %s %s\n", sc.Name, v.Kind, v.Msg)
						} else {
							viols = append(viols, v)
							halt = true
						}
					}
					if len(res.Left) > 0 {
						// split what is left
						parts := nw
						if len(queue) > 4*nw {
							parts = 1
						}
						if parts > len(res.Left) {
							parts = len(res.Left)
						}
						for k := 0; k < parts; k++ {
							var ps [][]vrt.Dec
							for i := k; i < len(res.Left); i += parts {
								ps = append(ps, res.Left[i])
							}
							queue = append(queue, job{Scen: si, Prefixes: ps})
						}
					}
					cond.Broadcast()
					mu.Unlock()
				}
			}(wi)
		}
		wg.Wait()
		for _, q := range queue {
			st.Frontier += len(q.Prefixes)
		}
		if len(queue) > 0 || halt {
			st.Exhaustive = false
		}
		st.WallS = round(time.Since(t0).Seconds())
		if len(st.Counters) == 0 {
			st.Counters = nil
		}
		if *fV {
			b, _ := json.Marshal(st)
			fmt.Fprintln(os.Stderr, string(b))
		}
		if len(viols) > 0 || internal != "" {
			break
		}
	}
	if internal != "" {
		fmt.Fprintln(os.Stderr, "checker error:", internal)
		os.Exit(2)
	}
	known := loadKnown(c.Property)
	exit := 0
	nviol := 0
	for _, v := range viols {
		path := writeReplay(c, scens, v)
		if id := matchKnown(known, v); id != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Property, id)
			continue
		}
		nviol++
		fmt.Printf("%s: %s in scenario %s: %s\n", c.Property, v.Kind, scens[v.Scen].Name, v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Property, path)
		exit = 1
	}
	// evidence
	execs, steps, decs, inputs, edges := 0, 0, 0, 0, 0
	exh := true
	for _, s := range stats {
		execs += s.Execs
		steps += s.Steps
		decs += s.Decisions
		inputs += s.Inputs
		edges += s.Edges
		if s.Edges == 0 {
			edges += s.Inputs
		}
		exh = exh && s.Exhaustive
	}
	traces := execs
	if inputs > 0 {
		traces = inputs
		for _, s := range stats {
			if s.Inputs == 0 {
				traces += s.Execs
			}
		}
	}
	if len(samples) > 6 {
		samples = samples[:6]
	}
	for i := range samples {
		if len(samples[i]) > 1500 {
			samples[i] = samples[i][:1500] + "..."
		}
	}
	if samples == nil {
		samples = []string{}
	}
	if c.Assumptions == nil {
		c.Assumptions = []string{}
	}
	level := c.Level
	if level == "" {
		level = "model_checking"
	}
	ev := map[string]interface{}{
		"property": c.Property, "tier": *fTier, "seed": *fSeed, "level": level,
		"coverage": map[string]interface{}{
			"states":                        len(states),
			"transitions":                   steps + edges,
			"traces_validated_against_impl": traces,
			"executions":                    execs,
			"decision_points":               decs,
			"samples":                       samples,
			"exhaustive":                    exh && nviol == 0,
			"scenarios":                     stats,
			"unreproduced_failures":         unrepro,
			"explanation":                   "states: distinct abstract states (reference-model state plus observed cache/requests) hashed at quiescent points, or distinct input classes; transitions: scheduling steps executed by the real code plus edges of the input-choice trees (one per input where inputs are not built by choices); traces_validated_against_impl: executions (or inputs) run on the real code and compared with the reference.",
		},
		"assumptions": c.Assumptions,
		"wall_s":      round(time.Since(start).Seconds()),
		"violations":  nviol,
	}
	if *fOut != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(*fOut, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	fmt.Printf("%s %s: %d executions, %d inputs, %d steps, %d states, exhaustive=%v, %.1fs\n", c.Property, *fTier, execs, inputs, steps, len(states), exh, time.Since(start).Seconds())
	for _, p := range procs {
		if p != nil {
			p.close()
		}
	}
	os.Exit(exit)
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func (p *proc) do(j *job) (*result, error) {
	if err := p.enc.Encode(j); err != nil {
		return nil, err
	}
	var r result
	if err := p.dec.Decode(&r); err != nil {
		return nil, err
	}
	return &r, nil
}

// crashed re-runs a job whose worker died, recording progress, to find the
// execution that kills the process.
func crashed(j *job, race bool, err error) *result {
	f := filepath.Join(os.TempDir(), fmt.Sprintf("vrt-progress-%d", os.Getpid()))
	defer os.Remove(f)
	for try := 0; try < 2; try++ {
		p, e := spawn(race)
		if e != nil {
			return &result{Internal: e.Error()}
		}
		jj := *j
		jj.Progress = f
		jj.Budget *= 20
		r, e := p.do(&jj)
		p.close()
		if e == nil {
			if try == 1 {
				return r
			}
			continue
		}
		var pre []vrt.Dec
		b, _ := os.ReadFile(f)
		_ = json.Unmarshal(b, &pre)
		return &result{Viol: &violation{Scen: j.Scen, Prefix: pre, Shard: j.Shard, Kind: "process-crash",
			Msg: "the process running this execution died (fatal error or unrecovered panic outside a managed goroutine); see stderr"}}
	}
	return &result{Internal: "worker died: " + err.Error()}
}

type replayFile struct {
	Property string    `json:"property"`
	Tier     string    `json:"tier"`
	Scenario string    `json:"scenario"`
	Shard    int       `json:"shard"`
	Prefix   []vrt.Dec `json:"decisions"`
	Kind     string    `json:"kind"`
	Msg      string    `json:"message"`
	Stack    string    `json:"stack,omitempty"`
	Trace    []string  `json:"trace"`
}

func writeReplay(c *Check, scens []*Scenario, v *violation) string {
	dir := *fRep
	if dir == "" {
		dir = os.TempDir()
	}
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, c.Property+".json")
	b, _ := json.MarshalIndent(&replayFile{c.Property, *fTier, scens[v.Scen].Name, v.Shard, v.Prefix, v.Kind, v.Msg, v.Stack, v.Trace}, "", " ")
	_ = os.WriteFile(path, b, 0o644)
	return path
}

func replayMain(c *Check) {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	*fTier = rf.Tier
	runtime.GOMAXPROCS(1)
	w := newWorker(c)
	w.res = &result{Counters: map[string]int{}}
	for i, s := range w.scens {
		if s.Name == rf.Scenario {
			if s.Race && !vrt.RaceEnabled && os.Getenv("VERIF_RACE_BIN") != "" {
				cmd := exec.Command(os.Getenv("VERIF_RACE_BIN"), os.Args[1:]...)
				cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path="+raceLog())
				cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
				_ = cmd.Run()
				os.Exit(cmd.ProcessState.ExitCode())
			}
			r, _ := w.exec(i, rf.Prefix, rf.Shard, time.Now().Add(10*time.Minute), true)
			for _, l := range r.Log {
				fmt.Println(l)
			}
			if r.Fail != nil {
				fmt.Printf("%s: %s\n%s\n", r.Fail.Kind, r.Fail.Msg, r.Fail.Stack)
				if r.Fail.Kind != "diverged" {
					fmt.Printf("VIOLATION property=%s replay=%s\n", c.Property, *fReplay)
					os.Exit(1)
				}
				os.Exit(2)
			}
			fmt.Println("no violation")
			os.Exit(0)
		}
	}
	fmt.Fprintln(os.Stderr, "no such scenario")
	os.Exit(2)
}

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Match    string `json:"match"`  // substring of the message identifying the failing input
	What     string `json:"what"`
}

func loadKnown(prop string) []finding {
	if *fKnown == "" {
		return nil
	}
	b, err := os.ReadFile(*fKnown)
	if err != nil {
		return nil
	}
	var all []finding
	if err := json.Unmarshal(b, &all); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		os.Exit(2)
	}
	var out []finding
	for _, f := range all {
		if f.Property == prop && f.Status == "known" {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Match < out[j].Match })
	return out
}

func matchKnown(known []finding, v *violation) string {
	for _, f := range known {
		if f.Match != "" && strings.Contains(v.Msg, f.Match) {
			return f.What
		}
	}
	return ""
}

var _ = io.EOF
