// Package vrt is the controlled runtime the instrumented code runs on: a
// cooperative scheduler with virtual time in which every scheduling,
// select, environment and random choice goes through one decision trace.
package vrt

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Dec is one recorded decision: C of N alternatives.
type Dec struct {
	N, C uint16
	// Cost1 marks decisions whose non-default alternatives cost one deviation.
	Cost1 bool
}

// Opts configures one execution.
type Opts struct {
	// TimerEarly offers "time passes, the next timer fires" as an alternative
	// at scheduling points inside the region of interest.
	TimerEarly bool
	// EarlyWithin limits early firing to timers due this long after the
	// region was entered (0: no limit).
	EarlyWithin time.Duration
	// UnlockPoints adds a scheduling point after every unlock.
	UnlockPoints bool
	// MapOrder makes the iteration order of small maps a (cost 1) choice.
	MapOrder bool
	// FreeSelect makes the choice among several ready select cases free
	// (cost 0) rather than a deviation.
	FreeSelect bool
	// NoSelect disables branching on several ready select cases.
	NoSelect bool
	MaxSteps int
	// Horizon is the virtual time after which an execution counts as stuck.
	Horizon time.Duration
	Verbose bool
}

// G is a managed goroutine.
type G struct {
	id      int
	name    string
	wake    chan struct{}
	ready   func() bool
	what    string
	done    bool
	idle    bool             // only runnable when nothing else is
	run     int              // consecutive steps
	recv    []unsafe.Pointer // channels this goroutine waits to receive from
	slot    *xfer            // a value handed over by an unbuffered sender
	sends   []*xfer          // values this goroutine offers on unbuffered channels
	sent    *xfer            // which of them was taken
	granted bool
}

type xfer struct {
	ch  unsafe.Pointer
	val interface{}
	idx int
}

// Failure describes why an execution ended abnormally.
type Failure struct {
	Kind  string // "violation", "crash", "deadlock", "horizon", "steps", "diverged"
	Prop  string
	Msg   string
	Stack string
}

type timer struct {
	when   time.Time
	seq    int
	f      func()
	active bool
	idx    int
}

type sched struct {
	opts     Opts
	gs       []*G
	nextID   int
	offers   int // sends on offer in all goroutines
	cur      *G
	steps    int
	now      time.Time
	start    time.Time
	timers   []*timer
	tseq     int
	prefix   []Dec
	trace    []Dec
	cost     int
	region   bool
	regionAt time.Time
	killed   bool
	ending   bool
	endCh    chan struct{}
	ack      chan struct{}
	fail     *Failure
	log      []string
	watch    []*vctx // contexts with an unmanaged cancellable parent
	ctxs     map[unsafe.Pointer]*vctx
	drawHook func(n uint64) (uint64, bool)
}

var s *sched

// Epoch is the virtual start time of every execution.
var Epoch = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

// On reports whether a managed execution is in progress.
func On() bool { return s != nil && !s.killed }

// Now is the virtual time.
func Now() time.Time {
	if s == nil {
		return Epoch
	}
	return s.now
}

// Steps is the number of scheduling steps so far.
func Steps() int { return s.steps }

// Result of one execution.
type Result struct {
	Trace    []Dec
	Cost     int
	Steps    int
	Fail     *Failure
	Log      []string
	Switches int
}

// Run executes body under the scheduler, following prefix and then defaults.
func Run(opts Opts, prefix []Dec, body func()) *Result {
	if opts.MaxSteps == 0 {
		opts.MaxSteps = 200000
	}
	if opts.Horizon == 0 {
		opts.Horizon = 2 * time.Hour
	}
	sc := &sched{
		opts: opts, prefix: prefix, now: Epoch, start: Epoch,
		endCh: make(chan struct{}, 1), ack: make(chan struct{}),
		ctxs: map[unsafe.Pointer]*vctx{},
	}
	if len(prefix) > 0 {
		sc.trace = make([]Dec, 0, len(prefix)+64)
	}
	s = sc
	g := sc.newG("main")
	sc.cur = g
	go sc.wrapper(g, body)
	g.wake <- struct{}{}
	<-sc.endCh
	sc.killed = true
	for _, h := range sc.gs {
		if !h.done {
			h.wake <- struct{}{}
			<-sc.ack
		}
	}
	s = nil
	if sc.fail == nil && len(sc.trace) < len(prefix) {
		sc.fail = &Failure{Kind: "diverged", Msg: fmt.Sprintf("execution ended after %d decisions, prefix has %d", len(sc.trace), len(prefix))}
	}
	return &Result{Trace: sc.trace, Cost: sc.cost, Steps: sc.steps, Fail: sc.fail, Log: sc.log}
}

func (sc *sched) newG(name string) *G {
	g := &G{id: sc.nextID, name: name, wake: make(chan struct{}, 1)}
	sc.nextID++
	sc.gs = append(sc.gs, g)
	return g
}

func (sc *sched) wrapper(g *G, f func()) {
	normal := false
	defer func() {
		var p interface{}
		if !normal {
			p = recover()
		}
		g.done = true
		if sc.killed {
			sc.ack <- struct{}{}
			return
		}
		raceOff()
		if p != nil && sc.fail == nil {
			sc.fail = &Failure{Kind: "crash", Msg: fmt.Sprintf("goroutine %s panicked: %v", g.name, p), Stack: string(debug.Stack())}
			sc.signalEnd()
		} else if g.id == 0 {
			sc.signalEnd()
		} else if !sc.ending {
			sc.drop(g)
			sc.resched(g)
		}
		raceOn()
	}()
	raceOff()
	<-g.wake
	raceOn()
	if sc.killed {
		runtime.Goexit()
	}
	f()
	normal = true
}

func (sc *sched) drop(g *G) {
	for i, h := range sc.gs {
		if h == g {
			sc.gs = append(sc.gs[:i], sc.gs[i+1:]...)
			return
		}
	}
}

func (sc *sched) signalEnd() {
	if !sc.ending {
		sc.ending = true
		sc.endCh <- struct{}{}
	}
}

// abort ends the execution with f; it does not return.
func (sc *sched) abort(f *Failure) {
	if sc.fail == nil {
		sc.fail = f
	}
	g := sc.cur
	sc.signalEnd()
	<-g.wake
	raceOn()
	runtime.Goexit()
}

// Go starts a managed goroutine.
func Go(f func()) { GoN("", f) }

// GoN is Go with a name for traces.
func GoN(name string, f func()) {
	if s == nil {
		go f()
		return
	}
	if s.killed {
		return
	}
	sc := s
	g := sc.newG(name)
	if name == "" {
		g.name = fmt.Sprintf("g%d", g.id)
	}
	go sc.wrapper(g, f)
	Point("go")
}

// Point is an always enabled scheduling point.
func Point(what string) { Wait(nil, what) }

// Wait is a scheduling point which is enabled when ready holds. When it
// returns, ready holds and nothing else runs until the next point.
func Wait(ready func() bool, what string) {
	if s == nil {
		if ready != nil && !ready() {
			panic("vrt: would block outside an execution: " + what)
		}
		return
	}
	sc := s
	if sc.killed {
		runtime.Goexit()
	}
	raceOff()
	g := sc.cur
	g.ready, g.what = ready, what
	sc.resched(g)
	raceOn()
	if sc.killed {
		runtime.Goexit()
	}
}

// resched gives control to the next goroutine. It is entered by the running
// goroutine g (or by a finished one) and returns when g runs again.
func (sc *sched) resched(g *G) {
	next := sc.pick(g)
	if next == nil { // aborted while picking from a finished goroutine
		return
	}
	if next == g {
		return
	}
	next.run = 0
	sc.cur = next
	if sc.opts.Verbose {
		sc.logf("    -> %s (%s)", next.name, next.what)
	}
	next.wake <- struct{}{}
	if g.done {
		return
	}
	<-g.wake
}

const fairLimit = 2000

func (sc *sched) pick(g *G) *G {
	for {
		sc.steps++
		if sc.steps > sc.opts.MaxSteps {
			return sc.stop(g, &Failure{Kind: "steps", Msg: "step limit: " + sc.dump()})
		}
		if len(sc.watch) > 0 {
			sc.pollCtx()
		}
		curOK := !g.done && !g.idle && (g.ready == nil || g.ready())
		g.run++
		fair := g.run <= fairLimit
		branch := sc.region
		if curOK && !branch && fair {
			return g
		}
		var buf [24]*G
		en := buf[:0]
		if curOK && fair {
			en = append(en, g)
		}
		n := len(sc.gs)
		at := 0
		for i, h := range sc.gs {
			if h.id > g.id {
				at = i
				break
			}
		}
		for i := 0; i < n; i++ {
			h := sc.gs[(at+i)%n]
			if h != g && !h.done && !h.idle && (h.ready == nil || h.ready()) {
				en = append(en, h)
				if !branch {
					break
				}
			}
		}
		if curOK && !fair {
			en = append(en, g)
			g.run = 0
		}
		if len(en) == 0 {
			if t := sc.nextTimer(); t != nil && !t.when.After(sc.now) {
				// due already: it does not need time to pass
				sc.fireNext()
				continue
			}
			for _, h := range sc.gs {
				if h.idle && !h.done && (h.ready == nil || h.ready()) {
					return h
				}
			}
			if !sc.fireNext() {
				return sc.stop(g, &Failure{Kind: "deadlock", Msg: "nothing can run: " + sc.dump()})
			}
			if sc.now.Sub(sc.start) > sc.opts.Horizon {
				return sc.stop(g, &Failure{Kind: "horizon", Msg: "virtual time horizon: " + sc.dump()})
			}
			continue
		}
		alts := len(en)
		early := false
		if branch && sc.opts.TimerEarly && sc.earlyOK() {
			early = true
			alts++
		}
		c := 0
		if alts > 1 && branch {
			c = sc.decide(alts, true)
			if c < 0 {
				return sc.stop(g, sc.fail)
			}
		}
		if early && c == alts-1 {
			sc.fireNext()
			continue
		}
		return en[c]
	}
}

func (sc *sched) earlyOK() bool {
	t := sc.nextTimer()
	return t != nil && (sc.opts.EarlyWithin == 0 || !t.when.After(sc.regionAt.Add(sc.opts.EarlyWithin)))
}

func (sc *sched) stop(g *G, f *Failure) *G {
	if sc.fail == nil {
		sc.fail = f
	}
	sc.signalEnd()
	if g.done {
		return nil
	}
	<-g.wake // killed
	return g
}

// decide records a decision among n alternatives.
func (sc *sched) decide(n int, cost1 bool) int {
	i := len(sc.trace)
	c := 0
	if i < len(sc.prefix) {
		p := sc.prefix[i]
		if int(p.N) != n {
			sc.fail = &Failure{Kind: "diverged", Msg: fmt.Sprintf("decision %d has %d alternatives, prefix recorded %d", i, n, p.N)}
			return -1
		}
		c = int(p.C)
	}
	sc.trace = append(sc.trace, Dec{N: uint16(n), C: uint16(c), Cost1: cost1})
	if c != 0 && cost1 {
		sc.cost++
	}
	if sc.opts.Verbose && c != 0 && cost1 {
		sc.logf("    deviation: decision %d takes %d of %d", i, c, n)
	}
	return c
}

// Choose is an environment choice: all n alternatives are explored at no cost.
func Choose(n int) int { return choose(n, false) }

// ChooseDev is a choice whose non-default alternatives cost a deviation.
func ChooseDev(n int) int { return choose(n, true) }

func choose(n int, cost1 bool) int {
	if s == nil || s.killed || n <= 1 {
		return 0
	}
	c := s.decide(n, cost1)
	if c < 0 {
		raceOff()
		s.abort(s.fail)
	}
	return c
}

// Region switches exploration of scheduling alternatives on or off.
func Region(on bool) {
	s.region = on
	s.regionAt = s.now
}

// Fail ends the execution with a violation.
func Fail(prop, format string, a ...interface{}) {
	if s == nil || s.killed {
		runtime.Goexit()
	}
	raceOff()
	s.abort(&Failure{Kind: "violation", Prop: prop, Msg: fmt.Sprintf(format, a...)})
}

// Fatal reports a condition the Go runtime would crash on.
func Fatal(msg string) {
	if s == nil {
		panic(msg)
	}
	if s.killed {
		runtime.Goexit()
	}
	raceOff()
	s.abort(&Failure{Kind: "crash", Msg: msg, Stack: string(debug.Stack())})
}

// Quiesce waits until no other goroutine can run without time passing.
func Quiesce() {
	sc := s
	g := sc.cur
	g.idle = true
	Wait(nil, "quiesce")
	g.idle = false
}

// QuiesceUntil waits until cond holds once nothing else can run, letting
// virtual time pass (timers fire) up to d.
func QuiesceUntil(cond func() bool, d time.Duration) bool {
	sc := s
	limit := sc.now.Add(d)
	expired := false
	t := sc.addTimer(limit, func() { expired = true })
	g := sc.cur
	g.idle = true
	Wait(func() bool { return expired || cond() }, "quiesceUntil")
	g.idle = false
	sc.delTimer(t)
	return cond()
}

// Advance lets d of virtual time pass, everything else running as it can.
func Advance(d time.Duration) {
	sc := s
	fired := false
	sc.addTimer(sc.now.Add(d), func() { fired = true })
	g := sc.cur
	g.idle = true
	Wait(func() bool { return fired }, "advance")
	g.idle = false
}

// WaitUntil blocks the calling goroutine (normally schedulable) on cond.
func WaitUntil(cond func() bool, what string) { Wait(cond, what) }

// Verbose reports whether a human readable trace is wanted.
func Verbose() bool { return s != nil && s.opts.Verbose }

// Logf adds a line to the trace of a verbose execution.
func Logf(format string, a ...interface{}) {
	if s != nil && s.opts.Verbose {
		s.logf(format, a...)
	}
}

func (sc *sched) logf(format string, a ...interface{}) {
	sc.log = append(sc.log, fmt.Sprintf("[%7.3fs #%d %s] ", sc.now.Sub(sc.start).Seconds(), sc.steps, sc.cur.name)+fmt.Sprintf(format, a...))
}

func (sc *sched) dump() string {
	var b []string
	for _, g := range sc.gs {
		if !g.done {
			b = append(b, g.name+":"+g.what)
		}
	}
	sort.Strings(b)
	return strings.Join(b, ", ")
}

// LiveGs lists live goroutines and what they wait for.
func LiveGs() []string {
	var b []string
	for _, g := range s.gs {
		if !g.done {
			b = append(b, g.name+":"+g.what)
		}
	}
	return b
}

// ---- timers ----

func (sc *sched) addTimer(when time.Time, f func()) *timer {
	t := &timer{when: when, seq: sc.tseq, f: f, active: true}
	sc.tseq++
	sc.timers = append(sc.timers, t)
	return t
}

func (sc *sched) delTimer(t *timer) bool {
	if !t.active {
		return false
	}
	t.active = false
	for i, x := range sc.timers {
		if x == t {
			sc.timers = append(sc.timers[:i], sc.timers[i+1:]...)
			break
		}
	}
	return true
}

func (sc *sched) nextTimer() *timer {
	var best *timer
	for _, t := range sc.timers {
		if best == nil || t.when.Before(best.when) || (t.when.Equal(best.when) && t.seq < best.seq) {
			best = t
		}
	}
	return best
}

func (sc *sched) fireNext() bool {
	t := sc.nextTimer()
	if t == nil {
		return false
	}
	if t.when.After(sc.now) {
		sc.now = t.when
	}
	sc.delTimer(t)
	if sc.opts.Verbose {
		sc.logf("    time is now %v", sc.now.Sub(sc.start))
	}
	t.f()
	return true
}

// Timer API used by the time shim and the context shim.
type Timer struct{ t *timer }

// AddTimer calls f at Now()+d, in scheduler context: f must not block.
func AddTimer(d time.Duration, f func()) *Timer {
	if s == nil {
		return &Timer{}
	}
	raceOff()
	defer raceOn()
	return &Timer{s.addTimer(s.now.Add(d), f)}
}

// Stop removes the timer and reports whether it was pending.
func (t *Timer) Stop() bool {
	if t == nil || t.t == nil || s == nil {
		return false
	}
	raceOff()
	defer raceOn()
	return s.delTimer(t.t)
}

// Sleep blocks for d of virtual time.
func Sleep(d time.Duration) {
	if s == nil || s.killed {
		return
	}
	if d <= 0 {
		Point("sleep0")
		return
	}
	fired := false
	AddTimer(d, func() { fired = true })
	Wait(func() bool { return fired }, "sleep")
}

// SpawnFromTimer starts a managed goroutine from scheduler context.
func SpawnFromTimer(name string, f func()) {
	sc := s
	g := sc.newG(name)
	go sc.wrapper(g, f)
}

// UnlockPoint is called by lock shims after an unlock.
func UnlockPoint() {
	if s != nil && s.region && s.opts.UnlockPoints && !s.killed {
		Point("unlocked")
	}
}

// MapOrderChoices reports how many iteration orders to try.
func MapOrderChoices(n int) int {
	if s == nil || s.killed || !s.region || !s.opts.MapOrder || n < 2 {
		return 1
	}
	return 2
}

// SetDraw installs the source of random draws for the current execution.
func SetDraw(f func(n uint64) (uint64, bool)) { drawFn = f }

var drawFn func(n uint64) (uint64, bool)

// Draw returns a value in [0,n) (n==0: any uint64).
func Draw(n uint64) uint64 {
	if drawFn != nil {
		if v, ok := drawFn(n); ok {
			return v
		}
	}
	if n == 0 {
		return 1 << 62
	}
	return n / 2
}

// CurName is the name of the running goroutine.
func CurName() string {
	if s == nil {
		return "-"
	}
	return s.cur.name
}

func init() {
	if os.Getenv("VRT_MAXPROCS1") != "" {
		runtime.GOMAXPROCS(1)
	}
}
