// C19: idle resources are evicted and unsubscribed; used and reserved ones stay.
package main

import (
	"fmt"
	"strings"
	"time"

	. "github.com/kitex-contrib/xds/verifrt/hist"
	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/mc"
	"github.com/kitex-contrib/xds/verifrt/vrt"
)

const (
	vi = "virtualInbound"
	ms = time.Millisecond
)

var types = []T{hz.CDS, hz.EDS, hz.RDS, hz.LDS}

// raw is the resource name of what is looked up as n.
func raw(t T, n string, cfg hz.Cfg) string {
	if t == hz.LDS && !cfg.NoNDS {
		return map[string]string{"a": "1.1.1.1_80", "b": "2.2.2.2_80", vi: vi}[n]
	}
	return n
}

// fetch is a lookup by which the control plane supplies the resource if it is
// asked to.
func fetch(t T, n string, cfg hz.Cfg) Op {
	return Op{Name: fmt.Sprintf("Fetch(%s %q)", hz.TName(t), n), Do: func(h *H) {
		Get(t, n).Do(h)
		if h.Served(t)[n] != "" || h.Live() == nil {
			return
		}
		names := []string{raw(t, n, cfg)}
		for x := range h.Served(t) {
			names = append(names, raw(t, x, cfg))
		}
		Push(t, Good, names...).Do(h)
	}}
}

func all(t T, names []string, cfg hz.Cfg) []string {
	var l []string
	for _, n := range names {
		l = append(l, raw(t, n, cfg))
	}
	return l
}

// histories over one type.
func typed(t T, cfg hz.Cfg, depth int) *Conf {
	c := &Conf{Props: "C19", Types: []T{t}, Depth: depth, Table: TabAB, Cfg: cfg, Inbound: !cfg.NoLDS,
		LeafGets: []Key{{t, "a"}, {t, "b"}},
		Ops: func(h *H) []Op {
			l := []Op{
				fetch(t, "a", cfg), fetch(t, "b", cfg), Get(t, "a"), GetD(t, "a", -1),
				Push(t, Good, all(t, []string{"a", "b", vi}, cfg)...), Push(t, Good, all(t, []string{"b", vi}, cfg)...), Push(t, BadBytes, raw(t, "a", cfg)),
				Advance(Short), Advance(15 * time.Second), Advance(29999 * ms), Advance(30 * time.Second), Advance(Idle),
				Reset(),
			}
			if t == hz.LDS && !cfg.NoNDS {
				l = append(l, PushTable("A", Good, TabA), PushTable("AB", Good, TabAB))
			}
			return l
		}}
	return c
}

// histories over all types.
func mixed(depth int) *Conf {
	cfg := hz.Cfg{}
	return &Conf{Props: "C19", Types: types, Depth: depth, Table: TabAB, Cfg: cfg, Inbound: true,
		LeafGets: []Key{{hz.CDS, "a"}, {hz.EDS, "a"}, {hz.RDS, "a"}, {hz.LDS, "a"}, {hz.LDS, vi}},
		Ops: func(h *H) []Op {
			var l []Op
			for _, t := range types {
				l = append(l, fetch(t, "a", cfg))
			}
			return append(l, fetch(hz.LDS, vi, cfg), PushTable("A", Good, TabA), Advance(10*time.Second), Advance(Idle), ResetFails(1), Down0(), Burst(B{hz.CDS, Good, []string{"a"}}, B{hz.EDS, Good, []string{"a"}}))
		}}
}

// Down0 is an outage of 40 s.
func Down0() Op {
	return Op{Name: "outage of 40 s", Do: func(h *H) {
		Down().Do(h)
		Advance(40 * time.Second).Do(h)
		Up().Do(h)
	}}
}

// patterns: what happens at each point of a grid around the sweeps.
func patterns(t T, cfg hz.Cfg, offs []time.Duration, n int) *Conf {
	i := 0
	var at []time.Duration
	for p := 0; len(at) < n; p++ {
		for _, o := range offs {
			if len(at) < n {
				at = append(at, time.Duration(p)*30*time.Second+o)
			}
		}
	}
	var t0 time.Time
	return &Conf{Props: "C19", Types: []T{t}, Depth: n, Table: TabAB, Cfg: cfg, Inbound: !cfg.NoLDS,
		LeafGets: []Key{{t, "a"}},
		Setup: func(h *H) {
			i = 0
			t0 = vrt.Now()
		},
		Leaf: func(h *H) {
			// long after the last use, everything is gone
			h.Do(Advance(61 * time.Second))
			h.Do(fetch(t, "a", cfg))
		},
		Ops: func(h *H) []Op {
			d := t0.Add(at[i]).Sub(vrt.Now())
			i++
			wrap := func(o Op) Op {
				return Op{Name: fmt.Sprintf("+%v %s", d, o.Name), Do: func(h *H) { Advance(d).Do(h); o.Do(h) }}
			}
			l := []Op{wrap(Op{Name: "-", Do: func(h *H) {}}), wrap(fetch(t, "a", cfg))}
			if h.Served(t)["a"] != "" {
				l = append(l, wrap(GetD(t, "a", -1)), wrap(Push(t, Good, all(t, []string{"a", vi}, cfg)...)))
			} else {
				l = append(l, wrap(Get(t, "a")))
			}
			return l
		}}
}

// ---- schedules ----

type rig struct {
	*hz.Sys
	x     *mc.X
	sv    *hz.Server
	t     T
	stamp int
	looks []*hz.Look
	drop  bool // the control plane does not have a any more
	gone  bool // it did not for a while
	brk   bool
	mark  int
}

func (r *rig) next() string { r.stamp++; return fmt.Sprintf("s%d", r.stamp) }

func (r *rig) update(n string) { r.sv.Update(r.t, raw(r.t, n, r.Cfg), r.next()) }

func (r *rig) cur(n string) string { return r.sv.Cur[r.t][raw(r.t, n, r.Cfg)] }

// start: a is idle and will be evicted by the sweep in 1 ms, b was used 15 s ago.
func start(x *mc.X, t T) *rig {
	r := &rig{Sys: hz.Start(x, hz.Cfg{}), x: x, t: t}
	vrt.Quiesce()
	r.sv = hz.Serve(r.CP)
	r.sv.Table = TabAB
	r.sv.Set(hz.LDS, vi, "s0")
	for _, n := range []string{"a", "b"} {
		r.sv.Set(t, raw(t, n, r.Cfg), r.next())
	}
	r.Boot(TabAB, hz.Stamped(hz.LDS, vi, "s0"), hz.Stamped(hz.LDS, "0.0.0.0_1", "s0"))
	t0 := vrt.Now()
	la, lb := r.Look(t, "a"), r.Look(t, "b")
	vrt.Quiesce()
	vrt.Advance(45 * time.Second)
	lb2 := r.Look(t, "b")
	vrt.Quiesce()
	for _, l := range []*hz.Look{la, lb, lb2} {
		if !l.OK() {
			vrt.Fail("", "set-up: %v", l)
		}
	}
	NextSweep(t0, ms)
	return r
}

func (r *rig) look(n string) {
	r.looks = append(r.looks, r.Look(r.t, n))
}

type act struct {
	name string
	ts   string // types it applies to, all if empty
	do   func(r *rig)
}

var acts = []act{
	{"-", "", func(r *rig) {}},
	{"lookup a", "", func(r *rig) { r.look("a") }},
	{"lookup b", "", func(r *rig) { r.look("b") }},
	{"update a", "", func(r *rig) { r.update("a") }},
	{"update b", "", func(r *rig) { r.update("b") }},
	{"drop a", "CDS LDS", func(r *rig) {
		r.drop, r.gone = true, true
		r.sv.Update(r.t, raw(r.t, "a", r.Cfg), "")
	}},
	{"reset", "", func(r *rig) {
		r.brk = true
		if st := r.CP.Live(); st != nil {
			st.Break(hz.ErrReset)
		}
	}},
	{"table", "LDS", func(r *rig) {
		if st := r.CP.Live(); st != nil {
			st.Push(hz.URL(hz.NDS), hz.Table(TabAB))
		}
	}},
	{"dump", "CDS", func(r *rig) { vrt.GoN("dump", func() { r.M.Dump() }) }},
}

func race(n int) func(x *mc.X) {
	return func(x *mc.X) {
		t := types[vrt.Choose(len(types))]
		var menu []act
		for _, a := range acts {
			if a.ts == "" || strings.Contains(a.ts, hz.TName(t)) {
				menu = append(menu, a)
			}
		}
		r := start(x, t)
		var as []act
		d := hz.TName(t)
		for i := 0; i < n; i++ {
			a := menu[vrt.Choose(len(menu))]
			as = append(as, a)
			d += "," + a.name
			if a.name == "-" {
				break
			}
		}
		x.Op("%s", d)
		r.mark = len(r.CP.Reqs)
		vrt.Region(true)
		for _, a := range as {
			a.do(r)
		}
		vrt.QuiesceUntil(func() bool { return false }, 2*ms)
		vrt.Quiesce()
		Settle()
		r.judge(d)
		x.State(d, ReqString(r.CP.Reqs[r.mark:], t))
		s := ""
		for _, l := range r.looks {
			s += l.String()
		}
		x.State(d, s)
		r.M.Close()
	}
}

func (r *rig) names() []string {
	st := r.CP.Live()
	if st == nil {
		vrt.Fail("", "no stream")
		return nil
	}
	if q := st.Last(r.t); q != nil {
		return q.Names
	}
	return nil
}

func has(l []string, n string) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return false
}

// inForce: the name is subscribed and served with the current value.
func (r *rig) inForce(n, d string) {
	if g := r.Snapshot(r.t)[n]; g != r.cur(n) {
		vrt.Fail("C19", "%s: %s %q is %q in the cache, should be %q", d, hz.TName(r.t), n, g, r.cur(n))
	}
	if !has(r.names(), n) {
		vrt.Fail("C19", "%s: %s %q is in use but the last request is %v", d, hz.TName(r.t), n, r.names())
	}
}

// gone: the name is neither cached nor subscribed.
func (r *rig) evicted(n, d string) {
	if g, ok := r.Snapshot(r.t)[n]; ok {
		vrt.Fail("C19", "%s: idle %s %q is still cached (%s) after the sweep", d, hz.TName(r.t), n, g)
	}
	if has(r.names(), n) {
		vrt.Fail("C19", "%s: idle %s %q is still in the last request %v after the sweep", d, hz.TName(r.t), n, r.names())
	}
}

func (r *rig) reserved(d string) {
	if g := r.Snapshot(hz.LDS)[vi]; g != "s0" {
		vrt.Fail("C19", "%s: the reserved listener is %q in the cache", d, g)
	}
	if q := r.CP.Live().Last(hz.LDS); q != nil && !has(q.Names, vi) {
		vrt.Fail("C19", "%s: the reserved listener was withdrawn: %v", d, q)
	}
}

func (r *rig) judge(d string) {
	looked := false
	for _, l := range r.looks {
		looked = looked || l.Name == "a"
		if l.OK() {
			ok := false
			for _, v := range r.sv.Hist[r.t][raw(r.t, l.Name, r.Cfg)] {
				ok = ok || v.Stamp == l.Stamp() && v.Stamp != ""
			}
			if !ok {
				vrt.Fail("C19", "%s: %v was never supplied", d, l)
			}
			continue
		}
		if !(r.drop && l.Name == "a") || l.Done {
			vrt.Fail("C19", "%s: %v though the control plane has it", d, l)
		}
	}
	r.reserved(d)
	r.inForce("b", d)
	switch {
	case !looked:
		r.evicted("a", d)
		sent := false
		for _, q := range r.CP.Reqs[r.mark:] {
			sent = sent || q.Type == r.t && !has(q.Names, "a")
		}
		if !sent {
			vrt.Fail("C19", "%s: no request without the evicted name was sent", d)
		}
	case !r.drop:
		r.inForce("a", d)
	}
	// the control plane has a new value
	r.drop = false
	r.update("a")
	vrt.Quiesce()
	l := r.Look(r.t, "a")
	vrt.Quiesce()
	if !l.OK() || l.Stamp() != r.cur("a") {
		vrt.Fail("C19", "%s: then %v, the control plane's current value is %s", d, l, r.cur("a"))
	}
	r.inForce("a", d+", lookup")
	r.inForce("b", d+", lookup")
	// another round: both become idle, then only a does
	vrt.Advance(61 * time.Second)
	vrt.Quiesce()
	r.evicted("a", d+", idle")
	r.evicted("b", d+", idle")
	r.reserved(d + ", idle")
	r.update("b")
	l = r.Look(r.t, "b")
	vrt.Quiesce()
	if !l.OK() || l.Stamp() != r.cur("b") {
		vrt.Fail("C19", "%s: after a second eviction %v, the control plane's current value is %s", d, l, r.cur("b"))
	}
}

func main() {
	mc.Main(&mc.Check{
		Property: "C19",
		Assumptions: []string{
			"sweeps are every 30 s from the moment the manager is ready",
			"a name which the control plane dropped from its responses may be withdrawn by a sweep or stay requested",
			"a resource delivered and never looked up is idle since its delivery; later deliveries neither shorten nor (if it was looked up) extend the period",
		},
		Scenarios: func(tier string) []*mc.Scenario {
			d, m, g, bnd := 4, 4, 8, 2
			if tier == "thorough" {
				d, m, g, bnd = 5, 6, 9, 3
			}
			te := vrt.Opts{UnlockPoints: true, TimerEarly: true, EarlyWithin: 2 * ms}
			sch := "all schedules with at most the bound's deviations from the default one: "
			offs := []time.Duration{10 * ms, 15 * time.Second, 30*time.Second - ms}
			l := []*mc.Scenario{
				Scen("clusters", typed(hz.CDS, hz.Cfg{}, d)),
				Scen("endpoints", typed(hz.EDS, hz.Cfg{}, d)),
				Scen("routes", typed(hz.RDS, hz.Cfg{Timeout: 200 * ms}, d)),
				Scen("listeners", typed(hz.LDS, hz.Cfg{}, d)),
				Scen("listeners-nonds", typed(hz.LDS, hz.Cfg{NoNDS: true}, d)),
				Scen("all-types", mixed(m)), Patient("C19", d), Named("C19", 3), Cached("C19", d), Many("C19", tier),
			}
			for _, t := range types {
				s := Scen("pattern-"+strings.ToLower(hz.TName(t)), patterns(t, hz.Cfg{}, offs, g))
				s.Bounds = fmt.Sprintf("all ways of doing one of four things (nothing, lookup, lookup by a caller that gave up, update) at each of the first %d of the points 10 ms, 15 s and 29.999 s after a sweep", g)
				l = append(l, s)
			}
			s := Scen("pattern-exact", patterns(hz.CDS, hz.Cfg{NoNDS: true}, []time.Duration{0, 20 * time.Second}, g))
			s.Bounds = fmt.Sprintf("the same at the first %d of the points right at a sweep and 20 s later", g)
			l = append(l, s)
			for n := 1; n <= bnd; n++ {
				l = append(l, &mc.Scenario{Name: fmt.Sprintf("races-%d", n), Bound: bnd + 1 - n, Opts: te, Body: race(n), Bounds: fmt.Sprintf("%sthe sweep with up to %d others out of lookups of the idle and of a used name, updates, removal, reset, name table and dump, for each type", sch, n)})
			}
			return l
		},
	})
}
