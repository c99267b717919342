// C05: a lookup returns a value of the requested kind or an error, in bounded
// time, and never panics.
package main

import (
	"time"

	"google.golang.org/protobuf/types/known/anypb"

	. "github.com/kitex-contrib/xds/verifrt/hist"
	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/mc"
	"github.com/kitex-contrib/xds/verifrt/vrt"
)

const (
	vi = "virtualInbound"
	ms = time.Millisecond
)

func typed(t T, cfg hz.Cfg, depth int) *Conf {
	return &Conf{Props: "C05", Types: []T{t}, Depth: depth, Table: TabA, Cfg: cfg,
		LeafGets: []Key{{t, "a"}, {t, "b"}},
		Ops: func(h *H) []Op {
			if h.Dead {
				return []Op{Get(t, "a"), GetD(t, "b", 300*ms), GetUnknown(99), Advance(400 * ms), Advance(Short), Advance(Idle)}
			}
			l := []Op{
				Get(t, "a"), Get(t, "b"), GetD(t, "a", 300*ms), GetD(t, "a", 5*time.Second), GetD(t, "b", -1),
				Cancel(false), Cancel(true),
				Push(t, Good), Push(t, Good, "b"), Push(t, BadBytes, "a"),
				Advance(400 * ms), Advance(Short), Advance(Idle), GetUnknown(0), Reset(), AuthReject(), Close(),
			}
			if t == hz.LDS && !cfg.NoNDS {
				return append(l, Push(t, Good, "1.1.1.1_80"), Push(t, Good, "a"), Push(t, Good, vi))
			}
			return append(l, Push(t, Good, "a"), Push(t, Good, "a", "b"))
		}}
}

func main() {
	mc.Main(&mc.Check{
		Property: "C05",
		Scenarios: func(tier string) []*mc.Scenario {
			d, bnd := 4, 3
			if tier == "thorough" {
				d, bnd = 5, 4
			}
			o := vrt.Opts{UnlockPoints: true}
			te := vrt.Opts{UnlockPoints: true, TimerEarly: true, EarlyWithin: 1200 * ms}
			sch := "all schedules with at most the bound's deviations from the default one: "
			return []*mc.Scenario{
				Patient("C05", d), Named("C05", d-1),
				Scen("clusters", typed(hz.CDS, hz.Cfg{}, d)),
				Scen("routes", typed(hz.RDS, hz.Cfg{Timeout: 200 * ms}, d-1)),
				Scen("endpoints", typed(hz.EDS, hz.Cfg{Timeout: 3 * time.Second}, d-1)),
				Scen("listeners", typed(hz.LDS, hz.Cfg{}, d-1)),
				Scen("listeners-nonds", typed(hz.LDS, hz.Cfg{NoNDS: true}, d-1)),
				Flood("C05"),
				{Name: "kinds", Body: kinds, Bounds: "every kind number in -1..8 and 99, cold and warm"},
				{Name: "no-control-plane", Body: unreachable, Bounds: "the control plane cannot be reached at start-up; lookups of every kind"},
				{Name: "absent-names", Body: absent, Bounds: "every combination of name, kind and listener response, where the control plane does not supply the name"},
				{Name: "delivery-and-deadline", Bound: bnd, Opts: te, Body: deadline, Bounds: sch + "three lookups with different deadlines, one response"},
				{Name: "delivered-and-dropped", Bound: bnd, Opts: te, Body: dropped, Bounds: sch + "a resource is delivered and dropped again while lookups wait and arrive"},
				{Name: "stalled-stream", Bound: bnd, Opts: o, Body: func(x *mc.X) { stalled(x, false) }, Bounds: sch + "Send blocks, the stream breaks, Send blocks on the new stream; lookups"},
				{Name: "stopped-client", Bound: bnd, Opts: o, Body: func(x *mc.X) { stalled(x, true) }, Bounds: sch + "Send blocks, the client is stopped; lookups"},
				{Name: "sweep-and-lookups", Bound: bnd, Opts: te, Body: sweeps, Bounds: sch + "lookups of an idle resource around the sweep that evicts it"},
			}
		},
	})
}

// judge checks one finished or pending lookup; slack is the time let pass early.
func judge(l *hz.Look, slack time.Duration, supplied ...string) {
	if !l.Done {
		vrt.Fail("C05", "%v is pending at %v, its deadline was %v", l, vrt.Now().Sub(vrt.Epoch), l.Limit(time.Second).Sub(vrt.Epoch))
		return
	}
	if l.Panic != "" {
		vrt.Fail("C05", "%v", l)
	}
	if lim := l.Limit(time.Second).Add(slack); l.EndAt.After(lim) {
		vrt.Fail("C05", "%v returned %v after its deadline", l, l.EndAt.Sub(lim))
	}
	if l.Err != nil {
		if l.Val != nil {
			vrt.Fail("C05", "%v returned a value as well", l)
		}
		return
	}
	for _, s := range supplied {
		if l.Stamp() == s {
			return
		}
	}
	vrt.Fail("C05", "%v, supplied were %v", l, supplied)
}

func done(x *mc.X, s *hz.Sys, ls ...*hz.Look) {
	d := ""
	for _, l := range ls {
		d += l.String() + ";"
	}
	x.State(d)
	s.M.Close()
}

func push(s *hz.Sys, t T, stamp string, names ...string) {
	var rs []*anypb.Any
	for _, n := range names {
		rs = append(rs, hz.Stamped(t, n, stamp))
	}
	s.CP.Live().Push(hz.URL(t), rs)
}

func kinds(x *mc.X) {
	s := hz.Start(x, hz.Cfg{})
	s.Boot(TabA)
	all := []int{-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 99}
	k := T(all[vrt.Choose(len(all))])
	name := []string{"", "a", vi, "a:80:80"}[vrt.Choose(4)]
	_, known := map[T]bool{hz.LDS: true, hz.RDS: true, hz.CDS: true, hz.EDS: true, hz.NDS: true}[k]
	n := len(s.CP.Reqs)
	l := s.Look(k, name)
	vrt.Quiesce()
	if !known {
		if !l.Done || l.Err == nil || len(s.CP.Reqs) != n {
			vrt.Fail("C05", "lookup of the unknown kind %d: %v, %d requests", int(k), l, len(s.CP.Reqs)-n)
		}
	}
	vrt.Advance(1001 * ms)
	vrt.Quiesce()
	if known && l.OK() {
		vrt.Fail("C05", "%v, nothing was supplied", l)
	}
	judge(l, 0)
	// the lookups of other kinds still work
	m := s.Look(hz.EDS, "z")
	vrt.Quiesce()
	push(s, hz.EDS, "s1", "z")
	vrt.Quiesce()
	judge(m, 0, "s1")
	done(x, s, l, m)
}

func unreachable(x *mc.X) {
	hz.NewCP()
	s := hz.Start(x, hz.Cfg{NoNDS: vrt.Choose(2) == 1, NoLDS: vrt.Choose(2) == 1})
	s.CP.CreateErr = func(int) error { return hz.ErrReset }
	for i := 0; i < 40 && !s.Ready; i++ {
		vrt.Advance(time.Minute)
		vrt.Quiesce()
	}
	if !s.Ready {
		x.State("waits")
		return // still trying; nothing to look up with
	}
	if s.Err != nil || s.M == nil {
		x.State("error")
		return
	}
	var ls []*hz.Look
	for _, t := range []T{hz.LDS, hz.RDS, hz.CDS, hz.EDS} {
		ls = append(ls, s.Look(t, "a"), s.LookD(t, "b", 300*ms))
	}
	vrt.Quiesce()
	vrt.Advance(1001 * ms)
	vrt.Quiesce()
	for _, l := range ls {
		judge(l, 0)
	}
	done(x, s, ls...)
}

// absent: responses that do not supply the name looked up.
func absent(x *mc.X) {
	cfg := hz.Cfg{NoNDS: vrt.Choose(2) == 1, NoLDS: vrt.Choose(2) == 1}
	s := hz.Start(x, cfg)
	s.Boot(TabA)
	ts := []T{hz.LDS, hz.RDS, hz.CDS, hz.EDS}
	t := ts[vrt.Choose(4)]
	name := []string{"a", "ext.com:81", "nowhere", vi, ":", "a:1:2"}[vrt.Choose(6)]
	with := [][]string{nil, {"b"}, {"1.1.1.1_81"}, {"3.3.3.3_80", "b"}, {""}}[vrt.Choose(5)]
	l := s.Look(t, name)
	vrt.Quiesce()
	push(s, t, "s1", with...)
	vrt.Quiesce()
	m := s.Look(t, name)
	push(s, t, "s2", with...)
	vrt.Quiesce()
	vrt.Advance(1001 * ms)
	vrt.Quiesce()
	for _, k := range []*hz.Look{l, m} {
		judge(k, 0)
	}
	done(x, s, l, m)
}

func deadline(x *mc.X) {
	s := hz.Start(x, hz.Cfg{})
	s.Boot(TabA)
	vrt.Region(true)
	l1 := s.Look(hz.CDS, "a")
	l2 := s.LookD(hz.CDS, "a", 500*ms)
	l3 := s.LookD(hz.CDS, "a", 2*time.Second)
	vrt.Quiesce()
	push(s, hz.CDS, "s1", "a")
	l3.Cancel()
	vrt.QuiesceUntil(func() bool { return l1.Done && l2.Done && l3.Done }, 50*ms)
	vrt.Region(false)
	vrt.Advance(3 * time.Second)
	for _, l := range []*hz.Look{l1, l2, l3} {
		judge(l, 1200*ms, "s1")
	}
	done(x, s, l1, l2, l3)
}

func dropped(x *mc.X) {
	s := hz.Start(x, hz.Cfg{})
	s.Boot(TabA)
	l1 := s.Look(hz.CDS, "a")
	vrt.Quiesce()
	vrt.Region(true)
	push(s, hz.CDS, "s1", "a")
	push(s, hz.CDS, "s2")
	l2 := s.Look(hz.CDS, "a")
	push(s, hz.CDS, "s3", "b")
	vrt.Quiesce()
	vrt.Region(false)
	vrt.Advance(3 * time.Second)
	judge(l1, 1200*ms, "s1")
	judge(l2, 1200*ms, "s1")
	done(x, s, l1, l2)
}

func stalled(x *mc.X, stop bool) {
	s := hz.Start(x, hz.Cfg{})
	s.Boot(TabA)
	s.Look(hz.CDS, "a")
	vrt.Quiesce()
	push(s, hz.CDS, "s1", "a")
	vrt.Quiesce()
	st := s.CP.Live()
	st.Stalled = true
	s.CP.OnStream = func(ns *hz.Stream) { ns.Stalled = true }
	vrt.Region(true)
	l1 := s.Look(hz.CDS, "b")
	vrt.Quiesce()
	if stop {
		st.Break(hz.Unauthenticated)
	} else {
		st.Break(hz.ErrReset)
	}
	l2 := s.Look(hz.CDS, "c")
	l3 := s.Look(hz.CDS, "a")
	l4 := s.Look(hz.EDS, "a")
	vrt.Quiesce()
	vrt.Region(false)
	vrt.Advance(1100 * ms)
	vrt.Quiesce()
	l5 := s.Look(hz.CDS, "d")
	vrt.Quiesce()
	vrt.Advance(1100 * ms)
	vrt.Quiesce()
	for _, l := range []*hz.Look{l1, l2, l4, l5} {
		judge(l, 0)
	}
	judge(l3, 0, "s1")
	vrt.Advance(40 * time.Second) // a sweep
	l6 := s.Look(hz.EDS, "e")
	vrt.Quiesce()
	vrt.Advance(1100 * ms)
	vrt.Quiesce()
	judge(l6, 0)
	done(x, s, l1, l2, l3, l4, l5, l6)
}

func sweeps(x *mc.X) {
	s := hz.Start(x, hz.Cfg{})
	s.Boot(TabA)
	t0 := vrt.Now()
	s.Look(hz.CDS, "a")
	vrt.Quiesce()
	push(s, hz.CDS, "s1", "a")
	vrt.Quiesce()
	vrt.Advance(31 * time.Second)
	NextSweep(t0, ms)
	vrt.Region(true)
	l1 := s.Look(hz.CDS, "a")
	l2 := s.Look(hz.CDS, "a")
	vrt.QuiesceUntil(func() bool { return false }, 2*ms)
	push(s, hz.CDS, "s2", "a")
	l3 := s.Look(hz.CDS, "a")
	vrt.Quiesce()
	vrt.Region(false)
	vrt.Advance(3 * time.Second)
	for _, l := range []*hz.Look{l1, l2, l3} {
		judge(l, 1200*ms, "s1", "s2")
	}
	done(x, s, l1, l2, l3)
}
