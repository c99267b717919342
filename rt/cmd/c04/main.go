// C04: stream failures, resubscription, per-stream nonces, clean stop.
package main

import (
	"time"

	"google.golang.org/protobuf/types/known/anypb"

	. "github.com/kitex-contrib/xds/verifrt/hist"
	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/mc"
	"github.com/kitex-contrib/xds/verifrt/vrt"
)

const vi = "virtualInbound"

func reset(st *hz.Stream) { st.Break(hz.ErrReset) }
func half(st *hz.Stream)  { st.BreakRecv(hz.ErrReset) }

// ops filters a menu by what is possible in the current state.
func ops(h *H, gets []Op, live []Op) []Op {
	if h.Dead {
		return append(gets, Advance(Short), Advance(Idle))
	}
	if h.IsDown {
		return append(gets, Advance(Short), Advance(Idle), Up())
	}
	return append(append(gets, live...), Advance(Short), Advance(Idle), Down(), AuthReject())
}

func main() {
	mc.Main(&mc.Check{
		Property: "C04",
		Scenarios: func(tier string) []*mc.Scenario {
			d, dl, bnd := 4, 4, 3
			if tier == "thorough" {
				d, dl, bnd = 5, 5, 4
			}
			a, ab := []string{"a"}, []string{"a", "b"}
			clusters := &Conf{Props: "C04", Types: []T{hz.CDS}, Depth: d, Table: TabA, LeafGets: []Key{{hz.CDS, "a"}, {hz.CDS, "b"}},
				Ops: func(h *H) []Op {
					return ops(h, []Op{Get(hz.CDS, "a"), Get(hz.CDS, "b")}, []Op{
						Push(hz.CDS, Good, ab...), Push(hz.CDS, Good, "b"), Push(hz.CDS, BadBytes, "a"),
						Reset(), ResetFails(1), ResetFails(3), HalfOpen(), SendFirst(B{hz.CDS, Good, a}),
						PushBreak("reset", reset, B{hz.CDS, Good, a}), PushBreak("recv only", half, B{hz.CDS, Good, a}, B{hz.CDS, BadBytes, a})})
				}}
			mixed := &Conf{Props: "C04", Types: []T{hz.RDS, hz.CDS, hz.EDS}, Depth: dl, Table: TabA, LeafGets: []Key{{hz.RDS, "a"}, {hz.CDS, "a"}, {hz.EDS, "a"}},
				Ops: func(h *H) []Op {
					return ops(h, []Op{Get(hz.RDS, "a"), Get(hz.CDS, "a"), Get(hz.EDS, "a")}, []Op{
						Push(hz.RDS, Good, "a"), Push(hz.CDS, Good, "a"), Push(hz.EDS, Good, "a"), Push(hz.EDS, BadBytes, "a"),
						Reset(), HalfOpen(), SendFirst(B{hz.CDS, Good, a}), PushBreak("reset", reset, B{hz.EDS, Good, a}, B{hz.CDS, Good, a})})
				}}
			lds := &Conf{Props: "C04", Types: []T{hz.LDS}, Depth: dl, Table: TabA, Inbound: true, LeafGets: []Key{{hz.LDS, "a"}, {hz.LDS, vi}},
				Ops: func(h *H) []Op {
					return ops(h, []Op{Get(hz.LDS, "a")}, []Op{
						Push(hz.LDS, Good, vi, "1.1.1.1_80"), Push(hz.LDS, BadURL, vi), PushTable("B", Good, TabB), PushTable("B", BadURL, TabB), Push(hz.LDS, Good, vi, "2.2.2.2_80"),
						Reset(), ResetFails(2), HalfOpen(), SendFirst(B{hz.CDS, Good, a}), PushBreak("reset", reset, B{hz.LDS, Good, []string{vi}})})
				}}
			kinds := &Conf{Props: "C04", Types: []T{hz.CDS, hz.EDS}, Depth: dl, Table: TabA, LeafGets: []Key{{hz.CDS, "a"}, {hz.EDS, "a"}, {hz.CDS, "b"}},
				Setup: Warm(Get(hz.CDS, "a"), Push(hz.CDS, Good, "a"), Get(hz.EDS, "a"), Push(hz.EDS, Good, "a")),
				Ops: func(h *H) []Op {
					l := []Op{Get(hz.CDS, "b"), Push(hz.CDS, Good, "a", "b"), Push(hz.EDS, BadBytes, "a"), Advance(Idle)}
					for _, e := range hz.Failures {
						l = append(l, BreakWith(e.Name, e.Err))
					}
					return l
				}}
			warm := &Conf{Props: "C04", Types: []T{hz.LDS, hz.RDS, hz.CDS, hz.EDS}, Depth: dl - 1, Cfg: hz.Cfg{NoNDS: true}, Inbound: true, Setup: Warm(WarmAll...),
				LeafGets: []Key{{hz.LDS, "a"}, {hz.RDS, "a"}, {hz.CDS, "a"}, {hz.EDS, "a"}, {hz.LDS, vi}},
				Ops: func(h *H) []Op {
					return ops(h, []Op{Get(hz.LDS, "a"), Get(hz.CDS, "c")}, []Op{
						Push(hz.LDS, Good, vi, "a"), Push(hz.CDS, Good, "a"), Push(hz.RDS, Good, "a"), Push(hz.EDS, Good, "b"), Push(hz.LDS, BadURL, vi), Push(hz.CDS, BadFirst, "a"), Push(hz.RDS, BadStruct, "a"), Push(hz.EDS, BadBytes, "a"),
						Reset(), ResetFails(2), HalfOpen(), PushBreak("reset", reset, B{hz.LDS, Good, []string{vi}}, B{hz.RDS, Good, a})})
				}}
			long := &Conf{Props: "C04", Types: []T{hz.LDS, hz.CDS, hz.EDS}, Depth: dl, Table: TabA, Inbound: true, LeafGets: []Key{{hz.CDS, "a"}, {hz.EDS, "a"}, {hz.LDS, "a"}, {hz.CDS, "b"}},
				Setup: Warm(Get(hz.CDS, "a"), Push(hz.CDS, Good, "a"), Get(hz.EDS, "a"), Push(hz.EDS, Good, "a")),
				Ops: func(h *H) []Op {
					if h.IsDown {
						l := []Op{Get(hz.CDS, "a"), Get(hz.CDS, "b"), Up()}
						for _, m := range []time.Duration{5, 16, 35, 61} {
							l = append(l, Advance(m*time.Minute))
						}
						return l
					}
					return []Op{Down(), Get(hz.CDS, "b"), Push(hz.CDS, Good, "a", "b"), Push(hz.EDS, Good, "a"), Advance(Idle)}
				}}
			outages := Scen("long-outages", long)
			outages.Opts.Horizon = 24 * time.Hour
			o := vrt.Opts{UnlockPoints: true}
			te := vrt.Opts{UnlockPoints: true, TimerEarly: true, EarlyWithin: 1100 * time.Millisecond}
			sch := "all schedules with at most the bound's deviations from the default one: "
			return append([]*mc.Scenario{
				Many("C04", tier), Named("C04", dl-1),
				Labelled("C04", dl),
				Flood("C04"),
				Scen("clusters", clusters), Scen("mixed", mixed), Scen("listeners", lds), Scen("failure-kinds", kinds), outages, Scen("all-types-cached", warm),
				{Name: "break-with-queued-response", Bound: bnd, Opts: o, Body: func(x *mc.X) { breaks(x, 1) }, Bounds: sch + "a stream failure behind a response, with lookups"},
				{Name: "two-breaks", Bound: bnd, Opts: o, Body: func(x *mc.X) { breaks(x, 2) }, Bounds: sch + "two stream failures in a row, with lookups"},
				{Name: "break-while-resubscribing", Bound: bnd, Opts: o, Body: resub, Bounds: sch + "the new stream fails at its first to fourth Send"},
				{Name: "failed-attempts", Bound: bnd, Opts: te, Body: attempts, Bounds: sch + "two failing attempts to open a stream, with lookups"},
				{Name: "auth-reject", Bound: bnd, Opts: te, Body: authReject, Bounds: sch + "an authentication rejection while lookups begin and wait"},
			}, AtOnce("C04", tier)...)
		},
	})
}

type sys struct {
	*hz.Sys
	x   *mc.X
	ver map[T]string
	n   int
}

func (s *sys) push(st *hz.Stream, t T, names ...string) {
	var rs []*anypb.Any
	s.n++
	for _, n := range names {
		rs = append(rs, hz.Stamped(t, n, stamp(s.n)))
	}
	s.ver[t], _ = st.Push(hz.URL(t), rs)
}

func stamp(n int) string { return "s" + string(rune('0'+n)) }

// start: clusters a and endpoints a are subscribed and cached.
func start(x *mc.X) *sys {
	s := &sys{Sys: hz.Start(x, hz.Cfg{}), x: x, ver: map[T]string{}}
	s.Boot(TabA)
	for t := range map[T]bool{hz.NDS: true, hz.LDS: true} {
		s.ver[t] = s.CP.Live().Last(t).Version
	}
	s.Look(hz.CDS, "a")
	s.Look(hz.EDS, "a")
	vrt.Quiesce()
	s.push(s.CP.Live(), hz.CDS, "a")
	s.push(s.CP.Live(), hz.EDS, "a")
	vrt.Quiesce()
	return s
}

func nonces(s *sys) {
	for _, r := range s.CP.Reqs {
		if r.Nonce != "" && !s.CP.Streams[r.Stream-1].Nonces[r.Type][r.Nonce] {
			vrt.Fail("C04", "request carries a nonce not issued on its stream: %v", r)
		}
	}
}

// resubscribed: the live stream re-requested everything, in full.
func resubscribed(s *sys, want map[T]string) {
	nonces(s)
	st := s.CP.Live()
	if st == nil {
		vrt.Fail("C04", "no stream is open though one can be opened (%v)", vrt.LiveGs())
		return
	}
	for t, w := range want {
		var first *hz.Req
		for _, r := range st.Reqs {
			if r.Type == t && first == nil {
				first = r
			}
		}
		if first == nil {
			vrt.Fail("C04", "%s was not re-requested on stream %d", hz.TName(t), st.ID)
			return
		}
		if first.Nonce != "" || first.Err || first.Version != s.ver[t] {
			vrt.Fail("C04", "first request on stream %d is %v, last accepted version is %q", st.ID, first, s.ver[t])
		}
		if g := st.Last(t).Set; g != w {
			vrt.Fail("C04", "last request of %s on stream %d lists [%s], subscribed are [%s]", hz.TName(t), st.ID, g, w)
		}
	}
}

func converges(s *sys, names ...string) {
	st := s.CP.Live()
	s.push(st, hz.CDS, names...)
	w := stamp(s.n)
	vrt.Quiesce()
	if r := st.Last(hz.CDS); r.Version != s.ver[hz.CDS] || r.Err {
		vrt.Fail("C04", "the first response on the new stream was answered by %v", r)
	}
	for _, n := range names {
		l := s.Look(hz.CDS, n)
		vrt.Quiesce()
		if !l.OK() || l.Stamp() != w {
			vrt.Fail("C04", "after the new stream supplied %s: %v", w, l)
		}
	}
	s.x.State(ReqString(s.CP.Reqs, hz.CDS))
	s.M.Close()
}

func served(l *hz.Look, stamps ...string) {
	if l.OK() {
		for _, s := range stamps {
			if l.Stamp() == s {
				return
			}
		}
	}
	vrt.Fail("C04", "cached resource is not served during a failure: %v", l)
}

func breaks(x *mc.X, n int) {
	s := start(x)
	st := s.CP.Live()
	vrt.Region(true)
	la := s.Look(hz.CDS, "a")
	s.Look(hz.CDS, "b")
	s.push(st, hz.CDS, "a")
	st.Break(hz.ErrReset)
	for i := 1; i < n; i++ {
		vrt.WaitUntil(func() bool { return s.CP.Live() != nil }, "next stream")
		s.CP.Live().Break(hz.ErrReset)
	}
	le := s.Look(hz.EDS, "a")
	vrt.Quiesce()
	Settle()
	served(la, "s1", "s3")
	served(le, "s2")
	resubscribed(s, map[T]string{hz.CDS: "a,b", hz.EDS: "a", hz.LDS: vi, hz.NDS: ""})
	converges(s, "a", "b")
}

func resub(x *mc.X) {
	s := start(x)
	st := s.CP.Live()
	k := 1 + vrt.Choose(4)
	first := true
	s.CP.OnStream = func(ns *hz.Stream) {
		if first {
			first = false
			ns.SendFail = k
		}
	}
	vrt.Region(true)
	st.BreakRecv(hz.ErrReset)
	la := s.Look(hz.CDS, "a")
	s.Look(hz.CDS, "b")
	vrt.Quiesce()
	Settle()
	served(la, "s1")
	resubscribed(s, map[T]string{hz.CDS: "a,b", hz.EDS: "a", hz.LDS: vi, hz.NDS: ""})
	converges(s, "a", "b")
}

func attempts(x *mc.X) {
	s := start(x)
	st := s.CP.Live()
	base := s.CP.Creates
	s.CP.CreateErr = func(n int) error {
		if n <= base+2 {
			return hz.ErrReset
		}
		return nil
	}
	vrt.Region(true)
	st.Break(hz.ErrReset)
	la := s.Look(hz.CDS, "a")
	lb := s.Look(hz.CDS, "b")
	vrt.Quiesce()
	vrt.Region(false)
	vrt.Advance(5 * time.Second)
	Settle()
	served(la, "s1")
	if !lb.Done || lb.EndAt.Sub(lb.BegAt) > time.Second+1100*time.Millisecond { // plus the time let pass early
		vrt.Fail("C04", "a lookup during the outage is %v, 5 s after it began", lb)
	}
	resubscribed(s, map[T]string{hz.CDS: "a,b", hz.EDS: "a", hz.LDS: vi, hz.NDS: ""})
	converges(s, "a", "b")
}

func authReject(x *mc.X) {
	s := start(x)
	st := s.CP.Live()
	vrt.Region(true)
	la := s.Look(hz.CDS, "a")
	lb := s.Look(hz.CDS, "b")
	st.Break(hz.Unauthenticated)
	lc := s.Look(hz.EDS, "b")
	ld := s.Look(hz.EDS, "a")
	vrt.Quiesce()
	vrt.Region(false)
	n := len(s.CP.Streams)
	vrt.Advance(40 * time.Second)
	vrt.Quiesce()
	nonces(s)
	served(la, "s1")
	served(ld, "s2")
	for _, l := range []*hz.Look{lb, lc} {
		if !l.Done || l.OK() || l.Panic != "" || l.EndAt.Sub(l.BegAt) > time.Second+1100*time.Millisecond {
			vrt.Fail("C04", "lookup around an authentication rejection: %v", l)
		}
	}
	if len(s.CP.Streams) != n || n != 1 {
		vrt.Fail("C04", "a stream was opened after an authentication rejection")
	}
	m := s.Look(hz.CDS, "c")
	vrt.Advance(1100 * time.Millisecond)
	if !m.Done || m.Panic != "" {
		vrt.Fail("C04", "lookup after the client stopped: %v", m)
	}
	x.State(ReqString(s.CP.Reqs, hz.CDS), la.Stamp())
	s.M.Close()
}
