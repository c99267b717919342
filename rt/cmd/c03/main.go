// C03: requests carry exactly the current interest set of their type.
package main

import (
	"time"

	"google.golang.org/protobuf/types/known/anypb"

	. "github.com/kitex-contrib/xds/verifrt/hist"
	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/mc"
	"github.com/kitex-contrib/xds/verifrt/vrt"
)

const vi = "virtualInbound"

func typed(t T, depth int) *Conf {
	return &Conf{Props: "C03", Types: []T{t}, Depth: depth, Table: TabA,
		Ops: func(h *H) []Op {
			return []Op{
				Get(t, "a"), Get(t, "b"), Get(t, "c"),
				Push(t, Good), Push(t, Good, "a"), Push(t, Good, "a", "b", "x"), Push(t, BadBytes, "a"),
				Advance(Short), Advance(20 * time.Second), Advance(Idle), Reset(),
			}
		}}
}

func main() {
	mc.Main(&mc.Check{
		Property: "C03",
		Scenarios: func(tier string) []*mc.Scenario {
			d, dl, bnd := 4, 4, 3
			if tier == "thorough" {
				d, dl, bnd = 6, 5, 4
			}
			nds := &Conf{Props: "C03", Types: []T{hz.LDS}, Depth: dl + 1, Inbound: true, Table: TabA,
				Ops: func(h *H) []Op {
					return []Op{Get(hz.LDS, "a"), Get(hz.LDS, "b:81"), Get(hz.LDS, vi),
						Push(hz.LDS, Good, vi, "1.1.1.1_80"), Push(hz.LDS, Good), Push(hz.LDS, BadURL),
						PushTable("B", Good, TabB), PushTable("none", Good, nil), PushTable("B", BadBytes, TabB),
						Advance(Short), Advance(Idle), Reset()}
				}}
			nolds := &Conf{Props: "C03", Types: []T{hz.LDS}, Depth: d, Cfg: hz.Cfg{NoLDS: true, NoNDS: true},
				Ops: func(h *H) []Op {
					l := []Op{Get(hz.LDS, "a"), Get(hz.LDS, vi), Get(hz.CDS, "a"), Advance(Short), Advance(Idle), Reset()}
					return append(l, Push(hz.LDS, Good, "a"), Push(hz.LDS, Good, vi), Push(hz.CDS, Good, "a"))
				}}
			mixed := &Conf{Props: "C03", Types: []T{hz.RDS, hz.CDS, hz.EDS}, Depth: dl, Table: TabA,
				Ops: func(h *H) []Op {
					return []Op{Get(hz.RDS, "a"), Get(hz.CDS, "a"), Get(hz.EDS, "a"), Get(hz.EDS, "b"),
						Push(hz.RDS, Good, "a"), Push(hz.CDS, Good, "a", "b"), Push(hz.EDS, Good, "a", "b"), Push(hz.CDS, BadBytes, "a"),
						Advance(20 * time.Second), Advance(Idle), Reset(), ResetFails(2), HalfOpen(), SendFirst(B{hz.CDS, Good, []string{"a"}})}
				}}
			o := vrt.Opts{UnlockPoints: true}
			te := vrt.Opts{UnlockPoints: true, TimerEarly: true, EarlyWithin: 5 * time.Second}
			sch := "all schedules with at most the bound's deviations from the default one: "
			return append([]*mc.Scenario{
				Labelled("C03", dl-1),
				Many("C03", tier), Patient("C03", dl), Named("C03", dl-1), Cached("C03", dl),
				Flood("C03"),
				Scen("clusters", typed(hz.CDS, d)), Scen("routes", typed(hz.RDS, d)), Scen("endpoints", typed(hz.EDS, d)),
				Scen("listeners", nds), Scen("listeners-only", nolds), Scen("mixed", mixed),
				{Name: "concurrent-lookups", Bound: bnd, Body: lookups, Opts: o, Bounds: sch + "three lookups, one response"},
				{Name: "sweep-and-lookups", Bound: bnd, Body: sweeps, Opts: te, Bounds: sch + "two lookups around a sweep"},
				{Name: "sweep-and-response", Bound: bnd, Body: sweepResponse, Opts: te, Bounds: sch + "a response and a lookup around a sweep"},
				{Name: "reconnect-and-lookups", Bound: bnd, Body: reconnect, Opts: o, Bounds: sch + "two lookups around a stream failure and the responses on the new one"},
			}, AtOnce("C03", tier)...)
		},
	})
}

func boot(x *mc.X, names ...string) (*hz.Sys, time.Time) {
	s := hz.Start(x, hz.Cfg{})
	s.Boot(TabA)
	t0 := vrt.Now()
	for _, n := range names {
		s.Look(hz.CDS, n)
	}
	vrt.Quiesce()
	if len(names) > 0 {
		push(s, names...)
		vrt.Quiesce()
	}
	return s, t0
}

func push(s *hz.Sys, names ...string) {
	var rs []*anypb.Any
	for _, n := range names {
		rs = append(rs, hz.Stamped(hz.CDS, n, "s"))
	}
	s.CP.Live().Push(hz.URL(hz.CDS), rs)
}

func final(x *mc.X, s *hz.Sys, want string, max map[string]int) {
	Settle()
	Flips("C03", s.CP, hz.CDS, max)
	if g := LastSet(s.CP, hz.CDS); g != want {
		vrt.Fail("C03", "quiescent, the last request lists [%s], subscribed are [%s]: %s", g, want, ReqString(s.CP.Reqs, hz.CDS))
	}
	x.State(ReqString(s.CP.Reqs, hz.CDS))
	s.M.Close()
}

func lookups(x *mc.X) {
	s, _ := boot(x, "a")
	vrt.Region(true)
	s.Look(hz.CDS, "b")
	s.Look(hz.CDS, "c")
	push(s, "a", "b")
	s.Look(hz.CDS, "b")
	vrt.Quiesce()
	final(x, s, "a,b,c", map[string]int{"a": 1, "b": 1, "c": 1})
}

// a is idle for longer than the period and looked up again around the sweep;
// b is new.
func sweeps(x *mc.X) {
	s, t0 := boot(x, "a", "d")
	vrt.Advance(31 * time.Second)
	vrt.Quiesce()
	NextSweep(t0, time.Millisecond)
	vrt.Region(true)
	s.Look(hz.CDS, "a")
	s.Look(hz.CDS, "b")
	vrt.QuiesceUntil(func() bool { return vrt.Now().After(t0.Add(60 * time.Second)) }, 2*time.Millisecond)
	final(x, s, "a,b", map[string]int{"a": 3, "b": 1, "d": 2})
}

func sweepResponse(x *mc.X) {
	s, t0 := boot(x, "a", "d")
	NextSweep(t0, time.Second)
	s.Look(hz.CDS, "d")
	NextSweep(t0, -time.Second)
	NextSweep(t0, time.Millisecond)
	s.Look(hz.CDS, "d")
	vrt.Quiesce()
	vrt.Region(true)
	push(s, "a", "d")
	s.Look(hz.CDS, "b")
	vrt.QuiesceUntil(func() bool { return vrt.Now().After(t0.Add(60 * time.Second)) }, 2*time.Millisecond)
	final(x, s, "b,d", map[string]int{"a": 2, "b": 1, "d": 1})
}

func reconnect(x *mc.X) {
	s, _ := boot(x, "a")
	st := s.CP.Live()
	vrt.Region(true)
	s.Look(hz.CDS, "b")
	st.Break(hz.ErrReset)
	s.Look(hz.CDS, "c")
	vrt.QuiesceUntil(func() bool { return s.CP.Live() != nil && s.CP.Live().Last(hz.CDS) != nil }, 500*time.Millisecond)
	if l := s.CP.Live(); l != nil && l != st {
		push(s, "a", "b", "c")
		s.Look(hz.CDS, "d")
	} else {
		vrt.Fail("C03", "no new stream after a failure")
	}
	vrt.Quiesce()
	final(x, s, "a,b,c,d", map[string]int{"a": 1, "b": 1, "c": 1, "d": 1})
}
