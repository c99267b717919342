// C06: a resource accepted before the deadline of a waiting lookup is returned
// by it at once, whatever other lookups do.
package main

import (
	"time"

	"google.golang.org/protobuf/types/known/anypb"

	. "github.com/kitex-contrib/xds/verifrt/hist"
	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/mc"
	"github.com/kitex-contrib/xds/verifrt/vrt"
)

const ms = time.Millisecond

func typed(t T, cfg hz.Cfg, depth int) *Conf {
	return &Conf{Props: "C06", Types: []T{t}, Depth: depth, Table: TabA, Cfg: cfg,
		LeafGets: []Key{{t, "a"}, {t, "b"}},
		Ops: func(h *H) []Op {
			l := []Op{
				Get(t, "a"), Get(t, "b"), GetD(t, "a", 300*ms), GetD(t, "a", 5*time.Second),
				Cancel(false), Cancel(true), Push(t, Good), Push(t, Good, "b"),
				Advance(400 * ms), Advance(Short), Advance(Idle), Reset(),
			}
			if t == hz.LDS && !cfg.NoNDS {
				return append(l, Get(t, "A:80"), Push(t, Good, "1.1.1.1_80"), PushTable("B", Good, TabB), PushTable("A", Good, TabA))
			}
			return append(l, Push(t, Good, "a"), Push(t, Good, "a", "b"))
		}}
}

func main() {
	mc.Main(&mc.Check{
		Property: "C06",
		Scenarios: func(tier string) []*mc.Scenario {
			d, bnd, one := 4, 2, 0
			if tier == "thorough" {
				d, bnd, one = 5, 3, 1
			}
			te := vrt.Opts{UnlockPoints: true, TimerEarly: true, EarlyWithin: 1200 * ms}
			sch := "all schedules with at most the bound's deviations from the default one: "
			sc := func(name string, b int, body func(x *mc.X), what string) *mc.Scenario {
				return &mc.Scenario{Name: name, Bound: b, Opts: te, Body: body, Bounds: sch + what}
			}
			return append([]*mc.Scenario{
				Patient("C06", d), Named("C06", d-1),
				Scen("clusters", typed(hz.CDS, hz.Cfg{}, d)),
				Scen("endpoints", typed(hz.EDS, hz.Cfg{}, d-1)),
				Scen("routes", typed(hz.RDS, hz.Cfg{Timeout: 200 * ms}, d-1)),
				Scen("listeners", typed(hz.LDS, hz.Cfg{}, d-1)),
				sc("one-name", 3, oneName, "three waiting lookups of one name (own deadline, default deadline, cancelled), one response"),
				sc("arrivals", bnd, arrivals, "three lookups of one name arriving while the control plane answers the first request at once"),
				sc("arrivals-canceled", bnd, arrivalsCanceled, "as before, one caller is cancelled, one has a short deadline"),
				sc("two-names", bnd, twoNames, "lookups of two names, one response each"),
				sc("two-types", bnd, twoTypes, "lookups of one name in two types with a cancellation, one response each"),
				sc("delivered-then-dropped", 3+one, dropped, "two waiting lookups; the resource is delivered and dropped at once"),
				sc("bound-listeners", bnd, bound, "two names bound to one listener; the table arrives after the listener"),
				sc("all-give-up", 3, giveUp, "every caller gives up, another one comes, the response arrives"),
				sc("reconnect", bnd, reconnect, "the stream breaks while lookups wait; the new one answers at once"),
			}, AtOnce("C06", tier)...)
		},
	})
}

type resp struct {
	st *hz.Stream
	k  int // index among the responses of the stream
	t  T
	n  map[string]string // supplied name -> stamp
}

type sys struct {
	*hz.Sys
	x     *mc.X
	sent  map[*hz.Stream]int
	rs    []*resp
	looks []*hz.Look
	n     int
}

func start(x *mc.X, cfg hz.Cfg) *sys {
	s := &sys{Sys: hz.Start(x, cfg), x: x, sent: map[*hz.Stream]int{}}
	s.Boot(TabA)
	s.sent[s.CP.Live()] = 2
	if cfg.NoNDS || cfg.NoLDS {
		s.sent[s.CP.Live()] = 1
	}
	return s
}

func (s *sys) look(t T, n string, d time.Duration) *hz.Look {
	l := s.LookD(t, n, d)
	s.looks = append(s.looks, l)
	return l
}

func (s *sys) pushTo(st *hz.Stream, t T, n map[string]string, rs []*anypb.Any) {
	st.Push(hz.URL(t), rs)
	s.rs = append(s.rs, &resp{st, s.sent[st], t, n})
	s.sent[st]++
}

func stamped(t T, stamp string, names ...string) []*anypb.Any {
	var rs []*anypb.Any
	for _, n := range names {
		rs = append(rs, hz.Stamped(t, n, stamp))
	}
	return rs
}

func (s *sys) push(t T, stamp string, names ...string) {
	n := map[string]string{}
	for _, x := range names {
		n[x] = stamp
	}
	s.pushTo(s.CP.Live(), t, n, stamped(t, stamp, names...))
}

// react makes the control plane answer every request which names something new.
func (s *sys) react() {
	seen := map[*hz.Stream]map[T]string{}
	s.CP.OnReq = func(st *hz.Stream, r *hz.Req) {
		if seen[st] == nil {
			seen[st] = map[T]string{}
		}
		if r.Type == hz.NDS || seen[st][r.Type] == r.Set {
			return
		}
		seen[st][r.Type] = r.Set
		n := map[string]string{}
		for _, x := range r.Names {
			n[x] = "s1"
		}
		s.pushTo(st, r.Type, n, stamped(r.Type, "s1", r.Names...))
	}
}

// end lets everything finish under every schedule, then without time passing
// early, and judges every lookup.
func (s *sys) end() {
	vrt.Quiesce()
	Settle()
	fetch := s.Cfg.FetchTimeout()
	d := ""
	owed := map[*hz.Look]bool{}
	for _, l := range s.looks {
		lim := l.Limit(fetch)
		for _, r := range s.rs {
			if _, ok := r.n[l.Name]; !ok || r.t != l.T {
				continue
			}
			m := r.st.Accepted(r.k)
			if m == nil || !m.At.Before(lim) || l.Canceled && l.CancelSt <= m.Step {
				continue
			}
			owed[l] = true
			if !l.Done {
				vrt.Fail("C06", "%v though its resource was accepted %v before its deadline", l, lim.Sub(m.At))
			}
			if l.Err != nil {
				vrt.Fail("C06", "%v though its resource was accepted %v before its deadline", l, lim.Sub(m.At))
			}
		}
	}
	for i := 0; i < 3; i++ {
		vrt.Advance(fetch)
		vrt.Quiesce()
	}
	for _, l := range s.looks {
		if !l.Done {
			vrt.Fail("C06", "%v is still pending", l)
			continue
		}
		if l.Panic != "" {
			vrt.Fail("C06", "%v", l)
		}
		if l.Err != nil {
			if lim := l.Limit(fetch); l.EndAt.Before(lim) {
				vrt.Fail("C06", "%v ended %v before its own deadline", l, lim.Sub(l.EndAt))
			}
		} else {
			ok := false
			for _, r := range s.rs {
				ok = ok || r.t == l.T && r.n[l.Name] == l.Stamp()
			}
			if !ok {
				vrt.Fail("C06", "%v was never supplied", l)
			}
		}
		d += l.String() + ";"
	}
	s.x.State(d)
	s.M.Close()
}

func oneName(x *mc.X) {
	s := start(x, hz.Cfg{})
	vrt.Region(true)
	l1 := s.look(hz.CDS, "a", 0)
	s.look(hz.CDS, "a", 300*ms)
	s.look(hz.CDS, "a", 5*time.Second)
	vrt.Quiesce()
	l1.Cancel()
	s.push(hz.CDS, "s1", "a")
	s.end()
}

func arrivals(x *mc.X) {
	s := start(x, hz.Cfg{})
	s.react()
	vrt.Region(true)
	s.look(hz.EDS, "a", 0)
	s.look(hz.EDS, "a", 0)
	s.look(hz.EDS, "a", 5*time.Second)
	s.end()
}

func arrivalsCanceled(x *mc.X) {
	s := start(x, hz.Cfg{})
	s.react()
	vrt.Region(true)
	l1 := s.look(hz.CDS, "a", 0)
	s.look(hz.CDS, "a", 200*ms)
	s.look(hz.CDS, "a", 0)
	l1.Cancel()
	s.end()
}

func twoNames(x *mc.X) {
	s := start(x, hz.Cfg{})
	vrt.Region(true)
	s.look(hz.EDS, "a", 0)
	s.look(hz.EDS, "b", 300*ms)
	l3 := s.look(hz.EDS, "b", 5*time.Second)
	vrt.Quiesce()
	s.push(hz.EDS, "s1", "a")
	s.push(hz.EDS, "s2", "b")
	s.look(hz.EDS, "b", 0)
	l3.Cancel()
	s.end()
}

func twoTypes(x *mc.X) {
	s := start(x, hz.Cfg{})
	vrt.Region(true)
	l1 := s.look(hz.CDS, "a", 0)
	s.look(hz.EDS, "a", 0)
	s.look(hz.CDS, "a", 0)
	vrt.Quiesce()
	s.push(hz.EDS, "s1", "a")
	l1.Cancel()
	s.push(hz.CDS, "s2", "a")
	s.end()
}

func dropped(x *mc.X) {
	s := start(x, hz.Cfg{})
	s.look(hz.CDS, "a", 0)
	s.look(hz.CDS, "a", 300*ms)
	vrt.Quiesce()
	vrt.Region(true)
	s.push(hz.CDS, "s1", "a")
	s.push(hz.CDS, "s2", "b")
	s.end()
}

func bound(x *mc.X) {
	s := start(x, hz.Cfg{})
	s.look(hz.LDS, "b", 0)
	s.look(hz.LDS, "B.default:80", 5*time.Second)
	vrt.Quiesce()
	vrt.Region(true)
	s.push(hz.LDS, "s1", "7.7.7.7_80")
	s.pushTo(s.CP.Live(), hz.NDS, nil, []*anypb.Any{hz.NameTable(map[string][]string{"b.default.svc.cluster.local": {"7.7.7.7"}})})
	// both are supplied once the table is accepted
	for _, n := range []string{"b", "B.default:80"} {
		s.rs = append(s.rs, &resp{s.CP.Live(), s.rs[1].k, hz.LDS, map[string]string{n: "s1"}})
	}
	s.end()
}

func giveUp(x *mc.X) {
	s := start(x, hz.Cfg{})
	vrt.Region(true)
	l1 := s.look(hz.CDS, "a", 0)
	l2 := s.look(hz.CDS, "a", 0)
	vrt.Quiesce()
	l1.Cancel()
	l2.Cancel()
	s.look(hz.CDS, "a", 0)
	s.push(hz.CDS, "s1", "a")
	s.end()
}

func reconnect(x *mc.X) {
	s := start(x, hz.Cfg{})
	l1 := s.look(hz.CDS, "a", 0)
	vrt.Quiesce()
	s.react()
	vrt.Region(true)
	s.CP.Live().Break(hz.ErrReset)
	s.look(hz.CDS, "a", 0)
	l1.Cancel()
	vrt.QuiesceUntil(func() bool { return len(s.CP.Streams) > 1 && s.CP.Streams[1].Idle() && s.looks[1].Done }, 1100*ms)
	s.end()
}
