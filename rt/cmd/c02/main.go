// C02: every response is answered by the right ACK or NACK; a NACK changes
// nothing.
package main

import (
	"strings"
	"time"

	"google.golang.org/protobuf/types/known/anypb"

	. "github.com/kitex-contrib/xds/verifrt/hist"
	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/mc"
	"github.com/kitex-contrib/xds/verifrt/vrt"
)

const vi = "virtualInbound"

func typed(t T, depth int) *Conf {
	other := hz.RDS
	if t == hz.RDS {
		other = hz.EDS
	}
	return &Conf{Props: "C02", Types: []T{t}, Depth: depth, Rich: true, Setup: InstallPolicies,
		LeafGets: []Key{{t, "a"}, {t, "b"}}, Table: TabA,
		Ops: func(h *H) []Op {
			return []Op{
				Get(t, "a"), Get(t, "b"),
				Push(t, Good, "a"), Push(t, Good, "a", "b"), Push(t, Good), Push(t, SameVer, "b", "a"),
				Push(t, BadBytes, "a"), Push(t, BadFirst, "b"), Push(t, BadURL, "a"), Push(t, BadStruct), Push(t, BadSameVer, "a"),
				Push(other, Good, "a"), PushUnknown(),
				Advance(Idle), Reset(),
			}
		}}
}

func main() {
	mc.Main(&mc.Check{
		Property: "C02",
		Init:     hz.InstallProxy,
		Scenarios: func(tier string) []*mc.Scenario {
			d, dl, bnd := 4, 4, 2
			if tier == "thorough" {
				d, dl, bnd = 5, 5, 4
			}
			nds := &Conf{Props: "C02", Types: []T{hz.LDS}, Depth: dl, Inbound: true, Table: TabA, Rich: true, Setup: InstallPolicies,
				LeafGets: []Key{{hz.LDS, "a"}, {hz.LDS, "b"}, {hz.LDS, vi}},
				Ops: func(h *H) []Op {
					return []Op{Get(hz.LDS, "a"), Get(hz.LDS, "b"),
						Push(hz.LDS, Good, vi, "1.1.1.1_80"), Push(hz.LDS, Good, "2.2.2.2_80"), Push(hz.LDS, BadURL, vi, "1.1.1.1_80"), Push(hz.LDS, BadStruct, vi), Push(hz.LDS, BadSameVer, "1.1.1.1_80"), Push(hz.LDS, SameVer, vi),
						PushTable("A", Good, TabA), PushTable("B", Good, TabB), PushTable("B", BadBytes, TabB), PushTable("B", BadURL, TabB), PushTable("", BadFirst, nil),
						Advance(Short), Reset()}
				}}
			nonds := &Conf{Props: "C02", Types: []T{hz.LDS}, Depth: d, Cfg: hz.Cfg{NoNDS: true}, Inbound: true, Rich: true, Setup: InstallPolicies,
				LeafGets: []Key{{hz.LDS, "a"}, {hz.LDS, vi}},
				Ops: func(h *H) []Op {
					return []Op{Get(hz.LDS, "a"), Push(hz.LDS, Good, vi, "a"), Push(hz.LDS, Good, "a"), Push(hz.LDS, BadBytes, "a"), Push(hz.LDS, BadStruct, vi), Push(hz.LDS, BadFirst, vi),
						PushTable("A", Good, TabA), PushTable("A", BadFirst, nil), Push(hz.CDS, Good, "a"), Reset()}
				}}
			nolds := &Conf{Props: "C02", Types: []T{hz.LDS}, Depth: d, Cfg: hz.Cfg{NoLDS: true}, Table: TabA,
				LeafGets: []Key{{hz.LDS, "a"}},
				Ops: func(h *H) []Op {
					return []Op{Get(hz.LDS, "a"), Push(hz.LDS, Good, "1.1.1.1_80"), Push(hz.LDS, BadBytes, "1.1.1.1_80"), PushTable("B", Good, TabB), PushTable("B", BadURL, TabB), Reset()}
				}}
			bursts := &Conf{Props: "C02", Types: []T{hz.CDS, hz.EDS}, Depth: dl, Table: TabA, Rich: true, Setup: InstallPolicies,
				LeafGets: []Key{{hz.CDS, "a"}, {hz.EDS, "a"}},
				Ops: func(h *H) []Op {
					a, e := []string{"a"}, []string(nil)
					return []Op{Get(hz.CDS, "a"), Get(hz.EDS, "a"), Get(hz.CDS, "b"),
						Burst(B{hz.CDS, Good, a}, B{hz.CDS, Good, e}), Burst(B{hz.CDS, Good, a}, B{hz.CDS, BadBytes, a}), Burst(B{hz.CDS, BadBytes, a}, B{hz.CDS, Good, a}),
						Burst(B{hz.CDS, BadURL, a}, B{hz.EDS, Good, a}, B{hz.CDS, BadFirst, a}), Burst(B{hz.EDS, Good, a}, B{hz.CDS, Good, a}, B{hz.EDS, BadBytes, a}),
						Burst(B{hz.RDS, Good, a}, B{hz.CDS, BadStruct, a}), Reset()}
				}}
			mixed := &Conf{Props: "C02", Types: []T{hz.RDS, hz.CDS, hz.EDS}, Depth: dl, Table: TabA, Rich: true, Setup: InstallPolicies,
				LeafGets: []Key{{hz.RDS, "a"}, {hz.CDS, "a"}, {hz.EDS, "a"}},
				Ops: func(h *H) []Op {
					return []Op{Get(hz.RDS, "a"), Get(hz.CDS, "a"), Get(hz.EDS, "a"),
						Push(hz.RDS, Good, "a"), Push(hz.RDS, BadStruct), Push(hz.RDS, BadBytes, "a"), Push(hz.CDS, Good, "a"), Push(hz.CDS, BadBytes, "a"), Push(hz.CDS, SameVer, "a"),
						Push(hz.EDS, Good, "a"), Push(hz.EDS, BadURL, "a"), Push(hz.EDS, Good), Reset()}
				}}
			return append([]*mc.Scenario{
				Many("C02", tier), Named("C02", dl-1),
				Labelled("C02", dl),
				Flood("C02"),
				Scen("clusters", typed(hz.CDS, d)), Scen("routes", typed(hz.RDS, d)), Scen("endpoints", typed(hz.EDS, d)),
				Scen("listeners-nds", nds), Scen("listeners-nonds", nonds), Scen("listeners-nolds", nolds), Scen("bursts", bursts), Scen("mixed", mixed),
				{Name: "answers-while-others-look-up", Bound: bnd, Body: race, Opts: vrt.Opts{UnlockPoints: true},
					Bounds: "all schedules with at most the bound's preemptions of two lookups and three responses"},
			}, AtOnce("C02", tier)...)
		},
	})
}

// race: responses are answered while lookups change the subscription.
func race(x *mc.X) {
	s := hz.Start(x, hz.Cfg{})
	s.Boot(TabA)
	s.Look(hz.CDS, "a")
	vrt.Quiesce()
	st := s.CP.Live()
	t := hz.CDS
	type exp struct {
		v, n string
		bad  bool
	}
	var es []exp
	push := func(bad bool, names ...string) {
		var rs []*anypb.Any
		for _, n := range names {
			rs = append(rs, hz.Stamped(t, n, "s"))
		}
		if bad {
			rs = append(rs, hz.Corrupt(t))
		}
		v, n := st.Push(hz.URL(t), rs)
		es = append(es, exp{v, n, bad})
	}
	vrt.Region(true)
	push(false, "a")
	s.Look(t, "b")
	push(true, "a")
	s.Look(t, "c")
	push(false, "a", "b", "c")
	vrt.QuiesceUntil(func() bool { return st.Idle() }, 500*time.Millisecond)
	vrt.Region(false)
	vrt.Quiesce()
	acc := ""
	for _, e := range es {
		acks, nacks := 0, 0
		for _, q := range s.CP.Reqs {
			if q.Type != t || q.Nonce != e.n {
				continue
			}
			if q.Err {
				nacks++
				if q.Version != acc {
					vrt.Fail("C02", "NACK of %s carries version %q, last accepted is %q", e.n, q.Version, acc)
				}
			} else {
				acks++
				want := e.v
				if e.bad {
					want = acc
				}
				if q.Version != want {
					vrt.Fail("C02", "%v, version should be %q", q, want)
				}
			}
		}
		if e.bad && nacks != 1 {
			vrt.Fail("C02", "rejected response %s got %d NACKs: %v", e.n, nacks, s.CP.Reqs)
		}
		if !e.bad && (nacks != 0 || acks == 0 || acks > 3) {
			vrt.Fail("C02", "accepted response %s got %d NACKs, %d ACKs: %v", e.n, nacks, acks, s.CP.Reqs)
		}
		if !e.bad {
			acc = e.v
		}
	}
	var l []string
	for _, q := range s.CP.Reqs {
		l = append(l, q.String())
	}
	x.State(strings.Join(l, " "))
	s.M.Close()
}
