// C01: the served cache equals the fold of the accepted responses.
package main

import (
	"time"

	. "github.com/kitex-contrib/xds/verifrt/hist"
	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/mc"
)

func typed(t T, depth int) *Conf {
	return &Conf{Props: "C01", Types: []T{t}, Depth: depth,
		LeafGets: []Key{{t, "a"}, {t, "b"}, {t, "c"}},
		Table:    TabA,
		Ops: func(h *H) []Op {
			return []Op{
				Get(t, "a"), Get(t, "b"),
				Push(t, Good), Push(t, Good, "a"), Push(t, Good, "a", "b"), Push(t, Good, "c", "b"),
				Push(t, BadBytes, "a"), Push(t, SameVer, "b"),
				Advance(Short), Advance(Idle),
				Reset(),
			}
		}}
}

func main() {
	mc.Main(&mc.Check{
		Property: "C01",
		Scenarios: func(tier string) []*mc.Scenario {
			d, dl := 4, 3
			if tier == "thorough" {
				d, dl = 6, 5
			}
			nonds := &Conf{Props: "C01", Types: []T{hz.LDS}, Depth: d, Cfg: hz.Cfg{NoNDS: true}, Inbound: true,
				LeafGets: []Key{{hz.LDS, "a"}, {hz.LDS, "virtualInbound"}, {hz.LDS, "b"}},
				Ops: func(h *H) []Op {
					return []Op{Get(hz.LDS, "a"), Get(hz.LDS, "virtualInbound"),
						Push(hz.LDS, Good), Push(hz.LDS, Good, "a"), Push(hz.LDS, Good, "virtualInbound"), Push(hz.LDS, Good, "virtualInbound", "a", "b"),
						Push(hz.LDS, BadStruct, "a"), Advance(Short), Advance(Idle), Reset()}
				}}
			nolds := &Conf{Props: "C01", Types: []T{hz.LDS}, Depth: d, Cfg: hz.Cfg{NoLDS: true}, Table: TabA,
				LeafGets: []Key{{hz.LDS, "a"}, {hz.LDS, "b"}},
				Ops: func(h *H) []Op {
					return []Op{Get(hz.LDS, "a"), Get(hz.LDS, "b"),
						Push(hz.LDS, Good), Push(hz.LDS, Good, "1.1.1.1_80"), Push(hz.LDS, Good, "1.1.1.1_80", "2.2.2.2_80"),
						PushTable("A", Good, TabA), PushTable("B", Good, TabB), Advance(Short), Advance(Idle), Reset()}
				}}
			nds := &Conf{Props: "C01", Types: []T{hz.LDS}, Depth: dl, Inbound: true, Table: TabA,
				LeafGets: []Key{{hz.LDS, "a"}, {hz.LDS, "a:81"}, {hz.LDS, "b"}, {hz.LDS, "virtualInbound"}, {hz.LDS, "ext.com"}},
				Ops: func(h *H) []Op {
					return []Op{Get(hz.LDS, "a"), Get(hz.LDS, "a:81"), Get(hz.LDS, "b.default"), Get(hz.LDS, "virtualInbound"),
						Push(hz.LDS, Good), Push(hz.LDS, Good, "1.1.1.1_80"), Push(hz.LDS, Good, "virtualInbound", "1.1.1.1_80", "1.1.1.1_81"),
						Push(hz.LDS, Good, "2.2.2.2_80", "a"), Push(hz.LDS, BadURL, "1.1.1.1_80"),
						PushTable("A", Good, TabA), PushTable("B", Good, TabB), PushTable("none", Good, nil), PushTable("B", BadBytes, TabB),
						Advance(Short), Advance(Idle), Reset()}
				}}
			mixed := &Conf{Props: "C01", Types: []T{hz.RDS, hz.CDS, hz.EDS}, Depth: dl, Table: TabA,
				LeafGets: []Key{{hz.RDS, "a"}, {hz.CDS, "a"}, {hz.EDS, "a"}, {hz.EDS, "b"}},
				Ops: func(h *H) []Op {
					return []Op{Get(hz.RDS, "a"), Get(hz.CDS, "a"), Get(hz.EDS, "a"), Get(hz.EDS, "b"),
						Push(hz.RDS, Good, "a"), Push(hz.RDS, Good, "b"), Push(hz.CDS, Good, "a"), Push(hz.CDS, Good, "b"), Push(hz.CDS, BadBytes, "b"),
						Push(hz.EDS, Good, "a"), Push(hz.EDS, Good, "b", "a"), Push(hz.EDS, Good),
						Advance(20 * time.Second), Advance(Idle), Reset()}
				}}
			// everything is cached, under the same names in all types
			warm := &Conf{Props: "C01", Types: []T{hz.LDS, hz.RDS, hz.CDS, hz.EDS}, Depth: dl, Cfg: hz.Cfg{NoNDS: true}, Inbound: true, Setup: Warm(WarmAll...),
				LeafGets: []Key{{hz.LDS, "a"}, {hz.RDS, "a"}, {hz.CDS, "a"}, {hz.EDS, "a"}, {hz.LDS, "b"}, {hz.RDS, "b"}, {hz.CDS, "b"}, {hz.EDS, "b"}, {hz.LDS, "virtualInbound"}},
				Ops: func(h *H) []Op {
					return []Op{
						Get(hz.LDS, "a"), Get(hz.RDS, "a"), Get(hz.CDS, "a"), Get(hz.EDS, "a"),
						Push(hz.LDS, Good), Push(hz.LDS, Good, "a"), Push(hz.LDS, Good, "virtualInbound", "b"), Push(hz.LDS, BadURL, "a"),
						Push(hz.CDS, Good), Push(hz.CDS, Good, "a"), Push(hz.CDS, Good, "b", "virtualInbound"), Push(hz.CDS, SameVer, "b"), Push(hz.CDS, BadBytes, "b"),
						Push(hz.RDS, Good), Push(hz.RDS, Good, "a"), Push(hz.RDS, BadStruct, "b"),
						Push(hz.EDS, Good), Push(hz.EDS, Good, "b"), Push(hz.EDS, SameVer, "a"),
						Advance(20 * time.Second), Advance(Idle), Reset(),
					}
				}}
			return append([]*mc.Scenario{
				Many("C01", tier), Named("C01", dl),
				Labelled("C01", dl),
				Scen("clusters", typed(hz.CDS, d)), Scen("routes", typed(hz.RDS, d)), Scen("endpoints", typed(hz.EDS, d)),
				Scen("listeners-nonds", nonds), Scen("listeners-nolds", nolds), Scen("listeners-nds", nds), Scen("mixed", mixed), Scen("all-types-cached", warm),
			}, AtOnce("C01", tier)...)
		},
	})
}
