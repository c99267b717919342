package hist

import (
	"fmt"
	"time"

	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/mc"
	"github.com/kitex-contrib/xds/verifrt/vrt"
)

// Reset breaks the stream the ordinary way.
func Reset() Op { return Break("reset", func(st *hz.Stream) { st.Break(hz.ErrReset) }, 0) }

// ResetFails is Reset with failing reconnection attempts.
func ResetFails(n int) Op {
	return Break(fmt.Sprintf("reset,%d failed attempts", n), func(st *hz.Stream) { st.Break(hz.ErrReset) }, n)
}

// HalfOpen makes Recv fail while Send pretends to work.
func HalfOpen() Op {
	return Break("recv only", func(st *hz.Stream) { st.BreakRecv(hz.ErrReset) }, 0)
}

// SendFirst makes the Send of the acknowledgement fail, before Recv does.
func SendFirst(bs ...B) Op {
	return PushBreak("its ACK cannot be sent", func(st *hz.Stream) { st.SendFail = 1 }, bs...)
}

// Scen wraps a configuration as a scenario.
func Scen(name string, c *Conf) *mc.Scenario {
	return &mc.Scenario{Name: name, Opts: vrt.Opts{}, Body: c.Run,
		Bounds: fmt.Sprintf("all sequences of %d operations out of the scenario's menu", c.Depth)}
}

// BreakWith breaks the stream with a particular error.
func BreakWith(label string, err error) Op {
	return Break(label, func(st *hz.Stream) { st.Break(err) }, 0)
}

// Warm performs operations before the enumerated ones.
func Warm(ops ...Op) func(h *H) {
	return func(h *H) {
		for _, o := range ops {
			h.Do(o)
		}
	}
}

// WarmAll makes names a and b of listeners, routes, clusters and endpoints
// subscribed and cached (without name table).
var WarmAll = func() []Op {
	var l []Op
	for _, t := range []T{hz.LDS, hz.RDS, hz.CDS, hz.EDS} {
		l = append(l, Get(t, "a"), Get(t, "b"))
		if t == hz.LDS {
			l = append(l, Push(t, Good, "virtualInbound", "a", "b"))
		} else {
			l = append(l, Push(t, Good, "a", "b"))
		}
	}
	return l
}()

// Labelled enumerates histories under all schemes of versions and nonces.
func Labelled(prop string, depth int) *mc.Scenario {
	return Scen("labels", &Conf{Props: prop, Types: []T{hz.CDS, hz.EDS, hz.LDS}, Depth: depth, Labels: true, Inbound: true, Cfg: hz.Cfg{NoNDS: true},
		Setup:    Warm(Get(hz.CDS, "a"), Get(hz.EDS, "a"), Push(hz.CDS, Good, "a"), Push(hz.EDS, Good, "a")),
		LeafGets: []Key{{hz.CDS, "a"}, {hz.CDS, "b"}, {hz.EDS, "a"}, {hz.EDS, "b"}, {hz.LDS, "virtualInbound"}},
		Ops: func(h *H) []Op {
			return []Op{
				Get(hz.CDS, "b"), Get(hz.EDS, "b"),
				Push(hz.CDS, Good, "a", "b"), Push(hz.CDS, Good, "b"), Push(hz.CDS, BadBytes, "a"),
				Push(hz.EDS, Good, "a"), Push(hz.EDS, Good, "b"), Push(hz.EDS, BadFirst, "b"),
				Push(hz.LDS, Good, "virtualInbound"), Advance(Idle), Reset(),
			}
		}})
}

// Cached enumerates histories which begin with the names a and b of every type
// being subscribed and cached.
func Cached(prop string, depth int) *mc.Scenario {
	return Scen("all-types-cached", &Conf{Props: prop, Types: []T{hz.LDS, hz.RDS, hz.CDS, hz.EDS}, Depth: depth, Cfg: hz.Cfg{NoNDS: true}, Inbound: true, Setup: Warm(WarmAll...),
		LeafGets: []Key{{hz.LDS, "a"}, {hz.RDS, "a"}, {hz.CDS, "a"}, {hz.EDS, "a"}, {hz.LDS, "virtualInbound"}},
		Ops: func(h *H) []Op {
			return []Op{
				Get(hz.LDS, "a"), Get(hz.RDS, "a"), Get(hz.CDS, "a"), Get(hz.EDS, "a"), Get(hz.RDS, "virtualInbound"), Get(hz.CDS, "c"),
				Push(hz.LDS, Good, "virtualInbound", "a"), Push(hz.LDS, Good), Push(hz.CDS, Good, "a"), Push(hz.CDS, BadBytes, "b"),
				Push(hz.RDS, Good, "a", "virtualInbound"), Push(hz.EDS, Good, "b"),
				Advance(Short), Advance(20 * time.Second), Advance(Idle), Reset(),
			}
		}})
}

// Patient enumerates histories with lookups that wait for longer than the
// expiry period.
func Patient(prop string, depth int) *mc.Scenario {
	body := func(x *mc.X) {
		t := []T{hz.LDS, hz.RDS, hz.CDS, hz.EDS}[vrt.Choose(4)]
		c := &Conf{Props: prop, Types: []T{t}, Depth: depth, Inbound: true, Cfg: hz.Cfg{NoNDS: true, Timeout: 100 * time.Second},
			LeafGets: []Key{{t, "a"}, {t, "b"}},
			Setup: func(h *H) {
				if vrt.Choose(2) == 0 {
					h.Do(Get(t, "a"))
					h.Do(Push(t, Good, "a"))
				}
			},
			Ops: func(h *H) []Op {
				return []Op{
					Get(t, "a"), Get(t, "b"), GetD(t, "a", 50*time.Second), Cancel(false), Push(t, Good, "a"), Push(t, Good, "b"), Push(t, Good),
					Advance(20 * time.Second), Advance(Idle), Reset(),
				}
			}}
		c.Run(x)
	}
	return &mc.Scenario{Name: "patient-lookups", Body: body, Bounds: fmt.Sprintf("4 types, lookups waiting for up to 100 s, all sequences of %d operations out of the scenario's menu, the name cached at first or not", depth)}
}

// Many enumerates histories with many names of one type.
func Many(prop, tier string) *mc.Scenario {
	sizes, depth := []int{3, 9, 17, 65, 130}, 2
	if tier == "thorough" {
		sizes, depth = append(sizes, 4, 5, 8, 16, 33, 257, 400), 3
	}
	body := func(x *mc.X) {
		t := []T{hz.LDS, hz.RDS, hz.CDS, hz.EDS}[vrt.Choose(4)]
		k := sizes[vrt.Choose(len(sizes))]
		name := func(i int) string { return fmt.Sprintf("n%d", i) }
		var names, odd, more []string
		var leaf []Key
		for i := 0; i < k; i++ {
			names = append(names, name(i))
			if i%2 == 1 {
				odd = append(odd, name(i))
			}
			more = append(more, name(i), "x"+name(i))
			if i == 0 || i == k/2 || i == k-1 {
				leaf = append(leaf, Key{t, name(i)})
			}
		}
		op := func(label string, o Op) Op { return Op{label, o.Do} }
		c := &Conf{Props: prop, Types: []T{t}, Depth: depth, Inbound: true, Cfg: hz.Cfg{NoNDS: true}, LeafGets: leaf,
			Setup: func(h *H) {
				for _, n := range names {
					h.Do(Get(t, n))
				}
				h.desc = []string{fmt.Sprintf("%d lookups", k)}
				if vrt.Choose(2) == 0 {
					h.Do(op("Push(all)", Push(t, Good, names...)))
				}
			},
			Ops: func(h *H) []Op {
				return []Op{
					Get(t, name(0)), Get(t, name(k-1)), Get(t, "another"),
					op("Push(all)", Push(t, Good, names...)), op("Push(half)", Push(t, Good, odd...)), op("Push(all and as many others)", Push(t, Good, more...)),
					op("Push(all, corrupt)", Push(t, BadBytes, names...)),
					Advance(Short), Advance(20 * time.Second), Advance(Idle), Reset(),
				}
			}}
		c.Run(x)
	}
	return &mc.Scenario{Name: "many-names", Body: body, Bounds: fmt.Sprintf("4 types, %v names, cached or not, all sequences of %d operations out of the scenario's menu", sizes, depth)}
}

// OddNames are names a client has to take literally. They come in pairs that
// a careless comparison takes for one another.
var OddNames = [][2]string{
	{"a", "A"}, {"a", "a "}, {"a", "a:80"}, {"a", "a.default.svc.cluster.local"}, {"a", "aa"}, {"a", "*"}, {"*.a", "b.a"},
	{"outbound|80||a.default.svc.cluster.local", "outbound|80|v1|a.default.svc.cluster.local"},
	{"outbound|80||a.default.svc.cluster.local", "outbound|81||a.default.svc.cluster.local"},
	{"80", "080"}, {"a/b", "a%2Fb"}, {"ü", "u\u0308"}, {"a\tb", "a\\tb"}, {"a,b", "b,a"}, {"virtualInbound", "virtualInbound2"},
	{"a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-1",
		"a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-2"},
}

// Named enumerates histories of two odd names of one type.
func Named(prop string, depth int) *mc.Scenario {
	body := func(x *mc.X) {
		t := []T{hz.LDS, hz.RDS, hz.CDS, hz.EDS}[vrt.Choose(4)]
		p := OddNames[vrt.Choose(len(OddNames))]
		a, b := p[0], p[1]
		c := &Conf{Props: prop, Types: []T{t}, Depth: depth, Inbound: true, Cfg: hz.Cfg{NoNDS: true},
			LeafGets: []Key{{t, a}, {t, b}},
			Ops: func(h *H) []Op {
				return []Op{
					Get(t, a), Get(t, b), Push(t, Good, a), Push(t, Good, b), Push(t, Good, b, a), Push(t, Good),
					Push(t, BadBytes, a), Advance(Idle), Reset(),
				}
			}}
		c.Run(x)
	}
	return &mc.Scenario{Name: "odd-names", Body: body, Bounds: fmt.Sprintf("4 types, %d pairs of names, all sequences of %d operations out of the scenario's menu", len(OddNames), depth)}
}

// Common durations.
const (
	Short = 1500 * time.Millisecond
	Idle  = 31 * time.Second
)

// Tables.
var (
	TabA  = map[string][]string{"a.default.svc.cluster.local": {"1.1.1.1", "9.9.9.9"}, "ext.com": {"3.3.3.3"}}
	TabB  = map[string][]string{"a.default.svc.cluster.local": {"2.2.2.2"}, "b.default.svc.cluster.local": {"1.1.1.1"}}
	TabAB = map[string][]string{"a.default.svc.cluster.local": {"1.1.1.1"}, "b.default.svc.cluster.local": {"2.2.2.2", "1.1.1.1"}}
)
