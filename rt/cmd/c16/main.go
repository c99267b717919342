// C16: the circuit-breaker configuration tracks the latest cluster state.
package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/cloudwego/kitex/pkg/circuitbreak"
	"github.com/cloudwego/kitex/pkg/endpoint"
	"github.com/cloudwego/kitex/pkg/kerrors"
	"github.com/cloudwego/kitex/pkg/rpcinfo"
	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	. "github.com/kitex-contrib/xds/verifrt/hist"
	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/mc"
	"github.com/kitex-contrib/xds/verifrt/vrt"
	"github.com/kitex-contrib/xds/xdssuite"
)

// spec is the outlier detection of a cluster; -1: field absent.
type spec struct {
	od       bool
	thr, vol int64
	other    bool // other outlier-detection fields are set
}

func (s spec) String() string {
	if !s.od {
		return "plain"
	}
	o := ""
	if s.other {
		o = "+"
	}
	return fmt.Sprintf("%d/%d%s", s.thr, s.vol, o)
}

func u32(v int64) *wrapperspb.UInt32Value {
	if v < 0 {
		return nil
	}
	return wrapperspb.UInt32(uint32(v))
}

func (s spec) cluster(name string) *anypb.Any {
	c := &v3cluster.Cluster{Name: name, ClusterDiscoveryType: &v3cluster.Cluster_Type{Type: v3cluster.Cluster_EDS},
		EdsClusterConfig: &v3cluster.Cluster_EdsClusterConfig{ServiceName: "e-" + s.String()}}
	if n, ok := map[string]string{"a": "b", "b": "c", "c": "a"}[name]; ok && s.od && s.thr <= 30 {
		c.EdsClusterConfig.ServiceName = n // another cluster's name
	}
	if s.od {
		c.OutlierDetection = &v3cluster.OutlierDetection{FailurePercentageThreshold: u32(s.thr), FailurePercentageRequestVolume: u32(s.vol)}
		if s.other {
			c.OutlierDetection.SuccessRateRequestVolume = u32(77)
			c.OutlierDetection.EnforcingFailurePercentage = u32(0)
			c.OutlierDetection.Consecutive_5Xx = u32(3)
			c.OutlierDetection.FailurePercentageMinimumHosts = u32(8)
		}
	}
	return hz.Any(hz.URL(hz.CDS), c)
}

// conf is the reference derivation; ok is false without outlier detection.
func (s spec) conf() (c circuitbreak.CBConfig, ok bool) {
	if !s.od {
		return c, false
	}
	if s.thr > 0 && s.vol > 0 {
		return circuitbreak.CBConfig{Enable: true, ErrRate: float64(s.thr) / 100, MinSample: s.vol}, true
	}
	return circuitbreak.CBConfig{}, true
}

func parse(st string) spec {
	if st == "plain" {
		return spec{}
	}
	s := spec{od: true, other: strings.HasSuffix(st, "+")}
	fmt.Sscanf(st, "%d/%d", &s.thr, &s.vol)
	return s
}

// breaker is one circuit breaker with the reference state.
type breaker struct {
	label string
	cb    *circuitbreak.CBSuite
	want  map[string]string // name -> spec, "off" (disabled), "open"
	had   map[string]bool   // configured by an update it saw
}

func newBreaker(label string, how int) *breaker {
	var out *hz.ClientOut
	if how == 0 {
		out = hz.ApplyClient(xdssuite.NewCircuitBreaker(xdssuite.WithServiceCircuitBreak(true)))
	} else {
		out = hz.ApplyClient(xdssuite.NewClientSuite(xdssuite.WithServiceCircuitBreak(true)).Options()...)
	}
	if out.CB == nil {
		vrt.Fail("C16", "no circuit breaker was configured")
	}
	return &breaker{label: label, cb: out.CB, want: map[string]string{}, had: map[string]bool{}}
}

// update is the reference fold: served are the clusters of the update that are
// subscribed, all the clusters it carries.
func (b *breaker) update(served, all map[string]string) {
	want := map[string]string{}
	for n, st := range served {
		if _, ok := parse(st).conf(); ok {
			want[n] = st
		}
	}
	for n := range all {
		if _, ok := served[n]; !ok {
			want[n] = "open" // carried, but nobody asked for it
		}
	}
	for n := range b.had {
		if want[n] == "" {
			want[n] = "off"
		}
	}
	for n, w := range want {
		if w != "open" {
			b.had[n] = true
		}
	}
	b.want = want
}

func str(c circuitbreak.CBConfig) string {
	if !c.Enable {
		return "disabled"
	}
	return fmt.Sprintf("enabled %v/%v", c.ErrRate, c.MinSample)
}

// wrong compares with the reference; "" if as it should be.
func (b *breaker) wrong() string {
	got := hz.CBConfigs(b.cb)
	for n, w := range b.want {
		g, ok := got[n]
		switch w {
		case "open":
		case "off":
			if !ok || g.Enable {
				return fmt.Sprintf("%s: cluster %q should be disabled, is %s (present %v)", b.label, n, str(g), ok)
			}
		default:
			c, _ := parse(w).conf()
			if !ok || g.Enable != c.Enable || c.Enable && (g.ErrRate != c.ErrRate || g.MinSample != c.MinSample) {
				return fmt.Sprintf("%s: cluster %q has outlier detection %s, so should be %s, is %s (present %v)", b.label, n, w, str(c), str(g), ok)
			}
		}
	}
	for n, g := range got {
		if b.want[n] == "" && g.Enable {
			return fmt.Sprintf("%s: cluster %q is %s, the latest update does not configure it", b.label, n, str(g))
		}
	}
	return ""
}

type env struct {
	bs   []*breaker
	last map[string]string // served at the last update
	seen bool
	all  map[string]string
}

func setup(h *H, how int) *env {
	hz.Px.Cur = h.S.M
	e := &env{bs: []*breaker{newBreaker("breaker 1", how)}}
	h.C.OnAccept = func(h *H, t T, m map[string]string) {
		if t != hz.CDS {
			return
		}
		e.last, e.all, e.seen = h.Served(hz.CDS), m, true
		for _, b := range e.bs {
			b.update(e.last, m)
		}
	}
	h.C.After = func(h *H) {
		for _, b := range e.bs {
			if w := b.wrong(); w != "" {
				h.Fail("C16", "%s", w)
			}
		}
	}
	return e
}

// late registers another breaker.
func late(e **env) Op {
	return Op{Name: "new breaker", Do: func(h *H) {
		b := newBreaker(fmt.Sprintf("breaker %d (late)", len((*e).bs)+1), 1)
		if (*e).seen {
			cur := h.Served(hz.CDS)
			b.update(cur, (*e).all)
			for n := range (*e).last {
				if _, ok := cur[n]; !ok {
					b.want[n] = "open" // expired since
				}
			}
		}
		(*e).bs = append((*e).bs, b)
	}}
}

// minute: what is cached expires; what an update configured is open until the
// next one.
func minute(e **env) Op {
	a := Advance(61 * time.Second)
	return Op{Name: a.Name, Do: func(h *H) {
		a.Do(h)
		cur := h.Served(hz.CDS)
		for n := range (*e).last {
			if _, ok := cur[n]; !ok {
				for _, b := range (*e).bs {
					b.want[n] = "open"
				}
			}
		}
	}}
}

func push(label string, kind int, set map[string]spec) Op {
	m := map[string]string{}
	var rs []*anypb.Any
	var names []string
	for n := range set {
		names = append(names, n)
	}
	sort.Strings(names)
	if label == "" {
		for _, n := range names {
			label += fmt.Sprintf(" %s=%v", n, set[n])
		}
	}
	for _, n := range names {
		m[n] = set[n].String()
		rs = append(rs, set[n].cluster(n))
	}
	if kind == BadBytes {
		rs = append(rs, hz.Corrupt(hz.CDS))
		label += " corrupt"
	}
	return PushRaw("Push(CDS"+label+")", hz.CDS, kind != Good, m, rs, nil)
}

var (
	e1  = spec{od: true, thr: 10, vol: 5}
	e2  = spec{od: true, thr: 60, vol: 200}
	e1b = spec{od: true, thr: 10, vol: 6}
	zt  = spec{od: true, thr: 0, vol: 9}
	zv  = spec{od: true, thr: 30, vol: 0}
	no  = spec{od: true, thr: -1, vol: -1, other: true}
	pl  = spec{}
)

func histories(depth, how int, subs ...string) *Conf {
	// one *env per history: the configuration is shared by the worker's histories, which run one after the other
	var e *env
	type set = map[string]spec
	return &Conf{Props: "C16", Types: []T{hz.CDS}, Depth: depth, Table: TabA,
		Setup: func(h *H) {
			for _, n := range subs {
				h.Do(GetD(hz.CDS, n, -1))
			}
			e = setup(h, how)
		},
		Ops: func(h *H) []Op {
			return []Op{
				push(" none", Good, nil), push("", Good, set{"a": e1}), push("", Good, set{"a": e2}), push("", Good, set{"a": e1b, "b": e2}), push("", Good, set{"a": zt}), push("", Good, set{"a": zv, "b": e1}),
				push("", Good, set{"a": pl}), push("", Good, set{"a": pl, "b": no}), push("", Good, set{"b": e2, "c": e1}), push("", Good, set{"b": zt, "x": e1}),
				push("", BadBytes, set{"a": e2, "b": e2, "c": e2}),
				Push(hz.EDS, Good, "a"), Get(hz.CDS, "a"), Reset(), minute(&e), late(&e),
			}
		}}
}

// derivation: every pair of successive outlier detections, by one update of
// many clusters followed by another.
func derivation(x *mc.X) {
	thr := []int64{-1, 0, 1, 5, 33, 50, 99, 100, 101, 4294967295}
	vol := []int64{-1, 0, 1, 7, 100, 4294967295}
	specs := []spec{{}}
	for _, t := range thr {
		for _, v := range vol {
			specs = append(specs, spec{true, t, v, (t+v)%2 == 0})
		}
	}
	n := len(specs)
	shift := vrt.Choose(n)
	gap := vrt.Choose(3) // nothing, an empty update or a rejected one in between
	s := hz.Start(x, hz.Cfg{})
	s.Boot(TabA)
	hz.Px.Cur = s.M
	name := func(i int) string { return fmt.Sprint("outbound|80||c", i, ".x") }
	for i := 0; i < n; i++ {
		s.LookD(hz.CDS, name(i), -1)
	}
	vrt.Quiesce()
	b := newBreaker("breaker 1", 1)
	up := func(sh int, what string) map[string]string {
		m := map[string]string{}
		var rs []*anypb.Any
		for i := 0; i < n; i++ {
			sp := specs[(i+sh)%n]
			m[name(i)] = sp.String()
			rs = append(rs, sp.cluster(name(i)))
		}
		s.CP.Live().Push(hz.URL(hz.CDS), rs)
		vrt.Quiesce()
		b.update(m, m)
		if w := b.wrong(); w != "" {
			vrt.Fail("C16", "%s: %s", what, w)
		}
		return m
	}
	up(0, "first update")
	switch gap {
	case 1:
		s.CP.Live().Push(hz.URL(hz.CDS), nil)
		vrt.Quiesce()
		b.update(nil, nil)
	case 2:
		s.CP.Live().Push(hz.URL(hz.CDS), []*anypb.Any{e1.cluster(name(0)), hz.Corrupt(hz.CDS)})
		vrt.Quiesce()
	}
	if w := b.wrong(); w != "" {
		vrt.Fail("C16", "between updates: %s", w)
	}
	m := up(shift, "second update")
	l := newBreaker("late breaker", 0)
	l.update(m, m)
	if w := l.wrong(); w != "" {
		vrt.Fail("C16", "%s", w)
	}
	x.State(shift, gap)
	s.M.Close()
}

// many: updates of many clusters with names of every kind, of which some
// change, lose their outlier detection, or go.
func many(ns []int) func(x *mc.X) {
	return func(x *mc.X) {
		n := ns[vrt.Choose(len(ns))]
		keep := []int{1, 2, 7, n}[vrt.Choose(4)] // every keep-th cluster is in the second update
		change := []int{1, 3, n}[vrt.Choose(3)]  // every change-th has other outlier detection
		x.Op("%d clusters, then every %dth, every %dth changed", n, keep, change)
		name := func(i int) string {
			return []string{"outbound|80||c%d.x", "outbound|80|v1|c%d.x", "c%d", "C%d", "c%d ", "outbound|8%d||c", "c|%d|"}[i%7]
		}
		s := hz.Start(x, hz.Cfg{})
		s.Boot(TabA)
		hz.Px.Cur = s.M
		for i := 0; i < n; i++ {
			s.LookD(hz.CDS, fmt.Sprintf(name(i), i/7), -1)
		}
		vrt.Quiesce()
		b := newBreaker("breaker 1", 0)
		up := func(what string, f func(i int) (spec, bool)) {
			m := map[string]string{}
			var rs []*anypb.Any
			for i := 0; i < n; i++ {
				if sp, ok := f(i); ok {
					m[fmt.Sprintf(name(i), i/7)] = sp.String()
					rs = append(rs, sp.cluster(fmt.Sprintf(name(i), i/7)))
				}
			}
			s.CP.Live().Push(hz.URL(hz.CDS), rs)
			vrt.Quiesce()
			b.update(m, m)
			if w := b.wrong(); w != "" {
				vrt.Fail("C16", "%s: %s", what, w)
			}
			l := newBreaker("late breaker", 1)
			l.update(m, m)
			if w := l.wrong(); w != "" {
				vrt.Fail("C16", "%s: %s", what, w)
			}
		}
		kinds := []spec{e1, e2, zt, pl, e1b, zv, no}
		first := func(i int) (spec, bool) { return kinds[(i*5)%11%7], true }
		second := func(i int) (spec, bool) {
			sp, _ := first(i)
			if i%change == 0 {
				sp = kinds[(i*5+3)%7]
			}
			return sp, i%keep == 0
		}
		up("first update", first)
		up("second update", second)
		up("third update", func(i int) (spec, bool) { sp, ok := second(i); return sp, !ok || i%2 == 0 })
		up("fourth update", func(i int) (spec, bool) { return e2, i == n-1 })
		up("back to the first", first)
		x.State(n, keep, change)
		s.M.Close()
	}
}

// race: registrations concurrent with updates.
func race(x *mc.X) {
	s := hz.Start(x, hz.Cfg{})
	s.Boot(TabA)
	hz.Px.Cur = s.M
	for _, n := range []string{"a", "b", "c"} {
		s.LookD(hz.CDS, n, -1)
	}
	vrt.Quiesce()
	st := s.CP.Live()
	sets := []map[string]spec{{"a": e1, "b": e1, "c": e1}, {"a": e2, "b": zt}, {"b": e2, "c": pl}}
	bs := []*breaker{newBreaker("breaker 1", 1)}
	vrt.Region(true)
	for i := 0; i < 2; i++ {
		i := i
		vrt.GoN(fmt.Sprint("register", i), func() { bs = append(bs, newBreaker(fmt.Sprint("concurrent breaker ", i), i)) })
	}
	for _, set := range sets {
		var rs []*anypb.Any
		for _, n := range []string{"a", "b", "c"} {
			if sp, ok := set[n]; ok {
				rs = append(rs, sp.cluster(n))
			}
		}
		st.Push(hz.URL(hz.CDS), rs)
	}
	vrt.Quiesce()
	Settle()
	if len(bs) != 3 {
		vrt.Fail("C16", "a registration did not finish: %v", vrt.LiveGs())
	}
	d := ""
	for i, b := range bs {
		b.want = map[string]string{"b": e2.String()}
		if i == 0 {
			b.want["a"], b.want["c"] = "off", "off"
		}
		if w := b.wrong(); w != "" {
			vrt.Fail("C16", "after concurrent updates: %s", w)
		}
		d += hz.CBString(b.cb) + ";"
	}
	x.State(d)
	s.M.Close()
}

// ---- what the breaker does ----

var errCall = errors.New("failed call")

// drive makes calls and records which were let through.
func drive(mw endpoint.Middleware, cluster string, pattern string, n int) string {
	i := 0
	passed := false
	ep := mw(func(ctx context.Context, req, resp interface{}) error {
		passed = true
		if pattern[i%len(pattern)] == 'f' {
			return errCall
		}
		return nil
	})
	var b strings.Builder
	for i = 0; i < n; i++ {
		rpc := hz.Call{To: "svc", Svc: "S", Method: "m", Tags: map[string]string{xdssuite.RouterClusterKey: cluster}}.New()
		passed = false
		err := ep(rpcinfo.NewCtxWithRPCInfo(context.Background(), rpc.RI), nil, nil)
		switch {
		case passed && (err == nil) == (pattern[i%len(pattern)] != 'f'):
			b.WriteByte('.')
		case !passed && errors.Is(err, kerrors.ErrCircuitBreak):
			b.WriteByte('x')
		default:
			b.WriteByte('?')
		}
	}
	return b.String()
}

func behaviour(x *mc.X) {
	specs := []spec{e1, {od: true, thr: 50, vol: 12}, {od: true, thr: 100, vol: 3}, zt, zv, no}
	s := hz.Start(x, hz.Cfg{})
	s.Boot(TabA)
	hz.Px.Cur = s.M
	for _, n := range []string{"a", "b"} {
		s.LookD(hz.CDS, n, -1)
	}
	vrt.Quiesce()
	before := vrt.Choose(2) == 0
	var mw endpoint.Middleware
	kind := vrt.Choose(2)
	var suite *circuitbreak.CBSuite
	mk := func() {
		if kind == 0 {
			// the suite's default: an instance middleware
			out := hz.ApplyClient(xdssuite.NewClientSuite().Options()...)
			if len(out.IMW) != 1 {
				vrt.Fail("C16", "%d instance middlewares", len(out.IMW))
			}
			mw = out.IMW[0]
		} else {
			out := hz.ApplyClient(xdssuite.NewClientSuite(xdssuite.WithServiceCircuitBreak(true)).Options()...)
			suite = out.CB
			mw = out.CB.ServiceCBMW()
		}
	}
	if before {
		mk()
	}
	var last map[string]spec
	log := ""
	for i := 0; i < 2; i++ {
		last = map[string]spec{"a": specs[vrt.Choose(len(specs))]}
		if vrt.Choose(2) == 1 {
			last = map[string]spec{"b": last["a"]}
		}
		var rs []*anypb.Any
		for n, sp := range last {
			rs = append(rs, sp.cluster(n))
			log += fmt.Sprintf(" {%s=%v}", n, sp)
		}
		s.CP.Live().Push(hz.URL(hz.CDS), rs)
		vrt.Quiesce()
		if i == 0 && !before && vrt.Choose(2) == 0 {
			mk()
			before = true
		}
	}
	if mw == nil {
		mk()
		before = false
	}
	x.Op("updates%s, breaker kind %d", log, kind)
	// one outcome pattern per history: the window keeps what happened
	p := []string{"f", "sf", "sssf", "fsssssss"}[vrt.Choose(4)]
	for _, n := range []string{"a", "b"} {
		sp, ok := last[n]
		if !ok {
			// perhaps configured before: then it is disabled
			if got := drive(mw, n, "f", 40); strings.Contains(log, n+"=") && before && got != strings.Repeat(".", 40) {
				vrt.Fail("C16", "after updates%s (breaker kind %d), failing calls to %q went %s though its configuration was withdrawn", log, kind, n, got)
			}
			continue
		}
		c, _ := sp.conf()
		ref := circuitbreak.NewCBSuite(func(rpcinfo.RPCInfo) string { return "k" })
		ref.UpdateServiceCBConfig("k", c)
		want := drive(ref.ServiceCBMW(), n, p, 40)
		got := drive(mw, n, p, 40)
		ref.Close()
		if got != want {
			vrt.Fail("C16", "after updates%s (breaker kind %d), calls %q to %q went %s, should go %s", log, kind, p, n, got, want)
		}
	}
	if suite != nil {
		suite.Close()
	}
	x.State(log, kind)
	s.M.Close()
}

func main() {
	mc.Main(&mc.Check{
		Property: "C16",
		Init:     hz.InstallProxy,
		Assumptions: []string{
			"a cluster that no update configured may be absent or disabled",
			"clusters a response carries though nobody subscribed to them, and clusters that expired since the last update, are left open until the next update",
		},
		Scenarios: func(tier string) []*mc.Scenario {
			d, bnd := 4, 3
			ns := []int{1, 2, 5, 16, 33, 150}
			if tier == "thorough" {
				ns = []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 150, 256, 257, 600, 1025}
				d, bnd = 6, 4
			}
			return []*mc.Scenario{
				{Name: "derivation", Body: derivation, Bounds: "61 outlier detections (10 thresholds x 6 volumes, none), every ordered pair of them in successive updates of 61 clusters, with nothing, an empty or a rejected update in between"},
				{Name: "many", Body: many(ns), Bounds: fmt.Sprintf("%v clusters of 7 kinds of names in five successive updates, 4 subsets kept, 3 subsets changed, also for a breaker created after each", ns)},
				Scen("histories", histories(d, 1, "a", "b", "c")),
				Scen("histories-late-subscription", histories(d-1, 0)),
				{Name: "behaviour", Body: behaviour, Bounds: "two successive updates of 6 outlier detections of one of two clusters, breaker created before, between or after, both kinds of breaker; 40 calls of 4 outcome patterns compared with a reference suite"},
				{Name: "concurrent", Opts: vrt.Opts{UnlockPoints: true}, Bound: bnd, Body: race, Bounds: "all schedules with at most the bound's deviations: three updates, two registrations"},
			}
		},
	})
}
