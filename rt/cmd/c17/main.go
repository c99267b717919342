// C17: retry policies track the route tables currently in force.
package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/cloudwego/kitex/pkg/retry"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3http "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3matcher "github.com/envoyproxy/go-control-plane/envoy/type/matcher/v3"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	. "github.com/kitex-contrib/xds/verifrt/hist"
	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/mc"
	"github.com/kitex-contrib/xds/verifrt/vrt"
	"github.com/kitex-contrib/xds/xdssuite"
)

// pol is a route's retry policy.
type pol struct {
	attempts  uint32
	perTry    time.Duration // 0: absent
	base, max time.Duration // base 0: no back-off; max 0: absent
	rate      string        // "": no such header
	methods   string
}

func header(name, v string) *v3route.HeaderMatcher {
	return &v3route.HeaderMatcher{Name: name, HeaderMatchSpecifier: &v3route.HeaderMatcher_StringMatch{StringMatch: &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_Exact{Exact: v}}}}
}

func (p *pol) proto() *v3route.RetryPolicy {
	if p == nil {
		return nil
	}
	r := &v3route.RetryPolicy{RetryOn: "5xx,connect-failure", NumRetries: wrapperspb.UInt32(p.attempts)}
	if p.perTry != 0 {
		r.PerTryTimeout = durationpb.New(p.perTry)
	}
	if p.base != 0 {
		r.RetryBackOff = &v3route.RetryPolicy_RetryBackOff{BaseInterval: durationpb.New(p.base)}
		if p.max != 0 {
			r.RetryBackOff.MaxInterval = durationpb.New(p.max)
		}
	}
	if p.rate != "" {
		r.RetriableHeaders = append(r.RetriableHeaders, header("x-other", "0.3"), header("kitexRetryErrorRate", p.rate))
	}
	if p.methods != "" {
		r.RetriableHeaders = append(r.RetriableHeaders, header("kitexRetryMethods", p.methods), &v3route.HeaderMatcher{Name: "y-other"})
	}
	return r
}

func (p *pol) ms() []string {
	if p == nil || p.methods == "" {
		return nil
	}
	return strings.Split(p.methods, ",")
}

// policy is the reference derivation.
func (p *pol) policy() retry.Policy {
	if p == nil {
		p = &pol{}
	}
	rate := 0.0
	fmt.Sscanf(p.rate, "%g", &rate)
	f := &retry.FailurePolicy{StopPolicy: retry.StopPolicy{
		MaxRetryTimes: int(p.attempts),
		MaxDurationMS: p.attempts * uint32(p.perTry/time.Millisecond),
		CBPolicy:      retry.CBPolicy{ErrorRate: rate},
	}}
	ms := func(d time.Duration) float64 { return float64(d / time.Millisecond) }
	switch {
	case p.base == 0:
		f.BackOffPolicy = &retry.BackOffPolicy{BackOffType: retry.NoneBackOffType}
	case p.max > p.base:
		f.BackOffPolicy = &retry.BackOffPolicy{BackOffType: retry.RandomBackOffType, CfgItems: map[retry.BackOffCfgKey]float64{retry.MinMSBackOffCfgKey: ms(p.base), retry.MaxMSBackOffCfgKey: ms(p.max)}}
	default:
		f.BackOffPolicy = &retry.BackOffPolicy{BackOffType: retry.FixedBackOffType, CfgItems: map[retry.BackOffCfgKey]float64{retry.FixMSBackOffCfgKey: ms(p.base)}}
	}
	return retry.Policy{Enable: true, Type: retry.FailureType, FailurePolicy: f}
}

var installed = map[pol]string{}

// shape is what a fresh container shows for the policy.
func (p *pol) shape() string {
	k := pol{}
	if p != nil {
		k = *p
		k.methods = ""
	}
	if s, ok := installed[k]; ok {
		return s
	}
	c := retry.NewRetryContainer()
	c.NotifyPolicyChange("k", k.policy())
	s, ok := hz.RetryPolicies(c)["k"]
	if !ok || strings.Contains(s, "err_msg") {
		panic(fmt.Sprintf("the reference policy for %+v is not accepted: %s", k, s))
	}
	installed[k] = s
	return s
}

// rule is a route.
type rule struct {
	clusters []string
	p        *pol
}

// table is a route table: virtual hosts of routes.
type table [][]rule

func (t table) proto(name string) *v3route.RouteConfiguration {
	rc := &v3route.RouteConfiguration{Name: name}
	for i, vh := range t {
		v := &v3route.VirtualHost{Name: fmt.Sprint("vh", i), Domains: []string{"*"}}
		for j, r := range vh {
			a := &v3route.RouteAction{RetryPolicy: r.p.proto(), Timeout: durationpb.New(time.Second)}
			if len(r.clusters) == 1 {
				a.ClusterSpecifier = &v3route.RouteAction_Cluster{Cluster: r.clusters[0]}
			} else {
				w := &v3route.WeightedCluster{}
				for k, c := range r.clusters {
					w.Clusters = append(w.Clusters, &v3route.WeightedCluster_ClusterWeight{Name: c, Weight: wrapperspb.UInt32(uint32(k * 50))})
				}
				a.ClusterSpecifier = &v3route.RouteAction_WeightedClusters{WeightedClusters: w}
			}
			v.Routes = append(v.Routes, &v3route.Route{Match: &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: fmt.Sprint("/", j)}}, Action: &v3route.Route_Route{Route: a}})
		}
		rc.VirtualHosts = append(rc.VirtualHosts, v)
	}
	return rc
}

// want: for every key the shapes it may have.
type want map[string][]string

func (w want) add(t table) {
	for _, vh := range t {
		for _, r := range vh {
			s := r.p.shape()
			for _, c := range r.clusters {
				w[c] = append(w[c], s)
				for _, m := range r.p.ms() {
					w[c+"|"+m] = append(w[c+"|"+m], s)
				}
			}
		}
	}
}

func (w want) wrong(rc *retry.Container) string {
	got := hz.RetryPolicies(rc)
	none := (*pol)(nil).shape()
	for k, ss := range w {
		g := got[k]
		ok, bare := false, true
		for _, s := range ss {
			ok = ok || s == g
			bare = bare && s == none
		}
		// a destination without a retry policy may have none installed
		if !ok && !(bare && g == "") {
			return fmt.Sprintf("the policy of %q is %q, should be %q", k, g, ss)
		}
	}
	for k, g := range got {
		if _, ok := w[k]; !ok {
			return fmt.Sprintf("a policy is installed for %q, which no cached table has: %s", k, g)
		}
	}
	return ""
}

type keeper struct {
	label string
	rc    *retry.Container
}

func newKeeper(label string, how int) *keeper {
	var out *hz.ClientOut
	if how == 0 {
		out = hz.ApplyClient(xdssuite.NewRetryPolicy(xdssuite.WithMatchRetryMethod(true)))
	} else {
		out = hz.ApplyClient(xdssuite.NewClientSuite().Options()...)
	}
	if out.Retry == nil {
		vrt.Fail("C17", "no retry container was configured")
	}
	return &keeper{label, out.Retry}
}

var (
	p1 = &pol{attempts: 2, perTry: 100 * time.Millisecond}
	p2 = &pol{attempts: 3, perTry: 250 * time.Millisecond, base: 25 * time.Millisecond, max: 250 * time.Millisecond, rate: "0.2"}
	p3 = &pol{attempts: 1, base: 10 * time.Millisecond, rate: "0.05", methods: "m1,m2"}
	p4 = &pol{attempts: 2, perTry: 100 * time.Millisecond, methods: "m2"}
	p0 = &pol{attempts: 0, perTry: 100 * time.Millisecond}
)

var tables = map[string]table{
	"a:p1":        {{{[]string{"a"}, p1}}},
	"a:p2":        {{{[]string{"a"}, p2}}},
	"a:p3":        {{{[]string{"a"}, p3}}},
	"a:p4":        {{{[]string{"a"}, p4}}},
	"b:p3":        {{{[]string{"b"}, p3}}},
	"a,c:p2 b:p1": {{{[]string{"a", "c"}, p2}}, {{[]string{"b"}, p1}}},
	"c:p4 d:none": {{{[]string{"c"}, p4}, {[]string{"d"}, nil}}},
	"a:p0":        {{{[]string{"a"}, p0}}},
	"empty":       {},
	"bare":        {{}},
}

type env struct {
	ks   []*keeper
	last map[string]string
	open bool // expired since the last update
}

func (e *env) check(h *H) {
	cur := h.Served(hz.RDS)
	w := want{}
	for _, st := range cur {
		w.add(tables[st])
	}
	if e.last != nil && fmt.Sprint(cur) != fmt.Sprint(e.last) {
		e.open = true
	}
	for _, k := range e.ks {
		if e.open && !strings.Contains(k.label, "@") {
			continue
		}
		if s := w.wrong(k.rc); s != "" {
			h.Fail("C17", "%s: %s; cached tables %v", k.label, s, cur)
		}
		k.label = strings.TrimSuffix(k.label, "@")
	}
}

func setup(h *H, how int) *env {
	hz.Px.Cur = h.S.M
	e := &env{ks: []*keeper{newKeeper("container 1", how)}}
	h.C.OnAccept = func(h *H, t T, m map[string]string) {
		if t == hz.RDS {
			e.last, e.open = h.Served(t), false
		}
	}
	h.C.After = e.check
	return e
}

func late(e **env) Op {
	return Op{Name: "new container", Do: func(h *H) {
		// "@": judged at once, whatever expired
		(*e).ks = append((*e).ks, newKeeper(fmt.Sprintf("container %d (late)@", len((*e).ks)+1), 0))
	}}
}

func push(kind int, kv ...string) Op {
	m := map[string]string{}
	var rs []*anypb.Any
	label := ""
	for i := 0; i < len(kv); i += 2 {
		m[kv[i]] = kv[i+1]
		t, ok := tables[kv[i+1]]
		if !ok {
			panic(kv[i+1])
		}
		rs = append(rs, hz.Any(hz.URL(hz.RDS), t.proto(kv[i])))
		label += fmt.Sprintf(" %s={%s}", kv[i], kv[i+1])
	}
	switch kind {
	case BadBytes:
		rs = append(rs, hz.Corrupt(hz.RDS))
		label += " corrupt"
	case BadStruct:
		rs = append(rs, hz.BadStruct(hz.RDS, "t2"))
		label += " invalid"
	}
	return PushRaw("Push(RDS"+label+")", hz.RDS, kind != Good, m, rs, nil)
}

// inlineLDS is a listener with an inline table, which is not a named one.
func inlineLDS() Op {
	h := &v3http.HttpConnectionManager{RouteSpecifier: &v3http.HttpConnectionManager_RouteConfig{RouteConfig: table{{{[]string{"z"}, p2}}}.proto("t1")}}
	l := hz.Any(hz.URL(hz.LDS), &v3listener.Listener{Name: "1.1.1.1_80", Address: &v3core.Address{}, FilterChains: []*v3listener.FilterChain{{Filters: []*v3listener.Filter{hz.HCMFilter(h)}}}})
	return PushRaw("Push(LDS inline)", hz.LDS, false, map[string]string{"1.1.1.1_80": "t1"}, []*anypb.Any{l}, nil)
}

func conf(depth, how int, subs []string, ops func(e **env) []Op) *Conf {
	var e *env
	return &Conf{Props: "C17", Types: []T{hz.RDS}, Depth: depth, Table: TabA,
		Setup: func(h *H) {
			for _, n := range subs {
				h.Do(GetD(hz.RDS, n, -1))
			}
			h.Do(GetD(hz.LDS, "a", -1))
			e = setup(h, how)
		},
		Ops: func(h *H) []Op { return ops(&e) }}
}

func wide(e **env) []Op {
	return []Op{
		push(Good), push(Good, "t1", "a:p1"), push(Good, "t1", "a:p3"), push(Good, "t1", "b:p3"), push(Good, "t1", "empty"),
		push(Good, "t2", "a:p1"), push(Good, "t2", "a,c:p2 b:p1"), push(Good, "t1", "a:p4", "t2", "c:p4 d:none"), push(Good, "x", "a:p2"), push(Good, "t2", "bare"),
		push(BadBytes, "t1", "a:p2"), push(BadStruct, "t1", "b:p3"), inlineLDS(),
		Get(hz.RDS, "t1"), Advance(20 * time.Second), Advance(61 * time.Second), Reset(), late(e),
	}
}

func narrow(e **env) []Op {
	return []Op{
		push(Good, "t1", "a:p1"), push(Good, "t1", "a:p2"), push(Good, "t1", "a:p3"), push(Good, "t1", "a:p4"), push(Good, "t1", "a:p0"), push(Good, "t1", "b:p3"), push(Good, "t1", "empty"), push(Good, "t1", "c:p4 d:none"),
		push(Good, "t2", "a,c:p2 b:p1"), push(Good, "t2", "empty"), push(Good, "t1", "a:p1", "t2", "a:p2"),
	}
}

// many: large tables with destinations of every kind of name, of which some
// change, lose their policies or methods, or go.
func many(ns []int) func(x *mc.X) {
	return func(x *mc.X) {
		n := ns[vrt.Choose(len(ns))]
		shape := vrt.Choose(4) // one route per virtual host, one virtual host, several clusters per route, several tables
		keep := []int{1, 2, n}[vrt.Choose(3)]
		change := []int{1, 3, n}[vrt.Choose(3)]
		x.Op("%d destinations, shape %d, then every %dth, every %dth changed", n, shape, keep, change)
		name := func(i int) string {
			return fmt.Sprintf([]string{"outbound|80||c%d.x", "outbound|80|v1|c%d.x", "c%d", "C%d", "outbound|8%d||c"}[i%5], i/5)
		}
		ps := []*pol{p1, p2, p3, nil, p4, p0, {attempts: 5, perTry: time.Second, base: time.Millisecond, methods: "m1,M1,/S/m,m_2"}}
		s := hz.Start(x, hz.Cfg{})
		s.Boot(TabA)
		hz.Px.Cur = s.M
		for i := 0; i < 8; i++ {
			s.LookD(hz.RDS, fmt.Sprint("t", i), -1)
		}
		vrt.Quiesce()
		k := newKeeper("container 1", shape%2)
		up := func(what string, f func(i int) (*pol, bool)) {
			ts := make([]table, 8)
			for i := range ts {
				ts[i] = table{{}}
			}
			for i := 0; i < n; i++ {
				p, ok := f(i)
				if !ok {
					continue
				}
				switch shape {
				case 0:
					ts[0] = append(ts[0], []rule{{[]string{name(i)}, p}})
				case 1:
					ts[0][0] = append(ts[0][0], rule{[]string{name(i)}, p})
				case 2:
					ts[0][0] = append(ts[0][0], rule{[]string{name(i), name(i) + "-a", name(i) + "-b"}, p})
				case 3:
					ts[i%8][0] = append(ts[i%8][0], rule{[]string{name(i)}, p})
				}
			}
			w := want{}
			var rs []*anypb.Any
			for i, t := range ts {
				if shape == 3 || i == 0 {
					w.add(t)
					rs = append(rs, hz.Any(hz.URL(hz.RDS), t.proto(fmt.Sprint("t", i))))
				}
			}
			s.CP.Live().Push(hz.URL(hz.RDS), rs)
			vrt.Quiesce()
			for _, k := range []*keeper{k, newKeeper("late container", 0)} {
				if m := w.wrong(k.rc); m != "" {
					vrt.Fail("C17", "%s: %s: %s", what, k.label, m)
				}
			}
		}
		first := func(i int) (*pol, bool) { return ps[(i*5)%11%7], true }
		second := func(i int) (*pol, bool) {
			p, _ := first(i)
			if i%change == 0 {
				p = ps[(i*5+3)%7]
			}
			return p, i%keep == 0
		}
		up("first update", first)
		up("second update", second)
		up("third update", func(i int) (*pol, bool) { p, ok := second(i); return p, !ok || i%2 == 0 })
		up("fourth update", func(i int) (*pol, bool) { return p3, i == n-1 })
		up("back to the first", first)
		x.State(n, shape, keep, change)
		s.M.Close()
	}
}

// derivation: every pair of successive policies out of the grid.
func derivation(x *mc.X) {
	var ps []*pol
	for _, n := range []uint32{0, 1, 3, 5} {
		for _, pt := range []time.Duration{0, time.Millisecond, 250 * time.Millisecond, 10 * time.Second, 90 * time.Minute} {
			for _, b := range [][2]time.Duration{{}, {25, 0}, {25, 25}, {25, 250}, {25, 10}} {
				for i, r := range []string{"", "0.1", "0.3", "0.015"} {
					m := []string{"", "m", "m1,m2,m3"}
					ps = append(ps, &pol{n, pt, b[0] * time.Millisecond, b[1] * time.Millisecond, r, m[(int(n)+i)%3]})
				}
			}
		}
	}
	ps = append(ps, nil)
	n := len(ps)
	shift := vrt.Choose(n)
	s := hz.Start(x, hz.Cfg{})
	s.Boot(TabA)
	hz.Px.Cur = s.M
	s.LookD(hz.RDS, "t1", -1)
	s.LookD(hz.RDS, "t2", -1)
	vrt.Quiesce()
	k := newKeeper("container 1", shift%2)
	mk := func(sh, off int) table {
		var t table
		for i := 0; i < n; i++ {
			cs := []string{fmt.Sprint("outbound|80||c", i)}
			if i%3 == 0 {
				cs = append(cs, fmt.Sprint("w", i), fmt.Sprint("v", i))
			}
			t = append(t, []rule{{cs, ps[(i+sh)%n]}})
		}
		return t
	}
	up := func(label string, ts map[string]table, cached ...table) {
		var rs []*anypb.Any
		for _, nm := range []string{"t1", "t2"} {
			if t, ok := ts[nm]; ok {
				rs = append(rs, hz.Any(hz.URL(hz.RDS), t.proto(nm)))
			}
		}
		s.CP.Live().Push(hz.URL(hz.RDS), rs)
		vrt.Quiesce()
		w := want{}
		for _, t := range cached {
			w.add(t)
		}
		if e := w.wrong(k.rc); e != "" {
			vrt.Fail("C17", "%s (shift %d): %s", label, shift, e)
		}
		x.Count("policies", len(w))
	}
	t1, t2 := mk(0, 0), mk(shift, 0)
	up("first table", map[string]table{"t1": t1}, t1)
	up("replaced table", map[string]table{"t1": t2}, t2)
	// half of the clusters move to another table
	h1, h2 := t1[:n/2], t1[n/2:]
	up("partial update", map[string]table{"t2": h1}, t2, h1)
	up("replaced by the other half", map[string]table{"t1": h2}, h1, h2)
	x.State(shift)
	s.M.Close()
}

// race: registrations concurrent with updates.
func race(lookup bool) func(x *mc.X) {
	return func(x *mc.X) { raced(x, lookup) }
}

func raced(x *mc.X, lookup bool) {
	s := hz.Start(x, hz.Cfg{})
	s.Boot(TabA)
	hz.Px.Cur = s.M
	s.LookD(hz.RDS, "t1", -1)
	s.LookD(hz.RDS, "t2", -1)
	vrt.Quiesce()
	st := s.CP.Live()
	ks := []*keeper{newKeeper("container 1", 1)}
	vrt.Region(true)
	vrt.GoN("register", func() { ks = append(ks, newKeeper("concurrent container", 0)) })
	if lookup {
		s.Look(hz.RDS, "t3")
	}
	for _, kv := range [][2]string{{"t1", "a:p3"}, {"t2", "b:p3"}, {"t1", "a:p2"}} {
		st.Push(hz.URL(hz.RDS), []*anypb.Any{hz.Any(hz.URL(hz.RDS), tables[kv[1]].proto(kv[0]))})
	}
	vrt.Quiesce()
	Settle()
	w := want{}
	w.add(tables["a:p2"])
	w.add(tables["b:p3"])
	if len(ks) != 2 {
		vrt.Fail("C17", "a registration did not finish: %v", vrt.LiveGs())
	}
	for _, k := range ks {
		if e := w.wrong(k.rc); e != "" {
			vrt.Fail("C17", "after concurrent updates, %s: %s", k.label, e)
		}
	}
	var d []string
	for _, k := range ks {
		d = append(d, hz.RetryString(k.rc))
	}
	sort.Strings(d)
	x.State(d)
	s.M.Close()
}

func main() {
	mc.Main(&mc.Check{
		Property: "C17",
		Init:     hz.InstallProxy,
		Assumptions: []string{
			"a cluster that several routes name with different policies may have any of them; a destination without a retry policy may have none or one without attempts",
			"after a table expired the policies are not judged until the next update, except those of a container created then",
			"per-try timeouts and back-offs are whole milliseconds; attempts, error rates and back-offs are within the ranges Kitex accepts",
		},
		Scenarios: func(tier string) []*mc.Scenario {
			d, dn, bnd := 4, 4, 3
			ns := []int{1, 2, 5, 16, 33, 120}
			if tier == "thorough" {
				ns = []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 256, 257, 600}
				d, dn, bnd = 5, 6, 4
			}
			return []*mc.Scenario{
				{Name: "derivation", Body: derivation, Bounds: "401 retry policies (4 attempts x 5 per-try timeouts x 5 back-offs x 4 error rates, with methods; none), every ordered pair in successive tables, then partial updates"},
				{Name: "many", Body: many(ns), Bounds: fmt.Sprintf("%v destinations of 5 kinds of names in five successive updates; 4 shapes of tables, 3 subsets kept, 3 subsets changed, also for a container created after each", ns)},
				Scen("histories", conf(d, 1, []string{"t1", "t2"}, wide)),
				Scen("late-subscription", conf(d-1, 0, nil, wide)),
				Scen("replacements", conf(dn, 0, []string{"t1", "t2"}, narrow)),
				{Name: "concurrent", Opts: vrt.Opts{UnlockPoints: true}, Bound: bnd, Body: race(tier == "thorough"), Bounds: "all schedules with at most the bound's deviations: three partial updates, a registration (and a lookup in the thorough tier)"},
			}
		},
	})
}
