// C07: concurrent use is linearizable, free of races and deadlocks; handlers
// run before the data they belong to is exposed.
package main

import (
	"context"
	"fmt"
	"net"
	"sort"
	"strings"
	"time"

	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3matcher "github.com/envoyproxy/go-control-plane/envoy/type/matcher/v3"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	. "github.com/kitex-contrib/xds/verifrt/hist"
	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/mc"
	"github.com/kitex-contrib/xds/verifrt/vrt"
	"github.com/kitex-contrib/xds/xdssuite"
)

const (
	vi  = "virtualInbound"
	ms  = time.Millisecond
	inf = 1 << 60
)

var types = []T{hz.CDS, hz.EDS, hz.RDS, hz.LDS}

// handler is a registered update handler.
type handler struct {
	reg  int             // step at which the registration returned
	done map[string]bool // "name=stamp" of completed calls
}

type rig struct {
	*hz.Sys
	x     *mc.X
	sv    *hz.Server
	t     T
	out   *hz.ClientOut
	lim   *hz.Limiter
	hs    []*handler
	looks []*hz.Look
	tasks int // unfinished other operations
	d     string
	drops bool
	slack time.Duration
}

func raw(t T, n string) string {
	if t == hz.LDS {
		return map[string]string{"a": "1.1.1.1_80", "b": "2.2.2.2_80", "c": "3.3.3.3_80", vi: vi}[n]
	}
	return n
}

var table = map[string][]string{
	"a.default.svc.cluster.local": {"1.1.1.1"}, "b.default.svc.cluster.local": {"2.2.2.2"}, "c.default.svc.cluster.local": {"3.3.3.3"}}

func (r *rig) update(n, v string) { r.sv.Update(r.t, raw(r.t, n), v) }

// register adds a handler which lets others run while it works.
func (r *rig) register() {
	h := &handler{reg: inf, done: map[string]bool{}}
	r.hs = append(r.hs, h)
	r.M.RegisterXDSUpdateHandler(r.t, func(m map[string]xdsresource.Resource) {
		var ks []string
		for k, v := range m {
			ks = append(ks, k+"="+hz.StampOf(r.t, v))
		}
		sort.Strings(ks)
		vrt.Point("handler")
		for _, k := range ks {
			h.done[k] = true
		}
		vrt.Point("handler done")
	})
	h.reg = vrt.Steps()
}

func start(x *mc.X, t T) *rig {
	r := &rig{Sys: hz.Start(x, hz.Cfg{}), x: x, t: t, slack: 2 * ms}
	vrt.Quiesce()
	r.sv = hz.Serve(r.CP)
	r.sv.Table, r.sv.Serial, r.sv.Build = table, true, hz.Rich
	r.sv.Set(hz.LDS, vi, "x")
	for _, n := range []string{"a", "b", "c"} {
		r.sv.Set(t, raw(t, n), "x")
	}
	r.Boot(table, hz.Rich(hz.LDS, vi, "s0"))
	hz.Px.Cur = r.M
	r.out = hz.ApplyClient(xdssuite.NewCircuitBreaker(xdssuite.WithServiceCircuitBreak(true)), xdssuite.NewRetryPolicy())
	r.lim = &hz.Limiter{Opt: hz.ApplyServer(xdssuite.NewLimiter())}
	r.lim.Start()
	r.register()
	r.OnLook = r.exposed
	return r
}

// warm: a is idle and evicted by the sweep in 1 ms, b was used lately, c was
// never looked up.
func (r *rig) warm() {
	t0 := vrt.Now()
	r.look("a")
	r.look("b")
	vrt.Quiesce()
	vrt.Advance(45 * time.Second)
	r.look("b")
	vrt.Quiesce()
	for _, l := range r.looks {
		if !l.OK() {
			vrt.Fail("", "set-up: %v", l)
		}
	}
	NextSweep(t0, ms)
}

func (r *rig) look(n string) { r.lookT(r.t, n) }

func (r *rig) lookT(t T, n string) { r.looks = append(r.looks, r.Look(t, n)) }

func (r *rig) task(name string, f func()) {
	r.tasks++
	vrt.GoN(name, func() {
		f()
		r.tasks--
	})
}

// later reports whether a response about the name after the one stamped s was
// received.
func (r *rig) later(t T, n, s string) (upd, gone bool) {
	seen := false
	for _, q := range r.sv.Sent {
		if q.T != t {
			continue
		}
		if _, ok := q.Received(); ok && seen {
			if q.Has(raw(t, n)) {
				upd = true
			} else if t == hz.LDS || t == hz.CDS {
				gone = true
			}
		}
		seen = seen || q.Stamp == s
	}
	return
}

// exposed runs in the goroutine of a lookup which just returned.
func (r *rig) exposed(l *hz.Look) {
	if l.Err != nil || l.Panic != "" {
		return
	}
	s := l.Stamp()
	for i, h := range r.hs {
		if l.T == r.t && h.reg < l.BegStep && !h.done[l.Name+"="+s] {
			vrt.Fail("C07", "%s: %v, but handler %d has not completed for the update that delivered it", r.d, l, i)
		}
	}
	var k int64
	fmt.Sscanf(s, "s%d", &k)
	upd, gone := r.later(l.T, l.Name, s)
	if upd || gone {
		return // a newer policy may be in force
	}
	switch l.T {
	case hz.CDS:
		if c := hz.CBConfigs(r.out.CB)[l.Name]; !c.Enable || c.MinSample != k+1 {
			vrt.Fail("C07", "%s: %v, but the circuit breaker is %+v", r.d, l, c)
		}
	case hz.RDS:
		if _, ok := hz.RetryPolicies(r.out.Retry)["c-"+s]; !ok {
			vrt.Fail("C07", "%s: %v, but the retry policies are %v", r.d, l, hz.RetryPolicies(r.out.Retry))
		}
	case hz.LDS:
		if l.Name == vi && r.lim.QPS != int(k)+10 {
			vrt.Fail("C07", "%s: %v, but the limit is %d", r.d, l, r.lim.QPS)
		}
	}
}

// ---- linearizability ----

type write struct {
	stamp  string // "": the name is absent
	lo, hi int    // the steps between which it took effect
}

// writes is the sequence of contents of a name, as delivered.
func (r *rig) writes(t T, n string) []write {
	var ws []write
	var rs []*hz.Resp
	for _, q := range r.sv.Sent {
		if _, ok := q.Received(); ok && q.T == t {
			rs = append(rs, q)
		}
	}
	sort.SliceStable(rs, func(i, j int) bool {
		a, _ := rs[i].Received()
		b, _ := rs[j].Received()
		return a.Step < b.Step
	})
	for _, q := range rs {
		w := write{lo: 0, hi: inf}
		m, _ := q.Received()
		w.lo = m.Step
		if a := q.St.Accepted(q.K); a != nil {
			w.hi = a.Step
		}
		if q.Has(raw(t, n)) {
			w.stamp = q.Stamp
		} else if t != hz.LDS && t != hz.CDS {
			continue
		}
		ws = append(ws, w)
	}
	return ws
}

// read is an operation which saw a content.
type read struct {
	stamp    string
	beg, end int
}

// order decides whether reads can be put, in their real-time order, into a
// sequence of contents.
func (r *rig) order(what string, ws []write, ls []read) {
	at := map[string]int{}
	for i, w := range ws {
		if w.stamp != "" {
			at[w.stamp] = i
		}
	}
	lo := make([]int, len(ws)+1)
	hi := make([]int, len(ws)+1)
	for i := range ws {
		lo[i], hi[i] = ws[i].lo, ws[i].hi
	}
	for _, l := range ls {
		k, ok := at[l.stamp]
		if !ok {
			vrt.Fail("C07", "%s: %s: %q was never delivered; contents %+v", r.d, what, l.stamp, ws)
			return
		}
		if l.end < hi[k] {
			hi[k] = l.end
		}
		if k+1 < len(ws) && l.beg > lo[k+1] {
			lo[k+1] = l.beg
		}
	}
	p := 0 // the earliest step at which content i can have taken effect
	for i := range ws {
		if lo[i] > p {
			p = lo[i]
		}
		if p > hi[i] {
			vrt.Fail("C07", "%s: no order of the operations explains %s: %+v; contents %+v", r.d, what, ls, ws)
			return
		}
	}
}

// linear is order for the lookups of a name.
func (r *rig) linear(t T, n string, sweeps bool) {
	ws := r.writes(t, n)
	var ls []read
	for _, l := range r.looks {
		if l.T != t || l.Name != n || !l.Done {
			continue
		}
		if l.Err != nil {
			if !sweeps {
				r.absent(l, ws)
			}
			continue
		}
		ls = append(ls, read{l.Stamp(), l.BegStep, l.EndStep})
	}
	r.order(fmt.Sprintf("the lookups of %s %q", hz.TName(t), n), ws, ls)
}

// absent: a lookup which ended without a value, no content having been
// evicted, must have seen the name absent.
func (r *rig) absent(l *hz.Look, ws []write) {
	if len(ws) == 0 || ws[0].lo >= l.BegStep {
		return
	}
	for i, w := range ws {
		if w.hi >= l.BegStep {
			return
		}
		if w.stamp == "" && (i+1 == len(ws) || ws[i+1].hi >= l.BegStep) {
			return
		}
	}
	vrt.Fail("C07", "%s: %v though the resource was there all the time", r.d, l)
}

// end lets everything finish and judges.
func (r *rig) end(sweeps bool) {
	vrt.Quiesce()
	Settle()
	if r.CP.Concur != "" {
		vrt.Fail("C07", "%s: %s", r.d, r.CP.Concur)
	}
	// nothing waits for anything but the control plane's missing content
	for _, l := range r.looks {
		if !l.Done && (!r.drops || l.Name != "a") {
			vrt.Fail("C07", "%s: %v, nothing can run (%v)", r.d, l, vrt.LiveGs())
		}
	}
	if r.tasks != 0 {
		vrt.Fail("C07", "%s: %d operations are stuck: %v", r.d, r.tasks, vrt.LiveGs())
	}
	vrt.Advance(1100 * ms)
	vrt.Quiesce()
	d := ""
	for _, l := range r.looks {
		if !l.Done || l.Panic != "" {
			vrt.Fail("C07", "%s: %v (%v)", r.d, l, vrt.LiveGs())
		}
		d += l.String() + " "
	}
	// everything still works
	r.sv.Set(r.t, raw(r.t, "c"), "y")
	for _, n := range []string{"a", "b", "c"} {
		r.update(n, "y")
	}
	vrt.Quiesce()
	st := r.CP.Live()
	if st == nil || !st.Idle() {
		vrt.Fail("C07", "%s: the client stopped receiving (%v)", r.d, vrt.LiveGs())
	}
	for _, n := range []string{"a", "b", "c"} {
		r.look(n)
	}
	r.task("dump", r.M.Dump)
	vrt.Quiesce()
	for _, l := range r.looks[len(r.looks)-3:] {
		if !l.OK() {
			vrt.Fail("C07", "%s: afterwards %v (%v)", r.d, l, vrt.LiveGs())
		}
	}
	if r.tasks != 0 {
		vrt.Fail("C07", "%s: afterwards operations are stuck: %v", r.d, vrt.LiveGs())
	}
	for _, n := range []string{"a", "b", "c", vi} {
		r.linear(r.t, n, sweeps)
	}
	r.x.State(r.d, d)
	r.M.Close()
}

// ---- mixes ----

// suite creates another user of the updates.
func (r *rig) suite() {
	r.task("suite", func() {
		switch r.t {
		case hz.CDS:
			hz.ApplyClient(xdssuite.NewCircuitBreaker())
		case hz.RDS:
			hz.ApplyClient(xdssuite.NewRetryPolicy())
		case hz.LDS:
			l := &hz.Limiter{Opt: hz.ApplyServer(xdssuite.NewLimiter(xdssuite.WithServicePort(80)))}
			l.Start()
		}
	})
}

// suites: users are created while an update arrives.
func suites(x *mc.X) {
	t := []T{hz.CDS, hz.RDS, hz.LDS}[vrt.Choose(3)]
	r := start(x, t)
	r.d = hz.TName(t) + " suite"
	n := "a"
	if t == hz.LDS {
		n = vi
	}
	r.look("a")
	vrt.Quiesce()
	vrt.Region(true)
	r.suite()
	r.update(n, "x")
	r.end(false)
}

type act struct {
	name string
	ts   string
	do   func(r *rig)
}

var acts = []act{
	{"-", "", func(r *rig) {}},
	{"get a", "", func(r *rig) { r.look("a") }},
	{"get c", "", func(r *rig) { r.look("c") }},
	{"read b b", "", func(r *rig) {
		r.task("reader", func() {
			l := r.Look(r.t, "b")
			r.looks = append(r.looks, l)
			vrt.WaitUntil(func() bool { return l.Done }, "first read")
			r.looks = append(r.looks, r.Look(r.t, "b"))
		})
	}},
	{"upd a", "", func(r *rig) { r.update("a", "x") }},
	{"upd b", "", func(r *rig) { r.update("b", "x") }},
	{"drop a", "CDS LDS", func(r *rig) {
		r.drops = true
		r.update("a", "")
	}},
	{"register", "", func(r *rig) { r.task("register", r.register) }},
	{"suite", "CDS RDS LDS", (*rig).suite},
	{"dump", "", func(r *rig) { r.task("dump", r.M.Dump) }},
	{"reset", "", func(r *rig) {
		if st := r.CP.Live(); st != nil {
			st.Break(hz.ErrReset)
		}
	}},
	{"table", "LDS", func(r *rig) {
		if st := r.CP.Live(); st != nil {
			st.Push(hz.URL(hz.NDS), hz.Table(table))
		}
	}},
	{"get vi", "LDS", func(r *rig) { r.look(vi) }},
	{"upd vi", "LDS", func(r *rig) { r.update(vi, "x") }},
}

// mix runs up to n operations concurrently with the sweep.
func mix(n int) func(x *mc.X) {
	return func(x *mc.X) {
		t := types[vrt.Choose(len(types))]
		var menu []act
		for _, a := range acts {
			if a.ts == "" || strings.Contains(a.ts, hz.TName(t)) {
				menu = append(menu, a)
			}
		}
		d := hz.TName(t)
		var as []act
		for i := 0; i < n; i++ {
			a := menu[vrt.Choose(len(menu))]
			as = append(as, a)
			d += "," + a.name
			if a.name == "-" {
				break
			}
		}
		r := start(x, t)
		r.warm()
		r.d = d
		x.Op("%s", d)
		vrt.Region(true)
		for _, a := range as {
			a.do(r)
		}
		vrt.QuiesceUntil(func() bool { return false }, 2*ms)
		r.end(true)
	}
}

// versions: readers of one name while a sequence of updates arrives.
func versions(x *mc.X) {
	t := types[vrt.Choose(len(types))]
	r := start(x, t)
	r.d = hz.TName(t) + " updates and readers"
	r.look("a")
	vrt.Quiesce()
	cold := vrt.Choose(2) == 1
	vrt.Region(true)
	for i := 0; i < 2; i++ {
		r.task("reader", func() {
			for j := 0; j < 2; j++ {
				n := "a"
				if cold {
					n = "c"
				}
				l := r.Look(t, n)
				r.looks = append(r.looks, l)
				vrt.WaitUntil(func() bool { return l.Done }, "read")
			}
		})
		r.update("a", "x")
		r.update("c", "x")
	}
	r.end(false)
}

// all types at once.
func everything(x *mc.X) {
	r := start(x, hz.CDS)
	r.d = "all types"
	for _, t := range []T{hz.EDS, hz.RDS, hz.LDS} {
		r.sv.Set(t, raw(t, "a"), "x")
	}
	r.look("a")
	r.lookT(hz.EDS, "a")
	vrt.Quiesce()
	vrt.Region(true)
	r.sv.Update(hz.EDS, "a", "x")
	r.lookT(hz.RDS, "a")
	r.sv.Update(hz.CDS, "a", "x")
	r.lookT(hz.LDS, "a")
	r.task("dump", r.M.Dump)
	r.lookT(hz.EDS, "a")
	r.CP.Live().Break(hz.ErrReset)
	r.look("a")
	r.task("register", r.register)
	vrt.Quiesce()
	for _, t := range []T{hz.EDS, hz.RDS, hz.LDS} {
		r.linear(t, "a", false)
	}
	r.end(false)
}

// ---- traffic ----

var stampedBuild = map[T]func(name string, n uint32) *anypb.Any{
	hz.LDS: func(name string, n uint32) *anypb.Any {
		if name == vi {
			return hz.Rich(hz.LDS, vi, fmt.Sprint("s", n))
		}
		return hz.Any(hz.URL(hz.LDS), &v3listener.Listener{Name: name, FilterChains: []*v3listener.FilterChain{{Filters: []*v3listener.Filter{hz.HCMFilter(hz.HCMRds("r"))}}}})
	},
	hz.RDS: func(name string, n uint32) *anypb.Any {
		wc := func(c string) *v3route.WeightedCluster_ClusterWeight {
			return &v3route.WeightedCluster_ClusterWeight{Name: c, Weight: wrapperspb.UInt32(n)}
		}
		rt := func(hs ...*v3route.HeaderMatcher) *v3route.Route {
			return &v3route.Route{Match: &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}, Headers: hs},
				Action: &v3route.Route_Route{Route: &v3route.RouteAction{Timeout: durationpb.New(time.Duration(n) * ms),
					ClusterSpecifier: &v3route.RouteAction_WeightedClusters{WeightedClusters: &v3route.WeightedCluster{Clusters: []*v3route.WeightedCluster_ClusterWeight{wc("c1"), wc("c2")}}}}}}
		}
		h := &v3route.HeaderMatcher{Name: "k", HeaderMatchSpecifier: &v3route.HeaderMatcher_StringMatch{StringMatch: &v3matcher.StringMatcher{
			MatchPattern: &v3matcher.StringMatcher_SafeRegex{SafeRegex: &v3matcher.RegexMatcher{EngineType: &v3matcher.RegexMatcher_GoogleRe2{}, Regex: "^v.*$"}}}}}
		return hz.Any(hz.URL(hz.RDS), &v3route.RouteConfiguration{Name: name, VirtualHosts: []*v3route.VirtualHost{{Name: "vh", Routes: []*v3route.Route{rt(h), rt()}}}})
	},
	hz.CDS: func(name string, n uint32) *anypb.Any {
		return hz.Any(hz.URL(hz.CDS), &v3cluster.Cluster{Name: name, ClusterDiscoveryType: &v3cluster.Cluster_Type{Type: v3cluster.Cluster_EDS},
			EdsClusterConfig: &v3cluster.Cluster_EdsClusterConfig{ServiceName: "e"}})
	},
	hz.EDS: func(name string, n uint32) *anypb.Any {
		l := hz.CLA(name, []string{"1.0.0.1", "1.0.0.2"}, n)
		l.Endpoints = append(l.Endpoints, hz.CLA(name, []string{"1.0.0.3"}, n).Endpoints...)
		return hz.Any(hz.URL(hz.EDS), l)
	},
}

type call struct {
	beg, mid, end int
	done          bool
	route, eps    string // stamps
	err           string
}

// traffic: calls are routed and resolved while updates arrive.
func traffic(x *mc.X) {
	r := &rig{Sys: hz.Start(x, hz.Cfg{}), x: x, t: hz.RDS}
	vrt.Quiesce()
	r.sv = hz.Serve(r.CP)
	r.sv.Table, r.sv.Serial = table, true
	r.sv.Build = func(t T, name, stamp string) *anypb.Any {
		var n uint32
		fmt.Sscanf(stamp, "s%d", &n)
		return stampedBuild[t](name, n)
	}
	r.sv.Set(hz.LDS, vi, "x")
	r.sv.Set(hz.LDS, raw(hz.LDS, "a"), "x")
	r.sv.Set(hz.RDS, "r", "x")
	r.sv.Set(hz.CDS, "c1", "x")
	r.sv.Set(hz.CDS, "c2", "x")
	r.sv.Set(hz.EDS, "e", "x")
	r.Boot(table, hz.Rich(hz.LDS, vi, "s0"), stampedBuild[hz.LDS](raw(hz.LDS, "a"), 0))
	hz.Px.Cur = r.M
	router, resolver := xdssuite.NewXDSRouter(), xdssuite.NewXDSResolver()
	var draws uint64
	vrt.SetDraw(func(n uint64) (uint64, bool) {
		draws++
		return (draws * n / 2) % n, true
	})
	defer vrt.SetDraw(nil)
	var calls []*call
	do := func() {
		c := &call{}
		calls = append(calls, c)
		r.task("call", func() {
			c.beg = vrt.Steps()
			rpc := hz.Call{To: "a.default.svc.cluster.local:80", Svc: "S", Method: "m"}.New()
			res, err := router.Route(hz.Meta(map[string]string{"k": "v1"}), rpc.RI)
			c.mid = vrt.Steps()
			c.done = true
			if err != nil {
				c.err = err.Error()
				return
			}
			c.route = fmt.Sprint("s", int64(res.RPCTimeout/ms))
			if res.ClusterPicked != "c1" && res.ClusterPicked != "c2" {
				c.err = "cluster " + res.ClusterPicked
			}
			out, err := resolver.Resolve(context.Background(), res.ClusterPicked)
			c.end = vrt.Steps()
			if err != nil {
				c.err = err.Error()
				return
			}
			d := ""
			for _, i := range out.Instances {
				h, p, _ := net.SplitHostPort(i.Address().String())
				c.eps = "s" + p
				d += h + " "
				if "s"+p != "s"+strings.Split(out.Instances[0].Address().String(), ":")[1] {
					c.err = "endpoints of different contents"
				}
			}
			if d != "1.0.0.1 1.0.0.2 1.0.0.3 " {
				c.err = "endpoints " + d
			}
		})
	}
	cold := vrt.Choose(2) == 1
	if !cold {
		do()
		vrt.Quiesce()
		do()
		vrt.Quiesce()
	}
	ups := []struct {
		t T
		n string
	}{{hz.RDS, "r"}, {hz.EDS, "e"}, {hz.CDS, "c1"}, {hz.LDS, "a"}}
	i := vrt.Choose(len(ups) + 1)
	r.d = fmt.Sprintf("calls cold=%v with update %d", cold, i)
	x.Op("%s", r.d)
	vrt.Region(true)
	do()
	for j, u := range ups {
		if i == j || i == len(ups) {
			r.sv.Update(u.t, raw(u.t, u.n), "x")
		}
	}
	do()
	r.task("dump", r.M.Dump)
	vrt.Quiesce()
	Settle()
	if r.tasks != 0 {
		vrt.Fail("C07", "%s: %d operations are stuck: %v", r.d, r.tasks, vrt.LiveGs())
	}
	do()
	vrt.Quiesce()
	rw, ew := r.writes(hz.RDS, "r"), r.writes(hz.EDS, "e")
	d := ""
	var rl, el []read
	for _, c := range calls {
		if c.err != "" || !c.done || c.end == 0 {
			vrt.Fail("C07", "%s: a call failed: %+v (%v)", r.d, *c, vrt.LiveGs())
		}
		rl = append(rl, read{c.route, c.beg, c.mid})
		el = append(el, read{c.eps, c.mid, c.end})
		d += c.route + "/" + c.eps + " "
	}
	r.order("the routes used", rw, rl)
	r.order("the endpoints used", ew, el)
	x.State(r.d, d)
	r.M.Close()
}

func main() {
	mc.Main(&mc.Check{
		Property: "C07",
		Init:     hz.InstallProxy,
		Assumptions: []string{
			"schedules: every one with at most the bound's deviations from a deterministic default; interleavings at synchronisation operations (locks, channels, atomics, timers, contexts), the race detector covering plain memory accesses between them",
			"a content takes effect between the client's receipt of the response and its next receive",
			"the default port limiter of the suite, its circuit breakers and its retry policies are observed through Kitex's public containers",
		},
		Budget: func(tier string) time.Duration {
			if tier == "thorough" {
				return 620 * time.Second
			}
			return 90 * time.Second
		},
		Scenarios: func(tier string) []*mc.Scenario {
			th := tier == "thorough"
			te := vrt.Opts{UnlockPoints: true, TimerEarly: true, EarlyWithin: 2 * ms}
			o := vrt.Opts{UnlockPoints: true}
			sch := "all schedules with at most the bound's deviations from the default one: "
			var l []*mc.Scenario
			add := func(name string, b, tb int, o vrt.Opts, race bool, body func(x *mc.X), what string) {
				if th {
					b = tb
				}
				if b < 0 {
					return
				}
				if race {
					name += "-race"
					what += " (race detector on)"
				}
				l = append(l, &mc.Scenario{Name: name, Bound: b, Opts: o, Body: body, Race: race, Bounds: sch + what})
			}
			m := func(n int) string {
				return fmt.Sprintf("for every type, the sweep with up to %d others out of lookups of an idle, a used and a new name, updates, removal, registrations of handlers and suites, dump, reset, name table", n)
			}
			add("mix-1", 2, 3, te, false, mix(1), m(1))
			add("mix-2", 1, 2, te, false, mix(2), m(2))
			add("mix-3", 0, 1, te, false, mix(3), m(3))
			add("everything", -1, 2, o, false, everything, "lookups and updates of all types, a reset, a dump and a registration")
			add("suites", 2, 3, o, true, suites, "a circuit breaker, retry policy or limiter created while an update arrives")
			add("traffic", 1, 2, o, true, traffic, "calls routed and resolved on a warm or a cold cache, with an update of one type or of all, and a dump")
			add("mix-1", 1, 2, te, true, mix(1), m(1))
			add("mix-2", 0, 1, te, true, mix(2), m(2))
			add("mix-3", -1, 0, te, true, mix(3), m(3))
			add("versions", 1, 2, o, true, versions, "for every type, two readers of a name and two updates of it, known or new")
			add("everything", 1, 2, o, true, everything, "lookups and updates of all types, a reset, a dump and a registration")
			add("versions", 2, 3, o, false, versions, "for every type, two readers of a name and two updates of it, known or new")
			return l
		},
	})
}
