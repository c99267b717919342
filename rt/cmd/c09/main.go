// C09: weighted clusters are selected in proportion to their weights.
//
// Every random draw the code makes is intercepted and enumerated, so that the
// exact probability of every outcome is known.
package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"

	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3http "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/mc"
	"github.com/kitex-contrib/xds/verifrt/vrt"
	"github.com/kitex-contrib/xds/xdssuite"
)

const absent = -1 // a cluster whose weight is not given

type env struct {
	x    *mc.X
	r    *xdssuite.XDSRouter
	lis  *xdsresource.ListenerResource
	rc   xdsresource.Resource
	n, i int
}

func (e *env) get(t xdsresource.ResourceType, name string) (interface{}, error) {
	if t == hz.LDS && e.lis != nil {
		return e.lis, nil
	}
	if t == hz.RDS && e.rc != nil {
		return e.rc, nil
	}
	return nil, errors.New("no such resource")
}

func newEnv(x *mc.X) *env {
	e := &env{x: x}
	hz.Px.Cur = &hz.Src{F: e.get}
	e.r = xdssuite.NewXDSRouter()
	return e
}

func (e *env) next() bool {
	e.i++
	return e.i%e.x.Shards == e.x.Shard && !e.x.Expired()
}

func wv(w int64) *wrapperspb.UInt32Value {
	if w == absent {
		return nil
	}
	return wrapperspb.UInt32(uint32(w))
}

// how a route lists its clusters
const (
	named = iota
	inline
	thrift
	nHow
)

func (e *env) load(how int, ra *v3route.RouteAction, ta *v3thrift.RouteAction) {
	e.lis, e.rc = nil, nil
	rc := &v3route.RouteConfiguration{Name: "rc", VirtualHosts: []*v3route.VirtualHost{{Routes: []*v3route.Route{{
		Match:  &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}},
		Action: &v3route.Route_Route{Route: ra}}}}}}
	h := hz.HCMRds("rc")
	var fs []*v3listener.Filter
	switch how {
	case inline:
		h.RouteSpecifier = &v3http.HttpConnectionManager_RouteConfig{RouteConfig: rc}
	case thrift:
		tp := &v3thrift.ThriftProxy{RouteConfig: &v3thrift.RouteConfiguration{Routes: []*v3thrift.Route{{
			Match: &v3thrift.RouteMatch{MatchSpecifier: &v3thrift.RouteMatch_MethodName{}}, Route: ta}}}}
		fs = append(fs, &v3listener.Filter{ConfigType: &v3listener.Filter_TypedConfig{TypedConfig: hz.Any(xdsresource.ThriftProxyTypeURL, tp)}})
	default:
		m, err := xdsresource.UnmarshalRDS([]*anypb.Any{hz.Any(hz.URL(hz.RDS), rc)})
		if err != nil {
			vrt.Fail("C09", "route table %v was not decoded: %v", rc, err)
			return
		}
		e.rc = m["rc"]
	}
	fs = append(fs, hz.HCMFilter(h))
	m, err := xdsresource.UnmarshalLDS([]*anypb.Any{hz.Any(hz.URL(hz.LDS), &v3listener.Listener{Name: "svc", FilterChains: []*v3listener.FilterChain{{Filters: fs}}})})
	if err != nil {
		vrt.Fail("C09", "listener was not decoded: %v", err)
		return
	}
	e.lis = m["svc"]
}

func action(names []string, ws []int64) (*v3route.RouteAction, *v3thrift.RouteAction) {
	wc, tc := &v3route.WeightedCluster{}, &v3thrift.WeightedCluster{}
	for i := range ws {
		wc.Clusters = append(wc.Clusters, &v3route.WeightedCluster_ClusterWeight{Name: names[i], Weight: wv(ws[i])})
		tc.Clusters = append(tc.Clusters, &v3thrift.WeightedCluster_ClusterWeight{Name: names[i], Weight: wv(ws[i])})
	}
	return &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_WeightedClusters{WeightedClusters: wc}},
		&v3thrift.RouteAction{ClusterSpecifier: &v3thrift.RouteAction_WeightedClusters{WeightedClusters: tc}}
}

// pick routes one call with the given draws; it returns the cluster and the
// ranges of all draws the code made.
func (e *env) pick(draws []uint64) (out string, ranges []uint64, err error) {
	vrt.SetDraw(func(n uint64) (uint64, bool) {
		i := len(ranges)
		ranges = append(ranges, n)
		if i < len(draws) {
			return draws[i], true
		}
		return 0, true
	})
	defer vrt.SetDraw(nil)
	e.n++
	rpc := hz.Call{To: "svc", Svc: "S", Method: "m"}.New()
	res, err := e.r.Route(context.Background(), rpc.RI)
	if err != nil {
		return "", ranges, err
	}
	if res == nil {
		return "", ranges, errors.New("no result")
	}
	return res.ClusterPicked, ranges, nil
}

const small = 1 << 13

type dist map[string]float64

// spread adds the outcome distribution of the draws continuing prefix, given
// that the last range is known to be n (0: any 64-bit value).
func (e *env) explore(prefix []uint64, total uint64, exact *bool, see func(string, []uint64, error)) dist {
	out, ranges, err := e.pick(prefix)
	if len(ranges) <= len(prefix) {
		see(out, prefix, err)
		return dist{out: 1}
	}
	n := ranges[len(prefix)]
	at := func(v uint64) dist {
		if len(prefix) >= 3 {
			*exact = false
			o, _, err := e.pick(append(append([]uint64{}, prefix...), v))
			see(o, prefix, err)
			return dist{o: 1}
		}
		return e.explore(append(append([]uint64{}, prefix...), v), total, exact, see)
	}
	if n != 0 && n <= small {
		d := dist{}
		for v := uint64(0); v < n; v++ {
			for k, p := range at(v) {
				d[k] += p / float64(n)
			}
		}
		return d
	}
	if n != total {
		*exact = false
	}
	// a large range: the outcome as a function of the draw is piecewise
	// constant (sorted pieces), or periodic with the total weight
	max := n - 1
	pts := map[uint64]bool{0: true, 1: true, max: true, max - 1: true}
	for i := uint64(1); i < 64; i++ {
		pts[max/64*i] = true
	}
	for _, b := range e.bounds() {
		f := uint64(float64(b) / float64(total) * float64(max))
		if n == total {
			f = b
		}
		for _, v := range []uint64{f - 2, f - 1, f, f + 1, f + 2, b - 1, b, b + 1} {
			if v <= max {
				pts[v] = true
			}
		}
	}
	var xs []uint64
	for v := range pts {
		xs = append(xs, v)
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i] < xs[j] })
	key := func(d dist) string {
		var l []string
		for k, p := range d {
			l = append(l, fmt.Sprint(k, "=", p))
		}
		sort.Strings(l)
		return strings.Join(l, ",")
	}
	d := dist{}
	add := func(x dist, cnt float64) {
		for k, p := range x {
			d[k] += p * cnt / (float64(max) + 1)
		}
	}
	cur := at(xs[0])
	from := xs[0]
	for _, y := range xs[1:] {
		nd := at(y)
		for key(nd) != key(cur) {
			// smallest value in (from, y] with another outcome
			lo, hi := from, y
			for hi-lo > 1 {
				mid := lo + (hi-lo)/2
				if key(at(mid)) == key(cur) {
					lo = mid
				} else {
					hi = mid
				}
			}
			add(cur, float64(hi-from))
			cur, from = at(hi), hi
		}
		add(cur, float64(y-from))
		from = y
	}
	add(cur, 1)
	if n != total && total <= small {
		p := dist{}
		for v := uint64(0); v < total; v++ {
			for k, q := range at(v) {
				p[k] += q / float64(total)
			}
		}
		if e.fits(p, 1e-6) {
			return p
		}
	}
	return d
}

var cur struct {
	names []string
	ws    []int64
	total uint64
}

func (e *env) bounds() (out []uint64) {
	s := uint64(0)
	for _, w := range cur.ws {
		if w > 0 {
			s += uint64(w)
		}
		out = append(out, s)
	}
	return
}

func want() dist {
	d := dist{}
	for i, w := range cur.ws {
		if w > 0 {
			d[cur.names[i]] += float64(w) / float64(cur.total)
		}
	}
	return d
}

func (e *env) fits(d dist, tol float64) bool {
	w := want()
	for k := range d {
		if math.Abs(d[k]-w[k]) > tol {
			return false
		}
	}
	for k := range w {
		if math.Abs(d[k]-w[k]) > tol {
			return false
		}
	}
	return true
}

func (e *env) check(how int, names []string, ws []int64) {
	cur.names, cur.ws, cur.total = names, ws, 0
	for _, w := range ws {
		if w > 0 {
			cur.total += uint64(w)
		}
	}
	ra, ta := action(names, ws)
	e.load(how, ra, ta)
	what := fmt.Sprintf("clusters %v with weights %v (%s)", names, ws, []string{"named table", "inline table", "thrift"}[how])
	if len(ws) == 1 {
		o, _, err := e.pick(nil)
		if err != nil || o != names[0] {
			vrt.Fail("C09", "%s: got %q, %v", what, o, err)
		}
		e.x.State("single")
		return
	}
	zero := map[string]bool{}
	for i, w := range ws {
		if w <= 0 {
			zero[names[i]] = true
		}
	}
	for i, w := range ws {
		if w > 0 {
			delete(zero, names[i])
		}
	}
	exact := true
	d := e.explore(nil, cur.total, &exact, func(o string, draws []uint64, err error) {
		if cur.total == 0 {
			if err == nil {
				vrt.Fail("C09", "%s: cluster %q was picked though there is nothing to pick", what, o)
			}
			return
		}
		if err != nil {
			vrt.Fail("C09", "%s: error %v for draws %v", what, err, draws)
		}
		if zero[o] {
			vrt.Fail("C09", "%s: cluster %q of weight 0 was picked for draws %v", what, o, draws)
		}
		if _, ok := want()[o]; !ok {
			vrt.Fail("C09", "%s: unlisted cluster %q was picked for draws %v", what, o, draws)
		}
	})
	if cur.total == 0 {
		e.x.State("none")
		return
	}
	tol := 1e-6
	if exact {
		tol = 1e-9
		if cur.total > small {
			tol = 0.5/float64(cur.total) + 1e-14
		}
	}
	if !e.fits(d, tol) {
		vrt.Fail("C09", "%s: probabilities are %v, expected %v", what, d, want())
	}
	e.x.State(fmt.Sprint(want()))
	if e.x.WantSample() {
		e.x.Sample(fmt.Sprintf("%s: probabilities %v", what, d))
	}
}

var letters = []string{"a", "b", "c", "d", "e", "f"}

func vectors(n int, vals []int64, f func([]int64)) {
	idx := make([]int, n)
	for {
		ws := make([]int64, n)
		for i, k := range idx {
			ws[i] = vals[k]
		}
		f(ws)
		i := n - 1
		for ; i >= 0; i-- {
			if idx[i]++; idx[i] < len(vals) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func space(lens []int, vals []int64) func(x *mc.X) {
	return func(x *mc.X) {
		e := newEnv(x)
		for _, n := range lens {
			vectors(n, vals, func(ws []int64) {
				for how := 0; how < nHow; how++ {
					if e.next() {
						e.check(how, letters[:n], ws)
					}
				}
			})
		}
		x.Input(e.n)
	}
}

// many: many clusters, with the weight anywhere.
func many(ns []int) func(x *mc.X) {
	return func(x *mc.X) {
		e := newEnv(x)
		for _, n := range ns {
			names := make([]string, n)
			for i := range names {
				names[i] = fmt.Sprintf("outbound|80|v%d|svc.default.svc.cluster.local", i)
			}
			vec := func(f func(i int) int64) []int64 {
				ws := make([]int64, n)
				for i := range ws {
					ws[i] = f(i)
				}
				return ws
			}
			vs := [][]int64{
				vec(func(i int) int64 { return 1 }), vec(func(i int) int64 { return int64(i) }), vec(func(i int) int64 { return int64(n - 1 - i) }),
				vec(func(i int) int64 { return int64(i % 3) }), vec(func(i int) int64 { return 0 }), vec(func(i int) int64 { return int64(1 + 17*i%23) }),
			}
			for k := 0; k < n; k += 1 + n/12 {
				k := k
				vs = append(vs, vec(func(i int) int64 {
					if i == k {
						return 100
					}
					return 0
				}), vec(func(i int) int64 {
					if i == k {
						return 0
					}
					return 2
				}))
			}
			for _, ws := range vs {
				for how := 0; how < nHow; how++ {
					if e.next() {
						e.check(how, names, ws)
					}
				}
			}
		}
		x.Input(e.n)
	}
}

// repeated: the same cluster listed several times.
func repeated(x *mc.X) {
	e := newEnv(x)
	for _, names := range [][]string{{"a", "a"}, {"a", "b", "a"}, {"b", "a", "a", "b"}} {
		vectors(len(names), []int64{absent, 0, 1, 2, 60}, func(ws []int64) {
			for how := 0; how < nHow; how++ {
				if e.next() {
					e.check(how, names, ws)
				}
			}
		})
	}
	x.Input(e.n)
}

// none: routes without any cluster, and single-cluster routes.
func none(x *mc.X) {
	e := newEnv(x)
	type pair struct {
		ra   *v3route.RouteAction
		ta   *v3thrift.RouteAction
		want string
	}
	e1, e2 := action(nil, nil)
	for _, p := range []pair{
		{&v3route.RouteAction{}, &v3thrift.RouteAction{}, ""},
		{e1, e2, ""},
		{&v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_ClusterHeader{ClusterHeader: "h"}}, &v3thrift.RouteAction{ClusterSpecifier: &v3thrift.RouteAction_ClusterHeader{ClusterHeader: "h"}}, ""},
		{&v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_Cluster{Cluster: "a"}}, &v3thrift.RouteAction{ClusterSpecifier: &v3thrift.RouteAction_Cluster{Cluster: "a"}}, "a"},
	} {
		for how := 0; how < nHow; how++ {
			e.load(how, p.ra, p.ta)
			o, _, err := e.pick(nil)
			if p.want == "" && err == nil || p.want != "" && (err != nil || o != p.want) {
				vrt.Fail("C09", "route %v (%d): got %q, %v; expected %q", p.ra, how, o, err, p.want)
			}
			e.x.State(p.want, err != nil)
		}
	}
	x.Input(e.n)
}

func main() {
	mc.Main(&mc.Check{
		Property: "C09",
		Init:     hz.InstallProxy,
		Assumptions: []string{
			"random draws come from the fastrand or math/rand packages, which are uniform",
			"for draws over more than 8192 values the outcome is a piecewise constant or a periodic function of the draw",
		},
		Scenarios: func(tier string) []*mc.Scenario {
			l3, l4, l5 := []int64{absent, 0, 1, 2, 3, 7, 50, 99, 100, 101}, []int64{0, 1, 2, 50}, []int64{0, 1, 3}
			big := []int64{0, 1, 5000, 1 << 31, 1<<32 - 1}
			lb := []int{2, 3}
			ns := []int{7, 8, 9, 10, 16, 17, 33, 65}
			if tier == "thorough" {
				l3 = append(l3, 4, 5, 33, 1000)
				l4, l5 = []int64{absent, 0, 1, 2, 10, 50, 97}, []int64{0, 1, 3, 20}
				big = append(big, 2, 10000, 1<<31-1, 1<<32-2)
				lb = []int{2, 3, 4}
				ns = append(ns, 100, 101, 128, 129)
			}
			b := func(n, v interface{}) string {
				return fmt.Sprintf("all vectors of %v clusters with weights out of %v (-1: absent), in named, inline and Thrift routes; every random draw", n, v)
			}
			return []*mc.Scenario{
				{Name: "none", Shards: 1, Body: none, Bounds: "routes without clusters and with one"},
				{Name: "small", Shards: 16, Body: space([]int{1, 2, 3}, l3), Bounds: b("1..3", l3)},
				{Name: "four", Shards: 16, Body: space([]int{4}, l4), Bounds: b(4, l4)},
				{Name: "five-six", Shards: 16, Body: space([]int{5, 6}, l5), Bounds: b("5..6", l5)},
				{Name: "big", Shards: 16, Body: space(lb, big), Bounds: b(lb, big)},
				{Name: "many", Shards: 16, Body: many(ns), Bounds: fmt.Sprintf("%v clusters, equal, rising, falling, mixed weights, all weight in one place, no weight in one place; every random draw", ns)},
				{Name: "repeated", Shards: 8, Body: repeated, Bounds: b("2..4, some the same,", "absent, 0, 1, 2, 60")},
			}
		},
	})
}
