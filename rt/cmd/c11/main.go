// C11: decoding listeners and route tables preserves the control plane's
// meaning.
package main

import (
	"fmt"
	"strings"
	"time"

	udpatype "github.com/cncf/xds/go/udpa/type/v1"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3ratelimit "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/http/local_ratelimit/v3"
	v3http "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	v3matcher "github.com/envoyproxy/go-control-plane/envoy/type/matcher/v3"
	v3type "github.com/envoyproxy/go-control-plane/envoy/type/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/mc"
	"github.com/kitex-contrib/xds/verifrt/vrt"
)

// ---- summaries of the decoded resources ----

var probePaths = []string{"/S/m", "/S/M", "/p.S/m", "m", "M", "/", ""}
var probeMetas = func() (out []map[string]string) {
	vals := []string{"-", "", "v", "v1", "w"}
	for _, a := range vals {
		for _, b := range vals {
			m := map[string]string{}
			if a != "-" {
				m["k1"] = a
			}
			if b != "-" {
				m["k2"] = b
			}
			out = append(out, m)
		}
	}
	return
}()

func bits(n int, f func(i int) bool) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = '0'
		if f(i) {
			b[i] = '1'
		}
	}
	return string(b)
}

func sumRoute(r *xdsresource.Route) string {
	if r == nil || r.Match == nil {
		return "nil"
	}
	s := "path=" + bits(len(probePaths), func(i int) bool { return r.Match.MatchPath(probePaths[i]) })
	s += " meta=" + bits(len(probeMetas), func(i int) bool { return r.Match.MatchMeta(probeMetas[i]) })
	if tm, ok := r.Match.(*xdsresource.ThriftRouteMatch); ok && tm.ServiceName != "" {
		s = "service=" + tm.ServiceName + s[strings.Index(s, " "):]
	}
	s += " clusters="
	for _, w := range r.WeightedClusters {
		s += fmt.Sprintf("%s:%d,", w.Name, w.Weight)
	}
	p := r.RetryPolicy
	s += fmt.Sprintf(" timeout=%v retry=%s/%d/%v/%v/%v/%q", r.Timeout, p.RetryOn, p.NumRetries, p.PerTryTimeout, p.PerTryIdleTimeout, p.CBErrorRate, p.Methods)
	if b := p.RetryBackOff; b != nil {
		s += fmt.Sprintf("/%v-%v", b.BaseInterval, b.MaxInterval)
	}
	return s
}

func sumTable(r *xdsresource.RouteConfigResource) string {
	if r == nil {
		return "nil"
	}
	s := ""
	if t := r.ThriftRouteConfig; t != nil {
		s += "thrift("
		for _, x := range t.Routes {
			s += "{" + sumRoute(x) + "}"
		}
		s += ")"
	}
	if t := r.HTTPRouteConfig; t != nil {
		s += "http("
		for _, vh := range t.VirtualHosts {
			s += vh.Name + "["
			for _, x := range vh.Routes {
				s += "{" + sumRoute(x) + "}"
			}
			s += "]"
		}
		s += ")"
	}
	return s
}

func sumFilter(f *xdsresource.NetworkFilter) string {
	if f == nil {
		return "nil"
	}
	table, bucket := "", "0/0"
	if r := f.InlineRouteConfig; r != nil {
		table, bucket = sumTable(r), fmt.Sprintf("%d/%d", r.MaxTokens, r.TokensPerFill)
	}
	if table == "" {
		table = "named " + f.RouteConfigName
	}
	return fmt.Sprintf("filter%d port=%d bucket=%s %s", int(f.FilterType), f.RoutePort, bucket, table)
}

func sumListener(l *xdsresource.ListenerResource) string {
	if l == nil {
		return "nil"
	}
	var s []string
	for _, f := range l.NetworkFilters {
		s = append(s, sumFilter(f))
	}
	return strings.Join(s, " ;; ")
}

func compare(x *mc.X, err error, got, want map[string]string, sent fmt.Stringer) {
	if err != nil {
		vrt.Fail("C11", "a valid response was not decoded: %v; sent was %.3000s", err, hz.MapString(want))
		return
	}
	g, w := hz.MapString(got), hz.MapString(want)
	if g != w {
		vrt.Fail("C11", "decoded to {%.3000s}, sent was {%.3000s}", g, w)
	}
	x.State(w)
}

func decodeRDS(x *mc.X, rs []*anypb.Any, want map[string]string) {
	m, err := xdsresource.UnmarshalRDS(rs)
	got := map[string]string{}
	for k, v := range m {
		r, ok := v.(*xdsresource.RouteConfigResource)
		if !ok {
			got[k] = fmt.Sprintf("%T", v)
			continue
		}
		got[k] = sumTable(r)
	}
	compare(x, err, got, want, nil)
}

func decodeLDS(x *mc.X, rs []*anypb.Any, want map[string]string) {
	m, err := xdsresource.UnmarshalLDS(rs)
	got := map[string]string{}
	for k, v := range m {
		got[k] = sumListener(v)
	}
	compare(x, err, got, want, nil)
}

// ---- generators: a message and the summary it has to decode to ----

type hdr struct {
	h     *v3route.HeaderMatcher
	key   string
	holds func(string) bool
}

func str(name string, sm *v3matcher.StringMatcher) *v3route.HeaderMatcher {
	return &v3route.HeaderMatcher{Name: name, HeaderMatchSpecifier: &v3route.HeaderMatcher_StringMatch{StringMatch: sm}}
}

func hdrs() (out []hdr) {
	for _, k := range []string{"k1", "k2"} {
		out = append(out,
			hdr{str(k, &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_Exact{Exact: "v"}}), k, func(v string) bool { return v == "v" }},
			hdr{str(k, &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_Exact{}}), k, func(v string) bool { return v == "" }},
			hdr{str(k, &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_Prefix{Prefix: "v"}}), k, func(v string) bool { return strings.HasPrefix(v, "v") }},
			hdr{str(k, &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_SafeRegex{SafeRegex: &v3matcher.RegexMatcher{Regex: "^(v[0-9]|w)$"}}}), k, func(v string) bool { return v == "v1" || v == "w" }},
		)
	}
	return
}

var allHdrs = hdrs()

// genHeaders: up to max header conditions.
func genHeaders(c *mc.Chooser, max int) ([]*v3route.HeaderMatcher, string) {
	var hs []*v3route.HeaderMatcher
	var cs []hdr
	for n := c.Choose(max + 1); n > 0; n-- {
		h := allHdrs[c.Choose(len(allHdrs))]
		hs, cs = append(hs, h.h), append(cs, h)
	}
	return hs, bitsOf(cs...)
}

// bitsOf: which of the probes meet all conditions.
func bitsOf(cs ...hdr) string {
	return " meta=" + bits(len(probeMetas), func(i int) bool {
		for _, h := range cs {
			v, ok := probeMetas[i][h.key]
			if !ok || !h.holds(v) {
				return false
			}
		}
		return true
	})
}

type wsum struct{ c, r string }

// the clusters of a list have different names, but for those of a list that
// ends with a -2
var clusterLists = [][]int64{{0}, {7}, {3, 5, -2}, {5, 3, 1, -2}, {1, 0}, {50, 50}, {0, 100}, {-1, 3}, {1<<32 - 1, 1 << 31, 5}, {20, 30, 50}}

// genClusters: the destination of a route.
func genClusters(c *mc.Chooser) (*v3route.RouteAction, *v3thrift.RouteAction, string) {
	k := c.Choose(len(clusterLists) + 2)
	switch k {
	case 0:
		return &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_Cluster{Cluster: "one"}},
			&v3thrift.RouteAction{ClusterSpecifier: &v3thrift.RouteAction_Cluster{Cluster: "one"}}, "one:1,"
	case 1:
		return &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_WeightedClusters{WeightedClusters: &v3route.WeightedCluster{}}},
			&v3thrift.RouteAction{ClusterSpecifier: &v3thrift.RouteAction_WeightedClusters{WeightedClusters: &v3thrift.WeightedCluster{}}}, ""
	}
	wc, tc, s := &v3route.WeightedCluster{}, &v3thrift.WeightedCluster{}, ""
	ws, same := clusterLists[k-2], false
	if n := len(ws) - 1; ws[n] == -2 {
		ws, same = ws[:n], true
	}
	for i, w := range ws {
		var v *wrapperspb.UInt32Value
		if w >= 0 {
			v = wrapperspb.UInt32(uint32(w))
		} else {
			w = 0
		}
		n := fmt.Sprint("c", 9-i)
		if same {
			n = fmt.Sprint("c", i%2)
			if len(ws) == 2 {
				n = "c"
			}
		}
		wc.Clusters = append(wc.Clusters, &v3route.WeightedCluster_ClusterWeight{Name: n, Weight: v})
		tc.Clusters = append(tc.Clusters, &v3thrift.WeightedCluster_ClusterWeight{Name: n, Weight: v})
		s += fmt.Sprintf("%s:%d,", n, w)
	}
	return &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_WeightedClusters{WeightedClusters: wc}},
		&v3thrift.RouteAction{ClusterSpecifier: &v3thrift.RouteAction_WeightedClusters{WeightedClusters: tc}}, s
}

func exactIs(p string) string {
	return "path=" + bits(len(probePaths), func(i int) bool { return probePaths[i] == p })
}

// genPath: the path condition of a route.
func genPath(c *mc.Chooser, m *v3route.RouteMatch) string {
	switch c.Choose(4) {
	case 0:
		m.PathSpecifier = &v3route.RouteMatch_Prefix{Prefix: "/"}
		return "path=" + bits(len(probePaths), func(int) bool { return true })
	case 1:
		m.PathSpecifier = &v3route.RouteMatch_Path{Path: "/S/m"}
		return exactIs("/S/m")
	case 2:
		m.PathSpecifier = &v3route.RouteMatch_Path{Path: "/p.S/m"}
		return exactIs("/p.S/m")
	}
	m.PathSpecifier = &v3route.RouteMatch_Prefix{Prefix: "/S/"}
	return "path=" + bits(len(probePaths), func(int) bool { return false })
}

var durs = []time.Duration{-1, 0, time.Nanosecond, 150 * time.Millisecond, 2*time.Second + 5*time.Nanosecond, 48 * time.Hour}

func genDur(c *mc.Chooser, n int) (*durationpb.Duration, time.Duration) {
	d := durs[c.Choose(n)]
	if d < 0 {
		return nil, 0
	}
	return durationpb.New(d), d
}

func exactHeader(k, v string) *v3route.HeaderMatcher {
	return str(k, &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_Exact{Exact: v}})
}

// genRetry: the retry policy; full enumerates every field.
func genRetry(c *mc.Chooser, full bool) (*v3route.RetryPolicy, string) {
	if !full {
		switch c.Choose(3) {
		case 0:
			return nil, "/0/0s/0s/0/[]"
		case 1:
			return &v3route.RetryPolicy{RetryOn: "5xx", NumRetries: wrapperspb.UInt32(2), PerTryTimeout: durationpb.New(time.Second),
				RetryBackOff: &v3route.RetryPolicy_RetryBackOff{BaseInterval: durationpb.New(10 * time.Millisecond), MaxInterval: durationpb.New(30 * time.Millisecond)}}, "5xx/2/1s/0s/0/[]/10ms-30ms"
		}
		return &v3route.RetryPolicy{NumRetries: wrapperspb.UInt32(1), RetriableHeaders: []*v3route.HeaderMatcher{exactHeader("kitexRetryErrorRate", "0.2"), exactHeader("kitexRetryMethods", "m")}}, `/1/0s/0s/0.2/["m"]`
	}
	p := &v3route.RetryPolicy{}
	p.RetryOn = c.Str("", "5xx,reset", "gateway-error")
	n := []int64{-1, 0, 1, 3, 5, 100}[c.Choose(6)]
	if n >= 0 {
		p.NumRetries = wrapperspb.UInt32(uint32(n))
	} else {
		n = 0
	}
	var d1, d2 time.Duration
	p.PerTryTimeout, d1 = genDur(c, 5)
	p.PerTryIdleTimeout, d2 = genDur(c, 4)
	rate, methods := 0.0, "[]"
	e1, e2 := exactHeader("kitexRetryErrorRate", "0.25"), exactHeader("kitexRetryMethods", "m1,M2")
	other := exactHeader("x-other", "0.9")
	notExact := str("x-other", &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_Prefix{Prefix: "0.8"}})
	present := &v3route.HeaderMatcher{Name: "x-other", HeaderMatchSpecifier: &v3route.HeaderMatcher_PresentMatch{PresentMatch: true}}
	switch c.Choose(11) {
	case 8:
		p.RetriableHeaders, rate = []*v3route.HeaderMatcher{exactHeader("kitexRetryErrorRate", "1")}, 1
	case 9:
		p.RetriableHeaders, rate = []*v3route.HeaderMatcher{exactHeader("kitexRetryErrorRate", "0.5"), other}, 0.5
	case 10:
		p.RetriableHeaders, rate = []*v3route.HeaderMatcher{exactHeader("kitexRetryErrorRate", "0.0001")}, 0.0001
	case 1:
		p.RetriableHeaders, rate = []*v3route.HeaderMatcher{e1}, 0.25
	case 2:
		p.RetriableHeaders, methods = []*v3route.HeaderMatcher{e2}, `["m1" "M2"]`
	case 3:
		p.RetriableHeaders, rate, methods = []*v3route.HeaderMatcher{e1, e2}, 0.25, `["m1" "M2"]`
	case 4:
		p.RetriableHeaders, rate, methods = []*v3route.HeaderMatcher{other, e2, notExact, e1}, 0.25, `["m1" "M2"]`
	case 5:
		p.RetriableHeaders = []*v3route.HeaderMatcher{other, present}
	case 6:
		p.RetriableHeaders, methods = []*v3route.HeaderMatcher{present, exactHeader("kitexRetryErrorRate", "much"), exactHeader("kitexRetryMethods", "only")}, `["only"]`
	case 7:
		p.RetriableHeaders, rate = []*v3route.HeaderMatcher{notExact, exactHeader("kitexRetryErrorRate", "1e-1")}, 0.1
	}
	s := fmt.Sprintf("%s/%d/%v/%v/%v/%s", p.RetryOn, n, d1, d2, rate, methods)
	if k := c.Choose(17); k > 0 {
		k--
		b := &v3route.RetryPolicy_RetryBackOff{}
		var base, max time.Duration
		if base = durs[k/4]; base >= 0 {
			b.BaseInterval = durationpb.New(base)
		} else {
			base = 0
		}
		if max = durs[k%4]; max >= 0 {
			b.MaxInterval = durationpb.New(max)
		} else {
			max = 0
		}
		p.RetryBackOff = b
		s += fmt.Sprintf("/%v-%v", base, max)
	}
	return p, s
}

type bounds struct {
	headers int
	retry   bool // every retry field
	durs    int
	action  bool // other actions than a route
}

func genRoute(c *mc.Chooser, b bounds) (*v3route.Route, string) {
	m := &v3route.RouteMatch{}
	s := genPath(c, m)
	hs, hd := genHeaders(c, b.headers)
	m.Headers = hs
	s += hd
	if b.action && c.Bool() {
		r := &v3route.Route{Match: m, Action: &v3route.Route_Redirect{Redirect: &v3route.RedirectAction{}}}
		if c.Bool() {
			r.Action = &v3route.Route_DirectResponse{DirectResponse: &v3route.DirectResponseAction{Status: 404}}
		}
		return r, s + " clusters= timeout=0s retry=/0/0s/0s/0/[]"
	}
	ra, _, cs := genClusters(c)
	d, to := genDur(c, b.durs)
	ra.Timeout = d
	rp, rs := genRetry(c, b.retry)
	ra.RetryPolicy = rp
	return &v3route.Route{Name: "r", Match: m, Action: &v3route.Route_Route{Route: ra}}, s + fmt.Sprintf(" clusters=%s timeout=%v retry=%s", cs, to, rs)
}

func one(name string, r *v3route.Route) *v3route.RouteConfiguration {
	return &v3route.RouteConfiguration{Name: name, VirtualHosts: []*v3route.VirtualHost{{Name: "vh", Domains: []string{"*"}, Routes: []*v3route.Route{r}}}}
}

// ---- route tables ----

func routeFields(b bounds) func(x *mc.X) {
	return func(x *mc.X) {
		mc.Enum(x, func(c *mc.Chooser) func() {
			r, s := genRoute(c, b)
			return func() {
				decodeRDS(x, []*anypb.Any{hz.Any(hz.URL(hz.RDS), one("rc", r))}, map[string]string{"rc": "http(vh[{" + s + "}])"})
			}
		})
	}
}

func retries(x *mc.X) {
	mc.Enum(x, func(c *mc.Chooser) func() {
		rp, s := genRetry(c, true)
		return func() {
			r := &v3route.Route{Match: &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}},
				Action: &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_Cluster{Cluster: "c"}, RetryPolicy: rp}}}
			decodeRDS(x, []*anypb.Any{hz.Any(hz.URL(hz.RDS), one("rc", r))}, map[string]string{"rc": "http(vh[{path=1111111 meta=1111111111111111111111111 clusters=c:1, timeout=0s retry=" + s + "}])"})
		}
	})
}

type piece struct {
	r *v3route.Route
	s string
}

func routePool(every int) (out []piece) {
	i := 0
	mc.Enum(&mc.X{Shards: 2, Shard: 2}, func(c *mc.Chooser) func() {
		r, s := genRoute(c, bounds{headers: 1, durs: 2, action: true})
		if i%every == 0 {
			out = append(out, piece{r, s})
		}
		i++
		return nil
	})
	return
}

// genTable: up to maxVH virtual hosts of up to maxR routes out of the pool.
func genTable(c *mc.Chooser, p []piece, name string, maxVH, maxR int) (*v3route.RouteConfiguration, string) {
	rc := &v3route.RouteConfiguration{Name: name}
	s := "http("
	for n := c.Choose(maxVH + 1); n > 0; n-- {
		vh := &v3route.VirtualHost{Name: c.Str("vh", "another")}
		s += vh.Name + "["
		for k := c.Choose(maxR + 1); k > 0; k-- {
			x := p[c.Choose(len(p))]
			vh.Routes = append(vh.Routes, x.r)
			s += "{" + x.s + "}"
		}
		s += "]"
		rc.VirtualHosts = append(rc.VirtualHosts, vh)
	}
	return rc, s + ")"
}

func tables(every, maxVH, maxR int) func(x *mc.X) {
	return func(x *mc.X) {
		p := routePool(every)
		mc.Enum(x, func(c *mc.Chooser) func() {
			rc, s := genTable(c, p, "rc", maxVH, maxR)
			return func() { decodeRDS(x, []*anypb.Any{hz.Any(hz.URL(hz.RDS), rc)}, map[string]string{"rc": s}) }
		})
	}
}

var names = []string{"b", "a", "ab", "A", "9080"}

func severalTables(every, max int) func(x *mc.X) {
	return func(x *mc.X) {
		p := routePool(every)
		mc.Enum(x, func(c *mc.Chooser) func() {
			var rs []*v3route.RouteConfiguration
			want := map[string]string{}
			for i, k := 0, c.Choose(max+1); i < k; i++ {
				rc, s := genTable(c, p, names[i], 1, 2)
				rs = append(rs, rc)
				want[names[i]] = s
			}
			return func() {
				var as []*anypb.Any
				for _, r := range rs {
					as = append(as, hz.Any(hz.URL(hz.RDS), r))
				}
				decodeRDS(x, as, want)
			}
		})
	}
}

// ---- listeners ----

func typed(url string, m interface{}) *v3http.HttpFilter {
	a, ok := m.(*anypb.Any)
	if !ok {
		panic("any")
	}
	a.TypeUrl = url
	return &v3http.HttpFilter{Name: "f", ConfigType: &v3http.HttpFilter_TypedConfig{TypedConfig: a}}
}

func bucketFilter(max, fill uint32) *v3http.HttpFilter {
	return typed(xdsresource.RateLimitTypeURL, hz.Any("", &v3ratelimit.LocalRateLimit{StatPrefix: "s",
		TokenBucket: &v3type.TokenBucket{MaxTokens: max, TokensPerFill: wrapperspb.UInt32(fill), FillInterval: durationpb.New(time.Second)}}))
}

func structFilter(fields map[string]interface{}) *v3http.HttpFilter {
	s, err := structpb.NewStruct(fields)
	if err != nil {
		panic(err)
	}
	return typed(xdsresource.TypedStructTypeURL, hz.Any("", &udpatype.TypedStruct{TypeUrl: xdsresource.RateLimitTypeURL, Value: s}))
}

// fillers are HTTP filters without a bucket.
func fillers() []*v3http.HttpFilter {
	return []*v3http.HttpFilter{
		{Name: "bare"},
		typed("type.googleapis.com/envoy.extensions.filters.http.router.v3.Router", &anypb.Any{Value: []byte{0xff, 0x01}}),
		typed(xdsresource.RateLimitTypeURL, hz.Any("", &v3ratelimit.LocalRateLimit{StatPrefix: "s"})),
		structFilter(map[string]interface{}{"other": map[string]interface{}{"max_tokens": 9.0}}),
		{Name: "disc", ConfigType: &v3http.HttpFilter_ConfigDiscovery{ConfigDiscovery: &v3core.ExtensionConfigSource{}}},
		typed("type.googleapis.com/envoy.extensions.filters.http.fault.v3.HTTPFault", &anypb.Any{}),
	}
}

var allFillers = fillers()

var buckets = [][2]uint32{{100, 10}, {0, 0}, {5, 0}, {1<<32 - 1, 1 << 31}}

// genHTTPFilters: up to max other filters with a bucket at any place or none.
func genHTTPFilters(c *mc.Chooser, max int) ([]*v3http.HttpFilter, string) {
	var fs []*v3http.HttpFilter
	n := c.Choose(max + 1)
	for i := 0; i < n; i++ {
		fs = append(fs, allFillers[c.Choose(len(allFillers))])
	}
	at := c.Choose(n + 2) // n+1: no bucket
	if at == n+1 {
		return fs, "0/0"
	}
	b := buckets[c.Choose(len(buckets))]
	var f *v3http.HttpFilter
	if c.Bool() {
		f = bucketFilter(b[0], b[1])
	} else {
		f = structFilter(map[string]interface{}{"stat_prefix": "x", "token_bucket": map[string]interface{}{"max_tokens": float64(b[0]), "tokens_per_fill": float64(b[1]), "fill_interval": "1s"}})
	}
	out := append(append(append([]*v3http.HttpFilter{}, fs[:at]...), f), fs[at:]...)
	return out, fmt.Sprintf("%d/%d", b[0], b[1])
}

func hcm(rc *v3route.RouteConfiguration, fs []*v3http.HttpFilter) *v3listener.Filter {
	h := hz.HCMRds("rc-name")
	if rc != nil {
		h.RouteSpecifier = &v3http.HttpConnectionManager_RouteConfig{RouteConfig: rc}
	}
	h.HttpFilters = fs
	return hz.HCMFilter(h)
}

func thriftFilter(rs []*v3thrift.Route) *v3listener.Filter {
	return &v3listener.Filter{Name: "thrift", ConfigType: &v3listener.Filter_TypedConfig{TypedConfig: hz.Any(xdsresource.ThriftProxyTypeURL,
		&v3thrift.ThriftProxy{StatPrefix: "s", RouteConfig: &v3thrift.RouteConfiguration{Name: "t", Routes: rs}})}}
}

func genThriftRoute(c *mc.Chooser, headers int) (*v3thrift.Route, string) {
	m := &v3thrift.RouteMatch{}
	s := ""
	switch c.Choose(4) {
	case 0:
		m.MatchSpecifier, s = &v3thrift.RouteMatch_MethodName{MethodName: "m"}, exactIs("m")
	case 1:
		m.MatchSpecifier, s = &v3thrift.RouteMatch_MethodName{MethodName: "M"}, exactIs("M")
	case 2:
		m.MatchSpecifier, s = &v3thrift.RouteMatch_MethodName{}, "path=1111111"
	case 3:
		m.MatchSpecifier, s = &v3thrift.RouteMatch_ServiceName{ServiceName: "svc"}, "service=svc"
	}
	hs, hd := genHeaders(c, headers)
	m.Headers = hs
	_, ta, cs := genClusters(c)
	return &v3thrift.Route{Match: m, Route: ta}, s + hd + fmt.Sprintf(" clusters=%s timeout=0s retry=/0/0s/0s/0/[]", cs)
}

func listener(x *mc.X, l *v3listener.Listener, want string) {
	decodeLDS(x, []*anypb.Any{hz.Any(hz.URL(hz.LDS), l)}, map[string]string{l.Name: want})
}

func chain(port int64, fs ...*v3listener.Filter) *v3listener.FilterChain {
	fc := &v3listener.FilterChain{Filters: fs}
	if port == -1 {
		fc.FilterChainMatch = &v3listener.FilterChainMatch{TransportProtocol: "tls"}
	} else if port >= 0 {
		fc.FilterChainMatch = &v3listener.FilterChainMatch{DestinationPort: wrapperspb.UInt32(uint32(port))}
	}
	return fc
}

func buckettest(max int) func(x *mc.X) {
	return func(x *mc.X) {
		rc := one("inl", &v3route.Route{Match: &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}}, Action: &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_Cluster{Cluster: "c"}}}})
		rs := "http(vh[{path=1111111 meta=1111111111111111111111111 clusters=c:1, timeout=0s retry=/0/0s/0s/0/[]}])"
		mc.Enum(x, func(c *mc.Chooser) func() {
			fs, b := genHTTPFilters(c, max)
			inline := c.Bool()
			port := []int64{-2, 80, -1, 65535}[c.Choose(4)]
			deflt := c.Bool()
			return func() {
				var f *v3listener.Filter
				t := "named rc-name"
				if inline {
					f, t = hcm(rc, fs), rs
				} else {
					f = hcm(nil, fs)
				}
				l := &v3listener.Listener{Name: "l"}
				if deflt {
					l.DefaultFilterChain = chain(port, f)
				} else {
					l.FilterChains = []*v3listener.FilterChain{chain(port, f)}
				}
				p := port
				if p < 0 {
					p = 0
				}
				listener(x, l, fmt.Sprintf("filter0 port=%d bucket=%s %s", p, b, t))
			}
		})
	}
}

func thrifts(headers int) func(x *mc.X) {
	return func(x *mc.X) {
		mc.Enum(x, func(c *mc.Chooser) func() {
			r, s := genThriftRoute(c, headers)
			port := []int64{-2, 9080}[c.Choose(2)]
			return func() {
				p := port
				if p < 0 {
					p = 0
				}
				listener(x, &v3listener.Listener{Name: "l", FilterChains: []*v3listener.FilterChain{chain(port, thriftFilter([]*v3thrift.Route{r}))}},
					fmt.Sprintf("filter1 port=%d bucket=0/0 thrift({%s})", p, s))
			}
		})
	}
}

type fpiece struct {
	f    *v3listener.Filter
	want string // "" when the filter is to be skipped
}

func filterPool() (out []fpiece) {
	// thrift filters of up to 2 routes
	var trs []struct {
		r *v3thrift.Route
		s string
	}
	i := 0
	mc.Enum(&mc.X{Shards: 2, Shard: 2}, func(c *mc.Chooser) func() {
		r, s := genThriftRoute(c, 1)
		if i%97 == 0 {
			trs = append(trs, struct {
				r *v3thrift.Route
				s string
			}{r, s})
		}
		i++
		return nil
	})
	out = append(out, fpiece{thriftFilter(nil), "filter1 port=%d bucket=0/0 thrift()"})
	for k := 0; k+1 < len(trs); k += 2 {
		out = append(out, fpiece{thriftFilter([]*v3thrift.Route{trs[k].r, trs[k+1].r}), "filter1 port=%d bucket=0/0 thrift({" + trs[k].s + "}{" + trs[k+1].s + "})"})
	}
	p := routePool(211)
	out = append(out,
		fpiece{hcm(nil, nil), "filter0 port=%d bucket=0/0 named rc-name"},
		fpiece{hcm(nil, []*v3http.HttpFilter{allFillers[0], bucketFilter(7, 3)}), "filter0 port=%d bucket=7/3 named rc-name"},
		fpiece{hcm(&v3route.RouteConfiguration{Name: "e"}, nil), "filter0 port=%d bucket=0/0 http()"},
		fpiece{hcm(&v3route.RouteConfiguration{Name: "i", VirtualHosts: []*v3route.VirtualHost{{Name: "v1", Routes: []*v3route.Route{p[0].r, p[1].r}}, {Name: "v2"}, {Name: "v3", Routes: []*v3route.Route{p[2].r}}}}, []*v3http.HttpFilter{bucketFilter(9, 4)}),
			"filter0 port=%d bucket=9/4 http(v1[{" + p[0].s + "}{" + p[1].s + "}]v2[]v3[{" + p[2].s + "}])"},
		fpiece{&v3listener.Filter{Name: "bare"}, ""},
		fpiece{&v3listener.Filter{Name: "tcp", ConfigType: &v3listener.Filter_TypedConfig{TypedConfig: &anypb.Any{TypeUrl: "type.googleapis.com/envoy.extensions.filters.network.tcp_proxy.v3.TcpProxy", Value: []byte{0xff}}}}, ""},
		fpiece{&v3listener.Filter{Name: "disc", ConfigType: &v3listener.Filter_ConfigDiscovery{ConfigDiscovery: &v3core.ExtensionConfigSource{}}}, ""},
	)
	return
}

// genListener: up to maxC filter chains (and a default one) of up to maxF filters.
func genListener(c *mc.Chooser, p []fpiece, name string, maxC, maxF int, ports []int64) (*v3listener.Listener, string) {
	l := &v3listener.Listener{Name: name}
	var want []string
	mk := func() *v3listener.FilterChain {
		port := ports[c.Choose(len(ports))]
		var fs []*v3listener.Filter
		for k := c.Choose(maxF + 1); k > 0; k-- {
			x := p[c.Choose(len(p))]
			fs = append(fs, x.f)
			if x.want != "" {
				n := port
				if n < 0 {
					n = 0
				}
				want = append(want, fmt.Sprintf(x.want, n))
			}
		}
		return chain(port, fs...)
	}
	for n := c.Choose(maxC + 1); n > 0; n-- {
		l.FilterChains = append(l.FilterChains, mk())
	}
	if c.Bool() {
		l.DefaultFilterChain = mk()
	}
	return l, strings.Join(want, " ;; ")
}

func listeners(maxC, maxF int, ports []int64) func(x *mc.X) {
	return func(x *mc.X) {
		p := filterPool()
		mc.Enum(x, func(c *mc.Chooser) func() {
			l, s := genListener(c, p, "l", maxC, maxF, ports)
			return func() { listener(x, l, s) }
		})
	}
}

func severalListeners(max, every int) func(x *mc.X) {
	return func(x *mc.X) {
		var p []fpiece
		for i, f := range filterPool() {
			if i%every == 0 {
				p = append(p, f)
			}
		}
		mc.Enum(x, func(c *mc.Chooser) func() {
			var ls []*v3listener.Listener
			want := map[string]string{}
			for i, k := 0, c.Choose(max+1); i < k; i++ {
				l, s := genListener(c, p, names[i], 1, 1, []int64{80})
				ls = append(ls, l)
				want[names[i]] = s
			}
			return func() {
				var as []*anypb.Any
				for _, l := range ls {
					as = append(as, hz.Any(hz.URL(hz.LDS), l))
				}
				decodeLDS(x, as, want)
			}
		})
	}
}

// manyHeaders: a route with n header conditions holds for metadata that meet
// all of them and for none that miss any.
func manyHeaders(x *mc.X, n int) {
	var hs []*v3route.HeaderMatcher
	all := map[string]string{}
	for i := 0; i < n; i++ {
		k := fmt.Sprint("k", i)
		all[k] = fmt.Sprint("v", i)
		h := str(k, &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_Exact{Exact: all[k]}})
		switch i % 3 {
		case 1:
			h = str(k, &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_Prefix{Prefix: all[k]}})
		case 2:
			h = str(k, &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_SafeRegex{SafeRegex: &v3matcher.RegexMatcher{Regex: "^" + all[k] + "$"}}})
		}
		hs = append(hs, h)
	}
	r := &v3route.Route{Match: &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}, Headers: hs},
		Action: &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_Cluster{Cluster: "c"}}}}
	m, err := xdsresource.UnmarshalRDS([]*anypb.Any{hz.Any(hz.URL(hz.RDS), one("rc", r))})
	rc, _ := m["rc"].(*xdsresource.RouteConfigResource)
	if err != nil || rc == nil || rc.HTTPRouteConfig == nil || len(rc.HTTPRouteConfig.VirtualHosts) != 1 || len(rc.HTTPRouteConfig.VirtualHosts[0].Routes) != 1 {
		vrt.Fail("C11", "a route with %d header conditions was not decoded: %v", n, err)
		return
	}
	got := rc.HTTPRouteConfig.VirtualHosts[0].Routes[0].Match
	if !got.MatchMeta(all) {
		vrt.Fail("C11", "a route with %d header conditions does not match metadata that meet all of them", n)
	}
	for i := 0; i < n; i++ {
		k := fmt.Sprint("k", i)
		v := all[k]
		delete(all, k)
		if got.MatchMeta(all) {
			vrt.Fail("C11", "a route with %d header conditions matches metadata without %q", n, k)
		}
		all[k] = "w"
		if got.MatchMeta(all) {
			vrt.Fail("C11", "a route with %d header conditions matches metadata with a wrong %q", n, k)
		}
		all[k] = v
	}
}

// large: many routes, virtual hosts, clusters, tables, chains, listeners.
func large(x *mc.X) {
	p := routePool(37)
	fp := filterPool()
	sizes := []int{3, 5, 8, 10, 16, 17, 32, 33, 64, 65, 100, 128, 200, 256, 257, 500, 1000}
	mc.Enum(x, func(c *mc.Chooser) func() {
		n := sizes[c.Choose(len(sizes))]
		kind := c.Choose(11)
		return func() {
			switch kind {
			case 6:
				manyHeaders(x, n)
			case 7:
				rs := "http(vh[{path=1111111 meta=1111111111111111111111111 clusters=c:1, timeout=0s retry=/0/0s/0s/0/["
				var ms []string
				for i := 0; i < n; i++ {
					ms = append(ms, fmt.Sprint("m", n-i))
				}
				rs += fmt.Sprintf("%q", ms)[1:]
				rp := &v3route.RetryPolicy{}
				for i := 0; i < n; i++ {
					rp.RetriableHeaders = append(rp.RetriableHeaders, exactHeader(fmt.Sprint("x-", i), "0.5"))
				}
				rp.RetriableHeaders = append(rp.RetriableHeaders, exactHeader("kitexRetryMethods", strings.Join(ms, ",")))
				r := &v3route.Route{Match: &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}},
					Action: &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_Cluster{Cluster: "c"}, RetryPolicy: rp}}}
				decodeRDS(x, []*anypb.Any{hz.Any(hz.URL(hz.RDS), one("rc", r))}, map[string]string{"rc": rs + "}])"})
			case 8:
				tf := &v3thrift.RouteConfiguration{Name: "t"}
				want := "filter1 port=80 bucket=0/0 thrift("
				for i := 0; i < n; i++ {
					ch := "abcdefgh"[i%8 : i%8+1]
					tf.Routes = append(tf.Routes, &v3thrift.Route{Match: &v3thrift.RouteMatch{MatchSpecifier: &v3thrift.RouteMatch_ServiceName{ServiceName: fmt.Sprint(ch, i)}},
						Route: &v3thrift.RouteAction{ClusterSpecifier: &v3thrift.RouteAction_Cluster{Cluster: fmt.Sprint("c", i)}}})
					want += fmt.Sprintf("{service=%s%d meta=1111111111111111111111111 clusters=c%d:1, timeout=0s retry=/0/0s/0s/0/[]}", ch, i, i)
				}
				listener(x, &v3listener.Listener{Name: "l", FilterChains: []*v3listener.FilterChain{chain(80, thriftFilter(tf.Routes))}}, want+")")
			case 9: // the bucket after many other filters, and before as many
				var fs []*v3http.HttpFilter
				for i := 0; i < n; i++ {
					fs = append(fs, allFillers[i%len(allFillers)])
				}
				fs = append(append(fs, bucketFilter(uint32(n), uint32(n+1))), fs...)
				listener(x, &v3listener.Listener{Name: "l", FilterChains: []*v3listener.FilterChain{chain(80, hcm(nil, fs))}}, fmt.Sprintf("filter0 port=80 bucket=%d/%d named rc-name", n, n+1))
			case 10: // many filters in one chain
				var fs []*v3listener.Filter
				var want []string
				for i := 0; i < n; i++ {
					f := fp[i%len(fp)]
					fs = append(fs, f.f)
					if f.want != "" {
						want = append(want, fmt.Sprintf(f.want, 80))
					}
				}
				listener(x, &v3listener.Listener{Name: "l", FilterChains: []*v3listener.FilterChain{chain(80, fs...)}}, strings.Join(want, " ;; "))
			case 0, 1:
				rc := &v3route.RouteConfiguration{Name: "rc", VirtualHosts: []*v3route.VirtualHost{{Name: "vh"}}}
				s := "http(vh["
				for i := 0; i < n; i++ {
					if kind == 1 && i > 0 {
						rc.VirtualHosts = append(rc.VirtualHosts, &v3route.VirtualHost{Name: fmt.Sprint("vh", i)})
						s += fmt.Sprint("]vh", i, "[")
					}
					vh := rc.VirtualHosts[len(rc.VirtualHosts)-1]
					vh.Routes = append(vh.Routes, p[i%len(p)].r)
					s += "{" + p[i%len(p)].s + "}"
				}
				decodeRDS(x, []*anypb.Any{hz.Any(hz.URL(hz.RDS), rc)}, map[string]string{"rc": s + "])"})
			case 2:
				wc := &v3route.WeightedCluster{}
				s := "http(vh[{path=1111111 meta=1111111111111111111111111 clusters="
				for i := 0; i < n; i++ {
					wc.Clusters = append(wc.Clusters, &v3route.WeightedCluster_ClusterWeight{Name: fmt.Sprint("c", i), Weight: wrapperspb.UInt32(uint32(i))})
					s += fmt.Sprintf("c%d:%d,", i, i)
				}
				r := &v3route.Route{Match: &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}},
					Action: &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_WeightedClusters{WeightedClusters: wc}}}}
				decodeRDS(x, []*anypb.Any{hz.Any(hz.URL(hz.RDS), one("rc", r))}, map[string]string{"rc": s + " timeout=0s retry=/0/0s/0s/0/[]}])"})
			case 3:
				var as []*anypb.Any
				want := map[string]string{}
				for i := 0; i < n; i++ {
					nm := fmt.Sprint("rc", i)
					as = append(as, hz.Any(hz.URL(hz.RDS), one(nm, p[i%len(p)].r)))
					want[nm] = "http(vh[{" + p[i%len(p)].s + "}])"
				}
				decodeRDS(x, as, want)
			case 4:
				l := &v3listener.Listener{Name: "l"}
				var want []string
				for i := 0; i < n; i++ {
					f := fp[i%len(fp)]
					l.FilterChains = append(l.FilterChains, chain(int64(i+1), f.f))
					if f.want != "" {
						want = append(want, fmt.Sprintf(f.want, i+1))
					}
				}
				listener(x, l, strings.Join(want, " ;; "))
			case 5:
				var as []*anypb.Any
				want := map[string]string{}
				for i := 0; i < n; i++ {
					nm := fmt.Sprint("l", i)
					f := fp[i%len(fp)]
					as = append(as, hz.Any(hz.URL(hz.LDS), &v3listener.Listener{Name: nm, FilterChains: []*v3listener.FilterChain{chain(80, f.f)}}))
					want[nm] = ""
					if f.want != "" {
						want[nm] = fmt.Sprintf(f.want, 80)
					}
				}
				decodeLDS(x, as, want)
			}
		}
	})
}

// meant are the fields with a meaning, or of which it is open what they should
// mean here; the others may be anything.
var meant = func() map[string]bool {
	out := map[string]bool{}
	for _, l := range []string{
		"envoy.config.listener.v3.Listener.: name filter_chains default_filter_chain api_listener",
		"envoy.config.listener.v3.FilterChain.: filters filter_chain_match",
		"envoy.config.listener.v3.FilterChainMatch.: destination_port",
		"envoy.extensions.filters.network.http_connection_manager.v3.HttpConnectionManager.: http_filters",
		"envoy.extensions.filters.network.http_connection_manager.v3.HttpFilter.: disabled typed_config config_discovery",
		"envoy.extensions.filters.http.local_ratelimit.v3.LocalRateLimit.: token_bucket filter_enabled filter_enforced",
		"envoy.type.v3.TokenBucket.: max_tokens tokens_per_fill",
		"udpa.type.v1.TypedStruct.: type_url value",
		"envoy.config.route.v3.RouteConfiguration.: name virtual_hosts",
		"envoy.config.route.v3.VirtualHost.: name routes",
		"envoy.config.route.v3.RouteMatch.: headers",
		"envoy.config.route.v3.HeaderMatcher.: name invert_match treat_missing_header_as_empty",
		"envoy.type.matcher.v3.StringMatcher.: ignore_case",
		"envoy.config.route.v3.RouteAction.: timeout retry_policy",
		"envoy.config.route.v3.WeightedCluster.: clusters",
		"envoy.config.route.v3.WeightedCluster.ClusterWeight.: name weight cluster_header",
		"envoy.config.route.v3.RetryPolicy.: retry_on num_retries per_try_timeout per_try_idle_timeout retry_back_off retriable_headers",
		"envoy.config.route.v3.RetryPolicy.RetryBackOff.: base_interval max_interval",
		"envoy.extensions.filters.network.thrift_proxy.v3.ThriftProxy.: route_config trds",
		"envoy.extensions.filters.network.thrift_proxy.v3.RouteConfiguration.: routes",
		"envoy.extensions.filters.network.thrift_proxy.v3.RouteMatch.: headers invert",
		"envoy.extensions.filters.network.thrift_proxy.v3.WeightedCluster.: clusters",
		"envoy.extensions.filters.network.thrift_proxy.v3.WeightedCluster.ClusterWeight.: name weight",
	} {
		i := strings.Index(l, ": ")
		for _, f := range strings.Fields(l[i+2:]) {
			out[l[:i]+f] = true
		}
	}
	return out
}()

// others: everything else in a message set to all kinds of values, alone or
// in pairs, does not change what it means.
func others(pairs bool) func(x *mc.X) {
	type base struct {
		m    proto.Message
		vs   []hz.Variant
		test func()
	}
	return func(x *mc.X) {
		var bs []base
		add := func(m proto.Message, test func()) {
			bs = append(bs, base{m, hz.Variants(m, meant), test})
		}
		table := func(name string) (*v3route.RouteConfiguration, string) {
			hs := []*v3route.HeaderMatcher{allHdrs[0].h, allHdrs[6].h, allHdrs[3].h}
			for i := range hs {
				hs[i] = proto.Clone(hs[i]).(*v3route.HeaderMatcher)
			}
			m1 := bitsOf(allHdrs[0], allHdrs[6])
			m2 := bitsOf(allHdrs[3])
			return &v3route.RouteConfiguration{Name: name, VirtualHosts: []*v3route.VirtualHost{
				{Name: "vh", Routes: []*v3route.Route{
					{Match: &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Path{Path: "/S/M"}, Headers: hs[:2]},
						Action: &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_WeightedClusters{WeightedClusters: &v3route.WeightedCluster{Clusters: []*v3route.WeightedCluster_ClusterWeight{
							{Name: "x", Weight: wrapperspb.UInt32(3)}, {Name: "y", Weight: wrapperspb.UInt32(0)}, {Name: "z"}}}}}}},
					{Match: &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}},
						Action: &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_Cluster{Cluster: "one"}, Timeout: durationpb.New(2 * time.Second), RetryPolicy: &v3route.RetryPolicy{
							RetryOn: "5xx", NumRetries: wrapperspb.UInt32(2), PerTryTimeout: durationpb.New(time.Second), RetryBackOff: &v3route.RetryPolicy_RetryBackOff{BaseInterval: durationpb.New(10 * time.Millisecond)},
							RetriableHeaders: []*v3route.HeaderMatcher{exactHeader("kitexRetryErrorRate", "0.2"), exactHeader("kitexRetryMethods", "m,n")}}}}},
				}},
				{Name: "other", Routes: []*v3route.Route{
					{Match: &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/S/"}}, Action: &v3route.Route_Redirect{Redirect: &v3route.RedirectAction{}}},
					{Match: &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}, Headers: hs[2:]},
						Action: &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_Cluster{Cluster: "two"}, RetryPolicy: &v3route.RetryPolicy{}}}},
				}},
			}}, "http(vh[{" + exactIs("/S/M") + m1 + " clusters=x:3,y:0,z:0, timeout=0s retry=/0/0s/0s/0/[]}{path=1111111 meta=1111111111111111111111111 clusters=one:1, timeout=2s retry=5xx/2/1s/0s/0.2/[\"m\" \"n\"]/10ms-0s}]" +
					"other[{path=0000000 meta=1111111111111111111111111 clusters= timeout=0s retry=/0/0s/0s/0/[]}{path=1111111" + m2 + " clusters=two:1, timeout=0s retry=/0/0s/0s/0/[]}])"
		}
		rc, s := table("rc")
		add(rc, func() { decodeRDS(x, []*anypb.Any{hz.Any(hz.URL(hz.RDS), rc)}, map[string]string{"rc": s}) })
		lis := func(l *v3listener.Listener, want string) {
			add(l, func() { listener(x, l, want) })
		}
		irc, is := table("inl")
		lis(&v3listener.Listener{Name: "l", FilterChains: []*v3listener.FilterChain{chain(80, hcm(irc, []*v3http.HttpFilter{bucketFilter(7, 3)}))}}, "filter0 port=80 bucket=7/3 "+is)
		lis(&v3listener.Listener{Name: "l", FilterChains: []*v3listener.FilterChain{chain(-2, hcm(nil, []*v3http.HttpFilter{{Name: "bare"}, buckets2()}))}}, "filter0 port=0 bucket=9/4 named rc-name")
		lis(&v3listener.Listener{Name: "l", FilterChains: []*v3listener.FilterChain{chain(80, hcm(nil, nil)), chain(81, hcm(nil, nil))}, DefaultFilterChain: chain(82, hcm(nil, nil))},
			"filter0 port=80 bucket=0/0 named rc-name ;; filter0 port=81 bucket=0/0 named rc-name ;; filter0 port=82 bucket=0/0 named rc-name")
		ch := &mc.Chooser{}
		t1, s1 := genThriftRoute(ch, 0)
		tw, ws := weighted()
		t2 := &v3thrift.Route{Match: &v3thrift.RouteMatch{MatchSpecifier: &v3thrift.RouteMatch_ServiceName{ServiceName: "svc"}, Headers: []*v3route.HeaderMatcher{proto.Clone(allHdrs[0].h).(*v3route.HeaderMatcher)}}, Route: tw}
		m1 := bitsOf(allHdrs[0])
		lis(&v3listener.Listener{Name: "l", FilterChains: []*v3listener.FilterChain{chain(9080, thriftFilter([]*v3thrift.Route{t1, t2}))}},
			"filter1 port=9080 bucket=0/0 thrift({"+s1+"}{service=svc"+m1+" clusters="+ws+" timeout=0s retry=/0/0s/0s/0/[]})")
		mc.Enum(x, func(c *mc.Chooser) func() {
			b := bs[c.Choose(len(bs))]
			n := len(b.vs)
			v := b.vs[c.Choose(n)]
			var w *hz.Variant
			if pairs {
				if k := c.Choose(n + 1); k > 0 {
					w = &b.vs[k-1]
				}
			}
			return func() {
				v.Do()
				if w != nil {
					w.Do()
				}
				b.test()
				if w != nil {
					w.Undo()
				}
				v.Undo()
			}
		})
	}
}

// oddNames: resources and what is in them keep their names.
func oddNames(x *mc.X) {
	l := hz.OddNames
	mc.Enum(x, func(c *mc.Chooser) func() {
		a, b := c.Choose(len(l)), c.Choose(len(l))
		kind := c.Choose(3)
		return func() {
			if a == b {
				return
			}
			switch kind {
			case 0, 1:
				var as []*anypb.Any
				want := map[string]string{}
				for _, n := range []string{l[a], l[b]} {
					rc := one(n, &v3route.Route{Match: &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}}, Action: &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_Cluster{Cluster: n}}}})
					rc.VirtualHosts[0].Name = n
					if kind == 0 {
						as = append(as, hz.Any(hz.URL(hz.RDS), rc))
						want[n] = "http(" + n + "[{path=1111111 meta=1111111111111111111111111 clusters=" + n + ":1, timeout=0s retry=/0/0s/0s/0/[]}])"
						continue
					}
					h := hz.HCMRds(n)
					as = append(as, hz.Any(hz.URL(hz.LDS), &v3listener.Listener{Name: n, FilterChains: []*v3listener.FilterChain{chain(80, hz.HCMFilter(h))}}))
					want[n] = "filter0 port=80 bucket=0/0 named " + n
				}
				if kind == 0 {
					decodeRDS(x, as, want)
				} else {
					decodeLDS(x, as, want)
				}
			case 2:
				rc := &v3route.RouteConfiguration{Name: "rc"}
				want := "http("
				for _, n := range []string{l[a], l[b]} {
					rc.VirtualHosts = append(rc.VirtualHosts, &v3route.VirtualHost{Name: n, Routes: []*v3route.Route{{Match: &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}},
						Action: &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_WeightedClusters{WeightedClusters: &v3route.WeightedCluster{Clusters: []*v3route.WeightedCluster_ClusterWeight{
							{Name: l[b], Weight: wrapperspb.UInt32(3)}, {Name: l[a], Weight: wrapperspb.UInt32(4)}}}}}}}}})
					want += n + "[{path=1111111 meta=1111111111111111111111111 clusters=" + l[b] + ":3," + l[a] + ":4, timeout=0s retry=/0/0s/0s/0/[]}]"
				}
				decodeRDS(x, []*anypb.Any{hz.Any(hz.URL(hz.RDS), rc)}, map[string]string{"rc": want + ")"})
			}
		}
	})
}

func buckets2() *v3http.HttpFilter {
	return structFilter(map[string]interface{}{"token_bucket": map[string]interface{}{"max_tokens": 9.0, "tokens_per_fill": 4.0}})
}

func weighted() (*v3thrift.RouteAction, string) {
	return &v3thrift.RouteAction{ClusterSpecifier: &v3thrift.RouteAction_WeightedClusters{WeightedClusters: &v3thrift.WeightedCluster{Clusters: []*v3thrift.WeightedCluster_ClusterWeight{
		{Name: "x", Weight: wrapperspb.UInt32(3)}, {Name: "y"}}}}}, "x:3,y:0,"
}

func main() {
	hz.Bare = true // with and without other fields: see others
	mc.Main(&mc.Check{
		Property: "C11",
		Scenarios: func(tier string) []*mc.Scenario {
			b := bounds{headers: 2, durs: 3, action: true}
			ev, hf, th, mc2, se := 29, 2, 1, []int64{-2, 80}, 2
			if tier == "thorough" {
				b.durs = 6
				ev, hf, th, mc2, se = 11, 4, 2, []int64{-2, 80, 9080, -1}, 1
			}
			return []*mc.Scenario{
				{Name: "route-fields", Shards: 16, Body: routeFields(b), Bounds: fmt.Sprintf("one route: 4 paths x all lists of up to 2 of 8 header conditions x 12 destinations x %d timeouts x 3 retry policies, and 2 other actions", b.durs)},
				{Name: "retry-fields", Shards: 16, Body: retries, Bounds: "3 retry-on x 6 attempts x 5 per-try x 4 idle timeouts x 11 header extensions x 17 back-offs"},
				{Name: "tables", Shards: 16, Body: tables(ev*9, 2, 2), Bounds: "up to 2 virtual hosts of up to 2 routes out of a pool"},
				{Name: "several-tables", Shards: 16, Body: severalTables(ev*40, 3), Bounds: "up to 3 tables in one response"},
				{Name: "buckets", Shards: 16, Body: buckettest(hf), Bounds: fmt.Sprintf("up to %d of 6 other HTTP filters with one of 4 buckets in 2 encodings at every place, inline and named, 4 port matches, in a default chain or not", hf)},
				{Name: "thrift", Shards: 16, Body: thrifts(th), Bounds: fmt.Sprintf("4 methods x lists of up to %d header conditions x 12 destinations", th)},
				{Name: "listeners", Shards: 16, Body: listeners(2, 1, mc2), Bounds: fmt.Sprintf("up to 2 filter chains and a default one of up to 1 filter with %d port matches", len(mc2))},
				{Name: "filters", Shards: 16, Body: listeners(1, 2, []int64{80}), Bounds: "one filter chain and a default one of up to 2 filters"},
				{Name: "several-listeners", Shards: 16, Body: severalListeners(3, se), Bounds: "up to 3 listeners in one response"},
				{Name: "other-fields", Shards: 16, Body: others(tier == "thorough"), Bounds: "a route table and 4 listeners with any other field (thorough: any two) set, all enum values, and with all of them set"},
				{Name: "names", Shards: 16, Body: oddNames, Bounds: "pairs out of 17 similar names in one response: listeners, tables; virtual hosts, clusters, methods within one"},
				{Name: "large", Shards: 16, Body: large, Bounds: "17 sizes up to 1000 of: routes, virtual hosts, clusters, tables, filter chains, filters, HTTP filters, listeners, Thrift routes, header conditions, retry methods"},
			}
		},
	})
}
