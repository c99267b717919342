// C08: the route used is the first one whose conditions hold.
package main

import (
	"context"
	"errors"
	"fmt"
	"regexp"
	"strings"
	"time"

	"github.com/cloudwego/kitex/transport"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3http "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	v3matcher "github.com/envoyproxy/go-control-plane/envoy/type/matcher/v3"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/mc"
	"github.com/kitex-contrib/xds/verifrt/vrt"
	"github.com/kitex-contrib/xds/xdssuite"
)

// ---- what the control plane says ----

type cond struct{ key, kind, val string } // kind: exact, prefix, regex

func (c cond) String() string { return fmt.Sprintf("%s~%s(%q)", c.key, c.kind, c.val) }

var compiled = map[string]*regexp.Regexp{}

func (c cond) holds(md map[string]string) bool {
	v, ok := md[c.key]
	if !ok {
		return false
	}
	switch c.kind {
	case "exact":
		return v == c.val
	case "prefix":
		return len(v) >= len(c.val) && v[:len(c.val)] == c.val
	}
	re, ok := compiled[c.val]
	if !ok {
		re, _ = regexp.Compile(`\A(?:` + c.val + `)\z`)
		compiled[c.val] = re
	}
	return re != nil && re.MatchString(v)
}

func (c cond) proto() *v3route.HeaderMatcher {
	sm := &v3matcher.StringMatcher{}
	switch c.kind {
	case "exact":
		sm.MatchPattern = &v3matcher.StringMatcher_Exact{Exact: c.val}
	case "prefix":
		sm.MatchPattern = &v3matcher.StringMatcher_Prefix{Prefix: c.val}
	default:
		sm.MatchPattern = &v3matcher.StringMatcher_SafeRegex{SafeRegex: &v3matcher.RegexMatcher{Regex: c.val}}
	}
	return &v3route.HeaderMatcher{Name: c.key, HeaderMatchSpecifier: &v3route.HeaderMatcher_StringMatch{StringMatch: sm}}
}

// path: "=/x" exact, "^/" prefix, "*" a path specifier of another kind.
type route struct {
	path  string
	conds []cond
	id    string // cluster name
}

func (r route) String() string { return fmt.Sprintf("{%s %v ->%s}", r.path, r.conds, r.id) }

func all(cs []cond, md map[string]string) bool {
	for _, c := range cs {
		if !c.holds(md) {
			return false
		}
	}
	return true
}

func (r route) holds(path string, md map[string]string) bool {
	switch r.path[0] {
	case '=':
		return r.path[1:] == path && all(r.conds, md)
	case '^':
		return r.path[1:] == "/" && all(r.conds, md)
	}
	return false
}

func timeoutOf(id string) time.Duration {
	n := 0
	for _, c := range id {
		n = n*31 + int(c)
	}
	return time.Duration(n%1000+1) * time.Millisecond
}

func headers(cs []cond) (out []*v3route.HeaderMatcher) {
	for _, c := range cs {
		out = append(out, c.proto())
	}
	return
}

func (r route) proto() *v3route.Route {
	m := &v3route.RouteMatch{Headers: headers(r.conds)}
	switch r.path[0] {
	case '=':
		m.PathSpecifier = &v3route.RouteMatch_Path{Path: r.path[1:]}
	case '^':
		m.PathSpecifier = &v3route.RouteMatch_Prefix{Prefix: r.path[1:]}
	default:
		m.PathSpecifier = &v3route.RouteMatch_ConnectMatcher_{ConnectMatcher: &v3route.RouteMatch_ConnectMatcher{}}
	}
	ra := &v3route.RouteAction{Timeout: durationpb.New(timeoutOf(r.id))}
	if r.id != "none" {
		ra.ClusterSpecifier = &v3route.RouteAction_Cluster{Cluster: r.id}
	}
	return &v3route.Route{Match: m, Action: &v3route.Route_Route{Route: ra}}
}

type table [][]route // virtual hosts

func (t table) proto(name string) *v3route.RouteConfiguration {
	rc := &v3route.RouteConfiguration{Name: name}
	for i, vh := range t {
		v := &v3route.VirtualHost{Name: fmt.Sprint("vh", 9-i), Domains: []string{fmt.Sprint("d", 9-i)}}
		for _, r := range vh {
			v.Routes = append(v.Routes, r.proto())
		}
		rc.VirtualHosts = append(rc.VirtualHosts, v)
	}
	return rc
}

func (t table) first(path string, md map[string]string) *route {
	for _, vh := range t {
		for i := range vh {
			if vh[i].holds(path, md) {
				return &vh[i]
			}
		}
	}
	return nil
}

// troute is a Thrift-proxy route; method "" matches every method.
type troute struct {
	method string
	conds  []cond
	id     string
}

func (r troute) String() string { return fmt.Sprintf("{%q %v ->%s}", r.method, r.conds, r.id) }

func (r troute) proto() *v3thrift.Route {
	return &v3thrift.Route{
		Match: &v3thrift.RouteMatch{MatchSpecifier: &v3thrift.RouteMatch_MethodName{MethodName: r.method}, Headers: headers(r.conds)},
		Route: &v3thrift.RouteAction{ClusterSpecifier: &v3thrift.RouteAction_Cluster{Cluster: r.id}},
	}
}

type world struct {
	thrift    []troute
	hasThrift bool
	order     int   // 0: thrift filter first, 1: HTTP first, 2: separate chains, 3: HTTP in the default chain
	noHTTP    bool  // no HTTP connection manager
	inline    table // inline HTTP route table
	hasInline bool
	named     table
	hasNamed  bool
	noLis     bool
}

func (w *world) String() string {
	s := ""
	if w.noLis {
		return "no listener"
	}
	if w.hasThrift {
		s += fmt.Sprintf("thrift%v ", w.thrift)
	}
	if w.noHTTP {
		return s + "no http"
	}
	if w.hasInline {
		s += fmt.Sprintf("inline%v ", w.inline)
	}
	if w.hasNamed {
		s += fmt.Sprintf("named%v ", w.named)
	}
	return s + fmt.Sprint("order", w.order)
}

const svc = "svc"

// want returns the cluster, or "" for a routing error.
func (w *world) want(c *call) (string, time.Duration) {
	if w.noLis {
		return "", 0
	}
	if w.hasThrift && c.tp != transport.GRPC {
		for _, r := range w.thrift {
			if (r.method == "" || r.method == c.method) && all(r.conds, c.md) {
				return r.id, 0
			}
		}
	}
	if w.noHTTP {
		return "", 0
	}
	for _, l := range []struct {
		on bool
		t  table
	}{{w.hasInline, w.inline}, {w.hasNamed, w.named}} {
		if l.on {
			if r := l.t.first(c.path(), c.md); r != nil {
				if r.id == "none" {
					return "", 0
				}
				return r.id, timeoutOf(r.id)
			}
		}
	}
	return "", 0
}

type call struct {
	pkg, svc, method string
	md               map[string]string
	tp               transport.Protocol
	custom           bool // a custom metadata extractor
}

func (c *call) path() string {
	if c.pkg == "" {
		return "/" + c.svc + "/" + c.method
	}
	return "/" + c.pkg + "." + c.svc + "/" + c.method
}

func (c *call) String() string {
	return fmt.Sprintf("%s %v over %v custom=%v", c.path(), c.md, c.tp, c.custom)
}

// ---- the system ----

type env struct {
	w    *world
	outs []string
	x    *mc.X
	lis  *xdsresource.ListenerResource
	rc   xdsresource.Resource
	r    [2]*xdssuite.XDSRouter
	md   map[string]string
	n    int
	// resources decoded before; the manager keeps those an update does not change
	liss map[string]*xdsresource.ListenerResource
	rcs  map[string]xdsresource.Resource
}

func newEnv(x *mc.X) *env {
	e := &env{x: x, liss: map[string]*xdsresource.ListenerResource{}, rcs: map[string]xdsresource.Resource{}}
	hz.Px.Cur = &hz.Src{F: e.get}
	e.r[0] = xdssuite.NewXDSRouter()
	e.r[1] = xdssuite.NewXDSRouter(xdssuite.WithRouterMetaExtractor(func(context.Context) map[string]string { return e.md }))
	return e
}

func (e *env) get(t xdsresource.ResourceType, name string) (interface{}, error) {
	if t == hz.LDS && name == svc && e.lis != nil {
		return e.lis, nil
	}
	if t == hz.RDS && name == "rc" && e.rc != nil {
		return e.rc, nil
	}
	return nil, errors.New("no such resource")
}

// flush records the outcomes of the calls made against the last world.
func (e *env) flush() {
	if e.w != nil {
		e.x.State(strings.Join(e.outs, ","))
		if e.x.WantSample() {
			e.x.Sample(fmt.Sprintf("%v: %d calls went to %.200s", e.w, len(e.outs), strings.Join(e.outs, ",")))
		}
	}
	e.outs = e.outs[:0]
}

func (e *env) load(w *world) {
	e.flush()
	e.w = w
	e.lis, e.rc = nil, nil
	if len(e.liss)+len(e.rcs) > 1000 {
		e.liss, e.rcs = map[string]*xdsresource.ListenerResource{}, map[string]xdsresource.Resource{}
	}
	lk := *w
	lk.named, lk.hasNamed = nil, false
	if l := e.liss[lk.String()]; l != nil && !w.noLis {
		e.lis = l
	} else if !w.noLis {
		var tf, hf []*v3listener.Filter
		if w.hasThrift {
			tp := &v3thrift.ThriftProxy{RouteConfig: &v3thrift.RouteConfiguration{Name: "t"}}
			for _, r := range w.thrift {
				tp.RouteConfig.Routes = append(tp.RouteConfig.Routes, r.proto())
			}
			tf = append(tf, &v3listener.Filter{Name: "thrift", ConfigType: &v3listener.Filter_TypedConfig{TypedConfig: hz.Any(xdsresource.ThriftProxyTypeURL, tp)}})
		}
		if !w.noHTTP {
			h := hz.HCMRds("rc")
			if w.hasInline {
				h.RouteSpecifier = &v3http.HttpConnectionManager_RouteConfig{RouteConfig: w.inline.proto("rc")}
			}
			hf = append(hf, hz.HCMFilter(h))
		}
		l := &v3listener.Listener{Name: svc}
		switch w.order {
		case 0:
			l.FilterChains = []*v3listener.FilterChain{{Filters: append(tf, hf...)}}
		case 1:
			l.FilterChains = []*v3listener.FilterChain{{Filters: append(hf, tf...)}}
		case 2:
			l.FilterChains = []*v3listener.FilterChain{{Filters: hf}, {Filters: tf}}
		case 3:
			l.FilterChains = []*v3listener.FilterChain{{Filters: tf}}
			l.DefaultFilterChain = &v3listener.FilterChain{Filters: hf}
		}
		m, err := xdsresource.UnmarshalLDS([]*anypb.Any{hz.Any(hz.URL(hz.LDS), l)})
		if err != nil || m[svc] == nil {
			vrt.Fail("C08", "listener of %v was not decoded: %v", w, err)
			return
		}
		e.lis = m[svc]
		e.liss[lk.String()] = e.lis
	}
	if r := e.rcs[fmt.Sprint(w.named)]; r != nil && w.hasNamed {
		e.rc = r
	} else if w.hasNamed {
		m, err := xdsresource.UnmarshalRDS([]*anypb.Any{hz.Any(hz.URL(hz.RDS), w.named.proto("rc"))})
		if err != nil || m["rc"] == nil {
			vrt.Fail("C08", "route table of %v was not decoded: %v", w, err)
			return
		}
		e.rc = m["rc"]
		e.rcs[fmt.Sprint(w.named)] = e.rc
	}
}

func (e *env) route(w *world, c *call) {
	rpc := hz.Call{To: svc, Pkg: c.pkg, Svc: c.svc, Method: c.method, Transport: c.tp}.New()
	ctx := context.Background()
	r := e.r[0]
	for _, v := range c.md {
		if v == "" { // the default extractor cannot carry it
			c.custom = true
		}
	}
	if c.custom {
		r, e.md = e.r[1], c.md
		ctx = hz.Meta(map[string]string{"k1": "v", "k2": "w"}) // to be ignored
	} else {
		ctx = hz.Meta(c.md)
	}
	res, err := r.Route(ctx, rpc.RI)
	want, to := w.want(c)
	e.n++
	switch {
	case want == "" && (err == nil || res != nil):
		vrt.Fail("C08", "call %v was routed to %+v, expected a routing error; %v", c, res, w)
	case want != "" && err != nil:
		vrt.Fail("C08", "call %v failed (%v), expected cluster %s; %v", c, err, want, w)
	case want != "" && (res == nil || res.ClusterPicked != want || res.RPCTimeout != to):
		vrt.Fail("C08", "call %v was routed to %+v, expected cluster %s with timeout %v; %v", c, res, want, to, w)
	}
	e.outs = append(e.outs, want)
}

// ---- the enumerated spaces ----

var (
	paths  = []string{"=/p.S/m", "=/S/m", "=/p.S/M", "=/p.S/m2", "^/", "^/p.S/", "=/p.S", "*", "^/p.S/m"}
	keys   = []string{"k1", "k2"}
	conds  []cond
	values = []string{"", "v", "v1", "w", "V", "xv1x"}
	kinds  = []cond{{"", "exact", "v"}, {"", "exact", "v1"}, {"", "exact", ""}, {"", "prefix", "v"}, {"", "prefix", "v1"}, {"", "regex", "^v[0-9]$"}, {"", "regex", "^(v|w)$"}, {"", "regex", "^.*$"}, {"", "regex", "(["}}
	tps    = []transport.Protocol{transport.PurePayload, transport.TTHeader, transport.Framed, transport.TTHeaderFramed, transport.GRPC, transport.HTTP, transport.HESSIAN2}
)

func init() {
	for _, k := range keys {
		for _, c := range kinds {
			c.key = k
			conds = append(conds, c)
		}
	}
}

// metas are all metadata maps over the keys and values.
func metas(vals []string) (out []map[string]string) {
	for a := -1; a < len(vals); a++ {
		for b := -1; b < len(vals); b++ {
			m := map[string]string{}
			if a >= 0 {
				m["k1"] = vals[a]
			}
			if b >= 0 {
				m["k2"] = vals[b]
			}
			out = append(out, m)
		}
	}
	return append(out, map[string]string{"K1": "v", "k3": "v"})
}

type sharder struct {
	x *mc.X
	i int
	e *env
}

// next tells whether the shard takes the next table.
func (s *sharder) next() bool {
	s.i++
	return s.i%s.x.Shards == s.x.Shard && !s.x.Expired()
}

func condLists(n int) (out [][]cond) {
	out = append(out, nil)
	for i := range conds {
		out = append(out, []cond{conds[i]})
	}
	for i := range conds {
		for j := range conds {
			out = append(out, []cond{conds[i], conds[j]})
			if n > 2 {
				for k := range conds {
					out = append(out, []cond{conds[i], conds[j], conds[k]})
				}
			}
		}
	}
	return
}

// oneRoute: every route with up to three header conditions (full: for every
// path), every call; once as an HTTP route, once as a Thrift one.
func oneRoute(x *mc.X, full bool) {
	s := &sharder{x: x, e: newEnv(x)}
	ms := metas(values)
	for _, p := range paths {
		n := 2
		if full || p == "^/" {
			n = 3
		}
		for _, cl := range condLists(n) {
			if !s.next() {
				continue
			}
			if p[0] == '=' {
				w := &world{hasThrift: true, thrift: []troute{{strings.TrimPrefix(p[1:], "/p.S/"), cl, "t1"}}, noHTTP: true}
				s.e.load(w)
				for _, md := range ms {
					for _, m := range []string{"m", "M"} {
						s.e.route(w, &call{pkg: "p", svc: "S", method: m, md: md})
					}
				}
			}
			w := &world{hasNamed: true, named: table{{{p, cl, "c1"}}}}
			s.e.load(w)
			for _, md := range ms {
				for _, pk := range []string{"p", ""} {
					for _, m := range []string{"m", "M"} {
						s.e.route(w, &call{pkg: pk, svc: "S", method: m, md: md})
					}
				}
			}
			s.e.route(w, &call{pkg: "p", svc: "S", method: "m", md: map[string]string{"k1": "v1", "k2": "v"}, custom: true})
			s.e.route(w, &call{pkg: "p", svc: "S", method: "m", custom: true})
			s.e.route(w, &call{pkg: "p", svc: "S", method: "m", md: map[string]string{"k1": "w", "k2": ""}, custom: true, tp: transport.GRPC})
		}
	}
	s.e.flush()
	x.Input(s.e.n)
}

var preds = []route{
	{path: "^/"}, {path: "=/p.S/m"}, {path: "=/p.S/M"},
	{path: "^/", conds: []cond{{"k1", "exact", "v"}}},
	{path: "=/p.S/m", conds: []cond{{"k1", "prefix", "v"}}},
	{path: "^/", conds: []cond{{"k1", "regex", "^v[0-9]$"}, {"k2", "exact", "w"}}},
	{path: "=/p.S/m", conds: []cond{{"k2", "exact", "w"}}},
	{path: "^/p.S/"},
	{path: "*"},
}

// layouts of n routes over virtual hosts; -1 starts a new one.
var layouts = map[int][][]int{
	0: {{}, {-1}, {-1, -1}},
	1: {{-1, 0}, {-1, -1, 0}, {-1, 0, -1}},
	2: {{-1, 0, 1}, {-1, 0, -1, 1}, {-1, -1, 0, -1, -1, 1}, {-1, 0, 1, -1}},
	3: {{-1, 0, 1, 2}, {-1, 0, -1, 1, 2}, {-1, 0, 1, -1, 2}, {-1, 0, -1, 1, -1, 2}, {-1, -1, 0, 1, -1, 2}},
	5: {{-1, 0, 1, 2, 3, 4}, {-1, 0, 1, -1, 2, 3, -1, 4}},
	4: {{-1, 0, 1, 2, 3}, {-1, 0, 1, -1, 2, 3}, {-1, 0, -1, 1, 2, -1, 3}, {-1, 0, -1, 1, -1, 2, -1, 3}},
}

func build(lay []int, rs []route) table {
	t := table{}
	for _, i := range lay {
		if i < 0 {
			t = append(t, []route{})
		} else {
			t[len(t)-1] = append(t[len(t)-1], rs[i])
		}
	}
	return t
}

func tuples(n int, f func([]route)) {
	idx := make([]int, n)
	for {
		rs := make([]route, n)
		for i, k := range idx {
			rs[i] = preds[k]
			rs[i].id = fmt.Sprint("c", i)
		}
		f(rs)
		i := n - 1
		for ; i >= 0; i-- {
			idx[i]++
			if idx[i] < len(preds) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// orders: tables of up to n routes, overlapping and not, in every layout.
func orders(x *mc.X, n int) {
	s := &sharder{x: x, e: newEnv(x)}
	ms := metas([]string{"v", "v1", "w"})
	for k := 0; k <= n; k++ {
		tuples(k, func(rs []route) {
			for _, lay := range layouts[k] {
				if !s.next() {
					continue
				}
				w := &world{hasNamed: true, named: build(lay, rs)}
				s.e.load(w)
				for _, md := range ms {
					for _, m := range []string{"m", "M", "q"} {
						s.e.route(w, &call{pkg: "p", svc: "S", method: m, md: md, tp: transport.TTHeader})
					}
				}
			}
		})
	}
	s.e.flush()
	x.Input(s.e.n)
}

// layers: the Thrift, inline and named tables against one another.
func layers(x *mc.X) {
	s := &sharder{x: x, e: newEnv(x)}
	k1 := []cond{{"k1", "exact", "v"}}
	k2 := []cond{{"k2", "prefix", "w"}}
	thrifts := [][]troute{nil, {}, {{"m", nil, "t1"}}, {{"", nil, "t1"}}, {{"M", nil, "t1"}}, {{"m", k1, "t1"}}, {{"", k1, "t1"}, {"m", nil, "t2"}},
		{{"m", k1, "t1"}, {"m", k2, "t2"}}, {{"m", []cond{{"k1", "exact", "v"}, {"k2", "regex", "^w.$"}}, "t1"}, {"M", nil, "t2"}}, {{"m", k2, "none"}}, {{"M", k1, "t1"}, {"m", nil, "t2"}, {"", nil, "t3"}}}
	tables := []table{nil, {}, {{}}, {{{"^/", nil, "1"}}}, {{{"=/p.S/m", nil, "1"}}}, {{{"^/", k1, "1"}}}, {{{"=/p.S/m", k2, "1"}}, {{"^/", nil, "2"}}}, {{{"=/p.S/m", k1, "none"}, {"^/", k1, "2"}}}}
	name := func(t table, pfx string) table {
		var o table
		for _, vh := range t {
			n := []route{}
			for _, r := range vh {
				if r.id != "none" {
					r.id = pfx + r.id
				}
				n = append(n, r)
			}
			o = append(o, n)
		}
		return o
	}
	ms := metas([]string{"v", "w", "w1"})
	for ti, th := range thrifts {
		for ii, in := range tables {
			for ni, nm := range tables {
				for mode := 0; mode < 6; mode++ {
					if !s.next() {
						continue
					}
					w := &world{hasThrift: ti > 0, thrift: th, order: mode, hasInline: ii > 0, inline: name(in, "i"), hasNamed: ni > 0, named: name(nm, "n")}
					if mode == 4 {
						w.order, w.noHTTP = 0, true
					}
					if mode == 5 {
						w.order, w.noLis = 0, true
					}
					s.e.load(w)
					for _, md := range ms {
						for _, m := range []string{"m", "M"} {
							for _, tp := range tps {
								s.e.route(w, &call{pkg: "p", svc: "S", method: m, md: md, tp: tp, custom: mode == 1})
							}
						}
					}
				}
			}
		}
	}
	s.e.flush()
	x.Input(s.e.n)
}

// sizes: long tables, with the matching route anywhere, and long lists of
// header conditions, with the failing one anywhere.
func sizes(x *mc.X, ks []int) {
	s := &sharder{x: x, e: newEnv(x)}
	at := func(k int) []int {
		m := map[int]bool{0: true, 1: true, k / 2: true, k - 2: true, k - 1: true}
		var l []int
		for i := 0; i < k; i++ {
			if m[i] || k <= 20 || i%16 == 0 || i%10 == 9 {
				l = append(l, i)
			}
		}
		return l
	}
	lay := func(k int, f func(i int) route) []table {
		one, each, many, two := table{nil}, table{}, table{nil}, table{nil, nil}
		for i := 0; i < k; i++ {
			r := f(i)
			one[0] = append(one[0], r)
			each = append(each, []route{r})
			if i%3 == 2 {
				many = append(many, nil)
			}
			many[len(many)-1] = append(many[len(many)-1], r)
			h := 0
			if i >= (k+1)/2 {
				h = 1
			}
			two[h] = append(two[h], r)
		}
		return []table{one, each, many, two}
	}
	for _, k := range ks {
		k := k
		kinds := []func(i int) route{
			// told apart by the path
			func(i int) route { return route{path: fmt.Sprintf("=/p.S/m%d", i), id: fmt.Sprint("c", i)} },
			// the same, a catch-all at the end
			func(i int) route {
				if i == k-1 {
					return route{path: "^/", id: "all"}
				}
				return route{path: fmt.Sprintf("=/p.S/m%d", i), id: fmt.Sprint("c", i)}
			},
			// told apart by one header
			func(i int) route {
				return route{path: "^/", conds: []cond{{"k1", "exact", fmt.Sprint("v", i)}}, id: fmt.Sprint("c", i)}
			},
			// all but one of the conditions hold in every route but one
			func(i int) route {
				return route{path: "=/p.S/m", conds: []cond{{"k2", "prefix", "v"}, {"k1", "prefix", fmt.Sprintf("v%d.", i)}}, id: fmt.Sprint("c", i)}
			},
		}
		for ki, f := range kinds {
			for _, t := range lay(k, f) {
				if !s.next() {
					continue
				}
				w := &world{hasNamed: true, named: t}
				if ki == 1 {
					w.hasInline, w.inline, w.named = true, t, table{{{"^/", nil, "named"}}}
				}
				s.e.load(w)
				for _, j := range append(at(k), k, k+1) {
					c := &call{pkg: "p", svc: "S", method: "m"}
					switch ki {
					case 0, 1:
						c.method = fmt.Sprint("m", j)
					case 2:
						c.md = map[string]string{"k1": fmt.Sprint("v", j)}
					case 3:
						c.md = map[string]string{"k1": fmt.Sprintf("v%d.x", j), "k2": "v", "k3": "z"}
					}
					s.e.route(w, c)
				}
			}
		}
		// Thrift routes
		if s.next() {
			w := &world{hasThrift: true, hasNamed: true, named: table{{{"^/", nil, "http"}}}}
			for i := 0; i < k; i++ {
				w.thrift = append(w.thrift, troute{fmt.Sprint("m", i/2), []cond{{"k1", "exact", fmt.Sprint("v", i%2)}}, fmt.Sprint("t", i)})
			}
			s.e.load(w)
			for _, j := range append(at(k), k, k+1) {
				s.e.route(w, &call{pkg: "p", svc: "S", method: fmt.Sprint("m", j/2), md: map[string]string{"k1": fmt.Sprint("v", j%2)}})
			}
		}
		// conditions
		if k <= 130 && s.next() {
			var cs []cond
			md := map[string]string{}
			for i := 0; i < k; i++ {
				key := fmt.Sprint("h", i)
				cs = append(cs, []cond{{key, "exact", "val"}, {key, "prefix", "va"}, {key, "regex", "^v.l$"}}[i%3])
				md[key] = "val"
			}
			w := &world{hasThrift: true, thrift: []troute{{"m", cs, "t1"}}, hasNamed: true, named: table{{{"^/", cs, "c1"}, {"=/p.S/m", nil, "c2"}}}}
			s.e.load(w)
			for j := -1; j < k; j++ {
				for _, v := range []string{"", "va", "xval"} {
					m := map[string]string{}
					for a, b := range md {
						m[a] = b
					}
					if j >= 0 {
						key := fmt.Sprint("h", j)
						if v == "" {
							delete(m, key)
						} else {
							m[key] = v
						}
					}
					s.e.route(w, &call{pkg: "p", svc: "S", method: "m", md: m})
					s.e.route(w, &call{pkg: "p", svc: "S", method: "m", md: m, tp: transport.GRPC})
				}
			}
		}
	}
	s.e.flush()
	x.Input(s.e.n)
}

// names: spellings of packages, services, methods, paths, keys and values which
// a careless comparison takes for one another.
func names(x *mc.X) {
	s := &sharder{x: x, e: newEnv(x)}
	type nm struct{ pkg, svc, method string }
	calls := []nm{{"p", "S", "m"}, {"P", "S", "m"}, {"p", "s", "m"}, {"p", "S", "M"}, {"", "p.S", "m"}, {"a.p", "S", "m"}, {"a", "p.S", "m"}, {"p", "S", "m2"}, {"p", "S", "mm"}, {"p", "SS", "m"}, {"pp", "S", "m"},
		{"p", "S", ""}, {"", "", "m"}, {"", "S", ""}, {"p", "S", "m/m"}, {"p", "S/m", "m"}, {"p", "S", "*"}, {"p", "S", "ü"}, {"p-q", "S_t", "m~n"}, {"p", "S", "m "}, {"p", "S", "m?x=1"}, {"p", "S", "%6d"}}
	extra := []string{"=/", "=//m", "=p.S/m", "=/p.S/m/", "=/p.S/", "=/*", "^", "^/p", "^//", "^/*"}
	for i, n := range calls {
		c := &call{pkg: n.pkg, svc: n.svc, method: n.method}
		extra = append(extra, "="+c.path())
		_ = i
	}
	for i, p := range extra {
		for j, q := range extra {
			if i == j || !s.next() {
				continue
			}
			w := &world{hasNamed: true, named: table{{{p, nil, "c1"}, {q, nil, "c2"}}}}
			s.e.load(w)
			for _, n := range calls {
				s.e.route(w, &call{pkg: n.pkg, svc: n.svc, method: n.method, tp: transport.GRPC})
				s.e.route(w, &call{pkg: n.pkg, svc: n.svc, method: n.method})
			}
		}
	}
	for _, n := range calls {
		for _, n2 := range calls {
			if n.method == "" || n2.method == "" || n.method == n2.method || !s.next() {
				continue
			}
			w := &world{hasThrift: true, thrift: []troute{{n.method, nil, "t1"}, {n2.method, nil, "t2"}}}
			s.e.load(w)
			for _, m := range calls {
				if m.method != "" {
					s.e.route(w, &call{pkg: m.pkg, svc: m.svc, method: m.method})
				}
			}
		}
	}
	ks := []string{"k", "K", "k-k", "K-K", "k_k", "K_K", "kk", "k ", "x-k", "RPC_K", "ü", ":k", "k.k"}
	vs := []string{"v", "V", "v ", " v", "vv", "v,v", "v\n", "ü", "v\x00", "1", "01", "true", "v.v", "vxv", "^v$", "*", "va", "v=v", "\"v\""}
	custom := []bool{false, true}
	for _, k := range ks {
		for _, kind := range []string{"exact", "prefix", "regex"} {
			for _, v := range vs {
				if !s.next() {
					continue
				}
				val := v
				if kind == "regex" {
					val = "^" + regexp.QuoteMeta(v) + "$"
				}
				w := &world{hasNamed: true, named: table{{{"^/", []cond{{k, kind, val}}, "c1"}}}, hasThrift: true, thrift: []troute{{"m", []cond{{k, kind, val}}, "t1"}}}
				s.e.load(w)
				for _, k2 := range ks {
					for _, v2 := range vs {
						for _, cu := range custom {
							if !cu && k2 == "RPC_K" {
								continue // metainfo gives it a meaning
							}
							s.e.route(w, &call{pkg: "p", svc: "S", method: "m", md: map[string]string{k2: v2}, custom: cu})
							s.e.route(w, &call{pkg: "p", svc: "S", method: "m", md: map[string]string{k2: v2, "o": v}, custom: cu, tp: transport.GRPC})
						}
					}
				}
			}
		}
	}
	s.e.flush()
	x.Input(s.e.n)
}

// updates: two services whose listeners and tables change one after the
// other, the same objects coming back or not, seen by one router.
func updates(depth int) func(x *mc.X) {
	type lis struct {
		l    *xdsresource.ListenerResource
		name string // the table, "" for an inline one
		want string
	}
	type tab struct {
		r    xdsresource.Resource
		want string
	}
	return func(x *mc.X) {
		decL := func(name, id string) lis {
			h := hz.HCMRds(name)
			if name == "" {
				h.RouteSpecifier = &v3http.HttpConnectionManager_RouteConfig{RouteConfig: table{{{"=/S/m", nil, id}}}.proto("x")}
			}
			m, err := xdsresource.UnmarshalLDS([]*anypb.Any{hz.Any(hz.URL(hz.LDS), &v3listener.Listener{Name: "l", FilterChains: []*v3listener.FilterChain{{Filters: []*v3listener.Filter{hz.HCMFilter(h)}}}})})
			if err != nil {
				vrt.Fail("C08", "listener was not decoded: %v", err)
			}
			return lis{m["l"], name, id}
		}
		decT := func(id string) tab {
			m, err := xdsresource.UnmarshalRDS([]*anypb.Any{hz.Any(hz.URL(hz.RDS), table{{{"=/S/m", nil, id}}, {{"^/", nil, id + "-rest"}}}.proto("t"))})
			if err != nil {
				vrt.Fail("C08", "table was not decoded: %v", err)
			}
			return tab{m["t"], id}
		}
		mkL := func() []lis { return []lis{decL("r1", ""), decL("r2", ""), decL("", "i1"), decL("", "i2")} }
		mkT := func() []tab { return []tab{decT("a"), decT("b"), {}} }
		keepL, keepT := mkL(), mkT()
		md := hz.Meta(nil)
		mc.Enum(x, func(c *mc.Chooser) func() {
			fresh := c.Bool()
			n := make([]int, depth)
			for i := range n {
				n[i] = c.Choose(14)
			}
			return func() {
				curL := map[string]lis{"s1": keepL[0], "s2": keepL[1]}
				curT := map[string]tab{"r1": keepT[0], "r2": keepT[1]}
				hz.Px.Cur = &hz.Src{F: func(t xdsresource.ResourceType, name string) (interface{}, error) {
					if l, ok := curL[name]; ok && t == hz.LDS {
						return l.l, nil
					}
					if r := curT[name]; r.r != nil && t == hz.RDS {
						return r.r, nil
					}
					return nil, errors.New("no such resource")
				}}
				r := xdssuite.NewXDSRouter()
				said := ""
				look := func() {
					for _, s := range []string{"s1", "s2"} {
						for _, m := range []string{"m", "o"} {
							l := curL[s]
							want := curT[l.name].want
							if m == "o" && want != "" {
								want += "-rest"
							}
							if m == "m" && l.want != "" {
								want = l.want
							}
							if l.name == "" && m == "o" {
								continue // after an inline table comes one without name
							}
							rpc := hz.Call{To: s, Svc: "S", Method: m}.New()
							res, err := r.Route(md, rpc.RI)
							got := ""
							if err == nil && res != nil {
								got = res.ClusterPicked
							}
							if got != want {
								vrt.Fail("C08", "a call of %s/%s was routed to %q (%v), expected %q, after%s", s, m, got, err, want, said)
							}
							said += " " + got
						}
					}
				}
				look()
				for _, k := range n {
					ls, ts := keepL, keepT
					if fresh {
						ls, ts = mkL(), mkT()
					}
					if k < 8 {
						s := []string{"s1", "s2"}[k/4]
						curL[s] = ls[k%4]
						said += fmt.Sprintf("; listener %s %d:", s, k%4)
					} else {
						s := []string{"r1", "r2"}[(k-8)/3]
						curT[s] = ts[(k-8)%3]
						said += fmt.Sprintf("; table %s %d:", s, (k-8)%3)
					}
					look()
				}
				x.State(said)
			}
		})
	}
}

func main() {
	mc.Main(&mc.Check{
		Property: "C08",
		Init:     hz.InstallProxy,
		Scenarios: func(tier string) []*mc.Scenario {
			n, full, ud := 4, false, 3
			ks := []int{6, 9, 17, 33, 65, 129, 257}
			if tier == "thorough" {
				n, full, ud = 5, true, 4
				ks = append(ks, 7, 8, 16, 32, 64, 100, 128, 256, 513, 1025, 3000)
			}
			return []*mc.Scenario{
				{Name: "one-route", Shards: 16, Body: func(x *mc.X) { oneRoute(x, full) }, Bounds: "9 path conditions x all lists of up to 2 (3 for the catch-all; thorough: for all) header conditions (2 keys x 9 matchers) x all metadata over 2 keys and 6 values x 4 paths"},
				{Name: "orders", Shards: 16, Body: func(x *mc.X) { orders(x, n) }, Bounds: fmt.Sprintf("all tables of up to %d routes over 9 predicates in 2..5 virtual-host layouts x 17 metadata x 3 methods", n)},
				{Name: "sizes", Shards: 16, Body: func(x *mc.X) { sizes(x, ks) }, Bounds: fmt.Sprintf("tables of %v routes in 4 virtual-host layouts, told apart by path, header or both, and as many conditions on one route; the matching route or failing condition at up to 130 positions", ks)},
				{Name: "names", Shards: 16, Body: names, Bounds: "all pairs of 32 path conditions x 22 calls; all pairs of 20 Thrift methods; 13 keys x 3 matchers x 19 values against 13 keys x 19 values"},
				{Name: "updates", Shards: 16, Body: updates(ud), Bounds: fmt.Sprintf("all sequences of %d updates of the listeners (2 names, 2 inline tables) and tables (2, absent) of two services, the same objects coming back or new ones, calls of both after each", ud)},
				{Name: "layers", Shards: 16, Body: layers, Bounds: "11 Thrift tables x 8 inline x 8 named x 6 listener shapes x 17 metadata x 2 methods x 7 transports"},
			}
		},
	})
}
