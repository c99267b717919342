// C15: the routing step decides the destination once and fails closed.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/cloudwego/kitex/pkg/discovery"
	"github.com/cloudwego/kitex/pkg/endpoint"
	"github.com/cloudwego/kitex/pkg/kerrors"
	"github.com/cloudwego/kitex/pkg/retry"
	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo"
	"github.com/cloudwego/kitex/transport"
	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3endpoint "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3http "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	. "github.com/kitex-contrib/xds/verifrt/hist"
	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/mc"
	"github.com/kitex-contrib/xds/verifrt/vrt"
	"github.com/kitex-contrib/xds/xdssuite"
)

const ms = time.Millisecond

// ---- what the control plane may supply ----

// route outcomes: clusters with weights (-1: not given) and a timeout.
type action struct {
	desc    string
	names   []string
	weights []int64 // nil: a single named cluster
	timeout time.Duration
}

// picks are the clusters that may be selected; none: selection fails.
func (a *action) picks() (out []string) {
	if a.weights == nil {
		return a.names
	}
	if len(a.names) == 1 {
		return a.names
	}
	for i, w := range a.weights {
		if w > 0 {
			out = append(out, a.names[i])
		}
	}
	return
}

func wv(w int64) *wrapperspb.UInt32Value {
	if w < 0 {
		return nil
	}
	return wrapperspb.UInt32(uint32(w))
}

func (a *action) http() *v3route.Route_Route {
	ra := &v3route.RouteAction{}
	if a.timeout != 0 {
		ra.Timeout = durationpb.New(a.timeout)
	}
	switch {
	case a.weights != nil:
		wc := &v3route.WeightedCluster{}
		for i, n := range a.names {
			wc.Clusters = append(wc.Clusters, &v3route.WeightedCluster_ClusterWeight{Name: n, Weight: wv(a.weights[i])})
		}
		ra.ClusterSpecifier = &v3route.RouteAction_WeightedClusters{WeightedClusters: wc}
	case len(a.names) == 1:
		ra.ClusterSpecifier = &v3route.RouteAction_Cluster{Cluster: a.names[0]}
	}
	return &v3route.Route_Route{Route: ra}
}

func (a *action) thrift() *v3thrift.RouteAction {
	ta := &v3thrift.RouteAction{}
	switch {
	case a.weights != nil:
		wc := &v3thrift.WeightedCluster{}
		for i, n := range a.names {
			wc.Clusters = append(wc.Clusters, &v3thrift.WeightedCluster_ClusterWeight{Name: n, Weight: wv(a.weights[i])})
		}
		ta.ClusterSpecifier = &v3thrift.RouteAction_WeightedClusters{WeightedClusters: wc}
	case len(a.names) == 1:
		ta.ClusterSpecifier = &v3thrift.RouteAction_Cluster{Cluster: a.names[0]}
	}
	return ta
}

func actions(pre string) []*action {
	p := func(s ...string) (out []string) {
		for _, x := range s {
			out = append(out, pre+x)
		}
		return
	}
	return []*action{
		{"one cluster, 5 s", p("c1"), nil, 5 * time.Second},
		{"one cluster, no timeout", p("c1"), nil, 0},
		{"one cluster, 1 ms", p("c2"), nil, ms},
		{"two weighted", p("w1", "w2"), []int64{1, 1}, 700 * ms},
		{"three weighted, one zero, huge", p("w1", "w0", "w3"), []int64{4294967295, 0, 4294967295}, time.Second},
		{"one weighted, zero", p("w1"), []int64{0}, time.Second},
		{"one weighted, weight not given", p("w1"), []int64{-1}, time.Second},
		{"two weighted, all zero", p("w1", "w2"), []int64{0, 0}, time.Second},
		{"two weighted, weights not given", p("w1", "w2"), []int64{-1, -1}, time.Second},
		{"weighted, none listed", nil, []int64{}, time.Second},
		{"no cluster specifier", nil, nil, time.Second},
	}
}

func table(name string, match bool, a *action) *v3route.RouteConfiguration {
	m := &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Path{Path: "/no/such"}}
	if match {
		m = &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}}
	}
	return &v3route.RouteConfiguration{Name: name, VirtualHosts: []*v3route.VirtualHost{{Name: "v0"}, {Name: "v", Domains: []string{"*"}, Routes: []*v3route.Route{
		{Match: &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Path{Path: "/zz"}}, Action: (&action{names: []string{"wrong"}}).http()},
		{Match: m, Action: a.http()}}}}}
}

// outcome of a lookup: a resource and what routing by it yields.
type outcome struct {
	desc string
	res  interface{} // nil: the lookup fails
	// of a listener
	rpc    *action // thrift route
	http   bool
	inl    *action // inline route
	rds    string  // named table
	called *action // matching route of a table
}

func listener(fs ...*v3listener.Filter) interface{} {
	m, err := xdsresource.UnmarshalLDS([]*anypb.Any{hz.Any(hz.URL(hz.LDS), &v3listener.Listener{Name: "svc", FilterChains: []*v3listener.FilterChain{{Filters: fs}}})})
	if err != nil {
		panic(err)
	}
	return m["svc"]
}

func thriftFilter(match bool, a *action) *v3listener.Filter {
	name := "m"
	if !match {
		name = "other"
	}
	return hz.FilterOf(xdsresource.ThriftProxyTypeURL, hz.BytesOf(&v3thrift.ThriftProxy{RouteConfig: &v3thrift.RouteConfiguration{Routes: []*v3thrift.Route{{
		Match: &v3thrift.RouteMatch{MatchSpecifier: &v3thrift.RouteMatch_MethodName{MethodName: name}}, Route: a.thrift()}}}}))
}

func inlineFilter(rc *v3route.RouteConfiguration) *v3listener.Filter {
	return hz.HCMFilter(&v3http.HttpConnectionManager{RouteSpecifier: &v3http.HttpConnectionManager_RouteConfig{RouteConfig: rc}})
}

func listeners() (out []*outcome) {
	rc := hz.HCMFilter(hz.HCMRds("rc"))
	add := func(o *outcome) { out = append(out, o) }
	add(&outcome{desc: "no listener"})
	add(&outcome{desc: "listener without filters", res: listener()})
	add(&outcome{desc: "listener with an unknown filter", res: listener(hz.FilterOf("x", nil))})
	add(&outcome{desc: "named table", res: listener(rc), http: true, rds: "rc"})
	add(&outcome{desc: "another named table", res: listener(hz.HCMFilter(hz.HCMRds("gone"))), http: true, rds: "gone"})
	add(&outcome{desc: "connection manager without routes", res: listener(hz.HCMFilter(&v3http.HttpConnectionManager{})), http: true})
	add(&outcome{desc: "empty inline table", res: listener(inlineFilter(&v3route.RouteConfiguration{Name: "inl"})), http: true})
	add(&outcome{desc: "inline table of a virtual host without routes", res: listener(inlineFilter(&v3route.RouteConfiguration{Name: "inl", VirtualHosts: []*v3route.VirtualHost{{}}})), http: true})
	add(&outcome{desc: "empty thrift proxy", res: listener(hz.FilterOf(xdsresource.ThriftProxyTypeURL, nil))})
	as := actions("i-")
	ts := actions("t-")
	for i, a := range as {
		a := a
		add(&outcome{desc: "inline table: " + a.desc, res: listener(inlineFilter(table("inl", true, a))), http: true, inl: a})
		if i < 3 {
			add(&outcome{desc: "inline table without match", res: listener(inlineFilter(table("inl", false, a))), http: true})
		}
		t := *ts[i]
		t.timeout = 0
		add(&outcome{desc: "thrift only: " + a.desc, res: listener(thriftFilter(true, &t)), rpc: &t})
		add(&outcome{desc: "thrift and named table: " + a.desc, res: listener(thriftFilter(true, &t), rc), rpc: &t, http: true, rds: "rc"})
		add(&outcome{desc: "inline and thrift: " + a.desc, res: listener(inlineFilter(table("inl", true, a)), thriftFilter(true, &t)), rpc: &t, http: true, inl: a})
	}
	add(&outcome{desc: "thrift without match", res: listener(thriftFilter(false, ts[0]))})
	add(&outcome{desc: "thrift without match and named table", res: listener(thriftFilter(false, ts[0]), rc), http: true, rds: "rc"})
	return
}

func decodeRC(rc *v3route.RouteConfiguration) interface{} {
	m, err := xdsresource.UnmarshalRDS([]*anypb.Any{hz.Any(hz.URL(hz.RDS), rc)})
	if err != nil {
		panic(err)
	}
	return m[rc.Name]
}

func tables() (out []*outcome) {
	out = append(out, &outcome{desc: "no table"}, &outcome{desc: "empty table", res: decodeRC(&v3route.RouteConfiguration{Name: "rc"})},
		&outcome{desc: "table of a virtual host without routes", res: decodeRC(&v3route.RouteConfiguration{Name: "rc", VirtualHosts: []*v3route.VirtualHost{{Name: "v"}}})},
		&outcome{desc: "table without match", res: decodeRC(table("rc", false, actions("")[0]))})
	for _, a := range actions("") {
		out = append(out, &outcome{desc: "table: " + a.desc, res: decodeRC(table("rc", true, a)), called: a})
	}
	return
}

// expect is the reference: the matched route, or nil when routing fails.
func expect(l, t *outcome, p transport.Protocol) *action {
	var a *action
	switch {
	case l.res == nil:
	case p != transport.GRPC && l.rpc != nil:
		a = l.rpc
	case !l.http:
	case l.inl != nil:
		a = l.inl
	case l.rds == "rc" && t.res != nil:
		a = t.called
	}
	if a == nil || len(a.picks()) == 0 {
		return nil
	}
	return a
}

func in(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// ---- one routing step ----

type obs struct {
	err    error
	nexts  int
	pan    string
	tag    string
	tagged bool
	to     time.Duration
}

type ctxKey struct{}

// driver calls the routing step and the retry-key computation.
type driver struct {
	mw    endpoint.Middleware
	retry *retry.Container
}

func newDriver(opts ...xdssuite.Option) *driver {
	return &driver{mw: xdssuite.NewXDSRouterMiddleware(opts...), retry: hz.ApplyClient(xdssuite.NewRetryPolicy(opts...)).Retry}
}

// failures are what the call proper may return.
var failures = func() []error {
	plain := errors.New("the call itself failed")
	l := []error{plain, context.DeadlineExceeded, context.Canceled, os.ErrDeadlineExceeded, io.EOF, kerrors.NewBizStatusError(1, "x"), kerrors.NewGRPCBizStatusError(2, "y")}
	for _, e := range []error{
		kerrors.ErrServiceDiscovery, kerrors.ErrNoInstance, kerrors.ErrNoMoreInstance, kerrors.ErrGetConnection, kerrors.ErrNoConnection, kerrors.ErrLoadbalance,
		kerrors.ErrRPCTimeout, kerrors.ErrCanceledByBusiness, kerrors.ErrTimeoutByBusiness, kerrors.ErrRoute, kerrors.ErrCircuitBreak, kerrors.ErrServiceCircuitBreak,
		kerrors.ErrInstanceCircuitBreak, kerrors.ErrRemoteOrNetwork, kerrors.ErrOverlimit, kerrors.ErrACL, kerrors.ErrInternalException, kerrors.ErrNoResolver,
		kerrors.ErrNoDestService, kerrors.ErrNoDestAddress, kerrors.ErrRPCFinish, kerrors.ErrRetry, kerrors.ErrBiz, kerrors.ErrPanic,
	} {
		l = append(l, e)
		if w, ok := e.(interface{ WithCause(error) error }); ok {
			l = append(l, w.WithCause(plain))
		}
	}
	return l
}()

func guard(o *obs, f func()) {
	ok := false
	defer func() {
		if !ok {
			if p := recover(); p != nil {
				o.pan = fmt.Sprintf("%v\n%s", p, debug.Stack())
			}
		}
	}()
	f()
	ok = true
}

// step passes the call through the routing step (with keyFirst, as a call to
// which retry policies may apply) and reports what came out.
func (d *driver) step(ctx context.Context, ri rpcinfo.RPCInfo, keyFirst bool, nextErr error) *obs {
	o := &obs{}
	type q struct{ n int }
	req, resp := &q{1}, &q{2}
	ctx = rpcinfo.NewCtxWithRPCInfo(context.WithValue(ctx, ctxKey{}, "v"), ri)
	next := func(c context.Context, a, b interface{}) error {
		o.nexts++
		if a != interface{}(req) || b != interface{}(resp) || c.Value(ctxKey{}) != "v" || rpcinfo.GetRPCInfo(c) != ri {
			vrt.Fail("C15", "the call was passed on with another context, request or response")
		}
		o.tag, o.tagged = ri.To().Tag(xdssuite.RouterClusterKey)
		o.to = ri.Config().RPCTimeout()
		return nextErr
	}
	ep := d.mw(next)
	guard(o, func() {
		if !keyFirst {
			o.err = ep(ctx, req, resp)
			return
		}
		_, _, o.err = d.retry.WithRetryIfNeeded(ctx, nil, func(c context.Context, r retry.Retryer) (rpcinfo.RPCInfo, interface{}, error) {
			return ri, resp, ep(ctx, req, resp)
		}, ri, req)
	})
	return o
}

// decided is the reference state of a call.
type decided struct {
	tag string
	to  time.Duration
}

// judge checks one step of a call; it returns the state after it.
func judge(what string, o *obs, rpc *hz.RPC, before *decided, a *action, nextErr error, prevTO time.Duration) *decided {
	fail := func(f string, x ...interface{}) {
		vrt.Fail("C15", "%s: %s", what, fmt.Sprintf(f, x...))
	}
	if o.pan != "" {
		fail("panic: %s", o.pan)
	}
	tag, tagged := rpc.RI.To().Tag(xdssuite.RouterClusterKey)
	if before == nil && a == nil {
		if o.nexts != 0 {
			fail("routing cannot succeed, but the call was passed on (%d times), to %q", o.nexts, o.tag)
		}
		if o.err == nil || !errors.Is(o.err, kerrors.ErrRoute) {
			fail("routing cannot succeed, the call returned %v, not a routing error", o.err)
		}
		if tagged {
			fail("routing failed, but the call is destined for %q", tag)
		}
		return nil
	}
	if o.nexts != 1 {
		fail("the call was passed on %d times (error %v)", o.nexts, o.err)
	}
	if o.err != nextErr && !(nextErr != nil && errors.Is(o.err, nextErr)) {
		fail("the call returned %v, the call proper had returned %v", o.err, nextErr)
	}
	if before != nil {
		if !o.tagged || o.tag != before.tag || tag != before.tag {
			fail("the destination was %q already, it is now %q", before.tag, tag)
		}
		if o.to != before.to || rpc.RI.Config().RPCTimeout() != before.to {
			fail("the destination was decided and the timeout %v, the timeout is now %v", before.to, rpc.RI.Config().RPCTimeout())
		}
		return before
	}
	if !o.tagged || !in(a.picks(), o.tag) {
		fail("passed on to %q (set: %v), the route selects among %v", o.tag, o.tagged, a.picks())
	}
	if o.to != a.timeout {
		fail("passed on with timeout %v (was %v), the route's timeout is %v", o.to, prevTO, a.timeout)
	}
	if tag != o.tag || !tagged {
		fail("the destination changed from %q to %q during the call", o.tag, tag)
	}
	return &decided{tag: o.tag, to: o.to}
}

func locked(what string, rpc *hz.RPC) {
	old, _ := rpc.RI.To().Tag(xdssuite.RouterClusterKey)
	remoteinfo.AsRemoteInfo(rpc.RI.To()).SetTag(xdssuite.RouterClusterKey, "elsewhere")
	if now, _ := rpc.RI.To().Tag(xdssuite.RouterClusterKey); now != old {
		vrt.Fail("C15", "%s: the recorded destination %q can be changed, it is not locked", what, old)
	}
}

// calls enumerates sequences of steps of one call while what the control plane
// supplies changes from step to step.
func calls(steps int, few bool) func(x *mc.X) {
	return func(x *mc.X) {
		ls, ts := listeners(), tables()
		if few {
			var l2, t2 []*outcome
			for _, o := range ls {
				switch o.desc {
				case "no listener", "listener without filters", "named table", "connection manager without routes", "inline table: two weighted",
					"thrift only: one cluster, 5 s", "thrift and named table: two weighted, all zero", "inline and thrift: two weighted", "thrift without match and named table":
					l2 = append(l2, o)
				}
			}
			for _, o := range ts {
				switch o.desc {
				case "no table", "table without match", "table: one cluster, 5 s", "table: two weighted", "table: two weighted, all zero":
					t2 = append(t2, o)
				}
			}
			if len(l2) != 9 || len(t2) != 5 {
				panic("outcomes")
			}
			ls, ts = l2, t2
		}
		var l, t *outcome
		src := &hz.Src{F: func(ty xdsresource.ResourceType, n string) (interface{}, error) {
			if ty == hz.LDS && n == "svc" && l.res != nil {
				return l.res, nil
			}
			if ty == hz.RDS && n == "rc" && t.res != nil {
				return t.res, nil
			}
			return nil, hz.ErrAbsent
		}}
		hz.Px.Cur = src
		plain := newDriver()
		byMethod := newDriver(xdssuite.WithMatchRetryMethod(true))
		mc.Enum(x, func(c *mc.Chooser) func() {
			type st struct {
				l, t *outcome
				key  bool
				err  error
			}
			call := hz.Call{To: "svc", Svc: "S", Method: "m", Timeout: 3 * time.Second}
			if c.Bool() {
				call.Transport = transport.GRPC
			} else {
				call.Transport = transport.TTHeader
			}
			if !few && c.Bool() {
				call.Pkg = "p"
			}
			var pre *decided
			if c.Bool() {
				call.Tags = map[string]string{xdssuite.RouterClusterKey: "chosen", "x": "y"}
				pre = &decided{"chosen", call.Timeout}
			}
			d := plain
			if c.Bool() {
				d = byMethod
			}
			draw := c.Choose(3)
			var ss []st
			for i := 0; i < steps; i++ {
				li, ti := c.Choose(len(ls)), c.Choose(len(ts))
				s := st{l: ls[li], t: ts[ti], key: c.Bool()}
				if c.Bool() {
					// every kind of failure in turn
					s.err = failures[(li*len(ts)+ti+i)%len(failures)]
				}
				ss = append(ss, s)
			}
			return func() {
				n := uint64(0)
				vrt.SetDraw(func(r uint64) (uint64, bool) {
					n++
					var v uint64
					switch (uint64(draw) + n) % 3 {
					case 1:
						v = r / 2
					case 2:
						v = r - 1
					}
					return v, true
				})
				defer vrt.SetDraw(nil)
				rpc := call.New()
				state := pre
				what := fmt.Sprintf("%v pkg=%q tags=%v", call.Transport, call.Pkg, call.Tags)
				for i, s := range ss {
					l, t = s.l, s.t
					src.Asked = nil
					what += fmt.Sprintf(" ; step %d (retry key first: %v): %s, %s", i, s.key, l.desc, t.desc)
					a := expect(l, t, call.Transport)
					prev := rpc.RI.Config().RPCTimeout()
					o := d.step(context.Background(), rpc.RI, s.key, s.err)
					next := judge(what, o, rpc, state, a, s.err, prev)
					if state == nil && next != nil {
						locked(what, rpc)
					}
					state = next
				}
				// a second call is decided independently of the first
				tag, _ := rpc.RI.To().Tag(xdssuite.RouterClusterKey)
				x.State(ss[len(ss)-1].l.desc, ss[len(ss)-1].t.desc, tag, rpc.RI.Config().RPCTimeout(), call.Transport)
				if x.WantSample() {
					x.Sample(what + fmt.Sprintf(" -> %q %v", tag, rpc.RI.Config().RPCTimeout()))
				}
			}
		})
	}
}

// nobody: calls without a destination.
func nobody(x *mc.X) {
	hz.Px.Cur = &hz.Src{F: func(xdsresource.ResourceType, string) (interface{}, error) { return nil, hz.ErrAbsent }}
	mc.Enum(x, func(c *mc.Chooser) func() {
		d := newDriver(xdssuite.WithMatchRetryMethod(c.Bool()))
		key := c.Bool()
		return func() {
			cfg := rpcinfo.NewRPCConfig()
			ri := rpcinfo.NewRPCInfo(nil, nil, rpcinfo.NewInvocation("S", "m"), cfg, nil)
			o := &obs{}
			n := 0
			ctx := rpcinfo.NewCtxWithRPCInfo(context.Background(), ri)
			ep := d.mw(func(context.Context, interface{}, interface{}) error { n++; return nil })
			guard(o, func() {
				if key {
					_, _, o.err = d.retry.WithRetryIfNeeded(ctx, nil, func(c context.Context, r retry.Retryer) (rpcinfo.RPCInfo, interface{}, error) {
						return ri, nil, ep(ctx, nil, nil)
					}, ri, nil)
				} else {
					o.err = ep(ctx, nil, nil)
				}
			})
			if o.pan != "" || o.err == nil || n != 0 {
				vrt.Fail("C15", "a call without destination (retry key first: %v): error %v, passed on %d times, panic %q", key, o.err, n, o.pan)
			}
			x.State(key, o.err)
		}
	})
}

// ---- the resolver ----

func cla(locs ...[]*v3endpoint.LbEndpoint) *v3endpoint.ClusterLoadAssignment {
	c := &v3endpoint.ClusterLoadAssignment{ClusterName: "e"}
	for _, l := range locs {
		c.Endpoints = append(c.Endpoints, &v3endpoint.LocalityLbEndpoints{LbEndpoints: l})
	}
	return c
}

func ep(a *v3core.Address) *v3endpoint.LbEndpoint {
	return &v3endpoint.LbEndpoint{HostIdentifier: &v3endpoint.LbEndpoint_Endpoint{Endpoint: &v3endpoint.Endpoint{Address: a}}}
}

func sock(h string, p uint32) *v3core.Address {
	return &v3core.Address{Address: &v3core.Address_SocketAddress{SocketAddress: &v3core.SocketAddress{Address: h, PortSpecifier: &v3core.SocketAddress_PortValue{PortValue: p}}}}
}

// clas are load assignments; n is the number of usable endpoints, -1 when
// endpoints have no address (anything but a panic or an empty success goes).
func clas() (out []struct {
	desc string
	m    *v3endpoint.ClusterLoadAssignment
	n    int
}) {
	type E = []*v3endpoint.LbEndpoint
	add := func(d string, m *v3endpoint.ClusterLoadAssignment, n int) {
		out = append(out, struct {
			desc string
			m    *v3endpoint.ClusterLoadAssignment
			n    int
		}{d, m, n})
	}
	g := ep(sock("1.1.1.1", 80))
	bad := []*v3endpoint.LbEndpoint{{}, ep(nil), ep(&v3core.Address{}), ep(&v3core.Address{Address: &v3core.Address_SocketAddress{}}),
		ep(&v3core.Address{Address: &v3core.Address_Pipe{Pipe: &v3core.Pipe{Path: "/p"}}}),
		ep(&v3core.Address{Address: &v3core.Address_EnvoyInternalAddress{EnvoyInternalAddress: &v3core.EnvoyInternalAddress{}}}),
		ep(sock("", 0)), ep(&v3core.Address{Address: &v3core.Address_SocketAddress{SocketAddress: &v3core.SocketAddress{Address: "h", PortSpecifier: &v3core.SocketAddress_NamedPort{NamedPort: "x"}}}}),
		{HostIdentifier: &v3endpoint.LbEndpoint_EndpointName{EndpointName: "n"}},
		{HostIdentifier: &v3endpoint.LbEndpoint_Endpoint{}}}
	add("one endpoint", cla(E{g}), 1)
	add("no localities", cla(), 0)
	add("an empty locality", cla(nil), 0)
	add("two empty localities", cla(nil, nil), 0)
	add("an empty locality and one endpoint", cla(nil, E{g}), 1)
	add("nothing", &v3endpoint.ClusterLoadAssignment{}, 0)
	for i, b := range bad {
		add(fmt.Sprint("bad endpoint ", i), cla(E{b}), -1)
		add(fmt.Sprint("good and bad endpoint ", i), cla(E{g, b}), -1)
		add(fmt.Sprint("bad locality and good endpoint ", i), cla(E{b}, E{g}), -1)
	}
	return
}

func resolver(x *mc.X) {
	as := clas()
	var cl, eds interface{}
	hz.Px.Cur = &hz.Src{F: func(t xdsresource.ResourceType, n string) (interface{}, error) {
		if t == hz.CDS && n == "c" && cl != nil {
			return cl, nil
		}
		if t == hz.EDS && n == "e" && eds != nil {
			return eds, nil
		}
		return nil, hz.ErrAbsent
	}}
	r := xdssuite.NewXDSResolver()
	mc.Enum(x, func(c *mc.Chooser) func() {
		m := &v3cluster.Cluster{Name: "c"}
		what := "no cluster"
		kind := c.Choose(5)
		switch kind {
		case 1, 2:
			m.ClusterDiscoveryType = &v3cluster.Cluster_Type{Type: v3cluster.Cluster_EDS}
			if c.Bool() {
				m.EdsClusterConfig = &v3cluster.Cluster_EdsClusterConfig{ServiceName: "e"}
			}
			what = "EDS cluster"
		case 3:
			m.ClusterDiscoveryType = &v3cluster.Cluster_Type{Type: v3cluster.Cluster_STATIC}
			what = "static cluster without endpoints"
		case 4:
			what = "cluster without type"
		}
		want := 0
		if kind == 2 {
			a := as[c.Choose(len(as))]
			m.LoadAssignment = a.m
			what += " with inline " + a.desc
			want = a.n
			if len(a.m.Endpoints) == 0 {
				want = -1 // whether an assignment listing nothing counts as one is open
			}
		}
		ed := c.Choose(len(as) + 1)
		if kind == 1 && m.EdsClusterConfig != nil && ed < len(as) {
			want = as[ed].n
		}
		if kind == 3 || kind == 4 {
			want = -1 // not an EDS cluster: whether the named assignment counts is not settled here
		}
		return func() {
			cl, eds = nil, nil
			if kind > 0 {
				ms, err := xdsresource.UnmarshalCDS([]*anypb.Any{hz.Any(hz.URL(hz.CDS), m)})
				if err != nil {
					return
				}
				cl = ms["c"]
			}
			desc := "none"
			if ed < len(as) {
				e := proto.Clone(as[ed].m).(*v3endpoint.ClusterLoadAssignment)
				e.ClusterName = "e"
				es, err := xdsresource.UnmarshalEDS([]*anypb.Any{hz.Any(hz.URL(hz.EDS), e)})
				if err != nil {
					return
				}
				eds = es["e"]
				desc = as[ed].desc
			}
			n := resolve(what+"; load assignment: "+desc, r, "c", want)
			x.State(kind, ed, n)
			if x.WantSample() {
				x.Sample(fmt.Sprintf("%s; load assignment: %s -> %d instances", what, desc, n))
			}
		}
	})
}

// resolve resolves a cluster; want: number of instances, 0 an error, -1 open.
func resolve(what string, r *xdssuite.XDSResolver, desc string, want int) int {
	o := &obs{}
	var res discovery.Result
	guard(o, func() {
		res, o.err = r.Resolve(context.Background(), desc)
		_, _ = r.Diff(desc, res, res)
		_, _ = r.Diff(desc, discovery.Result{}, res)
		for _, i := range res.Instances {
			_, _ = i.Address(), i.Weight()
		}
		_ = r.Name()
	})
	switch {
	case o.pan != "":
		vrt.Fail("C15", "%s: the resolver panicked: %s", what, o.pan)
	case o.err == nil && len(res.Instances) == 0:
		vrt.Fail("C15", "%s: the resolver succeeded without endpoints", what)
	case want == 0 && o.err == nil:
		vrt.Fail("C15", "%s: the resolver returned %d instances, there are no endpoints", what, len(res.Instances))
	case want > 0 && (o.err != nil || len(res.Instances) != want):
		vrt.Fail("C15", "%s: the resolver returned %d instances and %v, %d endpoints are listed", what, len(res.Instances), o.err, want)
	}
	return len(res.Instances)
}

// ---- hostile content through the real manager ----

// variants are all single edits (and pieces) of the seeds of a type, with the
// top-level name as given when it was not edited.
func variants(t xdsresource.ResourceType, name string) (out []*anypb.Any, desc []string) {
	out = append(out, hz.Pieces(t)...)
	for i := range out {
		desc = append(desc, fmt.Sprintf("piece %d", i))
	}
	for _, sd := range hz.Seeds() {
		if sd.T != t {
			continue
		}
		m := proto.Clone(sd.Msg)
		add := func(p string) {
			b := sd.Res(hz.BytesOf(m))[0].Value
			b = rename(t, b, name)
			out = append(out, &anypb.Any{TypeUrl: hz.URL(t), Value: b})
			desc = append(desc, p)
		}
		add(sd.Name)
		hz.Edits(m.ProtoReflect(), sd.Name, m, add)
	}
	return
}

func rename(t xdsresource.ResourceType, b []byte, name string) []byte {
	var m proto.Message
	switch t {
	case hz.LDS:
		l := &v3listener.Listener{}
		if proto.Unmarshal(b, l) != nil {
			return b
		}
		if l.Name == "l" {
			l.Name = name
		}
		m = l
	case hz.RDS:
		l := &v3route.RouteConfiguration{}
		if proto.Unmarshal(b, l) != nil {
			return b
		}
		if l.Name == "rc" {
			l.Name = name
		}
		m = l
	case hz.CDS:
		l := &v3cluster.Cluster{}
		if proto.Unmarshal(b, l) != nil {
			return b
		}
		if l.Name == "c" {
			l.Name = name
		}
		if l.GetEdsClusterConfig().GetServiceName() == "s" {
			l.EdsClusterConfig.ServiceName = "e"
		}
		m = l
	case hz.EDS:
		l := &v3endpoint.ClusterLoadAssignment{}
		if proto.Unmarshal(b, l) != nil {
			return b
		}
		if l.ClusterName == "e" {
			l.ClusterName = name
		}
		m = l
	}
	return hz.BytesOf(m)
}

// closed checks that a call was either decided and passed on or failed as a
// routing error.
func closed(what string, o *obs, rpc *hz.RPC) string {
	tag, tagged := rpc.RI.To().Tag(xdssuite.RouterClusterKey)
	switch {
	case o.pan != "":
		vrt.Fail("C15", "%s: panic: %s", what, o.pan)
	case o.nexts == 1 && o.err == nil && o.tagged && tag == o.tag:
		locked(what, rpc)
		return "to " + tag
	case o.nexts == 0 && errors.Is(o.err, kerrors.ErrRoute) && !tagged:
		return "failed"
	default:
		vrt.Fail("C15", "%s: passed on %d times, error %v, destination %q (set: %v)", what, o.nexts, o.err, tag, tagged)
	}
	return ""
}

func call(d *driver, key bool, p transport.Protocol) (*obs, *hz.RPC) {
	rpc := hz.Call{To: "a", Svc: "S", Method: "m", Transport: p, Timeout: 3 * time.Second}.New()
	o := &obs{}
	end := false
	vrt.GoN("call", func() {
		*o = *d.step(hz.Meta(map[string]string{"k": "v"}), rpc.RI, key, nil)
		end = true
	})
	vrt.QuiesceUntil(func() bool { return end }, 5*time.Second)
	if !end {
		vrt.Fail("C15", "a call neither passed the routing step nor failed within 5 s (%v)", vrt.LiveGs())
	}
	return o, rpc
}

func feed(s *hz.Sys, t xdsresource.ResourceType, a *anypb.Any) {
	var rs []*anypb.Any
	if a != nil {
		rs = []*anypb.Any{a}
	}
	s.CP.Live().Push(hz.URL(t), rs)
	vrt.Quiesce()
}

// routing: every hostile listener with every hostile route table.
func hostileRouting(lmax int) func(x *mc.X) {
	return func(x *mc.X) {
		ls, ld := variants(hz.LDS, "1.1.1.1_80")
		ts, td := variants(hz.RDS, "rc")
		i := vrt.Choose(len(ls))
		s := hz.Start(x, hz.Cfg{})
		s.Boot(TabA)
		hz.Px.Cur = s.M
		d := newDriver()
		// subscribe, so that what is pushed is cached
		for _, k := range []Key{{hz.LDS, "a"}, {hz.RDS, "rc"}, {hz.RDS, ""}, {hz.RDS, "in"}} {
			s.LookD(k.T, k.N, -1)
		}
		vrt.Quiesce()
		feed(s, hz.LDS, ls[i])
		for j := range ts {
			if lmax > 0 && j > 0 && (i+j)%lmax != 0 {
				continue
			}
			feed(s, hz.RDS, ts[j])
			for _, p := range []transport.Protocol{transport.TTHeader, transport.GRPC} {
				o, rpc := call(d, j%2 == 0, p)
				x.Input(1)
				res := closed(fmt.Sprintf("listener %s, then route table %s, %v", ld[i], td[j], p), o, rpc)
				x.State(res, rpc.RI.Config().RPCTimeout())
			}
		}
		s.M.Close()
	}
}

func hostileResolving(lmax int) func(x *mc.X) {
	return func(x *mc.X) {
		cs, cd := variants(hz.CDS, "c")
		es, ed := variants(hz.EDS, "e")
		i := vrt.Choose(len(cs))
		s := hz.Start(x, hz.Cfg{})
		s.Boot(TabA)
		hz.Px.Cur = s.M
		r := xdssuite.NewXDSResolver()
		for _, k := range []Key{{hz.CDS, "c"}, {hz.EDS, "e"}, {hz.EDS, ""}, {hz.EDS, "c"}} {
			s.LookD(k.T, k.N, -1)
		}
		vrt.Quiesce()
		feed(s, hz.CDS, cs[i])
		for j := range es {
			if lmax > 0 && j > 0 && (i+j)%lmax != 0 {
				continue
			}
			feed(s, hz.EDS, es[j])
			end := false
			n := 0
			vrt.GoN("resolve", func() {
				n = resolve(fmt.Sprintf("cluster %s, then load assignment %s", cd[i], ed[j]), r, "c", -1)
				end = true
			})
			vrt.QuiesceUntil(func() bool { return end }, 5*time.Second)
			if !end {
				vrt.Fail("C15", "resolving did not return within 5 s")
			}
			x.Input(1)
			x.State(n)
		}
		s.M.Close()
	}
}

// withheld: sequences of what arrives before a call, with a real manager that
// times out on the rest.
func withheld(depth int) func(x *mc.X) {
	return func(x *mc.X) {
		s := hz.Start(x, hz.Cfg{Timeout: 200 * ms})
		s.Boot(TabA)
		hz.Px.Cur = s.M
		d := newDriver()
		var lis, rc string // what is in force: "" nothing
		var what []string
		mk := func(stamp string) *anypb.Any {
			return hz.Any(hz.URL(hz.LDS), &v3listener.Listener{Name: "1.1.1.1_80", FilterChains: []*v3listener.FilterChain{{Filters: []*v3listener.Filter{hz.HCMFilter(hz.HCMRds(stamp))}}}})
		}
		tab := func(n, c string) *anypb.Any {
			return hz.Any(hz.URL(hz.RDS), table(n, true, &action{names: []string{c}, timeout: time.Second}))
		}
		subL, subR := false, map[string]bool{}
		tabs := map[string]string{}
		_ = rc
		for k := 0; k < depth; k++ {
			op := vrt.Choose(9)
			name := []string{"listener rc", "listener rc2", "listeners none", "bad listener", "table rc=x", "table rc=y", "table rc2=z", "call", "call, key first"}[op]
			what = append(what, name)
			x.Op("%s", name)
			switch op {
			case 0, 1:
				n := []string{"rc", "rc2"}[op]
				feed(s, hz.LDS, mk(n))
				if subL {
					lis = n
				}
			case 2:
				s.CP.Live().Push(hz.URL(hz.LDS), nil)
				vrt.Quiesce()
				if subL {
					lis = ""
				}
			case 3:
				feed(s, hz.LDS, hz.Corrupt(hz.LDS))
			case 4, 5, 6:
				n, c := []string{"rc", "rc", "rc2"}[op-4], []string{"x", "y", "z"}[op-4]
				feed(s, hz.RDS, tab(n, c))
				if subR[n] {
					tabs[n] = c
				}
			case 7, 8:
				o, rpc := call(d, op == 8, transport.TTHeader)
				subL = true
				got := closed(strings.Join(what, "; "), o, rpc)
				want := "failed"
				if lis != "" {
					if c := tabs[lis]; c != "" {
						want = "to " + c
					}
					subR[lis] = true
				}
				if got != want {
					vrt.Fail("C15", "%s: the call went %q, expected %q", strings.Join(what, "; "), got, want)
				}
				if want != "failed" && rpc.RI.Config().RPCTimeout() != time.Second {
					vrt.Fail("C15", "%s: the call's timeout is %v, the route's is 1 s", strings.Join(what, "; "), rpc.RI.Config().RPCTimeout())
				}
			}
			x.State(lis, fmt.Sprint(tabs), subL, fmt.Sprint(subR))
		}
		s.M.Close()
	}
}

// race: a call concurrent with the updates that replace or drop what it uses.
func race(key bool) func(x *mc.X) {
	return func(x *mc.X) {
		s := hz.Start(x, hz.Cfg{})
		s.Boot(TabA)
		hz.Px.Cur = s.M
		d := newDriver()
		mk := func(n string) []*anypb.Any {
			return []*anypb.Any{hz.Any(hz.URL(hz.LDS), &v3listener.Listener{Name: "1.1.1.1_80", FilterChains: []*v3listener.FilterChain{{Filters: []*v3listener.Filter{hz.HCMFilter(hz.HCMRds(n))}}}})}
		}
		tab := func(n, c string, to time.Duration) *anypb.Any {
			return hz.Any(hz.URL(hz.RDS), table(n, true, &action{names: []string{c}, timeout: to}))
		}
		s.LookD(hz.LDS, "a", -1)
		s.LookD(hz.RDS, "rc1", -1)
		s.LookD(hz.RDS, "rc2", -1)
		vrt.Quiesce()
		st := s.CP.Live()
		st.Push(hz.URL(hz.LDS), mk("rc1"))
		st.Push(hz.URL(hz.RDS), []*anypb.Any{tab("rc1", "x1", time.Second), tab("rc2", "y1", 3*time.Second)})
		vrt.Quiesce()
		var os [2]*obs
		var rpcs [2]*hz.RPC
		n := 0
		vrt.Region(true)
		for i := range os {
			i := i
			rpcs[i] = hz.Call{To: "a", Svc: "S", Method: "m", Transport: transport.TTHeader, Timeout: 7 * time.Second}.New()
			vrt.GoN(fmt.Sprint("call", i), func() {
				o := d.step(context.Background(), rpcs[i].RI, key, nil)
				os[i] = o
				n++
			})
		}
		st.Push(hz.URL(hz.LDS), mk("rc2"))
		st.Push(hz.URL(hz.RDS), []*anypb.Any{tab("rc1", "x2", 2*time.Second), tab("rc2", "y2", 4*time.Second)})
		st.Push(hz.URL(hz.LDS), nil)
		vrt.Quiesce()
		Settle()
		vrt.QuiesceUntil(func() bool { return n == len(os) }, 3*time.Second)
		ok := map[string]time.Duration{"x1": time.Second, "x2": 2 * time.Second, "y1": 3 * time.Second, "y2": 4 * time.Second}
		var l []string
		for i, o := range os {
			if o == nil {
				vrt.Fail("C15", "a call did not return (%v)", vrt.LiveGs())
			}
			res := closed("concurrent with updates", o, rpcs[i])
			if res != "failed" {
				to, known := ok[o.tag]
				if !known || o.to != to || rpcs[i].RI.Config().RPCTimeout() != to {
					vrt.Fail("C15", "a call concurrent with updates went to %q with timeout %v; routes were %v", o.tag, o.to, ok)
				}
			} else if rpcs[i].RI.Config().RPCTimeout() != 7*time.Second {
				vrt.Fail("C15", "a call that failed in the routing step has its timeout changed to %v", rpcs[i].RI.Config().RPCTimeout())
			}
			l = append(l, res)
		}
		sort.Strings(l)
		x.State(l)
		s.M.Close()
	}
}

func main() {
	mc.Main(&mc.Check{
		Property: "C15",
		Init:     hz.InstallProxy,
		Assumptions: []string{
			"a destination tag present before the first step is non-empty; the call's timeout is not locked by the user",
			"for clusters that are not EDS clusters and have no inline endpoints, the resolver is only required not to panic and not to succeed without endpoints",
			"the same for clusters whose inline load assignment has no locality at all",
		},
		Scenarios: func(tier string) []*mc.Scenario {
			bnd, wd, st, hm := 3, 5, 2, 8
			if tier == "thorough" {
				bnd, wd, st, hm = 5, 7, 3, 1
			}
			o := vrt.Opts{UnlockPoints: true}
			return []*mc.Scenario{
				{Name: "outcomes", Shards: 16, Body: calls(1, false), Bounds: "one step: 48 listener outcomes x 15 table outcomes x protocol, package, tag, retry-key kind, order, draws, result of the call (50 kinds of failure in turn)"},
				{Name: "outcome-sequences", Shards: 16, Body: calls(st, true), Bounds: fmt.Sprintf("%d steps of the same call, 9 x 5 outcomes at each", st)},
				{Name: "no-destination", Shards: 1, Body: nobody, Bounds: "calls without destination"},
				{Name: "resolver", Shards: 8, Body: resolver, Bounds: "36 inline x 37 named load assignments, 5 kinds of cluster"},
				{Name: "hostile-routing", Body: hostileRouting(hm), Bounds: fmt.Sprintf("every single edit of the listener seeds with 1/%d of the single edits of the table seed (rotating), through the real manager", hm)},
				{Name: "hostile-resolving", Body: hostileResolving(hm / 4), Bounds: fmt.Sprintf("every single edit of the cluster seed with 1/%d of the single edits of the load-assignment seed (rotating), through the real manager", hm/4)},
				{Name: "withheld", Body: withheld(wd), Bounds: fmt.Sprintf("all sequences of %d pushes and calls, against the real manager", wd)},
				{Name: "calls-and-updates", Opts: o, Bound: bnd, Body: race(false), Bounds: "all schedules with at most the bound's deviations: two calls, three updates"},
				{Name: "retry-keys-and-updates", Opts: o, Bound: bnd, Body: race(true), Bounds: "the same, retry key first"},
			}
		},
	})
}
