// C12: decoding clusters, load assignments and name tables preserves meaning.
package main

import (
	"fmt"
	"net"
	"strings"

	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3endpoint "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	dnsproto "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/mc"
	"github.com/kitex-contrib/xds/verifrt/vrt"
)

// ---- summaries of the decoded resources ----

func sumEPs(r *xdsresource.EndpointsResource) string {
	if r == nil {
		return ""
	}
	var ls []string
	for _, l := range r.Localities {
		var es []string
		for _, e := range l.Endpoints {
			h, p, err := net.SplitHostPort(e.Addr().String())
			es = append(es, fmt.Sprintf("%s/%s/%s/%d/%v", e.Addr().Network(), h, p, e.Weight(), err))
		}
		ls = append(ls, "["+strings.Join(es, " ")+"]")
	}
	return strings.Join(ls, "")
}

func sumCluster(r xdsresource.Resource) string {
	c, ok := r.(*xdsresource.ClusterResource)
	if !ok || c == nil {
		return fmt.Sprintf("%T", r)
	}
	od := "none"
	if c.OutlierDetection != nil {
		od = fmt.Sprint(c.OutlierDetection.FailurePercentageThreshold, "/", c.OutlierDetection.FailurePercentageRequestVolume)
	}
	return fmt.Sprintf("%s %s eds=%s od=%s inline=%s/%s", c.DiscoveryType, c.LbPolicy, c.EndpointName, od, sumEPs(c.InlineEndpoints), sumEPs(c.InlineEDS()))
}

// ---- generators: a message and the summary it has to decode to ----

var addrs = []string{"10.0.0.1", "fe80::1", "host.example"}

func genEP(c *mc.Chooser, n int, full bool) (*v3endpoint.LbEndpoint, string) {
	a, port, w := addrs[n%len(addrs)], uint32(80+n), int64(n+1)
	if full {
		a = c.Str("10.0.0.1", "::1", "2001:db8::1", "0.0.0.0", "host.example", "10.0.0.1%eth0")
		port = []uint32{80, 1, 65535, 0}[c.Choose(4)]
		w = []int64{1, -1, 0, 7, 1<<32 - 1}[c.Choose(5)]
	}
	ep := &v3endpoint.LbEndpoint{HostIdentifier: &v3endpoint.LbEndpoint_Endpoint{Endpoint: &v3endpoint.Endpoint{Address: &v3core.Address{
		Address: &v3core.Address_SocketAddress{SocketAddress: &v3core.SocketAddress{Address: a, PortSpecifier: &v3core.SocketAddress_PortValue{PortValue: port}}}}}}}
	if w >= 0 {
		ep.LoadBalancingWeight = wrapperspb.UInt32(uint32(w))
	} else {
		w = 0
	}
	if full && c.Bool() {
		ep.HealthStatus = v3core.HealthStatus_HEALTHY
		ep.Metadata = &v3core.Metadata{}
	}
	return ep, fmt.Sprintf("tcp/%s/%d/%d/<nil>", a, port, w)
}

// genCLA: up to maxL localities of up to maxE endpoints each.
func genCLA(c *mc.Chooser, name string, maxL, maxE int, full bool) (*v3endpoint.ClusterLoadAssignment, string) {
	cla := &v3endpoint.ClusterLoadAssignment{ClusterName: name}
	s := ""
	k := 0
	for l := c.Choose(maxL + 1); l > 0; l-- {
		loc := &v3endpoint.LocalityLbEndpoints{}
		if l%2 == 1 {
			loc.Locality = &v3core.Locality{Region: "r", Zone: fmt.Sprint("z", l)}
			loc.LoadBalancingWeight = wrapperspb.UInt32(uint32(5 * l))
			loc.Priority = uint32(l)
		}
		var es []string
		for e := c.Choose(maxE + 1); e > 0; e-- {
			ep, d := genEP(c, k, full)
			k++
			loc.LbEndpoints = append(loc.LbEndpoints, ep)
			es = append(es, d)
		}
		cla.Endpoints = append(cla.Endpoints, loc)
		s += "[" + strings.Join(es, " ") + "]"
	}
	return cla, s
}

func genCluster(c *mc.Chooser, name string, full bool) (*v3cluster.Cluster, string) {
	cl := &v3cluster.Cluster{Name: name}
	typ := "Static" // the default of the message
	switch c.Choose(4) {
	case 0:
		cl.ClusterDiscoveryType, typ = &v3cluster.Cluster_Type{Type: v3cluster.Cluster_EDS}, "EDS"
	case 1:
		cl.ClusterDiscoveryType, typ = &v3cluster.Cluster_Type{Type: v3cluster.Cluster_LOGICAL_DNS}, "LOGICAL_DNS"
	case 2:
		cl.ClusterDiscoveryType = &v3cluster.Cluster_Type{Type: v3cluster.Cluster_STATIC}
	}
	lb := "roundrobin"
	if c.Bool() {
		cl.LbPolicy, lb = v3cluster.Cluster_RING_HASH, "ringhash"
	}
	eds := name
	switch c.Choose(4) {
	case 1:
		cl.EdsClusterConfig = &v3cluster.Cluster_EdsClusterConfig{}
	case 2:
		cl.EdsClusterConfig, eds = &v3cluster.Cluster_EdsClusterConfig{ServiceName: "svc-" + name}, "svc-"+name
	case 3:
		cl.EdsClusterConfig, eds = &v3cluster.Cluster_EdsClusterConfig{ServiceName: "other", EdsConfig: &v3core.ConfigSource{}}, "other"
	}
	od := "none"
	vals := []int64{-1, 0, 1, 50, 100, 1<<32 - 1}
	if !full {
		vals = []int64{-1, 0, 30}
	}
	if k := c.Choose(len(vals)*len(vals) + 1); k > 0 {
		k--
		t, v := vals[k/len(vals)], vals[k%len(vals)]
		cl.OutlierDetection = &v3cluster.OutlierDetection{Interval: durationpb.New(3), EnforcingFailurePercentage: wrapperspb.UInt32(77)}
		if t >= 0 {
			cl.OutlierDetection.FailurePercentageThreshold = wrapperspb.UInt32(uint32(t))
		} else {
			t = 0
		}
		if v >= 0 {
			cl.OutlierDetection.FailurePercentageRequestVolume = wrapperspb.UInt32(uint32(v))
		} else {
			v = 0
		}
		od = fmt.Sprint(t, "/", v)
	}
	in := ""
	if c.Bool() {
		cl.LoadAssignment, in = genCLA(c, "la-"+name, 2, 2, false)
	}
	if full && c.Bool() {
		cl.ConnectTimeout = durationpb.New(5)
		cl.AltStatName = "alt"
	}
	return cl, fmt.Sprintf("%s %s eds=%s od=%s inline=%s/%s", typ, lb, eds, od, in, in)
}

// ---- comparison ----

func compare(x *mc.X, what fmt.Stringer, err error, got, want map[string]string) {
	if err != nil {
		vrt.Fail("C12", "a valid response was not decoded: %v; %v", err, what)
		return
	}
	g, w := hz.MapString(got), hz.MapString(want)
	if g != w {
		vrt.Fail("C12", "decoded to {%.3000s}, sent was {%.3000s}", g, w)
	}
	x.State(w)
}

type desc []*anypb.Any

func (d desc) String() string {
	var l []string
	for _, a := range d {
		l = append(l, fmt.Sprintf("%x", a.Value))
	}
	return strings.Join(l, " ")
}

func decodeCDS(x *mc.X, rs []*anypb.Any, want map[string]string) {
	m, err := xdsresource.UnmarshalCDS(rs)
	got := map[string]string{}
	for k, v := range m {
		got[k] = sumCluster(v)
	}
	compare(x, desc(rs), err, got, want)
}

func decodeEDS(x *mc.X, rs []*anypb.Any, want map[string]string) {
	m, err := xdsresource.UnmarshalEDS(rs)
	got := map[string]string{}
	for k, v := range m {
		r, ok := v.(*xdsresource.EndpointsResource)
		if !ok || r == nil {
			got[k] = fmt.Sprintf("%T", v)
			continue
		}
		got[k] = sumEPs(r)
	}
	compare(x, desc(rs), err, got, want)
}

func decodeNDS(x *mc.X, rs []*anypb.Any, want map[string]string) {
	m, err := xdsresource.UnmarshalNDS(rs)
	got := map[string]string{}
	if m != nil {
		for k, v := range m.NameTable {
			got[k] = strings.Join(v, ",")
		}
	}
	compare(x, desc(rs), err, got, want)
}

func clusters(x *mc.X) {
	mc.Enum(x, func(c *mc.Chooser) func() {
		name := c.Str("c", "outbound|80||a.default.svc.cluster.local")
		cl, want := genCluster(c, name, true)
		return func() { decodeCDS(x, []*anypb.Any{hz.Any(hz.URL(hz.CDS), cl)}, map[string]string{name: want}) }
	})
}

func assignments(maxL, maxE int, full bool) func(x *mc.X) {
	return func(x *mc.X) {
		mc.Enum(x, func(c *mc.Chooser) func() {
			cla, want := genCLA(c, "e", maxL, maxE, full)
			return func() { decodeEDS(x, []*anypb.Any{hz.Any(hz.URL(hz.EDS), cla)}, map[string]string{"e": want}) }
		})
	}
}

// pool: distinct messages of a type.
type item struct {
	a    *anypb.Any
	want string
}

func pool(f func(c *mc.Chooser) item, every int) (out []item) {
	i := 0
	mc.Enum(&mc.X{Shards: 2, Shard: 2}, func(c *mc.Chooser) func() {
		it := f(c)
		if i%every == 0 {
			out = append(out, it)
		}
		i++
		return nil
	})
	return
}

var names = []string{"b", "a", "ab", "c"}

// several: responses of several resources.
func several(t xdsresource.ResourceType, every, max int) func(x *mc.X) {
	return func(x *mc.X) {
		var ps [][]item
		for _, n := range names[:max] {
			n := n
			ps = append(ps, pool(func(c *mc.Chooser) item {
				if t == hz.CDS {
					m, w := genCluster(c, n, false)
					return item{hz.Any(hz.URL(t), m), w}
				}
				m, w := genCLA(c, n, 2, 2, false)
				return item{hz.Any(hz.URL(t), m), w}
			}, every))
		}
		mc.Enum(x, func(c *mc.Chooser) func() {
			k := c.Choose(max + 1)
			var rs []*anypb.Any
			want := map[string]string{}
			for i := 0; i < k; i++ {
				p := ps[i]
				it := p[c.Choose(len(p))]
				rs = append(rs, it.a)
				want[names[i]] = it.want
			}
			return func() {
				if t == hz.CDS {
					decodeCDS(x, rs, want)
				} else {
					decodeEDS(x, rs, want)
				}
			}
		})
	}
}

var hosts = []string{"a.default.svc.cluster.local", "b.default.svc.cluster.local", "ext.com", "", "10.0.0.1"}
var ips = [][]string{nil, {"1.1.1.1"}, {"1.1.1.1", "2.2.2.2"}, {"2.2.2.2", "1.1.1.1"}, {"1.1.1.1", "1.1.1.1"}, {"::1", "x", ""}}

// tables: name tables, in one resource or spread over two.
func tables(max int) func(x *mc.X) {
	return func(x *mc.X) {
		mc.Enum(x, func(c *mc.Chooser) func() {
			two := c.Bool()
			nts := []*dnsproto.NameTable{{Table: map[string]*dnsproto.NameTable_NameInfo{}}, {Table: map[string]*dnsproto.NameTable_NameInfo{}}}
			want := map[string]string{}
			for i := 0; i < max; i++ {
				k := c.Choose(len(ips) + 1)
				if k == 0 {
					continue
				}
				where := 0
				if two {
					where = c.Choose(2)
				}
				ni := &dnsproto.NameTable_NameInfo{Ips: ips[k-1]}
				if i%2 == 0 {
					ni.Registry, ni.Shortname, ni.Namespace, ni.AltHosts = "Kubernetes", "a", "default", []string{"alt"}
				}
				nts[where].Table[hosts[i]] = ni
				want[hosts[i]] = strings.Join(ips[k-1], ",")
			}
			rs := []*anypb.Any{hz.Any(hz.URL(hz.NDS), nts[0])}
			if two {
				rs = append(rs, hz.Any(hz.URL(hz.NDS), nts[1]))
			}
			return func() { decodeNDS(x, rs, want) }
		})
	}
}

var sizes = []int{5, 8, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 200, 256, 257, 300, 512, 1000, 1025, 3000}

// large: many endpoints, localities, resources, hosts and addresses.
func large(x *mc.X) {
	mc.Enum(x, func(c *mc.Chooser) func() {
		n := sizes[c.Choose(len(sizes))]
		kind := c.Choose(6)
		ch := &mc.Chooser{}
		return func() {
			switch kind {
			case 0, 1:
				cla := &v3endpoint.ClusterLoadAssignment{ClusterName: "e"}
				s := ""
				loc := &v3endpoint.LocalityLbEndpoints{}
				cla.Endpoints = append(cla.Endpoints, loc)
				var es []string
				for i := 0; i < n; i++ {
					ep, d := genEP(ch, i, false)
					if kind == 1 && i > 0 {
						loc = &v3endpoint.LocalityLbEndpoints{}
						cla.Endpoints = append(cla.Endpoints, loc)
						s += "[" + strings.Join(es, " ") + "]"
						es = nil
					}
					loc.LbEndpoints = append(loc.LbEndpoints, ep)
					es = append(es, d)
				}
				s += "[" + strings.Join(es, " ") + "]"
				decodeEDS(x, []*anypb.Any{hz.Any(hz.URL(hz.EDS), cla)}, map[string]string{"e": s})
			case 2, 3:
				var rs []*anypb.Any
				want := map[string]string{}
				for i := 0; i < n; i++ {
					nm := fmt.Sprint("r", i)
					if kind == 2 {
						ep, d := genEP(ch, i, false)
						rs = append(rs, hz.Any(hz.URL(hz.EDS), &v3endpoint.ClusterLoadAssignment{ClusterName: nm, Endpoints: []*v3endpoint.LocalityLbEndpoints{{LbEndpoints: []*v3endpoint.LbEndpoint{ep}}}}))
						want[nm] = "[" + d + "]"
					} else {
						m, d := genCluster(ch, nm, false)
						rs = append(rs, hz.Any(hz.URL(hz.CDS), m))
						want[nm] = d
					}
				}
				if kind == 2 {
					decodeEDS(x, rs, want)
				} else {
					decodeCDS(x, rs, want)
				}
			default:
				nt := &dnsproto.NameTable{Table: map[string]*dnsproto.NameTable_NameInfo{}}
				want := map[string]string{}
				for i := 0; i < n; i++ {
					ip := fmt.Sprint("10.0.", i/256, ".", i%256)
					if kind == 4 {
						h := fmt.Sprint("h", i)
						nt.Table[h] = &dnsproto.NameTable_NameInfo{Ips: []string{ip}}
						want[h] = ip
						continue
					}
					if nt.Table["h"] == nil {
						nt.Table["h"] = &dnsproto.NameTable_NameInfo{}
					} else {
						want["h"] += ","
					}
					nt.Table["h"].Ips = append(nt.Table["h"].Ips, ip)
					want["h"] += ip
				}
				decodeNDS(x, []*anypb.Any{hz.Any(hz.URL(hz.NDS), nt)}, want)
			}
		}
	})
}

// meant are the fields with a meaning; the others may be anything.
var meant = map[string]bool{
	"envoy.config.cluster.v3.Cluster.name": true, "envoy.config.cluster.v3.Cluster.type": true, "envoy.config.cluster.v3.Cluster.cluster_type": true,
	"envoy.config.cluster.v3.Cluster.lb_policy": true, "envoy.config.cluster.v3.Cluster.eds_cluster_config": true, "envoy.config.cluster.v3.Cluster.outlier_detection": true,
	"envoy.config.cluster.v3.Cluster.load_assignment": true, "envoy.config.cluster.v3.Cluster.EdsClusterConfig.service_name": true,
	"envoy.config.cluster.v3.OutlierDetection.failure_percentage_threshold": true, "envoy.config.cluster.v3.OutlierDetection.failure_percentage_request_volume": true,
	"envoy.config.endpoint.v3.ClusterLoadAssignment.cluster_name": true, "envoy.config.endpoint.v3.ClusterLoadAssignment.endpoints": true,
	"envoy.config.endpoint.v3.LocalityLbEndpoints.lb_endpoints": true,
	"envoy.config.endpoint.v3.LbEndpoint.load_balancing_weight": true, "envoy.config.endpoint.v3.LbEndpoint.endpoint": true, "envoy.config.endpoint.v3.LbEndpoint.endpoint_name": true,
	"envoy.config.endpoint.v3.Endpoint.address": true, "envoy.config.core.v3.SocketAddress.address": true, "envoy.config.core.v3.SocketAddress.protocol": true,
	"istio.networking.nds.v1.NameTable.NameInfo.ips": true, "istio.networking.nds.v1.NameTable.table": true,
}

// others: everything else in a message set to all kinds of values, alone or
// in pairs, does not change what it means.
func others(pairs bool) func(x *mc.X) {
	type base struct {
		m    proto.Message
		vs   []hz.Variant
		test func()
	}
	return func(x *mc.X) {
		var bs []base
		add := func(m proto.Message, t xdsresource.ResourceType, name, want string, f func(x *mc.X, rs []*anypb.Any, want map[string]string)) {
			bs = append(bs, base{m, hz.Variants(m, meant), func() { f(x, []*anypb.Any{hz.Any(hz.URL(t), m)}, map[string]string{name: want}) }})
		}
		for i, a := range [][]int{{2, 2, 1}, {1}, {0, 2}} {
			la := &v3endpoint.ClusterLoadAssignment{ClusterName: "e"}
			s := ""
			for _, n := range a {
				loc := &v3endpoint.LocalityLbEndpoints{}
				var es []string
				for j := 0; j < n; j++ {
					ep := &v3endpoint.LbEndpoint{HostIdentifier: &v3endpoint.LbEndpoint_Endpoint{Endpoint: &v3endpoint.Endpoint{Address: &v3core.Address{
						Address: &v3core.Address_SocketAddress{SocketAddress: &v3core.SocketAddress{Address: addrs[j], PortSpecifier: &v3core.SocketAddress_PortValue{PortValue: 80}}}}}}}
					w := 0
					if i != 1 {
						w = 3 + j
						ep.LoadBalancingWeight = wrapperspb.UInt32(uint32(w))
					}
					loc.LbEndpoints = append(loc.LbEndpoints, ep)
					es = append(es, fmt.Sprintf("tcp/%s/80/%d/<nil>", addrs[j], w))
				}
				la.Endpoints = append(la.Endpoints, loc)
				s += "[" + strings.Join(es, " ") + "]"
			}
			add(la, hz.EDS, "e", s, decodeEDS)
			cl := &v3cluster.Cluster{Name: "c", ClusterDiscoveryType: &v3cluster.Cluster_Type{Type: []v3cluster.Cluster_DiscoveryType{v3cluster.Cluster_EDS, v3cluster.Cluster_STATIC, v3cluster.Cluster_LOGICAL_DNS}[i]}}
			w := []string{"EDS ringhash eds=svc od=50/9 inline=%[1]s/%[1]s", "Static roundrobin eds=c od=none inline=/", "LOGICAL_DNS roundrobin eds=c od=0/0 inline=%[1]s/%[1]s"}[i]
			if i != 1 {
				cl.LoadAssignment = proto.Clone(la).(*v3endpoint.ClusterLoadAssignment)
				w = fmt.Sprintf(w, s)
			}
			if i != 1 {
				cl.EdsClusterConfig = &v3cluster.Cluster_EdsClusterConfig{}
				cl.OutlierDetection = &v3cluster.OutlierDetection{}
			}
			if i == 0 {
				cl.LbPolicy = v3cluster.Cluster_RING_HASH
				cl.EdsClusterConfig.ServiceName = "svc"
				cl.OutlierDetection.FailurePercentageThreshold = wrapperspb.UInt32(50)
				cl.OutlierDetection.FailurePercentageRequestVolume = wrapperspb.UInt32(9)
			}
			add(cl, hz.CDS, "c", w, decodeCDS)
		}
		nt := &dnsproto.NameTable{Table: map[string]*dnsproto.NameTable_NameInfo{"a.ns": {Ips: []string{"1.1.1.1", "2.2.2.2"}}}}
		add(nt, hz.NDS, "a.ns", "1.1.1.1,2.2.2.2", decodeNDS)
		mc.Enum(x, func(c *mc.Chooser) func() {
			b := bs[c.Choose(len(bs))]
			n := len(b.vs)
			v := b.vs[c.Choose(n)]
			var w *hz.Variant
			if pairs {
				if k := c.Choose(n + 1); k > 0 {
					w = &b.vs[k-1]
				}
			}
			return func() {
				v.Do()
				if w != nil {
					w.Do()
				}
				b.test()
				if w != nil {
					w.Undo()
				}
				v.Undo()
			}
		})
	}
}

// oddNames: two resources with similar names in one response.
func oddNames(x *mc.X) {
	l := hz.OddNames
	mc.Enum(x, func(c *mc.Chooser) func() {
		a, b := c.Choose(len(l)), c.Choose(len(l))
		kind := c.Choose(4)
		return func() {
			if a == b {
				return
			}
			var as []*anypb.Any
			want := map[string]string{}
			nts := []*dnsproto.NameTable{{Table: map[string]*dnsproto.NameTable_NameInfo{}}, {Table: map[string]*dnsproto.NameTable_NameInfo{}}}
			for i, n := range []string{l[a], l[b]} {
				ep, d := genEP(&mc.Chooser{}, i, false)
				cla := &v3endpoint.ClusterLoadAssignment{ClusterName: n, Endpoints: []*v3endpoint.LocalityLbEndpoints{{LbEndpoints: []*v3endpoint.LbEndpoint{ep}}}}
				switch kind {
				case 0:
					as = append(as, hz.Any(hz.URL(hz.EDS), cla))
					want[n] = "[" + d + "]"
				case 1:
					m := &v3cluster.Cluster{Name: n, ClusterDiscoveryType: &v3cluster.Cluster_Type{Type: v3cluster.Cluster_EDS}}
					w := n
					if i == 1 {
						m.EdsClusterConfig = &v3cluster.Cluster_EdsClusterConfig{ServiceName: l[a]}
						m.LoadAssignment = cla
						w = l[a]
						d = "[" + d + "]"
					} else {
						d = ""
					}
					as = append(as, hz.Any(hz.URL(hz.CDS), m))
					want[n] = fmt.Sprintf("EDS roundrobin eds=%s od=none inline=%s/%s", w, d, d)
				default:
					ip := fmt.Sprint("10.0.0.", i)
					nts[i*(kind-2)].Table[n] = &dnsproto.NameTable_NameInfo{Ips: []string{ip}}
					want[n] = ip
				}
			}
			switch kind {
			case 0:
				decodeEDS(x, as, want)
			case 1:
				decodeCDS(x, as, want)
			default:
				for _, t := range nts[:kind-1] {
					as = append(as, hz.Any(hz.URL(hz.NDS), t))
				}
				decodeNDS(x, as, want)
			}
		}
	})
}

func main() {
	hz.Bare = true // with and without other fields: see others
	mc.Main(&mc.Check{
		Property: "C12",
		Scenarios: func(tier string) []*mc.Scenario {
			ml, me, ev, hosts := 3, 3, 60, 4
			if tier == "thorough" {
				ml, me, ev, hosts = 4, 4, 25, 5
			}
			return []*mc.Scenario{
				{Name: "clusters", Shards: 16, Body: clusters, Bounds: "2 names x 4 discovery types x 2 LB policies x 4 EDS configurations x 37 outlier detections x inline assignments of up to 2x2 endpoints x other fields"},
				{Name: "endpoints", Shards: 16, Body: assignments(1, 2, true), Bounds: "one locality of up to 2 endpoints: all pairs of 6 addresses x 4 ports x 5 weights x health"},
				{Name: "localities", Shards: 16, Body: assignments(ml, me, false), Bounds: fmt.Sprintf("up to %d localities of up to %d endpoints", ml, me)},
				{Name: "several-clusters", Shards: 16, Body: several(hz.CDS, ev, 3), Bounds: fmt.Sprintf("up to 3 clusters in one response out of every %dth cluster of a reduced space", ev)},
				{Name: "several-assignments", Shards: 16, Body: several(hz.EDS, 1, 4), Bounds: "up to 4 load assignments in one response, each of up to 2x2 endpoints"},
				{Name: "large", Shards: 16, Body: large, Bounds: "20 sizes up to 3000 of: endpoints, localities, load assignments, clusters, hosts, addresses"},
				{Name: "other-fields", Shards: 16, Body: others(true), Bounds: "3 clusters, 3 load assignments and a name table with any two other fields set, all enum values, and with all of them set"},
				{Name: "names", Shards: 16, Body: oddNames, Bounds: "pairs out of 17 similar names: two load assignments, clusters or hosts in one response, hosts in one table or two"},
				{Name: "tables", Shards: 16, Body: tables(hosts), Bounds: fmt.Sprintf("name tables over %d hosts x 6 address lists, in one or two resources", hosts)},
			}
		},
	})
}
