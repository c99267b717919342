// C10: resolution returns exactly the control plane's endpoints.
package main

import (
	"context"
	"fmt"
	"net"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/cloudwego/kitex/pkg/discovery"
	"github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo"
	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3endpoint "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	. "github.com/kitex-contrib/xds/verifrt/hist"
	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/mc"
	"github.com/kitex-contrib/xds/verifrt/vrt"
	"github.com/kitex-contrib/xds/xdssuite"
)

// ---- endpoints and assignments ----

const noWeight = -1

type end struct {
	host   string
	port   uint32
	weight int64
}

func (e end) proto() *v3endpoint.LbEndpoint {
	p := &v3endpoint.LbEndpoint{HostIdentifier: &v3endpoint.LbEndpoint_Endpoint{Endpoint: &v3endpoint.Endpoint{Address: &v3core.Address{Address: &v3core.Address_SocketAddress{
		SocketAddress: &v3core.SocketAddress{Address: e.host, PortSpecifier: &v3core.SocketAddress_PortValue{PortValue: e.port}}}}}}}
	if e.weight != noWeight {
		p.LoadBalancingWeight = wrapperspb.UInt32(uint32(e.weight))
	}
	return p
}

// load is an assignment: endpoints by locality.
type load [][]end

// dress says what else the assignments carry: 1 health and metadata, 2
// priorities, locality weights and names, 3 all of it and a policy.
var dress int

func (l load) proto(name string) *v3endpoint.ClusterLoadAssignment {
	c := l.bare(name)
	if dress&1 != 0 {
		i := 0
		for _, loc := range c.Endpoints {
			for _, e := range loc.LbEndpoints {
				e.HealthStatus = v3core.HealthStatus(i % 6)
				e.GetEndpoint().Hostname = fmt.Sprint("h", i)
				e.GetEndpoint().HealthCheckConfig = &v3endpoint.Endpoint_HealthCheckConfig{PortValue: 9999}
				e.Metadata = &v3core.Metadata{FilterMetadata: map[string]*structpb.Struct{"istio": {Fields: map[string]*structpb.Value{"workload": structpb.NewStringValue("w")}}}}
				i++
			}
		}
	}
	if dress&2 != 0 {
		for i, loc := range c.Endpoints {
			loc.Priority = uint32(i * 3 % 5)
			loc.LoadBalancingWeight = wrapperspb.UInt32(uint32(i % 4))
			loc.Locality = &v3core.Locality{Region: "r", Zone: fmt.Sprint("z", i%2), SubZone: "s"}
			loc.Proximity = wrapperspb.UInt32(uint32(i))
		}
	}
	if dress == 3 {
		c.Policy = &v3endpoint.ClusterLoadAssignment_Policy{OverprovisioningFactor: wrapperspb.UInt32(140)}
	}
	return c
}

func (l load) bare(name string) *v3endpoint.ClusterLoadAssignment {
	c := &v3endpoint.ClusterLoadAssignment{ClusterName: name}
	for i, loc := range l {
		x := &v3endpoint.LocalityLbEndpoints{Locality: &v3core.Locality{Zone: fmt.Sprint("z", i)}, Priority: uint32(len(l) - i)}
		if i == 1 {
			x.LoadBalancingWeight = wrapperspb.UInt32(9)
		}
		for _, e := range loc {
			x.LbEndpoints = append(x.LbEndpoints, e.proto())
		}
		c.Endpoints = append(c.Endpoints, x)
	}
	return c
}

func (l load) flat() (out []end) {
	for _, loc := range l {
		out = append(out, loc...)
	}
	return
}

// clu is a cluster.
type clu struct {
	kind    v3cluster.Cluster_DiscoveryType
	service string // EDS service name
	inline  load
	has     bool // has an inline assignment
}

func (c clu) proto(name string) *v3cluster.Cluster {
	m := &v3cluster.Cluster{Name: name, ClusterDiscoveryType: &v3cluster.Cluster_Type{Type: c.kind}}
	if c.service != "" {
		m.EdsClusterConfig = &v3cluster.Cluster_EdsClusterConfig{ServiceName: c.service}
	}
	if c.has {
		m.LoadAssignment = c.inline.proto("inline-" + name)
	}
	return m
}

func (c clu) named(name string) string {
	if c.service != "" {
		return c.service
	}
	return name
}

func describe(es []end) string {
	var l []string
	for _, e := range es {
		l = append(l, fmt.Sprintf("%s/%d", net.JoinHostPort(e.host, strconv.Itoa(int(e.port))), e.weight))
	}
	return "[" + strings.Join(l, " ") + "]"
}

// compare checks a result; want nil: an error.
func compare(what, name string, want []end, res discovery.Result, err error) {
	if len(want) == 0 {
		if err == nil {
			vrt.Fail("C10", "%s: resolving %q returned %d instances, there are no endpoints to be had", what, name, len(res.Instances))
		}
		return
	}
	if err != nil {
		vrt.Fail("C10", "%s: resolving %q failed: %v; the endpoints are %s", what, name, err, describe(want))
		return
	}
	if res.CacheKey != name || !res.Cacheable {
		vrt.Fail("C10", "%s: the result for %q has cache key %q, cacheable %v", what, name, res.CacheKey, res.Cacheable)
	}
	if d := differ(want, res); d != "" {
		vrt.Fail("C10", "%s: resolving %q: %s; the endpoints are %s", what, name, d, describe(want))
	}
}

func differ(want []end, res discovery.Result) string {
	if len(res.Instances) != len(want) {
		return fmt.Sprintf("%d instances", len(res.Instances))
	}
	for i, in := range res.Instances {
		a := net.JoinHostPort(want[i].host, strconv.Itoa(int(want[i].port)))
		if in.Address() == nil || in.Address().String() != a || in.Address().Network() != "tcp" {
			return fmt.Sprintf("instance %d is at %v", i+1, in.Address())
		}
		if want[i].weight != noWeight && in.Weight() != int(want[i].weight) {
			return fmt.Sprintf("instance %d (%s) has weight %d", i+1, a, in.Weight())
		}
	}
	return ""
}

func resolve(r *xdssuite.XDSResolver, name string) (res discovery.Result, err error, pan string) {
	ok := false
	defer func() {
		if !ok {
			if p := recover(); p != nil {
				pan = fmt.Sprintf("%v\n%s", p, debug.Stack())
			}
		}
	}()
	res, err = r.Resolve(context.Background(), name)
	ok = true
	return
}

// ---- inputs ----

type store struct {
	c, e map[string]xdsresource.Resource
}

func (s *store) get(t xdsresource.ResourceType, n string) (interface{}, error) {
	m := s.c
	if t == hz.EDS {
		m = s.e
	} else if t != hz.CDS {
		return nil, hz.ErrAbsent
	}
	if r, ok := m[n]; ok {
		return r, nil
	}
	return nil, hz.ErrAbsent
}

var pool = []end{
	{"10.0.0.1", 80, 1}, {"fd00::1", 65535, 4294967295}, {"10.0.0.2", 0, 0}, {"host.example", 1, 100}, {"10.0.0.1", 8080, 2}, {"::", 443, noWeight}, {"/var/run/x", 9, 7},
}

func genLoad(c *mc.Chooser, locs, per int) load {
	var l load
	for n := c.Choose(locs + 1); n > 0; n-- {
		var loc []end
		for k := c.Choose(per + 1); k > 0; k-- {
			loc = append(loc, pool[c.Choose(len(pool))])
		}
		l = append(l, loc)
	}
	return l
}

func genClu(c *mc.Chooser) clu {
	k := clu{kind: []v3cluster.Cluster_DiscoveryType{v3cluster.Cluster_EDS, v3cluster.Cluster_STATIC, v3cluster.Cluster_LOGICAL_DNS}[c.Choose(3)]}
	k.service = c.Str("", "svc", "c")
	return k
}

func (s *store) check(x *mc.X, r *xdssuite.XDSResolver, name string, k *clu, named map[string]load) {
	s.c, s.e = nil, nil
	what := "no cluster"
	if k != nil {
		m, err := xdsresource.UnmarshalCDS([]*anypb.Any{hz.Any(hz.URL(hz.CDS), k.proto(name))})
		if err != nil {
			vrt.Fail("C10", "cluster %v was not decoded: %v", k, err)
			return
		}
		s.c = m
		what = fmt.Sprintf("%v cluster, service name %q, inline %v %s", k.kind, k.service, k.has, describe(k.inline.flat()))
	}
	var want []end
	open := false
	if k != nil && k.has {
		want = k.inline.flat()
		open = len(k.inline) == 0
	}
	var rs []*anypb.Any
	for n, l := range named {
		rs = append(rs, hz.Any(hz.URL(hz.EDS), l.proto(n)))
		what += fmt.Sprintf("; assignment %q %s", n, describe(l.flat()))
		if k != nil && !k.has && k.named(name) == n {
			want = l.flat()
		}
	}
	m, err := xdsresource.UnmarshalEDS(rs)
	if err != nil {
		vrt.Fail("C10", "assignments %v were not decoded: %v", named, err)
		return
	}
	s.e = m
	// twice: the first must not disturb what the second sees
	for i := 0; i < 2; i++ {
		res, err, pan := resolve(r, name)
		if pan != "" {
			vrt.Fail("C10", "%s: panic: %s", what, pan)
		}
		if open {
			if err == nil && len(res.Instances) == 0 {
				vrt.Fail("C10", "%s: an empty success", what)
			}
			continue
		}
		compare(what, name, want, res, err)
	}
	x.State(k != nil && k.has, len(named), describe(want))
}

func inputs(locs, per int) func(x *mc.X) {
	return func(x *mc.X) {
		s := &store{}
		hz.Px.Cur = &hz.Src{F: s.get}
		r := xdssuite.NewXDSResolver()
		mc.Enum(x, func(c *mc.Chooser) func() {
			inl := c.Bool()
			k := clu{kind: v3cluster.Cluster_EDS, has: inl, service: "svc"}
			l := genLoad(c, locs, per)
			return func() {
				if inl {
					k.inline = l
					s.check(x, r, "c", &k, map[string]load{"svc": {{pool[0]}}})
				} else {
					s.check(x, r, "c", &k, map[string]load{"svc": l})
				}
			}
		})
	}
}

// selection: which assignment is used.
func selection(x *mc.X) {
	s := &store{}
	hz.Px.Cur = &hz.Src{F: s.get}
	r := xdssuite.NewXDSResolver()
	loads := []load{nil, {}, {nil}, {{pool[0]}}, {nil, {pool[1], pool[2]}}}
	mc.Enum(x, func(c *mc.Chooser) func() {
		name := c.Str("c", "svc", "outbound|8080|v1|a.b.svc.cluster.local", "C")
		var k *clu
		if !c.Bool() {
			v := genClu(c)
			if i := c.Choose(4); i > 0 {
				v.has = true
				v.inline = []load{{nil}, {{pool[3]}}, {}}[i-1]
			}
			k = &v
		}
		named := map[string]load{}
		for _, n := range []string{"svc", "c", name, "inline-c"} {
			if _, ok := named[n]; ok {
				continue
			}
			if i := c.Choose(len(loads)); i > 0 {
				l := loads[i]
				if len(l) > 1 {
					l = load{{{n, 1, 1}}, {pool[4]}}
				}
				named[n] = l
			}
		}
		return func() { s.check(x, r, name, k, named) }
	})
}

// sizes: many endpoints in many localities, in no particular order, some of
// them listed more than once, with whatever else an assignment may say.
func sizes(ns []int) func(x *mc.X) {
	return func(x *mc.X) {
		s := &store{}
		hz.Px.Cur = &hz.Src{F: s.get}
		r := xdssuite.NewXDSResolver()
		mc.Enum(x, func(c *mc.Chooser) func() {
			inl := c.Bool()
			n := ns[c.Choose(len(ns))]
			per := []int{1, 2, 3, 16, 1000}[c.Choose(5)]
			hole := c.Choose(3) // an empty locality: none, the first, the middle and the last
			order := c.Choose(3)
			extra := c.Choose(4)
			return func() {
				var l load
				if hole == 1 {
					l = append(l, nil)
				}
				for i := 0; i < n; {
					var loc []end
					for k := 0; k < per && i < n; k++ {
						e := end{weight: int64(i * 7 % 11)}
						switch j := i; order {
						case 0: // falling
							j = n - i
							fallthrough
						case 1: // scattered
							j = j * 7919 % 65521
							e.host, e.port = fmt.Sprintf("10.%d.%d.%d", j%3, j>>8&255, j&255), uint32(j+1)
						case 2: // few different ones
							e.host, e.port = fmt.Sprintf("10.0.0.%d", j%3), uint32(80+j%2)
						}
						loc = append(loc, e)
						i++
					}
					l = append(l, loc)
					if hole == 2 && len(l) == 1 {
						l = append(l, nil)
					}
				}
				if hole == 2 {
					l = append(l, nil)
				}
				dress = extra
				defer func() { dress = 0 }()
				k := clu{kind: v3cluster.Cluster_EDS, has: inl, service: "svc"}
				if inl {
					k.inline = l
					s.check(x, r, "c", &k, map[string]load{"svc": {{pool[0]}}})
				} else {
					s.check(x, r, "c", &k, map[string]load{"svc": l, "c": {{pool[0]}}})
				}
			}
		})
	}
}

// target: the description a call is resolved by.
func target(x *mc.X) {
	hz.Px.Cur = &hz.Src{F: (&store{}).get}
	r := xdssuite.NewXDSResolver()
	mc.Enum(x, func(c *mc.Chooser) func() {
		tag := c.Str("c", "outbound|80||x", "svc")
		locked := c.Bool()
		to := c.Str("svc", "a.b:80")
		return func() {
			rpc := hz.Call{To: to, Svc: "S", Method: "m"}.New()
			remoteinfo.AsRemoteInfo(rpc.RI.To()).SetTag(xdssuite.RouterClusterKey, tag)
			if locked {
				remoteinfo.AsRemoteInfo(rpc.RI.To()).SetTagLock(xdssuite.RouterClusterKey)
			}
			if got := r.Target(context.Background(), rpc.RI.To()); got != tag {
				vrt.Fail("C10", "a call to %q routed to cluster %q is resolved as %q", to, tag, got)
			}
			x.State(tag, locked, to)
		}
	})
}

// ---- histories through the real manager ----

func anyC(name string, c clu) *anypb.Any  { return hz.Any(hz.URL(hz.CDS), c.proto(name)) }
func anyE(name string, l load) *anypb.Any { return hz.Any(hz.URL(hz.EDS), l.proto(name)) }

type op struct {
	name string
	do   func(m *model)
}

type model struct {
	x    *mc.X
	s    *hz.Sys
	r    *xdssuite.XDSResolver
	subC map[string]bool
	subE map[string]bool
	c    map[string]clu
	e    map[string]load
	log  []string
}

func (m *model) pushC(cs map[string]clu) {
	var rs []*anypb.Any
	for _, n := range []string{"c", "d"} {
		if v, ok := cs[n]; ok {
			rs = append(rs, anyC(n, v))
		}
	}
	m.s.CP.Live().Push(hz.URL(hz.CDS), rs)
	vrt.Quiesce()
	for n := range m.subC {
		if v, ok := cs[n]; ok {
			m.c[n] = v
		} else {
			delete(m.c, n)
		}
	}
}

func (m *model) pushE(es map[string]load) {
	var rs []*anypb.Any
	for _, n := range []string{"e1", "e2", "c", "d"} {
		if v, ok := es[n]; ok {
			rs = append(rs, anyE(n, v))
		}
	}
	m.s.CP.Live().Push(hz.URL(hz.EDS), rs)
	vrt.Quiesce()
	for n, v := range es {
		if m.subE[n] {
			m.e[n] = v
		}
	}
}

func (m *model) resolve(n string) {
	var res discovery.Result
	var err error
	pan, done := "", false
	vrt.GoN("resolve", func() {
		res, err, pan = resolve(m.r, n)
		done = true
	})
	vrt.QuiesceUntil(func() bool { return done }, 5*time.Second)
	what := "history " + strings.Join(m.log, " ; ")
	if !done || pan != "" {
		vrt.Fail("C10", "%s: resolving did not return (panic: %s)", what, pan)
	}
	var want []end
	m.subC[n] = true
	if k, ok := m.c[n]; ok {
		if k.has {
			want = k.inline.flat()
		} else {
			m.subE[k.named(n)] = true
			want = m.e[k.named(n)].flat()
		}
	}
	compare(what, n, want, res, err)
}

var (
	vX = load{{{"1.1.1.1", 80, 1}}}
	vY = load{{{"2.2.2.2", 80, 2}}, {{"fd00::2", 81, 3}, {"1.1.1.1", 80, 1}}}
	vZ = load{nil, {{"3.3.3.3", 80, 0}}}
	vI = load{{{"9.9.9.9", 90, 9}}}
)

func eds(svc string) clu { return clu{kind: v3cluster.Cluster_EDS, service: svc} }
func inline(l load) clu  { return clu{kind: v3cluster.Cluster_EDS, service: "e1", has: true, inline: l} }
func static(l load) clu  { return clu{kind: v3cluster.Cluster_STATIC, has: true, inline: l} }

func histories(depth int, two bool) func(x *mc.X) {
	c1 := func(name string, v clu) op {
		return op{"clusters c:" + name, func(m *model) { m.pushC(map[string]clu{"c": v}) }}
	}
	e1 := func(name string, es map[string]load) op {
		return op{"assignments " + name, func(m *model) { m.pushE(es) }}
	}
	ops := []op{
		{"resolve c", func(m *model) { m.resolve("c") }},
		c1("e1", eds("e1")), c1("e2", eds("e2")), c1("unnamed", eds("")), c1("inline", inline(vI)), c1("inline empty", inline(load{nil})), c1("static", static(vY)),
		{"no clusters", func(m *model) { m.pushC(nil) }},
		e1("e1=X", map[string]load{"e1": vX}), e1("e1=Y", map[string]load{"e1": vY}), e1("e1 empty", map[string]load{"e1": {}}), e1("e1=Z e2=X", map[string]load{"e1": vZ, "e2": vX}), e1("c=Z", map[string]load{"c": vZ}),
		{"clusters undecodable", func(m *model) { m.s.CP.Live().Push(hz.URL(hz.CDS), []*anypb.Any{hz.Corrupt(hz.CDS)}); vrt.Quiesce() }},
		{"assignments undecodable", func(m *model) {
			m.s.CP.Live().Push(hz.URL(hz.EDS), []*anypb.Any{anyE("e1", vI), hz.Corrupt(hz.EDS)})
			vrt.Quiesce()
		}},
		{"a minute passes", func(m *model) {
			vrt.Advance(61 * time.Second)
			vrt.Quiesce()
			// what was cached is gone; for a name the control plane withdrew
			// earlier, the wire tells whether it is still asked for
			last := map[string]bool{}
			if q := m.s.CP.Live().Last(hz.CDS); q != nil {
				for _, n := range q.Names {
					last[n] = true
				}
			}
			for n := range m.subC {
				if _, ok := m.c[n]; ok || !last[n] {
					delete(m.subC, n)
				}
			}
			for n := range m.e {
				delete(m.subE, n)
			}
			m.c, m.e = map[string]clu{}, map[string]load{}
		}},
		{"reset", func(m *model) {
			n := len(m.s.CP.Streams)
			m.s.CP.Live().Break(hz.ErrReset)
			vrt.QuiesceUntil(func() bool { return len(m.s.CP.Streams) > n && m.s.CP.Live() != nil && len(m.s.CP.Live().Reqs) > 0 }, 20*time.Second)
		}},
	}
	if two {
		ops = []op{
			{"resolve c", func(m *model) { m.resolve("c") }}, {"resolve d", func(m *model) { m.resolve("d") }},
			{"clusters c:e1 d:e2", func(m *model) { m.pushC(map[string]clu{"c": eds("e1"), "d": eds("e2")}) }},
			{"clusters c:e2 d:e2", func(m *model) { m.pushC(map[string]clu{"c": eds("e2"), "d": eds("e2")}) }},
			{"clusters c:d d:c", func(m *model) { m.pushC(map[string]clu{"c": eds("d"), "d": eds("c")}) }},
			{"clusters d:inline", func(m *model) { m.pushC(map[string]clu{"d": inline(vI)}) }},
			e1("e1=X e2=Y", map[string]load{"e1": vX, "e2": vY}), e1("e2=Z", map[string]load{"e2": vZ}), e1("c=X d=Y", map[string]load{"c": vX, "d": vY}),
		}
	}
	return func(x *mc.X) {
		m := &model{x: x, s: hz.Start(x, hz.Cfg{Timeout: 200 * time.Millisecond}), subC: map[string]bool{}, subE: map[string]bool{}, c: map[string]clu{}, e: map[string]load{}}
		m.s.Boot(TabA)
		hz.Px.Cur = m.s.M
		m.r = xdssuite.NewXDSResolver()
		// a first look, so that something is subscribed
		m.resolve("c")
		for i := 0; i < depth; i++ {
			o := ops[vrt.Choose(len(ops))]
			m.log = append(m.log, o.name)
			x.Op("%s", o.name)
			o.do(m)
			x.State(fmt.Sprint(m.subC, m.subE, m.c, m.e))
		}
		m.log = append(m.log, "finally")
		m.resolve("c")
		if two {
			m.resolve("d")
		}
		m.s.M.Close()
	}
}

// race: resolutions concurrent with updates of the cluster and of the assignments.
func race(x *mc.X) {
	s := hz.Start(x, hz.Cfg{})
	s.Boot(TabA)
	hz.Px.Cur = s.M
	r := xdssuite.NewXDSResolver()
	s.LookD(hz.CDS, "c", -1)
	s.LookD(hz.EDS, "e1", -1)
	s.LookD(hz.EDS, "e2", -1)
	vrt.Quiesce()
	st := s.CP.Live()
	st.Push(hz.URL(hz.CDS), []*anypb.Any{anyC("c", eds("e1"))})
	st.Push(hz.URL(hz.EDS), []*anypb.Any{anyE("e1", vX), anyE("e2", vY)})
	vrt.Quiesce()
	n := 0
	var res [2]discovery.Result
	var errs [2]error
	var pans [2]string
	vrt.Region(true)
	for i := range res {
		i := i
		vrt.GoN(fmt.Sprint("resolve", i), func() {
			res[i], errs[i], pans[i] = resolve(r, "c")
			n++
		})
	}
	st.Push(hz.URL(hz.EDS), []*anypb.Any{anyE("e1", vZ)})
	st.Push(hz.URL(hz.CDS), []*anypb.Any{anyC("c", eds("e2"))})
	st.Push(hz.URL(hz.CDS), []*anypb.Any{anyC("c", inline(vI))})
	vrt.Quiesce()
	Settle()
	vrt.QuiesceUntil(func() bool { return n == len(res) }, 5*time.Second)
	d := ""
	for i := range res {
		if n != len(res) || errs[i] != nil || pans[i] != "" {
			vrt.Fail("C10", "a resolution concurrent with updates failed: %v %s", errs[i], pans[i])
		}
		hit := ""
		for k, l := range []load{vX, vY, vZ, vI} {
			if differ(l.flat(), res[i]) == "" && res[i].CacheKey == "c" && res[i].Cacheable {
				hit = fmt.Sprint(k)
			}
		}
		if hit == "" {
			vrt.Fail("C10", "a resolution concurrent with updates returned %v, a mixture of what the control plane listed", res[i])
		}
		d += hit
	}
	last, err, _ := resolve(r, "c")
	compare("after concurrent updates", "c", vI.flat(), last, err)
	x.State(d)
	s.M.Close()
}

func main() {
	mc.Main(&mc.Check{
		Property: "C10",
		Init:     hz.InstallProxy,
		Assumptions: []string{
			"whether an inline load assignment without any locality counts as one is left open (no empty success either way)",
			"the weight of an endpoint for which the control plane gives none is left open",
		},
		Scenarios: func(tier string) []*mc.Scenario {
			locs, per, d, d2, bnd := 2, 2, 4, 5, 3
			ns := []int{1, 2, 3, 5, 8, 17, 64, 257}
			if tier == "thorough" {
				locs, per, d, d2, bnd = 3, 2, 5, 6, 4
				ns = nil
				for i := 1; i <= 130; i++ {
					ns = append(ns, i)
				}
				ns = append(ns, 256, 257, 1000, 1024, 3000)
			}
			return []*mc.Scenario{
				{Name: "assignments", Shards: 16, Body: inputs(locs, per), Bounds: fmt.Sprintf("up to %d localities of up to %d out of 7 endpoints, inline or named; each resolved twice", locs, per)},
				{Name: "selection", Shards: 16, Body: selection, Bounds: "cluster absent or of 3 kinds x 3 service names x 4 inline assignments, 4 cluster names, 5 contents of each of up to 4 named assignments"},
				{Name: "sizes", Shards: 8, Body: sizes(ns), Bounds: fmt.Sprintf("1 to %d endpoints in localities of 1, 2, 3, 16 or 1000, some empty; 3 orders (one with duplicates), inline or named; with and without health, metadata, priorities, weights", ns[len(ns)-1])},
				{Name: "target", Shards: 1, Body: target, Bounds: "routed calls"},
				{Name: "histories", Body: histories(d, false), Bounds: fmt.Sprintf("all sequences of %d operations out of 17 (updates of the cluster and of assignments, malformed updates, eviction, reconnection, resolution), final resolution", d)},
				{Name: "two-clusters", Body: histories(d2, true), Bounds: fmt.Sprintf("all sequences of %d operations out of 9 on two clusters", d2)},
				{Name: "concurrent", Opts: vrt.Opts{UnlockPoints: true}, Bound: bnd, Body: race, Bounds: "all schedules with at most the bound's deviations: two resolutions, three updates"},
			}
		},
	})
}
