// C18: the server rate limit tracks the inbound listener.
package main

import (
	"fmt"
	"time"

	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3ratelimit "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/http/local_ratelimit/v3"
	v3http "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	v3type "github.com/envoyproxy/go-control-plane/envoy/type/v3"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	. "github.com/kitex-contrib/xds/verifrt/hist"
	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/mc"
	"github.com/kitex-contrib/xds/verifrt/vrt"
	"github.com/kitex-contrib/xds/xdssuite"
)

const vi = xdsresource.ReservedLdsResourceName

// Kinds of filters of a chain.
const (
	inline = iota // HTTP connection manager, inline routes
	rds           // HTTP connection manager, named routes
	thrift
	other // neither
)

// Encodings of a bucket.
const (
	none = iota
	typed
	tstruct
	late // typed, behind other filters
)

// chain is a filter chain.
type chain struct {
	port  uint32 // 0: no port
	kind  int
	enc   int
	fill  uint32
	def   bool // the default filter chain
	match bool // has match criteria besides the port
}

func (c chain) bucketed() bool { return (c.kind == inline || c.kind == rds) && c.enc != none }

func (c chain) String() string {
	s := fmt.Sprintf("%d/%d", c.port, c.kind)
	if c.enc != none {
		s += fmt.Sprintf("/%d=%d", c.enc, c.fill)
	}
	if c.def {
		s += " default"
	}
	if c.match {
		s += " match"
	}
	return s
}

func (c chain) proto() *v3listener.FilterChain {
	fc := &v3listener.FilterChain{}
	if c.port != 0 {
		fc.FilterChainMatch = &v3listener.FilterChainMatch{DestinationPort: wrapperspb.UInt32(c.port)}
	}
	if c.match {
		if fc.FilterChainMatch == nil {
			fc.FilterChainMatch = &v3listener.FilterChainMatch{}
		}
		fc.FilterChainMatch.TransportProtocol = "tls"
		fc.FilterChainMatch.PrefixRanges = []*v3core.CidrRange{{AddressPrefix: "10.0.0.0", PrefixLen: wrapperspb.UInt32(8)}}
	}
	switch c.kind {
	case thrift:
		fc.Filters = []*v3listener.Filter{hz.FilterOf(xdsresource.ThriftProxyTypeURL, hz.BytesOf(&v3thrift.ThriftProxy{StatPrefix: "t", RouteConfig: &v3thrift.RouteConfiguration{Name: "tr"}}))}
		return fc
	case other:
		fc.Filters = []*v3listener.Filter{hz.FilterOf("type.googleapis.com/envoy.extensions.filters.network.tcp_proxy.v3.TcpProxy", []byte{0x0a, 0x01, 'x'})}
		return fc
	}
	h := &v3http.HttpConnectionManager{StatPrefix: "s"}
	if c.kind == inline {
		h.RouteSpecifier = &v3http.HttpConnectionManager_RouteConfig{RouteConfig: &v3route.RouteConfiguration{Name: "inbound"}}
	} else {
		h.RouteSpecifier = &v3http.HttpConnectionManager_Rds{Rds: &v3http.Rds{RouteConfigName: "rc"}}
	}
	router := &v3http.HttpFilter{Name: "router", ConfigType: &v3http.HttpFilter_TypedConfig{TypedConfig: &anypb.Any{TypeUrl: "type.googleapis.com/envoy.extensions.filters.http.router.v3.Router"}}}
	lim := &v3ratelimit.LocalRateLimit{StatPrefix: "x", TokenBucket: &v3type.TokenBucket{MaxTokens: 4000000000, TokensPerFill: wrapperspb.UInt32(c.fill), FillInterval: durationpb.New(time.Second)}}
	switch c.enc {
	case typed:
		h.HttpFilters = append(h.HttpFilters, hz.HTTPFilter(xdsresource.RateLimitTypeURL, lim))
	case tstruct:
		h.HttpFilters = append(h.HttpFilters, hz.HTTPFilter(xdsresource.TypedStructTypeURL, hz.TStruct(map[string]interface{}{"max_tokens": 77.0, "tokens_per_fill": float64(c.fill), "fill_interval": "1s"})))
	case late:
		h.HttpFilters = append(h.HttpFilters, router,
			hz.HTTPFilter(xdsresource.TypedStructTypeURL, hz.TStruct(nil)),
			&v3http.HttpFilter{Name: "disc", ConfigType: &v3http.HttpFilter_ConfigDiscovery{ConfigDiscovery: &v3core.ExtensionConfigSource{}}},
			hz.HTTPFilter(xdsresource.RateLimitTypeURL, &v3ratelimit.LocalRateLimit{StatPrefix: "off"}),
			hz.HTTPFilter(xdsresource.RateLimitTypeURL, lim))
	}
	h.HttpFilters = append(h.HttpFilters, router)
	fc.Filters = []*v3listener.Filter{{Name: "bare"}, hz.HCMFilter(h)}
	return fc
}

// lis is an inbound listener; nil: there is none.
type lis []chain

func (l lis) proto(name string) *anypb.Any {
	p := &v3listener.Listener{Name: name}
	for _, c := range l {
		if c.def {
			p.DefaultFilterChain = c.proto()
		} else {
			p.FilterChains = append(p.FilterChains, c.proto())
		}
	}
	return hz.Any(hz.URL(hz.LDS), p)
}

// limits are the acceptable limits for a service port; 0 stands for unlimited.
func (l lis) limits(port uint32) map[uint32]bool {
	at := func(p uint32) (vals map[uint32]bool, any, bucket bool) {
		vals = map[uint32]bool{}
		for _, c := range l {
			if c.port != p {
				continue
			}
			any = true
			if c.bucketed() {
				bucket = true
				vals[c.fill] = true
			} else {
				vals[0] = true
			}
		}
		return
	}
	v, any, bucket := at(port)
	if any && bucket {
		return v
	}
	if !any {
		v = map[uint32]bool{}
	}
	// a chain for the port that says nothing about a limit: its own absence
	// of a limit or the chain without a port, both are accepted
	d, any0, _ := at(0)
	if port != 0 && any0 {
		for k := range d {
			v[k] = true
		}
	}
	if len(v) == 0 {
		v[0] = true
	}
	return v
}

// keeper is a limiter under observation.
type keeper struct {
	label string
	port  uint32
	lim   *hz.Limiter
	upd   bool // an update was received since it was created
}

func newKeeper(label string, port uint32) *keeper {
	var o []xdssuite.Option
	if port != 0 {
		o = append(o, xdssuite.WithServicePort(port))
	}
	opt := hz.ApplyServer(xdssuite.NewServerSuite(o...).Options()...)
	if opt == nil {
		vrt.Fail("C18", "no limit was configured")
	}
	return &keeper{label: fmt.Sprintf("%s, service port %d", label, port), port: port, lim: &hz.Limiter{Opt: opt}}
}

// wrong judges the limits of a running server. Those of a limiter that was
// never updated may be 0, which Kitex takes for none when the server starts.
func (k *keeper) wrong(l lis) string {
	if !k.lim.Started {
		return ""
	}
	q, c := k.lim.QPS, k.lim.Conns
	ok := l.limits(k.port)
	if !k.upd && q == 0 && c == 0 && ok[0] {
		return ""
	}
	if !hz.Unlimited(c) {
		return fmt.Sprintf("%s: the connection limit is %d", k.label, c)
	}
	for v := range ok {
		if v == 0 && hz.Unlimited(q) || v != 0 && q == int(v) {
			return ""
		}
	}
	return fmt.Sprintf("%s (started %v): the limit is %d, should be one of %v (0: none)", k.label, k.lim.Started, q, ok)
}

// begins judges the limit a server is configured with when the limiter is
// created: if the inbound listener has a limit by then, this one.
func (k *keeper) begins(l lis) string {
	ok, q := l.limits(k.port), k.lim.Opt.MaxQPS
	if ok[0] {
		return ""
	}
	for v := range ok {
		if q == int(v) {
			return ""
		}
	}
	return fmt.Sprintf("%s: it begins with the limit %d, should be one of %v", k.label, q, ok)
}

var specs = map[string]lis{
	"80=10":             {{port: 80, kind: inline, enc: typed, fill: 10}},
	"80=11 rds":         {{port: 80, kind: rds, enc: typed, fill: 11}},
	"80=0 any=20":       {{port: 80, kind: inline, enc: typed, fill: 0}, {kind: inline, enc: typed, fill: 20}},
	"any=20":            {{kind: inline, enc: tstruct, fill: 20}},
	"any=21 80=10":      {{kind: rds, enc: late, fill: 21, match: true}, {port: 80, kind: inline, enc: tstruct, fill: 10}},
	"9090=7 default=15": {{port: 9090, kind: inline, enc: late, fill: 7}, {kind: inline, enc: typed, fill: 15, def: true}},
	"80 thrift any=5":   {{port: 80, kind: thrift}, {kind: inline, enc: typed, fill: 5}},
	"any=0 9090=10":     {{kind: inline, enc: typed, fill: 0}, {port: 9090, kind: rds, enc: tstruct, fill: 10}},
	"no chains":         {},
	"8080=3":            {{port: 8080, kind: inline, enc: typed, fill: 3}},
}

var ports = []uint32{0, 80, 9090}

type env struct {
	ks []*keeper
}

func (e *env) cur(h *H) lis {
	if st, ok := h.Served(hz.LDS)[vi]; ok {
		if l, ok := specs[st]; ok {
			return l
		}
		return lis{{kind: rds}} // the one of the boot
	}
	return nil
}

func (e *env) add(h *H, label string) {
	for _, p := range ports {
		k := newKeeper(label, p)
		if s := k.begins(e.cur(h)); s != "" {
			h.Fail("C18", "%s; inbound listener %v", s, e.cur(h))
		}
		e.ks = append(e.ks, k)
	}
}

func push(kind int, spec string) Op {
	m := map[string]string{}
	rs := []*anypb.Any{lis{{kind: inline, enc: typed, fill: 99}}.proto("1.1.1.1_80"), lis{{kind: rds, enc: typed, fill: 98}}.proto("0.0.0.0_80")}
	if spec != "" {
		l, ok := specs[spec]
		if !ok {
			panic(spec)
		}
		m[vi] = spec
		rs = append(rs, l.proto(vi))
	}
	label := spec
	switch kind {
	case BadBytes:
		rs = append(rs, hz.Corrupt(hz.LDS))
		label += " corrupt"
	case BadStruct:
		rs = append(rs, hz.BadStruct(hz.LDS, "q"))
		label += " invalid"
	}
	return PushRaw("Push(LDS inbound{"+label+"})", hz.LDS, kind != Good, m, rs, nil)
}

func conf(depth int, cfg hz.Cfg, inbound bool, ops func(e **env) []Op) *Conf {
	var e *env
	return &Conf{Props: "C18", Types: []T{hz.LDS}, Depth: depth, Table: TabA, Cfg: cfg, Inbound: inbound,
		Setup: func(h *H) {
			hz.Px.Cur = h.S.M
			e = &env{}
			e.add(h, "limiter")
			// a second set runs from the start
			e.add(h, "limiter of a started server")
			for _, k := range e.ks[len(ports):] {
				k.lim.Start()
			}
			h.C.OnAccept = func(h *H, t T, m map[string]string) {
				for _, k := range e.ks {
					k.upd = k.upd || t == hz.LDS
				}
			}
			h.C.After = func(h *H) {
				for _, k := range e.ks {
					if s := k.wrong(e.cur(h)); s != "" {
						h.Fail("C18", "%s; inbound listener %v", s, e.cur(h))
					}
				}
			}
			h.C.After(h)
		},
		Ops: func(h *H) []Op { return ops(&e) }}
}

func start(e **env) Op {
	return Op{Name: "servers start", Do: func(h *H) {
		for _, k := range (*e).ks {
			if !k.lim.Started {
				k.lim.Start()
			}
		}
	}}
}

func fresh(e **env) Op {
	return Op{Name: "new limiters", Do: func(h *H) { (*e).add(h, fmt.Sprintf("limiter %d (late)", len((*e).ks)/len(ports)+1)) }}
}

func wide(e **env) []Op {
	l := []Op{push(Good, ""), push(BadBytes, "80=10"), push(BadStruct, "any=20")}
	for _, s := range []string{"80=10", "80=11 rds", "80=0 any=20", "any=20", "any=21 80=10", "9090=7 default=15", "80 thrift any=5", "any=0 9090=10", "no chains", "8080=3"} {
		l = append(l, push(Good, s))
	}
	return append(l, start(e), fresh(e), PushTable("B", Good, TabB), Advance(61*time.Second), Reset())
}

// derivation: all inbound listeners of up to n chains, two in succession.
func derivation(n int) func(x *mc.X) {
	var menu []chain
	for _, p := range []uint32{0, 80, 9090} {
		for _, k := range []int{inline, rds} {
			menu = append(menu, chain{port: p, kind: k, enc: none}, chain{port: p, kind: k, enc: typed, fill: 5 + p}, chain{port: p, kind: k, enc: tstruct, fill: 1}, chain{port: p, kind: k, enc: typed, fill: 0}, chain{port: p, kind: k, enc: late, fill: 2147483647})
		}
		menu = append(menu, chain{port: p, kind: thrift}, chain{port: p, kind: other}, chain{port: p, kind: inline, enc: typed, fill: 44, match: true})
	}
	menu = append(menu, chain{kind: inline, enc: typed, fill: 6, def: true}, chain{kind: rds, enc: tstruct, fill: 0, def: true}, chain{kind: thrift, def: true})
	return func(x *mc.X) {
		k := vrt.Choose(n + 1)
		var l lis
		for i := 0; i < k; i++ {
			l = append(l, menu[vrt.Choose(len(menu))])
		}
		hasDef := 0
		for _, c := range l {
			if c.def {
				hasDef++
			}
		}
		if hasDef > 1 {
			return
		}
		s := hz.Start(x, hz.Cfg{})
		s.Boot(TabA, l.proto(vi))
		hz.Px.Cur = s.M
		second := []string{"80=10", "any=21 80=10", "", "no chains"}
		for i := 0; i <= len(second); i++ {
			cur := l
			if i > 0 {
				cur = nil
				rs := []*anypb.Any{l.proto("0.0.0.0_80")}
				if second[i-1] != "" {
					cur = specs[second[i-1]]
					rs = append(rs, cur.proto(vi))
				}
				s.CP.Live().Push(hz.URL(hz.LDS), rs)
				vrt.Quiesce()
			}
			var ks []*keeper
			for _, p := range []uint32{0, 80, 9090, 7} {
				kp := newKeeper("limiter", p)
				kp.lim.Start()
				if s := kp.wrong(cur); s != "" {
					vrt.Fail("C18", "%s; inbound listener %v", s, cur)
				}
				ks = append(ks, kp)
			}
			// back to the first one
			s.CP.Live().Push(hz.URL(hz.LDS), []*anypb.Any{l.proto(vi)})
			vrt.Quiesce()
			for _, kp := range ks {
				kp.upd = true
				if s := kp.wrong(l); s != "" {
					vrt.Fail("C18", "%s; inbound listener %v after %v", s, l, cur)
				}
			}
		}
		x.State(fmt.Sprint(l))
		s.M.Close()
	}
}

// many: many chains, each with its own port and limit, and a server for each
// of many ports.
func many(ns []int) func(x *mc.X) {
	return func(x *mc.X) {
		n := ns[vrt.Choose(len(ns))]
		def := vrt.Choose(4) // none, a chain without a port first, last, the default chain
		order := vrt.Choose(2)
		x.Op("%d chains, chain without port: %d, order %d", n, def, order)
		mk := func(n, shift int) (l lis) {
			if def == 1 {
				l = append(l, chain{kind: inline, enc: typed, fill: uint32(5000 + shift)})
			}
			for i := 0; i < n; i++ {
				j := i
				if order == 1 {
					j = n - 1 - i
				}
				l = append(l, chain{port: uint32(1 + j*101%65521), kind: []int{inline, rds}[j%2], enc: []int{typed, tstruct, late}[j%3], fill: uint32((j+shift)%9*10 + j)})
			}
			switch def {
			case 2:
				l = append(l, chain{kind: rds, enc: tstruct, fill: uint32(6000 + shift)})
			case 3:
				l = append(l, chain{kind: inline, enc: late, fill: uint32(7000 + shift), def: true})
			}
			return
		}
		s := hz.Start(x, hz.Cfg{})
		cur := mk(n, 0)
		s.Boot(TabA, cur.proto(vi))
		hz.Px.Cur = s.M
		var ks []*keeper
		add := func() {
			for i := 0; i < 12; i++ {
				p := uint32(1 + i*i*i%(n+3)*101%65521)
				if i == 0 {
					p = 0
				}
				k := newKeeper(fmt.Sprint("limiter ", len(ks)), p)
				k.lim.Start()
				ks = append(ks, k)
			}
		}
		check := func(what string) {
			for _, k := range ks {
				if s := k.wrong(cur); s != "" {
					vrt.Fail("C18", "%d chains, %s: %s", len(cur), what, s)
				}
			}
		}
		add()
		check("from the start")
		for i, l := range []lis{mk(n, 1), mk(n/2, 1), nil, mk(n+1, 3)} {
			cur = l
			rs := []*anypb.Any{mk(3, 2).proto("1.1.1.1_80")}
			if l != nil {
				rs = append(rs, l.proto(vi))
			}
			s.CP.Live().Push(hz.URL(hz.LDS), rs)
			vrt.Quiesce()
			for _, k := range ks {
				k.upd = true
			}
			check(fmt.Sprint("update ", i+2))
			add()
			check(fmt.Sprint("created after update ", i+2))
		}
		x.State(n, def, order)
		s.M.Close()
	}
}

// race: creation and start concurrent with updates.
func race(x *mc.X) {
	s := hz.Start(x, hz.Cfg{})
	s.Boot(TabA, specs["80=10"].proto(vi))
	hz.Px.Cur = s.M
	st := s.CP.Live()
	early := newKeeper("early limiter", 80)
	ks := []*keeper{early}
	vrt.Region(true)
	vrt.GoN("start", func() { early.lim.Start() })
	vrt.GoN("create", func() {
		k := newKeeper("concurrent limiter", 80)
		k.lim.Start()
		ks = append(ks, k)
	})
	for _, n := range []string{"80=11 rds", "", "any=20"} {
		var rs []*anypb.Any
		if n != "" {
			rs = append(rs, specs[n].proto(vi))
		}
		st.Push(hz.URL(hz.LDS), rs)
	}
	vrt.Quiesce()
	Settle()
	if len(ks) != 2 {
		vrt.Fail("C18", "a limiter was not created: %v", vrt.LiveGs())
	}
	d := ""
	for _, k := range ks {
		if w := k.wrong(specs["any=20"]); w != "" {
			vrt.Fail("C18", "after concurrent updates: %s", w)
		}
		d += fmt.Sprint(k.lim.Updates, " ")
	}
	x.State(d)
	s.M.Close()
}

func main() {
	mc.Main(&mc.Check{
		Property: "C18",
		Init:     hz.InstallProxy,
		Assumptions: []string{
			"several chains for the same port: the limit of any of them is accepted",
			"a chain for the service port that carries no token bucket at all: no limit or that of the chain without a port are both accepted",
			"limits of 0, which Kitex takes for none when a server starts, are accepted until the limiter is first updated",
		},
		Scenarios: func(tier string) []*mc.Scenario {
			d, dn, n, bnd := 3, 5, 2, 3
			ns := []int{1, 3, 8, 17, 64, 300}
			if tier == "thorough" {
				ns = []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 256, 257, 300, 600}
				d, dn, n, bnd = 4, 6, 3, 4
			}
			nolds := func(e **env) []Op {
				return []Op{Get(hz.LDS, vi), Get(hz.LDS, "a"), push(Good, ""), push(Good, "80=10"), push(Good, "any=20"), push(BadBytes, "80=10"), start(e), fresh(e), Advance(Short), Advance(Idle), Reset()}
			}
			return []*mc.Scenario{
				{Name: "derivation", Body: derivation(n), Bounds: fmt.Sprintf("all inbound listeners of up to %d chains out of 42 (ports, kinds of filters, encodings and values of buckets, default chain), followed by 4 others and back; 4 service ports", n)},
				{Name: "many", Body: many(ns), Bounds: fmt.Sprintf("%v chains with their own ports and limits, 4 places of a chain without a port, 2 orders; five successive listeners, 12 servers created at each", ns)},
				Scen("histories", conf(d, hz.Cfg{}, true, wide)),
				Scen("not-at-start", conf(dn-1, hz.Cfg{NoLDS: true, NoNDS: true}, false, nolds)),
				Scen("listeners-by-name", conf(dn-1, hz.Cfg{NoNDS: true}, false, nolds)),
				{Name: "concurrent", Opts: vrt.Opts{UnlockPoints: true}, Bound: bnd, Body: race, Bounds: "all schedules with at most the bound's deviations: three updates, a server starting, a limiter being created and started"},
			}
		},
	})
}
