// C13: the decoders are total.
package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"runtime/debug"
	"strings"

	udpatype "github.com/cncf/xds/go/udpa/type/v1"
	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3endpoint "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3ratelimit "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/http/local_ratelimit/v3"
	v3http "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	dnsproto "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/structpb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/verifrt/hist"
	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/mc"
	"github.com/kitex-contrib/xds/verifrt/vrt"
)

var types = []xdsresource.ResourceType{hz.LDS, hz.RDS, hz.CDS, hz.EDS, hz.NDS}

// ---- the reference: is a response well-formed? ----

type verdict int

const (
	good   verdict = iota
	bad            // has to be reported as an error
	either         // the property does not settle it
)

func worse(a, b verdict) verdict {
	if a == bad || b == bad {
		return bad
	}
	if a == either || b == either {
		return either
	}
	return good
}

func routesVerdict(rc *v3route.RouteConfiguration) verdict {
	for _, vh := range rc.GetVirtualHosts() {
		for _, r := range vh.GetRoutes() {
			if r.GetMatch() == nil || r.GetAction() == nil {
				return bad
			}
		}
	}
	return good
}

func hcmVerdict(b []byte) verdict {
	h := &v3http.HttpConnectionManager{}
	if proto.Unmarshal(b, h) != nil {
		return bad
	}
	v := good
	bucket := false
	for _, f := range h.GetHttpFilters() {
		a := f.GetTypedConfig()
		if a == nil {
			continue
		}
		switch a.GetTypeUrl() {
		case xdsresource.RateLimitTypeURL:
			m := &v3ratelimit.LocalRateLimit{}
			if proto.Unmarshal(a.GetValue(), m) != nil {
				if bucket {
					v = worse(v, either) // behind the bucket in force
				} else {
					v = bad
				}
			} else if m.GetTokenBucket() != nil {
				bucket = true
			}
		case xdsresource.TypedStructTypeURL:
			m := &udpatype.TypedStruct{}
			if proto.Unmarshal(a.GetValue(), m) != nil {
				if bucket {
					v = worse(v, either)
				} else {
					v = bad
				}
			} else if _, ok := m.GetValue().GetFields()["token_bucket"]; ok {
				bucket = true
			}
		}
	}
	switch s := h.GetRouteSpecifier().(type) {
	case *v3http.HttpConnectionManager_Rds:
		if s.Rds.GetRouteConfigName() == "" {
			v = worse(v, either) // names no route table
		}
	case *v3http.HttpConnectionManager_RouteConfig:
		v = worse(v, routesVerdict(s.RouteConfig))
	}
	return v
}

func thriftVerdict(b []byte) verdict {
	t := &v3thrift.ThriftProxy{}
	if proto.Unmarshal(b, t) != nil {
		return bad
	}
	for _, r := range t.GetRouteConfig().GetRoutes() {
		if r.GetMatch() == nil || r.GetRoute() == nil {
			return bad
		}
	}
	return good
}

func listenerVerdict(b []byte) verdict {
	l := &v3listener.Listener{}
	if proto.Unmarshal(b, l) != nil {
		return bad
	}
	v := good
	for _, c := range append(append([]*v3listener.FilterChain(nil), l.GetFilterChains()...), l.GetDefaultFilterChain()) {
		for _, f := range c.GetFilters() {
			a := f.GetTypedConfig()
			switch a.GetTypeUrl() {
			case xdsresource.HTTPConnManagerTypeURL:
				v = worse(v, hcmVerdict(a.GetValue()))
			case xdsresource.ThriftProxyTypeURL:
				v = worse(v, thriftVerdict(a.GetValue()))
			}
		}
	}
	return v
}

func slot(t xdsresource.ResourceType, a *anypb.Any) verdict {
	if a.GetTypeUrl() != hz.URL(t) {
		return bad
	}
	b := a.GetValue()
	var m proto.Message
	switch t {
	case hz.LDS:
		return listenerVerdict(b)
	case hz.RDS:
		rc := &v3route.RouteConfiguration{}
		if proto.Unmarshal(b, rc) != nil {
			return bad
		}
		return routesVerdict(rc)
	case hz.CDS:
		m = &v3cluster.Cluster{}
	case hz.EDS:
		m = &v3endpoint.ClusterLoadAssignment{}
	case hz.NDS:
		m = &dnsproto.NameTable{}
	}
	if proto.Unmarshal(b, m) != nil {
		return bad
	}
	return good
}

func judge(t xdsresource.ResourceType, rs []*anypb.Any) verdict {
	if t == hz.NDS && len(rs) == 0 {
		return bad
	}
	v := good
	for _, r := range rs {
		v = worse(v, slot(t, r))
	}
	return v
}

// ---- the code under test ----

func decode(t xdsresource.ResourceType, rs []*anypb.Any) (n int, err error, pan string) {
	defer func() {
		if p := recover(); p != nil {
			pan = fmt.Sprintf("%v\n%s", p, debug.Stack())
		}
	}()
	switch t {
	case hz.LDS:
		m, e := xdsresource.UnmarshalLDS(rs)
		return len(m), e, ""
	case hz.RDS:
		m, e := xdsresource.UnmarshalRDS(rs)
		return len(m), e, ""
	case hz.CDS:
		m, e := xdsresource.UnmarshalCDS(rs)
		return len(m), e, ""
	case hz.EDS:
		m, e := xdsresource.UnmarshalEDS(rs)
		return len(m), e, ""
	default:
		m, e := xdsresource.UnmarshalNDS(rs)
		if m == nil {
			return 0, e, ""
		}
		return len(m.NameTable), e, ""
	}
}

func describe(rs []*anypb.Any) string {
	var l []string
	for _, r := range rs {
		if r == nil {
			l = append(l, "nil")
			continue
		}
		u := r.GetTypeUrl()
		l = append(l, u[strings.LastIndex(u, "/")+1:]+":"+hex.EncodeToString(r.GetValue()))
	}
	s := strings.Join(l, " ")
	if len(s) > 1200 {
		s = s[:1200] + "..."
	}
	return "[" + s + "]"
}

type stat struct {
	x *mc.X
	n [4]int
}

func (s *stat) check(t xdsresource.ResourceType, rs []*anypb.Any, what string) {
	n, err, pan := decode(t, rs)
	if pan != "" {
		vrt.Fail("C13", "decoding the %s response %s (%s) panicked: %s", hz.TName(t), describe(rs), what, pan)
	}
	v := judge(t, rs)
	switch {
	case v == good && err != nil:
		vrt.Fail("C13", "the well-formed %s response %s (%s) was reported as an error: %v", hz.TName(t), describe(rs), what, err)
	case v == bad && err == nil:
		vrt.Fail("C13", "the malformed %s response %s (%s) was not reported as an error", hz.TName(t), describe(rs), what)
	}
	s.n[v]++
	s.x.StateHash(uint64(t)<<32 | uint64(v)<<24 | uint64(len(rs))<<16 | uint64(n&0xff)<<8 | b2u(err != nil))
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (s *stat) done() {
	s.x.Count("well_formed", s.n[good])
	s.x.Count("malformed", s.n[bad])
	s.x.Count("not_settled", s.n[either])
}

func one(t xdsresource.ResourceType, b []byte) []*anypb.Any {
	return []*anypb.Any{{TypeUrl: hz.URL(t), Value: b}}
}

// ---- all short byte strings ----

func short(n int, alphabet []byte) func(x *mc.X) {
	return func(x *mc.X) {
		s := &stat{x: x}
		for l := 0; l <= n; l++ {
			idx := make([]int, l)
			buf := make([]byte, l)
			for k := 0; ; k++ {
				if k%x.Shards == x.Shard {
					if k%4096 < x.Shards && x.Expired() {
						return
					}
					for i, j := range idx {
						buf[i] = alphabet[j]
					}
					for _, t := range types {
						x.Input(1)
						s.check(t, one(t, buf), "short")
					}
				}
				i := l - 1
				for ; i >= 0; i-- {
					if idx[i]++; idx[i] < len(alphabet) {
						break
					}
					idx[i] = 0
				}
				if i < 0 {
					break
				}
			}
		}
		if x.WantSample() {
			x.Sample(fmt.Sprintf("every byte string up to length %d over %d bytes, as each of 5 types", n, len(alphabet)))
		}
		s.done()
	}
}

func allBytes() (b []byte) {
	for i := 0; i < 256; i++ {
		b = append(b, byte(i))
	}
	return
}

// mutations of the encodings of all seeds: truncations, every replacement of a
// byte, every deletion, insertion of the given bytes, and (pairs) every two
// replacements by the given bytes.
func mutations(ins []byte, pairs []byte) func(x *mc.X) {
	return func(x *mc.X) {
		s := &stat{x: x}
		k := 0
		do := func(sd *hz.Seed, b []byte, what string) bool {
			x.Input(1)
			s.check(sd.T, sd.Res(b), what)
			return !x.Expired()
		}
		take := func() bool { k++; return k%x.Shards == x.Shard }
		for _, sd := range hz.Seeds() {
			b := hz.BytesOf(sd.Msg)
			if judge(sd.T, sd.Res(b)) != good {
				vrt.Fail("", "seed %s is not well-formed", sd.Name)
			}
			x.Count("seed_bytes", b2i(x.Shard == 0)*len(b))
			for n := 0; n <= len(b); n++ {
				if take() && !do(sd, b[:n], fmt.Sprintf("%s cut to %d bytes", sd.Name, n)) {
					return
				}
				if take() && !do(sd, b[n:], fmt.Sprintf("%s without the first %d bytes", sd.Name, n)) {
					return
				}
			}
			m := make([]byte, len(b))
			for i := range b {
				if !take() {
					continue
				}
				copy(m, b)
				for v := 0; v < 256; v++ {
					m[i] = byte(v)
					if !do(sd, m, fmt.Sprintf("%s, byte %d set to %#x", sd.Name, i, v)) {
						return
					}
				}
				d := append(append([]byte(nil), b[:i]...), b[i+1:]...)
				if !do(sd, d, fmt.Sprintf("%s without byte %d", sd.Name, i)) {
					return
				}
				for _, v := range ins {
					d := append(append(append([]byte(nil), b[:i]...), v), b[i:]...)
					if !do(sd, d, fmt.Sprintf("%s, %#x inserted at %d", sd.Name, v, i)) {
						return
					}
				}
				if i+1 < len(b) {
					copy(m, b)
					m[i], m[i+1] = b[i+1], b[i]
					if !do(sd, m, fmt.Sprintf("%s, bytes %d and %d swapped", sd.Name, i, i+1)) {
						return
					}
				}
				for j := i + 1; j < len(b); j++ {
					copy(m, b)
					for _, v := range pairs {
						for _, w := range pairs {
							m[i], m[j] = v, w
							if !do(sd, m, fmt.Sprintf("%s, bytes %d, %d set to %#x, %#x", sd.Name, i, j, v, w)) {
								return
							}
						}
					}
				}
			}
			if x.WantSample() {
				x.Sample(sd.Name + " mutated: " + hex.EncodeToString(b[:min(len(b), 60)]))
			}
		}
		s.done()
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// ---- structural omissions ----

func omissions(depth int) func(x *mc.X) {
	return func(x *mc.X) {
		s := &stat{x: x}
		k := 0
		for _, sd := range hz.Seeds() {
			m := proto.Clone(sd.Msg)
			hz.Edits(m.ProtoReflect(), sd.Name, m, func(p string) {
				k++
				if depth > 1 {
					if k%x.Shards != x.Shard || x.Expired() {
						return
					}
					m2 := proto.Clone(m)
					hz.Edits(m2.ProtoReflect(), "", m2, func(q string) {
						x.Input(1)
						s.check(sd.T, sd.Res(hz.BytesOf(m2)), p+" and "+q)
					})
					return
				}
				if k%x.Shards == x.Shard {
					x.Input(1)
					s.check(sd.T, sd.Res(hz.BytesOf(m)), p)
					if x.WantSample() {
						x.Sample(p)
					}
				}
			})
		}
		s.done()
	}
}

// fields: every single field, and every field of every field, to a depth, of
// the resource types, alone in a message and holding an empty message, a zero,
// or garbage of any wire type.
func fields(depth int) func(x *mc.X) {
	return func(x *mc.X) {
		s := &stat{x: x}
		k := 0
		for _, sd := range hz.Seeds() {
			var walk func(d protoreflect.MessageDescriptor, wrap func([]byte) []byte, left int, path string)
			walk = func(d protoreflect.MessageDescriptor, wrap func([]byte) []byte, left int, path string) {
				for i := 0; i < d.Fields().Len(); i++ {
					fd := d.Fields().Get(i)
					p := path + "." + string(fd.Name())
					put := func(b []byte, what string) {
						k++
						if k%x.Shards == x.Shard && !x.Expired() {
							x.Input(1)
							s.check(sd.T, sd.Res(wrap(b)), p+" "+what)
						}
					}
					num := fd.Number()
					tag := func(t protowire.Type) []byte { return protowire.AppendTag(nil, num, t) }
					put(protowire.AppendVarint(tag(protowire.VarintType), 1), "varint")
					put(protowire.AppendVarint(tag(protowire.VarintType), math.MaxUint64), "varint max")
					put(protowire.AppendFixed32(tag(protowire.Fixed32Type), math.MaxUint32), "fixed32")
					put(protowire.AppendFixed64(tag(protowire.Fixed64Type), math.MaxUint64), "fixed64")
					put(tag(protowire.StartGroupType), "open group")
					put(append(tag(protowire.StartGroupType), protowire.AppendTag(nil, num, protowire.EndGroupType)...), "group")
					in := func(b []byte) []byte { return protowire.AppendBytes(tag(protowire.BytesType), b) }
					put(in(nil), "empty")
					put(append(in(nil), in(nil)...), "empty twice")
					put(in([]byte{0xff}), "invalid")
					put(in([]byte("a")), "text")
					put(in([]byte{0x0a, 1, 'a', 0x12, 0}), "key")
					put(in([]byte{0x0a, 0x01, 0xff}), "not utf-8")
					if fd.Message() != nil && left > 0 {
						walk(fd.Message(), func(b []byte) []byte { return wrap(in(b)) }, left-1, p)
					}
				}
			}
			id := func(b []byte) []byte { return b }
			walk(sd.Msg.ProtoReflect().Descriptor(), id, depth, sd.Name)
			// the same behind a well-formed message
			base := hz.BytesOf(sd.Msg)
			walk(sd.Msg.ProtoReflect().Descriptor(), func(b []byte) []byte { return append(append([]byte(nil), base...), b...) }, depth, sd.Name+"+")
		}
		s.done()
	}
}

// ---- type URLs and slots ----

var urls = func() (out []string) {
	for _, t := range types {
		u := hz.URL(t)
		out = append(out, u, u+"/", strings.ToUpper(u), strings.TrimPrefix(u, "type.googleapis.com/"), "/"+u, u[:len(u)-1], " "+u, strings.Replace(u, ".v3.", ".v2.", 1))
	}
	return append(out, "", "/", "type.googleapis.com/", xdsresource.HTTPConnManagerTypeURL, xdsresource.ThriftProxyTypeURL, xdsresource.RateLimitTypeURL, xdsresource.TypedStructTypeURL, "\xff", "type.googleapis.com/google.protobuf.Empty")
}()

func slots(max int) func(x *mc.X) {
	return func(x *mc.X) {
		s := &stat{x: x}
		ps := map[xdsresource.ResourceType][]*anypb.Any{}
		for _, t := range types {
			ps[t] = hz.Pieces(t)
		}
		mc.Enum(x, func(c *mc.Chooser) func() {
			t := types[c.Choose(len(types))]
			var rs []*anypb.Any
			for n := c.Choose(max + 1); n > 0; n-- {
				rs = append(rs, ps[t][c.Choose(len(ps[t]))])
			}
			return func() {
				s.check(t, rs, "slots")
				if x.WantSample() {
					x.Sample(hz.TName(t) + " " + describe(rs))
				}
			}
		})
		s.done()
	}
}

func typeURLs(x *mc.X) {
	s := &stat{x: x}
	ss := hz.Seeds()
	mc.Enum(x, func(c *mc.Chooser) func() {
		t := types[c.Choose(len(types))]
		sd := ss[c.Choose(len(ss))]
		u := urls[c.Choose(len(urls))]
		k := c.Choose(3) // alone, behind or before a good one
		return func() {
			rs := []*anypb.Any{{TypeUrl: u, Value: hz.BytesOf(sd.Msg)}}
			g := hz.Pieces(t)[0]
			if k == 1 {
				rs = append([]*anypb.Any{g}, rs...)
			} else if k == 2 {
				rs = append(rs, g)
			}
			s.check(t, rs, "type url "+u)
		}
	})
	s.done()
}

// nested: what filter chains and HTTP filters hold.
func nested(max int) func(x *mc.X) {
	return func(x *mc.X) {
		s := &stat{x: x}
		hcmB, thriftB, rlB := hz.BytesOf(hz.SeedHCM(1)), hz.BytesOf(hz.SeedThrift()), hz.BytesOf(hz.Bucket())
		noMatch := hz.SeedHCM(1)
		noMatch.GetRouteConfig().VirtualHosts[0].Routes[1].Match = nil
		noAct := hz.SeedHCM(1)
		noAct.GetRouteConfig().VirtualHosts[0].Routes[0].Action = nil
		tNoMatch, tNoAct := hz.SeedThrift(), hz.SeedThrift()
		tNoMatch.RouteConfig.Routes[1].Match = nil
		tNoAct.RouteConfig.Routes[0].Route = nil
		H, T := xdsresource.HTTPConnManagerTypeURL, xdsresource.ThriftProxyTypeURL
		fl := []*v3listener.Filter{
			hz.FilterOf(H, hcmB), hz.FilterOf(T, thriftB), hz.FilterOf(H, hz.BytesOf(hz.HCMRds("r"))), hz.FilterOf(H, nil), hz.FilterOf(T, nil),
			hz.FilterOf(H, []byte{0xff}), hz.FilterOf(T, []byte{0xff}), hz.FilterOf("x", []byte{0xff}), hz.FilterOf("", nil),
			hz.FilterOf(H, hz.BytesOf(noMatch)), hz.FilterOf(H, hz.BytesOf(noAct)), hz.FilterOf(T, hz.BytesOf(tNoMatch)), hz.FilterOf(T, hz.BytesOf(tNoAct)),
			hz.FilterOf(H, hz.BytesOf(hz.HCMRds(""))), {}, {ConfigType: &v3listener.Filter_ConfigDiscovery{ConfigDiscovery: &v3core.ExtensionConfigSource{}}},
			{ConfigType: &v3listener.Filter_TypedConfig{TypedConfig: &anypb.Any{}}},
		}
		hfURL := func(u string, b []byte) *v3http.HttpFilter {
			return &v3http.HttpFilter{Name: "f", ConfigType: &v3http.HttpFilter_TypedConfig{TypedConfig: &anypb.Any{TypeUrl: u, Value: b}}}
		}
		R, S := xdsresource.RateLimitTypeURL, xdsresource.TypedStructTypeURL
		hf := []*v3http.HttpFilter{
			hfURL(R, rlB), hfURL(R, nil), hfURL(R, []byte{0xff}), hfURL("y", []byte{0xff}), hfURL("", nil), {}, {Name: "d", ConfigType: &v3http.HttpFilter_ConfigDiscovery{}},
			hfURL(S, []byte{0xff}), hfURL(S, nil), hz.HTTPFilter(S, &udpatype.TypedStruct{TypeUrl: "x"}), hz.HTTPFilter(S, hz.TStruct(nil)),
		}
		inf, nan := math.Inf(1), math.NaN()
		for _, v := range []interface{}{nil, "x", true, 1.0, inf, nan, -1.0, 1e300, []interface{}{1.0}, []interface{}{}, map[string]interface{}{}} {
			hf = append(hf, hz.HTTPFilter(S, hz.TStruct(map[string]interface{}{"max_tokens": v, "tokens_per_fill": v})),
				hz.HTTPFilter(S, hz.TStruct(map[string]interface{}{"max_tokens": 1.0, "tokens_per_fill": v})),
				hz.HTTPFilter(S, hz.TStruct(map[string]interface{}{"tokens_per_fill": v})), hz.HTTPFilter(S, hz.TStruct(map[string]interface{}{"max_tokens": v})))
			if v != nil {
				hf = append(hf, hz.HTTPFilter(S, hz.TStruct(v)))
			}
		}
		nul, _ := structpb.NewStruct(map[string]interface{}{"token_bucket": nil})
		hf = append(hf, hz.HTTPFilter(S, &udpatype.TypedStruct{Value: nul}), hz.HTTPFilter(S, &udpatype.TypedStruct{Value: &structpb.Struct{Fields: map[string]*structpb.Value{"token_bucket": {}}}}))
		mc.Enum(x, func(c *mc.Chooser) func() {
			l := &v3listener.Listener{Name: "l"}
			if c.Bool() {
				for n := c.Choose(max + 1); n > 0; n-- {
					fc := &v3listener.FilterChain{}
					for k := c.Choose(3); k > 0; k-- {
						fc.Filters = append(fc.Filters, fl[c.Choose(len(fl))])
					}
					if n == 1 && c.Bool() {
						l.DefaultFilterChain = fc
					} else {
						l.FilterChains = append(l.FilterChains, fc)
					}
				}
			} else {
				h := hz.HCMRds("rc")
				if c.Bool() {
					h = &v3http.HttpConnectionManager{}
				}
				for n := c.Choose(3); n > 0; n-- {
					h.HttpFilters = append(h.HttpFilters, hf[c.Choose(len(hf))])
				}
				l.FilterChains = []*v3listener.FilterChain{{Filters: []*v3listener.Filter{hz.FilterOf(H, hz.BytesOf(h))}}}
			}
			return func() { s.check(hz.LDS, one(hz.LDS, hz.BytesOf(l)), "nested") }
		})
		s.done()
	}
}

// deep: deeply nested values and very long lists.
func deep(x *mc.X) {
	s := &stat{x: x}
	mc.Enum(x, func(c *mc.Chooser) func() {
		n := []int{10, 100, 1000, 4000, 9990, 10001, 20000}[c.Choose(7)]
		kind := c.Choose(5)
		return func() {
			switch kind {
			case 0, 1: // Value{list:ListValue{Value...}} / Value{struct}
				b := []byte{}
				for i := 0; i < n; i++ {
					if kind == 0 {
						b = protowire.AppendBytes(protowire.AppendTag(nil, 1, protowire.BytesType), b)
						b = protowire.AppendBytes(protowire.AppendTag(nil, 6, protowire.BytesType), b)
					} else {
						e := append(protowire.AppendString(protowire.AppendTag(nil, 1, protowire.BytesType), "token_bucket"), protowire.AppendBytes(protowire.AppendTag(nil, 2, protowire.BytesType), b)...)
						b = protowire.AppendBytes(protowire.AppendTag(nil, 1, protowire.BytesType), e)
						b = protowire.AppendBytes(protowire.AppendTag(nil, 5, protowire.BytesType), b)
					}
					if len(b) > 1<<22 {
						break
					}
				}
				e := append(protowire.AppendString(protowire.AppendTag(nil, 1, protowire.BytesType), "token_bucket"), protowire.AppendBytes(protowire.AppendTag(nil, 2, protowire.BytesType), b)...)
				st := protowire.AppendBytes(protowire.AppendTag(nil, 1, protowire.BytesType), e)
				ts := protowire.AppendBytes(protowire.AppendTag(nil, 2, protowire.BytesType), st)
				s.check(hz.LDS, one(hz.LDS, hz.InHTTPFilter(xdsresource.TypedStructTypeURL)(ts)), fmt.Sprint("struct depth ", n))
			case 2:
				rc := &v3route.RouteConfiguration{Name: "rc"}
				for i := 0; i < n; i++ {
					rc.VirtualHosts = append(rc.VirtualHosts, &v3route.VirtualHost{Routes: []*v3route.Route{hz.SeedRoute("c")}})
				}
				s.check(hz.RDS, one(hz.RDS, hz.BytesOf(rc)), fmt.Sprint(n, " virtual hosts"))
				rc.VirtualHosts[n-1].Routes[0].Match = nil
				s.check(hz.RDS, one(hz.RDS, hz.BytesOf(rc)), fmt.Sprint(n, " virtual hosts, last without match"))
			case 3:
				for _, t := range types {
					var rs []*anypb.Any
					for i := 0; i < n; i++ {
						rs = append(rs, hz.Pieces(t)[0])
						if i == 2000 {
							break
						}
					}
					s.check(t, rs, fmt.Sprint(n, " resources"))
					s.check(t, append(rs, hz.Corrupt(t)), fmt.Sprint(n, " resources, last corrupt"))
				}
			case 4: // unbalanced and nested unknown groups
				b := []byte{}
				for i := 0; i < n; i++ {
					b = protowire.AppendTag(b, 100, protowire.StartGroupType)
				}
				for _, t := range types {
					s.check(t, one(t, b), "open groups")
				}
				for i := 0; i < n; i++ {
					b = protowire.AppendTag(b, 100, protowire.EndGroupType)
				}
				for _, t := range types {
					s.check(t, one(t, b), "groups")
				}
			}
		}
	})
	s.done()
}

// ---- end to end: hostile responses do not stop the client ----

func hostile(depth int) *hist.Conf {
	return &hist.Conf{Props: "C13", Types: nil, Depth: depth, Table: hist.TabA, Setup: hist.InstallPolicies,
		LeafGets: nil,
		Ops: func(h *hist.H) []hist.Op {
			var ops []hist.Op
			if len(h.Sub[hz.RDS]) == 0 {
				// one lookup of everything first
				return []hist.Op{{Name: "subscribe all", Do: func(h *hist.H) {
					for _, t := range []xdsresource.ResourceType{hz.LDS, hz.RDS, hz.CDS, hz.EDS} {
						for _, n := range []string{"l", "rc", "c", "e", "", "x", "a"} {
							if t == hz.LDS && n == "" {
								continue
							}
							hist.GetD(t, n, -1).Do(h)
						}
					}
				}}}
			}
			for _, t := range types {
				for i, p := range hz.Pieces(t) {
					t, p := t, p
					ops = append(ops, hist.Op{Name: fmt.Sprintf("Push(%s piece %d)", hz.TName(t), i), Do: func(h *hist.H) { raw(h, t, p) }})
				}
			}
			for _, sd := range hz.Seeds() {
				sd := sd
				for _, n := range []int{0, 1, 2, 5, 11} {
					b := hz.BytesOf(sd.Msg)
					b = b[:len(b)-n]
					n := n
					ops = append(ops, hist.Op{Name: fmt.Sprintf("Push(%s cut by %d)", sd.Name, n), Do: func(h *hist.H) { raw(h, sd.T, sd.Res(b)[0]) }})
				}
			}
			return ops
		}}
}

// raw pushes one resource and checks the verdict the client gives.
func raw(h *hist.H, t xdsresource.ResourceType, p *anypb.Any) {
	st := h.Live()
	rs := []*anypb.Any{p}
	if p == nil {
		rs = nil
	}
	v, n := st.Push(hz.URL(t), rs)
	mark := len(h.S.CP.Reqs)
	vrt.Quiesce()
	if !st.Idle() {
		vrt.Fail("C13", "the client stopped receiving after the %s response %s (%v)", hz.TName(t), describe(rs), vrt.LiveGs())
	}
	want := judge(t, rs)
	var ans *hz.Req
	for _, q := range h.S.CP.Reqs[mark:] {
		if q.Type == t && q.Nonce == n {
			ans = q
		}
	}
	switch {
	case ans == nil:
		vrt.Fail("C13", "the %s response %s was not answered", hz.TName(t), describe(rs))
	case want == bad && !ans.Err:
		vrt.Fail("C13", "the malformed %s response %s was not NACKed", hz.TName(t), describe(rs))
	case want == good && ans.Err:
		vrt.Fail("C13", "the well-formed %s response %s was NACKed: %s", hz.TName(t), describe(rs), ans.ErrMsg)
	}
	if ans != nil && !ans.Err {
		h.Ver[t] = v
	}
}

func main() {
	hz.Bare = true
	mc.Main(&mc.Check{
		Property: "C13",
		Init:     hz.InstallProxy,
		Assumptions: []string{
			"whether a listener naming an empty route table, or holding an undecodable rate-limit filter behind the one in force, is an error is left open",
			"protobuf validity is what google.golang.org/protobuf accepts",
		},
		Scenarios: func(tier string) []*mc.Scenario {
			some := []byte{0x00, 0x01, 0x02, 0x08, 0x0a, 0x12, 0x1a, 0x22, 0x2a, 0x7f, 0x80, 0xff}
			n, l, ins, pairs, om, fd, sl, ne := 2, 5, some, []byte{0x00, 0xff}, 2, 2, 3, 2
			if tier == "thorough" {
				n, l, ins, pairs, om, fd, sl, ne = 3, 6, allBytes(), []byte{0x00, 0x01, 0x0a, 0x7f, 0xff}, 2, 3, 4, 3
			}
			hd := 3
			if tier == "thorough" {
				hd = 4
			}
			return []*mc.Scenario{
				{Name: "short", Shards: 16, Body: short(n, allBytes()), Bounds: fmt.Sprintf("all byte strings up to %d bytes as each of the 5 types", n)},
				{Name: "short-tags", Shards: 16, Body: short(l, some), Bounds: fmt.Sprintf("all byte strings up to %d bytes over 12 tag, length and varint bytes", l)},
				{Name: "mutations", Shards: 16, Body: mutations(ins, pairs), Bounds: fmt.Sprintf("10 seed messages (5 of them nested in a listener): all truncations, all byte replacements, deletions, swaps, insertions of %d bytes, %d^2 pair replacements", len(ins), len(pairs))},
				{Name: "omissions", Shards: 16, Body: omissions(om), Bounds: fmt.Sprintf("10 seed messages with any %d field(s) or element(s) cleared, emptied, added or set to an extreme value", om)},
				{Name: "fields", Shards: 16, Body: fields(fd), Bounds: fmt.Sprintf("every field path of the seed types to depth %d holding 12 encodings, alone and behind a well-formed message", fd+1)},
				{Name: "slots", Shards: 16, Body: slots(sl), Bounds: fmt.Sprintf("up to %d slots out of the pieces of each type", sl)},
				{Name: "type-urls", Shards: 16, Body: typeURLs, Bounds: fmt.Sprintf("%d type URLs x 10 payloads x 5 types x 3 places", len(urls))},
				{Name: "nested", Shards: 16, Body: nested(ne), Bounds: fmt.Sprintf("up to %d filter chains of up to 2 of 17 filters; up to 2 of 66 HTTP filters", ne)},
				{Name: "deep", Shards: 8, Body: deep, Bounds: "nesting and lengths up to 20000"},
				hist.Scen("end-to-end", hostile(hd)),
			}
		},
	})
}
