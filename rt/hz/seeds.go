package hz

import (
	"fmt"
	"math"
	"strings"
	"time"

	udpatype "github.com/cncf/xds/go/udpa/type/v1"
	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3ratelimit "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/http/local_ratelimit/v3"
	v3http "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	v3matcher "github.com/envoyproxy/go-control-plane/envoy/type/matcher/v3"
	v3type "github.com/envoyproxy/go-control-plane/envoy/type/v3"
	dnsproto "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/kitex-contrib/xds/core/xdsresource"
)

// ---- seeds ----

func str(m string, exact bool) *v3route.HeaderMatcher {
	sm := &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_Exact{Exact: m}}
	if !exact {
		sm.MatchPattern = &v3matcher.StringMatcher_SafeRegex{SafeRegex: &v3matcher.RegexMatcher{Regex: m}}
	}
	return &v3route.HeaderMatcher{Name: "k", HeaderMatchSpecifier: &v3route.HeaderMatcher_StringMatch{StringMatch: sm}}
}

func SeedRoute(cluster string) *v3route.Route {
	return &v3route.Route{
		Match: &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Path{Path: "/S/m"}, Headers: []*v3route.HeaderMatcher{str("v", true), str("^v$", false),
			{Name: "p", HeaderMatchSpecifier: &v3route.HeaderMatcher_PresentMatch{PresentMatch: true}}}},
		Action: &v3route.Route_Route{Route: &v3route.RouteAction{
			ClusterSpecifier: &v3route.RouteAction_WeightedClusters{WeightedClusters: &v3route.WeightedCluster{Clusters: []*v3route.WeightedCluster_ClusterWeight{
				{Name: cluster, Weight: wrapperspb.UInt32(3)}, {Name: "d"}}}},
			Timeout: durationpb.New(time.Second),
			RetryPolicy: &v3route.RetryPolicy{RetryOn: "5xx", NumRetries: wrapperspb.UInt32(2), PerTryTimeout: durationpb.New(time.Second), PerTryIdleTimeout: durationpb.New(2),
				RetriableHeaders: []*v3route.HeaderMatcher{
					{Name: "kitexRetryErrorRate", HeaderMatchSpecifier: &v3route.HeaderMatcher_StringMatch{StringMatch: &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_Exact{Exact: "0.1"}}}},
					{Name: "kitexRetryMethods", HeaderMatchSpecifier: &v3route.HeaderMatcher_StringMatch{StringMatch: &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_Exact{Exact: "m,n"}}}},
				},
				RetryBackOff: &v3route.RetryPolicy_RetryBackOff{BaseInterval: durationpb.New(1), MaxInterval: durationpb.New(2)}},
		}},
	}
}

func SeedRC(name string) *v3route.RouteConfiguration {
	r := SeedRoute("c")
	r2 := &v3route.Route{Match: &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}},
		Action: &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_Cluster{Cluster: "e"}}}}
	return &v3route.RouteConfiguration{Name: name, VirtualHosts: []*v3route.VirtualHost{{Name: "vh", Domains: []string{"*"}, Routes: []*v3route.Route{r, r2}}, {Name: "w"}}}
}

func Bucket() *v3ratelimit.LocalRateLimit {
	return &v3ratelimit.LocalRateLimit{StatPrefix: "s", TokenBucket: &v3type.TokenBucket{MaxTokens: 5, TokensPerFill: wrapperspb.UInt32(3), FillInterval: durationpb.New(1)}}
}

func TStruct(bucket interface{}) *udpatype.TypedStruct {
	f := map[string]interface{}{}
	if bucket != nil {
		f["token_bucket"] = bucket
	}
	v, err := structpb.NewStruct(f)
	if err != nil {
		panic(err)
	}
	return &udpatype.TypedStruct{TypeUrl: "x", Value: v}
}

func HTTPFilter(url string, m proto.Message) *v3http.HttpFilter {
	return &v3http.HttpFilter{Name: "f", ConfigType: &v3http.HttpFilter_TypedConfig{TypedConfig: Any(url, m)}}
}

func FilterOf(url string, b []byte) *v3listener.Filter {
	return &v3listener.Filter{Name: "n", ConfigType: &v3listener.Filter_TypedConfig{TypedConfig: &anypb.Any{TypeUrl: url, Value: b}}}
}

func BytesOf(m proto.Message) []byte { return Any("", m).Value }

func SeedHCM(kind int) *v3http.HttpConnectionManager {
	h := &v3http.HttpConnectionManager{StatPrefix: "s"}
	switch kind {
	case 0:
		h.RouteSpecifier = &v3http.HttpConnectionManager_Rds{Rds: &v3http.Rds{RouteConfigName: "rc"}}
		h.HttpFilters = []*v3http.HttpFilter{{Name: "bare"}, HTTPFilter(xdsresource.RateLimitTypeURL, Bucket())}
	case 1:
		h.RouteSpecifier = &v3http.HttpConnectionManager_RouteConfig{RouteConfig: SeedRC("in")}
		h.HttpFilters = []*v3http.HttpFilter{HTTPFilter(xdsresource.TypedStructTypeURL, TStruct(map[string]interface{}{"max_tokens": 4.0, "tokens_per_fill": 2.0}))}
	}
	return h
}

func SeedThrift() *v3thrift.ThriftProxy {
	return &v3thrift.ThriftProxy{StatPrefix: "s", RouteConfig: &v3thrift.RouteConfiguration{Name: "t", Routes: []*v3thrift.Route{
		{Match: &v3thrift.RouteMatch{MatchSpecifier: &v3thrift.RouteMatch_MethodName{MethodName: "m"}, Headers: []*v3route.HeaderMatcher{str("v", true)}},
			Route: &v3thrift.RouteAction{ClusterSpecifier: &v3thrift.RouteAction_Cluster{Cluster: "c"}}},
		{Match: &v3thrift.RouteMatch{MatchSpecifier: &v3thrift.RouteMatch_ServiceName{ServiceName: "s"}},
			Route: &v3thrift.RouteAction{ClusterSpecifier: &v3thrift.RouteAction_WeightedClusters{WeightedClusters: &v3thrift.WeightedCluster{Clusters: []*v3thrift.WeightedCluster_ClusterWeight{{Name: "d", Weight: wrapperspb.UInt32(1)}}}}}},
	}}}
}

func listenerWith(fs ...*v3listener.Filter) *v3listener.Listener {
	l := &v3listener.Listener{Name: "l"}
	for i, f := range fs {
		l.FilterChains = append(l.FilterChains, &v3listener.FilterChain{
			FilterChainMatch: &v3listener.FilterChainMatch{DestinationPort: wrapperspb.UInt32(uint32(80 + i))}, Filters: []*v3listener.Filter{f}})
	}
	return l
}

// seed is a message and how the response holding it is built.
type Seed struct {
	Name string
	T    xdsresource.ResourceType
	Msg  proto.Message
	Wrap func(b []byte) []byte // nil: the message is the resource
}

func inListener(url string) func(b []byte) []byte {
	return func(b []byte) []byte { return BytesOf(listenerWith(FilterOf(url, b))) }
}

func InHTTPFilter(url string) func(b []byte) []byte {
	return func(b []byte) []byte {
		h := HCMRds("rc")
		h.HttpFilters = []*v3http.HttpFilter{{Name: "f", ConfigType: &v3http.HttpFilter_TypedConfig{TypedConfig: &anypb.Any{TypeUrl: url, Value: b}}}}
		return BytesOf(listenerWith(FilterOf(xdsresource.HTTPConnManagerTypeURL, BytesOf(h))))
	}
}

func Seeds() []*Seed {
	lis := listenerWith(FilterOf(xdsresource.HTTPConnManagerTypeURL, BytesOf(SeedHCM(0))), FilterOf(xdsresource.ThriftProxyTypeURL, BytesOf(SeedThrift())), FilterOf("type.googleapis.com/other", []byte{0xff}))
	lis.DefaultFilterChain = &v3listener.FilterChain{Filters: []*v3listener.Filter{{Name: "bare"}, FilterOf(xdsresource.HTTPConnManagerTypeURL, BytesOf(HCMRds("d")))}}
	cl := &v3cluster.Cluster{Name: "c", ClusterDiscoveryType: &v3cluster.Cluster_Type{Type: v3cluster.Cluster_EDS}, LbPolicy: v3cluster.Cluster_RING_HASH,
		EdsClusterConfig: &v3cluster.Cluster_EdsClusterConfig{ServiceName: "s"},
		OutlierDetection: &v3cluster.OutlierDetection{FailurePercentageThreshold: wrapperspb.UInt32(5), FailurePercentageRequestVolume: wrapperspb.UInt32(7)},
		LoadAssignment:   CLA("c", []string{"1.1.1.1", "::1"}, 80)}
	nt := &dnsproto.NameTable{Table: map[string]*dnsproto.NameTable_NameInfo{
		"a.b": {Ips: []string{"1.1.1.1", "2.2.2.2"}, Registry: "k", Shortname: "a", Namespace: "b"}, "c": {}}}
	return []*Seed{
		{"listener", LDS, lis, nil},
		{"connection manager, named table", LDS, SeedHCM(0), inListener(xdsresource.HTTPConnManagerTypeURL)},
		{"connection manager, inline table", LDS, SeedHCM(1), inListener(xdsresource.HTTPConnManagerTypeURL)},
		{"thrift proxy", LDS, SeedThrift(), inListener(xdsresource.ThriftProxyTypeURL)},
		{"rate limit", LDS, Bucket(), InHTTPFilter(xdsresource.RateLimitTypeURL)},
		{"typed struct", LDS, TStruct(map[string]interface{}{"max_tokens": 4.0, "tokens_per_fill": 2.0}), InHTTPFilter(xdsresource.TypedStructTypeURL)},
		{"route table", RDS, SeedRC("rc"), nil},
		{"cluster", CDS, cl, nil},
		{"load assignment", EDS, CLA("e", []string{"1.1.1.1", "::1"}, 80), nil},
		{"name table", NDS, nt, nil},
	}
}

func (s *Seed) Res(b []byte) []*anypb.Any {
	if s.Wrap != nil {
		b = s.Wrap(b)
	}
	return []*anypb.Any{{TypeUrl: URL(s.T), Value: b}}
}

// edits are all messages obtained from m by one edit: a field cleared, an
// element of a list emptied, duplicated or removed, a map value emptied, an
// extreme scalar.
func Edits(m protoreflect.Message, path string, root proto.Message, out func(path string)) {
	var fds []protoreflect.FieldDescriptor
	m.Range(func(fd protoreflect.FieldDescriptor, _ protoreflect.Value) bool { fds = append(fds, fd); return true })
	for i := 1; i < len(fds); i++ {
		for j := i; j > 0 && fds[j].Number() < fds[j-1].Number(); j-- {
			fds[j], fds[j-1] = fds[j-1], fds[j]
		}
	}
	for _, fd := range fds {
		p := path + "." + string(fd.Name())
		old := m.Get(fd)
		keep := old // lists and maps are views of the field: copy them
		switch {
		case fd.IsMap():
			keep = m.NewField(fd)
			old.Map().Range(func(k protoreflect.MapKey, v protoreflect.Value) bool { keep.Map().Set(k, v); return true })
		case fd.IsList():
			keep = m.NewField(fd)
			for i := 0; i < old.List().Len(); i++ {
				keep.List().Append(old.List().Get(i))
			}
		}
		m.Clear(fd)
		out(p + " cleared")
		m.Set(fd, keep)
		old = m.Get(fd)
		switch {
		case fd.IsMap():
			mv := old.Map()
			var ks []protoreflect.MapKey
			mv.Range(func(k protoreflect.MapKey, v protoreflect.Value) bool { ks = append(ks, k); return true })
			for _, k := range ks {
				if fd.MapValue().Message() == nil {
					continue
				}
				v := mv.Get(k)
				mv.Set(k, mv.NewValue())
				out(p + "[" + k.String() + "] emptied")
				mv.Set(k, v)
				Edits(v.Message(), p+"["+k.String()+"]", root, out)
			}
		case fd.IsList():
			l := old.List()
			if fd.Message() == nil {
				continue
			}
			for i := 0; i < l.Len(); i++ {
				e := l.Get(i)
				l.Set(i, l.NewElement())
				out(fmt.Sprintf("%s[%d] emptied", p, i))
				l.Set(i, e)
				Edits(e.Message(), fmt.Sprintf("%s[%d]", p, i), root, out)
			}
			l.Append(l.NewElement())
			out(p + " with an empty element more")
			l.Truncate(l.Len() - 1)
		case fd.Message() != nil:
			m.Set(fd, m.NewField(fd))
			out(p + " emptied")
			m.Set(fd, old)
			Edits(old.Message(), p, root, out)
		default:
			var vs []protoreflect.Value
			switch fd.Kind() {
			case protoreflect.StringKind:
				vs = []protoreflect.Value{protoreflect.ValueOfString(""), protoreflect.ValueOfString("(["), protoreflect.ValueOfString("NaN"), protoreflect.ValueOfString(":"),
					protoreflect.ValueOfString(","), protoreflect.ValueOfString(strings.Repeat("(", 2000)), protoreflect.ValueOfString("1e999")}
			case protoreflect.Int64Kind:
				vs = []protoreflect.Value{protoreflect.ValueOfInt64(math.MinInt64), protoreflect.ValueOfInt64(math.MaxInt64), protoreflect.ValueOfInt64(-1)}
			case protoreflect.Int32Kind:
				vs = []protoreflect.Value{protoreflect.ValueOfInt32(math.MinInt32), protoreflect.ValueOfInt32(math.MaxInt32), protoreflect.ValueOfInt32(-1)}
			case protoreflect.Uint32Kind:
				vs = []protoreflect.Value{protoreflect.ValueOfUint32(0), protoreflect.ValueOfUint32(math.MaxUint32), protoreflect.ValueOfUint32(1 << 31)}
			case protoreflect.EnumKind:
				vs = []protoreflect.Value{protoreflect.ValueOfEnum(0), protoreflect.ValueOfEnum(1), protoreflect.ValueOfEnum(2), protoreflect.ValueOfEnum(77), protoreflect.ValueOfEnum(-1)}
			case protoreflect.DoubleKind:
				vs = []protoreflect.Value{protoreflect.ValueOfFloat64(math.NaN()), protoreflect.ValueOfFloat64(math.Inf(1)), protoreflect.ValueOfFloat64(-1), protoreflect.ValueOfFloat64(1e300)}
			}
			for _, v := range vs {
				m.Set(fd, v)
				out(fmt.Sprintf("%s set to %.20v", p, v))
				m.Set(fd, old)
			}
		}
	}
}

func Pieces(t xdsresource.ResourceType) (out []*anypb.Any) {
	u := URL(t)
	var all []*Seed
	for _, sd := range Seeds() {
		if sd.Wrap == nil {
			all = append(all, sd)
			if sd.T == t {
				out = append(out, &anypb.Any{TypeUrl: u, Value: BytesOf(sd.Msg)})
			}
		}
	}
	out = append(out, nil, &anypb.Any{}, &anypb.Any{TypeUrl: u}, Corrupt(t), BadStruct(t, "x"), BadStruct(t, ""), &anypb.Any{TypeUrl: u + "x", Value: out[0].Value})
	for _, sd := range all {
		if sd.T != t {
			out = append(out, &anypb.Any{TypeUrl: URL(sd.T), Value: BytesOf(sd.Msg)}, &anypb.Any{TypeUrl: u, Value: BytesOf(sd.Msg)})
		}
	}
	return
}
