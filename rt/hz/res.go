package hz

import (
	"fmt"
	"strings"
	"time"

	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3endpoint "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3ratelimit "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/http/local_ratelimit/v3"
	v3http "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3type "github.com/envoyproxy/go-control-plane/envoy/type/v3"
	dnsproto "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/kitex-contrib/xds/core/xdsresource"
)

// Short names of the types.
const (
	LDS = xdsresource.ListenerType
	RDS = xdsresource.RouteConfigType
	CDS = xdsresource.ClusterType
	EDS = xdsresource.EndpointsType
	NDS = xdsresource.NameTableType
)

// URL of a type.
func URL(t xdsresource.ResourceType) string { return xdsresource.ResourceTypeToURL[t] }

// Bare makes Any send messages as they are.
var Bare bool

// Any wraps a message, with what control planes usually send along set where
// it is not (unless Bare).
func Any(url string, m proto.Message) *anypb.Any {
	if !Bare {
		dress(m)
	}
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	return &anypb.Any{TypeUrl: url, Value: b}
}

// HCMFilter is a network filter holding an HTTP connection manager.
func HCMFilter(h *v3http.HttpConnectionManager) *v3listener.Filter {
	return &v3listener.Filter{Name: "hcm", ConfigType: &v3listener.Filter_TypedConfig{TypedConfig: Any(xdsresource.HTTPConnManagerTypeURL, h)}}
}

// HCMRds is an HTTP connection manager with a named route table.
func HCMRds(rc string) *v3http.HttpConnectionManager {
	return &v3http.HttpConnectionManager{RouteSpecifier: &v3http.HttpConnectionManager_Rds{Rds: &v3http.Rds{RouteConfigName: rc}}}
}

// RateLimitFilter is a local_ratelimit HTTP filter.
func RateLimitFilter(max, fill uint32) *v3http.HttpFilter {
	return &v3http.HttpFilter{Name: "rl", ConfigType: &v3http.HttpFilter_TypedConfig{TypedConfig: Any(xdsresource.RateLimitTypeURL, &v3ratelimit.LocalRateLimit{
		StatPrefix:  "x",
		TokenBucket: &v3type.TokenBucket{MaxTokens: max, TokensPerFill: wrapperspb.UInt32(fill), FillInterval: durationpb.New(time.Second)},
	})}}
}

func dress(m proto.Message) {
	switch m := m.(type) {
	case *v3listener.Listener:
		if m.StatPrefix == "" {
			m.StatPrefix = "stat"
			m.TrafficDirection = v3core.TrafficDirection_OUTBOUND
		}
		for i, fc := range m.FilterChains {
			if fc != nil && fc.Name == "" {
				fc.Name = fmt.Sprint("chain-", i%2)
			}
		}
	case *v3route.RouteConfiguration:
		if m.ValidateClusters == nil {
			m.ValidateClusters = wrapperspb.Bool(false)
		}
		for _, vh := range m.VirtualHosts {
			if vh == nil {
				continue
			}
			if vh.Domains == nil {
				vh.Domains = []string{"nowhere.example", "nowhere.example:80"}
			}
			if vh.RetryPolicy == nil {
				vh.RetryPolicy = &v3route.RetryPolicy{NumRetries: wrapperspb.UInt32(4), PerTryTimeout: durationpb.New(time.Minute)}
			}
			for i, r := range vh.Routes {
				if r == nil || r.Name != "" {
					continue
				}
				r.Name = fmt.Sprint("route-", i%2)
				r.StatPrefix = "stat"
				if r.Match != nil && r.Match.CaseSensitive == nil {
					r.Match.CaseSensitive = wrapperspb.Bool(i%2 == 0)
				}
				if a := r.GetRoute(); a != nil && a.MaxStreamDuration == nil && a.IdleTimeout == nil {
					a.MaxStreamDuration = &v3route.RouteAction_MaxStreamDuration{MaxStreamDuration: durationpb.New(time.Hour)}
					a.IdleTimeout = durationpb.New(time.Hour)
				}
			}
		}
	case *v3http.HttpConnectionManager:
		for i, f := range m.HttpFilters {
			if f != nil && i%2 == 0 {
				f.IsOptional = true
			}
		}
	case *v3cluster.Cluster:
		if m.AltStatName == "" {
			m.AltStatName = "stat"
		}
		if m.ConnectTimeout == nil {
			m.ConnectTimeout = durationpb.New(10 * time.Second)
		}
		dress(m.LoadAssignment)
	case *v3endpoint.ClusterLoadAssignment:
		if m == nil {
			return
		}
		if m.Policy == nil {
			m.Policy = &v3endpoint.ClusterLoadAssignment_Policy{OverprovisioningFactor: wrapperspb.UInt32(140)}
		}
		for i, l := range m.Endpoints {
			if l == nil || l.Locality != nil {
				continue
			}
			l.Locality = &v3core.Locality{Region: "r", Zone: fmt.Sprint("z", i%2)}
			l.Priority = uint32((i + 1) % 3)
			l.LoadBalancingWeight = wrapperspb.UInt32(uint32(7 * i))
			for j, e := range l.LbEndpoints {
				if e != nil && e.HealthStatus == 0 {
					e.HealthStatus = v3core.HealthStatus(j % 2)
				}
			}
		}
	}
}

var cache = map[string]*anypb.Any{}

func memo(k string, f func() *anypb.Any) *anypb.Any {
	if a, ok := cache[k]; ok {
		return a
	}
	if len(cache) > 20000 {
		cache = map[string]*anypb.Any{}
	}
	a := f()
	cache[k] = a
	return a
}

// Stamped builds a minimal valid resource of type t whose decoded content
// carries stamp.
func Stamped(t xdsresource.ResourceType, name, stamp string) *anypb.Any {
	return memo(fmt.Sprint(int(t), "|", name, "|", stamp), func() *anypb.Any {
		switch t {
		case LDS:
			return Any(URL(t), &v3listener.Listener{Name: name, FilterChains: []*v3listener.FilterChain{{Filters: []*v3listener.Filter{HCMFilter(HCMRds("rc-" + stamp))}}}})
		case RDS:
			return Any(URL(t), &v3route.RouteConfiguration{Name: name, VirtualHosts: []*v3route.VirtualHost{{Name: "vh", Routes: []*v3route.Route{{
				Match:  &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}},
				Action: &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_Cluster{Cluster: "c-" + stamp}}},
			}}}}})
		case CDS:
			return Any(URL(t), &v3cluster.Cluster{Name: name, ClusterDiscoveryType: &v3cluster.Cluster_Type{Type: v3cluster.Cluster_EDS},
				EdsClusterConfig: &v3cluster.Cluster_EdsClusterConfig{ServiceName: "e-" + stamp}})
		case EDS:
			return Any(URL(t), CLA(name, []string{stamp}, 80))
		}
		panic("no stamp for type")
	})
}

// CLA builds a load assignment with one locality.
func CLA(name string, hosts []string, port uint32) *v3endpoint.ClusterLoadAssignment {
	var eps []*v3endpoint.LbEndpoint
	for _, h := range hosts {
		eps = append(eps, &v3endpoint.LbEndpoint{HostIdentifier: &v3endpoint.LbEndpoint_Endpoint{Endpoint: &v3endpoint.Endpoint{
			Address: &v3core.Address{Address: &v3core.Address_SocketAddress{SocketAddress: &v3core.SocketAddress{Address: h, PortSpecifier: &v3core.SocketAddress_PortValue{PortValue: port}}}}}},
			LoadBalancingWeight: wrapperspb.UInt32(1)})
	}
	return &v3endpoint.ClusterLoadAssignment{ClusterName: name, Endpoints: []*v3endpoint.LocalityLbEndpoints{{LbEndpoints: eps}}}
}

// StampOf reads the stamp back from a decoded resource; it describes anything
// that is not a stamped resource of the type.
func StampOf(t xdsresource.ResourceType, v interface{}) (out string) {
	defer func() {
		if p := recover(); p != nil {
			out = fmt.Sprintf("malformed(%T)", v)
		}
	}()
	switch t {
	case LDS:
		r, ok := v.(*xdsresource.ListenerResource)
		if !ok || r == nil {
			return fmt.Sprintf("bad(%T,nil=%v)", v, r == nil)
		}
		return strings.TrimPrefix(r.NetworkFilters[0].RouteConfigName, "rc-")
	case RDS:
		r, ok := v.(*xdsresource.RouteConfigResource)
		if !ok || r == nil {
			return fmt.Sprintf("bad(%T,nil=%v)", v, r == nil)
		}
		return strings.TrimPrefix(r.HTTPRouteConfig.VirtualHosts[0].Routes[0].WeightedClusters[0].Name, "c-")
	case CDS:
		r, ok := v.(*xdsresource.ClusterResource)
		if !ok || r == nil {
			return fmt.Sprintf("bad(%T,nil=%v)", v, r == nil)
		}
		return strings.TrimPrefix(r.EndpointName, "e-")
	case EDS:
		r, ok := v.(*xdsresource.EndpointsResource)
		if !ok || r == nil {
			return fmt.Sprintf("bad(%T,nil=%v)", v, r == nil)
		}
		a := r.Localities[0].Endpoints[0].Addr().String()
		return strings.TrimSuffix(a, ":80")
	}
	return fmt.Sprintf("untyped(%T)", v)
}

// NameTable builds an NDS resource.
func NameTable(t map[string][]string) *anypb.Any {
	nt := &dnsproto.NameTable{Table: map[string]*dnsproto.NameTable_NameInfo{}}
	for k, v := range t {
		p := strings.Split(k, ".")
		nt.Table[k] = &dnsproto.NameTable_NameInfo{Ips: v, Registry: "Kubernetes", Shortname: "short-" + p[0], AltHosts: []string{"alt-" + k}}
		if len(p) > 1 {
			nt.Table[k].Shortname, nt.Table[k].Namespace = p[0], p[1]
		}
	}
	return Any(URL(NDS), nt)
}

// Corrupt is a resource of type t whose payload is not a protobuf encoding.
func Corrupt(t xdsresource.ResourceType) *anypb.Any {
	return &anypb.Any{TypeUrl: URL(t), Value: []byte{0x0a, 0x7f, 0x01}}
}

// BadStruct is a resource of type t that decodes as protobuf but violates the
// structural rules of its type (a plain corruption where there are none).
func BadStruct(t xdsresource.ResourceType, name string) *anypb.Any {
	switch t {
	case RDS:
		return Any(URL(t), &v3route.RouteConfiguration{Name: name, VirtualHosts: []*v3route.VirtualHost{{Name: "vh", Routes: []*v3route.Route{{
			Match: &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}},
		}}}}})
	case LDS:
		return Any(URL(t), &v3listener.Listener{Name: name, FilterChains: []*v3listener.FilterChain{{Filters: []*v3listener.Filter{
			{Name: "hcm", ConfigType: &v3listener.Filter_TypedConfig{TypedConfig: &anypb.Any{TypeUrl: xdsresource.HTTPConnManagerTypeURL, Value: []byte{0x0a, 0x7f, 0x01}}}}}}}})
	}
	a := Corrupt(t)
	a.Value = []byte{0xff}
	return a
}

// Rich is Stamped with circuit-breaker, retry and rate-limit settings derived
// from the stamp.
func Rich(t xdsresource.ResourceType, name, stamp string) *anypb.Any {
	return memo(fmt.Sprint("rich|", int(t), "|", name, "|", stamp), func() *anypb.Any {
		n := uint32(0)
		fmt.Sscanf(stamp, "s%d", &n)
		switch t {
		case LDS:
			h := HCMRds("rc-" + stamp)
			h.RouteSpecifier = &v3http.HttpConnectionManager_RouteConfig{RouteConfig: &v3route.RouteConfiguration{Name: "x"}}
			h.HttpFilters = []*v3http.HttpFilter{RateLimitFilter(100, n+10)}
			return Any(URL(t), &v3listener.Listener{Name: name, FilterChains: []*v3listener.FilterChain{
				{Filters: []*v3listener.Filter{HCMFilter(HCMRds("rc-" + stamp))}}, {Filters: []*v3listener.Filter{HCMFilter(h)}}}})
		case RDS:
			return Any(URL(t), &v3route.RouteConfiguration{Name: name, VirtualHosts: []*v3route.VirtualHost{{Name: "vh", Routes: []*v3route.Route{{
				Match: &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}},
				Action: &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_Cluster{Cluster: "c-" + stamp},
					RetryPolicy: &v3route.RetryPolicy{NumRetries: wrapperspb.UInt32(n%5 + 1), PerTryTimeout: durationpb.New(time.Duration(n) * time.Millisecond)}}},
			}}}}})
		case CDS:
			return Any(URL(t), &v3cluster.Cluster{Name: name, ClusterDiscoveryType: &v3cluster.Cluster_Type{Type: v3cluster.Cluster_EDS},
				EdsClusterConfig: &v3cluster.Cluster_EdsClusterConfig{ServiceName: "e-" + stamp},
				OutlierDetection: &v3cluster.OutlierDetection{FailurePercentageThreshold: wrapperspb.UInt32(n%90 + 1), FailurePercentageRequestVolume: wrapperspb.UInt32(n + 1)}})
		}
		return Stamped(t, name, stamp)
	})
}
