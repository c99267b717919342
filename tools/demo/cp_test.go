package demo

import (
	"context"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"github.com/cloudwego/kitex/server"
	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3endpoint "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3http "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	discoveryv3 "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	v3 "github.com/kitex-contrib/xds/core/api/kitex_gen/envoy/service/discovery/v3"
	"github.com/kitex-contrib/xds/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice"
	dns "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"github.com/kitex-contrib/xds/core/manager"
	"github.com/kitex-contrib/xds/core/xdsresource"
)

const (
	LDS = xdsresource.ListenerType
	RDS = xdsresource.RouteConfigType
	CDS = xdsresource.ClusterType
	EDS = xdsresource.EndpointsType
	NDS = xdsresource.NameTableType
)

// Req is a request received by the control plane.
type Req struct {
	Stream int
	*discoveryv3.DiscoveryRequest
}

type conn struct {
	id   int
	send chan *discoveryv3.DiscoveryResponse
	stop chan error
}

// CP is a control plane on the loopback network.
type CP struct {
	mu    sync.Mutex
	addr  string
	reqs  []Req
	conns []*conn
	nonce int
	// OnReq answers requests, if set.
	OnReq func(r Req)
	Table map[string][]string
}

func any(t xdsresource.ResourceType, m proto.Message) *anypb.Any {
	b, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	return &anypb.Any{TypeUrl: xdsresource.ResourceTypeToURL[t], Value: b}
}

func Start(t *testing.T) *CP {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	c := &CP{addr: ln.Addr().String(), Table: map[string][]string{"a.ns.svc.cluster.local": {"1.1.1.1"}, "b.ns.svc.cluster.local": {"2.2.2.2"}}}
	s := aggregateddiscoveryservice.NewServer(c, server.WithListener(ln))
	go func() { _ = s.Run() }()
	time.Sleep(200 * time.Millisecond)
	return c
}

func (c *CP) StreamAggregatedResources(st v3.AggregatedDiscoveryService_StreamAggregatedResourcesServer) error {
	c.mu.Lock()
	k := &conn{id: len(c.conns), send: make(chan *discoveryv3.DiscoveryResponse, 1000), stop: make(chan error, 4)}
	c.conns = append(c.conns, k)
	c.mu.Unlock()
	go func() {
		for {
			m, err := st.Recv()
			if err != nil {
				k.stop <- err
				return
			}
			r := Req{k.id, m}
			c.mu.Lock()
			c.reqs = append(c.reqs, r)
			f := c.OnReq
			c.mu.Unlock()
			if r.ResponseNonce == "" {
				switch r.TypeUrl {
				case xdsresource.NameTableTypeURL:
					c.Push(NDS, "v0", Table(c.Table))
				case xdsresource.ListenerTypeURL:
					if k.id == 0 {
						c.Push(LDS, "v0", Inbound())
					}
				}
			}
			if f != nil {
				f(r)
			}
		}
	}()
	for {
		select {
		case r := <-k.send:
			if err := st.Send(r); err != nil {
				return err
			}
		case err := <-k.stop:
			return err
		}
	}
}

func (c *CP) DeltaAggregatedResources(v3.AggregatedDiscoveryService_DeltaAggregatedResourcesServer) error {
	return fmt.Errorf("not implemented")
}

// Push sends a response on the newest stream and returns its nonce.
func (c *CP) Push(t xdsresource.ResourceType, version string, rs ...*anypb.Any) string {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.nonce++
	k := c.conns[len(c.conns)-1]
	n := fmt.Sprintf("n%d@%d", c.nonce, k.id)
	k.send <- &discoveryv3.DiscoveryResponse{TypeUrl: xdsresource.ResourceTypeToURL[t], VersionInfo: version, Nonce: n, Resources: rs}
	return n
}

// Break ends the newest stream.
func (c *CP) Break() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.conns[len(c.conns)-1].stop <- fmt.Errorf("going away")
}

// Reqs of a type so far.
func (c *CP) Reqs(t xdsresource.ResourceType) (l []Req) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, r := range c.reqs {
		if r.TypeUrl == xdsresource.ResourceTypeToURL[t] {
			l = append(l, r)
		}
	}
	return
}

// Ack waits for the request that answers a nonce.
func (c *CP) Ack(t *testing.T, ty xdsresource.ResourceType, nonce string) Req {
	var q Req
	Wait(t, "answer to "+nonce, func() bool {
		for _, r := range c.Reqs(ty) {
			if r.ResponseNonce == nonce {
				q = r
				return true
			}
		}
		return false
	})
	return q
}

// Wait for a condition.
func Wait(t *testing.T, what string, f func() bool) {
	for i := 0; i < 2000; i++ {
		if f() {
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	t.Fatalf("no %s", what)
}

type Manager interface {
	Get(ctx context.Context, rType xdsresource.ResourceType, rName string) (interface{}, error)
	RegisterXDSUpdateHandler(t xdsresource.ResourceType, h xdsresource.XDSUpdateHandler)
	Dump()
	Close()
}

func Env() {
	os.Setenv("POD_NAMESPACE", "ns")
	os.Setenv("POD_NAME", "pod")
	os.Setenv("INSTANCE_IP", "9.9.9.9")
}

// Client starts a manager.
func Client(t *testing.T, c *CP, timeout time.Duration) Manager {
	Env()
	m, err := manager.NewXDSResourceManager(nil, manager.Option{F: func(o *manager.Options) {
		o.XDSSvrConfig = &manager.XDSServerConfig{SvrName: "cp", SvrAddr: c.addr, FetchXDSTimeout: timeout}
		o.DumpPath = filepath.Join(t.TempDir(), "dump.json")
	}})
	if err != nil {
		t.Fatal(err)
	}
	return m
}

func Table(m map[string][]string) *anypb.Any {
	nt := &dns.NameTable{Table: map[string]*dns.NameTable_NameInfo{}}
	for k, v := range m {
		nt.Table[k] = &dns.NameTable_NameInfo{Ips: v}
	}
	return any(NDS, nt)
}

func hcm(h *v3http.HttpConnectionManager) *v3listener.Filter {
	b, _ := proto.Marshal(h)
	return &v3listener.Filter{ConfigType: &v3listener.Filter_TypedConfig{TypedConfig: &anypb.Any{TypeUrl: xdsresource.HTTPConnManagerTypeURL, Value: b}}}
}

func Listener(name, rds string) *anypb.Any {
	return any(LDS, &v3listener.Listener{Name: name, FilterChains: []*v3listener.FilterChain{{Filters: []*v3listener.Filter{
		hcm(&v3http.HttpConnectionManager{RouteSpecifier: &v3http.HttpConnectionManager_Rds{Rds: &v3http.Rds{RouteConfigName: rds}}})}}}})
}

func Inbound() *anypb.Any { return Listener("virtualInbound", "inbound") }

func Routes(name, cluster string) *anypb.Any {
	return any(RDS, &v3route.RouteConfiguration{Name: name, VirtualHosts: []*v3route.VirtualHost{{Name: "vh", Routes: []*v3route.Route{{
		Match:  &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}},
		Action: &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_Cluster{Cluster: cluster}}},
	}}}}})
}

func Cluster(name, eds string) *anypb.Any {
	return any(CDS, &v3cluster.Cluster{Name: name, ClusterDiscoveryType: &v3cluster.Cluster_Type{Type: v3cluster.Cluster_EDS},
		EdsClusterConfig: &v3cluster.Cluster_EdsClusterConfig{ServiceName: eds}})
}

func Endpoints(name string, ports ...uint32) *anypb.Any {
	var l []*v3endpoint.LbEndpoint
	for _, p := range ports {
		l = append(l, &v3endpoint.LbEndpoint{LoadBalancingWeight: wrapperspb.UInt32(1), HostIdentifier: &v3endpoint.LbEndpoint_Endpoint{Endpoint: &v3endpoint.Endpoint{
			Address: &v3core.Address{Address: &v3core.Address_SocketAddress{SocketAddress: &v3core.SocketAddress{Address: "1.2.3.4", PortSpecifier: &v3core.SocketAddress_PortValue{PortValue: p}}}}}}})
	}
	return any(EDS, &v3endpoint.ClusterLoadAssignment{ClusterName: name, Endpoints: []*v3endpoint.LocalityLbEndpoints{{LbEndpoints: l}}})
}

func Garbage(t xdsresource.ResourceType) *anypb.Any {
	return &anypb.Any{TypeUrl: xdsresource.ResourceTypeToURL[t], Value: []byte{0xff, 0xff, 0xff}}
}

func get(m Manager, t xdsresource.ResourceType, n string) (interface{}, error) {
	return m.Get(context.Background(), t, n)
}

func clusterEDS(v interface{}) string { return v.(*xdsresource.ClusterResource).EndpointName }

func names(r Req) map[string]bool {
	s := map[string]bool{}
	for _, n := range r.ResourceNames {
		s[n] = true
	}
	return s
}
