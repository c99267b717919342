package hz

import (
	"context"
	"fmt"
	"time"

	"github.com/bytedance/gopkg/cloud/metainfo"
	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo"
	"github.com/cloudwego/kitex/transport"

	"github.com/kitex-contrib/xds/core/xdsresource"
)

// Src is a manager without a control plane: it serves what it is told to.
type Src struct {
	F        func(t xdsresource.ResourceType, name string) (interface{}, error)
	Handlers map[xdsresource.ResourceType][]xdsresource.XDSUpdateHandler
	Asked    []string
}

// Get implements Getter.
func (s *Src) Get(ctx context.Context, t xdsresource.ResourceType, n string) (interface{}, error) {
	s.Asked = append(s.Asked, TName(t)+" "+n)
	return s.F(t, n)
}

// RegisterXDSUpdateHandler implements Getter.
func (s *Src) RegisterXDSUpdateHandler(t xdsresource.ResourceType, h xdsresource.XDSUpdateHandler) {
	if s.Handlers == nil {
		s.Handlers = map[xdsresource.ResourceType][]xdsresource.XDSUpdateHandler{}
	}
	s.Handlers[t] = append(s.Handlers[t], h)
}

// ErrAbsent is what a lookup of something absent returns.
var ErrAbsent = fmt.Errorf("absent")

// Call describes a call.
type Call struct {
	To, Pkg, Svc, Method string
	Transport            transport.Protocol
	Tags                 map[string]string
	Timeout              time.Duration
	TimeoutLocked        bool
}

// RPC is a call in the form the routing step sees it.
type RPC struct {
	RI  rpcinfo.RPCInfo
	Cfg rpcinfo.RPCConfig
	To  remoteinfo.RemoteInfo
}

// New builds the RPCInfo of a call.
func (c Call) New() *RPC {
	r := &RPC{}
	r.To = remoteinfo.NewRemoteInfo(&rpcinfo.EndpointBasicInfo{ServiceName: c.To, Method: c.Method, Tags: c.Tags}, c.Method)
	r.Cfg = rpcinfo.NewRPCConfig()
	m := rpcinfo.AsMutableRPCConfig(r.Cfg)
	_ = m.SetTransportProtocol(c.Transport)
	if c.Timeout != 0 {
		_ = m.SetRPCTimeout(c.Timeout)
	}
	if c.TimeoutLocked {
		m.LockConfig(rpcinfo.BitRPCTimeout)
	}
	inv := rpcinfo.NewInvocation(c.Svc, c.Method, c.Pkg)
	r.RI = rpcinfo.NewRPCInfo(rpcinfo.NewEndpointInfo("caller", c.Method, nil, nil), r.To, inv, r.Cfg, rpcinfo.NewRPCStats())
	return r
}

// Meta puts metadata into a context the default way (which drops empty values).
func Meta(md map[string]string) context.Context {
	ctx := context.Background()
	for k, v := range md {
		ctx = metainfo.WithValue(ctx, k, v)
	}
	return ctx
}
