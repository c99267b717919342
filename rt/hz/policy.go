package hz

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/cloudwego/kitex/client"
	"github.com/cloudwego/kitex/pkg/circuitbreak"
	"github.com/cloudwego/kitex/pkg/endpoint"
	"github.com/cloudwego/kitex/pkg/limit"
	"github.com/cloudwego/kitex/pkg/retry"
	"github.com/cloudwego/kitex/pkg/utils"
	"github.com/cloudwego/kitex/pkg/xds"
	"github.com/cloudwego/kitex/server"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/xdssuite"
)

// Getter is what the suite needs of a manager.
type Getter interface {
	Get(ctx context.Context, rType xdsresource.ResourceType, rName string) (interface{}, error)
	RegisterXDSUpdateHandler(resourceType xdsresource.ResourceType, handler xdsresource.XDSUpdateHandler)
}

// Proxy is the process-wide manager of the suite; it delegates to the manager
// of the current execution.
type Proxy struct{ Cur Getter }

func (p *Proxy) Get(ctx context.Context, t xdsresource.ResourceType, n string) (interface{}, error) {
	return p.Cur.Get(ctx, t, n)
}

func (p *Proxy) RegisterXDSUpdateHandler(t xdsresource.ResourceType, h xdsresource.XDSUpdateHandler) {
	p.Cur.RegisterXDSUpdateHandler(t, h)
}

// Px is the installed proxy.
var Px = &Proxy{}

// InstallProxy makes Px the manager of the suite (once per process).
func InstallProxy() {
	if err := xdssuite.SetXDSResourceManager(Px); err != nil {
		panic(err)
	}
}

// ClientOut is what a client option configures.
type ClientOut struct {
	CB    *circuitbreak.CBSuite
	Retry *retry.Container
	Suite xds.ClientSuite
	IMW   []endpoint.Middleware
}

// ApplyClient applies a client option to fresh client options.
func ApplyClient(opts ...client.Option) *ClientOut {
	out := &ClientOut{}
	if len(opts) == 0 {
		return out
	}
	ft := reflect.TypeOf(opts[0].F)
	o := reflect.New(ft.In(0).Elem())
	for _, op := range opts {
		reflect.ValueOf(op.F).Call([]reflect.Value{o, reflect.ValueOf(&utils.Slice{})})
	}
	e := o.Elem()
	if v, ok := e.FieldByName("CBSuite").Interface().(*circuitbreak.CBSuite); ok {
		out.CB = v
	}
	if v, ok := e.FieldByName("RetryContainer").Interface().(*retry.Container); ok {
		out.Retry = v
	}
	if v, ok := e.FieldByName("XDSRouterMiddleware").Interface().(endpoint.Middleware); ok {
		out.Suite.RouterMiddleware = v
	}
	if v, ok := e.FieldByName("IMWBs").Interface().([]endpoint.MiddlewareBuilder); ok {
		for _, b := range v {
			out.IMW = append(out.IMW, b(context.Background()))
		}
	}
	return out
}

// ApplyServer applies a server option and returns the limits it configures.
func ApplyServer(opts ...server.Option) *limit.Option {
	ft := reflect.TypeOf(opts[0].F)
	o := reflect.New(ft.In(0).Elem())
	for _, op := range opts {
		reflect.ValueOf(op.F).Call([]reflect.Value{o, reflect.ValueOf(&utils.Slice{})})
	}
	l := o.Elem().FieldByName("Limit").FieldByName("Limits")
	v, _ := l.Interface().(*limit.Option)
	return v
}

// CBConfigs is the per-destination circuit-breaker configuration.
func CBConfigs(s *circuitbreak.CBSuite) map[string]circuitbreak.CBConfig {
	out := map[string]circuitbreak.CBConfig{}
	d, _ := s.Dump().(map[string]interface{})
	c, _ := d["cb_config"].(map[string]interface{})
	m, _ := c["service"].(map[string]interface{})
	for k, v := range m {
		if cfg, ok := v.(circuitbreak.CBConfig); ok {
			out[k] = cfg
		}
	}
	return out
}

// CBString is a canonical description of the enabled and disabled breakers.
func CBString(s *circuitbreak.CBSuite) string {
	var l []string
	for k, v := range CBConfigs(s) {
		l = append(l, fmt.Sprintf("%s:%v/%v/%v", k, v.Enable, v.ErrRate, v.MinSample))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// RetryPolicies is the canonical form of the installed retry policies.
func RetryPolicies(c *retry.Container) map[string]string {
	out := map[string]string{}
	d, _ := c.Dump().(map[string]interface{})
	for k, v := range d {
		if k == "msg" || k == "has_code_cfg" {
			continue
		}
		b, err := json.Marshal(v)
		if err != nil {
			b = []byte(fmt.Sprint(v))
		}
		out[k] = string(b)
	}
	return out
}

// RetryString is RetryPolicies as one string.
func RetryString(c *retry.Container) string { return MapString(RetryPolicies(c)) }

// MapString is a canonical string of a map.
func MapString(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// Limiter observes the limits pushed to a running server.
type Limiter struct {
	Opt     *limit.Option
	Started bool
	Updates int
	QPS     int // last pushed
	Conns   int
}

// UpdateLimit implements limit.Updater as Kitex's limiter does, which ignores
// limits that are not positive.
func (l *Limiter) UpdateLimit(o *limit.Option) bool {
	l.Updates++
	if o.MaxConnections > 0 {
		l.Conns = o.MaxConnections
	}
	if o.MaxQPS > 0 {
		l.QPS = o.MaxQPS
	}
	return true
}

// Start does what the server does when it starts: it reads the configured
// limits and hands out the updater.
func (l *Limiter) Start() {
	l.QPS, l.Conns = l.Opt.MaxQPS, l.Opt.MaxConnections
	l.Started = true
	if l.Opt.UpdateControl != nil {
		l.Opt.UpdateControl(l)
	}
}

// Unlimited reports whether the server treats a limit as no limit.
func Unlimited(v int) bool { return v > 0 && (int32(v) <= 0 || int32(v) >= 1<<30) }
