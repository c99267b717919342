package hz

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"time"
	"unsafe"

	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/core/manager"
	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/verifrt/mc"
	shimctx "github.com/kitex-contrib/xds/verifrt/shim/context"
	"github.com/kitex-contrib/xds/verifrt/vrt"
)

// Mgr is the public surface of the resource manager.
type Mgr interface {
	Get(ctx context.Context, rType xdsresource.ResourceType, rName string) (interface{}, error)
	RegisterXDSUpdateHandler(resourceType xdsresource.ResourceType, handler xdsresource.XDSUpdateHandler)
	Dump()
	Close()
}

// Cfg of a system.
type Cfg struct {
	NoNDS, NoLDS bool
	Timeout      time.Duration
	DumpPath     string
}

// Sys is the system under test.
type Sys struct {
	X     *mc.X
	CP    *CP
	M     Mgr
	Err   error
	Ready bool
	Cfg   Cfg
	nlook int
	// OnLook is called by the goroutine of a lookup when it returned.
	OnLook func(l *Look)
}

// SetEnv sets the environment the bootstrap code reads.
func SetEnv(kv map[string]string) {
	for _, k := range []string{"POD_NAMESPACE", "POD_NAME", "INSTANCE_IP", "KITEX_XDS_DOMAIN", "KITEX_XDS_METAS", "ISTIO_VERSION"} {
		if v, ok := kv[k]; ok {
			os.Setenv(k, v)
		} else {
			os.Unsetenv(k)
		}
	}
}

// StdEnv is the default environment.
var StdEnv = map[string]string{"POD_NAMESPACE": "default", "POD_NAME": "pod", "INSTANCE_IP": "10.9.9.9"}

func init() { SetEnv(StdEnv) }

// NodeID expected under StdEnv.
const NodeID = "sidecar~10.9.9.9~pod.default~default.svc.cluster.local"

// ScratchFile is a file inside the check's scratch directory.
func ScratchFile(name string) string {
	d := os.Getenv("VERIF_WORK")
	if d == "" {
		d = os.TempDir()
	}
	return filepath.Join(d, fmt.Sprintf("%s.%d", name, os.Getpid()))
}

// Timeout returns the effective fetch timeout.
func (c Cfg) FetchTimeout() time.Duration {
	if c.Timeout == 0 {
		return time.Second
	}
	return c.Timeout
}

// Start creates the control plane and begins constructing the manager.
func Start(x *mc.X, c Cfg) *Sys {
	s := &Sys{X: x, CP: NewCP(), Cfg: c}
	if s.Cfg.DumpPath == "" {
		s.Cfg.DumpPath = ScratchFile("dump.json")
	}
	vrt.GoN("init", func() {
		m, err := manager.NewXDSResourceManager(nil, s.Options()...)
		if err != nil {
			s.Err = err
		} else {
			s.M = m
		}
		s.Ready = true
		vrt.RaceRelease(unsafe.Pointer(s)) // whoever uses the manager got it from its creator
	})
	return s
}

// Options for the constructor.
func (s *Sys) Options() []manager.Option {
	c := s.Cfg
	return []manager.Option{{F: func(o *manager.Options) {
		o.XDSSvrConfig = &manager.XDSServerConfig{SvrName: "cp", SvrAddr: "cp:1", NDSNotRequired: c.NoNDS, LDSNotRequired: c.NoLDS, FetchXDSTimeout: c.Timeout}
		o.DumpPath = c.DumpPath
	}}}
}

// Boot answers the start-up subscriptions and waits for the manager.
func (s *Sys) Boot(table map[string][]string, listeners ...*anypb.Any) {
	vrt.Quiesce()
	if !s.Cfg.NoNDS {
		s.CP.Live().Push(URL(NDS), []*anypb.Any{NameTable(table)})
		vrt.Quiesce()
	}
	if !s.Cfg.NoLDS {
		s.CP.Live().Push(URL(LDS), listeners)
		vrt.Quiesce()
	}
	if !s.Ready || s.Err != nil || s.M == nil {
		vrt.Fail("", "start-up did not complete: ready=%v err=%v (%v)", s.Ready, s.Err, vrt.LiveGs())
	}
	vrt.RaceAcquire(unsafe.Pointer(s))
}

// Look is one lookup.
type Look struct {
	T        xdsresource.ResourceType
	Name     string
	Begun    bool
	Done     bool
	Val      interface{}
	Err      error
	Panic    string
	AskedAt  time.Time
	BegAt    time.Time
	EndAt    time.Time
	BegStep  int
	EndStep  int
	Cancel   context.CancelFunc
	Canceled bool
	D        time.Duration // caller's own deadline, if any
	CancelAt time.Time
	CancelSt int
	ID       int
	stamp    string
}

// Limit is the time by which the lookup has to return.
func (l *Look) Limit(fetch time.Duration) time.Time {
	t := l.BegAt.Add(fetch)
	if l.D > 0 && l.AskedAt.Add(l.D).Before(t) {
		t = l.AskedAt.Add(l.D)
	}
	if l.Canceled && l.CancelAt.Before(t) {
		t = l.CancelAt
	}
	if t.Before(l.BegAt) {
		t = l.BegAt
	}
	return t
}

// OK reports a successful lookup.
func (l *Look) OK() bool { return l.Done && l.Err == nil && l.Panic == "" }

// Stamp of the value.
func (l *Look) Stamp() string {
	if l.stamp != "" {
		return l.stamp
	}
	return StampOf(l.T, l.Val)
}

func (l *Look) String() string {
	st := "pending"
	if l.Done {
		if l.Panic != "" {
			st = "panic " + l.Panic
		} else if l.Err != nil {
			st = "error " + l.Err.Error()
		} else {
			st = "value " + l.Stamp()
		}
	}
	return fmt.Sprintf("lookup#%d(%s %q)=%s", l.ID, TName(l.T), l.Name, st)
}

// Look starts a lookup in its own goroutine.
func (s *Sys) Look(t xdsresource.ResourceType, name string) *Look {
	return s.LookD(t, name, 0)
}

// LookD is Look with a caller deadline (0: none, only cancellable).
func (s *Sys) LookD(t xdsresource.ResourceType, name string, d time.Duration) *Look {
	s.nlook++
	l := &Look{T: t, Name: name, ID: s.nlook, D: d, AskedAt: vrt.Now()}
	ctx, cancel := shimctx.WithCancel(context.Background())
	if d > 0 {
		ctx, cancel = shimctx.WithTimeout(context.Background(), d)
	}
	l.Cancel = func() {
		l.Canceled = true
		l.CancelAt, l.CancelSt = vrt.Now(), vrt.Steps()
		cancel()
	}
	if d < 0 {
		l.Cancel()
	}
	vrt.GoN(fmt.Sprintf("get%d", l.ID), func() { s.run(l, ctx) })
	return l
}

func (s *Sys) run(l *Look, ctx context.Context) {
	ok := false
	defer func() {
		if !ok {
			if p := recover(); p != nil {
				l.Panic = fmt.Sprint(p) + "\n" + string(debug.Stack())
			} else {
				return
			}
		}
		if l.Panic != "" {
			l.EndAt, l.EndStep = vrt.Now(), vrt.Steps()
		}
		l.Done = true
		if vrt.Verbose() {
			vrt.Logf("%v", l)
		}
	}()
	l.BegAt, l.BegStep = vrt.Now(), vrt.Steps()
	l.Begun = true
	l.Val, l.Err = s.M.Get(ctx, l.T, l.Name)
	l.EndAt, l.EndStep = vrt.Now(), vrt.Steps()
	if s.OnLook != nil {
		if l.Err == nil {
			l.stamp = StampOf(l.T, l.Val)
		}
		s.OnLook(l)
	}
	ok = true
}

// Snapshot is the cache of a type as an update handler registered now sees it.
func (s *Sys) Snapshot(t xdsresource.ResourceType) map[string]string {
	out := map[string]string{}
	armed := true
	s.M.RegisterXDSUpdateHandler(t, func(m map[string]xdsresource.Resource) {
		if !armed {
			return
		}
		for k, v := range m {
			out[k] = StampOf(t, v)
		}
	})
	armed = false
	return out
}
