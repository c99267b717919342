// Package hz is the common harness: a fake control plane, resource builders
// and the system under test wired to them through its public API.
package hz

import (
	"context"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"time"

	"github.com/cloudwego/kitex/client"
	"github.com/cloudwego/kitex/client/callopt"
	"github.com/cloudwego/kitex/pkg/klog"
	"github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/codes"
	"github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/status"
	"github.com/cloudwego/kitex/pkg/streaming"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	discoveryv3 "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
	"google.golang.org/protobuf/types/known/anypb"

	ads "github.com/kitex-contrib/xds/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice"
	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/verifrt/vrt"
)

func init() {
	klog.SetOutput(io.Discard)
	klog.SetLevel(klog.LevelFatal)
}

// Req is one discovery request as seen by the control plane.
type Req struct {
	Stream  int
	Seq     int
	Type    xdsresource.ResourceType
	URL     string
	Names   []string
	Set     string
	Version string
	Nonce   string
	Err     bool
	ErrMsg  string
	Node    *v3core.Node
	Step    int
	At      time.Time
}

func (r *Req) String() string {
	e := ""
	if r.Err {
		e = " NACK"
	}
	return fmt.Sprintf("req{s%d %s [%s] v=%q n=%q%s}", r.Stream, TName(r.Type), r.Set, r.Version, r.Nonce, e)
}

// TName is a short type name.
func TName(t xdsresource.ResourceType) string {
	switch t {
	case xdsresource.ListenerType:
		return "LDS"
	case xdsresource.RouteConfigType:
		return "RDS"
	case xdsresource.ClusterType:
		return "CDS"
	case xdsresource.EndpointsType:
		return "EDS"
	case xdsresource.NameTableType:
		return "NDS"
	}
	return fmt.Sprintf("type%d", int(t))
}

type delivery struct {
	resp *discoveryv3.DiscoveryResponse
	err  error
}

// Moment is a point of an execution.
type Moment struct {
	Step int
	At   time.Time
}

// Stream is one ADS stream.
type Stream struct {
	streaming.Stream
	cp       *CP
	ID       int
	queue    []delivery
	err      error // Recv fails with it once the queue is drained
	sendErr  error // Send fails with it
	Closed   bool
	RecvBeg  int // Recv calls begun
	RecvEnd  int // Recv calls returned
	Reqs     []*Req
	Nonces   map[xdsresource.ResourceType]map[string]bool
	Stalled  bool // Send blocks
	inSend   int
	inRecv   int
	SendFail int      // the n-th Send from now fails (and breaks the stream)
	Begs     []Moment // when each Recv began
	Ends     []Moment // when each Recv returned
	Pushed   int      // responses pushed
	Got      int      // responses received
}

// CP is the fake control plane (and the ADS client handed to the code).
type CP struct {
	Streams   []*Stream
	Reqs      []*Req
	Creates   int
	CreateErr func(n int) error
	OnStream  func(st *Stream)
	// OnReq, when set, is called after a request was logged (scheduler context
	// of the sending goroutine, no points inside).
	OnReq func(st *Stream, r *Req)
	// Labels is the scheme by which versions and nonces are made.
	Labels int
	count  map[string]int
	seq    int
	nonce  int
	ver    int
	BadReq string // first malformed request, if any
	Concur string // concurrent use of one stream, if any
}

var current *CP

func init() {
	ads.VerifNew = func(string, ...client.Option) (ads.Client, error) {
		if current == nil {
			return nil, fmt.Errorf("no control plane")
		}
		return current, nil
	}
}

// NewCP installs a fresh control plane.
func NewCP() *CP {
	current = &CP{}
	return current
}

func (cp *CP) StreamAggregatedResources(ctx context.Context, o ...callopt.Option) (ads.AggregatedDiscoveryService_StreamAggregatedResourcesClient, error) {
	vrt.Point("stream-create")
	cp.Creates++
	if cp.CreateErr != nil {
		if err := cp.CreateErr(cp.Creates); err != nil {
			vrt.Logf("stream creation %d fails: %v", cp.Creates, err)
			return nil, err
		}
	}
	st := &Stream{cp: cp, ID: len(cp.Streams) + 1, Nonces: map[xdsresource.ResourceType]map[string]bool{}}
	cp.Streams = append(cp.Streams, st)
	vrt.Logf("stream %d created", st.ID)
	if cp.OnStream != nil {
		cp.OnStream(st)
	}
	return st, nil
}

func (cp *CP) DeltaAggregatedResources(ctx context.Context, o ...callopt.Option) (ads.AggregatedDiscoveryService_DeltaAggregatedResourcesClient, error) {
	return nil, fmt.Errorf("not supported")
}

// Live is the current unbroken stream or nil.
func (cp *CP) Live() *Stream {
	if len(cp.Streams) == 0 {
		return nil
	}
	st := cp.Streams[len(cp.Streams)-1]
	if st.err != nil || st.Closed {
		return nil
	}
	return st
}

// Send logs a request.
func (st *Stream) Send(r *discoveryv3.DiscoveryRequest) error {
	if st.inSend > 0 && st.cp.Concur == "" {
		st.cp.Concur = fmt.Sprintf("Send called concurrently on stream %d", st.ID)
	}
	st.inSend++
	vrt.Wait(func() bool { return !st.Stalled || st.err != nil }, "Send")
	st.inSend--
	if st.SendFail > 0 {
		st.SendFail--
		if st.SendFail == 0 {
			st.Break(io.EOF)
		}
	}
	if st.sendErr != nil || st.Closed {
		vrt.Logf("stream %d: Send fails", st.ID)
		if st.sendErr == nil {
			return io.ErrClosedPipe
		}
		return st.sendErr
	}
	cp := st.cp
	cp.seq++
	names := append([]string(nil), r.GetResourceNames()...)
	sort.Strings(names)
	t, ok := xdsresource.ResourceURLToType[r.GetTypeUrl()]
	if !ok && cp.BadReq == "" {
		cp.BadReq = "request with type url " + r.GetTypeUrl()
	}
	q := &Req{Stream: st.ID, Seq: cp.seq, Type: t, URL: r.GetTypeUrl(), Names: names, Set: strings.Join(names, ","),
		Version: r.GetVersionInfo(), Nonce: r.GetResponseNonce(), Err: r.GetErrorDetail() != nil, ErrMsg: r.GetErrorDetail().GetMessage(),
		Node: r.GetNode(), Step: vrt.Steps(), At: vrt.Now()}
	st.Reqs = append(st.Reqs, q)
	cp.Reqs = append(cp.Reqs, q)
	vrt.Logf("%v", q)
	if cp.OnReq != nil {
		cp.OnReq(st, q)
	}
	return nil
}

// Recv blocks until the control plane pushed something or broke the stream.
func (st *Stream) Recv() (*discoveryv3.DiscoveryResponse, error) {
	if st.inRecv > 0 && st.cp.Concur == "" {
		st.cp.Concur = fmt.Sprintf("Recv called concurrently on stream %d", st.ID)
	}
	st.inRecv++
	st.RecvBeg++
	st.Begs = append(st.Begs, Moment{vrt.Steps(), vrt.Now()})
	vrt.Wait(func() bool { return len(st.queue) > 0 || st.err != nil || st.Closed }, "Recv")
	st.inRecv--
	st.RecvEnd++
	st.Ends = append(st.Ends, Moment{vrt.Steps(), vrt.Now()})
	if len(st.queue) > 0 && !st.Closed {
		d := st.queue[0]
		st.queue = st.queue[1:]
		if d.err != nil {
			return nil, d.err
		}
		st.Got++
		vrt.Logf("stream %d: client receives %s nonce %q", st.ID, d.resp.GetTypeUrl(), d.resp.GetNonce())
		return received(d.resp), nil
	}
	if st.err != nil {
		return nil, st.err
	}
	return nil, io.ErrClosedPipe
}

// received is a copy made by the receiver, as decoding it from the network
// would: the race detector sees neither the control plane's writing nor an
// order between the control plane and the client.
func received(r *discoveryv3.DiscoveryResponse) *discoveryv3.DiscoveryResponse {
	c := &discoveryv3.DiscoveryResponse{VersionInfo: r.VersionInfo, TypeUrl: r.TypeUrl, Nonce: r.Nonce}
	if r.Resources != nil {
		c.Resources = make([]*anypb.Any, len(r.Resources))
	}
	for i, a := range r.Resources {
		if a == nil {
			continue
		}
		b := &anypb.Any{TypeUrl: a.TypeUrl}
		if a.Value != nil {
			b.Value = make([]byte, len(a.Value))
		}
		for j := range a.Value {
			b.Value[j] = a.Value[j]
		}
		c.Resources[i] = b
	}
	return c
}

func (st *Stream) Close() error {
	st.Closed = true
	return nil
}
func (st *Stream) Context() context.Context { return context.Background() }

// Pending is the number of responses not yet received by the client.
func (st *Stream) Pending() int { return len(st.queue) }

// Accepted is the moment by which the k-th response (from 0) of the stream was
// processed (the client asked for the next one), or nil.
func (st *Stream) Accepted(k int) *Moment {
	if k+1 < len(st.Begs) {
		return &st.Begs[k+1]
	}
	return nil
}

// Idle reports that the client took everything and is back in Recv, i.e. that
// every response pushed so far was fully processed.
func (st *Stream) Idle() bool { return len(st.queue) == 0 && st.inRecv > 0 }

// Break makes the stream fail (Recv after the queued responses, Send now).
func (st *Stream) Break(err error) {
	if st.err == nil {
		st.err = err
		st.sendErr = err
		vrt.Logf("stream %d breaks: %v", st.ID, err)
	}
}

// BreakRecv makes only Recv fail; requests are swallowed silently (half-open).
func (st *Stream) BreakRecv(err error) {
	if st.err == nil {
		st.err = err
		vrt.Logf("stream %d breaks (Recv only): %v", st.ID, err)
	}
}

// BreakSend makes Send fail first; Recv still blocks until Break.
func (st *Stream) BreakSend(err error) {
	st.sendErr = err
	vrt.Logf("stream %d: Send will fail: %v", st.ID, err)
}

// Broken reports whether the stream failed.
func (st *Stream) Broken() bool { return st.err != nil || st.Closed }

// Failures are errors, other than authentication rejections, that may end a
// stream.
var Failures = []struct {
	Name string
	Err  error
}{
	{"EOF", io.EOF},
	{"unexpected EOF", io.ErrUnexpectedEOF},
	{"unavailable", status.Err(codes.Unavailable, "closing")},
	{"cancelled", status.Err(codes.Canceled, "cancelled")},
	{"internal", status.Err(codes.Internal, "internal")},
	{"exhausted", status.Err(codes.ResourceExhausted, "exhausted")},
	{"deadline", status.Err(codes.DeadlineExceeded, "max age")},
	{"unknown", status.Err(codes.Unknown, "unauthenticated")},
	{"context cancelled", context.Canceled},
}

// Unauthenticated is the control plane's authentication rejection.
var Unauthenticated = status.Err(codes.Unauthenticated, "jwt rejected")

// ErrReset is an ordinary stream failure.
var ErrReset = status.Err(codes.Unavailable, "transport closing")

// Schemes of versions and nonces. All a client may rely on is that a nonce
// identifies a response among those of its type on its stream.
const (
	Unique    = iota // counters of the whole control plane
	Constant         // one version for all responses, nonces counted per type
	PerStream        // both counted per type, starting again on each stream
	Falling          // versions fall, nonces are odd strings
	NoVersion        // empty versions
	Schemes
)

// SchemeName names a scheme.
func SchemeName(k int) string {
	return [...]string{"unique", "constant version", "counted per stream", "falling versions", "empty versions"}[k]
}

func (cp *CP) inc(k string) int {
	if cp.count == nil {
		cp.count = map[string]int{}
	}
	cp.count[k]++
	return cp.count[k]
}

// label makes the version and the nonce of the next response of a type.
func (st *Stream) label(url string) (version, nonce string) {
	cp := st.cp
	switch cp.Labels {
	case Constant:
		return "1", fmt.Sprint(cp.inc(url))
	case PerStream:
		n := cp.inc(fmt.Sprintf("%s/%d", url, st.ID))
		return fmt.Sprint(n), fmt.Sprint(n)
	case Falling:
		n := cp.inc("")
		return fmt.Sprintf("2024-05-%02dT10:00:00Z/%d", 31-n%31, 1000-n), fmt.Sprintf(" %s\t\"%c\" \u00fc\u4e16\x00=", strings.Repeat("x", 40), rune(0x4e00+n))
	case NoVersion:
		return "", fmt.Sprintf("n-%d", cp.inc(""))
	}
	cp.nonce++
	cp.ver++
	return fmt.Sprintf("v%d", cp.ver), fmt.Sprintf("n%d", cp.nonce)
}

// Push queues a response and returns its version and nonce.
func (st *Stream) Push(url string, res []*anypb.Any) (version, nonce string) {
	version, nonce = st.label(url)
	st.PushAs(url, res, version, nonce)
	return
}

// NextNonce hands out the nonce of the next response of a type.
func (st *Stream) NextNonce(url string) string { _, n := st.label(url); return n }

// PushAs queues a response with a given version and nonce.
func (st *Stream) PushAs(url string, res []*anypb.Any, version, nonce string) {
	t := xdsresource.ResourceURLToType[url]
	if st.Nonces[t] == nil {
		st.Nonces[t] = map[string]bool{}
	}
	st.Nonces[t][nonce] = true
	st.Pushed++
	st.queue = append(st.queue, delivery{resp: &discoveryv3.DiscoveryResponse{
		VersionInfo: version, TypeUrl: url, Nonce: nonce, Resources: res,
	}})
}

// Last is the last request of a type on the stream, or nil.
func (st *Stream) Last(t xdsresource.ResourceType) *Req {
	for i := len(st.Reqs) - 1; i >= 0; i-- {
		if st.Reqs[i].Type == t {
			return st.Reqs[i]
		}
	}
	return nil
}

var _ net.Addr
