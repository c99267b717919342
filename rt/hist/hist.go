// Package hist enumerates histories of operations on the real manager and
// client against a reference model, with the monitors of several properties.
package hist

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/mc"
	"github.com/kitex-contrib/xds/verifrt/vrt"
)

type T = xdsresource.ResourceType

// Op is one operation of a history.
type Op struct {
	Name string
	Do   func(h *H)
}

// Conf describes a family of histories.
type Conf struct {
	Props    string // properties whose monitors raise, e.g. "C01"
	Cfg      hz.Cfg
	Types    []T // types snapshot-checked
	Depth    int
	Ops      func(h *H) []Op
	Table    map[string][]string
	Labels   bool // enumerate the schemes of versions and nonces
	Rich     bool // resources carry policies
	Inbound  bool // boot answers LDS with a virtualInbound listener
	LeafGets []Key
	Setup    func(h *H)
	Leaf     func(h *H)
	// OnAccept is called when the model has taken in an accepted response.
	OnAccept func(h *H, t T, m map[string]string)
	// After is called at the end of every operation.
	After func(h *H)
}

// Key is a (type, name).
type Key struct {
	T T
	N string
}

type cell struct {
	stamp     string
	delivered time.Time
}

// H is the state of one history: the system and the reference model.
type H struct {
	C    *Conf
	S    *hz.Sys
	X    *mc.X
	t0   time.Time
	step int

	Sub      map[T]map[string]bool
	ambig    map[T]map[string]bool
	Cache    map[T]map[string]*cell
	fold     map[T]map[string]string // raw fold of the accepted responses
	Ver      map[T]string
	Nonce    map[T]string
	Table    map[string][]string
	subAtLDS map[string]bool
	look     map[Key]time.Time
	evicted  map[Key]bool // evicted and not looked up successfully since
	pending  []*hz.Look
	Dead     bool
	IsDown   bool
	Closed   bool
	stampN   int
	reqMark  int
	pushed   bool // the operation delivered responses
	nstreams int  // streams before the operation
	streams  int
	handlerN map[T]int
	expectH  map[T]int
	PushN    int
	desc     []string
	Pol      func() string // describes the installed policies
}

// Fail raises if the property is one of those being checked.
func (h *H) Fail(prop, f string, a ...interface{}) {
	if strings.Contains(h.C.Props, prop) {
		vrt.Fail(prop, "%s; history: %s", fmt.Sprintf(f, a...), strings.Join(h.desc, " ; "))
	}
}

// Served is the set of names the model has in the cache.
func (h *H) Served(t T) map[string]string {
	out := map[string]string{}
	for n, c := range h.Cache[t] {
		out[n] = c.stamp
	}
	return out
}

// Stamp returns a fresh stamp.
func (h *H) Stamp() string { h.stampN++; return fmt.Sprintf("s%d", h.stampN) }

// Run is the scenario body.
func (c *Conf) Run(x *mc.X) {
	h := &H{C: c, X: x,
		Sub: map[T]map[string]bool{}, ambig: map[T]map[string]bool{}, Cache: map[T]map[string]*cell{}, fold: map[T]map[string]string{},
		Ver: map[T]string{}, Nonce: map[T]string{}, Table: map[string][]string{}, look: map[Key]time.Time{}, evicted: map[Key]bool{}, subAtLDS: map[string]bool{},
		handlerN: map[T]int{}, expectH: map[T]int{}}
	h.S = hz.Start(x, c.Cfg)
	if c.Labels {
		h.S.CP.Labels = vrt.Choose(hz.Schemes)
		h.desc = append(h.desc, "labels: "+hz.SchemeName(h.S.CP.Labels))
	}
	h.boot()
	if c.Setup != nil {
		c.Setup(h)
	}
	for i := 0; i < c.Depth; i++ {
		h.step = i
		ops := c.Ops(h)
		if len(ops) == 0 {
			break
		}
		op := ops[vrt.Choose(len(ops))]
		h.Do(op)
	}
	h.leaf()
	if !h.Closed {
		h.S.M.Close()
	}
}

// Do performs one operation and checks the monitors.
func (h *H) Do(op Op) {
	h.desc = append(h.desc, op.Name)
	h.X.Op("%s", op.Name)
	h.reqMark = len(h.S.CP.Reqs)
	h.pushed, h.nstreams = false, len(h.S.CP.Streams)
	op.Do(h)
	h.checkRequests()
	h.checkLookups()
	h.checkState(op.Name)
	if h.C.After != nil {
		h.C.After(h)
	}
	h.X.State(h.String())
}

func (h *H) boot() {
	x := h.S
	c := h.C
	vrt.Quiesce()
	if !c.Cfg.NoNDS {
		h.subscribe(hz.NDS, "")
	} else if !c.Cfg.NoLDS {
		h.subscribe(hz.LDS, xdsresource.ReservedLdsResourceName)
	}
	h.checkRequests()
	if !c.Cfg.NoNDS {
		st := x.CP.Live()
		v, n := st.Push(hz.URL(hz.NDS), []*anypb.Any{hz.NameTable(c.Table)})
		vrt.Quiesce()
		h.Ver[hz.NDS], h.Nonce[hz.NDS] = v, n
		h.setTable(c.Table)
		if !c.Cfg.NoLDS {
			h.subscribe(hz.LDS, xdsresource.ReservedLdsResourceName)
		}
		h.checkRequests()
	}
	if !c.Cfg.NoLDS {
		h.reqMark = len(x.CP.Reqs)
		var ls []*anypb.Any
		m := map[string]string{}
		if c.Inbound {
			s := h.Stamp()
			if c.Rich {
				ls = append(ls, hz.Rich(hz.LDS, xdsresource.ReservedLdsResourceName, s))
			} else {
				ls = append(ls, hz.Stamped(hz.LDS, xdsresource.ReservedLdsResourceName, s))
			}
			m[xdsresource.ReservedLdsResourceName] = s
		}
		v, n := x.CP.Live().Push(hz.URL(hz.LDS), ls)
		vrt.Quiesce()
		h.accept(hz.LDS, m, v, n)
		h.checkRequests()
	}
	if !x.Ready || x.Err != nil || x.M == nil {
		vrt.Fail("", "start-up did not complete: ready=%v err=%v (%v)", x.Ready, x.Err, vrt.LiveGs())
	}
	h.t0 = vrt.Now()
	for _, t := range c.Types {
		t := t
		if t == hz.NDS {
			continue
		}
		x.M.RegisterXDSUpdateHandler(t, func(map[string]xdsresource.Resource) { h.handlerN[t]++ })
		h.expectH[t] = h.handlerN[t]
	}
}

func (h *H) setTable(t map[string][]string) {
	h.Table = map[string][]string{}
	for k, v := range t {
		h.Table[strings.ToLower(k)] = v
	}
}

func (h *H) subscribe(t T, n string) bool {
	if h.Sub[t] == nil {
		h.Sub[t] = map[string]bool{}
	}
	if h.Sub[t][n] {
		return false
	}
	h.Sub[t][n] = true
	return true
}

// Live stream or nil.
func (h *H) Live() *hz.Stream {
	if h.Dead {
		return nil
	}
	return h.S.CP.Live()
}

// RefExpand is the reference expansion for simple hosts.
func RefExpand(host, ns, domain string) string {
	if strings.Contains(host, ".svc.") {
		return host
	}
	p := strings.Split(host, ".")
	switch len(p) {
	case 1:
		return host + "." + ns + ".svc." + domain
	case 2:
		return host + ".svc." + domain
	case 3:
		if p[2] == "svc" {
			return host + "." + domain
		}
		return host
	}
	return host + "." + ns + ".svc." + domain
}

// Bind returns the listener a name designates under the current table.
func (h *H) Bind(n string) (string, bool) {
	if h.C.Cfg.NoNDS || n == xdsresource.ReservedLdsResourceName {
		return n, true
	}
	p := strings.Split(n, ":")
	port := "80"
	if len(p) > 2 {
		return "", false
	}
	if len(p) == 2 {
		port = p[1]
	}
	host := strings.ToLower(p[0])
	ips := h.Table[strings.ToLower(RefExpand(host, "default", "cluster.local"))]
	if len(ips) == 0 {
		ips = h.Table[host]
	}
	if len(ips) == 0 {
		return "", false
	}
	return ips[0] + "_" + port, true
}

func (h *H) bindListeners(onLDS bool) {
	old := h.Cache[hz.LDS]
	if old == nil && !onLDS {
		old = map[string]*cell{}
	}
	nc := map[string]*cell{}
	for n := range h.Sub[hz.LDS] {
		if !h.subAtLDS[n] {
			continue
		}
		ln, ok := h.Bind(n)
		if !ok {
			continue
		}
		if s, ok := h.fold[hz.LDS][ln]; ok {
			if o := old[n]; o != nil {
				nc[n] = &cell{s, o.delivered}
			} else {
				nc[n] = &cell{s, vrt.Now()}
			}
		}
	}
	h.Cache[hz.LDS] = nc
}

// accept updates the model for an accepted response.
func (h *H) accept(t T, m map[string]string, ver, nonce string) {
	defer func() {
		if h.C.OnAccept != nil {
			h.C.OnAccept(h, t, m)
		}
	}()
	h.Ver[t], h.Nonce[t] = ver, nonce
	switch t {
	case hz.LDS:
		h.fold[t] = m
		h.subAtLDS = map[string]bool{}
		for n := range h.Sub[t] {
			h.subAtLDS[n] = true
		}
		h.bindListeners(true)
	case hz.CDS:
		h.fold[t] = m
		nc := map[string]*cell{}
		for n := range h.Sub[t] {
			if s, ok := m[n]; ok {
				nc[n] = &cell{s, vrt.Now()}
				if o := h.Cache[t][n]; o != nil {
					nc[n].delivered = o.delivered
				}
			}
		}
		h.Cache[t] = nc
	default:
		if h.fold[t] == nil {
			h.fold[t] = map[string]string{}
		}
		if h.Cache[t] == nil {
			h.Cache[t] = map[string]*cell{}
		}
		for n, s := range m {
			h.fold[t][n] = s
			if h.Sub[t][n] {
				c := &cell{s, vrt.Now()}
				if o := h.Cache[t][n]; o != nil {
					c.delivered = o.delivered
				}
				h.Cache[t][n] = c
			}
		}
	}
}

// ---- operations ----

// Get is a lookup.
func Get(t T, n string) Op { return GetD(t, n, 0) }

// GetD is a lookup with a deadline of the caller's own (negative: the caller
// has already given up).
func GetD(t T, n string, d time.Duration) Op {
	name := fmt.Sprintf("Get(%s %q)", hz.TName(t), n)
	if d != 0 {
		name = fmt.Sprintf("Get(%s %q, deadline %v)", hz.TName(t), n, d)
	}
	return Op{name, func(h *H) {
		l := h.S.LookD(t, n, d)
		vrt.Quiesce()
		if h.Cache[t][n] == nil {
			if h.maybe(t, n) && l.OK() {
				// served by an implementation that kept more than it must
				h.Cache[t] = ensure(h.Cache[t])
				h.Cache[t][n] = &cell{l.Stamp(), vrt.Now()}
			} else {
				delete(h.ambig[t], n)
				if d < 0 && l.Done && !h.requested(t, n) {
					// need not subscribe for a caller that has given up
				} else if h.subscribe(t, n) {
					h.wantReq(t, fmt.Sprintf("lookup of %q", n))
				}
			}
		}
		h.look[Key{t, n}] = vrt.Now()
		h.pending = append(h.pending, l)
	}}
}

// requested: the last request of the type lists the name.
func (h *H) requested(t T, n string) bool {
	if st := h.Live(); st != nil {
		if r := st.Last(t); r != nil {
			return has(r.Names, n)
		}
	}
	return true
}

// Cancel cancels the oldest (or newest) pending lookup.
func Cancel(newest bool) Op {
	w := "oldest"
	if newest {
		w = "newest"
	}
	return Op{"Cancel(" + w + ")", func(h *H) {
		var l *hz.Look
		for _, p := range h.pending {
			if !p.Done && !p.Canceled && (l == nil || newest) {
				l = p
			}
		}
		if l != nil {
			l.Cancel()
			vrt.Quiesce()
		}
	}}
}

// GetUnknown looks up a kind that does not exist.
func GetUnknown(t T) Op {
	return Op{fmt.Sprintf("Get(kind %d)", int(t)), func(h *H) {
		l := h.S.Look(t, "a")
		vrt.Quiesce()
		if !l.Done || l.Panic != "" || l.Err == nil || l.Val != nil {
			h.Fail("C05", "lookup of an unknown kind: %v", l)
		}
		if n := len(h.S.CP.Reqs) - h.reqMark; n != 0 {
			h.Fail("C05", "lookup of an unknown kind caused %d requests", n)
		}
	}}
}

// Close closes the manager.
func Close() Op {
	return Op{"Close", func(h *H) {
		h.Dead, h.Closed = true, true
		h.S.M.Close()
		vrt.Quiesce()
	}}
}

func ensure(m map[string]*cell) map[string]*cell {
	if m == nil {
		return map[string]*cell{}
	}
	return m
}

// maybe: the fold holds the name but no response processed while it was
// subscribed carried it, so serving it is allowed and not required.
func (h *H) maybe(t T, n string) bool {
	if !h.Sub[t][n] {
		return false
	}
	_, ok := h.foldOf(t, n)
	return ok
}

func (h *H) foldOf(t T, n string) (string, bool) {
	if t == hz.LDS {
		ln, ok := h.Bind(n)
		if !ok {
			return "", false
		}
		s, ok := h.fold[t][ln]
		return s, ok
	}
	s, ok := h.fold[t][n]
	return s, ok
}

func (h *H) wantReq(t T, why string) {
	if h.Live() == nil {
		return
	}
	for _, r := range h.S.CP.Reqs[h.reqMark:] {
		if r.Type == t && r.Stream == h.Live().ID {
			return
		}
	}
	h.Fail("C03", "the interest set of %s changed (%s) but no request followed", hz.TName(t), why)
	for k := range h.evicted {
		if k.T == t {
			h.Fail("C19", "after evictions, %s caused no request", why)
		}
	}
}

// Kinds of responses.
const (
	Good = iota
	BadBytes
	BadURL
	BadFirst
	BadStruct
	SameVer    // valid, the version string of the previous response
	BadSameVer // undecodable, the version string of the last accepted one
)

// resp is a response about to be delivered.
type resp struct {
	t     T
	bad   bool
	m     map[string]string
	rs    []*anypb.Any
	table map[string][]string
	same  bool // carries the last accepted version string
	v, n  string
}

func kindName(kind int) string {
	return [...]string{"", "+corrupt", "+wrongtype", "+corruptfirst", "+badstruct", " same version", "+corrupt same version"}[kind]
}

// build makes a response with fresh stamps.
func (h *H) build(t T, kind int, names []string) *resp {
	r := &resp{t: t, bad: true, m: map[string]string{}}
	for _, n := range names {
		s := h.Stamp()
		r.m[n] = s
		if h.C.Rich {
			r.rs = append(r.rs, hz.Rich(t, n, s))
		} else {
			r.rs = append(r.rs, hz.Stamped(t, n, s))
		}
	}
	switch kind {
	case BadBytes, BadSameVer:
		r.rs = append(r.rs, hz.Corrupt(t))
	case BadURL:
		r.rs = append(r.rs, &anypb.Any{TypeUrl: "type.googleapis.com/google.protobuf.Empty"})
	case BadFirst:
		r.rs = append([]*anypb.Any{hz.Corrupt(t)}, r.rs...)
	case BadStruct:
		r.rs = append(r.rs, hz.BadStruct(t, "a"))
	default:
		r.bad = false
	}
	r.same = kind == SameVer || kind == BadSameVer
	return r
}

// Push delivers a response with fresh stamps for the given raw names.
func Push(t T, kind int, names ...string) Op {
	return Op{fmt.Sprintf("Push(%s %v%s)", hz.TName(t), names, kindName(kind)), func(h *H) {
		h.push(h.build(t, kind, names))
	}}
}

// B is one response of a burst.
type B struct {
	T     T
	Kind  int
	Names []string
}

// Burst delivers several responses before the client processes any of them.
func Burst(bs ...B) Op {
	var l []string
	for _, b := range bs {
		l = append(l, fmt.Sprintf("%s %v%s", hz.TName(b.T), b.Names, kindName(b.Kind)))
	}
	return Op{"Burst(" + strings.Join(l, ", ") + ")", func(h *H) {
		var rs []*resp
		for _, b := range bs {
			rs = append(rs, h.build(b.T, b.Kind, b.Names))
		}
		h.push(rs...)
	}}
}

// PushTable delivers a name table.
func PushTable(label string, kind int, table map[string][]string) Op {
	k := [...]string{"", "+corrupt", "+wrongtype", " empty response"}[kind]
	return Op{fmt.Sprintf("Push(NDS %s%s)", label, k), func(h *H) {
		rs := []*anypb.Any{hz.NameTable(table)}
		bad := kind != Good
		switch kind {
		case BadBytes:
			rs = append(rs, hz.Corrupt(hz.NDS))
		case BadURL:
			rs = []*anypb.Any{{TypeUrl: hz.URL(hz.CDS), Value: rs[0].Value}}
		case BadFirst:
			rs = nil
		}
		h.push(&resp{t: hz.NDS, bad: bad, rs: rs, table: table})
	}}
}

// PushRaw delivers raw resources with a known verdict.
func PushRaw(label string, t T, bad bool, m map[string]string, rs []*anypb.Any, table map[string][]string) Op {
	return Op{label, func(h *H) { h.push(&resp{t: t, bad: bad, m: m, rs: rs, table: table}) }}
}

// push delivers responses in one go and checks how each was answered.
func (h *H) push(rs ...*resp) {
	st := h.Live()
	h.pushed = true
	hb := map[T]int{}
	for k, v := range h.handlerN {
		hb[k] = v
	}
	pol := h.policies()
	anyGood := false
	for _, r := range rs {
		h.PushN++
		if r.same {
			r.v, r.n = h.Ver[r.t], st.NextNonce(hz.URL(r.t))
			st.PushAs(hz.URL(r.t), r.rs, r.v, r.n)
		} else {
			r.v, r.n = st.Push(hz.URL(r.t), r.rs)
		}
		if _, ok := h.Sub[r.t]; ok && !r.bad {
			anyGood = true
		}
	}
	vrt.Quiesce()
	if !st.Idle() {
		h.Fail("C13", "the client stopped receiving after this response (%v)", vrt.LiveGs())
		h.Fail("C02", "the client stopped receiving after this response (%v)", vrt.LiveGs())
		h.Fail("C01", "the client stopped receiving after this response (%v)", vrt.LiveGs())
	}
	if !anyGood {
		h.noHandler(hb, "responses which are all rejected or not subscribed")
		if p := h.policies(); p != pol {
			h.Fail("C02", "installed policies changed by a rejected response: %s -> %s", pol, p)
		}
	}
	for _, r := range rs {
		h.answered(r)
	}
}

func (h *H) answered(r *resp) {
	t := r.t
	_, subscribed := h.Sub[t]
	var got []*hz.Req
	for _, q := range h.S.CP.Reqs[h.reqMark:] {
		if q.Type == t && q.Nonce == r.n {
			got = append(got, q)
		}
		if !subscribed && q.Type == t {
			h.Fail("C02", "a response of the never subscribed type %s caused %v", hz.TName(t), q)
		}
	}
	if !subscribed {
		return
	}
	if len(got) != 1 {
		h.Fail("C02", "response %s nonce %s was answered by %d requests echoing its nonce: %v", hz.TName(t), r.n, len(got), got)
		if len(got) == 0 {
			return
		}
	}
	q := got[0]
	if r.bad {
		if !q.Err || q.ErrMsg == "" {
			h.Fail("C02", "undecodable response %s nonce %s was not NACKed with an error detail: %v", hz.TName(t), r.n, q)
		}
		if q.Version != h.Ver[t] {
			h.Fail("C02", "NACK of %s carries version %q, last accepted is %q", r.n, q.Version, h.Ver[t])
		}
		h.Nonce[t] = r.n
		return
	}
	if q.Err {
		h.Fail("C02", "valid response %s nonce %s was NACKed: %s", hz.TName(t), r.n, q.ErrMsg)
	}
	if q.Version != r.v {
		h.Fail("C02", "ACK of %s carries version %q, the response's is %q", r.n, q.Version, r.v)
	}
	if t == hz.NDS {
		h.Ver[t], h.Nonce[t] = r.v, r.n
		h.setTable(r.table)
		h.bindListeners(false)
		return
	}
	h.accept(t, r.m, r.v, r.n)
}

// policies describes the installed policies, if the scenario installed any.
func (h *H) policies() string {
	if h.Pol == nil {
		return ""
	}
	return h.Pol()
}

func (h *H) noHandler(before map[T]int, why string) {
	for t, n := range h.handlerN {
		if n != before[t] {
			h.Fail("C02", "update handlers of %s ran for %s", hz.TName(t), why)
		}
	}
}

// PushUnknown delivers a response of an unknown type URL.
func PushUnknown() Op {
	return Op{"Push(unknown type)", func(h *H) {
		st := h.Live()
		n := st.NextNonce("")
		st.PushAs("type.googleapis.com/envoy.extensions.transport_sockets.tls.v3.Secret", []*anypb.Any{{TypeUrl: "x"}}, "vx", n)
		hb := map[T]int{}
		for k, v := range h.handlerN {
			hb[k] = v
		}
		vrt.Quiesce()
		if k := len(h.S.CP.Reqs) - h.reqMark; k != 0 {
			h.Fail("C02", "a response of an unknown type caused %d requests", k)
		}
		h.noHandler(hb, "a response of an unknown type")
	}}
}

// Advance lets time pass.
func Advance(d time.Duration) Op {
	return Op{fmt.Sprintf("Advance(%v)", d), func(h *H) { h.advance(d) }}
}

const sweep = 30 * time.Second

func (h *H) advance(d time.Duration) {
	end := vrt.Now().Add(d)
	for vrt.Now().Before(end) {
		// next sweep boundary
		k := vrt.Now().Sub(h.t0)/sweep + 1
		next := h.t0.Add(k * sweep)
		if next.After(end) {
			vrt.Advance(end.Sub(vrt.Now()))
			break
		}
		vrt.Advance(next.Sub(vrt.Now()))
		vrt.Quiesce()
		h.swept()
	}
	vrt.Quiesce()
}

// swept applies the eviction rules at a sweep boundary, reading the outcome
// from the system where the rules leave it open.
func (h *H) swept() {
	now := vrt.Now()
	for t, names := range h.Sub {
		for n := range names {
			if t == hz.NDS || (t == hz.LDS && n == xdsresource.ReservedLdsResourceName) {
				if st := h.Live(); st != nil {
					if r := st.Last(t); r != nil && t == hz.LDS && !has(r.Names, n) {
						h.Fail("C19", "the reserved listener was withdrawn by a sweep")
					}
				}
				continue
			}
			c := h.Cache[t][n]
			used, looked := h.look[Key{t, n}]
			if c == nil {
				continue
			}
			if looked && now.Sub(used) <= sweep {
				// must stay
				if st := h.Live(); st != nil {
					if r := st.Last(t); r != nil && !has(r.Names, n) {
						h.Fail("C19", "%s %q, looked up %v before the sweep, was withdrawn by it", hz.TName(t), n, now.Sub(used))
					}
				}
				continue
			}
			idleSince := c.delivered
			if looked && used.After(idleSince) {
				idleSince = used
			}
			if now.Sub(idleSince) > sweep {
				h.evicted[Key{t, n}] = true
				delete(h.Cache[t], n)
				delete(h.Sub[t], n)
				delete(h.subAtLDS, n)
				if t != hz.LDS && t != hz.CDS {
					delete(h.fold[t], n)
				}
				h.evictReq(t, n)
				continue
			}
			// the rules leave it open: adopt what happened
			if st := h.Live(); st != nil {
				if r := st.Last(t); r != nil && !has(r.Names, n) {
					delete(h.Cache[t], n)
					delete(h.Sub[t], n)
					delete(h.subAtLDS, n)
				}
			} else if _, ok := h.S.Snapshot(t)[n]; !ok {
				delete(h.Cache[t], n)
				delete(h.Sub[t], n)
				delete(h.subAtLDS, n)
			}
		}
	}
	// names the control plane dropped: whether they are withdrawn is open
	for t, names := range h.Sub {
		if t == hz.NDS {
			continue
		}
		for n := range names {
			used, looked := h.look[Key{t, n}]
			if h.Cache[t][n] != nil || (t == hz.LDS && n == xdsresource.ReservedLdsResourceName) {
				continue
			}
			if !looked || now.Sub(used) <= sweep {
				continue
			}
			if l := h.waiting(t, n); l != nil {
				if st := h.Live(); st != nil {
					if r := st.Last(t); r != nil && !has(r.Names, n) {
						for _, p := range []string{"C03", "C06", "C19"} {
							h.Fail(p, "%s %q was withdrawn by a sweep while %v", hz.TName(t), n, l)
						}
					}
				}
				continue
			}
			if h.everCached(t, n) {
				if st := h.Live(); st != nil {
					if r := st.Last(t); r != nil && !has(r.Names, n) {
						delete(h.Sub[t], n)
						delete(h.subAtLDS, n)
					}
				} else {
					if h.ambig[t] == nil {
						h.ambig[t] = map[string]bool{}
					}
					h.ambig[t][n] = true
				}
			}
		}
	}
}

// waiting is a lookup of the name that is under way, or nil.
func (h *H) waiting(t T, n string) *hz.Look {
	for _, l := range h.pending {
		if l.T == t && l.Name == n && !l.Done && !l.Canceled && vrt.Now().Before(l.Limit(h.C.Cfg.FetchTimeout())) {
			return l
		}
	}
	return nil
}

func (h *H) everCached(t T, n string) bool { return true }

func (h *H) evictReq(t T, n string) {
	st := h.Live()
	if st == nil {
		return
	}
	r := st.Last(t)
	if r == nil || has(r.Names, n) {
		h.Fail("C19", "%s %q was idle for longer than the period at a sweep but was not withdrawn (last request %v)", hz.TName(t), n, r)
	}
	found := false
	for _, q := range h.S.CP.Reqs[h.reqMark:] {
		if q.Type == t && !has(q.Names, n) {
			found = true
		}
	}
	if !found {
		h.Fail("C03", "%s %q was evicted without a request", hz.TName(t), n)
		h.Fail("C19", "%s %q was evicted without a request", hz.TName(t), n)
	}
}

func has(l []string, n string) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return false
}

// Break makes the stream fail; fails creation attempts fail before one works.
func Break(label string, how func(st *hz.Stream), fails int) Op {
	return Op{"Break(" + label + ")", func(h *H) {
		cp := h.S.CP
		st := h.Live()
		base := cp.Creates
		cp.CreateErr = func(n int) error {
			if n <= base+fails {
				return hz.ErrReset
			}
			return nil
		}
		how(st)
		vrt.Quiesce()
		if fails > 0 {
			// reconnecting backs off; give it time
			for i := 0; i < 20 && h.S.CP.Live() == nil; i++ {
				h.advance(500 * time.Millisecond)
			}
		}
		vrt.Quiesce()
		cp.CreateErr = nil
		h.Nonce = map[T]string{}
		ns := h.S.CP.Live()
		if ns == nil || ns == st {
			h.Fail("C04", "no new stream after the old one failed (%v)", vrt.LiveGs())
			return
		}
		if len(cp.Streams) != st.ID+1 {
			h.Fail("C04", "%d new streams after one failure", len(cp.Streams)-st.ID)
		}
		h.checkResub(ns)
	}}
}

// PushBreak delivers responses and breaks the stream right behind them.
func PushBreak(how string, brk func(st *hz.Stream), bs ...B) Op {
	var l []string
	for _, b := range bs {
		l = append(l, fmt.Sprintf("%s %v%s", hz.TName(b.T), b.Names, kindName(b.Kind)))
	}
	return Op{"PushBreak(" + strings.Join(l, ", ") + " then " + how + ")", func(h *H) {
		var rs []*resp
		st := h.Live()
		h.pushed = true
		for _, b := range bs {
			r := h.build(b.T, b.Kind, b.Names)
			r.v, r.n = st.Push(hz.URL(r.t), r.rs)
			rs = append(rs, r)
		}
		brk(st)
		vrt.Quiesce()
		if !st.Broken() {
			st.Break(hz.ErrReset)
			vrt.Quiesce()
		}
		for _, r := range rs {
			if _, ok := h.Sub[r.t]; ok && !r.bad {
				h.accept(r.t, r.m, r.v, r.n)
			}
		}
		h.Nonce = map[T]string{}
		ns := h.S.CP.Live()
		if ns == nil || ns == st {
			h.Fail("C04", "no new stream after the old one failed (%v)", vrt.LiveGs())
			return
		}
		h.checkResub(ns)
	}}
}

// Down breaks the stream; no new one can be opened until Up.
func Down() Op {
	return Op{"Down", func(h *H) {
		h.S.CP.CreateErr = func(int) error { return hz.ErrReset }
		h.Live().Break(hz.ErrReset)
		vrt.Quiesce()
		h.IsDown = true
	}}
}

// Up lets streams be opened again.
func Up() Op {
	return Op{"Up", func(h *H) {
		h.S.CP.CreateErr = nil
		h.IsDown = false
		for i := 0; i < 400 && h.S.CP.Live() == nil; i++ {
			h.advance(500 * time.Millisecond)
		}
		h.Nonce = map[T]string{}
		ns := h.S.CP.Live()
		if ns == nil {
			h.Fail("C04", "no new stream 200 s after one could be opened again (%v)", vrt.LiveGs())
			return
		}
		h.checkResub(ns)
	}}
}

func (h *H) checkResub(ns *hz.Stream) {
	for t, names := range h.Sub {
		var first *hz.Req
		for _, r := range ns.Reqs {
			if r.Type == t {
				first = r
				break
			}
		}
		if first == nil {
			if len(names) > 0 {
				h.Fail("C04", "%s (%s) was not re-requested on the new stream", hz.TName(t), h.set(t))
			}
			continue
		}
		if first.Set != h.set(t) && len(h.ambig[t]) == 0 {
			h.Fail("C04", "%s was re-requested with names [%s], subscribed are [%s]", hz.TName(t), first.Set, h.set(t))
		}
		if first.Version != h.Ver[t] {
			h.Fail("C04", "%s was re-requested with version %q, last accepted is %q", hz.TName(t), first.Version, h.Ver[t])
		}
		if first.Nonce != "" || first.Err {
			h.Fail("C04", "first request of %s on the new stream is %v", hz.TName(t), first)
		}
	}
}

// AuthReject ends the stream with an authentication error.
func AuthReject() Op {
	return Op{"AuthReject", func(h *H) {
		h.Live().Break(hz.Unauthenticated)
		n := len(h.S.CP.Streams)
		vrt.Quiesce()
		h.Dead = true
		h.advance(5 * time.Second)
		if len(h.S.CP.Streams) != n {
			h.Fail("C04", "a new stream was opened after an authentication rejection")
		}
	}}
}

// ---- monitors ----

func (h *H) set(t T) string {
	var l []string
	for n := range h.Sub[t] {
		l = append(l, n)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func (h *H) checkRequests() {
	cp := h.S.CP
	if cp.BadReq != "" {
		h.Fail("C03", "%s", cp.BadReq)
	}
	for _, r := range cp.Reqs[h.reqMark:] {
		if r.Node == nil || r.Node.Id != hz.NodeID {
			h.Fail("C03", "request %v does not identify the node: %v", r, r.Node)
		}
		if _, ok := h.Sub[r.Type]; !ok {
			h.Fail("C03", "request of a type without subscription: %v", r)
		}
		for i := 1; i < len(r.Names); i++ {
			if r.Names[i] == r.Names[i-1] {
				h.Fail("C03", "request lists a name twice: %v", r)
			}
		}
		st := cp.Streams[r.Stream-1]
		if r.Nonce != "" && !st.Nonces[r.Type][r.Nonce] {
			h.Fail("C04", "request carries a nonce not issued on its stream for its type: %v", r)
			h.Fail("C02", "request carries a nonce not issued on its stream for its type: %v", r)
		}
		// a change of the subscription may repeat the latest answer, not
		// answer an earlier response a second time or acknowledge another version
		if !h.pushed && h.nstreams == len(cp.Streams) && r.Nonce != "" && (r.Nonce != h.Nonce[r.Type] || r.Version != h.Ver[r.Type]) {
			h.Fail("C02", "%v answers a response a second time; the latest one handled is %q, the version accepted last %q", r, h.Nonce[r.Type], h.Ver[r.Type])
		}
	}
	if st := h.Live(); st != nil {
		for t := range h.Sub {
			if len(h.ambig[t]) > 0 {
				if r := st.Last(t); r != nil {
					for n := range h.ambig[t] {
						if !has(r.Names, n) {
							delete(h.Sub[t], n)
						}
					}
				}
				delete(h.ambig, t)
			}
			r := st.Last(t)
			if r == nil {
				if len(h.Sub[t]) > 0 {
					h.Fail("C03", "quiescent, but %s [%s] was never requested on the live stream", hz.TName(t), h.set(t))
					h.Fail("C04", "quiescent, but %s [%s] was never requested on the live stream", hz.TName(t), h.set(t))
				}
				continue
			}
			if r.Set != h.set(t) {
				h.Fail("C03", "quiescent, last request is %v but the interest set is [%s]", r, h.set(t))
			}
		}
	}
}

func (h *H) checkLookups() {
	var left []*hz.Look
	to := h.C.Cfg.FetchTimeout()
	for _, l := range h.pending {
		key := Key{l.T, l.Name}
		if l.Panic != "" {
			h.Fail("C05", "%v", l)
			continue
		}
		lim := l.Limit(to)
		if !l.Done {
			if vrt.Now().After(lim) || (l.Canceled && !vrt.Now().Before(lim)) {
				h.Fail("C05", "%v is still pending %v after it began", l, vrt.Now().Sub(l.BegAt))
				h.Fail("C04", "%v is still pending %v after it began", l, vrt.Now().Sub(l.BegAt))
			}
			if c := h.Cache[l.T][l.Name]; c != nil {
				h.Fail("C06", "%v though its resource was accepted", l)
				h.Fail("C01", "%v though its resource was accepted", l)
				h.Fail("C14", "%v though its listener was supplied", l)
				if h.evicted[key] {
					h.Fail("C19", "%v though it was supplied again after its eviction", l)
				}
			}
			left = append(left, l)
			continue
		}
		if l.Err != nil {
			if l.Val != nil {
				h.Fail("C05", "%v returned a value too", l)
			}
			if l.EndAt.Before(lim) && !h.Dead {
				h.Fail("C06", "%v returned before its deadline", l)
				h.Fail("C01", "%v returned before its deadline", l)
				if h.evicted[key] {
					h.Fail("C19", "%v, after the eviction of the name, returned before its deadline", l)
				}
			}
			if l.EndAt.After(lim) {
				h.Fail("C05", "%v returned %v after it began", l, l.EndAt.Sub(l.BegAt))
				h.Fail("C04", "%v returned %v after it began", l, l.EndAt.Sub(l.BegAt))
			}
			continue
		}
		if l.EndAt.After(lim) {
			h.Fail("C05", "%v returned %v after it began", l, l.EndAt.Sub(l.BegAt))
		}
		h.look[key] = l.EndAt
		c := h.Cache[l.T][l.Name]
		got := l.Stamp()
		if h.evicted[key] {
			if c != nil && c.stamp != got {
				h.Fail("C19", "%v after its eviction, but the control plane's current value is %s", l, c.stamp)
			}
			delete(h.evicted, key)
		}
		if strings.HasPrefix(got, "bad(") || strings.HasPrefix(got, "malformed") || strings.HasPrefix(got, "untyped") {
			h.Fail("C05", "%v is not a value of the kind asked for", l)
			h.Fail("C01", "%v is not a value of the kind asked for", l)
		}
		if c == nil {
			if h.maybe(l.T, l.Name) {
				if s, _ := h.foldOf(l.T, l.Name); s == got {
					continue
				}
			}
			h.Fail("C01", "%v but the fold of the accepted responses does not contain it", l)
			h.Fail("C05", "%v but the control plane did not supply it", l)
			h.Fail("C14", "%v but the name table binds it to no supplied listener", l)
		} else if c.stamp != got {
			h.Fail("C01", "%v but the most recent accepted content is %s", l, c.stamp)
			h.Fail("C14", "%v but the designated listener is %s", l, c.stamp)
		}
	}
	h.pending = left
}

// SettleMaybe records entries which are allowed and present.
func (h *H) checkState(op string) {
	for _, t := range h.C.Types {
		if t == hz.NDS {
			continue
		}
		snap := h.S.Snapshot(t)
		want := h.Cache[t]
		for n, c := range want {
			g, ok := snap[n]
			if !ok {
				h.bad(t, n, fmt.Sprintf("%s %q should be served (%s) but is not in the cache", hz.TName(t), n, c.stamp))
			} else if g != c.stamp {
				h.bad(t, n, fmt.Sprintf("%s %q is %s in the cache, the latest accepted content is %s", hz.TName(t), n, g, c.stamp))
			}
		}
		for n, g := range snap {
			if want[n] != nil {
				continue
			}
			if h.maybe(t, n) {
				if s, _ := h.foldOf(t, n); s == g {
					h.Cache[t] = ensure(h.Cache[t])
					h.Cache[t][n] = &cell{g, vrt.Now()}
					continue
				}
			}
			if !h.Sub[t][n] {
				h.Fail("C19", "%s %q (%s) is in the cache though it is not subscribed", hz.TName(t), n, g)
			}
			h.bad(t, n, fmt.Sprintf("%s %q (%s) is in the cache but the fold of the accepted responses does not have it (subscribed=%v)", hz.TName(t), n, g, h.Sub[t][n]))
		}
	}
}

func (h *H) bad(t T, n, msg string) {
	h.Fail("C01", "%s", msg)
	h.Fail("C02", "%s", msg)
	h.Fail("C04", "%s", msg)
	h.Fail("C19", "%s", msg)
	if t == hz.LDS {
		h.Fail("C14", "%s", msg)
	}
}

func (h *H) leaf() {
	if h.C.Leaf != nil {
		h.C.Leaf(h)
	}
	if len(h.C.LeafGets) == 0 {
		return
	}
	h.desc = append(h.desc, "final lookups")
	h.X.Op("final lookups")
	h.reqMark = len(h.S.CP.Reqs)
	type lk struct {
		l *hz.Look
		k Key
	}
	var ls []lk
	for _, k := range h.C.LeafGets {
		ls = append(ls, lk{h.S.Look(k.T, k.N), k})
	}
	vrt.Quiesce()
	for _, l := range ls {
		c := h.Cache[l.k.T][l.k.N]
		if c == nil {
			if l.l.OK() {
				if s, ok := h.foldOf(l.k.T, l.k.N); h.Sub[l.k.T][l.k.N] && ok && s == l.l.Stamp() {
					continue
				}
				h.Fail("C01", "final %v, not in the fold", l.l)
				h.Fail("C14", "final %v, not designated", l.l)
				h.Fail("C05", "final %v, not supplied", l.l)
			}
			continue
		}
		if !l.l.OK() || l.l.Stamp() != c.stamp {
			h.Fail("C01", "final %v, the fold has %s", l.l, c.stamp)
			h.Fail("C02", "final %v, the fold has %s", l.l, c.stamp)
			h.Fail("C04", "final %v, the fold has %s", l.l, c.stamp)
			h.Fail("C14", "final %v, designated is %s", l.l, c.stamp)
			h.Fail("C06", "final %v, the fold has %s", l.l, c.stamp)
			h.Fail("C19", "final %v, the fold has %s", l.l, c.stamp)
		}
	}
}

// String describes the abstract state.
func (h *H) String() string {
	var b []string
	for _, t := range []T{hz.LDS, hz.RDS, hz.CDS, hz.EDS, hz.NDS} {
		if _, ok := h.Sub[t]; !ok {
			continue
		}
		var cs []string
		for n, c := range h.Cache[t] {
			cs = append(cs, n+"="+c.stamp)
		}
		sort.Strings(cs)
		b = append(b, fmt.Sprintf("%s sub[%s] cache%v v%s n%s", hz.TName(t), h.set(t), cs, h.Ver[t], h.Nonce[t]))
	}
	var ts []string
	for k, v := range h.Table {
		ts = append(ts, fmt.Sprint(k, v))
	}
	sort.Strings(ts)
	return fmt.Sprint(b, ts, len(h.pending), h.Dead, vrt.Now().Sub(h.t0))
}
