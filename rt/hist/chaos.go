package hist

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/mc"
	"github.com/kitex-contrib/xds/verifrt/vrt"
)

// Chaos explores the schedules of a few things happening at once: lookups,
// responses, stream failures and a sweep, out of a menu, for each type. What is
// judged is what one property says about the outcome.
type Chaos struct {
	Prop  string
	N     int // things happening at once
	Types []T
	Aged  bool     // a sweep is due, which evicts a
	Skip  []string // items of the menu (by prefix) to leave out
}

// Scen makes a scenario of it.
func (cf *Chaos) Scen(name string, bound int) *mc.Scenario {
	o := vrt.Opts{UnlockPoints: true}
	sw := ""
	if cf.Aged {
		o.TimerEarly, o.EarlyWithin = true, 2*time.Millisecond
		sw = " and a sweep that evicts one name"
	}
	return &mc.Scenario{Name: name, Bound: bound, Opts: o, Body: cf.run,
		Bounds: fmt.Sprintf("all schedules with at most the bound's deviations from the default one of up to %d things out of the menu of lookups, responses and stream failures%s happening at once, for each resource type", cf.N, sw)}
}

// one response of the control plane.
type supply struct {
	st         *hz.Stream
	k          int
	names      []string
	stamp      string
	bad        bool
	ver, nonce string
	subs       []string // subscribed as far as the control plane had been told
}

func (e *supply) has(n string) bool { return hasName(e.names, n) }

func hasName(l []string, n string) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return false
}

type chaos struct {
	*hz.Sys
	cf    *Chaos
	x     *mc.X
	t, o  T
	log   []*supply
	looks []*hz.Look
	desc  string
	mark  int
	ver0  string
	over0 string
	n     int
	maybe map[string]bool // whether it is subscribed is open
	want  map[string]bool // looked up
	gone  bool            // a response dropped a
}

const resv = "virtualInbound"

var tabAll = map[string][]string{
	"a.default.svc.cluster.local": {"1.1.1.1"}, "b.default.svc.cluster.local": {"2.2.2.2"},
	"c.default.svc.cluster.local": {"3.3.3.3"}, "d.default.svc.cluster.local": {"4.4.4.4"}}

func rawName(t T, n string) string {
	if t == hz.LDS && n != resv {
		return strings.Repeat(string(rune('1'+n[0]-'a'))+".", 3) + string(rune('1'+n[0]-'a')) + "_80"
	}
	return n
}

func (c *chaos) fail(prop, f string, a ...interface{}) {
	if prop == c.cf.Prop {
		vrt.Fail(prop, "%s: %s", c.desc, fmt.Sprintf(f, a...))
	}
}

func (c *chaos) full() bool { return c.t == hz.LDS || c.t == hz.CDS }

// ready: the control plane can push.
func (c *chaos) ready() *hz.Stream {
	f := func() bool { st := c.CP.Live(); return st != nil && st.Last(c.t) != nil }
	if !f() {
		vrt.QuiesceUntil(f, 500*time.Millisecond)
	}
	if !f() {
		c.fail("C04", "no stream on which %s was requested is opened after a failure", hz.TName(c.t))
		return nil
	}
	return c.CP.Live()
}

func (c *chaos) push(bad bool, names ...string) {
	st := c.ready()
	if st == nil {
		return
	}
	c.n++
	e := &supply{st: st, k: st.Pushed, names: names, stamp: fmt.Sprintf("s%d", c.n), bad: bad, subs: st.Last(c.t).Names}
	var rs []*anypb.Any
	for _, n := range names {
		rs = append(rs, hz.Stamped(c.t, rawName(c.t, n), e.stamp))
	}
	if c.t == hz.LDS {
		rs = append(rs, hz.Stamped(c.t, resv, "s0"))
	}
	if bad {
		rs = append(rs, hz.Corrupt(c.t))
	}
	e.ver, e.nonce = st.Push(hz.URL(c.t), rs)
	c.log = append(c.log, e)
}

func (c *chaos) look(n string) {
	c.want[n] = true
	c.looks = append(c.looks, c.Look(c.t, n))
}

type happening struct {
	name string
	do   func(c *chaos)
}

func breakBy(f func(st *hz.Stream)) func(c *chaos) {
	return func(c *chaos) {
		if st := c.CP.Live(); st != nil {
			f(st)
		}
	}
}

var happenings = []happening{
	{"-", func(c *chaos) {}},
	{"look a", func(c *chaos) { c.look("a") }},
	{"look b", func(c *chaos) { c.look("b") }},
	{"look c", func(c *chaos) { c.look("c") }},
	{"look c, given up", func(c *chaos) {
		c.maybe["c"] = true
		c.LookD(c.t, "c", -1)
	}},
	{"push a b c", func(c *chaos) { c.push(false, "a", "b", "c") }},
	{"push a b", func(c *chaos) { c.push(false, "a", "b") }},
	{"push b", func(c *chaos) {
		c.gone = c.gone || c.full()
		c.push(false, "b")
	}},
	{"push a bad", func(c *chaos) { c.push(true, "a", "b", "c") }},
	{"push a b, a bad one", func(c *chaos) {
		c.push(false, "a", "b")
		c.push(true, "a", "c")
	}},
	{"push a b c twice", func(c *chaos) {
		c.push(false, "a", "b", "c")
		c.push(false, "c", "b", "a")
	}},
	{"push to another type", func(c *chaos) {
		if st := c.ready(); st != nil && st.Last(c.o) != nil {
			st.Push(hz.URL(c.o), []*anypb.Any{hz.Stamped(c.o, "a", "o1")})
		}
	}},
	{"reset", breakBy(func(st *hz.Stream) { st.Break(hz.ErrReset) })},
	{"recv fails", breakBy(func(st *hz.Stream) { st.BreakRecv(hz.ErrReset) })},
	{"next send fails", breakBy(func(st *hz.Stream) { st.SendFail = 1 })},
}

func (cf *Chaos) run(x *mc.X) {
	ts := cf.Types
	if len(ts) == 0 {
		ts = []T{hz.CDS, hz.EDS, hz.RDS, hz.LDS}
	}
	t := ts[vrt.Choose(len(ts))]
	c := &chaos{cf: cf, x: x, t: t, o: hz.CDS, Sys: hz.Start(x, hz.Cfg{}), maybe: map[string]bool{}, want: map[string]bool{}}
	if t == hz.CDS {
		c.o = hz.EDS
	}
	c.Boot(tabAll, hz.Stamped(hz.LDS, resv, "s0"))
	t0 := vrt.Now()
	c.Look(t, "a")
	c.Look(t, "b")
	c.Look(c.o, "a")
	vrt.Quiesce()
	c.push(false, "a", "b")
	c.CP.Live().Push(hz.URL(c.o), []*anypb.Any{hz.Stamped(c.o, "a", "o1")})
	vrt.Quiesce()
	c.log = nil
	if cf.Aged {
		vrt.Advance(45 * time.Second)
		c.Look(t, "b")
		c.Look(c.o, "a")
		vrt.Quiesce()
		NextSweep(t0, time.Millisecond)
	}
	c.mark = len(c.CP.Reqs)
	lt, lo := c.CP.Live().Last(t), c.CP.Live().Last(c.o)
	if lt == nil || lo == nil || lt.Set != "a,b" && !(t == hz.LDS && lt.Set == "a,b,"+resv) {
		vrt.Fail("", "set-up: %v %v", lt, lo)
		return
	}
	c.ver0, c.over0 = lt.Version, lo.Version
	var menu []happening
next:
	for _, h := range happenings {
		for _, p := range cf.Skip {
			if strings.HasPrefix(h.name, p) {
				continue next
			}
		}
		menu = append(menu, h)
	}
	var hs []happening
	c.desc = hz.TName(t)
	for i := 0; i < cf.N; i++ {
		h := menu[vrt.Choose(len(menu))]
		c.desc += ", " + h.name
		if h.name == "-" {
			break
		}
		hs = append(hs, h)
	}
	x.Op("%s", c.desc)
	vrt.Region(true)
	for _, h := range hs {
		h.do(c)
	}
	if cf.Aged {
		vrt.QuiesceUntil(func() bool { return false }, 2*time.Millisecond)
	}
	vrt.Quiesce()
	Settle()
	for _, st := range c.CP.Streams {
		st.SendFail = 0
	}
	c.ready() // a pending failure may need its back-off
	vrt.Quiesce()
	c.judge()
	x.State(c.desc, ReqString(c.CP.Reqs[c.mark:], t))
	s := ""
	for _, l := range c.looks {
		s += l.String()
	}
	x.State(c.desc, s)
	c.M.Close()
}

// answered: the response was acknowledged.
func (c *chaos) acked(e *supply) bool {
	for _, q := range c.CP.Reqs {
		if q.Type == c.t && q.Nonce == e.nonce && !q.Err {
			return true
		}
	}
	return false
}

type set map[string]bool

func (s set) String() string {
	var l []string
	for x := range s {
		if x == "" {
			x = "nothing"
		}
		l = append(l, x)
	}
	sort.Strings(l)
	return strings.Join(l, " or ")
}

func (c *chaos) judge() {
	live := c.CP.Live()
	if live == nil || live.Last(c.t) == nil {
		return
	}
	if !live.Idle() {
		c.fail("C04", "the client does not receive from stream %d", live.ID)
		return
	}
	if c.CP.Concur != "" {
		c.fail("C07", "%s", c.CP.Concur)
	}
	var got []*supply
	for _, e := range c.log {
		if e.k < e.st.Got {
			got = append(got, e)
		} else if e.st == live {
			c.fail("C04", "a response was not received")
		}
	}
	sort.SliceStable(got, func(i, j int) bool { return got[i].st.Ends[got[i].k].Step < got[j].st.Ends[got[j].k].Step })
	// fold: what may be in force
	vers := set{c.ver0: true}
	vals := map[string]set{"a": {"s1": true}, "b": {"s1": true}, "c": {"": true}}
	verAt := map[int]set{} // before anything of the stream
	snapVers := func() set {
		m := set{}
		for v := range vers {
			m[v] = true
		}
		return m
	}
	last := c.CP.Streams[0].ID
	for _, st := range c.CP.Streams {
		last = st.ID
		verAt[st.ID] = nil
	}
	cur := 0
	acc := map[*supply]set{}
	for _, e := range got {
		for id := cur + 1; id <= e.st.ID; id++ {
			verAt[id] = snapVers()
		}
		if e.st.ID > cur {
			cur = e.st.ID
		}
		certain := e.st == live || c.acked(e)
		if !e.bad {
			if certain {
				vers = set{}
			}
			vers[e.ver] = true
			for n, v := range vals {
				if !e.has(n) && !c.full() {
					continue
				}
				if certain {
					v = set{}
					vals[n] = v
				}
				if e.has(n) {
					v[e.stamp] = true
				} else {
					v[""] = true
				}
			}
		}
		acc[e] = snapVers()
	}
	for id := cur + 1; id <= last; id++ {
		verAt[id] = snapVers()
	}
	c.answers(got, acc, live)
	c.streams(verAt, live)
	c.content(got, vals, live)
	c.interest(live)
	c.final(live)
}

// answers (C02): how the responses were answered.
func (c *chaos) answers(got []*supply, acc map[*supply]set, live *hz.Stream) {
	extra := 1
	if c.maybe["c"] {
		extra += c.cf.N
	}
	extra += len(c.looks)
	if c.cf.Aged {
		extra++
	}
	for _, e := range got {
		acks, nacks := 0, 0
		for _, q := range c.CP.Reqs {
			if q.Nonce != e.nonce {
				continue
			}
			if q.Type != c.t {
				c.fail("C02", "%v answers a response of another type", q)
			}
			if q.Stream != e.st.ID {
				c.fail("C04", "%v carries a nonce not issued on its stream", q)
			}
			if !acc[e][q.Version] {
				c.fail("C02", "%v, the version should be %v", q, acc[e])
			}
			if q.Err {
				nacks++
			} else {
				acks++
			}
		}
		if e.bad {
			if nacks > 1 || nacks == 0 && e.st == live {
				c.fail("C02", "rejected response %s got %d NACKs: %s", e.nonce, nacks, ReqString(c.CP.Reqs, c.t))
			}
		} else if nacks > 0 || acks == 0 && e.st == live || acks > extra {
			c.fail("C02", "accepted response %s got %d NACKs and %d ACKs: %s", e.nonce, nacks, acks, ReqString(c.CP.Reqs, c.t))
		}
	}
	for _, q := range c.CP.Reqs[c.mark:] {
		if !q.Err {
			continue
		}
		ok := false
		for _, e := range got {
			ok = ok || e.bad && e.nonce == q.Nonce && q.Type == c.t
		}
		if !ok {
			c.fail("C02", "%v rejects a response that was not to be rejected", q)
		}
	}
}

// streams (C04): how each new stream was started.
func (c *chaos) streams(verAt map[int]set, live *hz.Stream) {
	for _, q := range c.CP.Reqs {
		if q.Nonce != "" && !c.CP.Streams[q.Stream-1].Nonces[q.Type][q.Nonce] {
			c.fail("C04", "%v carries a nonce not issued on its stream", q)
		}
	}
	if live.ID == 1 {
		return
	}
	for t, vs := range map[T]set{c.t: verAt[live.ID], c.o: {c.over0: true}, hz.NDS: nil, hz.LDS: nil} {
		var first *hz.Req
		for _, q := range live.Reqs {
			if q.Type == t && first == nil {
				first = q
			}
		}
		if first == nil {
			c.fail("C04", "%s is not requested on stream %d", hz.TName(t), live.ID)
			continue
		}
		if first.Nonce != "" || first.Err || vs != nil && !vs[first.Version] && (t == c.t || len(c.CP.Streams) == 2 && !strings.Contains(c.desc, "another")) {
			c.fail("C04", "the first request on stream %d is %v, the version should be %v", live.ID, first, vs)
		}
	}
}

// withdrawn: some request since the mark does not list it.
func (c *chaos) withdrawn(n string) bool {
	for _, q := range c.CP.Reqs[c.mark:] {
		if q.Type == c.t && !hasName(q.Names, n) {
			return true
		}
	}
	return false
}

// content (C01): what is served.
func (c *chaos) content(got []*supply, vals map[string]set, live *hz.Stream) {
	snap := c.Snapshot(c.t)
	for n, vs := range vals {
		v := snap[n]
		if v != "" && !vs[v] {
			c.fail("C01", "%s %q is %s in the cache, the fold of the accepted responses has %v", hz.TName(c.t), n, v, vs)
		}
		asked, told := n != "c", n != "c"
		for _, q := range c.CP.Reqs {
			asked = asked || q.Type == c.t && hasName(q.Names, n)
		}
		if v != "" && !asked {
			c.fail("C01", "%s %q is cached, which was never asked for", hz.TName(c.t), n)
		}
		for _, e := range got {
			told = told || !e.bad && e.has(n) && hasName(e.subs, n) && e.st == live
		}
		kept := n == "c" && told || n == "b" || n == "a" && !c.cf.Aged && !c.withdrawn(n)
		if v == "" && told && kept && !vs[""] {
			c.fail("C01", "%s %q is not in the cache, the fold of the accepted responses has %v", hz.TName(c.t), n, vs)
		}
		for _, l := range c.looks {
			if l.Name != n {
				continue
			}
			if l.Panic != "" {
				c.fail("C05", "%v", l)
			}
			if l.OK() {
				ok := l.Stamp() == "s1" && n != "c"
				for _, e := range got {
					ok = ok || !e.bad && e.has(n) && e.stamp == l.Stamp()
				}
				if !ok {
					c.fail("C01", "%v, no accepted response carried that", l)
				}
			} else if v != "" {
				c.fail("C06", "%v, though %s is in the cache", l, v)
			}
		}
		if v != "" {
			l := c.Look(c.t, n)
			vrt.Quiesce()
			if !l.OK() || l.Stamp() != v {
				c.fail("C01", "%v, though %s is in the cache", l, v)
			}
			c.want[n] = true
		}
	}
	for n := range snap {
		if vals[n] == nil && n != resv {
			c.fail("C01", "%s %q is cached, which was never asked for", hz.TName(c.t), n)
		}
	}
	if g := c.Snapshot(c.o); len(g) != 1 && c.o != hz.LDS || g["a"] != "o1" {
		c.fail("C01", "another type's cache is %v", g)
	}
	if g := c.Snapshot(hz.LDS)[resv]; g != "s0" {
		c.fail("C01", "the reserved listener is %q", g)
	}
}

// interest (C03): how names joined and left.
func (c *chaos) interest(live *hz.Stream) {
	max := map[string]int{"a": 1, "b": 1, "c": 0, resv: 1}
	if c.cf.Aged {
		max["a"] = 3
		if c.gone {
			max["a"] = 5
		}
	}
	if c.want["c"] || c.maybe["c"] {
		max["c"] = 1
	}
	if c.t != hz.LDS {
		delete(max, resv)
	}
	if c.cf.Prop == "C03" {
		Flips("C03", c.CP, c.t, max)
		names := live.Last(c.t).Names
		for _, n := range []string{"a", "b", "c"} {
			has := hasName(names, n)
			switch {
			case n == "c" && c.maybe["c"] && !c.want["c"], n == "a" && c.cf.Aged && c.gone:
			case n == "a" && c.cf.Aged && !c.want["a"]:
				if has {
					c.fail("C03", "evicted %q is still in the last request: %s", n, ReqString(c.CP.Reqs, c.t))
				}
			case n == "c" && !c.want["c"]:
				if has {
					c.fail("C03", "%q is in the last request: %s", n, ReqString(c.CP.Reqs, c.t))
				}
			case !has:
				c.fail("C03", "%q is subscribed but not in the last request: %s", n, ReqString(c.CP.Reqs, c.t))
			}
		}
	}
}

// final: everything converges from there.
func (c *chaos) final(live *hz.Stream) {
	mark := len(c.CP.Reqs)
	ld := c.Look(c.t, "d")
	vrt.Quiesce()
	before := live.Last(c.t)
	if len(c.CP.Reqs) != mark+1 || !hasName(before.Names, "d") {
		c.fail("C03", "then a lookup of d made the requests %v", c.CP.Reqs[mark:])
	}
	c.push(false, "d", "c", "b", "a")
	e := c.log[len(c.log)-1]
	mark = len(c.CP.Reqs)
	vrt.Quiesce()
	if l := c.CP.Reqs[mark:]; len(l) != 1 || l[0].Type != c.t || l[0].Nonce != e.nonce || l[0].Version != e.ver || l[0].Err {
		c.fail("C02", "then a good response %s %s was answered by %v", e.nonce, e.ver, l)
		c.fail("C04", "then a good response %s %s was answered by %v", e.nonce, e.ver, l)
	}
	if l := live.Last(c.t); l.Set != before.Set {
		c.fail("C03", "then a response changed the requests from %v to %v", before, l)
	}
	if !ld.OK() || ld.Stamp() != e.stamp {
		c.fail("C06", "then %v, though %s was supplied", ld, e.stamp)
		c.fail("C04", "then %v, though %s was supplied", ld, e.stamp)
	}
	snap := c.Snapshot(c.t)
	for _, n := range []string{"a", "b", "c", "d"} {
		w := ""
		if hasName(before.Names, n) {
			w = e.stamp
		}
		if snap[n] != w {
			c.fail("C01", "then %q is %q in the cache, the last response makes it %q", n, snap[n], w)
		}
	}
	for _, l := range c.looks {
		if !l.Done && hasName(before.Names, l.Name) {
			c.fail("C06", "then %v, though %s was supplied", l, e.stamp)
		}
	}
}

// AtOnce is the scenarios of schedules for a property.
func AtOnce(prop, tier string) []*mc.Scenario {
	type v struct{ n, b, bs int }
	vs := []v{{2, 2, 1}, {3, 0, 0}}
	if tier == "thorough" {
		vs = []v{{2, 3, 2}, {3, 1, 1}, {4, 0, 0}}
	}
	var l []*mc.Scenario
	for _, v := range vs {
		l = append(l, (&Chaos{Prop: prop, N: v.n}).Scen(fmt.Sprintf("at-once-%d", v.n), v.b),
			(&Chaos{Prop: prop, N: v.n, Aged: true}).Scen(fmt.Sprintf("at-once-%d-sweep", v.n), v.bs))
	}
	return l
}
