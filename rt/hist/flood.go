package hist

import (
	"fmt"
	"strings"
	"time"

	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/mc"
	"github.com/kitex-contrib/xds/verifrt/vrt"
)

// Flood is the scenario of more requests than any queue holds while the stream
// does not take any.
func Flood(prop string) *mc.Scenario {
	return &mc.Scenario{Name: "flood", Body: func(x *mc.X) { flood(x, prop) },
		Bounds: "Send blocks while 1100 lookups of new names, 1100 responses (with or without bad ones) or 550 of each come in, then takes them again, or the stream breaks; two resource types"}
}

const floodN = 1100

func flood(x *mc.X, prop string) {
	t := []T{hz.CDS, hz.EDS}[vrt.Choose(2)]
	kind := vrt.Choose(4)
	end := vrt.Choose(2)
	desc := fmt.Sprintf("%s, Send blocks, %s, %s", hz.TName(t), []string{"lookups", "responses", "responses, every third bad", "lookups and responses"}[kind], []string{"Send goes on", "the stream breaks"}[end])
	x.Op("%s", desc)
	fail := func(p, f string, a ...interface{}) {
		if p == prop {
			vrt.Fail(p, "%s: %s", desc, fmt.Sprintf(f, a...))
		}
	}
	s := hz.Start(x, hz.Cfg{})
	s.Boot(TabA)
	s.Look(t, "a")
	vrt.Quiesce()
	st := s.CP.Live()
	type resp struct {
		nonce, ver string
		bad        bool
		acc        string // the version in force afterwards
	}
	var rs []resp
	acc := ""
	push := func(i int) {
		l := []*anypb.Any{hz.Stamped(t, "a", "s1")}
		r := resp{bad: kind == 2 && i%3 == 0}
		if r.bad {
			l = append(l, hz.Corrupt(t))
		}
		r.ver, r.nonce = st.Push(hz.URL(t), l)
		if !r.bad {
			acc = r.ver
		}
		r.acc = acc
		rs = append(rs, r)
	}
	push(1)
	vrt.Quiesce()
	var looks []*hz.Look
	st.Stalled = true
	names := 1
	for i := 0; i < floodN; i++ {
		if kind == 0 || kind == 3 && i%2 == 0 {
			looks = append(looks, s.Look(t, fmt.Sprintf("n%04d", i)))
			names++
		} else {
			push(i)
		}
		vrt.Quiesce()
	}
	ca := s.Look(t, "a")
	vrt.Quiesce()
	if !ca.OK() {
		fail("C05", "%v, which is cached", ca)
		fail("C04", "%v, which is cached", ca)
	}
	vrt.Advance(1100 * time.Millisecond)
	for _, l := range looks {
		if !l.Done || l.Panic != "" || l.EndAt.After(l.Limit(time.Second)) {
			fail("C05", "%v, asked at %v", l, l.AskedAt.Sub(vrt.Epoch))
		}
	}
	if end == 0 {
		st.Stalled = false
	} else {
		st.Break(hz.ErrReset)
	}
	vrt.Quiesce()
	vrt.Advance(time.Second)
	vrt.Quiesce()
	live := s.CP.Live()
	if live == nil || live.Last(t) == nil || !live.Idle() {
		fail("C04", "the client does not go on (%v)", vrt.LiveGs())
		fail("C03", "the client does not go on (%v)", vrt.LiveGs())
		fail("C02", "the client does not go on (%v)", vrt.LiveGs())
		return
	}
	last := live.Last(t)
	if len(last.Names) != names {
		fail("C03", "%d names are subscribed, the last request lists %d", names, len(last.Names))
	}
	if end == 1 {
		var first *hz.Req
		for _, q := range live.Reqs {
			if q.Type == t && first == nil {
				first = q
			}
		}
		if live == st || first.Nonce != "" || first.Err || first.Version != acc || len(first.Names) != names {
			fail("C04", "%d names are subscribed and %q is the last accepted version; the first request on the new stream is one of %d names, version %q, nonce %q", names, acc, len(first.Names), first.Version, first.Nonce)
		}
		for _, q := range live.Reqs {
			if q.Nonce != "" {
				fail("C04", "%s is sent on the new stream, which issued no nonce", q.Nonce)
			}
		}
	} else {
		var ans []*hz.Req
		byNonce := map[string][]*hz.Req{}
		for _, q := range st.Reqs {
			if q.Type == t {
				byNonce[q.Nonce] = append(byNonce[q.Nonce], q)
				ans = append(ans, q)
			}
		}
		for i, r := range rs {
			l := byNonce[r.nonce]
			if len(l) == 0 || len(l) > 1 && len(looks) == 0 {
				fail("C02", "response %d of %d was answered %d times", i, len(rs), len(l))
				continue
			}
			if l[0].Err != r.bad || l[0].Version != r.acc {
				fail("C02", "response %d of %d (bad: %v, version in force then %q) was answered by version %q, nacked: %v", i, len(rs), r.bad, r.acc, l[0].Version, l[0].Err)
			}
		}
		prev := 0
		for _, q := range ans {
			if len(q.Names) < prev {
				fail("C03", "a request of %d names follows one of %d, none was evicted", len(q.Names), prev)
			}
			prev = len(q.Names)
		}
		if last.Nonce != rs[len(rs)-1].nonce {
			fail("C02", "the last request echoes %q, the last response's nonce is %q", last.Nonce, rs[len(rs)-1].nonce)
		}
	}
	// it goes on
	mark := len(live.Reqs)
	l := s.Look(t, "z")
	vrt.Quiesce()
	if q := live.Last(t); len(live.Reqs) != mark+1 || len(q.Names) != names+1 || !strings.HasSuffix(q.Set, ",z") {
		fail("C03", "then a lookup of z made %d requests, the last one of %d names", len(live.Reqs)-mark, len(q.Names))
	}
	live.Push(hz.URL(t), []*anypb.Any{hz.Stamped(t, "a", "s1"), hz.Stamped(t, "z", "s9")})
	vrt.Quiesce()
	if !l.OK() || l.Stamp() != "s9" {
		fail("C04", "then %v", l)
		fail("C05", "then %v", l)
	}
	x.State(desc, len(live.Reqs))
	s.M.Close()
}
