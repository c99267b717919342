// C14: a service address is bound to the listener the name table designates.
package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"google.golang.org/protobuf/types/known/anypb"

	. "github.com/kitex-contrib/xds/verifrt/hist"
	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/mc"
	"github.com/kitex-contrib/xds/verifrt/vrt"
)

// config is a namespace/domain configuration.
type config struct {
	env        map[string]string
	ns, domain string // as effective
}

func env(kv ...string) map[string]string {
	m := map[string]string{}
	for k, v := range hz.StdEnv {
		m[k] = v
	}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i]] = kv[i+1]
	}
	return m
}

var configs = []config{
	{env(), "default", "cluster.local"},
	{env("POD_NAMESPACE", "prod", "KITEX_XDS_DOMAIN", "k8s.corp"), "prod", "k8s.corp"},
	{env("POD_NAMESPACE", "prod", "KITEX_XDS_METAS", `{"NAMESPACE":"default","X":"y"}`), "default", "cluster.local"},
	{env("POD_NAMESPACE", "Prod", "KITEX_XDS_DOMAIN", "Cluster.LOCAL"), "Prod", "Cluster.LOCAL"},
	{env("POD_NAMESPACE", "default", "KITEX_XDS_METAS", `{"NAMESPACE":"svc"}`, "KITEX_XDS_DOMAIN", "com"), "svc", "com"},
	{env("POD_NAMESPACE", "a", "KITEX_XDS_DOMAIN", "a"), "a", "a"},
}

// expand is the reference: lower case, fully qualified.
func (c config) expand(host string) string { return strings.ToLower(RefExpand(host, c.ns, c.domain)) }

// addr is the reference resolution of a host.
func (c config) addr(table map[string][]string, host string) string {
	host = strings.ToLower(host)
	low := map[string][]string{}
	for k, v := range table {
		low[strings.ToLower(k)] = v
	}
	for _, k := range []string{c.expand(host), host} {
		if v := low[k]; len(v) > 0 {
			return v[0]
		}
	}
	return ""
}

// designated is the listener for host[:port], "" if none.
func (c config) designated(table map[string][]string, name string) string {
	host, port := name, "80"
	if i := strings.IndexByte(name, ':'); i >= 0 {
		host, port = name[:i], name[i+1:]
	}
	if ip := c.addr(table, host); ip != "" {
		return ip + "_" + port
	}
	return ""
}

// hosts are all hosts of up to n labels.
func hosts(n int) (out []string) {
	labels := []string{"a", "default", "svc", "com"}
	level := []string{""}
	for i := 1; i <= n; i++ {
		var next []string
		for _, p := range level {
			for _, l := range labels {
				if i > 1 {
					next = append(next, p+"."+l)
				} else {
					next = append(next, l)
				}
			}
		}
		out = append(out, next...)
		level = next
	}
	return
}

var extra = []string{
	"a.default.svc.cluster.local", "a.prod.svc.cluster.local", "a.other.svc.cluster.local", "a.default.svc.k8s.corp", "a.svc.com", "a-svc", "a-svc.default", "a.svcs.x", "svc-1.ns-2", "x.svc.y.svc.z",
	"www.example.com", "example.com", "10.1.2.3", "org.cloudwego.kitex.samples.api.greetprovider", "a.default.svc.cluster.local.default.svc.cluster.local", "localhost",
}

func title(s string) string {
	b := []byte(s)
	up := true
	for i, c := range b {
		if up && c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
		up = c == '.' || !up && i%3 == 0
	}
	return string(b)
}

// spell makes the spellings of a host.
func spell(h string, all bool) []string {
	l := []string{h, h + ":8080", strings.ToUpper(h)}
	if all {
		l = append(l, h+":80", title(h)+":80", strings.ToUpper(h)+":8080", h+":9")
	}
	return l
}

// tables by the content for a host with expanded name e.
var modes = []string{"none", "expanded", "literal", "both", "expanded empty", "two addresses", "upper-case keys", "neighbours", "blank address", "IPv6"}

func table(mode string, c config, hs []string, salt int) map[string][]string {
	t := map[string][]string{}
	n := 0
	ip := func() string { n++; return fmt.Sprintf("10.%d.%d.%d", salt, n/250, n%250+1) }
	put := func(k string, v ...string) {
		if _, ok := t[k]; !ok {
			t[k] = v
		}
	}
	for _, h := range hs {
		e := c.expand(h)
		switch mode {
		case "expanded":
			put(e, ip())
		case "literal":
			put(h, ip())
		case "both":
			put(e, ip())
			put(h, ip())
		case "expanded empty":
			if e != h {
				put(e)
			}
			put(h, ip())
		case "two addresses":
			put(e, ip(), ip(), ip())
			put(h, ip(), ip())
		case "upper-case keys":
			put(strings.ToUpper(e), ip())
			put(strings.ToUpper(h), ip())
		case "neighbours":
			// names that are close to h's and are not h's
			for _, k := range []string{h + ".other.svc.cluster.local", h + "." + c.ns + ".svc.other.domain", h + "." + c.ns, h + ".svc", "x." + h, h + "x", e + ".", strings.TrimSuffix(e, "l"), e + "." + c.ns + ".svc." + c.domain, h + ":80", e + ":80"} {
				put(strings.ToLower(k), ip())
			}
		case "IPv6":
			ip()
			put(e, fmt.Sprintf("fd00:%x::%x", salt, n), ip())
			put(h, fmt.Sprintf("::ffff:10.0.%d.%d", salt, n))
		case "blank address":
			put(e, "", ip())
		}
	}
	return t
}

func listeners(t map[string][]string, names []string, ver string) (rs []*anypb.Any, stamps map[string]string) {
	stamps = map[string]string{}
	add := func(n string) {
		if _, ok := stamps[n]; n == "" || ok {
			return
		}
		stamps[n] = fmt.Sprintf("s%s-%d", ver, len(stamps))
		rs = append(rs, hz.Stamped(hz.LDS, n, stamps[n]))
	}
	for _, ips := range t {
		sort.Strings(names)
		for _, ip := range ips {
			for _, p := range []string{"_80", "_8080", "_9", "", ":80", ":8080"} {
				if p != "" || ip != "" {
					add(ip + p)
				}
			}
		}
	}
	for _, p := range []string{"_80", "_8080", "_9", "80", "virtualInbound"} {
		add(p)
	}
	for _, n := range names {
		add(n)
		add(n + "_80")
		add(strings.ReplaceAll(n, ":", "_"))
	}
	return
}

// bindings: subscribe, then tables and listeners in various orders.
func bindings(labels, chunk int, all bool) *mc.Scenario {
	hs := append(append([]string{}, extra...), hosts(labels)...)
	var chunks [][]string
	for len(hs) > 0 {
		k := chunk
		if k > len(hs) {
			k = len(hs)
		}
		chunks = append(chunks, hs[:k])
		hs = hs[k:]
	}
	orders := []string{"table then listeners", "listeners then table"}
	body := func(x *mc.X) {
		c := configs[vrt.Choose(len(configs))]
		m1, m2 := modes[vrt.Choose(len(modes))], modes[vrt.Choose(len(modes))]
		ch := chunks[vrt.Choose(len(chunks))]
		order := orders[vrt.Choose(len(orders))]
		hz.SetEnv(c.env)
		defer hz.SetEnv(hz.StdEnv)
		var names []string
		seen := map[string]bool{}
		for _, h := range ch {
			for _, s := range spell(h, all) {
				if !seen[s] {
					seen[s] = true
					names = append(names, s)
				}
			}
			if e := c.expand(h); !seen[e] {
				// expansion is idempotent: the name itself is found too
				seen[e] = true
				names = append(names, e)
			}
		}
		x.Op("namespace %q domain %q, tables %q then %q, %s, hosts %v", c.ns, c.domain, m1, m2, order, ch)
		s := hz.Start(x, hz.Cfg{Timeout: 100 * time.Millisecond})
		t1, t2 := table(m1, c, ch, 1), table(m2, c, ch, 2)
		s.Boot(t1)
		for _, n := range names {
			s.LookD(hz.LDS, n, -1)
		}
		vrt.Quiesce()
		union := map[string][]string{}
		for k, v := range t1 {
			union[k] = append(append([]string{}, v...), t2[k]...)
		}
		for k, v := range t2 {
			if _, ok := t1[k]; !ok {
				union[k] = v
			}
		}
		rs, st := listeners(union, names, "a")
		st1 := s.CP.Live()
		st1.Push(hz.URL(hz.LDS), rs)
		vrt.Quiesce()
		verify(x, s, c, t1, st, names, "first table "+m1)
		push := []func(){
			func() { st1.Push(hz.URL(hz.NDS), []*anypb.Any{hz.NameTable(t2)}); vrt.Quiesce(); t1 = t2 },
			func() {
				rs, st = listeners(union, names, "b")
				st1.Push(hz.URL(hz.LDS), rs)
				vrt.Quiesce()
			},
		}
		if order == orders[1] {
			push[0], push[1] = push[1], push[0]
		}
		for i, p := range push {
			p()
			verify(x, s, c, t1, st, names, fmt.Sprintf("table %s, then %s (%s), step %d", m1, m2, order, i+1))
		}
		s.M.Close()
	}
	return &mc.Scenario{Name: "bindings", Body: body, Bounds: fmt.Sprintf("%d namespace/domain configurations x %d x %d name tables x 2 orders of updates; %d hosts of up to %d labels and %d others, each in several spellings; decoy listeners and names", len(configs), len(modes), len(modes), len(hosts(labels)), labels, len(extra))}
}

func verify(x *mc.X, s *hz.Sys, c config, t map[string][]string, stamps map[string]string, names []string, what string) {
	var ls []*hz.Look
	for _, n := range names {
		ls = append(ls, s.Look(hz.LDS, n))
	}
	vrt.QuiesceUntil(func() bool {
		for _, l := range ls {
			if !l.Done {
				return false
			}
		}
		return true
	}, 2*time.Second)
	bound := 0
	for i, l := range ls {
		d := c.designated(t, names[i])
		want, ok := stamps[d]
		switch {
		case !l.Done || l.Panic != "":
			vrt.Fail("C14", "%s: %v", what, l)
		case d == "" || !ok:
			if l.Err == nil {
				vrt.Fail("C14", "%s: namespace %q domain %q: %q is designated no supplied listener (%q), served %s = %s; table %v", what, c.ns, c.domain, names[i], d, l.Stamp(), nameOf(stamps, l.Stamp()), t)
			}
		case l.Err != nil || l.Stamp() != want:
			vrt.Fail("C14", "%s: namespace %q domain %q: %q is designated listener %q (%s), got %v (%s); table %v", what, c.ns, c.domain, names[i], d, want, l, nameOf(stamps, l.Stamp()), t)
		default:
			bound++
		}
		x.Count("lookups", 1)
	}
	x.State(what, c.ns, c.domain, bound, names[0])
}

func nameOf(stamps map[string]string, s string) string {
	for k, v := range stamps {
		if v == s {
			return k
		}
	}
	return "?"
}

// many: many hosts in the table, many of them looked up; the table and the
// listeners change, for all of them or some.
func many(ns []int) func(x *mc.X) {
	return func(x *mc.X) {
		c := configs[0]
		n := ns[vrt.Choose(len(ns))]
		looked := []int{1, 7, 64, 400}[vrt.Choose(4)]
		change := []string{"rotate", "swap two", "drop half", "add", "none left"}[vrt.Choose(5)]
		x.Op("%d hosts, %d looked up, then %s", n, looked, change)
		host := func(i int) string { return fmt.Sprintf("h%d", i) }
		mk := func(f func(i int) (int, bool), n int) map[string][]string {
			t := map[string][]string{}
			for i := 0; i < n; i++ {
				if j, ok := f(i); ok {
					t[c.expand(host(i))] = []string{fmt.Sprintf("10.%d.%d.%d", j>>16, j>>8&255, j&255), "9.9.9.9"}
				}
			}
			return t
		}
		t1 := mk(func(i int) (int, bool) { return i, true }, n)
		t2 := mk(map[string]func(i int) (int, bool){
			"rotate": func(i int) (int, bool) { return (i + 1) % n, true },
			"swap two": func(i int) (int, bool) {
				switch i {
				case 0:
					return n - 1, true
				case n - 1:
					return 0, true
				}
				return i, true
			},
			"drop half": func(i int) (int, bool) { return i, i%2 == 1 },
			"add":       func(i int) (int, bool) { return i, true },
			"none left": func(i int) (int, bool) { return i, false },
		}[change], n+b2i(change == "add")*n)
		s := hz.Start(x, hz.Cfg{Timeout: 100 * time.Millisecond})
		s.Boot(t1)
		var names []string
		for k := 0; k < looked; k++ {
			names = append(names, host(k*7919%(n+n/3+1)))
			if k%5 == 0 {
				names = append(names, strings.ToUpper(names[len(names)-1])+".Default:80")
			}
		}
		sort.Strings(names)
		u := names[:0]
		for _, m := range names {
			if len(u) == 0 || u[len(u)-1] != m {
				u = append(u, m)
			}
		}
		names = u
		for _, m := range names {
			s.LookD(hz.LDS, m, -1)
		}
		vrt.Quiesce()
		var rs []*anypb.Any
		st := map[string]string{}
		for i := 0; i < 2*n+2; i++ {
			l := fmt.Sprintf("10.%d.%d.%d_80", i>>16, i>>8&255, i&255)
			st[l] = "s" + l
			rs = append(rs, hz.Stamped(hz.LDS, l, st[l]))
		}
		l := s.CP.Live()
		l.Push(hz.URL(hz.LDS), rs)
		vrt.Quiesce()
		verify(x, s, c, t1, st, names, fmt.Sprintf("%d hosts", n))
		l.Push(hz.URL(hz.NDS), []*anypb.Any{hz.NameTable(t2)})
		vrt.Quiesce()
		verify(x, s, c, t2, st, names, fmt.Sprintf("%d hosts, then %s", n, change))
		var ks []string
		for k := range st {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		rs = nil
		for _, k := range ks {
			st[k] += "b"
			rs = append(rs, hz.Stamped(hz.LDS, k, st[k]))
		}
		l.Push(hz.URL(hz.LDS), rs)
		vrt.Quiesce()
		verify(x, s, c, t2, st, names, fmt.Sprintf("%d hosts, %s, then new listeners", n, change))
		s.M.Close()
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Histories.

const vi = "virtualInbound"

var (
	tabC = map[string][]string{"A.Default.svc.cluster.local": {}, "a": {"2.2.2.2"}, "b": {"3.3.3.3"}, "x.y": {"1.1.1.1"}}
	tabD = map[string][]string{"a.default.svc.cluster.local": {"9.9.9.9", "1.1.1.1"}, "b.default.svc.cluster.local": {"1.1.1.1", "9.9.9.9"}}
)

func histories(depth int) *Conf {
	return &Conf{Props: "C14", Types: []T{hz.LDS}, Depth: depth, Inbound: true, Table: TabA,
		LeafGets: []Key{{hz.LDS, "a"}, {hz.LDS, "A.default:80"}, {hz.LDS, "a:81"}, {hz.LDS, "b"}, {hz.LDS, vi}, {hz.LDS, "x.y"}},
		Ops: func(h *H) []Op {
			return []Op{
				Get(hz.LDS, "a"), Get(hz.LDS, "A.default:80"), Get(hz.LDS, "b:81"), Get(hz.LDS, "x.y"),
				Push(hz.LDS, Good), Push(hz.LDS, Good, vi, "1.1.1.1_80", "2.2.2.2_80", "1.1.1.1_81", "9.9.9.9_80"), Push(hz.LDS, Good, "2.2.2.2_80", "9.9.9.9_81", "a"), Push(hz.LDS, BadURL, "1.1.1.1_80"),
				PushTable("A", Good, TabA), PushTable("C", Good, tabC), PushTable("D", Good, tabD), PushTable("none", Good, nil), PushTable("D", BadBytes, tabD),
				Advance(Short), Advance(Idle), Reset(),
			}
		}}
}

// subscribed names in place, so that depth is spent on updates.
func updates(depth int) *Conf {
	c := histories(depth)
	c.Setup = func(h *H) {
		for _, n := range []string{"a", "A.default:80", "b:81", "x.y", "b"} {
			h.Do(Get(hz.LDS, n))
		}
	}
	c.Ops = func(h *H) []Op {
		return []Op{
			Push(hz.LDS, Good), Push(hz.LDS, Good, vi, "1.1.1.1_80", "2.2.2.2_80", "1.1.1.1_81", "9.9.9.9_80"), Push(hz.LDS, Good, "2.2.2.2_80", "9.9.9.9_81", "3.3.3.3_81", "a"), Push(hz.LDS, BadURL, "1.1.1.1_80"),
			PushTable("A", Good, TabA), PushTable("C", Good, tabC), PushTable("D", Good, tabD), PushTable("none", Good, nil), PushTable("D", BadBytes, tabD),
			Reset(), Advance(20 * time.Second), Get(hz.LDS, "a"),
		}
	}
	return c
}

// race: a table update, a listener update and lookups.
func race(x *mc.X) {
	s := hz.Start(x, hz.Cfg{})
	s.Boot(TabA)
	s.LookD(hz.LDS, "a", -1)
	vrt.Quiesce()
	mk := func(v string) []*anypb.Any {
		var rs []*anypb.Any
		for _, n := range []string{"1.1.1.1_80", "9.9.9.9_80", "2.2.2.2_80", "a"} {
			rs = append(rs, hz.Stamped(hz.LDS, n, n+v))
		}
		return rs
	}
	st := s.CP.Live()
	st.Push(hz.URL(hz.LDS), mk("-1"))
	vrt.Quiesce()
	vrt.Region(true)
	var ls []*hz.Look
	for _, n := range []string{"a", "A", "a"} {
		ls = append(ls, s.Look(hz.LDS, n))
	}
	st.Push(hz.URL(hz.NDS), []*anypb.Any{hz.NameTable(TabB)})
	st.Push(hz.URL(hz.LDS), mk("-2"))
	vrt.Quiesce()
	Settle()
	// the control plane answers the subscription it may have seen late
	st.Push(hz.URL(hz.LDS), mk("-3"))
	vrt.Quiesce()
	d := ""
	for i, l := range ls {
		if !l.OK() {
			vrt.Fail("C14", "a lookup concurrent with updates: %v", l)
			continue
		}
		got := l.Stamp()
		switch got {
		case "1.1.1.1_80-1", "2.2.2.2_80-1", "2.2.2.2_80-2", "2.2.2.2_80-3":
		default:
			vrt.Fail("C14", "a lookup of %q concurrent with updates was served %s, which no state of table and listeners designates", ls[i].Name, got)
		}
		d += got + " "
	}
	for _, n := range []string{"a", "A", "a.default:80"} {
		l := s.Look(hz.LDS, n)
		vrt.Quiesce()
		if n == "a.default:80" {
			if l.OK() && l.Stamp() != "2.2.2.2_80-3" {
				vrt.Fail("C14", "finally %v", l)
			}
			continue
		}
		if !l.OK() || l.Stamp() != "2.2.2.2_80-3" {
			vrt.Fail("C14", "finally %v, designated is 2.2.2.2_80", l)
		}
	}
	x.State(d)
	s.M.Close()
}

func main() {
	mc.Main(&mc.Check{
		Property: "C14",
		Assumptions: []string{
			"spellings with empty labels, trailing dots, several colons or an empty port are outside the domain; so are tables with two keys that differ in case only",
			"a name subscribed after the last listener response may be bound or not until the control plane responds",
		},
		Scenarios: func(tier string) []*mc.Scenario {
			labels, chunk, all, d, du, bnd := 3, 20, false, 4, 4, 3
			ns := []int{2, 3, 17, 100, 600}
			if tier == "thorough" {
				ns = []int{2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 600, 1000, 1025, 3000}
				labels, chunk, all, d, du, bnd = 5, 25, true, 5, 5, 4
			}
			return []*mc.Scenario{
				bindings(labels, chunk, all),
				{Name: "many", Body: many(ns), Bounds: fmt.Sprintf("%v hosts in the table, 1 to 400 looked up, 5 changes of the table, then of the listeners", ns)},
				Scen("histories", histories(d)), Scen("updates", updates(du)),
				{Name: "concurrent", Opts: vrt.Opts{UnlockPoints: true}, Bound: bnd, Body: race, Bounds: "all schedules with at most the bound's deviations: three lookups, a table update and a listener update"},
			}
		},
	})
}
