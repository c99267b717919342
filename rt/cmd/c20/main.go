// C20: node identity and bootstrap validation.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"
	"time"

	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/structpb"

	xds "github.com/kitex-contrib/xds"
	"github.com/kitex-contrib/xds/core/manager"
	"github.com/kitex-contrib/xds/core/xdsresource"
	. "github.com/kitex-contrib/xds/verifrt/hist"
	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/mc"
	"github.com/kitex-contrib/xds/verifrt/vrt"
	"github.com/kitex-contrib/xds/xdssuite"
)

const unset = "\x00"

// env is a configuration.
type env map[string]string

func (e env) apply() {
	kv := map[string]string{}
	for k, v := range e {
		if v != unset {
			kv[k] = v
		}
	}
	hz.SetEnv(kv)
}

func (e env) get(k string) string {
	if v := e[k]; v != unset {
		return v
	}
	return ""
}

func (e env) String() string {
	var l []string
	for _, k := range []string{"POD_NAMESPACE", "POD_NAME", "INSTANCE_IP", "KITEX_XDS_DOMAIN", "ISTIO_VERSION", "KITEX_XDS_METAS"} {
		if v, ok := e[k]; ok && v != unset {
			l = append(l, fmt.Sprintf("%s=%q", k, v))
		}
	}
	return strings.Join(l, " ")
}

// ---- the reference ----

func (e env) valid() bool {
	return e.get("POD_NAMESPACE") != "" && e.get("POD_NAME") != "" && e.get("INSTANCE_IP") != ""
}

func (e env) domain() string {
	if d := e.get("KITEX_XDS_DOMAIN"); d != "" {
		return d
	}
	return "cluster.local"
}

func (e env) id() string {
	ns := e.get("POD_NAMESPACE")
	return "sidecar~" + e.get("INSTANCE_IP") + "~" + e.get("POD_NAME") + "." + ns + "~" + ns + ".svc." + e.domain()
}

// metas is the metadata the user gives, nil when none (or an invalid one) is.
func (e env) metas() *structpb.Struct {
	s := e.get("KITEX_XDS_METAS")
	if s == "" {
		return nil
	}
	m := &structpb.Struct{}
	if protojson.Unmarshal([]byte(s), m) != nil {
		return nil
	}
	return m
}

// ns is the namespace of the expansion; false: not settled.
func (e env) ns() (string, bool) {
	if f, ok := e.metas().GetFields()["NAMESPACE"]; ok {
		s, isStr := f.GetKind().(*structpb.Value_StringValue)
		if !isStr || s.StringValue == "" {
			return "", false
		}
		return s.StringValue, true
	}
	return e.get("POD_NAMESPACE"), true
}

func elements(v *structpb.Value) (out []string) {
	if l := v.GetListValue(); l != nil {
		for _, x := range l.GetValues() {
			out = append(out, x.GetStringValue())
		}
		return
	}
	for _, s := range strings.Split(v.GetStringValue(), ",") {
		out = append(out, strings.TrimSpace(s))
	}
	return
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// node checks the node of a request.
func (e env) node(r *hz.Req, what string) {
	if r.Node == nil {
		vrt.Fail("C20", "%v: request %v (%s) does not identify the node", e, r, what)
		return
	}
	if r.Node.Id != e.id() {
		vrt.Fail("C20", "%v: request %v (%s) identifies the node as %q, expected %q", e, r, what, r.Node.Id, e.id())
	}
	got := r.Node.GetMetadata().GetFields()
	m := e.metas()
	if m == nil {
		if v, ok := got["ISTIO_VERSION"]; e.get("ISTIO_VERSION") != "" && (!ok || v.GetStringValue() != e.get("ISTIO_VERSION")) {
			vrt.Fail("C20", "%v: request %v (%s) has metadata %v, ISTIO_VERSION is not defaulted", e, r, what, r.Node.Metadata)
		}
		for k := range got {
			if k != "ISTIO_VERSION" {
				vrt.Fail("C20", "%v: request %v (%s) has metadata %v, nobody supplied %q", e, r, what, r.Node.Metadata, k)
			}
		}
		return
	}
	for k, v := range m.GetFields() {
		g, ok := got[k]
		if !ok {
			vrt.Fail("C20", "%v: request %v (%s) has metadata %v, %q is missing", e, r, what, r.Node.Metadata, k)
			return
		}
		if k != "INSTANCE_IPS" {
			if !proto.Equal(g, v) {
				vrt.Fail("C20", "%v: request %v (%s) has metadata %v, %q is not what the user supplied", e, r, what, r.Node.Metadata, k)
			}
			continue
		}
		have := elements(g)
		if !has(have, e.get("INSTANCE_IP")) {
			vrt.Fail("C20", "%v: request %v (%s) has INSTANCE_IPS %v, the pod IP is not an element", e, r, what, g)
		}
		if s, isStr := v.GetKind().(*structpb.Value_StringValue); isStr {
			for _, x := range elements(v) {
				if x != "" && !has(have, x) {
					vrt.Fail("C20", "%v: request %v (%s) has INSTANCE_IPS %v, the user supplied %q", e, r, what, g, s.StringValue)
				}
			}
			for _, x := range have {
				if x != "" && x != e.get("INSTANCE_IP") && !has(elements(v), x) {
					vrt.Fail("C20", "%v: request %v (%s) has INSTANCE_IPS %v, nobody supplied %q", e, r, what, g, x)
				}
			}
		}
	}
	for k := range got {
		if _, ok := m.GetFields()[k]; !ok && k != "ISTIO_VERSION" {
			vrt.Fail("C20", "%v: request %v (%s) has metadata %v, nobody supplied %q", e, r, what, r.Node.Metadata, k)
		}
	}
}

// ---- one configuration ----

// refused checks that construction fails and leaves nothing behind.
func refused(x *mc.X, e env) {
	cp := hz.NewCP()
	var m interface{}
	var err error
	done, pan := false, ""
	vrt.GoN("init", func() {
		ok := false
		defer func() {
			if !ok {
				if p := recover(); p != nil {
					pan = fmt.Sprintf("%v\n%s", p, debug.Stack())
				}
			}
		}()
		mm, er := manager.NewXDSResourceManager(nil, opts("")...)
		err = er
		if mm != nil {
			m = mm
		}
		ok, done = true, true
	})
	vrt.Quiesce()
	if pan != "" {
		vrt.Fail("C20", "%v: construction panicked: %s", e, pan)
	}
	if !done || err == nil {
		vrt.Fail("C20", "%v: the pod identity is incomplete, but construction did not fail (returned: %v, error %v)", e, done, err)
	}
	if err != nil && m != nil {
		vrt.Fail("C20", "%v: construction failed with %v and yielded a manager", e, err)
	}
	if len(cp.Streams) > 0 || len(cp.Reqs) > 0 {
		vrt.Fail("C20", "%v: construction failed, but a client is at work (%d streams, requests %v)", e, len(cp.Streams), cp.Reqs)
	}
	x.State("refused", e.get("POD_NAMESPACE"), e.get("POD_NAME"), e.get("INSTANCE_IP"))
}

func opts(svr string) []manager.Option {
	return []manager.Option{{F: func(o *manager.Options) {
		o.XDSSvrConfig = &manager.XDSServerConfig{SvrName: "cp", SvrAddr: "cp:1"}
		o.DumpPath = hz.ScratchFile("dump.json")
	}}}
}

// tableFor gives every candidate spelling of "a" an address of its own.
func tableFor(e env) (map[string][]string, map[string]string) {
	t, ip := map[string][]string{}, map[string]string{}
	n := 0
	nss := []string{e.get("POD_NAMESPACE")}
	if s, ok := e.ns(); ok && s != nss[0] {
		nss = append(nss, s)
	}
	for _, s := range []string{"meta-ns", "default"} {
		if !has(nss, s) {
			nss = append(nss, s)
		}
	}
	for _, ns := range nss {
		for _, d := range []string{e.domain(), "other.domain"} {
			n++
			k := strings.ToLower("a." + ns + ".svc." + d)
			if _, dup := t[k]; dup {
				continue
			}
			t[k] = []string{fmt.Sprintf("1.1.1.%d", n)}
			ip[k] = t[k][0]
		}
	}
	return t, ip
}

// accepted builds the manager and drives it through every kind of request.
func accepted(x *mc.X, e env, long bool) {
	t, ips := tableFor(e)
	s := hz.Start(x, hz.Cfg{})
	vrt.Quiesce()
	if s.Ready && s.Err != nil {
		vrt.Fail("C20", "%v: the pod identity is complete, but construction failed: %v", e, s.Err)
		return
	}
	s.Boot(t)
	// name expansion
	var ls []*anypb.Any
	for k, ip := range ips {
		ls = append(ls, hz.Stamped(hz.LDS, ip+"_80", strings.ReplaceAll(k, ".", "-")))
	}
	l := s.Look(hz.LDS, "a")
	vrt.Quiesce()
	st := s.CP.Live()
	st.Push(hz.URL(hz.LDS), ls)
	vrt.Quiesce()
	if ns, ok := e.ns(); ok {
		want := strings.ToLower(strings.ReplaceAll("a."+ns+".svc."+e.domain(), ".", "-"))
		if !l.OK() || l.Stamp() != want {
			vrt.Fail("C20", "%v: %q should stand for %q, but: %v", e, "a", want, l)
		}
	}
	if long {
		c := s.Look(hz.CDS, "c")
		s.LookD(hz.RDS, "r", -1)
		s.LookD(hz.EDS, "e", -1)
		vrt.Quiesce()
		st.Push(hz.URL(hz.CDS), []*anypb.Any{hz.Corrupt(hz.CDS)})
		st.Push(hz.URL(hz.NDS), []*anypb.Any{hz.NameTable(t)})
		st.Push(hz.URL(hz.CDS), []*anypb.Any{hz.Stamped(hz.CDS, "c", "s")})
		vrt.Quiesce()
		if !c.OK() {
			vrt.Fail("C20", "%v: %v", e, c)
		}
		st.Break(hz.ErrReset)
		vrt.QuiesceUntil(func() bool { return len(s.CP.Streams) == 2 && s.CP.Live() != nil && len(s.CP.Live().Reqs) >= 4 }, 20*time.Second)
		vrt.Advance(Idle)
		vrt.Quiesce()
		vrt.Advance(Idle)
		vrt.Quiesce()
	}
	kinds := map[string]int{}
	for i, r := range s.CP.Reqs {
		what := fmt.Sprintf("number %d of %d", i+1, len(s.CP.Reqs))
		e.node(r, what)
		kinds[fmt.Sprint(hz.TName(r.Type), r.Err, r.Nonce != "", r.Stream)]++
	}
	if long && (len(s.CP.Streams) != 2 || len(kinds) < 10) {
		vrt.Fail("", "the drive did not produce the requests it is meant to: %v", kinds)
	}
	x.Input(len(s.CP.Reqs))
	x.State("accepted", e.id(), l.String(), e.get("KITEX_XDS_METAS"), s.CP.Reqs[0].Node.GetMetadata())
	s.M.Close()
}

func run(x *mc.X, e env, long bool) {
	e.apply()
	x.Op("%v", e)
	if !e.valid() {
		refused(x, e)
		return
	}
	accepted(x, e, long)
}

var metaCases = []string{
	unset, "", "{}", "not json", "{", `{a: 1}`, `["x"]`, `"x"`, `{"a":"b"}`, `{"NAMESPACE":"meta-ns"}`, `{"NAMESPACE":"META-ns","ISTIO_VERSION":"9.9"}`,
	`{"NAMESPACE":"default"}`, `{"NAMESPACE":""}`, `{"NAMESPACE":7}`, `{"namespace":"meta-ns"}`, `{"X":{"NAMESPACE":"meta-ns"}}`,
	`{"ISTIO_VERSION":"1.0","CLUSTER_ID":"Kubernetes","DNS_CAPTURE":"true"}`, `{"ISTIO_VERSION":""}`,
	`{"n":1.5,"b":true,"z":null,"l":[1,"2",{"k":"v"}],"s":{"t":{"u":"v"}},"e":{},"":"empty key","ключ":"значение"}`,
	`{"INSTANCE_IPS":"10.0.0.1","NAMESPACE":"meta-ns","CLUSTER_ID":"k"}`, `{"INSTANCE_IPS":""}`, `{"INSTANCE_IPS":"10.0.0.11,10.0.0.2"}`,
	`{"INSTANCE_IPS":["10.0.0.2"]}`, `{"INSTANCE_IPS":null}`, `{"INSTANCE_IPS":3}`, `{"instance_ips":"1.2.3.4"}`, ` {"a" : "b"} `,
	`{"POD_NAME":"x","INSTANCE_IP":"6.6.6.6","id":"sidecar~evil"}`,
}

func pick(v ...string) string { return v[vrt.Choose(len(v))] }

// configs: combinations of the variables.
func configs(long bool, metas []string) func(x *mc.X) {
	return func(x *mc.X) {
		run(x, env{
			"POD_NAMESPACE":    pick(unset, "", "default", "ns-x", "Prod"),
			"POD_NAME":         pick(unset, "", "pod", "pod-7f.x"),
			"INSTANCE_IP":      pick(unset, "", "10.0.0.1", "fd00::1"),
			"KITEX_XDS_DOMAIN": pick(unset, "", "cluster.local", "corp.example"),
			"ISTIO_VERSION":    pick(unset, "1.16.5"),
			"KITEX_XDS_METAS":  pick(metas...),
		}, long)
	}
}

// ipLists: INSTANCE_IPS lists out of addresses resembling the pod's.
func ipLists(n int) func(x *mc.X) {
	return func(x *mc.X) {
		ip := pick("10.0.0.1", "1.1.1.1", "fd00::1")
		parts := []string{ip, ip + "1", "1" + ip, ip[:len(ip)-1], ip[1:], "192.168.0.9", "", ip + "." + ip, ip + ":1", ip + "/32"}
		var l []string
		for k := vrt.Choose(n + 1); k > 0; k-- {
			l = append(l, pick(parts...))
		}
		s := strings.Join(l, pick(",", ", ", " ,"))
		b, _ := json.Marshal(map[string]string{"INSTANCE_IPS": s, "k": "v"})
		run(x, env{"POD_NAMESPACE": "default", "POD_NAME": "pod", "INSTANCE_IP": ip, "ISTIO_VERSION": "1.2", "KITEX_XDS_METAS": string(b)}, false)
	}
}

// two managers built under different configurations do not share their identity.
func two(x *mc.X) {
	es := []env{
		{"POD_NAMESPACE": "default", "POD_NAME": "pod", "INSTANCE_IP": "10.0.0.1", "KITEX_XDS_METAS": `{"INSTANCE_IPS":"9.9.9.9","NAMESPACE":"meta-ns"}`},
		{"POD_NAMESPACE": "ns-x", "POD_NAME": "pod2", "INSTANCE_IP": "10.0.0.2", "KITEX_XDS_DOMAIN": "corp.example", "ISTIO_VERSION": "3"},
		{"POD_NAMESPACE": "default", "POD_NAME": "pod", "INSTANCE_IP": "10.0.0.3", "KITEX_XDS_METAS": `{"INSTANCE_IPS":"9.9.9.9","a":"b"}`},
	}
	a, b := es[vrt.Choose(3)], es[vrt.Choose(3)]
	a.apply()
	s := hz.Start(x, hz.Cfg{})
	ta, _ := tableFor(a)
	s.Boot(ta)
	b.apply()
	s2 := hz.Start(x, hz.Cfg{})
	tb, _ := tableFor(b)
	s2.Boot(tb)
	hz.SetEnv(nil)
	for _, y := range []*hz.Sys{s, s2} {
		y.LookD(hz.CDS, "c", -1)
		vrt.Quiesce()
		y.CP.Live().Break(hz.ErrReset)
		vrt.QuiesceUntil(func() bool { return len(y.CP.Streams) == 2 && len(y.CP.Live().Reqs) >= 3 }, 20*time.Second)
	}
	for _, r := range s.CP.Reqs {
		a.node(r, "first manager")
	}
	for _, r := range s2.CP.Reqs {
		b.node(r, "second manager")
	}
	x.State(a.id(), b.id())
	s.M.Close()
	s2.M.Close()
}

// ---- initialising the process-wide manager ----

// childOps are run in a process of their own, as the manager is process-wide.
var childOps = []string{"init", "init-other", "init-no-namespace", "init-no-name", "init-no-ip", "set", "pair-12", "pair-21"}

type report struct {
	Lines []string // per op
	Fail  string
}

// use finds out which manager is in use.
func use(cps []*hz.CP, asked *string) string {
	if !xdssuite.XDSInited() {
		return "nobody"
	}
	*asked = ""
	before := map[*hz.Stream]int{}
	for _, cp := range cps {
		for _, st := range cp.Streams {
			before[st] = len(st.Reqs)
		}
	}
	done := false
	name := fmt.Sprintf("c%d", vrt.Steps())
	vrt.GoN("use", func() {
		_, _ = xdssuite.NewXDSResolver().Resolve(context.Background(), name)
		done = true
	})
	vrt.QuiesceUntil(func() bool { return done }, 5*time.Second)
	for i, cp := range cps {
		for _, st := range cp.Streams {
			if len(st.Reqs) > before[st] {
				*asked += fmt.Sprintf("cp%d.%d", i+1, st.ID)
			}
		}
	}
	return *asked
}

// child runs a sequence of operations and reports what each did.
func child(seq string) {
	rep := &report{}
	res := vrt.Run(vrt.Opts{}, nil, func() {
		var cps []*hz.CP
		fakes := 0
		asked := ""
		for _, op := range strings.Split(seq, ",") {
			line := ""
			switch {
			case strings.HasPrefix(op, "init"):
				e := env{"POD_NAMESPACE": "default", "POD_NAME": "pod", "INSTANCE_IP": "10.0.0.1"}
				switch op {
				case "init-other":
					e["POD_NAME"] = "other"
				case "init-no-namespace":
					e["POD_NAMESPACE"] = ""
				case "init-no-name":
					delete(e, "POD_NAME")
				case "init-no-ip":
					e["INSTANCE_IP"] = ""
				}
				e.apply()
				cp := hz.NewCP()
				cps = append(cps, cp)
				done := false
				var err error
				pan := ""
				vrt.GoN("init", func() {
					ok := false
					defer func() {
						if !ok {
							if p := recover(); p != nil {
								pan = fmt.Sprint(p)
							}
						}
					}()
					err = xds.Init(opts("")...)
					ok, done = true, true
				})
				vrt.Quiesce()
				if st := cp.Live(); st != nil {
					st.Push(hz.URL(hz.NDS), []*anypb.Any{hz.NameTable(TabA)})
					vrt.Quiesce()
					st.Push(hz.URL(hz.LDS), nil)
					vrt.Quiesce()
				}
				line = fmt.Sprintf("done=%v failed=%v panic=%q streams=%d", done, err != nil, pan, len(cp.Streams))
			case strings.HasPrefix(op, "pair"):
				// two overlapping initialisations; the start-up of the one
				// or of the other completes first
				(env{"POD_NAMESPACE": "default", "POD_NAME": "pod", "INSTANCE_IP": "10.0.0.1"}).apply()
				cp := hz.NewCP()
				cps = append(cps, cp)
				var errs [2]error
				n := 0
				for i := range errs {
					i := i
					vrt.GoN(fmt.Sprint("init", i), func() {
						errs[i] = xds.Init(opts("")...)
						n++
					})
					vrt.Quiesce()
				}
				order := []int{1, 2}
				if op == "pair-21" {
					order = []int{2, 1}
				}
				mid := ""
				for _, k := range order {
					if len(cp.Streams) >= k {
						st := cp.Streams[k-1]
						st.Push(hz.URL(hz.NDS), []*anypb.Any{hz.NameTable(TabA)})
						vrt.Quiesce()
						st.Push(hz.URL(hz.LDS), nil)
						vrt.Quiesce()
					}
					mid += use(cps, &asked) + "/"
				}
				line = fmt.Sprintf("done=%v failed=%v,%v inuse=%s streams=%d", n == 2, errs[0] != nil, errs[1] != nil, mid, len(cp.Streams))
			case op == "set":
				fakes++
				n := fakes
				err := xdssuite.SetXDSResourceManager(&hz.Src{F: func(xdsresource.ResourceType, string) (interface{}, error) {
					asked = fmt.Sprintf("fake%d", n)
					return nil, hz.ErrAbsent
				}})
				line = fmt.Sprintf("failed=%v", err != nil)
			case op == "use":
				line = use(cps, &asked)
			}
			rep.Lines = append(rep.Lines, line+fmt.Sprintf(" inited=%v", xdssuite.XDSInited()))
		}
	})
	if res.Fail != nil {
		rep.Fail = res.Fail.Kind + ": " + res.Fail.Msg
	}
	b, _ := json.Marshal(rep)
	os.Stdout.Write(append([]byte("\n@@"), b...))
	os.Stdout.Write([]byte("\n"))
}

// wantLines is the reference for a sequence of operations.
func wantLines(seq []string) (out []string) {
	owner := ""
	ncp, nfake := 0, 0
	for _, op := range seq {
		line := ""
		switch {
		case strings.HasPrefix(op, "init"):
			ncp++
			good := op == "init" || op == "init-other"
			switch {
			case owner != "":
				// keeps the first manager; whether the call itself reports
				// success is not settled when it could not have succeeded
				line = `done=true failed=? panic="" streams=?`
				if good {
					line = `done=true failed=false panic="" streams=?`
				}
			case good:
				owner = fmt.Sprintf("cp%d.1", ncp)
				line = `done=true failed=false panic="" streams=1`
			default:
				line = `done=true failed=true panic="" streams=0`
			}
		case strings.HasPrefix(op, "pair"):
			ncp++
			if owner == "" {
				owner = fmt.Sprintf("cp%d.%c", ncp, op[5])
			}
			line = fmt.Sprintf("done=true failed=false,false inuse=%s/%s/ streams=?", owner, owner)
		case op == "set":
			nfake++
			line = "failed=false"
			if owner == "" {
				owner = fmt.Sprintf("fake%d", nfake)
			} else {
				line = "failed=?"
			}
		case op == "use":
			line = owner
			if owner == "" {
				line = "nobody"
			}
		}
		out = append(out, line+fmt.Sprintf(" inited=%v", owner != ""))
	}
	return
}

func matches(want, got string) bool {
	w, g := strings.Fields(want), strings.Fields(got)
	if len(w) != len(g) {
		return false
	}
	for i := range w {
		if k, v, ok := strings.Cut(w[i], "="); ok && v == "?" && strings.HasPrefix(g[i], k+"=") {
			continue
		}
		if w[i] != g[i] {
			return false
		}
	}
	return true
}

func inits(depth int) func(x *mc.X) {
	return func(x *mc.X) {
		mc.Enum(x, func(c *mc.Chooser) func() {
			var seq []string
			for i := 0; i < depth; i++ {
				seq = append(seq, childOps[c.Choose(len(childOps))], "use")
			}
			return func() {
				cmd := exec.Command(os.Args[0])
				cmd.Env = append(os.Environ(), "VERIF_C20_CHILD="+strings.Join(seq, ","))
				var out, errb bytes.Buffer
				cmd.Stdout, cmd.Stderr = &out, &errb
				err := cmd.Run()
				i := strings.LastIndex(out.String(), "\n@@")
				rep := &report{}
				if err != nil || i < 0 || json.Unmarshal([]byte(strings.TrimSpace(out.String()[i+3:])), rep) != nil {
					e := errb.String()
					if len(e) > 1500 {
						e = e[:1500]
					}
					vrt.Fail("C20", "initialisations %v ended the process: %v %s", seq, err, e)
					return
				}
				if rep.Fail != "" {
					vrt.Fail("C20", "initialisations %v: %s", seq, rep.Fail)
				}
				want := wantLines(seq)
				for k := range want {
					if k >= len(rep.Lines) || !matches(want[k], rep.Lines[k]) {
						vrt.Fail("C20", "initialisations %v: step %d should give %q, reports: %q", seq, k+1, want[k], rep.Lines)
						return
					}
				}
				x.State(rep.Lines)
				if x.WantSample() {
					x.Sample(fmt.Sprint(seq, " -> ", rep.Lines))
				}
			}
		})
	}
}

func main() {
	if seq := os.Getenv("VERIF_C20_CHILD"); seq != "" {
		child(seq)
		return
	}
	mc.Main(&mc.Check{
		Property: "C20",
		Assumptions: []string{
			"metadata that is not a JSON object counts as none given",
			"an empty or non-string NAMESPACE entry, and an INSTANCE_IPS entry that is not a string (beyond the pod IP being an element), are left open",
			"ISTIO_VERSION is the only key the client may add to the user's metadata",
		},
		Scenarios: func(tier string) []*mc.Scenario {
			dp, ipn := 3, 3
			metas := metaCases
			if tier == "thorough" {
				dp, ipn = 4, 4
			}
			long := []string{unset, "{", `{"INSTANCE_IPS":"10.0.0.11","NAMESPACE":"meta-ns","CLUSTER_ID":"k"}`}
			if tier == "thorough" {
				long = metas
			}
			return []*mc.Scenario{
				{Name: "configurations", Body: configs(false, metas), Bounds: fmt.Sprintf("5 namespaces x 4 names x 4 addresses x 4 domains x 2 versions x %d metadata strings (absent and empty included)", len(metas))},
				{Name: "every-request", Body: configs(true, long), Bounds: fmt.Sprintf("the same with %d metadata strings, through subscriptions of every type, ACKs, NACKs, a reconnect and evictions", len(long))},
				{Name: "instance-ips", Body: ipLists(ipn), Bounds: fmt.Sprintf("3 pod addresses, all lists of up to %d out of 10 resembling addresses, 3 separators", ipn)},
				{Name: "two-managers", Body: two, Bounds: "every pair of 3 configurations, one after the other in one process"},
				{Name: "initialisations", Shards: 16, Body: inits(dp), Bounds: fmt.Sprintf("all sequences of %d initialisations (also overlapping ones) out of 8 kinds, the manager in use observed after each, each in a process of its own", dp)},
			}
		},
	})
}
