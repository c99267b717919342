package hist

import (
	"strings"
	"time"

	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/verifrt/vrt"
)

// Flips checks that, over all requests of type t on all streams, each name
// appears and disappears at most max[name] times, and that no request lists a
// name twice, names an unknown one or does not identify the node.
func Flips(prop string, cp *hz.CP, t T, max map[string]int) {
	prev := map[string]bool{}
	n := map[string]int{}
	if cp.BadReq != "" {
		vrt.Fail(prop, "%s", cp.BadReq)
	}
	for _, r := range cp.Reqs {
		if r.Node == nil || r.Node.Id != hz.NodeID {
			vrt.Fail(prop, "request %v does not identify the node", r)
		}
		if r.Type != t {
			continue
		}
		cur := map[string]bool{}
		for _, x := range r.Names {
			if cur[x] {
				vrt.Fail(prop, "request lists a name twice: %v", r)
			}
			cur[x] = true
			if _, ok := max[x]; !ok {
				vrt.Fail(prop, "request %v lists %q, which nobody asked for", r, x)
			}
		}
		for x := range max {
			if cur[x] != prev[x] {
				n[x]++
				if n[x] > max[x] {
					vrt.Fail(prop, "%q joined or left the requests %d times: %s", x, n[x], ReqString(cp.Reqs, t))
				}
			}
		}
		prev = cur
	}
}

// ReqString describes the requests of a type.
func ReqString(rs []*hz.Req, t T) string {
	var l []string
	for _, r := range rs {
		if r.Type == t {
			l = append(l, r.String())
		}
	}
	return strings.Join(l, " ")
}

// LastSet is the name set of the last request of a type on the live stream.
func LastSet(cp *hz.CP, t T) string {
	if st := cp.Live(); st != nil {
		if r := st.Last(t); r != nil {
			return r.Set
		}
	}
	return "(none)"
}

// Settle lets everything finish with scheduling fixed again.
func Settle() {
	vrt.Region(false)
	vrt.Quiesce()
}

// NextSweep moves to d before the next sweep (sweeps are every 30 s from t0).
func NextSweep(t0 time.Time, d time.Duration) {
	k := vrt.Now().Sub(t0)/sweep + 1
	vrt.Advance(t0.Add(k*sweep).Sub(vrt.Now()) - d)
	vrt.Quiesce()
}
