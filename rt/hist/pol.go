package hist

import (
	"fmt"

	"github.com/kitex-contrib/xds/verifrt/hz"
	"github.com/kitex-contrib/xds/xdssuite"
)

// InstallPolicies installs a circuit breaker, a retry policy and a limiter of
// a started server, all fed by the system's manager.
func InstallPolicies(h *H) {
	hz.Px.Cur = h.S.M
	out := hz.ApplyClient(xdssuite.NewCircuitBreaker(xdssuite.WithServiceCircuitBreak(true)), xdssuite.NewRetryPolicy())
	lim := &hz.Limiter{Opt: hz.ApplyServer(xdssuite.NewLimiter())}
	lim.Start()
	h.Pol = func() string {
		return fmt.Sprintf("breakers{%s} retries{%s} limits{%d %d}", hz.CBString(out.CB), hz.RetryString(out.Retry), lim.QPS, lim.Conns)
	}
}
