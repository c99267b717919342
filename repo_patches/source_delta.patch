From 11d6e6b028aee1010894b3c5564893515df25002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:26 +0000
Subject: [PATCH 01/28] fix: decode the retry back-off base interval from
 base_interval

---
 core/xdsresource/rds.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/xdsresource/rds.go b/core/xdsresource/rds.go
index dd7f71a..0e6c852 100644
--- a/core/xdsresource/rds.go
+++ b/core/xdsresource/rds.go
@@ -214,7 +214,7 @@ func unmarshalRoutes(rs []*v3routepb.Route) ([]*Route, error) {
 				}
 				if backoff := retryPolicy.GetRetryBackOff(); backoff != nil {
 					route.RetryPolicy.RetryBackOff = &RetryBackOff{
-						BaseInterval: backoff.GetMaxInterval().AsDuration(),
+						BaseInterval: backoff.GetBaseInterval().AsDuration(),
 						MaxInterval:  backoff.GetMaxInterval().AsDuration(),
 					}
 				}
-- 
2.43.0


From 0f9d59f2a71b796cf82487c296cc221efe47e7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:26 +0000
Subject: [PATCH 02/28] fix: pick weighted clusters in proportion to their
 weights

The cumulative scan compared with >=, so that a leading cluster of weight 0
could be picked and the first cluster was over-represented by one; sums above
MaxInt32 panicked in the generator or wrapped around.
---
 xdssuite/router.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/xdssuite/router.go b/xdssuite/router.go
index e6ccd8f..da642ee 100644
--- a/xdssuite/router.go
+++ b/xdssuite/router.go
@@ -218,16 +218,19 @@ func pickCluster(route *xdsresource.Route) (string, error) {
 	if len(wcs) == 1 {
 		return wcs[0].Name, nil
 	}
-	currWeight := uint32(0)
-	totalWeight := calTotalWeight(wcs)
+	// the sum of the weights may not fit in 32 bits
+	var currWeight, totalWeight uint64
+	for _, wc := range wcs {
+		totalWeight += uint64(wc.Weight)
+	}
 	if totalWeight <= 0 {
 		js, _ := route.MarshalJSON()
 		return "", fmt.Errorf("total weight of route is invalid (<= 0), route: %s", js)
 	}
-	targetWeight := uint32(fastrand.Int31n(int32(totalWeight)))
+	targetWeight := uint64(fastrand.Int63n(int64(totalWeight)))
 	for _, wc := range wcs {
-		currWeight += wc.Weight
-		if currWeight >= targetWeight {
+		currWeight += uint64(wc.Weight)
+		if currWeight > targetWeight {
 			return wc.Name, nil
 		}
 	}
-- 
2.43.0


From 960ebb0dd61616605ccc29702d0f6793c2b60eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:26 +0000
Subject: [PATCH 03/28] fix: find the local rate-limit filter wherever it sits
 in the HTTP filter chain

---
 core/xdsresource/lds.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/xdsresource/lds.go b/core/xdsresource/lds.go
index 0959008..f9b2581 100644
--- a/core/xdsresource/lds.go
+++ b/core/xdsresource/lds.go
@@ -281,7 +281,6 @@ func getLocalRateLimitFromHttpConnectionManager(hcm *v3httppb.HttpConnectionMana
 				return uint32(maxTokens.GetNumberValue()), uint32(tokensPerfill.GetNumberValue()), nil
 			}
 		}
-		return 0, 0, nil
 	}
 	return 0, 0, nil
 }
-- 
2.43.0


From 4891ef8b41a89560a2add9f0991e167b90040966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:26 +0000
Subject: [PATCH 04/28] fix: keep the destination port of filter chains with a
 thrift proxy

---
 core/xdsresource/lds.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/xdsresource/lds.go b/core/xdsresource/lds.go
index f9b2581..70175cf 100644
--- a/core/xdsresource/lds.go
+++ b/core/xdsresource/lds.go
@@ -130,6 +130,7 @@ func unmarshalFilterChain(fc *v3listenerpb.FilterChain) ([]*NetworkFilter, error
 				}
 				filters = append(filters, &NetworkFilter{
 					FilterType:        NetworkFilterTypeThrift,
+					RoutePort:         matchPort,
 					InlineRouteConfig: r,
 				})
 			}
-- 
2.43.0


From 2c2962d9a6e365af521b050e9c69a1c2628587fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:26 +0000
Subject: [PATCH 05/28] fix: do not cache listeners which the response does not
 contain

---
 core/manager/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index c338e34..4bfebbb 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -482,8 +482,8 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 			if lis, ok := res[ln]; ok {
 				filteredRes[n] = lis
 			}
-		} else {
-			filteredRes[n] = res[n]
+		} else if lis, ok := res[n]; ok {
+			filteredRes[n] = lis
 		}
 	}
 	c.mu.RUnlock()
-- 
2.43.0


From 4cc8036007dc0e38e5bf19dccc666b211c9433ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:26 +0000
Subject: [PATCH 06/28] fix: decode a load assignment without endpoints to an
 empty resource, not to nil

---
 core/xdsresource/eds.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/xdsresource/eds.go b/core/xdsresource/eds.go
index 019f5bd..4e142f5 100644
--- a/core/xdsresource/eds.go
+++ b/core/xdsresource/eds.go
@@ -122,6 +122,10 @@ func UnmarshalEDS(rawResources []*anypb.Any) (map[string]Resource, error) {
 			errMap[cla.ClusterName] = err
 			continue
 		}
+		if endpoints == nil {
+			// supplied, but without any endpoint
+			endpoints = &EndpointsResource{}
+		}
 		ret[cla.ClusterName] = endpoints
 	}
 	if len(errMap) == 0 && len(errSlice) == 0 {
-- 
2.43.0


From d5f54d99a022259bc0cd48ef259e5c21b601cb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:26 +0000
Subject: [PATCH 07/28] fix: resolving a cluster whose localities are all empty
 is an error

---
 xdssuite/resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xdssuite/resolver.go b/xdssuite/resolver.go
index 0d73e8f..5e49abc 100644
--- a/xdssuite/resolver.go
+++ b/xdssuite/resolver.go
@@ -96,6 +96,9 @@ func (r *XDSResolver) getEndpoints(ctx context.Context, desc string) ([]*xdsreso
 	for _, locality := range endpoints.Localities {
 		eps = append(eps, locality.Endpoints...)
 	}
+	if len(eps) == 0 {
+		return nil, fmt.Errorf("no endpoints for cluster: %s", desc)
+	}
 	return eps, nil
 }
 
-- 
2.43.0


From 754ff5b6081d5275bd8f960330a5318c6575997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:59 +0000
Subject: [PATCH 08/28] fix: a lookup misses a resource delivered between its
 cache read and its registration

Get read the cache and registered its notifier in two separate critical
sections; an update between them was only noticed by the next update.
---
 core/manager/manager.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index 5581bba..5cc7ea7 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -109,6 +109,11 @@ func initXDSClient(bootstrapConfig *BootstrapConfig, m *xdsResourceManager) (*xd
 func (m *xdsResourceManager) getFromCache(rType xdsresource.ResourceType, rName string) (interface{}, bool) {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.lookup(rType, rName)
+}
+
+// lookup is getFromCache for callers that hold the lock.
+func (m *xdsResourceManager) lookup(rType xdsresource.ResourceType, rName string) (interface{}, bool) {
 	if ms, ok1 := m.meta[rType]; ok1 {
 		if mt, ok2 := ms[rName]; ok2 {
 			mt.LastAccessTime.Store(time.Now())
@@ -151,6 +156,11 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 
 	// Fetch resource via client and wait for the update
 	m.mu.Lock()
+	// it may have been delivered since the cache was read
+	if res, ok = m.lookup(rType, rName); ok {
+		m.mu.Unlock()
+		return res, nil
+	}
 	// Setup channel for this resource
 	if _, ok := m.notifierMap[rType]; !ok {
 		m.notifierMap[rType] = make(map[string]*notifier)
-- 
2.43.0


From 056f45655998eef46891a642bdccb562717b0216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:59 +0000
Subject: [PATCH 09/28] fix: a lookup that times out does not cut off the
 others waiting for the same resource

The notifier is shared by all lookups of a name; the first one to give up
removed it and the update that followed woke nobody.
---
 core/manager/manager.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index 5cc7ea7..be1a856 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -57,6 +57,8 @@ type xdsResourceManager struct {
 type notifier struct {
 	ch  chan struct{}
 	err error
+	// waiters is the number of lookups waiting, guarded by the lock of the manager
+	waiters int
 }
 
 func (n *notifier) notify(err error) {
@@ -172,6 +174,7 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 		// only send one request for this resource
 		m.client.Watch(rType, rName, false)
 	}
+	nf.waiters++
 	m.mu.Unlock()
 	// Set fetch timeout
 	ctx, cancel := context.WithTimeout(ctx, m.opts.XDSSvrConfig.GetFetchXDSTimeout())
@@ -187,9 +190,12 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 		res, _ = m.getFromCache(rType, rName)
 		return res, nil
 	case <-ctx.Done():
-		// remove the notifier if timeout.
+		// remove the notifier if timeout, unless others are still waiting on it.
 		m.mu.Lock()
-		delete(m.notifierMap[rType], rName)
+		nf.waiters--
+		if nf.waiters == 0 && m.notifierMap[rType][rName] == nf {
+			delete(m.notifierMap[rType], rName)
+		}
 		m.mu.Unlock()
 		return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] timeout",
 			xdsresource.ResourceTypeToName[rType], rName)
-- 
2.43.0


From bdabf1c7fa6579a044a49c45f8fbb1036186d849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:59 +0000
Subject: [PATCH 10/28] fix: a lookup woken up by an update never returns
 neither a value nor an error

The resource may be removed between the wake-up and the second cache read.
---
 core/manager/manager.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index be1a856..3cdcffb 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -57,11 +57,14 @@ type xdsResourceManager struct {
 type notifier struct {
 	ch  chan struct{}
 	err error
+	// res is the resource delivered
+	res xdsresource.Resource
 	// waiters is the number of lookups waiting, guarded by the lock of the manager
 	waiters int
 }
 
-func (n *notifier) notify(err error) {
+func (n *notifier) notify(res xdsresource.Resource, err error) {
+	n.res = res
 	n.err = err
 	close(n.ch)
 }
@@ -187,8 +190,11 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 			return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] failed, error=%s",
 				xdsresource.ResourceTypeToName[rType], rName, nf.err.Error())
 		}
-		res, _ = m.getFromCache(rType, rName)
-		return res, nil
+		if res, ok = m.getFromCache(rType, rName); ok {
+			return res, nil
+		}
+		// removed again in the meantime
+		return nf.res, nil
 	case <-ctx.Done():
 		// remove the notifier if timeout, unless others are still waiting on it.
 		m.mu.Lock()
@@ -308,7 +314,7 @@ func (m *xdsResourceManager) UpdateResource(rt xdsresource.ResourceType, up map[
 			continue
 		}
 		if nf, exist := m.notifierMap[rt][name]; exist {
-			nf.notify(nil)
+			nf.notify(res, nil)
 			delete(m.notifierMap[rt], name)
 		}
 	}
-- 
2.43.0


From 56e54f04cd6d7b53df193af038baa81e147c40bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:59 +0000
Subject: [PATCH 11/28] fix: a lookup returns a resource delivered before its
 deadline

With both the notifier and the deadline ready, select chose at random.
---
 core/manager/manager.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index 3cdcffb..ebef101 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -183,8 +183,27 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 	ctx, cancel := context.WithTimeout(ctx, m.opts.XDSSvrConfig.GetFetchXDSTimeout())
 	defer cancel()
 
+	delivered := false
 	select {
 	case <-nf.ch:
+		delivered = true
+	case <-ctx.Done():
+		m.mu.Lock()
+		select {
+		case <-nf.ch:
+			// delivered before the deadline, only noticed after it
+			delivered = true
+		default:
+			// remove the notifier if timeout, unless others are still waiting on it.
+			nf.waiters--
+			if nf.waiters == 0 && m.notifierMap[rType][rName] == nf {
+				delete(m.notifierMap[rType], rName)
+			}
+		}
+		m.mu.Unlock()
+	}
+
+	if delivered {
 		// error in the notifier
 		if nf.err != nil {
 			return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] failed, error=%s",
@@ -195,17 +214,9 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 		}
 		// removed again in the meantime
 		return nf.res, nil
-	case <-ctx.Done():
-		// remove the notifier if timeout, unless others are still waiting on it.
-		m.mu.Lock()
-		nf.waiters--
-		if nf.waiters == 0 && m.notifierMap[rType][rName] == nf {
-			delete(m.notifierMap[rType], rName)
-		}
-		m.mu.Unlock()
-		return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] timeout",
-			xdsresource.ResourceTypeToName[rType], rName)
 	}
+	return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] timeout",
+		xdsresource.ResourceTypeToName[rType], rName)
 }
 
 // cleaner cleans the expired cache periodically
-- 
2.43.0


From 64390d8081b96ef92f8f00d791b796ea8c8d0e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:59 +0000
Subject: [PATCH 12/28] fix: evict resources that are never looked up after
 their delivery

The cleaner skipped entries without an access time.
---
 core/manager/manager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index ebef101..d1113e6 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -292,11 +292,14 @@ func (m *xdsResourceManager) updateMeta(rType xdsresource.ResourceType, version
 			mt.Version = version
 			mt.UpdateTime = updateTime
 		} else {
-			m.meta[rType][name] = &xdsresource.ResourceMeta{
+			mt = &xdsresource.ResourceMeta{
 				Version:        version,
 				UpdateTime:     updateTime,
 				LastAccessTime: atomic.Value{},
 			}
+			// the idle time of a resource that is never looked up starts here
+			mt.LastAccessTime.Store(updateTime)
+			m.meta[rType][name] = mt
 		}
 	}
 }
-- 
2.43.0


From 692249657cca17bffacc7376805e9f214ec541aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:22 +0000
Subject: [PATCH 13/28] fix: a resource evicted while a response is being
 applied is not cached again

The response was filtered by the subscriptions before the manager was locked;
an eviction in between left an unsubscribed entry in the cache, which was then
served without ever being updated.
---
 core/manager/client.go  | 78 ++++++++++++++++++++++++-----------------
 core/manager/manager.go |  7 ++++
 2 files changed, 52 insertions(+), 33 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 4bfebbb..cb712a9 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -470,25 +470,28 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 	// returned listener name is in the format of ${clusterIP}_${port}
 	// which should be converted into to the listener name, in the form of ${fqdn}_${port}, watched by the xds client.
 	// we need to filter the response.
-	c.mu.RLock()
-	filteredRes := make(map[string]xdsresource.Resource)
-	for n := range c.watchedResource[xdsresource.ListenerType] {
-		if c.ndsRequired() && n != xdsresource.ReservedLdsResourceName {
-			ln, err := c.getListenerName(n)
-			if err != nil || ln == "" {
-				klog.Warnf("KITEX: [XDS] get listener name %s failed, err: %v", n, err)
-				continue
-			}
-			if lis, ok := res[ln]; ok {
+	filter := func() map[string]xdsresource.Resource {
+		c.mu.RLock()
+		defer c.mu.RUnlock()
+		filteredRes := make(map[string]xdsresource.Resource)
+		for n := range c.watchedResource[xdsresource.ListenerType] {
+			if c.ndsRequired() && n != xdsresource.ReservedLdsResourceName {
+				ln, err := c.getListenerName(n)
+				if err != nil || ln == "" {
+					klog.Warnf("KITEX: [XDS] get listener name %s failed, err: %v", n, err)
+					continue
+				}
+				if lis, ok := res[ln]; ok {
+					filteredRes[n] = lis
+				}
+			} else if lis, ok := res[n]; ok {
 				filteredRes[n] = lis
 			}
-		} else if lis, ok := res[n]; ok {
-			filteredRes[n] = lis
 		}
+		return filteredRes
 	}
-	c.mu.RUnlock()
 	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.ListenerType, filteredRes, resp.GetVersionInfo())
+	c.resourceUpdater.updateResource(xdsresource.ListenerType, filter, resp.GetVersionInfo())
 
 	if c.closedInboundInitCh.CompareAndSwap(false, true) {
 		klog.Info("KITEX: [xds] receive inbound init request")
@@ -506,16 +509,19 @@ func (c *xdsClient) handleRDS(resp *discoveryv3.DiscoveryResponse) error {
 	}
 
 	// filter the resources that are not in the watched list
-	c.mu.RLock()
-	for name := range res {
-		// only accept the routeConfig that is subscribed
-		if _, ok := c.watchedResource[xdsresource.RouteConfigType][name]; !ok {
-			delete(res, name)
+	filter := func() map[string]xdsresource.Resource {
+		c.mu.RLock()
+		defer c.mu.RUnlock()
+		for name := range res {
+			// only accept the routeConfig that is subscribed
+			if _, ok := c.watchedResource[xdsresource.RouteConfigType][name]; !ok {
+				delete(res, name)
+			}
 		}
+		return res
 	}
-	c.mu.RUnlock()
 	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.RouteConfigType, res, resp.GetVersionInfo())
+	c.resourceUpdater.updateResource(xdsresource.RouteConfigType, filter, resp.GetVersionInfo())
 	return nil
 }
 
@@ -528,15 +534,18 @@ func (c *xdsClient) handleCDS(resp *discoveryv3.DiscoveryResponse) error {
 	}
 
 	// filter the resources that are not in the watched list
-	c.mu.RLock()
-	for name := range res {
-		if _, ok := c.watchedResource[xdsresource.ClusterType][name]; !ok {
-			delete(res, name)
+	filter := func() map[string]xdsresource.Resource {
+		c.mu.RLock()
+		defer c.mu.RUnlock()
+		for name := range res {
+			if _, ok := c.watchedResource[xdsresource.ClusterType][name]; !ok {
+				delete(res, name)
+			}
 		}
+		return res
 	}
-	c.mu.RUnlock()
 	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.ClusterType, res, resp.GetVersionInfo())
+	c.resourceUpdater.updateResource(xdsresource.ClusterType, filter, resp.GetVersionInfo())
 	return nil
 }
 
@@ -549,15 +558,18 @@ func (c *xdsClient) handleEDS(resp *discoveryv3.DiscoveryResponse) error {
 	}
 
 	// filter the resources that are not in the watched list
-	c.mu.RLock()
-	for name := range res {
-		if _, ok := c.watchedResource[xdsresource.EndpointsType][name]; !ok {
-			delete(res, name)
+	filter := func() map[string]xdsresource.Resource {
+		c.mu.RLock()
+		defer c.mu.RUnlock()
+		for name := range res {
+			if _, ok := c.watchedResource[xdsresource.EndpointsType][name]; !ok {
+				delete(res, name)
+			}
 		}
+		return res
 	}
-	c.mu.RUnlock()
 	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.EndpointsType, res, resp.GetVersionInfo())
+	c.resourceUpdater.updateResource(xdsresource.EndpointsType, filter, resp.GetVersionInfo())
 	return nil
 }
 
diff --git a/core/manager/manager.go b/core/manager/manager.go
index d1113e6..7982b62 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -308,9 +308,16 @@ func (m *xdsResourceManager) updateMeta(rType xdsresource.ResourceType, version
 
 // UpdateResource is invoked by client to update the cache
 func (m *xdsResourceManager) UpdateResource(rt xdsresource.ResourceType, up map[string]xdsresource.Resource, version string) {
+	m.updateResource(rt, func() map[string]xdsresource.Resource { return up }, version)
+}
+
+// updateResource updates the cache with the resources returned by filter, which runs under the lock,
+// so that the subscriptions it looks at cannot be withdrawn by the cleaner before the update is done.
+func (m *xdsResourceManager) updateResource(rt xdsresource.ResourceType, filter func() map[string]xdsresource.Resource, version string) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
 
+	up := filter()
 	// should update xds updater first, as it may affect the traffic when the
 	// policy is updated at the first time.
 	if handlers, ok := m.xdsHandlers[rt]; ok {
-- 
2.43.0


From 6f2844023267e7b82faf113fb029d216b33a4a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:22 +0000
Subject: [PATCH 14/28] fix: a partial update does not drop the policies of the
 resources it omits

The handlers got only the resources of the response, so the retry policies of
all other route tables were removed.
---
 core/manager/manager.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index 7982b62..cf87774 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -321,8 +321,19 @@ func (m *xdsResourceManager) updateResource(rt xdsresource.ResourceType, filter
 	// should update xds updater first, as it may affect the traffic when the
 	// policy is updated at the first time.
 	if handlers, ok := m.xdsHandlers[rt]; ok {
+		current := up
+		if !rt.RequireFullADSResponse() {
+			// a partial update leaves the other resources in force
+			current = make(map[string]xdsresource.Resource, len(m.cache[rt])+len(up))
+			for name, res := range m.cache[rt] {
+				current[name] = res
+			}
+			for name, res := range up {
+				current[name] = res
+			}
+		}
 		for _, handler := range handlers {
-			handler(up)
+			handler(current)
 		}
 	}
 
-- 
2.43.0


From bf435329ea900bcbb9225104c948da1ef07b9a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:22 +0000
Subject: [PATCH 15/28] fix: lookups and start-up do not hang once the client
 has stopped

After an authentication rejection nobody takes requests: the queue filled up
and the next lookup blocked forever with both locks held, and a rejection
during start-up left the warm-up waiting.
---
 core/manager/client.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index cb712a9..658675e 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -301,14 +301,22 @@ func (c *xdsClient) ldsRequired() bool {
 func (c *xdsClient) ndsWarmup() {
 	// watch the NameTable when init the xds client
 	c.Watch(xdsresource.NameTableType, "", false)
-	<-c.cipResolver.initRequestCh
+	select {
+	case <-c.cipResolver.initRequestCh:
+	case <-c.closeCh:
+		return
+	}
 	klog.Infof("KITEX: [XDS] nds, warmup done")
 }
 
 func (c *xdsClient) listenerWarmup() {
 	// watch the Listener when init the xds client, it is used for inbound side.
 	c.Watch(xdsresource.ListenerType, xdsresource.ReservedLdsResourceName, false)
-	<-c.inboundInitRequestCh
+	select {
+	case <-c.inboundInitRequestCh:
+	case <-c.closeCh:
+		return
+	}
 	klog.Infof("KITEX: [XDS] lds, warmup done")
 }
 
@@ -330,6 +338,8 @@ func (c *xdsClient) run() {
 	as, err := c.connect()
 	if err != nil {
 		klog.Errorf("[XDS] client, failed to connect the xDS Server, error=%s", err.Error())
+		// there is no sender and no receiver
+		c.close()
 		return
 	}
 
@@ -403,8 +413,11 @@ func (c *xdsClient) reqWhenReconnect(as ADSStream) error {
 }
 
 func (c *xdsClient) sendRequest(req *discoveryv3.DiscoveryRequest) {
-	// put the req to the channel
-	c.reqCh <- req
+	// put the req to the channel, nobody takes it anymore once the client is closed
+	select {
+	case c.reqCh <- req:
+	case <-c.closeCh:
+	}
 }
 
 func (c *xdsClient) resolveAddr(host string) string {
-- 
2.43.0


From 3440ff5b0e7d83ddb72634a5c0ce300d7e36a26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:22 +0000
Subject: [PATCH 16/28] fix: a stalled stream does not block lookups during a
 reconnect

The requests for the new stream were sent with the client locked; a lookup
that missed then waited for the stream instead of its own deadline.
---
 core/manager/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 658675e..c1a99d1 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -401,9 +401,13 @@ func (c *xdsClient) reconnect() (ADSStream, error) {
 func (c *xdsClient) reqWhenReconnect(as ADSStream) error {
 	// send new requests for all watched resources when reqWhenReconnect
 	c.mu.Lock()
-	defer c.mu.Unlock()
+	reqs := make([]*discoveryv3.DiscoveryRequest, 0, len(c.watchedResource))
 	for rType, res := range c.watchedResource {
-		req := c.prepareRequest(rType, c.versionMap[rType], c.nonceMap[rType], res)
+		reqs = append(reqs, c.prepareRequest(rType, c.versionMap[rType], c.nonceMap[rType], res))
+	}
+	c.mu.Unlock()
+	// do not hold the lock while sending, lookups would wait for the stream
+	for _, req := range reqs {
 		if err := as.Send(req); err != nil {
 			// return err if send failed
 			return err
-- 
2.43.0


From 54e843ec533fd5244732ece0ec96c5456a51a346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:22 +0000
Subject: [PATCH 17/28] fix: bind listeners by the current name table

A name table that arrives after the listeners was not taken into account until
the next listener response: names were bound to the listener of the old
address, and names new in the table to none.
---
 core/manager/client.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index c1a99d1..96e4e98 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -114,6 +114,11 @@ type xdsClient struct {
 	// "kitex-server.default.svc.cluster.local" -> "10.0.0.1"
 	cipResolver *ndsResolver
 
+	// listeners is the content of the last accepted lds response, only used by the receiver.
+	// It is bound again to the watched names when the name table changes.
+	listeners       map[string]*xdsresource.ListenerResource
+	listenerVersion string
+
 	// versionMap stores the versions of different resource type.
 	versionMap map[xdsresource.ResourceType]string
 	// nonceMap stores the nonce of the recent response.
@@ -484,6 +489,19 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 		return err
 	}
 
+	c.listeners, c.listenerVersion = res, resp.GetVersionInfo()
+	c.updateListeners()
+
+	if c.closedInboundInitCh.CompareAndSwap(false, true) {
+		klog.Info("KITEX: [xds] receive inbound init request")
+		close(c.inboundInitRequestCh)
+	}
+	return nil
+}
+
+// updateListeners binds the watched names to the listeners of the last lds response.
+func (c *xdsClient) updateListeners() {
+	res := c.listeners
 	// returned listener name is in the format of ${clusterIP}_${port}
 	// which should be converted into to the listener name, in the form of ${fqdn}_${port}, watched by the xds client.
 	// we need to filter the response.
@@ -508,13 +526,7 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 		return filteredRes
 	}
 	// update to cache
-	c.resourceUpdater.updateResource(xdsresource.ListenerType, filter, resp.GetVersionInfo())
-
-	if c.closedInboundInitCh.CompareAndSwap(false, true) {
-		klog.Info("KITEX: [xds] receive inbound init request")
-		close(c.inboundInitRequestCh)
-	}
-	return nil
+	c.resourceUpdater.updateResource(xdsresource.ListenerType, filter, c.listenerVersion)
 }
 
 // handleRDS handles the rds response
@@ -597,6 +609,10 @@ func (c *xdsClient) handleNDS(resp *discoveryv3.DiscoveryResponse) error {
 		return err
 	}
 	c.cipResolver.updateLookupTable(nt.NameTable)
+	if c.listeners != nil {
+		// the names may designate other listeners now
+		c.updateListeners()
+	}
 	return err
 }
 
-- 
2.43.0


From 2f48cf3fbfbcb55a229b48fcbd42487cf162980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:22 +0000
Subject: [PATCH 18/28] fix: ignore the case of the hosts in the name table and
 of the configured namespace

---
 core/manager/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 96e4e98..1e4d4f6 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -95,7 +95,11 @@ func (r *ndsResolver) updateLookupTable(up map[string][]string) {
 		close(r.initRequestCh)
 		r.closed = true
 	}
-	r.lookupTable = up
+	// hosts are looked up in lower case
+	r.lookupTable = make(map[string][]string, len(up))
+	for host, ips := range up {
+		r.lookupTable[strings.ToLower(host)] = ips
+	}
 }
 
 // xdsClient communicates with the control plane to perform xds resource discovery.
@@ -442,7 +446,7 @@ func (c *xdsClient) resolveAddr(host string) string {
 	// 4. service with more than 4 parts, such as dubbo interface org.cloudwego.kitex.samples.api.greetprovider, invoke twice always.
 	// FIXME: format as <serviceName>.<namespace> is not supported.
 	// TODO: if it leads to performance issue, use cache to improve it.
-	fqdn := c.config.tryExpandFQDN(host)
+	fqdn := strings.ToLower(c.config.tryExpandFQDN(host))
 	cip, ok := c.cipResolver.lookupHost(fqdn)
 	if ok && len(cip) > 0 {
 		return cip[0]
-- 
2.43.0


From 3caf26eeddec84325879cf04e18b1f045013e93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:22 +0000
Subject: [PATCH 19/28] fix: add the pod IP to INSTANCE_IPS unless it is an
 element of the list

Any address containing it as a substring (10.0.0.10 and 10.0.0.1) was enough to
leave it out.
---
 core/manager/bootstrap.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/manager/bootstrap.go b/core/manager/bootstrap.go
index e96fd75..5dad9cc 100644
--- a/core/manager/bootstrap.go
+++ b/core/manager/bootstrap.go
@@ -117,7 +117,7 @@ func parseMetaEnvs(envs, istioVersion, podIP string) *structpb.Struct {
 		existips := ips.GetStringValue()
 		if existips == "" {
 			existips = podIP
-		} else if !strings.Contains(existips, podIP) {
+		} else if !containsIP(existips, podIP) {
 			existips = existips + "," + podIP
 		}
 		pbmeta.Fields[IstioMetaInstanceIPs] = &structpb.Value{
@@ -127,6 +127,16 @@ func parseMetaEnvs(envs, istioVersion, podIP string) *structpb.Struct {
 	return pbmeta
 }
 
+// containsIP checks if ip is an element of the comma separated list.
+func containsIP(ips, ip string) bool {
+	for _, s := range strings.Split(ips, ",") {
+		if strings.TrimSpace(s) == ip {
+			return true
+		}
+	}
+	return false
+}
+
 func nodeId(podIP, podName, namespace, nodeDomain string) string {
 	//"sidecar~" + podIP + "~" + podName + "." + namespace + "~" + namespace + ".svc." + domain,
 	return fmt.Sprintf("sidecar~%s~%s.%s~%s.svc.%s", podIP, podName, namespace, namespace, nodeDomain)
-- 
2.43.0


From 5d3e94d540f6ad07fdc36800aa52cb379c473e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:22 +0000
Subject: [PATCH 20/28] fix: a limit changed while the server starts reaches
 its limiter

An update between the first push to the limiter and its registration was lost.
---
 xdssuite/limiter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xdssuite/limiter.go b/xdssuite/limiter.go
index c0ec63e..50083dc 100644
--- a/xdssuite/limiter.go
+++ b/xdssuite/limiter.go
@@ -18,6 +18,7 @@ package xdssuite
 
 import (
 	"math"
+	"sync"
 	"sync/atomic"
 
 	"github.com/cloudwego/kitex/pkg/klog"
@@ -62,6 +63,7 @@ func getLimiterPolicy(up map[string]xdsresource.Resource) map[uint32]uint32 {
 }
 
 type limiter struct {
+	mu      sync.Mutex // guards opt and the calls of the updater
 	updater atomic.Value
 	opt     *limit.Option
 	port    uint32
@@ -71,6 +73,8 @@ func (l *limiter) updateHandler(changed *limit.Option) {
 	if changed == nil {
 		return
 	}
+	l.mu.Lock()
+	defer l.mu.Unlock()
 	l.opt.MaxConnections = changed.MaxConnections
 	l.opt.MaxQPS = changed.MaxQPS
 	u := l.updater.Load()
@@ -116,6 +120,8 @@ func NewLimiter(opts ...Option) server.Option {
 	}
 
 	l.opt.UpdateControl = func(u limit.Updater) {
+		l.mu.Lock()
+		defer l.mu.Unlock()
 		u.UpdateLimit(l.opt)
 		l.updater.Store(u)
 	}
-- 
2.43.0


From 39c0891577237c99de8784bf9703f94bb1f7eb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:22 +0000
Subject: [PATCH 21/28] fix: decode every resource of a name-table response

Resources after the first one were neither decoded nor checked.
---
 core/xdsresource/nds.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/core/xdsresource/nds.go b/core/xdsresource/nds.go
index 008591f..1d2407b 100644
--- a/core/xdsresource/nds.go
+++ b/core/xdsresource/nds.go
@@ -33,17 +33,18 @@ func UnmarshalNDS(rawResources []*anypb.Any) (*NDSResource, error) {
 	if len(rawResources) < 1 {
 		return nil, fmt.Errorf("no NDS resource found in the response")
 	}
-	r := rawResources[0]
-	if r.GetTypeUrl() != NameTableTypeURL {
-		return nil, fmt.Errorf("invalid nameTable resource type: %s", r.GetTypeUrl())
-	}
-	nt := &dnsProto.NameTable{}
-	if err := proto.Unmarshal(r.GetValue(), nt); err != nil {
-		return nil, fmt.Errorf("unmarshal NameTable failed: %s", err)
-	}
 	res := make(map[string][]string)
-	for k, v := range nt.Table {
-		res[k] = v.Ips
+	for _, r := range rawResources {
+		if r.GetTypeUrl() != NameTableTypeURL {
+			return nil, fmt.Errorf("invalid nameTable resource type: %s", r.GetTypeUrl())
+		}
+		nt := &dnsProto.NameTable{}
+		if err := proto.Unmarshal(r.GetValue(), nt); err != nil {
+			return nil, fmt.Errorf("unmarshal NameTable failed: %s", err)
+		}
+		for k, v := range nt.Table {
+			res[k] = v.Ips
+		}
 	}
 
 	return &NDSResource{
-- 
2.43.0


From 4304a464a0d0bf8f59ca305d216a66c8bfbf0432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:22 +0000
Subject: [PATCH 22/28] fix: keep every header condition of a route

Of several conditions on one header only the last was kept, and an exact match
of the empty value was dropped, so that routes matched calls they must not match.
---
 core/xdsresource/matcher.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/core/xdsresource/matcher.go b/core/xdsresource/matcher.go
index cbd56ef..61366f5 100644
--- a/core/xdsresource/matcher.go
+++ b/core/xdsresource/matcher.go
@@ -45,6 +45,18 @@ func (rm *RegexMatcher) Match(other string) bool {
 	return rm.re.MatchString(other)
 }
 
+// allMatcher matches if all of its matchers do.
+type allMatcher []Matcher
+
+func (am allMatcher) Match(other string) bool {
+	for _, m := range am {
+		if !m.Match(other) {
+			return false
+		}
+	}
+	return true
+}
+
 type Matcher interface {
 	Match(string) bool
 }
@@ -63,17 +75,22 @@ func (ms Matchers) Match(other map[string]string) bool {
 // BuildMatchers build matcher set from headers
 func BuildMatchers(headers []*v3.HeaderMatcher) Matchers {
 	ms := map[string]Matcher{}
+	add := func(name string, m Matcher) {
+		if prev, ok := ms[name]; ok {
+			// several conditions on one header must all hold
+			m = allMatcher{prev, m}
+		}
+		ms[name] = m
+	}
 	for _, header := range headers {
 		switch hm := header.GetHeaderMatchSpecifier().(type) {
 		case *v3.HeaderMatcher_StringMatch:
 			switch p := hm.StringMatch.GetMatchPattern().(type) {
 			case *v3matcher.StringMatcher_Exact:
-				if p.Exact != "" {
-					ms[header.Name] = ExactMatcher(p.Exact)
-				}
+				add(header.Name, ExactMatcher(p.Exact))
 			case *v3matcher.StringMatcher_Prefix:
 				if p.Prefix != "" {
-					ms[header.Name] = PrefixMatcher(p.Prefix)
+					add(header.Name, PrefixMatcher(p.Prefix))
 				}
 			case *v3matcher.StringMatcher_SafeRegex:
 				// only support google re2
@@ -83,9 +100,9 @@ func BuildMatchers(headers []*v3.HeaderMatcher) Matchers {
 						klog.Warnf("KITEX: [XDS] compile regexp %s failed when BuildMatchers,  err:", p.SafeRegex.Regex, err)
 						continue
 					}
-					ms[header.Name] = &RegexMatcher{
+					add(header.Name, &RegexMatcher{
 						re: re2,
-					}
+					})
 				}
 			}
 		}
-- 
2.43.0


From de2a12af1c1fe2f7197cef1348cb69e9ad599eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:22 +0000
Subject: [PATCH 23/28] fix: a route with a header condition that cannot be
 compiled does not match

The condition was ignored, so that the route matched every call.
---
 core/xdsresource/matcher.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/xdsresource/matcher.go b/core/xdsresource/matcher.go
index 61366f5..7d65ce7 100644
--- a/core/xdsresource/matcher.go
+++ b/core/xdsresource/matcher.go
@@ -57,6 +57,11 @@ func (am allMatcher) Match(other string) bool {
 	return true
 }
 
+// neverMatcher is a condition that cannot be evaluated.
+type neverMatcher struct{}
+
+func (neverMatcher) Match(string) bool { return false }
+
 type Matcher interface {
 	Match(string) bool
 }
@@ -97,7 +102,9 @@ func BuildMatchers(headers []*v3.HeaderMatcher) Matchers {
 				if p.SafeRegex != nil && p.SafeRegex.Regex != "" {
 					re2, err := regexp.Compile(p.SafeRegex.Regex)
 					if err != nil {
-						klog.Warnf("KITEX: [XDS] compile regexp %s failed when BuildMatchers,  err:", p.SafeRegex.Regex, err)
+						klog.Warnf("KITEX: [XDS] compile regexp %s failed when BuildMatchers,  err: %v", p.SafeRegex.Regex, err)
+						// the condition never holds
+						add(header.Name, neverMatcher{})
 						continue
 					}
 					add(header.Name, &RegexMatcher{
-- 
2.43.0


From 13bf0e46a411b549ed4e0a6c4e8f0ffb1bc68925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:22 +0000
Subject: [PATCH 24/28] fix: check the destination for nil before using it

---
 xdssuite/router.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xdssuite/router.go b/xdssuite/router.go
index da642ee..00b63e5 100644
--- a/xdssuite/router.go
+++ b/xdssuite/router.go
@@ -44,15 +44,15 @@ func NewXDSRouterMiddleware(opts ...Option) endpoint.Middleware {
 	return func(next endpoint.Endpoint) endpoint.Endpoint {
 		return func(ctx context.Context, request, response interface{}) error {
 			ri := rpcinfo.GetRPCInfo(ctx)
-			_, exist := ri.To().Tag(RouterClusterKey)
-			if exist {
-				return next(ctx, request, response)
-			}
-
 			dest := ri.To()
 			if dest == nil {
 				return kerrors.ErrNoDestService
 			}
+			_, exist := dest.Tag(RouterClusterKey)
+			if exist {
+				return next(ctx, request, response)
+			}
+
 			res, err := router.Route(ctx, ri)
 			if err != nil {
 				return kerrors.ErrRoute.WithCause(err)
-- 
2.43.0


From 630f786ce0bc77f8404c200bebf2ca0ba431d7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 25/28] fix: drop the requests queued before the stream is
 requested anew

---
 core/manager/client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/manager/client.go b/core/manager/client.go
index 1e4d4f6..7e528fb 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -414,6 +414,8 @@ func (c *xdsClient) reqWhenReconnect(as ADSStream) error {
 	for rType, res := range c.watchedResource {
 		reqs = append(reqs, c.prepareRequest(rType, c.versionMap[rType], c.nonceMap[rType], res))
 	}
+	// the queued requests are older than these
+	clearRequestCh(c.reqCh, len(c.reqCh))
 	c.mu.Unlock()
 	// do not hold the lock while sending, lookups would wait for the stream
 	for _, req := range reqs {
-- 
2.43.0


From c1be2dcd66e9b9892c71e733a2b271b8cf8b7e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:42 +0000
Subject: [PATCH 26/28] fix: updates do not write to the limit option the
 server reads

---
 xdssuite/limiter.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xdssuite/limiter.go b/xdssuite/limiter.go
index 50083dc..bf9c5dd 100644
--- a/xdssuite/limiter.go
+++ b/xdssuite/limiter.go
@@ -127,5 +127,9 @@ func NewLimiter(opts ...Option) server.Option {
 	}
 
 	m.RegisterXDSUpdateHandler(xdsresource.ListenerType, l.listenerUpdater)
-	return server.WithLimit(l.opt)
+	// the server reads its option without the lock, the updates must not write to it.
+	l.mu.Lock()
+	opt := *l.opt
+	l.mu.Unlock()
+	return server.WithLimit(&opt)
 }
-- 
2.43.0


From 5fddc8d89afbbb720ac0dec03a06cfb8808f6562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:04 +0000
Subject: [PATCH 27/28] fix: do not block lookups while the stream takes no
 requests

With Send stalled, the 1025th request was put to the full channel with the
client's and the manager's locks held: every lookup, even of cached
resources, waited for the stream.
---
 core/manager/client.go | 53 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 7e528fb..e637a14 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -134,6 +134,9 @@ type xdsClient struct {
 	reqCh          chan *discoveryv3.DiscoveryRequest
 	connectBackoff backoff.BackOff
 
+	// pendingReqs are the requests that follow those in reqCh, if it is full.
+	pendingReqs []*discoveryv3.DiscoveryRequest
+
 	// resourceUpdater is used to update the resource update to the cache.
 	resourceUpdater *xdsResourceManager
 
@@ -243,6 +246,7 @@ func (c *xdsClient) sender(as ADSStream) {
 				continue
 			}
 		case req := <-c.reqCh:
+			c.sendPendingRequests()
 			if currStream != nil {
 				err := currStream.Send(req)
 				if err != nil {
@@ -398,7 +402,7 @@ func (c *xdsClient) reconnect() (ADSStream, error) {
 	// reset nonce map and request
 	c.mu.Lock()
 	c.nonceMap = make(map[xdsresource.ResourceType]string)
-	clearRequestCh(c.reqCh, len(c.reqCh))
+	c.clearRequests()
 	c.mu.Unlock()
 
 	// notify others to use the new stream
@@ -415,7 +419,7 @@ func (c *xdsClient) reqWhenReconnect(as ADSStream) error {
 		reqs = append(reqs, c.prepareRequest(rType, c.versionMap[rType], c.nonceMap[rType], res))
 	}
 	// the queued requests are older than these
-	clearRequestCh(c.reqCh, len(c.reqCh))
+	c.clearRequests()
 	c.mu.Unlock()
 	// do not hold the lock while sending, lookups would wait for the stream
 	for _, req := range reqs {
@@ -427,12 +431,49 @@ func (c *xdsClient) reqWhenReconnect(as ADSStream) error {
 	return nil
 }
 
+// sendRequest puts the request to the channel, c.mu is held.
+// It never waits for the sender: if the stream is stalled, lookups would wait as well.
 func (c *xdsClient) sendRequest(req *discoveryv3.DiscoveryRequest) {
-	// put the req to the channel, nobody takes it anymore once the client is closed
-	select {
-	case c.reqCh <- req:
-	case <-c.closeCh:
+	if len(c.pendingReqs) == 0 {
+		select {
+		case c.reqCh <- req:
+			return
+		default:
+		}
+	}
+	// a request takes the place of the previous one of its type if it answers the same response
+	for i := len(c.pendingReqs) - 1; i >= 0; i-- {
+		p := c.pendingReqs[i]
+		if p.TypeUrl != req.TypeUrl {
+			continue
+		}
+		if p.ResponseNonce == req.ResponseNonce && p.ErrorDetail == nil && req.ErrorDetail == nil {
+			c.pendingReqs[i] = req
+			return
+		}
+		break
 	}
+	c.pendingReqs = append(c.pendingReqs, req)
+}
+
+// sendPendingRequests puts the pending requests to the channel as long as there is room.
+func (c *xdsClient) sendPendingRequests() {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	for len(c.pendingReqs) > 0 {
+		select {
+		case c.reqCh <- c.pendingReqs[0]:
+			c.pendingReqs = c.pendingReqs[1:]
+		default:
+			return
+		}
+	}
+}
+
+// clearRequests drops the requests which were not sent, c.mu is held.
+func (c *xdsClient) clearRequests() {
+	clearRequestCh(c.reqCh, len(c.reqCh))
+	c.pendingReqs = nil
 }
 
 func (c *xdsClient) resolveAddr(host string) string {
-- 
2.43.0


From a730fd4ca645d14639dd8b02b4b746a70838d3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:32 +0000
Subject: [PATCH 28/28] fix: keep a name subscribed while lookups wait for it

The cleaner withdrew the subscription of a name which the control plane had
removed even if lookups, with a fetch timeout above the expiry period, were
waiting for it; later lookups joined them without subscribing again.
---
 core/manager/manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index cf87774..58ad14a 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -235,6 +235,10 @@ func (m *xdsResourceManager) cleaner() {
 					if !ok {
 						continue
 					}
+					// lookups are waiting for it, it was removed by the control plane
+					if _, waiting := m.notifierMap[rt][rName]; waiting {
+						continue
+					}
 					// should not delete the reserved resource
 					if !isReservedResource(rt, rName) && time.Since(t) > defaultCacheExpireTime {
 						delete(m.meta[rt], rName)
-- 
2.43.0

