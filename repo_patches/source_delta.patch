From 5750a07d6473969225a1ad603120dcf75d12fcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:30 +0000
Subject: [PATCH 01/27] fix: count the instance domain section of the contents
 table whenever there is an instance domain

tocCount announced the instance domain section only when there were
instances, writeTocBlock wrote it whenever there were instance domains: an
instance domain without instances made Start panic with a negative WaitGroup
counter.
---
 client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 282efe3..2e07645 100644
--- a/client.go
+++ b/client.go
@@ -159,8 +159,12 @@ func (c *PCPClient) SetFlag(flag MMVFlag) error {
 func (c *PCPClient) tocCount() int {
 	ans := 2
 
+	if c.r.InstanceDomainCount() > 0 {
+		ans++
+	}
+
 	if c.r.InstanceCount() > 0 {
-		ans += 2
+		ans++
 	}
 
 	if c.r.StringCount() > 0 {
-- 
2.43.0


From 6b38b9eff03c6302aa1cbb493f22d52bc7453bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 02/27] fix: do not let the dimension of the unit constants
 leak into composed units

---
 metrics.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metrics.go b/metrics.go
index cb55701..948b7c8 100644
--- a/metrics.go
+++ b/metrics.go
@@ -169,7 +169,8 @@ func (m *metricUnit) Space(s SpaceUnit, dimension int8) MetricUnit {
 		panic("dimension has to be between -8 and 7 inclusive")
 	}
 
-	m.repr |= uint32(s)
+	// the unit constants carry dimension 1, which must not leak into the result
+	m.repr |= uint32(s) &^ (0xF << 28)
 	m.repr |= (uint32(dimension) & 0xF) << 28
 	return m
 }
@@ -180,7 +181,8 @@ func (m *metricUnit) Time(t TimeUnit, dimension int8) MetricUnit {
 		panic("dimension has to be between -8 and 7 inclusive")
 	}
 
-	m.repr |= uint32(t)
+	// the unit constants carry dimension 1, which must not leak into the result
+	m.repr |= uint32(t) &^ (0xF << 24)
 	m.repr |= (uint32(dimension) & 0xF) << 24
 	return m
 }
@@ -191,7 +193,8 @@ func (m *metricUnit) Count(c CountUnit, dimension int8) MetricUnit {
 		panic("dimension has to be between -8 and 7 inclusive")
 	}
 
-	m.repr |= uint32(c)
+	// the unit constants carry dimension 1, which must not leak into the result
+	m.repr |= uint32(c) &^ (0xF << 20)
 	m.repr |= (uint32(dimension) & 0xF) << 20
 	return m
 }
-- 
2.43.0


From 0afcaf92fef83e9539be30bf4206444d162889c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:54 +0000
Subject: [PATCH 03/27] fix: report the bounds of a histogram the right way
 round

High returned the lowest trackable value and Low the highest.
---
 metrics.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics.go b/metrics.go
index 948b7c8..6925343 100644
--- a/metrics.go
+++ b/metrics.go
@@ -1448,10 +1448,10 @@ func NewPCPHistogram(name string, low, high int64, sigfigures int, unit MetricUn
 }
 
 // High returns the maximum recordable value.
-func (h *PCPHistogram) High() int64 { return h.h.LowestTrackableValue() }
+func (h *PCPHistogram) High() int64 { return h.h.HighestTrackableValue() }
 
 // Low returns the minimum recordable value.
-func (h *PCPHistogram) Low() int64 { return h.h.HighestTrackableValue() }
+func (h *PCPHistogram) Low() int64 { return h.h.LowestTrackableValue() }
 
 // Max returns the maximum recorded value so far.
 func (h *PCPHistogram) Max() int64 {
-- 
2.43.0


From 5a344c9ad0c12a443e259f4b5fa448bf2bf88f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 04/27] fix: lock the histogram while reading percentiles and
 buckets

Both raced with a concurrent Record.
---
 metrics.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metrics.go b/metrics.go
index 6925343..e40acfd 100644
--- a/metrics.go
+++ b/metrics.go
@@ -1562,7 +1562,11 @@ func (h *PCPHistogram) Variance() float64 {
 }
 
 // Percentile returns the value at the passed percentile.
-func (h *PCPHistogram) Percentile(p float64) int64 { return h.h.ValueAtQuantile(p) }
+func (h *PCPHistogram) Percentile(p float64) int64 {
+	h.mutex.RLock()
+	defer h.mutex.RUnlock()
+	return h.h.ValueAtQuantile(p)
+}
 
 // HistogramBucket is a single histogram bucket within a fixed range.
 type HistogramBucket struct {
@@ -1571,7 +1575,10 @@ type HistogramBucket struct {
 
 // Buckets returns a list of histogram buckets.
 func (h *PCPHistogram) Buckets() []*HistogramBucket {
+	h.mutex.RLock()
 	b := h.h.Distribution()
+	h.mutex.RUnlock()
+
 	buckets := make([]*HistogramBucket, len(b))
 	for i := 0; i < len(b); i++ {
 		buckets[i] = &HistogramBucket{b[i].From, b[i].To, b[i].Count}
-- 
2.43.0


From 1535e4ad8ca20c4317b2b4ca24f15c73389ab783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:01 +0000
Subject: [PATCH 05/27] fix: leave no instance domain behind when a metric
 cannot be added by its string

AddMetricByString registered the instance domain before it knew whether the
metric itself could be constructed and registered.
---
 registry.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/registry.go b/registry.go
index 1d66249..3431bbd 100644
--- a/registry.go
+++ b/registry.go
@@ -295,7 +295,8 @@ func (r *PCPRegistry) addInstanceMetricByString(name string, val interface{}, in
 	)
 
 	if !r.HasInstanceDomain(indom) {
-		id, err = r.AddInstanceDomainByName(indom, instances)
+		// it is registered along with the metric, if that can be registered
+		id, err = NewPCPInstanceDomain(indom, instances)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 83b86c31df394e67a8ab335816ea31fc986884ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:29 +0000
Subject: [PATCH 06/27] fix: serialize registrations with each other and with
 Start and Stop

Two registrations of the same name could both pass the check for it, and a
registration running concurrently with Start changed the counts and maps that
Start was writing from (corrupt file, panic or deadlock).
---
 client.go   |  9 ++++++++-
 registry.go | 48 +++++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 51 insertions(+), 6 deletions(-)

diff --git a/client.go b/client.go
index 2e07645..0481f81 100644
--- a/client.go
+++ b/client.go
@@ -181,7 +181,7 @@ func (c *PCPClient) Length() int {
 		MetricLength   = Metric1Length
 	)
 
-	if c.r.version2 {
+	if c.r.usesVersion2() {
 		InstanceLength = Instance2Length
 		MetricLength = Metric2Length
 	}
@@ -200,6 +200,10 @@ func (c *PCPClient) Start() error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
+	// what is registered must not change while it is written
+	c.r.mutex.Lock()
+	defer c.r.mutex.Unlock()
+
 	l := c.Length()
 
 	writer, err := bytewriter.NewMemoryMappedWriter(c.loc, l)
@@ -632,6 +636,9 @@ func (c *PCPClient) Stop() error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
+	c.r.mutex.Lock()
+	defer c.r.mutex.Unlock()
+
 	if !c.r.mapped {
 		return errors.New("trying to stop an already stopped mapping")
 	}
diff --git a/registry.go b/registry.go
index 3431bbd..81f70c7 100644
--- a/registry.go
+++ b/registry.go
@@ -50,6 +50,7 @@ type PCPRegistry struct {
 	metrics         map[string]PCPMetric          // a cache for metrics
 
 	// locks
+	mutex       sync.Mutex // serializes registrations with each other and with changes of the mapping
 	indomlock   sync.RWMutex
 	metricslock sync.RWMutex
 
@@ -102,17 +103,33 @@ func (r *PCPRegistry) MetricCount() int {
 }
 
 // ValuesCount returns the number of values in the registry
-func (r *PCPRegistry) ValuesCount() int { return r.valueCount }
+func (r *PCPRegistry) ValuesCount() int {
+	r.metricslock.RLock()
+	defer r.metricslock.RUnlock()
+
+	return r.valueCount
+}
 
 // StringCount returns the number of strings in the registry
 func (r *PCPRegistry) StringCount() int {
+	r.metricslock.RLock()
+	defer r.metricslock.RUnlock()
+
 	if r.version2 {
-		return r.stringcount + r.MetricCount() + r.InstanceCount()
+		return r.stringcount + len(r.metrics) + r.InstanceCount()
 	}
 
 	return r.stringcount
 }
 
+// usesVersion2 returns true if the registry needs mmv version 2
+func (r *PCPRegistry) usesVersion2() bool {
+	r.metricslock.RLock()
+	defer r.metricslock.RUnlock()
+
+	return r.version2
+}
+
 // HasInstanceDomain returns true if the registry already has an indom of the specified name
 func (r *PCPRegistry) HasInstanceDomain(name string) bool {
 	r.indomlock.RLock()
@@ -133,10 +150,20 @@ func (r *PCPRegistry) HasMetric(name string) bool {
 
 // AddInstanceDomain will add a new instance domain to the current registry
 func (r *PCPRegistry) AddInstanceDomain(indom InstanceDomain) error {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+
+	return r.addInstanceDomain(indom)
+}
+
+func (r *PCPRegistry) addInstanceDomain(indom InstanceDomain) error {
 	if r.HasInstanceDomain(indom.Name()) {
 		return errors.New("InstanceDomain is already defined for the current registry")
 	}
 
+	r.metricslock.Lock()
+	defer r.metricslock.Unlock()
+
 	r.indomlock.Lock()
 	defer r.indomlock.Unlock()
 
@@ -194,6 +221,14 @@ func (r *PCPRegistry) addMetric(m PCPMetric) {
 
 // AddMetric will add a new metric to the current registry
 func (r *PCPRegistry) AddMetric(m Metric) error {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+
+	return r.addCheckedMetric(m)
+}
+
+// addCheckedMetric adds a metric after making sure that it can be added
+func (r *PCPRegistry) addCheckedMetric(m Metric) error {
 	if r.mapped {
 		return errors.New("cannot add a metric when a mapping is active")
 	}
@@ -206,7 +241,7 @@ func (r *PCPRegistry) AddMetric(m Metric) error {
 
 	// if it is an indom metric
 	if pcpm.Indom() != nil && !r.HasInstanceDomain(pcpm.Indom().Name()) {
-		err := r.AddInstanceDomain(pcpm.Indom())
+		err := r.addInstanceDomain(pcpm.Indom())
 		if err != nil {
 			return err
 		}
@@ -274,7 +309,7 @@ func (r *PCPRegistry) addSingletonMetricByString(name string, val interface{}, t
 		return nil, err
 	}
 
-	err = r.AddMetric(m)
+	err = r.addCheckedMetric(m)
 	if err != nil {
 		return nil, err
 	}
@@ -311,7 +346,7 @@ func (r *PCPRegistry) addInstanceMetricByString(name string, val interface{}, in
 		return nil, err
 	}
 
-	err = r.AddMetric(m)
+	err = r.addCheckedMetric(m)
 	if err != nil {
 		return nil, err
 	}
@@ -326,6 +361,9 @@ func (r *PCPRegistry) AddMetricByString(str string, val interface{}, t MetricTyp
 		return nil, err
 	}
 
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+
 	if instances == nil {
 		return r.addSingletonMetricByString(metric, val, t, s, u)
 	}
-- 
2.43.0


From f4b255c2eeedc991aa3c29ffd0e601cd2f1ddb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:31 +0000
Subject: [PATCH 07/27] fix: refuse metrics and instance domains of types that
 cannot be written

Start waited forever for the goroutine of a metric of another type, and
registering other implementations of Metric or InstanceDomain panicked.
---
 registry.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/registry.go b/registry.go
index 81f70c7..cce97c4 100644
--- a/registry.go
+++ b/registry.go
@@ -161,6 +161,10 @@ func (r *PCPRegistry) addInstanceDomain(indom InstanceDomain) error {
 		return errors.New("InstanceDomain is already defined for the current registry")
 	}
 
+	if _, ok := indom.(*PCPInstanceDomain); !ok {
+		return errors.Errorf("an instance domain of type %T cannot be written", indom)
+	}
+
 	r.metricslock.Lock()
 	defer r.metricslock.Unlock()
 
@@ -237,7 +241,14 @@ func (r *PCPRegistry) addCheckedMetric(m Metric) error {
 		return errors.New("metric is already defined for the current registry")
 	}
 
-	pcpm := m.(PCPMetric)
+	var pcpm PCPMetric
+	switch metric := m.(type) {
+	case *PCPSingletonMetric, *PCPCounter, *PCPGauge, *PCPTimer,
+		*PCPInstanceMetric, *PCPCounterVector, *PCPGaugeVector, *PCPHistogram:
+		pcpm = metric.(PCPMetric)
+	default:
+		return errors.Errorf("a metric of type %T cannot be written", m)
+	}
 
 	// if it is an indom metric
 	if pcpm.Indom() != nil && !r.HasInstanceDomain(pcpm.Indom().Name()) {
-- 
2.43.0


From 35316781e21874f5592baef063d1dcac6a4f096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:34 +0000
Subject: [PATCH 08/27] fix: match instances as sets

[x, x] matched an instance domain with the instances x and y, and did not
match the one it had itself created.
---
 instance_domain.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/instance_domain.go b/instance_domain.go
index fe4b42d..7d30393 100644
--- a/instance_domain.go
+++ b/instance_domain.go
@@ -101,17 +101,16 @@ func (indom *PCPInstanceDomain) Instances() []string {
 // MatchInstances returns true if the passed InstanceDomain
 // has exactly the same instances as the passed array
 func (indom *PCPInstanceDomain) MatchInstances(ins []string) bool {
-	if len(ins) != len(indom.instances) {
-		return false
-	}
+	present := make(map[string]bool)
 
 	for _, i := range ins {
 		if _, ok := indom.instances[i]; !ok {
 			return false
 		}
+		present[i] = true
 	}
 
-	return true
+	return len(present) == len(indom.instances)
 }
 
 // Description returns the description for PCPInstanceDomain
-- 
2.43.0


From 228430990f494c51566364ec0a6ae6f9ab4ad510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 09/27] fix: refer to the instances of the registered instance
 domain

A metric whose instance domain was another object than the registered one of
the same name was written with instance offset 0; one with different
instances is now refused.
---
 client.go   | 4 ++--
 registry.go | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 0481f81..fc4bcf6 100644
--- a/client.go
+++ b/client.go
@@ -543,7 +543,7 @@ func (c *PCPClient) writeInstanceMetric(m *pcpInstanceMetric) {
 		wg.Done()
 	}()
 
-	for name, i := range m.indom.instances {
+	for name := range m.indom.instances {
 		off := <-c.valueoffsetc
 		c.valueoffsetc <- off + ValueLength
 
@@ -553,7 +553,7 @@ func (c *PCPClient) writeInstanceMetric(m *pcpInstanceMetric) {
 		}(m.vals[name], off)
 
 		off = c.writer.MustWriteInt64(int64(doff), off+MaxDataValueSize)
-		_ = c.writer.MustWriteInt64(int64(i.offset), off)
+		_ = c.writer.MustWriteInt64(int64(c.r.instanceDomains[m.indom.name].instances[name].offset), off)
 	}
 
 	wg.Wait()
diff --git a/registry.go b/registry.go
index cce97c4..740b43e 100644
--- a/registry.go
+++ b/registry.go
@@ -250,6 +250,12 @@ func (r *PCPRegistry) addCheckedMetric(m Metric) error {
 		return errors.Errorf("a metric of type %T cannot be written", m)
 	}
 
+	// the values are written under the instances of the registered indom
+	if pcpm.Indom() != nil && r.HasInstanceDomain(pcpm.Indom().Name()) &&
+		!r.instanceDomains[pcpm.Indom().Name()].MatchInstances(pcpm.Indom().Instances()) {
+		return errors.Errorf("a different instance domain under the name %v already exists in the registry", pcpm.Indom().Name())
+	}
+
 	// if it is an indom metric
 	if pcpm.Indom() != nil && !r.HasInstanceDomain(pcpm.Indom().Name()) {
 		err := r.addInstanceDomain(pcpm.Indom())
-- 
2.43.0


From e70b0d524ed826280a1d881f6221c3545ebb6c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:30 +0000
Subject: [PATCH 10/27] fix: keep the offsets of instances per client

Clients that share an instance domain, as all clients with a histogram do,
overwrote each other's instance offsets when they started concurrently.
---
 client.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index fc4bcf6..5acc394 100644
--- a/client.go
+++ b/client.go
@@ -116,8 +116,14 @@ type PCPClient struct {
 	metricoffsetc   chan int
 	valueoffsetc    chan int
 	stringoffsetc   chan int
+
+	instanceoffsets map[*pcpInstance]int // where the instances are written
 }
 
+// instanceoffsetlock guards the offsets of instances, as an instance domain
+// (like the one of all histograms) can be registered with several clients
+var instanceoffsetlock sync.Mutex
+
 // NewPCPClient initializes a new PCPClient object
 func NewPCPClient(name string) (*PCPClient, error) {
 	return NewPCPClientWithRegistry(name, NewPCPRegistry())
@@ -253,6 +259,8 @@ func (c *PCPClient) start() {
 		c.stringoffsetc <- c.r.stringsoffset
 	}
 
+	c.instanceoffsets = make(map[*pcpInstance]int)
+
 	genc, g2offc := make(chan int64), make(chan int)
 
 	go c.writeHeaderBlock(genc, g2offc)
@@ -448,7 +456,10 @@ func (c *PCPClient) writeInstanceDomain(indom *PCPInstanceDomain) {
 }
 
 func (c *PCPClient) writeInstance(i *pcpInstance, indomoff int, off int) {
+	instanceoffsetlock.Lock()
 	i.offset = off
+	c.instanceoffsets[i] = off
+	instanceoffsetlock.Unlock()
 
 	off = c.writer.MustWriteInt64(int64(indomoff), off)
 	off = c.writer.MustWriteInt32(0, off)
@@ -553,7 +564,7 @@ func (c *PCPClient) writeInstanceMetric(m *pcpInstanceMetric) {
 		}(m.vals[name], off)
 
 		off = c.writer.MustWriteInt64(int64(doff), off+MaxDataValueSize)
-		_ = c.writer.MustWriteInt64(int64(c.r.instanceDomains[m.indom.name].instances[name].offset), off)
+		_ = c.writer.MustWriteInt64(int64(c.instanceoffsets[c.r.instanceDomains[m.indom.name].instances[name]]), off)
 	}
 
 	wg.Wait()
-- 
2.43.0


From bb3c4292843238f9d1a23a0c337df318b1fe797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 11/27] fix: do not lose updates during Start or write through
 the unmapped file after Stop

Start read values and installed update closures without the metric's lock, so
that a concurrent update could be missing from the file; Stop left the closures
in place, so that updates of a stopped client crashed the process.
---
 client.go  |  9 +++++++--
 metrics.go | 52 ++++++++++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 57 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index 5acc394..4fb62bc 100644
--- a/client.go
+++ b/client.go
@@ -533,7 +533,7 @@ func (c *PCPClient) writeSingletonMetric(m *pcpSingletonMetric) {
 	c.valueoffsetc <- off + ValueLength
 
 	go func(offset int) {
-		m.update = c.writeValue(m.t, m.val, offset)
+		m.attach(func(val interface{}) updateClosure { return c.writeValue(m.t, val, offset) })
 		wg.Done()
 	}(off)
 
@@ -559,7 +559,7 @@ func (c *PCPClient) writeInstanceMetric(m *pcpInstanceMetric) {
 		c.valueoffsetc <- off + ValueLength
 
 		go func(i *instanceValue, offset int) {
-			i.update = c.writeValue(m.t, i.val, offset)
+			m.attach(i, func(val interface{}) updateClosure { return c.writeValue(m.t, val, offset) })
 			wg.Done()
 		}(m.vals[name], off)
 
@@ -671,6 +671,11 @@ func (c *PCPClient) stop() {
 	c.instanceoffsetc, c.indomoffsetc = nil, nil
 	c.metricoffsetc, c.valueoffsetc = nil, nil
 	c.stringoffsetc = nil
+
+	// nothing may be written to the mapping anymore
+	for _, m := range c.r.metrics {
+		m.(interface{ detach() }).detach()
+	}
 }
 
 // MustStop is a stop that panics
diff --git a/metrics.go b/metrics.go
index e40acfd..b85215b 100644
--- a/metrics.go
+++ b/metrics.go
@@ -561,6 +561,9 @@ type pcpSingletonMetric struct {
 	*pcpMetricDesc
 	val    interface{}
 	update updateClosure
+
+	// held while the value is set, written by Start or detached by Stop
+	lock sync.Mutex
 }
 
 // newpcpSingletonMetric creates a new instance of pcpSingletonMetric.
@@ -570,7 +573,7 @@ func newpcpSingletonMetric(val interface{}, desc *pcpMetricDesc) (*pcpSingletonM
 	}
 
 	val = desc.t.resolve(val)
-	return &pcpSingletonMetric{desc, val, nil}, nil
+	return &pcpSingletonMetric{pcpMetricDesc: desc, val: val}, nil
 }
 
 // set Sets the current value of pcpSingletonMetric.
@@ -581,6 +584,9 @@ func (m *pcpSingletonMetric) set(val interface{}) error {
 
 	val = m.t.resolve(val)
 
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
 	if val != m.val {
 		if m.update != nil {
 			err := m.update(val)
@@ -594,6 +600,23 @@ func (m *pcpSingletonMetric) set(val interface{}) error {
 	return nil
 }
 
+// attach writes the current value using the passed function and makes
+// later ones go where it was written.
+func (m *pcpSingletonMetric) attach(write func(interface{}) updateClosure) {
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
+	m.update = write(m.val)
+}
+
+// detach makes later values stay in memory.
+func (m *pcpSingletonMetric) detach() {
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
+	m.update = nil
+}
+
 func (m *pcpSingletonMetric) Indom() *PCPInstanceDomain { return nil }
 
 ///////////////////////////////////////////////////////////////////////////////
@@ -965,6 +988,9 @@ type pcpInstanceMetric struct {
 	*pcpMetricDesc
 	indom *PCPInstanceDomain
 	vals  map[string]*instanceValue
+
+	// held while a value is set, written by Start or detached by Stop
+	lock sync.Mutex
 }
 
 // newpcpInstanceMetric creates a new instance of PCPSingletonMetric.
@@ -989,7 +1015,7 @@ func newpcpInstanceMetric(vals Instances, indom *PCPInstanceDomain, desc *pcpMet
 		mvals[name] = newinstanceValue(val)
 	}
 
-	return &pcpInstanceMetric{desc, indom, mvals}, nil
+	return &pcpInstanceMetric{pcpMetricDesc: desc, indom: indom, vals: mvals}, nil
 }
 
 func (m *pcpInstanceMetric) valInstance(instance string) (interface{}, error) {
@@ -1012,6 +1038,9 @@ func (m *pcpInstanceMetric) setInstance(val interface{}, instance string) error
 
 	val = m.t.resolve(val)
 
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
 	if m.vals[instance].val != val {
 		if m.vals[instance].update != nil {
 			err := m.vals[instance].update(val)
@@ -1026,6 +1055,25 @@ func (m *pcpInstanceMetric) setInstance(val interface{}, instance string) error
 	return nil
 }
 
+// attach writes the current value of an instance using the passed function and
+// makes later ones go where it was written.
+func (m *pcpInstanceMetric) attach(i *instanceValue, write func(interface{}) updateClosure) {
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
+	i.update = write(i.val)
+}
+
+// detach makes later values stay in memory.
+func (m *pcpInstanceMetric) detach() {
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
+	for _, i := range m.vals {
+		i.update = nil
+	}
+}
+
 // Indom returns the instance domain for the metric.
 func (m *pcpInstanceMetric) Indom() *PCPInstanceDomain { return m.indom }
 
-- 
2.43.0


From 1a80a182e32fc866dd7732021941c6193cbde6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:56 +0000
Subject: [PATCH 12/27] fix: refuse increments that make a counter overflow

The counter wrapped around to a negative value.
---
 metrics.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/metrics.go b/metrics.go
index b85215b..49e5934 100644
--- a/metrics.go
+++ b/metrics.go
@@ -751,6 +751,10 @@ func (c *PCPCounter) Inc(val int64) error {
 	}
 
 	v := c.val.(int64)
+	if v > math.MaxInt64-val {
+		return errors.Errorf("cannot increment counter by %v, current value is %v and would overflow", val, v)
+	}
+
 	v += val
 	return c.set(v)
 }
@@ -1254,6 +1258,10 @@ func (c *PCPCounterVector) Inc(inc int64, instance string) error {
 		return err
 	}
 
+	if v.(int64) > math.MaxInt64-inc {
+		return errors.Errorf("cannot increment instance %s by %v, its value is %v and would overflow", instance, inc, v)
+	}
+
 	return c.setInstance(v.(int64)+inc, instance)
 }
 
-- 
2.43.0


From 3d1b51587497783231c1f33adab312d77ec11ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:59 +0000
Subject: [PATCH 13/27] fix: refuse texts that do not fit a null-terminated
 string slot

Longer string values and descriptions were written beyond their slot, and names
of exactly 256 bytes left no room for the terminator.
---
 instance_domain.go | 6 +++++-
 metrics.go         | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/instance_domain.go b/instance_domain.go
index 7d30393..439acbc 100644
--- a/instance_domain.go
+++ b/instance_domain.go
@@ -52,10 +52,14 @@ func NewPCPInstanceDomain(name string, instances []string, desc ...string) (*PCP
 		longDescription = desc[1]
 	}
 
+	if len(shortDescription) >= StringLength || len(longDescription) >= StringLength {
+		return nil, errors.New("Instance Domain description is too long")
+	}
+
 	imap := make(map[string]*pcpInstance)
 
 	for _, instance := range instances {
-		if len(instance) > StringLength {
+		if len(instance) >= StringLength {
 			return nil, errors.Errorf("instance name %v is too long", instance)
 		}
 
diff --git a/metrics.go b/metrics.go
index 49e5934..2275e47 100644
--- a/metrics.go
+++ b/metrics.go
@@ -82,7 +82,7 @@ func (m MetricType) IsCompatible(val interface{}) bool {
 	case float64:
 		return m.isCompatibleFloat(v)
 	case string:
-		return m == StringType
+		return m == StringType && len(v) < StringLength
 	}
 	return false
 }
@@ -484,7 +484,7 @@ func newpcpMetricDesc(n string, t MetricType, s MetricSemantics, u MetricUnit, d
 		return nil, errors.New("Metric name cannot be empty")
 	}
 
-	if len(n) > StringLength {
+	if len(n) >= StringLength {
 		return nil, errors.New("metric name is too long")
 	}
 
@@ -502,6 +502,10 @@ func newpcpMetricDesc(n string, t MetricType, s MetricSemantics, u MetricUnit, d
 		longdesc = desc[1]
 	}
 
+	if len(shortdesc) >= StringLength || len(longdesc) >= StringLength {
+		return nil, errors.New("metric description is too long")
+	}
+
 	return &pcpMetricDesc{
 		hash(n, PCPMetricItemBitLength),
 		n, t, s, u,
-- 
2.43.0


From f81791f0d6a0a1d748164902020bb1f078ac1f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:02 +0000
Subject: [PATCH 14/27] fix: lock a singleton metric while printing it

---
 metrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics.go b/metrics.go
index 2275e47..9387e3a 100644
--- a/metrics.go
+++ b/metrics.go
@@ -673,7 +673,7 @@ func (m *PCPSingletonMetric) MustSet(val interface{}) {
 }
 
 func (m *PCPSingletonMetric) String() string {
-	return fmt.Sprintf("Val: %v\n%v", m.val, m.Description())
+	return fmt.Sprintf("Val: %v\n%v", m.Val(), m.Description())
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 75cf90be8ad4e92c49e7f3396f48084e22b630ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:44 +0000
Subject: [PATCH 15/27] fix: refuse writes at negative and overflowing offsets

They panicked instead of returning an error.
---
 bytewriter/bytewriter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytewriter/bytewriter.go b/bytewriter/bytewriter.go
index fc62416..ac99f7b 100644
--- a/bytewriter/bytewriter.go
+++ b/bytewriter/bytewriter.go
@@ -34,7 +34,7 @@ func (w *ByteWriter) Bytes() []byte { return w.buffer }
 func (w *ByteWriter) Write(data []byte, offset int) (int, error) {
 	l := len(data)
 
-	if offset+l > w.Len() {
+	if offset < 0 || l > w.Len()-offset {
 		return -1, errors.Errorf("cannot write %v bytes at offset %v", l, offset)
 	}
 
-- 
2.43.0


From 0026e6b6abd88c64dc0ddfbb6b510e76a9c9daae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:47 +0000
Subject: [PATCH 16/27] fix: do not store numbers byte by byte

A reader of the mapped file could see a number with some of its bytes old and
some new.
---
 bytewriter/bytewriter.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bytewriter/bytewriter.go b/bytewriter/bytewriter.go
index ac99f7b..93094fc 100644
--- a/bytewriter/bytewriter.go
+++ b/bytewriter/bytewriter.go
@@ -38,9 +38,8 @@ func (w *ByteWriter) Write(data []byte, offset int) (int, error) {
 		return -1, errors.Errorf("cannot write %v bytes at offset %v", l, offset)
 	}
 
-	for i := 0; i < l; i++ {
-		w.buffer[offset+i] = data[i]
-	}
+	// not byte by byte, as others may be reading the buffer if it is mapped
+	copy(w.buffer[offset:], data)
 
 	return offset + l, nil
 }
-- 
2.43.0


From 3ad7c5bc562a688ec28bd3567257584c65a9ca7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:50 +0000
Subject: [PATCH 17/27] fix: return an error when asked to write nil

WriteVal panicked for nil and nil pointers.
---
 bytewriter/bytewriter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bytewriter/bytewriter.go b/bytewriter/bytewriter.go
index 93094fc..473c065 100644
--- a/bytewriter/bytewriter.go
+++ b/bytewriter/bytewriter.go
@@ -3,6 +3,7 @@ package bytewriter
 import (
 	"bytes"
 	"encoding/binary"
+	"reflect"
 
 	"github.com/pkg/errors"
 )
@@ -59,6 +60,10 @@ func (w *ByteWriter) WriteVal(val interface{}, offset int) (int, error) {
 		return w.WriteString(s, offset)
 	}
 
+	if v := reflect.ValueOf(val); !v.IsValid() || v.Kind() == reflect.Ptr && v.IsNil() {
+		return 0, errors.Errorf("cannot write a nil %T", val)
+	}
+
 	buf := bytes.NewBuffer(make([]byte, 0))
 
 	err := binary.Write(buf, byteOrder, val)
-- 
2.43.0


From f408709a51c674bef063850a3d5f238714a2d4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:05 +0000
Subject: [PATCH 18/27] fix: close the file of a memory mapped writer also when
 mapping or unmapping fails

---
 bytewriter/memorymappedwriter.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/bytewriter/memorymappedwriter.go b/bytewriter/memorymappedwriter.go
index 4d6821f..f17fb8a 100644
--- a/bytewriter/memorymappedwriter.go
+++ b/bytewriter/memorymappedwriter.go
@@ -39,14 +39,17 @@ func NewMemoryMappedWriter(loc string, size int) (*MemoryMappedWriter, error) {
 
 	l, err := f.Write(make([]byte, size))
 	if err != nil {
+		_ = f.Close()
 		return nil, err
 	}
 	if l < size {
+		_ = f.Close()
 		return nil, errors.Errorf("Could not initialize %d bytes", size)
 	}
 
 	b, err := mmap.Map(f, mmap.RDWR, 0)
 	if err != nil {
+		_ = f.Close()
 		return nil, err
 	}
 
@@ -61,19 +64,18 @@ func NewMemoryMappedWriter(loc string, size int) (*MemoryMappedWriter, error) {
 // Unmap will manually delete the memory mapping of a mapped buffer
 func (b *MemoryMappedWriter) Unmap(removefile bool) error {
 	m := mmap.MMap(b.buffer)
-	if err := m.Unmap(); err != nil {
-		return err
-	}
+	err := m.Unmap()
 
-	if err := b.handle.Close(); err != nil {
-		return err
+	// the file is closed and removed even if that failed
+	if cerr := b.handle.Close(); err == nil {
+		err = cerr
 	}
 
 	if removefile {
-		if err := os.Remove(b.loc); err != nil {
-			return err
+		if rerr := os.Remove(b.loc); err == nil {
+			err = rerr
 		}
 	}
 
-	return nil
+	return err
 }
-- 
2.43.0


From 9169801d514838f86ca86a9095d8accc9fe55e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:26 +0000
Subject: [PATCH 19/27] fix: refuse client names that stand for a directory

An empty name, "." and ".." made Start try to replace the mmv directory or
the one above it.
---
 client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client.go b/client.go
index 4fb62bc..b58bad1 100644
--- a/client.go
+++ b/client.go
@@ -72,6 +72,10 @@ func mmvFileLocation(name string) (string, error) {
 		return "", errors.New("name cannot have path separator")
 	}
 
+	if name == "" || name == "." || name == ".." {
+		return "", errors.Errorf("%q is not the name of a file", name)
+	}
+
 	tdir, present := config["PCP_TMP_DIR"]
 	var loc string
 	if present {
-- 
2.43.0


From 82ce02e45be1290ff09bbf4815d9f5361b823ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:28 +0000
Subject: [PATCH 20/27] fix: read settings only from the start of a
 configuration line

Commented out settings were taken, too. Also close the file.
---
 config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 041b157..a4040a3 100644
--- a/config.go
+++ b/config.go
@@ -17,7 +17,7 @@ var confPath string
 var config map[string]string
 
 // pat stores a valid key-value pattern line
-var pat = "([A-Z0-9_]+)=(.*)"
+var pat = "^([A-Z0-9_]+)=(.*)"
 
 // initConfig initializes the config constants
 func initConfig() error {
@@ -39,6 +39,7 @@ func initConfig() error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 
 	// if we reach at this point, it means we have a valid config
 	// that can be read, so we can make the map non-nil
-- 
2.43.0


From 14a3c20b8daf46453e85f463b25f2e890aaf824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:25 +0000
Subject: [PATCH 21/27] fix: check the counts and offsets in the contents table
 before using them

Negative counts made Dump panic or end with nothing read, huge ones made it
allocate and start goroutines without limit, and offsets close to 2^64 wrapped
around.
---
 mmvdump/mmvdump.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mmvdump/mmvdump.go b/mmvdump/mmvdump.go
index 5b980ca..7a10c87 100644
--- a/mmvdump/mmvdump.go
+++ b/mmvdump/mmvdump.go
@@ -108,6 +108,10 @@ func readString(data []byte, offset uint64, version int32) (interface{}, error)
 }
 
 func readTocs(data []byte, count int32) ([]*Toc, error) {
+	if count < 0 || uint64(count) > (uint64(len(data))-HeaderLength)/TocLength {
+		return nil, errors.Errorf("invalid number of TOCs: %v", count)
+	}
+
 	tocs := make([]*Toc, count)
 
 	for i := int32(0); i < count; i++ {
@@ -122,6 +126,11 @@ func readTocs(data []byte, count int32) ([]*Toc, error) {
 }
 
 func readItems(data []byte, offset uint64, count int32, itemlength uint64, readItem itemReaderFunc, version int32) (map[uint64]interface{}, error) {
+	size := uint64(len(data))
+	if count < 0 || offset > size || uint64(count) > (size-offset)/itemlength {
+		return nil, errors.Errorf("%v entries at offset %v do not fit in the data", count, offset)
+	}
+
 	var wg sync.WaitGroup
 	wg.Add(int(count))
 
-- 
2.43.0


From 1ba745a70d7230abf4e0e0d8d08971dc3b11a65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:28 +0000
Subject: [PATCH 22/27] fix: refuse unknown and repeated entries of the
 contents table

Dump blocked forever on an entry of an unknown type, and read entries of the
same type concurrently into the same result.
---
 mmvdump/mmvdump.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mmvdump/mmvdump.go b/mmvdump/mmvdump.go
index 7a10c87..75219ce 100644
--- a/mmvdump/mmvdump.go
+++ b/mmvdump/mmvdump.go
@@ -114,11 +114,17 @@ func readTocs(data []byte, count int32) ([]*Toc, error) {
 
 	tocs := make([]*Toc, count)
 
+	present := make(map[TocType]bool)
+
 	for i := int32(0); i < count; i++ {
 		t, err := readToc(data, HeaderLength+uint64(i)*TocLength)
 		if err != nil {
 			return nil, err
 		}
+		if t.Type < TocIndoms || t.Type > TocStrings || present[t.Type] {
+			return nil, errors.Errorf("unknown or repeated TOC type: %d", int32(t.Type))
+		}
+		present[t.Type] = true
 		tocs[i] = t
 	}
 
-- 
2.43.0


From f90259c78b7d9ab698e48db2aa99966ba7719631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:30 +0000
Subject: [PATCH 23/27] fix: refuse files that are being written or of an
 unknown version

A file whose generation numbers had not been written yet was accepted, and
files of other versions were read with the record lengths of one version and
the record layouts of another.
---
 mmvdump/mmvdump.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mmvdump/mmvdump.go b/mmvdump/mmvdump.go
index 75219ce..73e899a 100644
--- a/mmvdump/mmvdump.go
+++ b/mmvdump/mmvdump.go
@@ -36,6 +36,14 @@ func readHeader(data []byte) (*Header, error) {
 		return nil, errors.Errorf("Mismatched version numbers, %v and %v", header.G1, header.G2)
 	}
 
+	if header.G1 == 0 {
+		return nil, errors.New("Incomplete/Partially Written Header")
+	}
+
+	if header.Version != 1 && header.Version != 2 {
+		return nil, errors.Errorf("unsupported version: %v", header.Version)
+	}
+
 	return header, nil
 }
 
-- 
2.43.0


From 2a28fd6be7c353f514776497ef8bb5bad9748aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:33 +0000
Subject: [PATCH 24/27] fix: return an error when printing references to
 records that are not in the file

Write panicked on them.
---
 mmvdump/writer.go | 91 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 68 insertions(+), 23 deletions(-)

diff --git a/mmvdump/writer.go b/mmvdump/writer.go
index 3899532..b282ee8 100644
--- a/mmvdump/writer.go
+++ b/mmvdump/writer.go
@@ -7,11 +7,19 @@ import (
 	"github.com/pkg/errors"
 )
 
-func instanceName(m Instance, header *Header, strings map[uint64]*String) string {
+func stringAt(offset uint64, strings map[uint64]*String) (string, error) {
+	s, ok := strings[offset]
+	if !ok {
+		return "", errors.Errorf("invalid string address %v", offset)
+	}
+	return string(s.Payload[:]), nil
+}
+
+func instanceName(m Instance, header *Header, strings map[uint64]*String) (string, error) {
 	if header.Version == 1 {
-		return string(m.(*Instance1).External[:])
+		return string(m.(*Instance1).External[:]), nil
 	}
-	return string(strings[m.(*Instance2).External].Payload[:])
+	return stringAt(m.(*Instance2).External, strings)
 }
 
 func writeInstance(
@@ -23,9 +31,15 @@ func writeInstance(
 	strings map[uint64]*String,
 ) error {
 	i := instances[offset]
-	indom := indoms[i.Indom()]
-	Name := instanceName(i, header, strings)
-	_, err := fmt.Fprintf(w, "\t[%v/%v] instance = [%v/%v]\n", indom.Serial, offset, i.Internal(), Name)
+	indom, ok := indoms[i.Indom()]
+	if !ok {
+		return errors.Errorf("invalid instance domain address %v", i.Indom())
+	}
+	Name, err := instanceName(i, header, strings)
+	if err != nil {
+		return err
+	}
+	_, err = fmt.Fprintf(w, "\t[%v/%v] instance = [%v/%v]\n", indom.Serial, offset, i.Internal(), Name)
 	return err
 }
 
@@ -46,7 +60,11 @@ func writeInstanceDomain(
 			return err
 		}
 	} else {
-		if _, err := fmt.Fprintf(w, "\t\tshorttext=%v\n", string(strings[indom.Shorttext].Payload[:])); err != nil {
+		text, err := stringAt(indom.Shorttext, strings)
+		if err != nil {
+			return err
+		}
+		if _, err := fmt.Fprintf(w, "\t\tshorttext=%v\n", text); err != nil {
 			return err
 		}
 	}
@@ -56,7 +74,11 @@ func writeInstanceDomain(
 			return err
 		}
 	} else {
-		if _, err := fmt.Fprintf(w, "\t\tlongtext=%v\n", string(strings[indom.Longtext].Payload[:])); err != nil {
+		text, err := stringAt(indom.Longtext, strings)
+		if err != nil {
+			return err
+		}
+		if _, err := fmt.Fprintf(w, "\t\tlongtext=%v\n", text); err != nil {
 			return err
 		}
 	}
@@ -64,11 +86,11 @@ func writeInstanceDomain(
 	return nil
 }
 
-func metricName(m Metric, header *Header, strings map[uint64]*String) string {
+func metricName(m Metric, header *Header, strings map[uint64]*String) (string, error) {
 	if header.Version == 1 {
-		return string(m.(*Metric1).Name[:])
+		return string(m.(*Metric1).Name[:]), nil
 	}
-	return string(strings[m.(*Metric2).Name].Payload[:])
+	return stringAt(m.(*Metric2).Name, strings)
 }
 
 func writeMetric(
@@ -79,13 +101,16 @@ func writeMetric(
 	strings map[uint64]*String,
 ) error {
 	m := metrics[offset]
-	Name := metricName(m, header, strings)
+	Name, err := metricName(m, header, strings)
+	if err != nil {
+		return err
+	}
 
 	if _, err := fmt.Fprintf(w, "\t[%v/%v] %v\n", m.Item(), offset, Name); err != nil {
 		return err
 	}
 
-	_, err := fmt.Fprintf(w, "\t\ttype=%v (0x%x), sem=%v (0x%x), pad=0x%x\n", m.Typ(), int(m.Typ()), m.Sem(), int(m.Sem()), m.Padding())
+	_, err = fmt.Fprintf(w, "\t\ttype=%v (0x%x), sem=%v (0x%x), pad=0x%x\n", m.Typ(), int(m.Typ()), m.Sem(), int(m.Sem()), m.Padding())
 	if err != nil {
 		return err
 	}
@@ -109,7 +134,11 @@ func writeMetric(
 			return err
 		}
 	} else {
-		if _, err := fmt.Fprintf(w, "\t\tshorttext=%v\n", string(strings[m.ShortText()].Payload[:])); err != nil {
+		text, err := stringAt(m.ShortText(), strings)
+		if err != nil {
+			return err
+		}
+		if _, err := fmt.Fprintf(w, "\t\tshorttext=%v\n", text); err != nil {
 			return err
 		}
 	}
@@ -119,7 +148,11 @@ func writeMetric(
 			return err
 		}
 	} else {
-		if _, err := fmt.Fprintf(w, "\t\tlongtext=%v\n", string(strings[m.LongText()].Payload[:])); err != nil {
+		text, err := stringAt(m.LongText(), strings)
+		if err != nil {
+			return err
+		}
+		if _, err := fmt.Fprintf(w, "\t\tlongtext=%v\n", text); err != nil {
 			return err
 		}
 	}
@@ -137,16 +170,21 @@ func writeValue(
 	strings map[uint64]*String,
 ) error {
 	v := values[offset]
-	m := metrics[v.Metric]
+	m, ok := metrics[v.Metric]
+	if !ok {
+		return errors.Errorf("invalid metric address %v", v.Metric)
+	}
 
-	if _, err := fmt.Fprintf(w, "\t[%v/%v] %v", m.Item(), offset, metricName(m, header, strings)); err != nil {
+	Name, err := metricName(m, header, strings)
+	if err != nil {
 		return err
 	}
 
-	var (
-		a   interface{}
-		err error
-	)
+	if _, err := fmt.Fprintf(w, "\t[%v/%v] %v", m.Item(), offset, Name); err != nil {
+		return err
+	}
+
+	var a interface{}
 
 	if m.Typ() != StringType {
 		a, err = FixedVal(v.Val, m.Typ())
@@ -162,8 +200,15 @@ func writeValue(
 	}
 
 	if m.Indom() != NoIndom && m.Indom() != 0 {
-		i := instances[v.Instance]
-		if _, err := fmt.Fprintf(w, "[%d or \"%s\"]", i.Internal(), instanceName(i, header, strings)); err != nil {
+		i, ok := instances[v.Instance]
+		if !ok {
+			return errors.Errorf("invalid instance address %v", v.Instance)
+		}
+		Name, err := instanceName(i, header, strings)
+		if err != nil {
+			return err
+		}
+		if _, err := fmt.Fprintf(w, "[%d or \"%s\"]", i.Internal(), Name); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From d3c14a484d23a1afbe6d1e3848209508bb235b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:04 +0000
Subject: [PATCH 25/27] fix: refuse a metric without a unit

A nil MetricUnit was accepted at construction and registration, and Start
then crashed the process in the goroutine that writes the metric.
---
 metrics.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metrics.go b/metrics.go
index 9387e3a..8edaa25 100644
--- a/metrics.go
+++ b/metrics.go
@@ -488,6 +488,10 @@ func newpcpMetricDesc(n string, t MetricType, s MetricSemantics, u MetricUnit, d
 		return nil, errors.New("metric name is too long")
 	}
 
+	if u == nil {
+		return nil, errors.New("metric unit cannot be nil")
+	}
+
 	if len(desc) > 2 {
 		return nil, errors.New("only 2 optional strings allowed, short and long descriptions")
 	}
-- 
2.43.0


From 7f38191d8e7d24b4b0b7bf4596856141b2bb3ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:06 +0000
Subject: [PATCH 26/27] fix: read the configuration behind a line of 64 KB

A longer line ended the reading without an error, and settings behind it
were ignored.
---
 config.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/config.go b/config.go
index a4040a3..8160ab5 100644
--- a/config.go
+++ b/config.go
@@ -2,6 +2,7 @@ package speed
 
 import (
 	"bufio"
+	"math"
 	"os"
 	"path/filepath"
 	"regexp"
@@ -45,6 +46,7 @@ func initConfig() error {
 	// that can be read, so we can make the map non-nil
 	config = make(map[string]string)
 	scanner := bufio.NewScanner(f)
+	scanner.Buffer(nil, math.MaxInt32) // a long line must not end the file
 	for scanner.Scan() {
 		t := scanner.Text()
 		if re.MatchString(t) {
-- 
2.43.0


From 37289187ddb86f36144616db177c750b3be6ca79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:18 +0000
Subject: [PATCH 27/27] fix: refuse a metric with instances but without an
 instance domain

---
 metrics.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metrics.go b/metrics.go
index 8edaa25..8590ee0 100644
--- a/metrics.go
+++ b/metrics.go
@@ -1007,6 +1007,10 @@ type pcpInstanceMetric struct {
 
 // newpcpInstanceMetric creates a new instance of PCPSingletonMetric.
 func newpcpInstanceMetric(vals Instances, indom *PCPInstanceDomain, desc *pcpMetricDesc) (*pcpInstanceMetric, error) {
+	if indom == nil {
+		return nil, errors.New("instance domain cannot be nil")
+	}
+
 	if len(vals) != indom.InstanceCount() {
 		return nil, errors.New("values for all instances in the instance domain only should be passed")
 	}
-- 
2.43.0

