From 6580b44e5f083ca1d3c7dc6b10c6fa1871399b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:46 +0000
Subject: [PATCH 01/34] fix: release the status lock when Play fails to
 initialize

---
 core/ctrl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ctrl.go b/core/ctrl.go
index f1889c3..d979c99 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -109,6 +109,7 @@ func (algo *Algo) Play() (err error) {
 	case Created:
 		err = algo.init()
 		if err != nil && err != ErrAlreadyCreated {
+			algo.statusMutex.Unlock()
 			return
 		}
 		err = nil
-- 
2.43.0


From 8300765109c43f813a0cc563f670e986453c6bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:47 +0000
Subject: [PATCH 02/34] fix: a status change no longer waits for the status
 notifier

---
 core/algo.go | 19 ++++++++++++++++++-
 core/ctrl.go |  2 ++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/core/algo.go b/core/algo.go
index 214f9a3..7225a32 100644
--- a/core/algo.go
+++ b/core/algo.go
@@ -24,6 +24,7 @@ type Algo struct {
 	statusChannel  chan OCStatus
 	ackChannel     chan bool
 	notifChannel   chan OCStatus
+	relayChannel   chan OCStatus
 	runtimeFigures RuntimeFigures
 	newData        int
 	pushedData     int
@@ -66,7 +67,7 @@ func (algo *Algo) setStatus(status OCStatus, safe bool) {
 	} else {
 		algo.status = status
 	}
-	algo.notifChannel <- status
+	algo.relayChannel <- status
 }
 
 // receiveStatus status from main routine
@@ -101,3 +102,19 @@ func (algo *Algo) notificationLoop() {
 		algo.notify(status)
 	}
 }
+
+// relayNotifications queues statuses, so that changing the status never waits for the notifier
+func (algo *Algo) relayNotifications(statuses <-chan OCStatus) {
+	var pending []OCStatus
+	for {
+		if len(pending) == 0 {
+			pending = append(pending, <-statuses)
+		}
+		select {
+		case status := <-statuses:
+			pending = append(pending, status)
+		case algo.notifChannel <- pending[0]:
+			pending = pending[1:]
+		}
+	}
+}
diff --git a/core/ctrl.go b/core/ctrl.go
index d979c99..8831db0 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -79,6 +79,8 @@ func (algo *Algo) init() (err error) {
 		if algo.status.Value == Created {
 			algo.notifChannel = make(chan OCStatus)
 			go algo.notificationLoop()
+			algo.relayChannel = make(chan OCStatus)
+			go algo.relayNotifications(algo.relayChannel)
 		}
 		algo.setStatus(NewOCStatus(Initializing), false)
 		var centroids Clust
-- 
2.43.0


From b4b50990e90437c435dc2891de41dc44a7d2eb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 03/34] fix: a push no longer deadlocks with a change of status

---
 core/ctrl.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 8831db0..4913723 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -22,21 +22,22 @@ type OCCtrl interface {
 func (algo *Algo) Push(elemt Elemt) (err error) {
 	err = algo.impl.Push(elemt, algo)
 	if err == nil {
+		var ready = algo.Status().Value == Ready
+		var play = false
 		algo.modelMutex.Lock()
 		algo.pushedData++
 		algo.lastDataTime = time.Now().Unix()
 		var conf = algo.conf.Ctrl()
-		if algo.Status().Value == Ready && conf.DataPerIter > 0 && conf.DataPerIter <= algo.newData {
+		if ready && conf.DataPerIter > 0 && conf.DataPerIter <= algo.newData {
 			algo.newData = 0
+			play = true
 		} else {
 			algo.newData++
 		}
 		algo.updateRuntimeFigures()
 		algo.modelMutex.Unlock()
 		// try to play if waiting
-		algo.modelMutex.RLock()
-		defer algo.modelMutex.RUnlock()
-		if algo.newData == 0 {
+		if play {
 			algo.Play()
 		}
 	}
-- 
2.43.0


From e72cab34fb2eb26ca66632dc4cb20ff80c443dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 04/34] fix: run one control command at a time

---
 core/algo.go |  1 +
 core/ctrl.go | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/core/algo.go b/core/algo.go
index 7225a32..b1966f4 100644
--- a/core/algo.go
+++ b/core/algo.go
@@ -35,6 +35,7 @@ type Algo struct {
 
 	modelMutex  sync.RWMutex // algo model mutex
 	statusMutex sync.RWMutex // algo model mutex
+	ctrlMutex   sync.Mutex   // one control command at a time
 }
 
 // NewAlgo creates a new algorithm instance
diff --git a/core/ctrl.go b/core/ctrl.go
index 4913723..3c94d64 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -59,6 +59,8 @@ func (algo *Algo) Batch() (err error) {
 
 // Init initialize centroids and set status to Ready
 func (algo *Algo) Init() error {
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
 	algo.statusMutex.Lock()
 	defer algo.statusMutex.Unlock()
 	return algo.init()
@@ -102,6 +104,8 @@ func (algo *Algo) init() (err error) {
 
 // Play the algorithm in online mode
 func (algo *Algo) Play() (err error) {
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
 	algo.statusMutex.Lock()
 	switch algo.status.Value {
 	case Idle:
@@ -137,6 +141,8 @@ func (algo *Algo) Play() (err error) {
 
 // Pause the algorithm and set status to idle
 func (algo *Algo) Pause() (err error) {
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
 	algo.statusMutex.Lock()
 	if algo.status.Value == Running {
 		algo.statusMutex.Unlock()
@@ -178,6 +184,12 @@ func (algo *Algo) Wait(finishing Finishing, timeout time.Duration) (err error) {
 
 // interrupt the algorithm
 func (algo *Algo) interrupt(interruption error) (err error) {
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
+	return algo.finish(interruption)
+}
+
+func (algo *Algo) finish(interruption error) (err error) {
 	algo.statusMutex.Lock()
 	switch algo.status.Value {
 	case Ready:
@@ -188,7 +200,7 @@ func (algo *Algo) interrupt(interruption error) (err error) {
 	case Running:
 		algo.statusMutex.Unlock()
 		algo.sendStatus(NewOCStatusError(interruption))
-		err = algo.status.Error
+		err = algo.Status().Error
 	default:
 		algo.statusMutex.Unlock()
 		err = ErrNotAlive
-- 
2.43.0


From f9feb43c395f36479b46660f3c371391eb91ff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:27 +0000
Subject: [PATCH 05/34] fix: stopping an idle algorithm waits for the end of
 its run

---
 core/algo.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/algo.go b/core/algo.go
index b1966f4..28a3261 100644
--- a/core/algo.go
+++ b/core/algo.go
@@ -75,7 +75,9 @@ func (algo *Algo) setStatus(status OCStatus, safe bool) {
 func (algo *Algo) receiveStatus() {
 	var status = <-algo.statusChannel
 	algo.setStatus(status, true)
-	algo.ackChannel <- true
+	if status.Value != Finished { // otherwise acknowledged once the run is over
+		algo.ackChannel <- true
+	}
 }
 
 // sendStatus status to run go routine
-- 
2.43.0


From b1899f9b016ffafcd6fcf83928a11bf04d6f3306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:27 +0000
Subject: [PATCH 06/34] fix: a run that ends by itself is over when its status
 says so

---
 core/ctrl.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 3c94d64..7486d78 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -220,13 +220,15 @@ func (algo *Algo) Predict(elemt Elemt) (pred Elemt, label int, dist float64) {
 	return
 }
 
-func (algo *Algo) recover(start time.Time) {
+func (algo *Algo) recover(start time.Time, end *OCStatus) {
 	algo.statusMutex.Lock()
 	defer algo.statusMutex.Unlock()
 	var recovery = recover()
 	if recovery != nil {
 		var err = fmt.Errorf("%v", recovery)
 		algo.setStatus(NewOCStatusError(err), false)
+	} else if algo.status.Value == Running {
+		algo.setStatus(*end, false)
 	}
 	// wait a few between client time processing between releasing statusMutex and sendStatus
 	time.Sleep(100 * time.Millisecond)
@@ -278,7 +280,8 @@ func (algo *Algo) run() {
 		finishing = NewOrFinishing(finishing, conf.Finishing)
 	}
 
-	defer algo.recover(start)
+	var end OCStatus // status of a run that ends by itself, published with the end of the run
+	defer algo.recover(start, &end)
 
 	algo.receiveStatus()
 
@@ -318,11 +321,9 @@ func (algo *Algo) run() {
 		}
 	}
 	if err == nil {
-		if algo.status.Value == Running {
-			algo.setStatus(NewOCStatus(Ready), true)
-		}
+		end = NewOCStatus(Ready)
 	} else {
-		algo.setStatus(NewOCStatusError(err), true)
+		end = NewOCStatusError(err)
 	}
 }
 
-- 
2.43.0


From e6e8f5cb6408756a03ff85162eeb0b23822cda8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:27 +0000
Subject: [PATCH 07/34] fix: a command that meets the end of a run takes the
 new status into account

---
 core/algo.go |  8 ++++++--
 core/ctrl.go | 22 +++++-----------------
 2 files changed, 11 insertions(+), 19 deletions(-)

diff --git a/core/algo.go b/core/algo.go
index 28a3261..3bebd7f 100644
--- a/core/algo.go
+++ b/core/algo.go
@@ -82,8 +82,12 @@ func (algo *Algo) receiveStatus() {
 
 // sendStatus status to run go routine
 func (algo *Algo) sendStatus(status OCStatus) (ok bool) {
-	algo.statusChannel <- status
-	_, ok = <-algo.ackChannel
+	select {
+	case algo.statusChannel <- status:
+		<-algo.ackChannel
+		ok = true
+	case <-algo.ackChannel: // the run is over
+	}
 	return
 }
 
diff --git a/core/ctrl.go b/core/ctrl.go
index 7486d78..4e30f6d 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -122,6 +122,7 @@ func (algo *Algo) Play() (err error) {
 		err = nil
 		fallthrough
 	case Ready:
+		algo.ackChannel = make(chan bool)
 		go algo.run()
 		algo.statusMutex.Unlock()
 		algo.sendStatus(NewOCStatus(Running))
@@ -199,7 +200,9 @@ func (algo *Algo) finish(interruption error) (err error) {
 		fallthrough
 	case Running:
 		algo.statusMutex.Unlock()
-		algo.sendStatus(NewOCStatusError(interruption))
+		if !algo.sendStatus(NewOCStatusError(interruption)) {
+			return algo.finish(interruption) // the run ended by itself in the meantime
+		}
 		err = algo.Status().Error
 	default:
 		algo.statusMutex.Unlock()
@@ -239,27 +242,12 @@ func (algo *Algo) recover(start time.Time, end *OCStatus) {
 	algo.duration += duration
 	algo.runtimeFigures[Duration] = float64(algo.duration)
 	algo.modelMutex.Unlock()
-	// clean up channels
-	select {
-	// get client status if client quiered to stop or timeout interruption
-	case status := <-algo.statusChannel:
-		if recovery == nil {
-			algo.setStatus(status, false)
-		}
-	default:
-	}
 	// free client ack channel
-	select { // close ack channel
-	case <-algo.ackChannel:
-	default:
-		close(algo.ackChannel)
-	}
+	close(algo.ackChannel)
 }
 
 // Initialize the algorithm, if success run it synchronously otherwise return an error
 func (algo *Algo) run() {
-	algo.ackChannel = make(chan bool)
-
 	var err error
 	var conf = algo.conf.Ctrl()
 	var centroids = algo.centroids
-- 
2.43.0


From 01146057c98ddf764b7668118a503ef940852586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:28 +0000
Subject: [PATCH 08/34] fix: the timeout of a run no longer interrupts a later
 one

---
 core/ctrl.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 4e30f6d..108f10b 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -67,6 +67,9 @@ func (algo *Algo) Init() error {
 }
 
 func (algo *Algo) init() (err error) {
+	if algo.timeout != nil {
+		algo.timeout.Disable()
+	}
 	switch algo.status.Value {
 	case Finished:
 		algo.modelMutex.Lock()
@@ -131,7 +134,16 @@ func (algo *Algo) Play() (err error) {
 		}
 		var interruptionTimeout = algo.Conf().Ctrl().Timeout
 		if interruptionTimeout > 0 {
-			algo.timeout = InterruptionTimeout(interruptionTimeout, algo.interrupt)
+			var timer Timeout
+			timer = InterruptionTimeout(interruptionTimeout, func(interruption error) error {
+				algo.ctrlMutex.Lock()
+				defer algo.ctrlMutex.Unlock()
+				if !timer.Enabled() { // the run was over and another one began
+					return ErrNotAlive
+				}
+				return algo.finish(interruption)
+			})
+			algo.timeout = timer
 		}
 	case Running:
 		algo.statusMutex.Unlock()
-- 
2.43.0


From a437ac246027bfb5411b794affd80a0d7219e783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:28 +0000
Subject: [PATCH 09/34] fix: hand out copies of the runtime figures

---
 core/ctrl.go  | 2 +-
 core/model.go | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 108f10b..7d88b06 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -298,7 +298,7 @@ func (algo *Algo) run() {
 			// newData = algo.newData
 			centroids, runtimeFigures, err = algo.impl.Iterate(
 				NewSimpleOCModel(
-					algo.conf, algo.space, algo.status, algo.runtimeFigures, algo.centroids,
+					algo.conf, algo.space, algo.status, algo.RuntimeFigures(), algo.centroids,
 				),
 			)
 			duration = time.Now().Sub(start)
diff --git a/core/model.go b/core/model.go
index 6a422f0..34120f0 100644
--- a/core/model.go
+++ b/core/model.go
@@ -28,7 +28,11 @@ func (algo *Algo) Space() Space {
 func (algo *Algo) RuntimeFigures() (figures RuntimeFigures) {
 	algo.modelMutex.RLock()
 	defer algo.modelMutex.RUnlock()
-	return algo.runtimeFigures
+	figures = make(RuntimeFigures, len(algo.runtimeFigures))
+	for name, value := range algo.runtimeFigures {
+		figures[name] = value
+	}
+	return
 }
 
 // Conf returns configuration
-- 
2.43.0


From 5df413debdbd54055d5973e38ea16cc45cbc2261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:28 +0000
Subject: [PATCH 10/34] fix: a failed initialization publishes no centroids

---
 core/ctrl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ctrl.go b/core/ctrl.go
index 7d88b06..36af656 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -91,6 +91,9 @@ func (algo *Algo) init() (err error) {
 		algo.setStatus(NewOCStatus(Initializing), false)
 		var centroids Clust
 		centroids, err = algo.impl.Init(algo)
+		if err != nil {
+			centroids = nil // nothing usable
+		}
 		algo.modelMutex.Lock()
 		algo.centroids = centroids
 		algo.modelMutex.Unlock()
-- 
2.43.0


From 321dfb8092937db97171937f5e0ff520c228b745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:48 +0000
Subject: [PATCH 11/34] fix: an initializer that fails returns an error and no
 centroids

---
 kmeans/init.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kmeans/init.go b/kmeans/init.go
index 600abe1..c62f307 100644
--- a/kmeans/init.go
+++ b/kmeans/init.go
@@ -49,15 +49,18 @@ func GivenInitializer(k int, elemts []core.Elemt, space core.Space, _ *rand.Rand
 // PPInitializer initializes a clustering algorithm with kmeans++
 func PPInitializer(k int, elemts []core.Elemt, space core.Space, src *rand.Rand) (centroids core.Clust, err error) {
 	err = check(k, elemts)
-	centroids = make(core.Clust, k)
 
 	if err == nil {
+		centroids = make(core.Clust, k)
 		var draw = src.Intn(len(elemts))
-		centroids[0] = elemts[draw]
+		centroids[0] = space.Copy(elemts[draw])
 
 		for i := 1; i < k && err == nil; i++ {
 			centroids[i], err = PPIter(centroids[:i], elemts, space, src)
 		}
+		if err != nil {
+			centroids = nil
+		}
 	}
 
 	return
@@ -76,9 +79,9 @@ var ErrNullSet = errors.New("cannot draw over an empty set")
 // RandInitializer initializes a clustering with random testPoints
 func RandInitializer(k int, elemts []core.Elemt, space core.Space, src *rand.Rand) (centroids core.Clust, err error) {
 	err = check(k, elemts)
-	centroids = make(core.Clust, k)
 
 	if err == nil {
+		centroids = make(core.Clust, k)
 		var chosen = make(map[int]int)
 		var i int
 
-- 
2.43.0


From 7e4c998c2f6e6474f88d0ab8d555e7001837bc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:48 +0000
Subject: [PATCH 12/34] fix: a weighted choice always is an index of positive
 weight

---
 kmeans/init.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kmeans/init.go b/kmeans/init.go
index c62f307..6c5029f 100644
--- a/kmeans/init.go
+++ b/kmeans/init.go
@@ -114,10 +114,13 @@ func WeightedChoice(weights []float64, rand *rand.Rand) (int, error) {
 	}
 
 	var cursor = rand.Float64() * sum
-	for cursor > 0 {
+	for cursor >= 0 && idx < len(weights) {
 		cursor -= weights[idx]
 		idx++
 	}
+	for weights[idx-1] == 0 { // rounding errors left a rest after the last choice
+		idx--
+	}
 
 	return idx - 1, nil
 }
-- 
2.43.0


From 37094e23b0d7ba68c13b827ddce22ccea00c18f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:49 +0000
Subject: [PATCH 13/34] fix: a cosinus distance never is negative

---
 core/clustering.go | 2 +-
 cosinus/cosinus.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/clustering.go b/core/clustering.go
index 368697e..919ccf9 100644
--- a/core/clustering.go
+++ b/core/clustering.go
@@ -143,7 +143,7 @@ func (c *Clust) nearest(elemt Elemt, space Space) (label int, min float64) {
 	label = -1
 
 	for i := 0; i < len(*c); i++ {
-		if d := space.Dist(elemt, (*c)[i]); min < 0 || min > d {
+		if d := space.Dist(elemt, (*c)[i]); label < 0 || min > d {
 			min = d
 			label = i
 		}
diff --git a/cosinus/cosinus.go b/cosinus/cosinus.go
index ff23d8e..e63fa72 100644
--- a/cosinus/cosinus.go
+++ b/cosinus/cosinus.go
@@ -29,7 +29,7 @@ func (space Space) Dist(elemt1, elemt2 core.Elemt) float64 {
 
 // PointDist return distance of points
 func (space Space) PointDist(point1 []float64, point2 []float64) float64 {
-	return 1 - Cosinus(point1, point2)
+	return math.Max(0, 1-Cosinus(point1, point2)) // rounding may lead below 0
 }
 
 // Combine returns the weighted average of elemt1 and elemt2
-- 
2.43.0


From bb8945405338343bebac28ff9e7f9be7f1a03b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:49 +0000
Subject: [PATCH 14/34] fix: an unconstrained DTW explores every path whatever
 the longest series

---
 dtw/cost.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtw/cost.go b/dtw/cost.go
index 7f59c2f..64aa146 100644
--- a/dtw/cost.go
+++ b/dtw/cost.go
@@ -51,6 +51,9 @@ func (cumCost *CumCostMatrix) Path() []Ends {
 func (cumCost *CumCostMatrix) setStride(shortest int, longest int) {
 	if cumCost.window == 0 {
 		cumCost.window = longest
+		if shortest > longest { // the second series may be the shortest one
+			cumCost.window = shortest
+		}
 	}
 	var maxWindow = 2*cumCost.window + 1
 	cumCost.stride0 = shortest
-- 
2.43.0


From a52f5c6470a1a75a9c4c977b40e2d2d54ad7a499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:49 +0000
Subject: [PATCH 15/34] fix: pushed data are staged without limit and applied
 without a race

---
 core/buffer.go | 56 ++++++++++++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/core/buffer.go b/core/buffer.go
index dce1fbd..7571838 100644
--- a/core/buffer.go
+++ b/core/buffer.go
@@ -1,5 +1,7 @@
 package core
 
+import "sync"
+
 // Buffer interface
 type Buffer interface {
 	Push(elemt Elemt, running bool) error
@@ -11,21 +13,18 @@ type Buffer interface {
 // In synchronous mode, when pushed() is called data are stored.
 // In asynchronous mode, when pushed() is called data are staged.
 // Staged data are stored when apply() is called.
+// Data are never modified once they have been returned.
 type DataBuffer struct {
-	pipe     chan Elemt
+	mutex    sync.Mutex
+	staged   []Elemt
 	data     []Elemt
 	strategy bufferSizeStrategy
 }
 
-// Maximal default pipe size
-const pipeSize = 2000
-
 // NewDataBuffer creates a fixed size buffer if given size > 0.
 // Otherwise creates an infinite size buffer.
 func NewDataBuffer(data []Elemt, size int) Buffer {
-	var db = DataBuffer{
-		pipe: make(chan Elemt, pipeSize),
-	}
+	var db = DataBuffer{}
 
 	switch {
 	case size > len(data):
@@ -52,44 +51,43 @@ func NewDataBuffer(data []Elemt, size int) Buffer {
 
 // Push stores or stages an element depending on synchronous / asynchronous mode.
 func (b *DataBuffer) Push(elmt Elemt, running bool) (err error) {
-	if running {
-		b.pipe <- elmt
-	} else {
-		b.data = b.strategy.push(b.data, elmt)
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+	b.staged = append(b.staged, elmt)
+	if !running {
+		b.apply()
 	}
 	return
 }
 
 // Data returns buffer data
 func (b *DataBuffer) Data() (data []Elemt) {
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
 	return b.data
 }
 
 // Apply all staged data in asynchronous mode, otherwise do nothing
 func (b *DataBuffer) Apply() (err error) {
-	for b.applyNext() {
-	}
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+	b.apply()
 	return
 }
 
-// Applies next staged data if available and returns true.
-// Otherwise returns false.
-func (b *DataBuffer) applyNext() (ok bool) {
-	var elmt Elemt
-
-	select {
-	case elmt, ok = <-b.pipe:
-		if ok {
+func (b *DataBuffer) apply() {
+	if len(b.staged) > 0 {
+		b.data = b.strategy.own(b.data)
+		for _, elmt := range b.staged {
 			b.data = b.strategy.push(b.data, elmt)
 		}
-	default:
+		b.staged = nil
 	}
-
-	return
 }
 
 // Handle the way data are stored, i.e. infinite or fixed size buffer.
 type bufferSizeStrategy interface {
+	own(data []Elemt) []Elemt // data that push may modify
 	push(data []Elemt, elemt Elemt) []Elemt
 }
 
@@ -99,6 +97,12 @@ type fixedSizeStrategy struct {
 	position int
 }
 
+func (s *fixedSizeStrategy) own(data []Elemt) (owned []Elemt) {
+	owned = make([]Elemt, len(data), s.size)
+	copy(owned, data)
+	return
+}
+
 func (s *fixedSizeStrategy) push(data []Elemt, elemt Elemt) []Elemt {
 	if s.position == s.size {
 		s.position = 0
@@ -119,6 +123,10 @@ func (s *fixedSizeStrategy) push(data []Elemt, elemt Elemt) []Elemt {
 type infiniteSizeStrategy struct {
 }
 
+func (s *infiniteSizeStrategy) own(data []Elemt) []Elemt {
+	return data // push only appends
+}
+
 func (s *infiniteSizeStrategy) push(data []Elemt, elemt Elemt) []Elemt {
 	return append(data, elemt)
 }
-- 
2.43.0


From 071802261a2ef83a1ecc46d98fdef3aa22b09df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:49 +0000
Subject: [PATCH 16/34] fix: a copy applies the new configuration and space

---
 core/ctrl.go      | 8 +++++++-
 kmeans/impl.go    | 1 +
 mcmc/impl.go      | 1 +
 streaming/impl.go | 6 +++++-
 4 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 36af656..89d4e01 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -392,7 +392,13 @@ func (algo *Algo) SetSpace(space Space) (err error) {
 
 // Copy make a copy of this algo with new conf and space
 func (algo *Algo) Copy(conf Conf, space Space) (oc OnlineClust, err error) {
-	impl, err := algo.impl.Copy(algo)
+	err = PrepareConf(conf)
+	if err != nil {
+		return
+	}
+	impl, err := algo.impl.Copy(
+		NewSimpleOCModel(conf, space, algo.Status(), algo.RuntimeFigures(), algo.Centroids()),
+	)
 	if err == nil {
 		oc = NewAlgo(conf, impl, space)
 	}
diff --git a/kmeans/impl.go b/kmeans/impl.go
index 9e768f0..52dc26e 100644
--- a/kmeans/impl.go
+++ b/kmeans/impl.go
@@ -38,6 +38,7 @@ func (impl *Impl) Push(elemt core.Elemt, model core.OCModel) error {
 // Copy impl
 func (impl *Impl) Copy(model core.OCModel) (core.Impl, error) {
 	var newConf = model.Conf().(*Conf)
+	_ = impl.buffer.Apply() // a copy has every pushed data
 	var algo = NewAlgo(*newConf, model.Space(), impl.buffer.Data(), impl.initializer)
 	return algo.Impl(), nil
 }
diff --git a/mcmc/impl.go b/mcmc/impl.go
index 9e6d469..5fed4be 100644
--- a/mcmc/impl.go
+++ b/mcmc/impl.go
@@ -29,6 +29,7 @@ type Impl struct {
 // Copy impl
 func (impl *Impl) Copy(model core.OCModel) (core.Impl, error) {
 	var newConf = model.Conf().(*Conf)
+	_ = impl.buffer.Apply() // a copy has every pushed data
 	var algo = NewAlgo(*newConf, model.Space(), impl.buffer.Data(), impl.initializer, impl.distrib)
 	return algo.Impl(), nil
 }
diff --git a/streaming/impl.go b/streaming/impl.go
index 84b3730..2ccc64c 100644
--- a/streaming/impl.go
+++ b/streaming/impl.go
@@ -22,7 +22,11 @@ type Impl struct {
 // Copy impl
 func (impl *Impl) Copy(model core.OCModel) (core.Impl, error) {
 	var conf = model.Conf().(*Conf)
-	var algo = NewAlgo(*conf, model.Space(), impl.clust)
+	var clust = model.Centroids() // impl.clust may be changing
+	if conf.BufferSize < len(clust) {
+		return nil, errors.New("buffer size must be greater than the number of clusters")
+	}
+	var algo = NewAlgo(*conf, model.Space(), clust)
 	return algo.Impl(), nil
 }
 
-- 
2.43.0


From e7946bc872e818f756e4c85053d4b9ef469e8a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:49 +0000
Subject: [PATCH 17/34] fix: streaming centroids do not change once they have
 been published

---
 streaming/impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streaming/impl.go b/streaming/impl.go
index 2ccc64c..f9b12df 100644
--- a/streaming/impl.go
+++ b/streaming/impl.go
@@ -66,7 +66,7 @@ func (impl *Impl) Iterate(model core.OCModel) (clust core.Clust, runtimeFigures
 	select {
 	case elemt := <-impl.c:
 		impl.Process(elemt, model.Space())
-		clust = impl.clust
+		clust = append(core.Clust{}, impl.clust...) // impl.clust changes at the next iteration
 	default:
 	}
 	runtimeFigures = impl.runtimeFigures()
-- 
2.43.0


From 2f6bf78160fa2bf819f75d26e6ac055a3b6743fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:49 +0000
Subject: [PATCH 18/34] fix: a late distribution is read under its lock

---
 mcmc/latedistrib.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mcmc/latedistrib.go b/mcmc/latedistrib.go
index 488910f..5d763c9 100644
--- a/mcmc/latedistrib.go
+++ b/mcmc/latedistrib.go
@@ -38,9 +38,7 @@ func (d *LateDistrib) Pdf(x, mu core.Elemt, time int) float64 {
 }
 
 func (d *LateDistrib) initialize(elemt core.Elemt) {
-	if !d.initialized {
-		d.tryInitialize(elemt)
-	}
+	d.tryInitialize(elemt)
 }
 
 func (d *LateDistrib) tryInitialize(elemt core.Elemt) {
-- 
2.43.0


From 169110ab7cb0f1bc11677a16563382e1b7c0a84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:49 +0000
Subject: [PATCH 19/34] fix: acceptations are counted from the initialization

---
 mcmc/impl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mcmc/impl.go b/mcmc/impl.go
index 5fed4be..bd5f826 100644
--- a/mcmc/impl.go
+++ b/mcmc/impl.go
@@ -57,6 +57,7 @@ func (impl *Impl) Init(model core.OCModel) (centroids core.Clust, err error) {
 			pdf:     impl.proba(*mcmcConf, space, centroids, centroids, currentTime),
 		}
 		impl.time = currentTime
+		impl.acc = 0
 	}
 	return
 }
-- 
2.43.0


From dd8c4c627f232fb047d99a64b4ce6cd697c51bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:50 +0000
Subject: [PATCH 20/34] fix: a panic in a parallel process is raised in its
 caller

---
 core/util.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/util.go b/core/util.go
index ac1e020..d78d39a 100644
--- a/core/util.go
+++ b/core/util.go
@@ -10,9 +10,11 @@ func Par(process func(int, int, int), size int, degree int) {
 	var wg = &sync.WaitGroup{}
 	var offset = size / degree
 	var remainder = size % degree
+	var panics = make([]interface{}, degree)
 	wg.Add(degree)
 	var launch = func(start int, end int, rank int) {
 		defer wg.Done()
+		defer func() { panics[rank] = recover() }()
 		process(start, end, rank)
 	}
 	var start = 0
@@ -28,4 +30,9 @@ func Par(process func(int, int, int), size int, degree int) {
 		start = end
 	}
 	wg.Wait()
+	for _, recovery := range panics { // the caller fails, not the program
+		if recovery != nil {
+			panic(recovery)
+		}
+	}
 }
-- 
2.43.0


From 3fbd0c470409145e0889fb194dd30d4a0cbde603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:50 +0000
Subject: [PATCH 21/34] fix: a panic during the initialization fails the
 algorithm

---
 core/ctrl.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 89d4e01..a55eae5 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -90,7 +90,7 @@ func (algo *Algo) init() (err error) {
 		}
 		algo.setStatus(NewOCStatus(Initializing), false)
 		var centroids Clust
-		centroids, err = algo.impl.Init(algo)
+		centroids, err = algo.initImpl()
 		if err != nil {
 			centroids = nil // nothing usable
 		}
@@ -108,6 +108,16 @@ func (algo *Algo) init() (err error) {
 	return
 }
 
+// initImpl initializes the implementation, a panic is an error such as in run
+func (algo *Algo) initImpl() (centroids Clust, err error) {
+	defer func() {
+		if recovery := recover(); recovery != nil {
+			err = fmt.Errorf("%v", recovery)
+		}
+	}()
+	return algo.impl.Init(algo)
+}
+
 // Play the algorithm in online mode
 func (algo *Algo) Play() (err error) {
 	algo.ctrlMutex.Lock()
-- 
2.43.0


From 3b677f15fabbd467a4b55f667a22d849f2edfa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:53 +0000
Subject: [PATCH 22/34] fix: a batch reports the failure of its run whenever it
 occurs

---
 core/ctrl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ctrl.go b/core/ctrl.go
index a55eae5..a179db6 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -50,6 +50,9 @@ func (algo *Algo) Batch() (err error) {
 	err = algo.Play()
 	if err == nil {
 		err = algo.Wait(nil, 0)
+		if err == nil { // the run may have failed before the wait
+			err = algo.Status().Error
+		}
 		if err == nil {
 			algo.Stop()
 		}
-- 
2.43.0


From 977f0f27687e2ccc37cefa9b9bdf0ab46d6660d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:32 +0000
Subject: [PATCH 23/34] fix: an initialization that is refused keeps the
 timeout of the run

---
 core/ctrl.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index a179db6..26da0b4 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -70,11 +70,11 @@ func (algo *Algo) Init() error {
 }
 
 func (algo *Algo) init() (err error) {
-	if algo.timeout != nil {
-		algo.timeout.Disable()
-	}
 	switch algo.status.Value {
 	case Finished:
+		if algo.timeout != nil {
+			algo.timeout.Disable()
+		}
 		algo.modelMutex.Lock()
 		algo.pushedData = 0
 		algo.duration = 0
-- 
2.43.0


From 3a42fa2577e9aa44e982ae923e1bb2d769d2ae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 24/34] fix: the iteration frequency holds after a pause

---
 core/ctrl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 26da0b4..39f105e 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -284,7 +284,7 @@ func (algo *Algo) run() {
 	if conf.IterFreq > 0 {
 		iterFreq = time.Duration(float64(time.Second) / conf.IterFreq)
 	}
-	var lastIterationTime = time.Now()
+	var lastIterationTime time.Time
 
 	// var newData int
 
@@ -312,6 +312,7 @@ func (algo *Algo) run() {
 		default:
 			// run implementation
 			// newData = algo.newData
+			lastIterationTime = time.Now()
 			centroids, runtimeFigures, err = algo.impl.Iterate(
 				NewSimpleOCModel(
 					algo.conf, algo.space, algo.status, algo.RuntimeFigures(), algo.centroids,
@@ -331,7 +332,6 @@ func (algo *Algo) run() {
 				if iterFreq > 0 { // with iteration freqency
 					var diff = iterFreq - time.Now().Sub(lastIterationTime)
 					time.Sleep(diff)
-					lastIterationTime = time.Now()
 				}
 			}
 		}
-- 
2.43.0


From 3f92b7f009e030289fcfacefeb58d90885ca253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:02 +0000
Subject: [PATCH 25/34] fix: a copy of an algorithm with a frame forgets its
 oldest elements first

The data of a fixed size buffer were in ring order: a buffer made from them,
as a copy does, took their last ones for the latest.
---
 core/buffer.go | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/core/buffer.go b/core/buffer.go
index 7571838..f8b345a 100644
--- a/core/buffer.go
+++ b/core/buffer.go
@@ -29,13 +29,13 @@ func NewDataBuffer(data []Elemt, size int) Buffer {
 	switch {
 	case size > len(data):
 		// fixed size buffer, less data than buffer size
-		db.strategy = &fixedSizeStrategy{size, len(data)}
+		db.strategy = &fixedSizeStrategy{size}
 		db.data = make([]Elemt, len(data), size)
 		copy(db.data[:len(data)], data)
 
 	case size > 0:
 		// fixed size buffer, more data than buffer size
-		db.strategy = &fixedSizeStrategy{size, size}
+		db.strategy = &fixedSizeStrategy{size}
 		db.data = make([]Elemt, size)
 		copy(db.data, data[len(data)-size:])
 
@@ -93,8 +93,7 @@ type bufferSizeStrategy interface {
 
 // Fixed size buffer
 type fixedSizeStrategy struct {
-	size     int
-	position int
+	size int
 }
 
 func (s *fixedSizeStrategy) own(data []Elemt) (owned []Elemt) {
@@ -103,20 +102,13 @@ func (s *fixedSizeStrategy) own(data []Elemt) (owned []Elemt) {
 	return
 }
 
+// push keeps the order of the elements: a buffer made from these data forgets the oldest first
 func (s *fixedSizeStrategy) push(data []Elemt, elemt Elemt) []Elemt {
-	if s.position == s.size {
-		s.position = 0
+	if len(data) == s.size {
+		data = data[1:]
 	}
 
-	if s.position < len(data) {
-		data[s.position] = elemt
-	} else {
-		data = append(data, elemt)
-	}
-
-	s.position++
-
-	return data
+	return append(data, elemt)
 }
 
 // Infinite size buffer
-- 
2.43.0


From 8a058166a0a520c2349a859bcedc220add56c31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:22 +0000
Subject: [PATCH 26/34] fix: the density of a student distribution is finite in
 large dimensions

Gamma overflows from dimension 341 on: densities were infinite, their
differences not numbers, and mcmc never accepted a proposal.
---
 mcmc/multivt.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mcmc/multivt.go b/mcmc/multivt.go
index d873187..2cc10a2 100644
--- a/mcmc/multivt.go
+++ b/mcmc/multivt.go
@@ -45,11 +45,17 @@ func NewMultivT(conf MultivTConf) MultivT {
 	m.normal, _ = distmv.NewNormal(mu, sigma, m.RGen)
 	m.chi2 = &distuv.ChiSquared{K: m.Nu, Src: m.RGen}
 	m.power = (float64(m.Dim) + m.Nu) / 2.
-	m.gammaFactor = math.Log(math.Gamma(m.power) / math.Gamma(float64(m.Nu)/2.))
+	m.gammaFactor = logGamma(m.power) - logGamma(m.Nu/2.)
 
 	return m
 }
 
+// logGamma is finite for large dimensions, unlike the logarithm of Gamma
+func logGamma(x float64) float64 {
+	var log, _ = math.Lgamma(x)
+	return log
+}
+
 func (m *MultivT) setConf(conf MultivTConf) {
 	m.MultivTConf = conf
 	if conf.Nu == 0 {
-- 
2.43.0


From b581d6ec922198b79d1f117708ded4a828cdeea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:34 +0000
Subject: [PATCH 27/34] fix: a chain compares proposals on the same data

---
 mcmc/impl.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mcmc/impl.go b/mcmc/impl.go
index bd5f826..daf1cb3 100644
--- a/mcmc/impl.go
+++ b/mcmc/impl.go
@@ -24,6 +24,7 @@ type Impl struct {
 	time        int
 	dim         int
 	current     proposal
+	data        []core.Elemt // data the current proposal was evaluated on
 }
 
 // Copy impl
@@ -56,6 +57,7 @@ func (impl *Impl) Init(model core.OCModel) (centroids core.Clust, err error) {
 			loss:    impl.strategy.Loss(*mcmcConf, space, centroids, data),
 			pdf:     impl.proba(*mcmcConf, space, centroids, centroids, currentTime),
 		}
+		impl.data = data
 		impl.time = currentTime
 		impl.acc = 0
 	}
@@ -68,11 +70,21 @@ func (impl *Impl) Iterate(model core.OCModel) (clust core.Clust, runtimeFigures
 
 	var data = impl.buffer.Data()
 	var currentTime = impl.getCurrentTime(data)
+	if impl.changed(data) { // both proposals are compared on the same data
+		impl.current.loss = impl.strategy.Loss(*mcmcConf, model.Space(), impl.current.centers, data)
+		impl.current.pdf = impl.proba(*mcmcConf, model.Space(), impl.current.centers, impl.current.centers, currentTime)
+		impl.data = data
+	}
 	impl.current, clust = impl.doIter(*mcmcConf, model.Space(), impl.current, model.Centroids(), data, currentTime)
 	impl.time = currentTime
 	return clust, impl.runtimeFigures(), impl.buffer.Apply()
 }
 
+// changed tells if data were received since the current proposal was evaluated
+func (impl *Impl) changed(data []core.Elemt) bool {
+	return len(data) != len(impl.data) || len(data) > 0 && &data[0] != &impl.data[0]
+}
+
 func (impl *Impl) getCurrentTime(data []core.Elemt) int {
 	return len(data)
 }
-- 
2.43.0


From e2aa287c8d97a09e10079d698cb3a1539ef71654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:33 +0000
Subject: [PATCH 28/34] fix: initializing a streaming algorithm again starts
 from its new first element only

---
 streaming/impl.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streaming/impl.go b/streaming/impl.go
index f9b12df..995b1c6 100644
--- a/streaming/impl.go
+++ b/streaming/impl.go
@@ -52,6 +52,8 @@ func (impl *Impl) Init(model core.OCModel) (clust core.Clust, err error) {
 	select {
 	case centroids := <-impl.c:
 		clust = core.Clust{centroids}
+		impl.clust, impl.cards = nil, nil
+		impl.maxDistance, impl.count = 0, 0
 		for i := range clust {
 			impl.AddCenter(clust[i], 0.)
 		}
-- 
2.43.0


From d1ed11c4835de6f6e4da026fee71f7548ce4a888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:33 +0000
Subject: [PATCH 29/34] fix: initializing an mcmc algorithm again forgets the
 centers of its former runs

---
 mcmc/impl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mcmc/impl.go b/mcmc/impl.go
index daf1cb3..9c9d7fc 100644
--- a/mcmc/impl.go
+++ b/mcmc/impl.go
@@ -60,6 +60,7 @@ func (impl *Impl) Init(model core.OCModel) (centroids core.Clust, err error) {
 		impl.data = data
 		impl.time = currentTime
 		impl.acc = 0
+		impl.store = NewCenterStore(impl.store.rgen)
 	}
 	return
 }
-- 
2.43.0


From 3e767fc221072e7f361033cc662e80b8db4869c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:22 +0000
Subject: [PATCH 30/34] fix: refuse a negative number of processors, more than
 three moves of K, a negative buffer size

---
 kmeans/conf.go    | 3 +++
 mcmc/conf.go      | 6 ++++++
 streaming/conf.go | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/kmeans/conf.go b/kmeans/conf.go
index cb0da5a..6a87f3f 100644
--- a/kmeans/conf.go
+++ b/kmeans/conf.go
@@ -26,6 +26,9 @@ func (conf *Conf) Verify() (err error) {
 	if conf.K < 1 {
 		err = fmt.Errorf("Illegal value for K: %v", conf.K)
 	}
+	if err == nil && conf.NumCPU < 0 {
+		err = fmt.Errorf("Illegal value for NumCPU: %v", conf.NumCPU)
+	}
 	return
 }
 
diff --git a/mcmc/conf.go b/mcmc/conf.go
index 82f2731..cc13aaa 100644
--- a/mcmc/conf.go
+++ b/mcmc/conf.go
@@ -57,5 +57,11 @@ func (conf *Conf) Verify() (err error) {
 	if err == nil && conf.InitK > conf.MaxK && conf.MaxK != 0 {
 		err = fmt.Errorf("Illegal value for Max K / Init K: %v / %v", conf.MaxK, conf.InitK)
 	}
+	if err == nil && len(conf.ProbaK) > 3 {
+		err = fmt.Errorf("Illegal value for ProbaK: %v", conf.ProbaK)
+	}
+	if err == nil && conf.NumCPU < 0 {
+		err = fmt.Errorf("Illegal value for NumCPU: %v", conf.NumCPU)
+	}
 	return
 }
diff --git a/streaming/conf.go b/streaming/conf.go
index 5966ddf..3bb4420 100644
--- a/streaming/conf.go
+++ b/streaming/conf.go
@@ -48,5 +48,8 @@ func (conf *Conf) Verify() (err error) {
 	if conf.OutAfter < 2 {
 		err = fmt.Errorf("OutAfter should be greater than 1: %v", conf.OutAfter)
 	}
+	if err == nil && conf.BufferSize < 0 {
+		err = fmt.Errorf("BufferSize should be positive: %v", conf.BufferSize)
+	}
 	return
 }
-- 
2.43.0


From ffda68dd762c0247f244b7bd117bb1e58fb4150d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:50 +0000
Subject: [PATCH 31/34] fix: a weighted average that begins with elements of
 null weight is not a number

---
 core/clustering.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/clustering.go b/core/clustering.go
index 919ccf9..62a2eb7 100644
--- a/core/clustering.go
+++ b/core/clustering.go
@@ -183,6 +183,9 @@ func WeightedDBA(elemts []Elemt, weights []int, space Space) (dba Elemt, err err
 	var weight = weights[0]
 
 	for i := 1; i < len(elemts); i++ {
+		if weight+weights[i] == 0 { // elements of null weight only
+			continue
+		}
 		dba = space.Combine(dba, weight, elemts[i], weights[i])
 		weight += weights[i]
 	}
-- 
2.43.0


From 5811b8df7f07f2c5b705f1599a2ef3855abeeb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:07 +0000
Subject: [PATCH 32/34] fix: Play begins a run when the implementation fails to
 initialize with ErrAlreadyCreated

---
 core/ctrl.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 39f105e..b4e4db5 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -134,11 +134,10 @@ func (algo *Algo) Play() (err error) {
 		fallthrough
 	case Created:
 		err = algo.init()
-		if err != nil && err != ErrAlreadyCreated {
+		if err != nil { // the implementation can not be initialized, whatever its error is
 			algo.statusMutex.Unlock()
 			return
 		}
-		err = nil
 		fallthrough
 	case Ready:
 		algo.ackChannel = make(chan bool)
-- 
2.43.0


From e1164f92f30bf99bd22fbc7a896f9fdd23d10204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:02 +0000
Subject: [PATCH 33/34] fix: copies of an mcmc algorithm use the generator of a
 student distribution at the same time

---
 mcmc/multivt.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mcmc/multivt.go b/mcmc/multivt.go
index 2cc10a2..863d8b0 100644
--- a/mcmc/multivt.go
+++ b/mcmc/multivt.go
@@ -2,6 +2,7 @@ package mcmc
 
 import (
 	"math"
+	"sync"
 	"time"
 
 	"github.com/wearelumenai/distclus/core"
@@ -27,6 +28,7 @@ type MultivT struct {
 	chi2        *distuv.ChiSquared
 	gammaFactor float64
 	power       float64
+	draw        *sync.Mutex // the generator is shared by the copies of an algorithm
 }
 
 // NewMultivT Constructor for multivT distribution
@@ -40,7 +42,7 @@ func NewMultivT(conf MultivTConf) MultivT {
 	}
 	var sigma = mat.NewDiagDense(conf.Dim, s)
 
-	var m = MultivT{}
+	var m = MultivT{draw: &sync.Mutex{}}
 	m.setConf(conf)
 	m.normal, _ = distmv.NewNormal(mu, sigma, m.RGen)
 	m.chi2 = &distuv.ChiSquared{K: m.Nu, Src: m.RGen}
@@ -72,8 +74,10 @@ func (m MultivT) Sample(mu core.Elemt, time int) core.Elemt {
 	var fmu = mu.([]float64)
 	var scale = 1 / math.Sqrt(float64(time*20))
 
+	m.draw.Lock()
 	var chiInverse = math.Sqrt(m.chi2.K / m.chi2.Rand())
 	var student = m.normal.Rand(nil)
+	m.draw.Unlock()
 
 	for i := range student {
 		student[i] = fmu[i] + student[i]*chiInverse*scale
-- 
2.43.0


From d5fa64c1e953bec94a4d09f43a5e1c780c5252e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:35 +0000
Subject: [PATCH 34/34] fix: a run that ended by itself before its timeout is
 not finished by it afterwards

---
 core/algo.go |  1 +
 core/ctrl.go | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/algo.go b/core/algo.go
index 3bebd7f..b7d0167 100644
--- a/core/algo.go
+++ b/core/algo.go
@@ -32,6 +32,7 @@ type Algo struct {
 	duration       time.Duration
 	lastDataTime   int64
 	timeout        Timeout
+	runEnd         time.Time // end of the last run
 
 	modelMutex  sync.RWMutex // algo model mutex
 	statusMutex sync.RWMutex // algo model mutex
diff --git a/core/ctrl.go b/core/ctrl.go
index b4e4db5..c77c9f2 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -143,6 +143,7 @@ func (algo *Algo) Play() (err error) {
 		algo.ackChannel = make(chan bool)
 		go algo.run()
 		algo.statusMutex.Unlock()
+		var start = time.Now()
 		algo.sendStatus(NewOCStatus(Running))
 		if algo.timeout != nil {
 			algo.timeout.Disable()
@@ -153,7 +154,7 @@ func (algo *Algo) Play() (err error) {
 			timer = InterruptionTimeout(interruptionTimeout, func(interruption error) error {
 				algo.ctrlMutex.Lock()
 				defer algo.ctrlMutex.Unlock()
-				if !timer.Enabled() { // the run was over and another one began
+				if !timer.Enabled() || algo.endedBefore(start.Add(interruptionTimeout)) { // the run was over
 					return ErrNotAlive
 				}
 				return algo.finish(interruption)
@@ -167,6 +168,13 @@ func (algo *Algo) Play() (err error) {
 	return
 }
 
+// endedBefore tells if the last run ended by itself before the given date
+func (algo *Algo) endedBefore(date time.Time) bool {
+	algo.statusMutex.RLock()
+	defer algo.statusMutex.RUnlock()
+	return algo.status.Value == Ready && algo.runEnd.Before(date)
+}
+
 // Pause the algorithm and set status to idle
 func (algo *Algo) Pause() (err error) {
 	algo.ctrlMutex.Lock()
@@ -253,6 +261,7 @@ func (algo *Algo) Predict(elemt Elemt) (pred Elemt, label int, dist float64) {
 func (algo *Algo) recover(start time.Time, end *OCStatus) {
 	algo.statusMutex.Lock()
 	defer algo.statusMutex.Unlock()
+	algo.runEnd = time.Now()
 	var recovery = recover()
 	if recovery != nil {
 		var err = fmt.Errorf("%v", recovery)
-- 
2.43.0

