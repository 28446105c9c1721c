package streams

//vp:use lib_app.go
//vp:use c07_revoke.go

import "time"

// vpMeter is a metrics handler
type vpMeter struct {
	got  []Metric
	hold chan struct{} // the handler waits for it
	busy int
}

func (m *vpMeter) handle(x Metric) {
	m.busy++
	vpVerify(m.busy == 1, "the metrics handler is called concurrently")
	if m.hold != nil {
		<-m.hold
	} else {
		vpYield()
	}
	m.got = append(m.got, x)
	m.busy--
}

func (m *vpMeter) count(op string) (n int) {
	for _, x := range m.got {
		if x.Operation == op {
			n++
		}
	}
	return
}

// 1..3 metrics with any counts, sizes and times, with or without an execution time, emitted from 2 goroutines of a running event source; up to 1 (thorough 2)
// scheduling delays: each is given to the handler once as it was emitted, its execution time defaulted to its start time, and its durations follow from
// its times
//
//vp:harness prop=C37 delays=1 thorough:delays=2 horizon=60s sched
func vpH_C37_emit() {
	a := vpNewApp(1)
	var m vpMeter
	a.cfg.MetricsHandler = m.handle
	a.start()
	n := 1 + vpChoose(3)
	var sent []Metric
	for i := 0; i < n; i++ {
		t0, d1, d2 := vpInt64(), vpInt64(), vpInt64()
		vpAssume(vpAnd(vpAnd(t0 >= 0, t0 < 1<<40), vpAnd(vpAnd(d1 >= 0, d1 < 5e8), vpAnd(d2 >= 0, d2 < 5e8))))
		x := Metric{StartTime: time.Unix(t0, 0), EndTime: time.Unix(t0, d1+d2), Count: vpInt(), Bytes: vpInt(), PartitionCount: i, Partition: vpInt32(), Operation: "op", Topic: "x", GroupId: "y"}
		if vpChoose(2) == 1 {
			x.ExecuteTime = time.Unix(t0, d1)
		}
		sent = append(sent, x)
	}
	for i := range sent {
		if i == 1 {
			go func() { a.es.EmitMetric(sent[1]) }()
			continue
		}
		a.es.EmitMetric(sent[i])
	}
	vpQuiesce(time.Millisecond)
	vpVerify(len(m.got) == n, "a metric is not given to the handler once")
	seen := map[int]bool{}
	for _, x := range m.got {
		y := sent[x.PartitionCount]
		vpVerify(!seen[x.PartitionCount], "a metric is given to the handler twice")
		seen[x.PartitionCount] = true
		vpVerify(x.Operation == y.Operation && x.Topic == y.Topic && x.GroupId == y.GroupId && vpAnd(x.Count == y.Count, vpAnd(x.Bytes == y.Bytes, x.Partition == y.Partition)), "a metric is changed on its way")
		vpVerify(vpAnd(x.StartTime.Equal(y.StartTime), x.EndTime.Equal(y.EndTime)), "a metric is changed on its way")
		if y.ExecuteTime.IsZero() {
			vpVerify(x.ExecuteTime.Equal(x.StartTime), "the execution time of a metric does not default to its start time")
			vpVerify(x.Linger() == 0 && x.ExecuteDuration() == x.Duration(), "the durations of a metric do not fit")
			vpReach("defaulted")
		} else {
			vpVerify(x.ExecuteTime.Equal(y.ExecuteTime), "a metric is changed on its way")
			vpVerify(x.Linger()+x.ExecuteDuration() == x.Duration(), "the durations of a metric do not fit")
		}
		vpVerify(x.Duration() == y.EndTime.Sub(y.StartTime), "the durations of a metric do not fit")
	}
}

// the handler does not come back while 2047..2051 metrics are emitted: no emission blocks, what was accepted is given to the handler once and in order
// when it goes on, and so are later metrics
//
//vp:harness prop=C37 delays=1 horizon=60s steps=4000000 sched
func vpH_C37_full() {
	a := vpNewApp(1)
	m := vpMeter{hold: make(chan struct{})}
	a.cfg.MetricsHandler = m.handle
	a.start()
	n := 2047 + vpChoose(5)
	if vpChoose(2) == 1 {
		vpQuiesce(time.Millisecond)
	}
	done := vpDone(func() {
		vpQuietly(func() {
			for i := 0; i < n; i++ {
				a.es.EmitMetric(Metric{Count: i})
			}
		})
	})
	vpQuiesce(time.Millisecond)
	vpVerify(vpClosed(done), "emitting a metric blocks")
	close(m.hold)
	m.hold = nil
	vpQuiesce(time.Millisecond)
	vpVerify(len(m.got) >= 2047 && len(m.got) <= n, "a metric which was accepted is not given to the handler once")
	if n <= 2048 {
		vpVerify(len(m.got) == n, "a metric is dropped although there is room for it")
	} else {
		vpReach("more than fit")
	}
	for i, x := range m.got {
		vpVerify(x.Count == i, "metrics are given to the handler out of order")
	}
	k := len(m.got)
	a.es.EmitMetric(Metric{Count: -1})
	vpQuiesce(time.Millisecond)
	vpVerify(len(m.got) == k+1 && m.got[k].Count == -1, "a metric is dropped although there is room for it")
}

// 2 partitions of which one is prepared ahead of time, 2 events in 1..2 transactions and an interjection, the handler absent, present, or stuck with all
// space taken; up to 1 (thorough 2) scheduling delays: processing goes on, and a handler which keeps up gets one metric per transaction and preparation
//
//vp:harness prop=C37 delays=1 thorough:delays=2 timeout=100s thorough:timeout=500s horizon=60s steps=4000000 sched
func vpH_C37_processing() {
	a := vpNewApp(2)
	a.once = true
	var m vpMeter
	mode := vpChoose(3)
	if mode > 0 {
		a.cfg.MetricsHandler = m.handle
	}
	a.cfg.EosConfig = vpEos(2, 1, 1, 2)
	if mode == 2 {
		m.hold = make(chan struct{})
	}
	a.start()
	if mode == 2 {
		vpQuietly(func() {
			for i := 0; i < 2050; i++ {
				a.es.EmitMetric(Metric{Count: i})
			}
		})
		vpQuiesce(time.Millisecond)
		a.es.EmitMetric(Metric{}) // the handler has taken one
	}
	a.es.consumer.PrepareTopicPartition(ntp(1, "t"))
	a.w.group().assign("t", 0)
	a.add(0)
	a.add(0)
	go a.es.Interject(0, a.interjector)
	vpQuiesce(time.Second)
	a.w.group().assign("t", 1)
	a.add(1)
	vpQuiesce(time.Second)
	a.finished()
	vpVerify(vpBlockedIn("PrepareTopicPartition") == 0, "the metric of a preparation blocks")
	if mode == 1 {
		n := 0
		for _, t := range a.w.txns {
			if t.state == 1 && len(t.recs) > 0 {
				n++
			}
		}
		vpVerify(m.count(TxnCommitOperation) == n, "a transaction's metric is not given to the handler once")
		vpVerify(m.count(PartitionPreppedOperation) == 1, "the metric of a preparation is not given to the handler once")
		vpReach("metrics")
	}
}

// an event is processed and a partition is prepared while the event source is stopped at any of several moments and in either way, the handler
// absent, present or stuck, and metrics are emitted while and after it stops; up to 1 (thorough 2) scheduling delays
//
//vp:harness prop=C37 delays=1 thorough:delays=2 timeout=100s thorough:timeout=500s horizon=60s sched
func vpH_C37_stopping() {
	a := vpNewApp(2)
	var m vpMeter
	mode := vpChoose(3)
	if mode > 0 {
		a.cfg.MetricsHandler = m.handle
	}
	if mode == 2 {
		m.hold = make(chan struct{})
	}
	a.cfg.EosConfig = vpEos(2, 1, 1, 2)
	a.cfg.BalanceStrategies = [][]BalanceStrategy{{RangeBalanceStrategy}, nil}[vpChoose(2)]
	a.start(0)
	a.add(0).kind = 3 * vpChoose(2)
	if a.cfg.BalanceStrategies == nil {
		a.es.consumer.PrepareTopicPartition(ntp(1, "t"))
	}
	if w := vpChoose(3); w > 0 {
		vpQuiesce([]time.Duration{0, 7 * time.Millisecond, 100 * time.Millisecond}[w])
	}
	emitted := vpDone(func() {
		a.es.EmitMetric(Metric{Count: 1})
		a.es.EmitMetric(Metric{Count: 2})
	})
	if vpChoose(2) == 1 || a.cfg.BalanceStrategies == nil {
		a.es.StopNow()
	} else {
		a.es.Stop()
		<-a.es.Done()
	}
	a.es.EmitMetric(Metric{Count: 3})
	vpQuiesce(time.Second)
	a.es.EmitMetric(Metric{Count: 4})
	vpVerify(vpClosed(emitted), "emitting a metric blocks")
	seen := map[int]bool{}
	for _, x := range m.got {
		if x.Operation == "" {
			vpVerify(!seen[x.Count], "a metric is given to the handler twice")
			seen[x.Count] = true
		}
	}
	vpReach("stopped")
}

func vpQuietly(f func()) {
	vpNoYield(true)
	f()
	vpNoYield(false)
}

// metrics which have no end, or neither start nor end, with any execution time: each is given to the handler as it was emitted, its execution time
// defaulted to its start time
//
//vp:harness prop=C37 horizon=60s sched
func vpH_C37_partial() {
	a := vpNewApp(1)
	var m vpMeter
	a.cfg.MetricsHandler = m.handle
	a.start()
	x := Metric{Count: vpInt(), Operation: "gauge"}
	t := time.Unix(1000, 0)
	if vpChoose(2) == 1 {
		x.StartTime = t
	}
	if vpChoose(2) == 1 {
		x.EndTime = t.Add(time.Second)
	}
	if vpChoose(2) == 1 {
		x.ExecuteTime = t.Add(time.Millisecond)
	}
	a.es.EmitMetric(x)
	vpQuiesce(time.Millisecond)
	vpVerify(len(m.got) == 1, "a metric is not given to the handler once")
	y := m.got[0]
	if x.ExecuteTime.IsZero() {
		vpVerify(y.ExecuteTime.Equal(x.StartTime), "the execution time of a metric does not default to its start time")
	} else {
		vpVerify(y.ExecuteTime.Equal(x.ExecuteTime), "a metric is changed on its way")
	}
	vpVerify(y.Count == x.Count && y.Operation == x.Operation && y.StartTime.Equal(x.StartTime) && y.EndTime.Equal(x.EndTime), "a metric is changed on its way")
	vpReach("given")
}
