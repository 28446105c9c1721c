package streams

//vp:use c10_scheduler.go

import (
	"time"

	"github.com/aws/go-kafka-event-source/streams/sak"
)

func (j *vpJobs) change() {
	switch vpChoose(2) {
	case 0:
		j.s.SetMaxConcurrentKeys([]int{0, 1, 2, 3, 6}[vpChoose(5)])
	case 1:
		j.s.SetWorkerQueueDepth([]int{0, 3, 5}[vpChoose(3)])
	}
}

// 6 jobs of up to 6 keys scheduled by one goroutine, 1..2 processing goroutines, 1, 2 or 6 concurrent keys, with 2 (thorough 3) changes of the limits to
// smaller and larger ones at any moment
//
//vp:harness prop=C11 delays=0 thorough:delays=1 nonterm spin=30 steps=400000 timeout=100s thorough:timeout=700s sched
func vpH_C11_between() {
	j := vpNewJobs(SchedulerConfig{Concurrency: 1 + vpChoose(2), MaxConcurrentKeys: []int{1, 2, 6}[vpChoose(3)]})
	j.slow = vpChoose(2) == 1
	keys := 2 + 4*vpChoose(2)
	for i := 0; i < 6; i++ {
		j.add(i%keys, 0)
	}
	j.start()
	go func() {
		for _, o := range j.jobs {
			vpVerify(j.s.Schedule(o.ec, o.key, o.value2()) == Incomplete, "a job which has not been processed is reported as complete")
			if o.seq == 2 && vpChoose(2) == 1 {
				time.Sleep(time.Millisecond)
			}
		}
	}()
	n := 2
	if vpThorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		if k := vpChoose(4); k > 0 {
			time.Sleep(time.Duration(2*k-1) * time.Millisecond / 2)
		}
		j.change()
	}
	vpQuiesce(time.Second)
	j.finished()
	again := j.add(0, 1)
	j.schedule(1)
	vpQuiesce(time.Second)
	vpVerify(again.completed == 1, "a job is never processed")
	j.halt()
}

// one change of the limits interleaved with scheduling and processing; up to 2 (thorough 3) scheduling delays
//
//vp:harness prop=C11 delays=2 thorough:delays=3 nonterm spin=30 steps=400000 timeout=100s thorough:timeout=700s sched
func vpH_C11_during() {
	j := vpNewJobs(SchedulerConfig{Concurrency: 1 + vpChoose(2), MaxConcurrentKeys: 2})
	j.add(0, 0)
	j.add(1, 0)
	j.add(2*vpChoose(2), 0)
	j.start()
	go j.schedule(0)
	vpYield()
	j.change()
	vpQuiesce(time.Second)
	j.finished()
}

// the limits which are in force, whether configured or set later, are the ones that hold jobs back: while none of the jobs ends, 6 jobs of different keys,
// or of a single key, are accepted up to exactly the limit; once jobs end, all of them are processed. With a limit set while jobs wait, no more than the
// larger one are accepted
//
//vp:harness prop=C11 nonterm spin=30 steps=400000 timeout=100s sched
func vpH_C11_held() {
	cfg := SchedulerConfig{Concurrency: 1 + vpChoose(2), MaxConcurrentKeys: []int{1, 2, 4}[vpChoose(3)], WorkerQueueDepth: []int{0, 3, 5}[vpChoose(3)]}
	j := vpNewJobs(cfg)
	j.hold = make(chan struct{})
	same := vpChoose(2) == 1
	for i := 0; i < 6; i++ {
		if same {
			j.add(0, 0)
		} else {
			j.add(i, 0)
		}
	}
	limit := func() int {
		if same {
			return sak.Max(cfg.WorkerQueueDepth, 2)
		}
		return sak.Max(cfg.Concurrency, cfg.MaxConcurrentKeys)
	}
	j.start()
	set := func() {
		if same {
			cfg.WorkerQueueDepth = []int{0, 3, 4}[vpChoose(3)]
			j.s.SetWorkerQueueDepth(cfg.WorkerQueueDepth)
		} else {
			cfg.MaxConcurrentKeys = []int{0, 1, 2, 3, 5}[vpChoose(5)]
			j.s.SetMaxConcurrentKeys(cfg.MaxConcurrentKeys)
		}
	}
	for n := vpChoose(3); n > 0; n-- {
		set()
	}
	go j.schedule(0)
	vpQuiesce(time.Second)
	want := sak.Min(6, limit())
	vpVerify(j.acceptedCount() == want, "more or fewer jobs are accepted than the limits allow")
	if vpChoose(2) == 1 {
		old := limit()
		set()
		j.hold <- struct{}{}
		vpQuiesce(time.Second)
		got := j.acceptedCount()
		vpVerify(got <= sak.Max(old, limit())+1, "more jobs are accepted than the limits allow")
		if !same {
			vpVerify(got == sak.Min(6, sak.Max(want, limit()+1)), "more or fewer jobs are accepted than the limits allow after one of them has ended")
		}
	}
	close(j.hold)
	vpQuiesce(time.Second)
	j.finished()
	j.halt()
}
