package streams

import (
	"context"
	"errors"
	"time"

	"github.com/aws/go-kafka-event-source/streams/sak"
)

type vpNoStore struct{}

func (vpNoStore) ReceiveChange(IncomingRecord) error { return nil }
func (vpNoStore) Revoked()                           {}

type vpJobValue struct{ id, extra int }

type vpJob struct {
	key       int
	value     int
	extra     int
	by, seq   int
	err       error
	ec        *EventContext[vpNoStore]
	accepted  bool
	refused   bool
	processed int
	completed int
}

func (o *vpJob) value2() vpJobValue { return vpJobValue{o.value, o.extra} }

// vpJobs runs an AsyncJobScheduler and watches its jobs
type vpJobs struct {
	s       *AsyncJobScheduler[vpNoStore, int, vpJobValue]
	rs      sak.RunStatus
	cfg     SchedulerConfig
	jobs    []*vpJob
	running int
	busy    map[int]bool
	last    map[[2]int]int // by key and scheduling goroutine
	final   bool
	slow    bool
	hold    chan struct{} // if set, processing waits for it
}

var vpJobErr = errors.New("job")

func vpNewJobs(cfg SchedulerConfig) *vpJobs {
	j := &vpJobs{cfg: cfg, busy: map[int]bool{}, last: map[[2]int]int{}, final: true}
	j.rs = sak.NewRunStatus(context.Background())
	return j
}

func (j *vpJobs) start() {
	var fin AsyncJobFinalizer[vpNoStore, int, vpJobValue]
	if j.final {
		fin = j.finalize
	}
	s, err := NewAsyncJobScheduler[vpNoStore, int, vpJobValue](j.rs, j.process, fin, j.cfg)
	vpVerify(err == nil && s != nil, "a scheduler can not be created")
	j.s = s
}

func (j *vpJobs) find(key int, value vpJobValue) *vpJob {
	for _, o := range j.jobs {
		if o.value == value.id {
			vpVerify(o.extra == value.extra, "a job gets another value")
			vpVerify(o.key == key, "a job gets the key of another one")
			return o
		}
	}
	vpVerify(false, "a job gets another value")
	return nil
}

func (j *vpJobs) process(key int, value vpJobValue) error {
	o := j.find(key, value)
	o.processed++
	vpVerify(o.processed == 1, "a job is processed twice")
	vpVerify(!j.busy[key], "two jobs of a key are processed at the same time")
	j.busy[key] = true
	j.running++
	vpVerify(j.running <= j.cfg.Concurrency, "more jobs are processed at the same time than configured")
	k := [2]int{key, o.by}
	vpVerify(o.seq == 0 || j.last[k] < o.seq, "the jobs of a key are processed in another order")
	for _, q := range j.jobs {
		vpVerify(q.key != key || q.by != o.by || q.seq >= o.seq || q.processed == 1, "a job of a key is processed before an earlier one")
	}
	j.last[k] = o.seq
	if j.hold != nil {
		<-j.hold
	} else if j.slow {
		time.Sleep(time.Millisecond)
	} else {
		vpYield()
	}
	j.running--
	j.busy[key] = false
	return o.err
}

func (j *vpJobs) finalize(ec *EventContext[vpNoStore], key int, value vpJobValue, err error) ExecutionState {
	o := j.find(key, value)
	vpVerify(ec == o.ec, "a job is completed with the event of another one")
	vpVerify(err == o.err, "a job is completed with another error")
	return Complete
}

func (j *vpJobs) AsyncComplete(a AsyncJob[vpNoStore]) {
	var o *vpJob
	for _, q := range j.jobs {
		if q.ec == a.ctx {
			o = q
		}
	}
	vpVerify(o != nil && o.processed == 1, "an event is completed before its job has been processed")
	o.completed++
	vpVerify(o.completed == 1, "an event is completed twice")
	vpVerify(a.Finalize() == Complete, "an event is not completed")
}

func (j *vpJobs) add(key, by int) *vpJob {
	o := &vpJob{key: key, value: 100 + len(j.jobs), by: by}
	for _, q := range j.jobs {
		if q.by == by {
			o.seq++
		}
	}
	if len(j.jobs) == 1 {
		o.err = vpJobErr
	}
	o.extra = vpInt()
	o.ec = MockEventContext[vpNoStore](context.Background(), nil, "", vpNoStore{}, j, nil)
	j.jobs = append(j.jobs, o)
	return o
}

// schedule is run by one goroutine for each value of by
func (j *vpJobs) schedule(by int) {
	for _, o := range j.jobs {
		if o.by == by {
			st := j.s.Schedule(o.ec, o.key, o.value2())
			vpVerify(st == Incomplete, "a job which has not been processed is reported as complete")
			o.accepted = true
		}
	}
}

func (j *vpJobs) acceptedCount() (n int) {
	for _, o := range j.jobs {
		if o.accepted {
			n++
		}
	}
	return
}

func (j *vpJobs) finished() {
	for _, o := range j.jobs {
		vpVerify(o.processed == 1, "a job is never processed")
		vpVerify(o.completed == 1, "an event is never completed")
	}
	vpVerify(vpBlockedIn("scheduleItem") == 0, "scheduling a job never ends")
	vpReach("finished")
}

func (j *vpJobs) halt() {
	j.rs.Halt()
	vpQuiesce(time.Second)
	vpVerify(vpBlockedIn("AsyncJobScheduler[") == 0, "a scheduler does not end")
	late := j.add(0, 9)
	j.schedule(9)
	vpQuiesce(time.Second)
	vpVerify(late.processed == 0 && late.completed == 0, "a job is processed after the scheduler has ended")
}

// a single goroutine schedules 4 (thorough 5) jobs of up to 3 keys; concurrency 1..2, 1..2 concurrent keys, the smallest queues; up to 1 (thorough 2)
// scheduling delays
//
//vp:harness prop=C10 delays=1 thorough:delays=2 nonterm spin=30 steps=400000 timeout=100s thorough:timeout=700s sched
func vpH_C10_one() {
	j := vpNewJobs(SchedulerConfig{Concurrency: 1 + vpChoose(2), MaxConcurrentKeys: 1 + vpChoose(2)})
	n := 4
	if vpThorough() {
		n = 5
	}
	j.final = vpChoose(2) == 1
	j.slow = vpChoose(2) == 1
	j.add(0, 0)
	keys := 2
	for i := 1; i < n; i++ { // up to 3 keys, in the order in which they appear
		k := vpChoose(keys)
		j.add(k, 0)
		if k == keys-1 && keys < 3 {
			keys++
		}
	}
	j.start()
	j.schedule(0)
	vpQuiesce(time.Second)
	j.finished()
	j.halt()
}

// 3 (thorough 4) jobs, up to 2 (thorough 3) scheduling delays, one processing goroutine or two
//
//vp:harness prop=C10 delays=2 thorough:delays=3 nonterm spin=30 steps=400000 timeout=100s thorough:timeout=700s sched
func vpH_C10_delays() {
	j := vpNewJobs(SchedulerConfig{Concurrency: 1 + vpChoose(2), MaxConcurrentKeys: 2})
	j.add(0, 0)
	j.add(0, 0)
	j.add(vpChoose(2), 0)
	if vpThorough() {
		j.add(vpChoose(2), 0)
	}
	j.start()
	j.schedule(0)
	vpQuiesce(time.Second)
	j.finished()
}

// 2 goroutines schedule 2 jobs each
//
//vp:harness prop=C10 delays=2 thorough:delays=3 nonterm spin=30 steps=400000 timeout=100s thorough:timeout=700s sched
func vpH_C10_two() {
	j := vpNewJobs(SchedulerConfig{Concurrency: 1 + vpChoose(2), MaxConcurrentKeys: 1 + vpChoose(2)})
	for i := 0; i < 4; i++ {
		k := 0
		if i > 0 {
			k = vpChoose(2)
		}
		j.add(k, i%2)
	}
	j.start()
	go j.schedule(1)
	j.schedule(0)
	vpQuiesce(time.Second)
	j.finished()
	j.halt()
}

// up to 3 goroutines schedule jobs while the scheduler ends: all of them return, and no job is reported as complete which has not been processed
//
//vp:harness prop=C10 delays=2 thorough:delays=3 nonterm spin=30 steps=400000 timeout=100s thorough:timeout=700s sched
func vpH_C10_shutdown() {
	j := vpNewJobs(SchedulerConfig{Concurrency: 1 + vpChoose(2), MaxConcurrentKeys: 1})
	j.slow = true
	same := vpChoose(2) == 1 // all jobs are of a single key
	for i := 0; i < 3; i++ {
		for by := 0; by < 3; by++ {
			k := by
			if same {
				k = 0
			}
			j.add(k, by)
		}
	}
	j.start()
	for by := 0; by < 3; by++ {
		go j.schedule(by)
	}
	switch vpChoose(3) {
	case 0:
		vpYield()
	case 1:
		time.Sleep(time.Millisecond / 2)
	case 2:
		time.Sleep(2 * time.Millisecond)
	}
	j.halt()
	vpVerify(vpBlockedIn("scheduleItem") == 0, "scheduling a job never ends")
	vpReach("ended")
}

// every configuration with a concurrency or a queue depth that makes no sense
//
//vp:harness prop=C10
func vpH_C10_config() {
	j := vpNewJobs(SchedulerConfig{Concurrency: vpInt(), MaxConcurrentKeys: 1, WorkerQueueDepth: vpInt()})
	vpAssume(vpOr(j.cfg.Concurrency < 1, j.cfg.WorkerQueueDepth < 0))
	_, err := NewAsyncJobScheduler[vpNoStore, int, vpJobValue](j.rs, j.process, nil, j.cfg)
	vpVerify(err != nil, "a configuration is accepted with which no job is ever processed")
	vpReach("refused")
}
