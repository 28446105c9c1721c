package streams

//vp:use lib_kafka.go

import (
	"context"
	"errors"

	"github.com/twmb/franz-go/pkg/kgo"
)

type vpPromise struct {
	r  *kgo.Record
	cb func(*kgo.Record, error)
}

var vpErrs = []error{nil, errors.New("e1"), errors.New("e2"), errors.New("e3")}

type vpCompleter struct{ jobs []AsyncJob[int] }

func (c *vpCompleter) AsyncComplete(j AsyncJob[int]) { c.jobs = append(c.jobs, j) }

// batches of 0..3 records with and without own topic, every acknowledgement order (also during the produce call), every outcome per
// record, with and without callback, either callback answer
//
//vp:harness prop=C13
func vpH_C13_batch() {
	var pending []vpPromise
	var sent []*kgo.Record
	early := vpChoose(2) == 1
	errOf := map[*kgo.Record]error{}
	vpKafka(func(c *vpKC) error {
		c.produce = func(_ context.Context, r *kgo.Record, cb func(*kgo.Record, error)) {
			sent = append(sent, r)
			if early && vpChoose(2) == 1 {
				cb(r, errOf[r])
			} else {
				pending = append(pending, vpPromise{r, cb})
			}
		}
		return nil
	})
	p := NewBatchProducer[int](Destination{DefaultTopic: "default", Cluster: &vpClusterT{"c"}})
	n := vpChoose(4)
	comp := &vpCompleter{}
	ec := MockEventContext[int](context.Background(), NewRecord(), "", 0, comp, nil)
	var records []*Record
	var topics []string
	var errs []error
	for i := 0; i < n; i++ {
		r := NewRecord().WithKey([]byte{byte(i)})
		t := "default"
		if vpChoose(2) == 1 {
			t = vpString(1)
			r.WithTopic(t)
		}
		e := vpErrs[vpChoose(2)*(i+1)]
		errOf[&r.kRecord] = e
		records, topics, errs = append(records, r), append(topics, t), append(errs, e)
	}
	orig := append([]*Record(nil), records...)
	calls := 0
	ud := &vpPromise{}
	answer := ExecutionState(vpChoose(2))
	acked := 0
	var cb BatchProducerCallback[int]
	with := vpChoose(2) == 1
	if with {
		cb = func(c *EventContext[int], rs []*Record, u any) ExecutionState {
			calls++
			vpVerify(acked == n, "the batch callback runs before the last acknowledgement")
			vpVerify(c == ec && u == any(ud), "the callback gets another event or user data")
			vpVerify(len(rs) == n, "the callback gets another number of records")
			for i, r := range rs {
				vpVerify(r == orig[i], "the callback gets other records")
				vpVerify(r.Error() == errs[i], "a record's error is not the one of its acknowledgement")
				k := r.toKafkaRecord()
				vpVerify(len(k.Key) == 1 && k.Key[0] == byte(i), "a record is reused before the callback")
			}
			return answer
		}
	}
	state := p.Produce(ec, records, cb, ud)
	vpVerify(len(sent) == n, "not every record is handed to Kafka exactly once")
	for i, k := range sent {
		vpVerify(len(k.Key) == 1 && k.Key[0] == byte(i), "records are handed to Kafka out of order")
		vpVerify(k.Topic == topics[i], "a record is sent to the wrong topic")
	}
	acked = n - len(pending)
	for len(pending) > 0 {
		vpVerify(len(comp.jobs) == 0, "the event completes before the last acknowledgement")
		vpVerify(calls == 0, "the callback runs before the last acknowledgement")
		j := vpChoose(len(pending))
		q := pending[j]
		pending = append(pending[:j:j], pending[j+1:]...)
		acked++
		q.cb(q.r, errOf[q.r])
	}
	final := Complete
	if with {
		final = answer
	}
	vpVerify(len(comp.jobs) <= 1, "the event completes more than once")
	if len(comp.jobs) == 1 {
		vpVerify(state == Incomplete, "the event completes at once and again later")
		vpVerify(comp.jobs[0].ctx == ec, "another event completes")
		vpVerify(comp.jobs[0].Finalize() == final, "the event's completion state is not the callback's")
	} else {
		vpVerify(n == 0, "the event is never completed")
		vpVerify(with || state == Complete, "an empty batch does not complete the event")
		vpVerify(state == final, "the event's completion state is not the callback's")
	}
	if with {
		vpVerify(calls == 1, "the callback does not run exactly once")
	}
	// whatever was released to the pool was released once
	var seen []*Record
	for i := 0; i <= n; i++ {
		r := NewRecord()
		for _, o := range seen {
			vpVerify(o != r, "a record is released to the pool twice")
		}
		seen = append(seen, r)
	}
	vpReach("batch")
}

// acknowledgements of a batch of 2 (thorough 3) arrive concurrently, up to 3 scheduling delays
//
//vp:harness prop=C13 delays=3 thorough:delays=5 thorough:timeout=600s sched
func vpH_C13_conc() {
	n := 2
	if vpThorough() {
		n = 3
	}
	vpKafka(func(c *vpKC) error {
		c.produce = func(_ context.Context, r *kgo.Record, cb func(*kgo.Record, error)) {
			e := vpErrs[int(r.Key[0])]
			go cb(r, e)
		}
		return nil
	})
	p := NewBatchProducer[int](Destination{DefaultTopic: "default", Cluster: &vpClusterT{"c"}})
	done := make(chan AsyncJob[int], 5)
	ec := MockEventContext[int](context.Background(), NewRecord(), "", 0, vpChanCompleter(done), nil)
	var records []*Record
	for i := 0; i < n; i++ {
		records = append(records, NewRecord().WithKey([]byte{byte(i)}))
	}
	calls := 0
	vpVerify(p.Produce(ec, records, func(_ *EventContext[int], rs []*Record, _ any) ExecutionState {
		calls++
		for i, r := range rs {
			vpVerify(r.Error() == vpErrs[i], "a record's error is not visible to the callback")
		}
		return Complete
	}, nil) == Incomplete, "Produce does not leave the event incomplete")
	j := <-done
	vpVerify(j.Finalize() == Complete, "the event does not complete")
	vpQuiesce(0)
	vpVerify(calls == 1 && len(done) == 0, "the event completes more than once")
	vpReach("concurrent")
}

type vpChanCompleter chan AsyncJob[int]

func (c vpChanCompleter) AsyncComplete(j AsyncJob[int]) { c <- j }

// a synchronous produce returns the error of its own record, two producers at once, up to 3 delays
//
//vp:harness prop=C13 delays=3 sched
func vpH_C13_sync() {
	vpKafka(func(c *vpKC) error {
		c.produce = func(_ context.Context, r *kgo.Record, cb func(*kgo.Record, error)) {
			e := vpErrs[int(r.Key[0])]
			want := "default"
			if r.Key[0] == 1 {
				want = "own"
			}
			vpVerify(r.Topic == want, "a record is sent to the wrong topic")
			go cb(r, e)
		}
		return nil
	})
	p := NewProducer(Destination{DefaultTopic: "default", Cluster: &vpClusterT{"c"}})
	done := make(chan bool, 3)
	ctx, cancel := context.WithCancel(context.Background())
	if vpChoose(2) == 1 { // whatever becomes of its context
		cancel()
	}
	for i := 0; i < 2; i++ {
		e := vpChoose(2)*2 + i // 0,2 default topic; 1 own
		go func() {
			r := NewRecord().WithKey([]byte{byte(e)})
			if e == 1 {
				r.WithTopic("own")
			}
			vpVerify(p.Produce(ctx, r) == vpErrs[e], "Produce returns another record's error")
			done <- true
		}()
	}
	<-done
	<-done
	async := 0
	r := NewRecord().WithKey([]byte{0})
	p.ProduceAsync(context.Background(), r, func(rr *Record, err error) {
		async++
		vpVerify(rr == r && err == nil, "the callback gets another record or error")
	})
	p.ProduceAsync(context.Background(), NewRecord().WithKey([]byte{2}), nil)
	vpQuiesce(0)
	vpVerify(async == 1, "the callback does not run exactly once")
	cancel()
	vpReach("sync")
}
