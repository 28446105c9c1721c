package streams

//vp:use lib_app.go
//vp:use c36_stop.go

import (
	"context"
	"errors"
	"time"

	"github.com/twmb/franz-go/pkg/kgo"
)

type vpStore struct{ revoked int }

func (s *vpStore) ReceiveChange(IncomingRecord) error { return nil }
func (s *vpStore) Revoked()                           { s.revoked++ }

// 0..3 registered types of 1..2 bytes, any record type of 0..2 bytes, decoding succeeding or failing, every combination of
// configured error handlers, every handler answer
//
//vp:harness prop=C24
func vpH_C24_route() {
	var decErr, txnErr, called, defaults, decoded int
	answer := ErrorResponse(vpInt())
	cfg := EventSourceConfig{GroupId: "g", Topic: "t"}
	configured := vpChoose(2) == 1
	if configured {
		cfg.DeserializationErrorHandler = func(ec ErrorContext, eventType string, err error) ErrorResponse {
			decErr++
			vpVerify(err == vpDecodeErr, "the error handler gets another error")
			vpVerify(ec.Offset() == 42, "the error handler gets another event")
			return answer
		}
	}
	if vpChoose(2) == 1 {
		cfg.TxnErrorHandler = func(error) ErrorResponse { txnErr++; return FailConsumer }
	}
	es := &EventSource[*vpStore]{source: newSource(cfg)}
	var ec *EventContext[*vpStore]
	result := []ExecutionState{Complete, Incomplete, Fatal}[vpChoose(3)]
	hit := -1
	value := vpInt()
	handlerFor := func(i int) EventProcessor[*vpStore, int] {
		return func(c *EventContext[*vpStore], v int) ExecutionState {
			called++
			hit = i
			vpVerify(c == ec, "a handler gets another event context")
			vpVerify(v == value, "a handler gets another value")
			return result
		}
	}
	fails := vpChoose(2) == 1
	decode := func(r IncomingRecord) (int, error) {
		decoded++
		if fails {
			return 0, vpDecodeErr
		}
		return value, nil
	}
	n := vpChoose(4)
	var types []string
	for i := 0; i < n; i++ {
		t := vpString(1 + vpChoose(2))
		types = append(types, t)
		RegisterEventType(es, decode, handlerFor(i), t)
	}
	raw := func(c *EventContext[*vpStore], r IncomingRecord) ExecutionState {
		defaults++
		vpVerify(c == ec && r.Offset() == 42, "the default handler gets another event")
		return result
	}
	RegisterDefaultHandler(es, raw, "")
	typ := vpString(vpChoose(3))
	rec := NewRecord().WithTopic("t").WithRecordType(typ).WithKeyString("k")
	ec = MockEventContext[*vpStore](context.Background(), rec, "", nil, nil, nil)
	in := ec.input
	in.kRecord.Offset = 42
	ec.input = in
	var state ExecutionState
	var crash any
	func() {
		defer func() { crash = recover() }()
		state = es.handleEvent(ec, in)
	}()
	want := -1
	for i := n - 1; i >= 0; i-- {
		if types[i] == typ {
			want = i
		}
	}
	vpVerify(txnErr == 0, "the transaction error handler is asked about an event that cannot be decoded")
	if want < 0 {
		vpVerify(defaults == 1 && called == 0 && decErr == 0, "an event of an unregistered type does not go to the default handler exactly once")
		vpVerify(state == result, "the completion state is not the default handler's")
		vpReach("default")
		return
	}
	vpVerify(defaults == 0, "an event of a registered type goes to the default handler")
	vpVerify(decoded == 1, "an event is not decoded exactly once")
	if !fails {
		vpVerify(called == 1, "an event does not reach exactly one handler")
		vpVerify(hit == want, "an event reaches another handler than the first registered for its type")
		vpVerify(state == result, "the completion state is not the handler's")
		vpVerify(decErr == 0, "the error handler is asked about a decodable event")
		vpReach("handled")
		return
	}
	vpVerify(called == 0, "an undecodable event is given to a handler")
	if !configured {
		vpVerify(state == Complete, "the default error handler does not complete an undecodable event")
		vpReach("undecodable, default handler")
		return
	}
	vpVerify(decErr == 1, "the configured deserialization error handler is not asked exactly once")
	var failure error
	select {
	case failure = <-es.source.failure:
	default:
	}
	switch answer {
	case Continue:
		vpVerify(crash == nil && state == Complete, "Continue does not complete an undecodable event")
		vpVerify(es.State() == Healthy && failure == nil, "Continue fails the consumer")
	case FatallyExit:
		vpVerify(crash != nil, "FatallyExit does not end the application")
	default:
		vpVerify(crash == nil && state == Incomplete, "an event whose error handler did not continue is completed")
		vpVerify(es.State() == Unhealthy && failure == vpDecodeErr, "FailConsumer does not fail the consumer")
	}
	vpReach("undecodable, configured handler")
}

var vpDecodeErr = errors.New("cannot decode")

// two events in a row, each routed on its own
//
//vp:harness prop=C24
func vpH_C24_two() {
	es := &EventSource[*vpStore]{source: newSource(EventSourceConfig{GroupId: "g", Topic: "t"})}
	var got []int
	for i := 0; i < 2; i++ {
		i := i
		RegisterEventType(es, func(r IncomingRecord) (int, error) { return int(r.Value()[0]), nil }, func(c *EventContext[*vpStore], v int) ExecutionState {
			got = append(got, i*1000+v)
			return Complete
		}, string(rune('a'+i)))
	}
	RegisterDefaultHandler(es, func(c *EventContext[*vpStore], r IncomingRecord) ExecutionState {
		got = append(got, 2000+int(r.Value()[0]))
		return Complete
	}, "")
	var want []int
	for k := 0; k < 2; k++ {
		typ, v := vpString(1), vpUint8()
		w := 2000
		if typ == "a" {
			w = 0
		}
		if typ == "b" {
			w = 1000
		}
		want = append(want, w+int(v))
		ec := MockEventContext[*vpStore](context.Background(), NewRecord().WithRecordType(typ).WithValue([]byte{v}), "", nil, nil, nil)
		vpVerify(es.handleEvent(ec, ec.input) == Complete, "an event is not completed")
	}
	vpVerify(len(got) == 2 && got[0] == want[0] && got[1] == want[1], "an event reaches the wrong handler or value")
	vpReach("two")
}

// a running event source with up to 3 events of one or two partitions, any of them undecodable, each of those answered with Continue or FailConsumer:
// events up to the first failure are processed as usual, its position is never committed, and the consumer stops by itself
//
//vp:harness prop=C24 timeout=100s horizon=120s sched
func vpH_C24_policy() {
	s := vpNewEnd(2, []BalanceStrategy{RangeBalanceStrategy})
	a := s.a
	a.commits, a.once = true, true
	var bad [4]bool
	var fatal [4]bool
	asked := 0
	failed := false
	a.cfg.DeserializationErrorHandler = func(ec ErrorContext, eventType string, err error) ErrorResponse {
		asked++
		in, ok := ec.Input()
		vpVerify(ok && eventType == "x" && err == vpDecodeErr, "the error handler gets another event")
		ev := a.evs[in.Key()[0]]
		vpVerify(ec.TopicPartition() == ntp(ev.p, "t") && ec.Offset() == ev.off, "the error handler gets another event")
		ev.started++
		vpVerify(bad[ev.id] && ev.started == 1, "the error handler is asked about a decodable event, or twice")
		if fatal[ev.id] {
			failed = true
			return FailConsumer
		}
		ev.ended++
		return Continue
	}
	a.create()
	RegisterEventType(a.es, func(r IncomingRecord) (byte, error) {
		if bad[r.Key()[0]] {
			return 0, vpDecodeErr
		}
		return r.Value()[0], nil
	}, func(ec *EventContext[*vpAppStore], v byte) ExecutionState {
		in, _ := ec.Input()
		vpVerify(!bad[in.Key()[0]] && v == in.Value()[0], "a handler gets another value")
		return a.handle(ec, in)
	}, "x")
	s.status = a.es.ForkRunStatus()
	a.es.ConsumeEvents()
	a.w.group().assign("t", 0, 1)
	vpQuiesce(time.Second)
	n := 2 + vpChoose(2)
	for i := 0; i < n; i++ {
		switch vpChoose(3) {
		case 1:
			bad[i] = true
		case 2:
			bad[i], fatal[i] = true, true
		}
		p := int32(0)
		if i == 1 {
			p = int32(vpChoose(2))
		}
		ev := &vpEv{id: byte(i), p: p, val: vpUint8()}
		ev.off = a.w.base["t"] + int64(len(a.w.logs["t"][p]))
		a.evs = append(a.evs, ev)
		a.w.add("t", p, kgo.Record{Key: []byte{ev.id}, Value: []byte{ev.val}, Headers: []kgo.RecordHeader{{Key: RecordTypeHeaderKey, Value: []byte("x")}}})
	}
	go s.await()
	vpQuiesce(100 * time.Second)
	if failed {
		vpVerify(a.es.State() == Unhealthy, "a failed event source is not unhealthy")
		vpVerify(s.done == 1, "Done is not signalled")
		s.failed = true
		s.over()
		for i, ev := range a.evs {
			if fatal[i] {
				vpVerify(vpAppLog(a.w).Watermark(ntp(ev.p, "t")) <= ev.off, "an event which failed the consumer is committed")
			}
		}
		vpReach("failed")
		return
	}
	vpVerify(a.es.State() == Healthy && s.done == 0, "an event source fails without need")
	a.finished()
	vpReach("finished")
}
