package streams

//vp:use c07_revoke.go

import (
	"context"
	"errors"
	"time"

	"github.com/twmb/franz-go/pkg/kgo"
)

// vpRecv watches what a change log delivers
type vpRecv struct {
	w    *vpWorld
	next map[int32]int64 // offset expected next per partition
	n    int
	fail int // the delivery which is answered with an error
	in   int
}

var vpRecvErr = errors.New("receiver")

func (r *vpRecv) ReceiveChange(in IncomingRecord) error {
	r.in++
	vpVerify(r.in == 1, "two records are delivered at the same time")
	vpYield()
	tp := in.TopicPartition()
	vpVerify(tp.Topic == "g" && in.Offset() == r.next[tp.Partition], "a record is lost, delivered twice or out of order")
	r.next[tp.Partition] = in.Offset() + 1
	o := r.w.logs["g"][tp.Partition][in.Offset()]
	vpVerify(vpAnd(string(in.Key()) == string(o.Key), string(in.Value()) == string(o.Value)), "a record is changed on its way")
	hs := in.Headers()
	vpVerify(len(hs) == len(o.Headers), "the headers of a record are changed")
	for i := range hs {
		vpVerify(vpAnd(hs[i].Key == o.Headers[i].Key, string(hs[i].Value) == string(o.Headers[i].Value)), "the headers of a record are changed")
	}
	typ := ""
	for _, h := range o.Headers {
		if h.Key == RecordTypeHeaderKey {
			typ = string(h.Value)
		}
	}
	vpVerify(in.RecordType() == typ, "the type of a record is changed")
	r.n++
	r.in--
	if r.n == r.fail {
		return vpRecvErr
	}
	return nil
}

func vpGlobal(parts int) (*vpWorld, *vpRecv, GlobalChangeLog[*vpRecv]) {
	w := vpNewWorld()
	w.topic("g", parts)
	r := &vpRecv{w: w, next: map[int32]int64{}, fail: vpChoose(3)}
	cl := NewGlobalChangeLog[*vpRecv](&vpClusterT{"src"}, r, parts, "g", []CleanupPolicy{CompactCleanupPolicy, DeleteCleanupPolicy}[vpChoose(2)])
	return w, r, cl
}

func vpGlobalAdd(w *vpWorld, p int32) {
	rec := kgo.Record{Key: vpBytes(1), Value: vpBytes(1)}
	switch vpChoose(3) {
	case 1:
		rec.Headers = []kgo.RecordHeader{{Key: RecordTypeHeaderKey, Value: vpBytes(1)}}
	case 2:
		rec.Headers = []kgo.RecordHeader{{Key: "h", Value: vpBytes(1)}, {Key: RecordTypeHeaderKey, Value: vpBytes(2)}}
	}
	w.add("g", p, rec)
}

// 1..2 partitions, up to 3 (thorough 4) records of any key, value and headers, before and after the start, fetched one by one or together, a receiver
// error for the first or second one, a failing fetch, a stop at any of several moments; up to 1 (thorough 2) scheduling delays
//
//vp:harness prop=C19 delays=1 thorough:delays=2 timeout=100s thorough:timeout=700s horizon=60s sched
func vpH_C19_deliver() {
	parts := 1 + vpChoose(2)
	w, r, cl := vpGlobal(parts)
	how := vpChoose(4)
	w.maxFetch = how % 2
	early := vpChoose(3)
	n := 3
	if vpThorough() {
		n = 4
	}
	for i := 0; i < early; i++ {
		vpGlobalAdd(w, int32(i%parts))
	}
	c := w.clients[0]
	if how > 1 { // the first fetch fails, or only that of another partition
		poll := c.poll
		failed := false
		c.vpKC.poll = func(ctx context.Context) kgo.Fetches {
			if failed {
				return poll(ctx)
			}
			failed = true
			if how == 3 {
				return append(vpErrFetch(vpRecvErr), poll(ctx)...)
			}
			return vpErrFetch(vpRecvErr)
		}
	}
	cl.Start()
	vpYield()
	for i := early; i < n; i++ {
		vpGlobalAdd(w, int32(i%parts))
	}
	if vpChoose(2) == 1 {
		cl.Stop()
		vpGlobalAdd(w, 0)
		vpQuiesce(time.Minute)
		vpReach("stopped early")
	} else {
		vpQuiesce(time.Second)
		for p := range w.logs["g"] {
			vpVerify(int(r.next[int32(p)]) == len(w.logs["g"][p]), "a record is not delivered")
		}
		vpVerify(c.closed == 0, "the client of a running change log is closed")
		cl.Stop()
		vpQuiesce(time.Minute)
	}
	vpVerify(c.closed == 1, "the client of a stopped change log is not closed")
	k := r.n
	vpGlobalAdd(w, 0)
	vpQuiesce(time.Minute)
	vpVerify(r.n == k, "a record is delivered after the change log has stopped")
	vpVerify(vpBlockedIn("GlobalChangeLog[") == 0, "a stopped change log is left running")
}

// 1..2 partitions: pausing stops just the partitions asked for, resuming starts just the partition asked for, at the offset asked for
//
//vp:harness prop=C19 delays=1 thorough:delays=2 timeout=100s thorough:timeout=700s horizon=60s sched
func vpH_C19_pause() {
	parts := 1 + vpChoose(2)
	w, r, cl := vpGlobal(parts)
	for p := 0; p < parts; p++ {
		w.add("g", int32(p), kgo.Record{Key: []byte{1}})
		w.add("g", int32(p), kgo.Record{Key: []byte{2}})
	}
	p := int32(vpChoose(parts))
	all := vpChoose(2) == 1
	first := vpChoose(2) == 1 // pause before the start
	pause := func() {
		if all {
			cl.PauseAllPartitions()
		} else {
			cl.Pause(p)
		}
	}
	if first {
		pause()
	}
	cl.Start()
	vpQuiesce(time.Second)
	if !first {
		pause()
		for q := 0; q < parts; q++ {
			vpVerify(r.next[int32(q)] == 2, "a record is not delivered")
		}
		vpQuiesce(time.Second)
	}
	for q := 0; q < parts; q++ {
		w.add("g", int32(q), kgo.Record{Key: []byte{3}})
	}
	vpQuiesce(time.Second)
	for q := int32(0); int(q) < parts; q++ {
		want := int64(3)
		if q == p || all {
			want = 2
			if first {
				want = 0
			}
		}
		vpVerify(r.next[q] == want, "pausing a partition pauses another one, or not this one")
	}
	at := int64(vpChoose(4))
	r.next[p] = at
	before := r.next[1-p]
	cl.ResumePartitionAt(p, at)
	vpQuiesce(time.Second)
	vpVerify(r.next[p] == 3, "a resumed partition is not delivered from the offset it is resumed at")
	vpVerify(r.next[1-p] == before, "resuming a partition affects another one")
	w.add("g", p, kgo.Record{Key: []byte{4}})
	vpQuiesce(time.Second)
	vpVerify(r.next[p] == 4, "a resumed partition is not delivered")
	cl.Stop()
	vpQuiesce(time.Minute)
	vpVerify(w.clients[0].closed == 1, "the client of a stopped change log is not closed")
	vpReach("resumed")
}
