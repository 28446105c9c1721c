package streams

//vp:use lib_world.go

import (
	"context"
	"strconv"
	"time"

	"github.com/aws/go-kafka-event-source/streams/sak"
	"github.com/twmb/franz-go/pkg/kgo"
)

func vpCommitLog(n int) *eosCommitLog {
	return newEosCommitLog(sak.NewRunStatus(context.Background()), newSource(EventSourceConfig{GroupId: "g", Topic: "t", SourceCluster: &vpClusterT{"src"}}), n)
}

// any partition, any offset, topics of 0..3 arbitrary bytes, any commit log partition count
//
//vp:harness prop=C09
func vpH_C09_roundtrip() {
	vpNewWorld()
	n := 1 + vpChoose(3)
	cl := vpCommitLog(n)
	big := vpInt32()
	vpAssume(big >= 1)
	cl.numPartitions = big
	tp := ntp(vpInt32(), vpString(vpChoose(4)))
	off := vpInt64()
	vpAssume(vpAnd(tp.Partition >= 0, vpAnd(off >= 0, off < 1<<63-1)))
	r := cl.commitRecord(tp, off).toKafkaRecord()
	vpVerify(r.Topic == "gkes_commit_log_g", "a commit record goes to another topic")
	vpVerify(vpAnd(r.Partition >= 0, r.Partition < big), "a commit record goes to a partition which does not exist")
	off2 := vpInt64()
	vpAssume(vpAnd(off2 >= 0, off2 < 1<<63-1))
	r2 := cl.commitRecord(tp, off2).toKafkaRecord()
	vpVerify(r2.Partition == r.Partition, "the commit log partition depends on more than the source partition")
	vpVerify(string(r2.Key) == string(r.Key), "commits of one partition have different keys")
	other := tp
	other.Partition = vpInt32()
	vpAssume(vpAnd(other.Partition >= 0, other.Partition != tp.Partition))
	r3 := cl.commitRecord(other, off2).toKafkaRecord()
	vpVerify(string(r3.Key) != string(r.Key), "commits of different partitions have the same key")
	d := vpCommitLog(n)
	if vpChoose(2) == 1 {
		vpVerify(d.ReceiveChange(newIncomingRecord(r3)) == nil, "a commit record is refused")
	}
	vpVerify(d.Watermark(tp) == -1, "a partition without commit has a resume position")
	vpVerify(d.ReceiveChange(newIncomingRecord(r)) == nil, "a commit record is refused")
	vpVerify(d.Watermark(tp) == off+1, "the resume position is not one past the committed offset")
	vpVerify(d.ReceiveChange(newIncomingRecord(r2)) == nil, "a commit record is refused")
	vpVerify(d.Watermark(tp) == off2+1, "the resume position is not the last committed one")
	vpReach("round trip")
}

// 0..4 commits of 2 partitions at any offsets, in the log before the partition is assigned; more commits of another owner arrive around
// the assignment; fetches of 1..2 records or all; a stale or a synchronised watermark before; up to 1 (thorough 3) scheduling delays
//
//vp:harness prop=C09 delays=1 thorough:delays=3 thorough:timeout=600s horizon=60s sched
func vpH_C09_wait() {
	w := vpNewWorld()
	w.maxFetch = vpChoose(3)
	w.topic("gkes_commit_log_g", 2)
	cl := vpCommitLog(2)
	put := func(p int32, off int64) {
		r := cl.commitRecord(ntp(p, "t"), off).toKafkaRecord()
		w.add(r.Topic, r.Partition, vpSnap(r))
	}
	last := map[int32]int64{0: -1, 2: -1}
	commit := func() {
		p := int32(vpChoose(2)) * 2 // both live on commit log partition 0
		off := vpInt64()
		vpAssume(vpAnd(off >= 0, off < 1<<62))
		last[p] = off + 1
		put(p, off)
	}
	n := vpChoose(3)
	for i := 0; i < n; i++ {
		commit()
	}
	cl.Start()
	if vpChoose(2) == 1 {
		cl.syncAll()
		vpVerify(cl.Watermark(ntp(0, "t")) == last[0], "the commit log is not read up to the moment of the request")
		vpReach("synced")
	}
	n = vpChoose(3)
	for i := 0; i < n; i++ {
		commit()
	}
	want := last[2]
	go put(0, 7)
	got := cl.lastProcessed(ntp(2, "t"))
	vpVerify(got == want, "a partition does not resume at its last committed position")
	vpReach("waited")
}

// the start offsets given to the fetcher: any set of 1..3 partitions, each with or without a commit at any offset
//
//vp:harness prop=C09
func vpH_C09_adjust() {
	vpNewWorld()
	cl := vpCommitLog(3)
	sc := &eventSourceConsumer[*vpKV]{commitLog: cl}
	m := map[int32]kgo.Offset{}
	want := map[int32]int64{}
	n := 1 + vpChoose(3)
	for p := int32(0); p < int32(n); p++ {
		m[p] = kgo.NewOffset().AtStart()
		want[p] = -2
		if vpChoose(2) == 1 {
			off := vpInt64()
			vpAssume(vpAnd(off >= 0, off < 1<<63-1))
			want[p] = off + 1
			cl.ReceiveChange(newIncomingRecord(cl.commitRecord(ntp(p, "t"), off).toKafkaRecord()))
		}
	}
	r, err := sc.adjustOffsetsBeforeAssign(context.Background(), map[string]map[int32]kgo.Offset{"t": m})
	vpVerify(err == nil && len(r) == 1 && len(r["t"]) == n, "partitions are lost")
	for p, o := range r["t"] {
		vpVerify(kgo.VerifOffsetAt(o) == want[p], "a partition starts at another position than its committed one")
	}
	vpReach("adjusted")
}

var _ = strconv.Itoa
var _ = time.Second

// sending the marker for which a synchronisation waits fails 0..2 times: the watermark is read up to the moment of the request all the same; up to 1 (thorough
// 2) scheduling delays
//
//vp:harness prop=C09 delays=1 thorough:delays=2 horizon=60s sched
func vpH_C09_marker() {
	w := vpNewWorld()
	w.topic("gkes_commit_log_g", 2)
	cl := vpCommitLog(2)
	fails := vpChoose(3)
	w.fault = func(op string, t *vpTxn) error {
		if op == "produce" && fails > 0 {
			fails--
			return vpErrNotInTxn
		}
		return nil
	}
	off := vpInt64()
	vpAssume(vpAnd(off >= 0, off < 1<<62))
	r := cl.commitRecord(ntp(1, "t"), off).toKafkaRecord()
	w.add(r.Topic, r.Partition, vpSnap(r))
	cl.Start()
	all := vpChoose(2) == 1
	done := make(chan struct{})
	got := int64(-5)
	go func() {
		if all {
			cl.syncAll()
			got = cl.Watermark(ntp(1, "t"))
		} else {
			got = cl.lastProcessed(ntp(1, "t"))
		}
		close(done)
	}()
	vpQuiesce(5 * time.Second)
	select {
	case <-done:
	default:
		vpVerify(false, "a synchronisation never ends after its marker could not be sent")
	}
	vpVerify(got == off+1, "a partition does not resume at its last committed position")
	vpReach("synced")
}
