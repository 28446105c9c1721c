package streams

//vp:use lib_app.go

import (
	"errors"
	"time"

	"github.com/twmb/franz-go/pkg/kgo"
)

// one partition, 2 (thorough 3) events at any base offset which forward at once or later, one or two per transaction, pool 1..2, acknowledgements
// at once or late; the first or second operation of a kind (begin, produce, flush, end) fails, the error handler answers FailConsumer or Continue; up to 1
// (thorough 2) scheduling delays
//
//vp:harness prop=C04 delays=1 thorough:delays=2 timeout=150s thorough:timeout=700s horizon=60s sched
func vpH_C04_failed() {
	a := vpNewApp(1)
	w := a.w
	w.base["t"] = vpBase()
	w.ackLate = vpChoose(2) == 1
	a.cfg.EosConfig = vpEos(1+vpChoose(2), 1, 1, 1+vpChoose(2))
	a.cfg.CommitOffsets = true
	answer := []ErrorResponse{FailConsumer, Continue}[vpChoose(2)]
	boom := errors.New("boom")
	asked := 0
	a.cfg.TxnErrorHandler = func(err error) ErrorResponse {
		if errors.Is(err, boom) {
			asked++
		}
		return answer
	}
	op := []string{"begin", "produce", "flush", "end"}[vpChoose(4)]
	nth := vpChoose(2)
	seen := 0
	failed := map[*vpTxn]bool{}
	first := 1 << 20 // the first event affected
	hit := false
	w.fault = func(o string, t *vpTxn) error {
		if o != op || (o == "produce" && t == nil) {
			return nil
		}
		seen++
		if seen-1 != nth {
			return nil
		}
		hit = true
		if t != nil {
			failed[t] = true
			for _, s := range t.recs {
				if s.snap.Topic != vpCommitTopic {
					if id := int(a.fwds[0][int(s.snap.Key[1])].ev.id); id < first {
						first = id
					}
				}
			}
		}
		return boom
	}
	w.onOrphan = func(s *vpSent) {
		if s.snap.Topic != vpCommitTopic {
			if id := int(a.fwds[0][int(s.snap.Key[1])].ev.id); id < first {
				first = id
			}
		}
	}
	w.onCommit = func(t *vpTxn) error {
		vpVerify(!failed[t] || (op == "produce" && answer == Continue), "a transaction with a failure is committed")
		for _, s := range t.recs {
			if s.snap.Topic != vpCommitTopic && answer != Continue {
				vpVerify(int(a.fwds[0][int(s.snap.Key[1])].ev.id) <= first, "a transaction commits after one has failed")
			}
		}
		return nil
	}
	w.onMark = func(rs []*kgo.Record) {
		for _, r := range rs {
			ev := a.evs[r.Key[0]]
			vpVerify(answer == Continue || (ev.txn != nil && ev.txn.state == 1), "the offset of an uncommitted event is marked")
			vpVerify(ev.txn == nil || !failed[ev.txn] || op == "produce", "the offset of a failed transaction is marked")
		}
	}
	n := 2
	if vpThorough() {
		n = 3
	}
	kinds := []int{0, 3}
	for i := 0; i < n; i++ {
		k := 0
		if i == 0 || vpThorough() {
			k = kinds[vpChoose(2)]
		}
		a.add(0).kind = k
	}
	a.start(0)
	vpQuiesce(time.Second)
	if !hit {
		a.finished()
		vpVerify(len(w.marked) == n, "a committed offset is not marked")
		vpVerify(a.es.source.State() == Healthy, "a source without a failure is unhealthy")
		vpReach("no fault")
		return
	}
	vpVerify(asked > 0, "the error does not reach the transaction error handler")
	if answer != Continue {
		vpVerify(a.es.source.State() == Unhealthy, "the source stays healthy")
		vpVerify(vpAppLog(w).Watermark(ntp(0, "t")) <= w.base["t"]+int64(first), "a failed event is covered by a committed position")
		vpReach("failed")
	} else {
		vpReach("continued")
	}
}
