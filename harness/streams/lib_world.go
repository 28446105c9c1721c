package streams

//vp:use lib_kafka.go
//vp:use lib_admin.go

import (
	"context"
	"time"

	"github.com/twmb/franz-go/pkg/kgo"
)

// vpWorld is a Kafka cluster in memory: committed logs per topic and partition, transactions, fetch positions, pauses.
type vpWorld struct {
	admin   *vpAdmin
	logs    map[string][][]*kgo.Record
	aborted map[*kgo.Record]bool // only clients which read what is uncommitted get these
	base    map[string]int64     // offset of the first record of every partition of a topic
	wake    chan struct{}
	clients []*vpWC
	txns    []*vpTxn
	gen     int // clients of earlier generations have crashed
	ops     int
	crashAt int // the operation at which the current generation crashes, -1 never
	crashed chan struct{}
	// monitors
	onProduce func(t *vpTxn, s *vpSent)
	onCommit  func(t *vpTxn) error // before the commit takes effect
	onEnd     func(t *vpTxn, commit bool)
	onOrphan  func(s *vpSent) // a record outside a transaction
	onMark    func(rs []*kgo.Record)
	fault     func(op string, t *vpTxn) error // begin, produce, flush, end
	maxFetch  int                             // records per partition and fetch, 0 all
	ackLate   bool                            // acknowledge at Flush, not at Produce
	marked    []*kgo.Record
}

type vpTxn struct {
	id    int
	c     *vpWC
	recs  []*vpSent
	state int // 0 open, 1 committed, 2 aborted
}

type vpSent struct {
	t      *vpTxn
	rec    *kgo.Record
	snap   kgo.Record
	cb     func(*kgo.Record, error)
	ctx    context.Context
	acked  bool
	failed bool
}

type vpWC struct {
	*vpKC
	w        *vpWorld
	gen      int
	pos      map[string]map[int32]int64
	paused   map[string]map[int32]bool
	closedCh chan struct{}
	isClosed bool
	txn      *vpTxn
	inTxn    bool
	idx      int
	owned    map[string]map[int32]bool // assigned to this member of the group
	calling  bool                      // a callback of the group session runs
	called   chan struct{}
	gone     bool // left the group
}

// session runs f as the group session does: one callback at a time, none after the client has left the group
func (c *vpWC) session(f func()) {
	for {
		var wait chan struct{}
		gone := false
		vpAtomic(func() {
			gone = c.gone
			if c.calling {
				wait = c.called
			} else if !gone {
				c.calling = true
				c.called = make(chan struct{})
			}
		})
		if wait != nil {
			<-wait
			continue
		}
		if gone {
			return
		}
		f()
		vpAtomic(func() {
			c.calling = false
			close(c.called)
		})
		return
	}
}

// quit leaves the group: what is assigned is revoked
func (c *vpWC) quit() {
	c.session(func() {
		vpAtomic(func() {
			c.gone = true
			c.pos = map[string]map[int32]int64{}
		})
		m := map[string][]int32{}
		for t, ps := range c.owned {
			for p := range ps {
				m[t] = append(m[t], p)
			}
		}
		c.owned = nil
		if len(m) > 0 {
			c.cfg.OnRevoked(context.Background(), c.cl, m)
		}
	})
}

func vpNewWorld() *vpWorld {
	w := &vpWorld{logs: map[string][][]*kgo.Record{}, aborted: map[*kgo.Record]bool{}, base: map[string]int64{}, wake: make(chan struct{}), crashAt: -1, crashed: make(chan struct{})}
	w.admin = vpNewAdmin()
	vpKafka(func(c *vpKC) error {
		w.admin.clients[c.cl] = c
		wc := &vpWC{vpKC: c, w: w, gen: w.gen, pos: map[string]map[int32]int64{}, paused: map[string]map[int32]bool{}, closedCh: make(chan struct{}), idx: len(w.clients)}
		for t, ps := range c.cfg.Partitions {
			wc.pos[t] = map[int32]int64{}
			for p := range ps {
				wc.pos[t][p] = 0
			}
		}
		wc.hook()
		w.clients = append(w.clients, wc)
		return nil
	})
	return w
}

// topic creates a topic of n partitions
func (w *vpWorld) topic(name string, n int) {
	w.admin.topics["src/"+name] = &vpTopic{partitions: n, replicas: 1}
	w.logs[name] = make([][]*kgo.Record, n)
}

func (w *vpWorld) wakeAll() {
	close(w.wake)
	w.wake = make(chan struct{})
}

func (w *vpWorld) append(topic string, p int32, r kgo.Record) *kgo.Record {
	if w.logs[topic] == nil {
		w.logs[topic] = make([][]*kgo.Record, 8)
	}
	r.Topic, r.Partition = topic, p
	r.Offset = w.base[topic] + int64(len(w.logs[topic][p]))
	w.logs[topic][p] = append(w.logs[topic][p], &r)
	return &r
}

// add appends a record from outside and wakes the pollers
func (w *vpWorld) add(topic string, p int32, r kgo.Record) {
	vpAtomic(func() {
		w.append(topic, p, r)
		w.wakeAll()
	})
}

// op performs an operation at once; the client may crash before or after it, and a crashed one never gets an answer
func (c *vpWC) op(f func()) {
	dead := false
	tick := func() {
		if c.gen == c.w.gen {
			c.w.ops++
			if c.w.ops-1 == c.w.crashAt {
				c.w.crash()
			}
		}
		dead = c.gen != c.w.gen
	}
	vpAtomic(func() {
		tick()
		if !dead {
			f()
			tick()
		}
	})
	if dead {
		select {}
	}
}

// abort ends a transaction which is open; what it has produced stays in the log
func (w *vpWorld) abort(t *vpTxn) {
	if t == nil || t.state != 0 {
		return
	}
	t.state = 2
	for _, s := range t.recs {
		if !s.failed {
			w.aborted[w.append(s.snap.Topic, s.snap.Partition, s.snap)] = true
		}
	}
}

// committed returns the records of a partition which have not been aborted
func (w *vpWorld) committed(topic string, p int) (rs []*kgo.Record) {
	for _, r := range w.logs[topic][p] {
		if !w.aborted[r] {
			rs = append(rs, r)
		}
	}
	return
}

// crash stops every client of the current generation; what they had not committed is aborted
func (w *vpWorld) crash() {
	for _, c := range w.clients {
		if c.gen == w.gen {
			w.abort(c.txn)
		}
	}
	w.gen++
	close(w.crashed)
	w.crashed = make(chan struct{})
}

func (c *vpWC) gather() kgo.Fetches {
	var f kgo.Fetches
	for t, ps := range c.pos {
		var ft kgo.FetchTopic
		for p, at := range ps {
			if c.paused[t][p] || int(p) >= len(c.w.logs[t]) {
				continue
			}
			l := c.w.logs[t][p]
			if int(at) >= len(l) {
				continue
			}
			var rs []*kgo.Record
			for ; int(at) < len(l) && (c.w.maxFetch == 0 || len(rs) < c.w.maxFetch); at++ {
				if c.cfg.Isolation != 1 || !c.w.aborted[l[at]] {
					rs = append(rs, l[at])
				}
			}
			ps[p] = at
			if len(rs) == 0 {
				continue
			}
			cp := make([]*kgo.Record, len(rs))
			for i, r := range rs {
				x := *r
				cp[i] = &x
			}
			ft.Partitions = append(ft.Partitions, kgo.FetchPartition{Partition: p, Records: cp})
		}
		if len(ft.Partitions) > 0 {
			ft.Topic = t
			f = append(f, kgo.Fetch{Topics: []kgo.FetchTopic{ft}})
		}
	}
	return f
}

func (c *vpWC) hook() {
	w := c.w
	c.poll = func(ctx context.Context) kgo.Fetches {
		for {
			var f kgo.Fetches
			var wake chan struct{}
			closed := false
			dead := false
			vpAtomic(func() {
				dead = c.gen != w.gen
				closed = c.isClosed
				if !closed && !dead {
					f = c.gather()
				}
				wake = w.wake
			})
			if dead {
				select {}
			}
			if closed {
				return vpErrFetch(kgo.ErrClientClosed)
			}
			if len(f) > 0 {
				return f
			}
			select {
			case <-wake:
			case <-ctx.Done():
				return vpErrFetch(ctx.Err())
			case <-c.closedCh:
			}
		}
	}
	setPaused := func(m map[string][]int32, v bool) {
		vpAtomic(func() {
			for t, ps := range m {
				if c.paused[t] == nil {
					c.paused[t] = map[int32]bool{}
				}
				for _, p := range ps {
					c.paused[t][p] = v
				}
			}
			if !v {
				w.wakeAll()
			}
		})
	}
	c.pause = func(m map[string][]int32) { setPaused(m, true) }
	c.resume = func(m map[string][]int32) { setPaused(m, false) }
	c.set = func(m map[string]map[int32]kgo.EpochOffset) {
		vpAtomic(func() {
			for t, ps := range m {
				for p, o := range ps {
					if c.pos[t] == nil {
						c.pos[t] = map[int32]int64{}
					}
					c.pos[t][p] = o.Offset - w.base[t]
				}
			}
			w.wakeAll()
		})
	}
	c.closing = func() {
		if c.cfg.Group != "" {
			c.quit()
		}
		vpAtomic(func() {
			if !c.isClosed {
				c.isClosed = true
				close(c.closedCh)
				w.abort(c.txn)
			}
		})
	}
	c.mark = func(rs ...*kgo.Record) {
		w.marked = append(w.marked, rs...)
		if w.onMark != nil {
			w.onMark(rs)
		}
	}
	fault := func(op string, t *vpTxn) error {
		if w.fault != nil {
			return w.fault(op, t)
		}
		return nil
	}
	c.begin = func() (err error) {
		c.op(func() {
			vpVerify(c.cfg.TxnID != "", "a transaction is begun on a client which is not transactional")
			vpVerify(!c.inTxn, "a transaction is begun within a transaction")
			if err = fault("begin", nil); err == nil {
				c.inTxn = true
				c.txn = &vpTxn{id: len(w.txns), c: c}
				w.txns = append(w.txns, c.txn)
			}
		})
		return
	}
	c.produce = func(ctx context.Context, r *kgo.Record, cb func(*kgo.Record, error)) {
		var s *vpSent
		var err error
		c.op(func() {
			s = &vpSent{rec: r, snap: vpSnap(r), cb: cb, ctx: ctx, t: c.txn}
			switch {
			case c.isClosed:
				err = kgo.ErrClientClosed
			case c.cfg.TxnID == "":
				s.t = nil
				if err = fault("produce", nil); err == nil {
					w.append(r.Topic, r.Partition, s.snap)
					w.wakeAll()
				}
			case !c.inTxn:
				err = vpErrNotInTxn
				if w.onOrphan != nil {
					w.onOrphan(s)
				}
			default:
				c.txn.recs = append(c.txn.recs, s)
				if w.onProduce != nil {
					w.onProduce(c.txn, s)
				}
				err = fault("produce", c.txn)
				s.failed = err != nil
			}
		})
		if s.t == nil || !w.ackLate || err != nil {
			s.acked = true
			if cb != nil {
				cb(r, err)
			}
		}
	}
	c.flush = func(ctx context.Context) (err error) {
		c.op(func() {})
		if c.txn != nil {
			for _, s := range c.txn.recs {
				if !s.acked {
					s.acked = true
					vpVerify(vpSame(s.rec, &s.snap), "a record is changed before it is acknowledged")
					if s.cb != nil {
						s.cb(s.rec, nil)
					}
				}
			}
		}
		if ctx.Err() != nil {
			return ctx.Err()
		}
		return fault("flush", c.txn)
	}
	c.end = func(ctx context.Context, try kgo.TransactionEndTry) (err error) {
		c.op(func() {
			if c.isClosed {
				err = kgo.ErrClientClosed
				return
			}
			if !c.inTxn { // as kgo
				return
			}
			c.inTxn = false
			if ctx.Err() != nil {
				err = ctx.Err()
			} else {
				err = fault("end", c.txn)
			}
			commit := bool(try) && err == nil
			if commit {
				for _, s := range c.txn.recs {
					vpVerify(s.acked, "a transaction ends before its records are flushed")
				}
				if w.onCommit != nil {
					err = w.onCommit(c.txn)
				}
			}
			if err != nil || !commit {
				w.abort(c.txn)
			} else {
				c.txn.state = 1
				for _, s := range c.txn.recs {
					if !s.failed {
						w.append(s.snap.Topic, s.snap.Partition, s.snap)
					}
				}
				w.wakeAll()
			}
			if w.onEnd != nil {
				w.onEnd(c.txn, commit)
			}
		})
		return
	}
}

var vpErrNotInTxn = vpErrorString("not in a transaction")

type vpErrorString string

func (e vpErrorString) Error() string { return string(e) }

// vpSnap copies what is sent
func vpSnap(r *kgo.Record) kgo.Record {
	s := kgo.Record{Topic: r.Topic, Partition: r.Partition, Timestamp: r.Timestamp}
	s.Key = append(s.Key, r.Key...)
	s.Value = append(s.Value, r.Value...)
	for _, h := range r.Headers {
		s.Headers = append(s.Headers, kgo.RecordHeader{Key: h.Key, Value: append([]byte(nil), h.Value...)})
	}
	return s
}

func vpSame(a, b *kgo.Record) bool {
	if a.Topic != b.Topic || a.Partition != b.Partition || len(a.Headers) != len(b.Headers) {
		return false
	}
	ok := vpAnd(string(a.Key) == string(b.Key), string(a.Value) == string(b.Value))
	for i, h := range a.Headers {
		ok = vpAnd(ok, vpAnd(h.Key == b.Headers[i].Key, string(h.Value) == string(b.Headers[i].Value)))
	}
	return ok
}

// group is the consumer group client of the current generation
func (w *vpWorld) group() *vpWC {
	for _, c := range w.clients {
		if c.gen == w.gen && c.cfg.Group != "" {
			return c
		}
	}
	panic("no group client")
}

// assign gives partitions of a topic to the group client, as its group session does
func (c *vpWC) assign(topic string, ps ...int32) {
	c.session(func() { c.assigned(topic, ps) })
}

func (c *vpWC) assigned(topic string, ps []int32) {
	vpAtomic(func() {
		if c.owned == nil {
			c.owned = map[string]map[int32]bool{}
		}
		if c.owned[topic] == nil {
			c.owned[topic] = map[int32]bool{}
		}
		for _, p := range ps {
			c.owned[topic][p] = true
		}
	})
	c.cfg.OnAssigned(context.Background(), c.cl, map[string][]int32{topic: ps})
	offs := map[string]map[int32]kgo.Offset{topic: {}}
	for _, p := range ps {
		offs[topic][p] = kgo.NewOffset().AtStart()
	}
	offs, err := c.cfg.AdjustFetch(context.Background(), offs)
	vpVerify(err == nil, "adjusting the start offsets fails")
	vpAtomic(func() {
		for t, m := range offs {
			if c.pos[t] == nil {
				c.pos[t] = map[int32]int64{}
			}
			for p, o := range m {
				at := kgo.VerifOffsetAt(o)
				if at < 0 {
					at = c.w.base[t]
				}
				c.pos[t][p] = at - c.w.base[t]
			}
		}
		c.w.wakeAll()
	})
}

// revoke takes partitions away
func (c *vpWC) revoke(topic string, ps ...int32) {
	c.session(func() {
		vpAtomic(func() {
			for _, p := range ps {
				delete(c.pos[topic], p)
				delete(c.owned[topic], p)
			}
		})
		c.cfg.OnRevoked(context.Background(), c.cl, map[string][]int32{topic: ps})
	})
}

// vpKV is a state store of one byte keys and values which counts
type vpKV struct {
	tp      TopicPartition
	m       map[byte]byte
	applied []*kgo.Record
	marks   int
	revoked int
	busy    int
}

func (s *vpKV) ReceiveChange(r IncomingRecord) error {
	vpVerify(s.revoked == 0, "a change is applied to a revoked store")
	if r.isMarkerRecord() {
		s.marks++
	}
	vpVerify(s.marks == 0, "a marker reaches a store")
	vpVerify(len(r.Key()) == 1 && len(r.Value()) == 1, "a state record is mangled")
	kr := r.kRecord
	s.applied = append(s.applied, &kr)
	s.m[r.Key()[0]] = r.Value()[0]
	return nil
}

func (s *vpKV) Revoked() { s.revoked++ }

func vpNewKV(tp TopicPartition) *vpKV { return &vpKV{tp: tp, m: map[byte]byte{}} }

const vpLong = time.Hour

func vpErrFetch(err error) kgo.Fetches {
	return kgo.Fetches{{Topics: []kgo.FetchTopic{{Partitions: []kgo.FetchPartition{{Err: err}}}}}}
}

func vpBase() int64 {
	b := vpInt64()
	vpAssume(vpAnd(b >= 0, b < 1<<62))
	return b
}
