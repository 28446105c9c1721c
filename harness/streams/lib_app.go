package streams

//vp:use lib_world.go

import (
	"context"
	"time"

	"github.com/twmb/franz-go/pkg/kgo"
)

const vpCommitTopic, vpStateTopic = "gkes_commit_log_g", "gkes_change_log_t_g"

// vpEv is an event or interjection.
type vpEv struct {
	id      byte
	p       int32
	off     int64 // -1 interjection
	val     byte
	kind    int
	started int
	ended   int // completions
	fwds    []int
	txn     *vpTxn
	at      int // when it was added
}

type vpFwd struct {
	ev    *vpEv
	topic string
	part  int32
	n     int // times handed to Kafka
	at    int // when it was forwarded
	t     *vpTxn
}

// vpAppStore keeps the last value per key
type vpAppStore struct {
	tp      TopicPartition
	m       map[byte]byte
	n       int
	revoked int
	marks   int
	change  func(*vpAppStore, IncomingRecord)
	over    func() // called when it is revoked
}

func (s *vpAppStore) ReceiveChange(r IncomingRecord) error {
	if s.change != nil {
		s.change(s, r)
	}
	if r.isMarkerRecord() {
		s.marks++
		return nil
	}
	s.n++
	s.m[r.Value()[0]] = r.Value()[1]
	return nil
}
func (s *vpAppStore) Revoked() {
	s.revoked++
	if s.over != nil {
		s.over()
	}
}

// vpApp is an event source over the world, with topic "t" as its source: it forwards to topic "o" and records changes,
// and watches what reaches Kafka.
type vpApp struct {
	w                            *vpWorld
	es                           *EventSource[*vpAppStore]
	cfg                          EventSourceConfig
	evs                          []*vpEv
	fwds                         map[int32][]*vpFwd // per source partition in forwarding order
	busy                         map[int32]int
	kinds                        int
	handed                       func(*vpEv)
	gen                          int
	clock                        int
	stores                       []*vpAppStore
	order, commits, once, serial bool // what to watch: C03, C01, C02, C06
	lastOff                      map[int32]int
	hook                         func(*vpEv)
	ecHook                       func(*EventContext[*vpAppStore])
	change                       func(*vpAppStore, IncomingRecord) // of a store
	events                       []string
}

func vpNewApp(parts int) *vpApp {
	w := vpNewWorld()
	w.topic("t", parts)
	w.topic("o", 2)
	w.topic(vpCommitTopic, 2)
	w.topic(vpStateTopic, parts)
	a := &vpApp{w: w, fwds: map[int32][]*vpFwd{}, busy: map[int32]int{}, kinds: 1, lastOff: map[int32]int{}}
	w.onProduce, w.onCommit = a.onProduce, a.onCommit
	return a
}

// successor is a second instance of the application which sees the same events
func (a *vpApp) successor() *vpApp {
	b := &vpApp{w: a.w, cfg: a.cfg, fwds: map[int32][]*vpFwd{}, busy: map[int32]int{}, kinds: a.kinds, lastOff: map[int32]int{},
		order: a.order, commits: a.commits, once: a.once, serial: a.serial}
	for _, ev := range a.evs {
		b.evs = append(b.evs, &vpEv{id: ev.id, p: ev.p, off: ev.off, val: ev.val, kind: ev.kind})
	}
	a.w.onProduce, a.w.onCommit = b.onProduce, b.onCommit
	return b
}

// add appends an event to the source topic
func (a *vpApp) add(p int32) *vpEv {
	ev := &vpEv{id: byte(len(a.evs)), p: p, val: vpUint8(), kind: vpChoose(a.kinds)}
	a.clock++
	ev.at = a.clock
	ev.off = a.w.base["t"] + int64(len(a.w.logs["t"][p]))
	a.evs = append(a.evs, ev)
	a.w.add("t", p, kgo.Record{Key: []byte{ev.id}, Value: []byte{ev.val}})
	return ev
}

func (a *vpApp) newStore(tp TopicPartition) *vpAppStore {
	s := &vpAppStore{tp: tp, m: map[byte]byte{}, change: a.change}
	a.stores = append(a.stores, s)
	return s
}

func (a *vpApp) create() {
	cfg := a.cfg
	cfg.GroupId, cfg.Topic, cfg.SourceCluster = "g", "t", &vpClusterT{"src"}
	es, err := NewEventSource[*vpAppStore](cfg, a.newStore, a.handle)
	vpVerify(err == nil, "the event source can not be created")
	a.es = es
	a.gen = a.w.gen
}

func (a *vpApp) start(ps ...int32) {
	a.create()
	a.es.ConsumeEvents()
	if len(ps) > 0 {
		a.w.group().assign("t", ps...)
	}
}

// forward sends one record for an event
func (a *vpApp) forward(ec *EventContext[*vpAppStore], ev *vpEv, change bool) {
	a.clock++
	f := &vpFwd{ev: ev, topic: "o", part: 1, at: a.clock}
	i := len(a.fwds[ev.p])
	a.fwds[ev.p] = append(a.fwds[ev.p], f)
	ev.fwds = append(ev.fwds, i)
	key := []byte{byte(ev.p), byte(i)}
	val := []byte{ev.id, ev.val}
	if change {
		f.topic, f.part = vpStateTopic, ev.p
		e := NewChangeLogEntry()
		e.WithKey(key)
		e.record.WithValue(val)
		ec.Store().m[ev.id] = ev.val
		ec.RecordChange(e)
		return
	}
	ec.Forward(NewRecord().WithTopic("o").WithPartition(1).WithKey(key).WithValue(val))
}

// kinds: 0 one record and one change at once; 1 completes in another goroutine; 2 nothing; 3 forwards when it completes, in another
// goroutine, 5 ms later; 4 several records; 5 several records at once, completes 5 ms later
func (a *vpApp) handle(ec *EventContext[*vpAppStore], r IncomingRecord) ExecutionState {
	ev := a.evs[r.Key()[0]]
	ev.started++
	a.check(a.serial, ev.started == 1, "an event is processed twice")
	a.check(a.serial, r.TopicPartition() == ntp(ev.p, "t") && vpAnd(r.Offset() == ev.off, r.Value()[0] == ev.val), "a handler gets another record")
	a.check(a.serial, ec.Offset() == ev.off && ec.TopicPartition() == ntp(ev.p, "t"), "a handler gets another event context")
	a.check(a.serial, a.lastOff[ev.p] <= int(ev.id), "events are processed out of order")
	a.lastOff[ev.p] = int(ev.id)
	a.enter(ev.p)
	defer a.leave(ev.p)
	if a.hook != nil {
		a.hook(ev)
	}
	if a.ecHook != nil {
		a.ecHook(ec)
	}
	switch ev.kind {
	case 0:
		a.forward(ec, ev, false)
		a.forward(ec, ev, true)
	case 1:
		a.forward(ec, ev, false)
		go ec.AsyncJobComplete(func() ExecutionState {
			a.enter(ev.p)
			ev.ended++
			a.leave(ev.p)
			return Complete
		})
		return Incomplete
	case 3:
		time.AfterFunc(5*time.Millisecond, func() {
			ec.AsyncJobComplete(func() ExecutionState {
				a.enter(ev.p)
				a.forward(ec, ev, false)
				a.forward(ec, ev, true)
				ev.ended++
				a.leave(ev.p)
				return Complete
			})
		})
		return Incomplete
	case 4, 5:
		a.forward(ec, ev, false)
		a.forward(ec, ev, false)
		a.forward(ec, ev, true)
		if ev.kind == 5 {
			time.AfterFunc(5*time.Millisecond, func() {
				ec.AsyncJobComplete(func() ExecutionState {
					ev.ended++
					return Complete
				})
			})
			return Incomplete
		}
	}
	ev.ended++
	return Complete
}

func (a *vpApp) enter(p int32) {
	a.busy[p]++
	a.check(a.serial, a.busy[p] == 1, "two callbacks of one partition run at the same time")
	if a.serial {
		vpYield()
	}
}
func (a *vpApp) leave(p int32) { a.busy[p]-- }

// interject returns an interjector of partition p whose runs forward one record and record a change
func (a *vpApp) interjector(ec *EventContext[*vpAppStore], _ time.Time) ExecutionState {
	p := ec.TopicPartition().Partition
	ev := &vpEv{id: byte(200 + len(a.evs)), p: p, off: -1, val: 1, started: 1}
	a.enter(p)
	if a.ecHook != nil {
		a.ecHook(ec)
	}
	a.check(a.serial, ec.IsInterjection() && ec.Offset() == -1, "an interjection looks like an event")
	a.forward(ec, ev, false)
	a.forward(ec, ev, true)
	ev.ended++
	a.leave(p)
	return Complete
}

func (a *vpApp) check(on, c bool, msg string) {
	if on {
		vpVerify(c, msg)
	}
}

func (a *vpApp) onProduce(t *vpTxn, s *vpSent) {
	if s.snap.Topic == vpCommitTopic {
		return
	}
	p, i := int32(s.snap.Key[0]), int(s.snap.Key[1])
	a.check(a.once, i < len(a.fwds[p]), "a record nobody forwarded reaches Kafka")
	f := a.fwds[p][i]
	f.n++
	f.t = t
	a.check(a.once, f.n == 1, "a record is handed to Kafka twice")
	a.check(a.once, s.snap.Topic == f.topic && s.snap.Partition == f.part, "a record is misrouted")
	a.check(a.once, vpAnd(s.snap.Value[0] == f.ev.id, s.snap.Value[1] == f.ev.val), "a record is changed on its way")
	a.check(a.once, f.ev.txn == nil || f.ev.txn == t, "an event's records are spread over transactions")
	f.ev.txn = t
	if a.order {
		for _, o := range t.recs[:len(t.recs)-1] {
			vpVerify(o.snap.Topic == vpCommitTopic || int32(o.snap.Key[0]) != p || int(o.snap.Key[1]) < i, "records of a partition are reordered in their transaction")
		}
		for _, o := range a.w.txns {
			for _, x := range o.recs {
				if o == t || x.snap.Topic == vpCommitTopic || int32(x.snap.Key[0]) != p {
					continue
				}
				e := a.fwds[p][int(x.snap.Key[1])].ev
				vpVerify(e.off < 0 || f.ev.off < 0 || e.id < f.ev.id, "events of a partition reach Kafka out of order")
			}
		}
		for _, o := range a.w.txns {
			if o == t || o.state != 0 {
				continue
			}
			for _, x := range o.recs {
				vpVerify(x.snap.Topic == vpCommitTopic || int32(x.snap.Key[0]) != p, "a later transaction hands over records of a partition before the earlier one has committed")
			}
		}
	}
}

func (a *vpApp) onCommit(t *vpTxn) error {
	max := map[int32]*vpEv{}
	evs := map[*vpEv]bool{}
	pos := map[int32]int64{}
	for _, s := range t.recs {
		if s.snap.Topic == vpCommitTopic {
			tp := topicPartitionFromBytes(s.snap.Key)
			v := readIntegerFromByteArray[int64](s.snap.Value)
			_, twice := pos[tp.Partition]
			a.check(a.commits, !twice && tp.Topic == "t", "a transaction records two positions for one partition")
			pos[tp.Partition] = v
			continue
		}
		ev := a.fwds[int32(s.snap.Key[0])][int(s.snap.Key[1])].ev
		if !evs[ev] {
			evs[ev] = true
			if ev.off >= 0 && (max[ev.p] == nil || max[ev.p].id < ev.id) {
				max[ev.p] = ev
			}
		}
	}
	for p, v := range pos {
		// events without records of their own: those up to the position must be over, none beyond it may have records here
		for _, ev := range a.evs {
			if ev.p == p {
				a.check(a.commits, vpOr(ev.off >= v, ev.ended > 0), "a position covers an event which is not complete")
			}
		}
	}
	for ev := range evs {
		a.check(a.commits, ev.ended == 1, "a transaction commits with an incomplete event")
		for _, i := range ev.fwds {
			f := a.fwds[ev.p][i]
			a.check(a.once, f.n == 1 && f.t == t, "a transaction commits without all records of its events")
		}
	}
	for p, ev := range max {
		v, ok := pos[p]
		a.check(a.commits || a.once, ok, "a transaction commits events without their position")
		a.check(a.commits, a.kinds > 2 || v == ev.off+1, "the recorded position is not one past the transaction's last event")
		a.check(a.commits, v >= ev.off+1, "the recorded position is before the transaction's last event")
	}
	for p, v := range pos {
		ok := false
		for _, ev := range a.evs {
			if ev.p == p && ev.started > 0 {
				ok = vpOr(ok, v == ev.off+1)
			}
		}
		a.check(a.commits, ok, "the recorded position is not one past an event")
	}
	return nil
}

// finished checks that every event was committed with its records
func (a *vpApp) finished() {
	for _, ev := range a.evs {
		vpVerify(ev.started > 0 && ev.ended > 0, "an event is not processed")
		for _, i := range ev.fwds {
			f := a.fwds[ev.p][i]
			vpVerify(f.n == 1 && f.t.state == 1, "an event's record is not committed")
		}
		cl := vpAppLog(a.w)
		vpVerify(cl.Watermark(ntp(ev.p, "t")) >= ev.off+1, "a completed event is not committed")
	}
	a.open(0)
}

// open verifies how many transactions have neither been committed nor aborted
func (a *vpApp) open(n int) {
	k := 0
	for _, t := range a.w.txns {
		if t.state == 0 {
			k++
		}
	}
	vpVerify(k == n, "a transaction is left open")
}

// vpAppLog reads the committed positions
func vpAppLog(w *vpWorld) *eosCommitLog {
	cl := &eosCommitLog{watermarks: map[int32]int64{}, numPartitions: 2, topic: vpCommitTopic}
	for p := range w.logs[vpCommitTopic] {
		for _, r := range w.committed(vpCommitTopic, p) {
			if !isMarkerRecord(r) {
				cl.ReceiveChange(newIncomingRecord(r))
			}
		}
	}
	return cl
}

func vpEos(pool, pending, target, max int) EosConfig {
	return EosConfig{PoolSize: pool, PendingTxnCount: pending, TargetBatchSize: target, MaxBatchSize: max, BatchDelay: 10 * time.Millisecond}
}

var _ = context.Background
