package streams

// A minimal Kafka broker for demonstrations: one node, transactions, read committed, groups; in memory, on the loopback network.

import (
	"context"
	"encoding/binary"
	"hash/crc32"
	"io"
	"net"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"
)

type zzBatch struct {
	base, last int64
	pid        int64
	txn, ctl   bool
	raw        []byte
}

type zzPart struct {
	batches []zzBatch
	next    int64
	open    map[int64]int64 // producer -> first offset of its open transaction
	aborted []kmsg.FetchResponseTopicPartitionAbortedTransaction
}

func (p *zzPart) lso() int64 {
	o := p.next
	for _, f := range p.open {
		if f < o {
			o = f
		}
	}
	return o
}

type zzMember struct {
	id     string
	meta   []byte
	joined bool
	asg    []byte
	seen   time.Time
}

type zzGroup struct {
	gen              int32
	state            string // "", preparing, syncing, stable
	members          map[string]*zzMember
	leader, protocol string
	since            time.Time
	n                int
}

type zzBroker struct {
	t      *testing.T
	mu     sync.Mutex
	ln     net.Listener
	host   string
	port   int32
	topics map[string][]*zzPart
	group  zzGroup
	pids   map[string]int64
	epochs map[int64]int16
	txns   map[int64]map[*zzPart]bool
	npid   int64
	fault  func(key int16, req kmsg.Request) int16 // an error code to answer with; called with the lock held
	mangle func(*kmsg.FetchRequest, *kmsg.FetchResponse)
}

func zzNewBroker(t *testing.T) *zzBroker {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	h, p, _ := net.SplitHostPort(ln.Addr().String())
	port, _ := strconv.Atoi(p)
	b := &zzBroker{t: t, ln: ln, host: h, port: int32(port), topics: map[string][]*zzPart{}, pids: map[string]int64{}, epochs: map[int64]int16{},
		txns: map[int64]map[*zzPart]bool{}}
	b.group.members = map[string]*zzMember{}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go b.serve(c)
		}
	}()
	t.Cleanup(func() { ln.Close() })
	return b
}

func (b *zzBroker) cluster() Cluster { return SimpleCluster([]string{b.ln.Addr().String()}) }

func (b *zzBroker) topic(name string, n int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.addTopic(name, n)
}

func (b *zzBroker) addTopic(name string, n int) {
	for i := 0; i < n; i++ {
		b.topics[name] = append(b.topics[name], &zzPart{open: map[int64]int64{}})
	}
}

func (b *zzBroker) serve(c net.Conn) {
	defer c.Close()
	for {
		var h [4]byte
		if _, err := io.ReadFull(c, h[:]); err != nil {
			return
		}
		buf := make([]byte, binary.BigEndian.Uint32(h[:]))
		if _, err := io.ReadFull(c, buf); err != nil {
			return
		}
		key, ver := int16(binary.BigEndian.Uint16(buf)), int16(binary.BigEndian.Uint16(buf[2:]))
		corr := buf[4:8]
		n := int16(binary.BigEndian.Uint16(buf[8:]))
		body := buf[10:]
		if n > 0 {
			body = body[n:]
		}
		req := kmsg.RequestForKey(key)
		if key == 18 && ver > 2 {
			req.SetVersion(0)
			res := req.ResponseKind().(*kmsg.ApiVersionsResponse)
			res.ErrorCode = 35
			b.apis(res)
			b.reply(c, corr, res)
			continue
		}
		req.SetVersion(ver)
		if err := req.ReadFrom(body); err != nil {
			b.t.Errorf("can not read request %d: %v", key, err)
			return
		}
		res := b.handle(req)
		if res == nil {
			return
		}
		if !b.reply(c, corr, res) {
			return
		}
	}
}

func (b *zzBroker) reply(c net.Conn, corr []byte, res kmsg.Response) bool {
	out := append(make([]byte, 4), corr...)
	out = res.AppendTo(out)
	binary.BigEndian.PutUint32(out, uint32(len(out)-4))
	_, err := c.Write(out)
	return err == nil
}

func (b *zzBroker) apis(res *kmsg.ApiVersionsResponse) {
	for k, v := range map[int16][2]int16{0: {3, 8}, 1: {4, 11}, 2: {1, 5}, 3: {1, 8}, 8: {2, 7}, 9: {1, 5}, 10: {0, 2}, 11: {0, 5}, 12: {0, 3}, 13: {0, 2}, 14: {0, 3},
		15: {0, 4}, 16: {0, 2}, 18: {0, 2}, 19: {0, 4}, 20: {0, 3}, 22: {0, 1}, 23: {2, 3}, 24: {0, 1}, 26: {0, 1}} {
		res.ApiKeys = append(res.ApiKeys, kmsg.ApiVersionsResponseApiKey{ApiKey: k, MinVersion: v[0], MaxVersion: v[1]})
	}
}

func (b *zzBroker) part(topic string, p int32) *zzPart {
	if ps := b.topics[topic]; p >= 0 && int(p) < len(ps) {
		return ps[p]
	}
	return nil
}

func (p *zzPart) add(raw []byte) int64 {
	base := p.next
	raw = append([]byte(nil), raw...)
	binary.BigEndian.PutUint64(raw, uint64(base))
	attr := binary.BigEndian.Uint16(raw[21:])
	z := zzBatch{base: base, last: base + int64(binary.BigEndian.Uint32(raw[23:])), pid: int64(binary.BigEndian.Uint64(raw[43:])), txn: attr&0x10 != 0, ctl: attr&0x20 != 0, raw: raw}
	p.next = z.last + 1
	p.batches = append(p.batches, z)
	if z.txn && !z.ctl {
		if _, ok := p.open[z.pid]; !ok {
			p.open[z.pid] = base
		}
	}
	return base
}

func (p *zzPart) end(pid int64, epoch int16, commit bool) {
	first, wrote := p.open[pid]
	typ := byte(0)
	if commit {
		typ = 1
	}
	rec := []byte{0, 0, 0, 8, 0, 0, 0, typ, 12, 0, 0, 0, 0, 0, 0, 0} // attributes, timestamp delta, offset delta, key, value, headers
	rec = append([]byte{byte(len(rec) << 1)}, rec...)
	raw := make([]byte, 61, 61+len(rec))
	binary.BigEndian.PutUint32(raw[8:], uint32(49+len(rec)))
	raw[16] = 2
	raw[22] = 0x30
	now := uint64(time.Now().UnixMilli())
	binary.BigEndian.PutUint64(raw[27:], now)
	binary.BigEndian.PutUint64(raw[35:], now)
	binary.BigEndian.PutUint64(raw[43:], uint64(pid))
	binary.BigEndian.PutUint16(raw[51:], uint16(epoch))
	binary.BigEndian.PutUint32(raw[53:], ^uint32(0))
	binary.BigEndian.PutUint32(raw[57:], 1)
	raw = append(raw, rec...)
	binary.BigEndian.PutUint32(raw[17:], crc32.Checksum(raw[21:], crc32.MakeTable(crc32.Castagnoli)))
	delete(p.open, pid)
	p.add(raw)
	if wrote && !commit {
		p.aborted = append(p.aborted, kmsg.FetchResponseTopicPartitionAbortedTransaction{ProducerID: pid, FirstOffset: first})
	}
}

func (b *zzBroker) endTxn(pid int64, commit bool) {
	for p := range b.txns[pid] {
		p.end(pid, b.epochs[pid], commit)
	}
	delete(b.txns, pid)
}

func (b *zzBroker) handle(kreq kmsg.Request) kmsg.Response {
	b.mu.Lock()
	defer b.mu.Unlock()
	var code int16
	if b.fault != nil {
		code = b.fault(kreq.Key(), kreq)
	}
	kres := kreq.ResponseKind()
	switch req := kreq.(type) {
	case *kmsg.ApiVersionsRequest:
		b.apis(kres.(*kmsg.ApiVersionsResponse))
	case *kmsg.MetadataRequest:
		res := kres.(*kmsg.MetadataResponse)
		br := kmsg.NewMetadataResponseBroker()
		br.NodeID, br.Host, br.Port = 1, b.host, b.port
		res.Brokers = append(res.Brokers, br)
		res.ControllerID = 1
		names := []string{}
		for _, t := range req.Topics {
			names = append(names, *t.Topic)
		}
		if req.Topics == nil {
			for t := range b.topics {
				names = append(names, t)
			}
		}
		for _, name := range names {
			name := name
			t := kmsg.NewMetadataResponseTopic()
			t.Topic = &name
			if b.topics[name] == nil {
				t.ErrorCode = 3
			}
			for i := range b.topics[name] {
				p := kmsg.NewMetadataResponseTopicPartition()
				p.Partition, p.Leader, p.LeaderEpoch, p.Replicas, p.ISR = int32(i), 1, 0, []int32{1}, []int32{1}
				t.Partitions = append(t.Partitions, p)
			}
			res.Topics = append(res.Topics, t)
		}
	case *kmsg.CreateTopicsRequest:
		res := kres.(*kmsg.CreateTopicsResponse)
		for _, t := range req.Topics {
			r := kmsg.NewCreateTopicsResponseTopic()
			r.Topic = t.Topic
			if b.topics[t.Topic] != nil {
				r.ErrorCode = 36
			} else {
				b.addTopic(t.Topic, int(t.NumPartitions))
			}
			res.Topics = append(res.Topics, r)
		}
	case *kmsg.FindCoordinatorRequest:
		res := kres.(*kmsg.FindCoordinatorResponse)
		res.NodeID, res.Host, res.Port = 1, b.host, b.port
	case *kmsg.InitProducerIDRequest:
		res := kres.(*kmsg.InitProducerIDResponse)
		var pid int64
		if req.TransactionalID == nil {
			b.npid++
			pid = b.npid
		} else if old, ok := b.pids[*req.TransactionalID]; ok {
			pid = old
			b.endTxn(pid, false)
			b.epochs[pid]++
		} else {
			b.npid++
			pid = b.npid
			b.pids[*req.TransactionalID] = pid
		}
		res.ErrorCode, res.ProducerID, res.ProducerEpoch = code, pid, b.epochs[pid]
	case *kmsg.AddPartitionsToTxnRequest:
		res := kres.(*kmsg.AddPartitionsToTxnResponse)
		if b.txns[req.ProducerID] == nil {
			b.txns[req.ProducerID] = map[*zzPart]bool{}
		}
		for _, t := range req.Topics {
			rt := kmsg.NewAddPartitionsToTxnResponseTopic()
			rt.Topic = t.Topic
			for _, p := range t.Partitions {
				rp := kmsg.NewAddPartitionsToTxnResponseTopicPartition()
				rp.Partition, rp.ErrorCode = p, code
				if zp := b.part(t.Topic, p); zp == nil {
					rp.ErrorCode = 3
				} else if code == 0 {
					b.txns[req.ProducerID][zp] = true
				}
				rt.Partitions = append(rt.Partitions, rp)
			}
			res.Topics = append(res.Topics, rt)
		}
	case *kmsg.EndTxnRequest:
		res := kres.(*kmsg.EndTxnResponse)
		res.ErrorCode = code
		if code == 0 {
			if b.epochs[req.ProducerID] != req.ProducerEpoch {
				res.ErrorCode = 47
			} else {
				b.endTxn(req.ProducerID, req.Commit)
			}
		}
	case *kmsg.ProduceRequest:
		res := kres.(*kmsg.ProduceResponse)
		for _, t := range req.Topics {
			rt := kmsg.NewProduceResponseTopic()
			rt.Topic = t.Topic
			for _, p := range t.Partitions {
				rp := kmsg.NewProduceResponseTopicPartition()
				rp.Partition, rp.ErrorCode = p.Partition, code
				if zp := b.part(t.Topic, p.Partition); zp == nil {
					rp.ErrorCode = 3
				} else if code == 0 {
					rp.BaseOffset = zp.add(p.Records)
				}
				rt.Partitions = append(rt.Partitions, rp)
			}
			res.Topics = append(res.Topics, rt)
		}
		if req.Acks == 0 {
			return nil
		}
	case *kmsg.ListOffsetsRequest:
		res := kres.(*kmsg.ListOffsetsResponse)
		for _, t := range req.Topics {
			rt := kmsg.NewListOffsetsResponseTopic()
			rt.Topic = t.Topic
			for _, p := range t.Partitions {
				rp := kmsg.NewListOffsetsResponseTopicPartition()
				rp.Partition, rp.LeaderEpoch, rp.Timestamp = p.Partition, 0, -1
				if zp := b.part(t.Topic, p.Partition); zp == nil {
					rp.ErrorCode = 3
				} else if p.Timestamp == -2 {
					rp.Offset = 0
				} else if req.IsolationLevel == 1 {
					rp.Offset = zp.lso()
				} else {
					rp.Offset = zp.next
				}
				rt.Partitions = append(rt.Partitions, rp)
			}
			res.Topics = append(res.Topics, rt)
		}
	case *kmsg.OffsetForLeaderEpochRequest:
		res := kres.(*kmsg.OffsetForLeaderEpochResponse)
		for _, t := range req.Topics {
			rt := kmsg.NewOffsetForLeaderEpochResponseTopic()
			rt.Topic = t.Topic
			for _, p := range t.Partitions {
				rp := kmsg.NewOffsetForLeaderEpochResponseTopicPartition()
				rp.Partition, rp.LeaderEpoch = p.Partition, 0
				if zp := b.part(t.Topic, p.Partition); zp != nil {
					rp.EndOffset = zp.next
				}
				rt.Partitions = append(rt.Partitions, rp)
			}
			res.Topics = append(res.Topics, rt)
		}
	case *kmsg.FetchRequest:
		return b.fetch(req, kres.(*kmsg.FetchResponse))
	case *kmsg.DescribeGroupsRequest:
		res := kres.(*kmsg.DescribeGroupsResponse)
		for _, g := range req.Groups {
			r := kmsg.NewDescribeGroupsResponseGroup()
			r.Group, r.State, r.ProtocolType, r.Protocol = g, "Stable", "consumer", b.group.protocol
			res.Groups = append(res.Groups, r)
		}
	case *kmsg.JoinGroupRequest:
		return b.join(req, kres.(*kmsg.JoinGroupResponse))
	case *kmsg.SyncGroupRequest:
		return b.sync(req, kres.(*kmsg.SyncGroupResponse))
	case *kmsg.HeartbeatRequest:
		res := kres.(*kmsg.HeartbeatResponse)
		if m := b.group.members[req.MemberID]; m == nil {
			res.ErrorCode = 25
		} else if m.seen = time.Now(); b.group.state != "stable" {
			res.ErrorCode = 27
		} else if b.group.gen != req.Generation {
			res.ErrorCode = 22
		}
	case *kmsg.LeaveGroupRequest:
		if b.group.members[req.MemberID] != nil {
			delete(b.group.members, req.MemberID)
			b.prepare()
		}
	case *kmsg.OffsetFetchRequest:
		res := kres.(*kmsg.OffsetFetchResponse)
		for _, t := range req.Topics {
			rt := kmsg.NewOffsetFetchResponseTopic()
			rt.Topic = t.Topic
			for _, p := range t.Partitions {
				rp := kmsg.NewOffsetFetchResponseTopicPartition()
				rp.Partition, rp.Offset = p, -1
				rt.Partitions = append(rt.Partitions, rp)
			}
			res.Topics = append(res.Topics, rt)
		}
	case *kmsg.OffsetCommitRequest:
		res := kres.(*kmsg.OffsetCommitResponse)
		for _, t := range req.Topics {
			rt := kmsg.NewOffsetCommitResponseTopic()
			rt.Topic = t.Topic
			for _, p := range t.Partitions {
				rp := kmsg.NewOffsetCommitResponseTopicPartition()
				rp.Partition = p.Partition
				rt.Partitions = append(rt.Partitions, rp)
			}
			res.Topics = append(res.Topics, rt)
		}
	default:
		b.t.Errorf("unexpected request %T", kreq)
		return nil
	}
	return kres
}

// pause releases the lock for a moment
func (b *zzBroker) pause(d time.Duration) {
	b.mu.Unlock()
	time.Sleep(d)
	b.mu.Lock()
}

func (b *zzBroker) fetch(req *kmsg.FetchRequest, res *kmsg.FetchResponse) kmsg.Response {
	until := time.Now().Add(time.Duration(req.MaxWaitMillis) * time.Millisecond)
	for {
		res.Topics = nil
		any := len(req.Topics) == 0
		for _, t := range req.Topics {
			rt := kmsg.NewFetchResponseTopic()
			rt.Topic = t.Topic
			for _, p := range t.Partitions {
				rp := kmsg.NewFetchResponseTopicPartition()
				rp.Partition = p.Partition
				zp := b.part(t.Topic, p.Partition)
				if zp == nil {
					rp.ErrorCode, any = 3, true
				} else {
					rp.HighWatermark, rp.LastStableOffset, rp.LogStartOffset = zp.next, zp.lso(), 0
					end := zp.next
					if req.IsolationLevel == 1 {
						end = zp.lso()
						rp.AbortedTransactions = append(rp.AbortedTransactions, zp.aborted...)
					}
					if p.FetchOffset > zp.next {
						rp.ErrorCode, any = 1, true
					}
					for _, z := range zp.batches {
						if z.last >= p.FetchOffset && z.base < end {
							rp.RecordBatches = append(rp.RecordBatches, z.raw...)
							any = true
						}
					}
					if len(rp.RecordBatches) == 0 {
						rp.RecordBatches = []byte{}
					}
				}
				rt.Partitions = append(rt.Partitions, rp)
			}
			res.Topics = append(res.Topics, rt)
		}
		if any || time.Now().After(until) {
			if b.mangle != nil {
				b.mangle(req, res)
			}
			return res
		}
		b.pause(2 * time.Millisecond)
	}
}

func (b *zzBroker) prepare() {
	g := &b.group
	g.state, g.since = "preparing", time.Now()
	for _, m := range g.members {
		m.joined, m.asg = false, nil
	}
}

func (b *zzBroker) join(req *kmsg.JoinGroupRequest, res *kmsg.JoinGroupResponse) kmsg.Response {
	g := &b.group
	m := g.members[req.MemberID]
	if m == nil {
		g.n++
		m = &zzMember{id: "m" + strconv.Itoa(g.n)}
		g.members[m.id] = m
	}
	if g.state != "preparing" {
		b.prepare()
	}
	m.joined, m.meta, m.seen = true, req.Protocols[0].Metadata, time.Now()
	proto := req.Protocols[0].Name
	for g.state == "preparing" {
		all := true
		for _, o := range g.members {
			all = all && o.joined
		}
		if all && time.Since(g.since) > 100*time.Millisecond || time.Since(g.since) > 20*time.Second {
			for id, o := range g.members {
				if !o.joined {
					delete(g.members, id)
				}
			}
			g.gen++
			g.state, g.protocol, g.since = "syncing", proto, time.Now()
			if g.members[g.leader] == nil {
				g.leader = m.id
			}
			break
		}
		b.pause(2 * time.Millisecond)
	}
	pt := "consumer"
	res.Generation, res.ProtocolType, res.Protocol, res.LeaderID, res.MemberID = g.gen, &pt, &g.protocol, g.leader, m.id
	if m.id == g.leader {
		for _, o := range g.members {
			jm := kmsg.NewJoinGroupResponseMember()
			jm.MemberID, jm.ProtocolMetadata = o.id, o.meta
			res.Members = append(res.Members, jm)
		}
	}
	return res
}

func (b *zzBroker) sync(req *kmsg.SyncGroupRequest, res *kmsg.SyncGroupResponse) kmsg.Response {
	g := &b.group
	m := g.members[req.MemberID]
	if m == nil {
		res.ErrorCode = 25
		return res
	}
	if req.MemberID == g.leader && g.state == "syncing" && g.gen == req.Generation {
		for _, a := range req.GroupAssignment {
			if o := g.members[a.MemberID]; o != nil {
				o.asg = a.MemberAssignment
			}
		}
		g.state = "stable"
	}
	for g.state == "syncing" && g.gen == req.Generation {
		b.pause(2 * time.Millisecond)
	}
	if g.state != "stable" || g.gen != req.Generation {
		res.ErrorCode = 27
		return res
	}
	res.MemberAssignment = m.asg
	return res
}

// read returns the committed records of a partition
func (b *zzBroker) read(topic string, p int32) (rs []*kgo.Record) {
	b.mu.Lock()
	end := b.part(topic, p).lso()
	empty := len(b.part(topic, p).batches) == 0
	b.mu.Unlock()
	if empty {
		return nil
	}
	cl, err := kgo.NewClient(kgo.SeedBrokers(b.ln.Addr().String()), kgo.FetchIsolationLevel(kgo.ReadCommitted()), kgo.KeepControlRecords(),
		kgo.ConsumePartitions(map[string]map[int32]kgo.Offset{topic: {p: kgo.NewOffset().At(0)}}), kgo.FetchMaxWait(100*time.Millisecond))
	if err != nil {
		b.t.Fatal(err)
	}
	defer cl.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	for last := int64(-1); last < end-1 && ctx.Err() == nil; {
		cl.PollFetches(ctx).EachRecord(func(r *kgo.Record) {
			last = r.Offset
			if !r.Attrs.IsControl() && (len(r.Headers) == 0 || r.Headers[0].Key != markerKeyString) {
				rs = append(rs, r)
			}
		})
	}
	return
}

// produce appends records to a partition of a topic
func (b *zzBroker) produce(topic string, p int32, recs ...*kgo.Record) {
	cl, err := kgo.NewClient(kgo.SeedBrokers(b.ln.Addr().String()), kgo.RecordPartitioner(kgo.ManualPartitioner()), kgo.DisableIdempotentWrite())
	if err != nil {
		b.t.Fatal(err)
	}
	defer cl.Close()
	for _, r := range recs {
		r.Topic, r.Partition = topic, p
	}
	if err := cl.ProduceSync(context.Background(), recs...).FirstErr(); err != nil {
		b.t.Fatal(err)
	}
}

// await polls for a condition
func zzAwait(d time.Duration, c func() bool) bool {
	for until := time.Now().Add(d); time.Now().Before(until); time.Sleep(2 * time.Millisecond) {
		if c() {
			return true
		}
	}
	return c()
}

// zzStore keeps the last value per key
type zzStore struct {
	mu sync.Mutex
	tp TopicPartition
	m  map[string]string
}

func (s *zzStore) ReceiveChange(r IncomingRecord) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.m[string(r.Key())] = string(r.Value())
	return nil
}
func (s *zzStore) Revoked() {}

// zzSource creates an event source for the topic "t" of b, which forwards to the topic "o"
func zzSource(b *zzBroker, parts int, cfg EventSourceConfig, handler EventProcessor[*zzStore, IncomingRecord]) *EventSource[*zzStore] {
	b.mu.Lock()
	if b.topics["t"] == nil {
		b.addTopic("t", parts)
		b.addTopic("o", 2)
		b.addTopic("s", parts)
	}
	b.mu.Unlock()
	cfg.GroupId, cfg.Topic, cfg.StateStoreTopic, cfg.SourceCluster, cfg.CommitLogPartitions = "g", "t", "s", b.cluster(), 2
	es, err := NewEventSource[*zzStore](cfg, func(tp TopicPartition) *zzStore { return &zzStore{tp: tp, m: map[string]string{}} }, handler)
	if err != nil {
		b.t.Fatal(err)
	}
	return es
}
