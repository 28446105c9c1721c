package streams

//vp:use lib_group.go
//vp:use lib_app.go

import (
	"time"

	"github.com/twmb/franz-go/pkg/kmsg"
)

func vpTpEq(a, b TopicPartition) bool { return vpAnd(a.Partition == b.Partition, a.Topic == b.Topic) }

func vpSameTps(items []TopicPartition, in []bool, tps []TopicPartition, what string) {
	n := 0
	for i, tp := range tps {
		if !in[i] {
			continue
		}
		n++
		has := false
		for _, it := range items {
			has = vpOr(has, vpTpEq(it, tp))
		}
		vpVerify(has, what)
	}
	vpVerify(len(items) == n, what)
}

// vpMemberSim drives the balancer of one member
type vpMemberSim struct {
	h                *vpGroupHandler
	b                IncrementalGroupRebalancer
	tps              []TopicPartition
	preparing, ready []bool
	prep, forget     []int // how often the handler is expected to be told
	forced, must     int
	leave            <-chan struct{}
	left             bool
	leftAt           int64
}

func vpNewMemberSim() *vpMemberSim {
	s := &vpMemberSim{h: vpNewGroupHandler()}
	s.b = IncrementalRebalancer(s.h)
	s.h.kc.rebal = func() { s.forced++ }
	a, b := vpInt32(), vpInt32()
	vpAssume(vpAnd(vpAnd(a >= 0, b >= 0), a != b))
	s.tps = []TopicPartition{ntp(a, "t"), ntp(b, "t"), ntp(a, "u")}
	n := len(s.tps)
	s.preparing, s.ready, s.prep, s.forget = make([]bool, n), make([]bool, n), make([]int, n), make([]int, n)
	return s
}

func (s *vpMemberSim) sync(assigned, prepare, forget []int) {
	var a kmsg.ConsumerMemberAssignment
	byTopic := map[string][]int32{}
	for _, i := range assigned {
		byTopic[s.tps[i].Topic] = append(byTopic[s.tps[i].Topic], s.tps[i].Partition)
	}
	topics := []string{"t", "u"}
	how := 0
	if len(prepare)+len(forget) == 0 {
		how = vpChoose(4)
	}
	empty := how > 1 // topics of which nothing is assigned are listed
	if how == 3 {
		topics = []string{"u", "t"}
	}
	for _, t := range topics {
		if len(byTopic[t]) > 0 || empty {
			at := kmsg.NewConsumerMemberAssignmentTopic()
			at.Topic, at.Partitions = t, byTopic[t]
			a.Topics = append(a.Topics, at)
		}
	}
	var ins IncrGroupMemberInstructions
	for _, i := range prepare {
		ins.Prepare = append(ins.Prepare, s.tps[i])
	}
	for _, i := range forget {
		ins.Forget = append(ins.Forget, s.tps[i])
	}
	switch how {
	case 0, 3:
		a.UserData, _ = json.Marshal(ins)
	case 1: // a leader which runs another balancer
		a.UserData = nil
	default:
		a.UserData = []byte("?")
	}
	before := s.forced
	res, err := s.b.ParseSyncAssignment(a.AppendTo(nil))
	vpVerify(err == nil && len(res) == len(a.Topics), "an assignment is not received as it was sent")
	for _, t := range topics {
		ps := byTopic[t]
		vpVerify(len(res[t]) == len(ps), "an assignment is not received as it was sent")
		for i, p := range ps {
			vpVerify(res[t][i] == p, "an assignment is not received as it was sent")
		}
	}
	vpQuiesce(time.Millisecond)
	if s.leave != nil && len(assigned) == 0 && !s.left {
		s.left = true
		return // the member is gone, its instructions do not matter
	}
	for _, i := range prepare {
		if !s.preparing[i] {
			s.preparing[i] = true
			s.prep[i]++
		}
	}
	for _, i := range forget {
		if s.preparing[i] || s.ready[i] {
			s.preparing[i], s.ready[i] = false, false
			s.forget[i]++
		}
	}
	if len(forget) > 0 {
		vpVerify(s.forced > before, "the group is not rebalanced after a partition was forgotten")
	}
}

func (s *vpMemberSim) check() {
	// the handler
	for i, tp := range s.tps {
		n, m := 0, 0
		for _, p := range s.h.prepared {
			if vpTpEq(p, tp) {
				n++
			}
		}
		for _, p := range s.h.forgotten {
			if vpTpEq(p, tp) {
				m++
			}
		}
		vpVerify(n == s.prep[i], "a partition is not prepared once when this is asked for")
		vpVerify(m == s.forget[i], "a partition is not forgotten once when this is asked for while it is pending")
	}
	// what is reported
	cur := map[string][]int32{"t": {s.tps[0].Partition}}
	var m kmsg.ConsumerMemberMetadata
	vpVerify(m.ReadFrom(s.b.JoinGroupMetadata([]string{"t"}, cur, 1)) == nil, "the state of a member can not be read")
	vpVerify(len(m.Topics) == 1 && m.Topics[0] == "t", "a member does not report its topics")
	vpVerify(len(m.OwnedPartitions) == 1 && m.OwnedPartitions[0].Topic == "t" && len(m.OwnedPartitions[0].Partitions) == 1 &&
		m.OwnedPartitions[0].Partitions[0] == s.tps[0].Partition, "a member does not report what it owns")
	var meta IncrGroupMemberMeta
	vpVerify(json.Unmarshal(m.UserData, &meta) == nil, "the state of a member can not be read")
	vpSameTps(meta.Preparing, s.preparing, s.tps, "a member does not report what it is preparing")
	vpSameTps(meta.Ready, s.ready, s.tps, "a member does not report what it has prepared")
	want := ActiveMember
	if s.left {
		want = Defunct
	} else if s.leave != nil {
		want = InactiveMember
	}
	vpVerify(meta.Status == want, "a member does not report whether it is leaving")
	vpVerify(meta.LeftAt == s.leftAt, "a member does not report since when it is leaving")
	if s.leave != nil {
		closed := false
		select {
		case <-s.leave:
			closed = true
		default:
		}
		vpVerify(closed == s.left, "a member is not let go when, and only when, it is leaving and assigned nothing")
	}
}

func (s *vpMemberSim) step() {
	switch vpChoose(7) {
	case 0:
		i := vpChoose(len(s.tps))
		vpAssume(!s.ready[i]) // never asked for
		s.sync([]int{0}, []int{i}, nil)
	case 1:
		s.sync([]int{0}, nil, [][]int{{0}, {1}, {0, 1}, {2, 1}}[vpChoose(4)])
	case 2:
		s.sync([][]int{{}, {1}, {0, 1}, {0, 2}}[vpChoose(4)], nil, nil)
	case 3:
		i := vpChoose(len(s.tps))
		before := s.forced
		s.b.PartitionPrepared(s.tps[i])
		vpQuiesce(time.Millisecond)
		if s.preparing[i] {
			s.preparing[i], s.ready[i] = false, true
			vpVerify(s.forced > before, "the group is not rebalanced when a partition is prepared")
		}
	case 4:
		i := vpChoose(len(s.tps))
		before := s.forced
		s.b.PartitionPreparationFailed(s.tps[i])
		vpQuiesce(time.Millisecond)
		if s.preparing[i] || s.ready[i] {
			vpVerify(s.forced > before, "the group is not rebalanced when a preparation fails")
		}
		s.preparing[i], s.ready[i] = false, false
	case 5:
		is := [][]int{{0}, {1}, {0, 1, 2}}[vpChoose(3)]
		var tps []TopicPartition
		pending := false
		for _, i := range is {
			tps = append(tps, s.tps[i])
			pending = pending || s.preparing[i] || s.ready[i]
			s.preparing[i], s.ready[i] = false, false
		}
		before := s.forced
		s.b.PartitionsAssigned(tps...)
		vpQuiesce(time.Millisecond)
		if pending {
			vpVerify(s.forced > before, "the group is not rebalanced when a pending partition has been assigned")
		}
	case 6:
		first := s.leave == nil
		before := s.forced
		ch := s.b.GracefullyLeaveGroup()
		vpVerify(first || ch == s.leave, "leaving twice does not give the same signal")
		s.leave = ch
		if first {
			s.leftAt = time.Now().UnixMilli()
		}
		vpQuiesce(2 * time.Second)
		vpVerify(!first || s.forced > before, "the group is not rebalanced when a member wants to leave")
	}
}

// a member which is preparing 2 partitions or none, and every sequence of 3 (thorough 4) steps out of: sync assignments with partitions to prepare or to forget, with other partitions, with none; a partition
// is prepared, fails to be prepared, is assigned; the member leaves; 3 partitions of any number in two topics
//
//vp:harness prop=C17 timeout=100s thorough:timeout=700s
func vpH_C17_member() {
	s := vpNewMemberSim()
	n := 3
	if vpThorough() {
		n = 4
	}
	if vpChoose(2) == 1 {
		s.sync([]int{0}, []int{1, 0}, nil)
	}
	for i := 0; i < n; i++ {
		s.step()
	}
	s.check()
	vpReach("steps")
}

// a member is preparing a partition, or two, has prepared one of them or not, and is asked to prepare one or several, the same ones and others
//
//vp:harness prop=C17
func vpH_C17_several() {
	s := vpNewMemberSim()
	lists := [][]int{{0}, {1}, {0, 1}, {1, 2}, {2, 1, 0}}
	s.sync([]int{0}, lists[vpChoose(len(lists))], nil)
	done := -1
	if vpChoose(2) == 1 && s.preparing[1] {
		done = 1
		s.b.PartitionPrepared(s.tps[1])
		s.preparing[1], s.ready[1] = false, true
		vpQuiesce(time.Millisecond)
	}
	next := lists[vpChoose(len(lists))]
	for _, i := range next {
		vpAssume(i != done) // never asked for
	}
	s.sync([]int{0}, next, nil)
	s.check()
	vpReach("asked")
}

// the balancer of a running event source is told to prepare one or two partitions, one of which may already be assigned; any of them is assigned, forgotten or revoked, once it is prepared or before,
// alone or together: it reports what is being prepared and what is prepared, and nothing which has been assigned or forgotten; up to 1 (thorough 2) scheduling delays
//
//vp:harness prop=C17 delays=1 thorough:delays=2 timeout=100s thorough:timeout=300s horizon=60s sched
func vpH_C17_source() {
	a := vpNewApp(3)
	a.cfg.EosConfig = vpEos(2, 1, 1, 2)
	a.cfg.BalanceStrategies = []BalanceStrategy{IncrementalBalanceStrategy}
	a.start()
	vpQuiesce(100 * time.Millisecond)
	b := a.es.consumer.incrBalancer
	told := func(prepare, forget []TopicPartition) {
		as := kmsg.ConsumerMemberAssignment{Topics: []kmsg.ConsumerMemberAssignmentTopic{{Topic: "t", Partitions: []int32{2}}}}
		as.UserData, _ = json.Marshal(IncrGroupMemberInstructions{Prepare: prepare, Forget: forget})
		_, err := b.ParseSyncAssignment(as.AppendTo(nil))
		vpVerify(err == nil, "an assignment is not received as it was sent")
	}
	reported := func() (meta IncrGroupMemberMeta) {
		var m kmsg.ConsumerMemberMetadata
		vpVerify(m.ReadFrom(b.JoinGroupMetadata([]string{"t"}, nil, 1)) == nil && json.Unmarshal(m.UserData, &meta) == nil, "the state of a member can not be read")
		return
	}
	prepare := []TopicPartition{ntp(0, "t"), ntp(1, "t")}[:1+vpChoose(2)]
	told(prepare, nil)
	if vpChoose(2) == 1 {
		vpQuiesce(time.Second)
		m := reported()
		vpVerify(len(m.Preparing) == 0 && len(m.Ready) == len(prepare), "a member does not report what it has prepared")
		vpReach("prepared")
	}
	g := a.w.group()
	var gone []TopicPartition
	switch vpChoose(4) {
	case 0:
		g.assign("t", 0)
		gone = prepare[:1]
	case 1:
		told(nil, prepare[:1])
		gone = prepare[:1]
	case 2:
		g.assign("t", 0, 1)
		gone = prepare
	case 3:
		g.assign("t", 0)
		told(nil, prepare[1:])
		gone = prepare
	}
	vpQuiesce(time.Second)
	m := reported()
	vpVerify(len(m.Preparing) == 0, "a member reports a partition as being prepared which is prepared, assigned or forgotten")
	vpVerify(len(m.Ready) == len(prepare)-len(gone), "a member does not report what it has prepared, or reports what has been assigned or forgotten")
	for _, tp := range m.Ready {
		vpVerify(tp == ntp(1, "t"), "a member does not report what it has prepared")
	}
	vpVerify(m.Status == ActiveMember, "a member does not report whether it is leaving")
	vpReach("reported")
}
