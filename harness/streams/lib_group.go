package streams

//vp:use lib_kafka.go

import (
	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"
)

// vpReport is what a member of the group tells the leader
type vpReport struct {
	id    string
	owned []int32
	other []int32 // partitions of the topic u it owns
	meta  IncrGroupMemberMeta
	raw   []byte // instead of meta
}

func (r vpReport) member() kmsg.JoinGroupResponseMember {
	m := kmsg.NewConsumerMemberMetadata()
	m.Version = 1
	m.Topics = []string{"t"}
	if len(r.owned) > 0 {
		o := kmsg.NewConsumerMemberMetadataOwnedPartition()
		o.Topic, o.Partitions = "t", r.owned
		m.OwnedPartitions = append(m.OwnedPartitions, o)
	}
	if r.other != nil {
		m.Topics = []string{"t", "u"}
		if len(r.other) > 0 {
			o := kmsg.NewConsumerMemberMetadataOwnedPartition()
			o.Topic, o.Partitions = "u", r.other
			m.OwnedPartitions = append(m.OwnedPartitions, o)
		}
	}
	if r.raw != nil {
		m.UserData = r.raw
	} else {
		m.UserData, _ = json.Marshal(r.meta)
	}
	jm := kmsg.NewJoinGroupResponseMember()
	jm.MemberID, jm.ProtocolMetadata = r.id, m.AppendTo(nil)
	return jm
}

// vpGroupHandler is told by a balancer what to do
type vpGroupHandler struct {
	cl        *kgo.Client
	kc        *vpKC
	prepared  []TopicPartition
	forgotten []TopicPartition
}

func vpNewGroupHandler() *vpGroupHandler {
	h := &vpGroupHandler{}
	vpKafka(func(c *vpKC) error { h.kc = c; return nil })
	h.cl, _ = kgo.NewClient()
	return h
}
func (h *vpGroupHandler) PrepareTopicPartition(tp TopicPartition) {
	h.prepared = append(h.prepared, tp)
}
func (h *vpGroupHandler) ForgetPreparedTopicPartition(tp TopicPartition) {
	h.forgotten = append(h.forgotten, tp)
}
func (h *vpGroupHandler) Client() *kgo.Client { return h.cl }

// vpSync is what the leader decides for one member
type vpSync struct {
	topics  int
	parts   []int32
	prepare []TopicPartition
	forget  []TopicPartition
	raw     []byte
}

func (s vpSync) has(p int32) bool {
	in := false
	for _, q := range s.parts {
		in = vpOr(in, p == q)
	}
	return in
}

// vpBalance runs a whole rebalance of the topic t
func vpBalance(b IncrementalGroupRebalancer, members []kmsg.JoinGroupResponseMember, parts int32) map[string]vpSync {
	mb, topics, err := b.MemberBalancer(members)
	_, hasT := topics["t"]
	vpVerify(err == nil && len(topics) == 1 && hasT, "the balancer does not know the topics of the group")
	asg := vpMemberBalance(mb, map[string]int32{"t": parts})
	res := map[string]vpSync{}
	for _, a := range asg.IntoSyncAssignment() {
		_, dup := res[a.MemberID]
		vpVerify(!dup, "a member gets two assignments")
		var m kmsg.ConsumerMemberAssignment
		vpVerify(m.ReadFrom(a.MemberAssignment) == nil, "an assignment can not be read")
		s := vpSync{topics: len(m.Topics), raw: a.MemberAssignment}
		for _, t := range m.Topics {
			vpVerify(t.Topic == "t", "another topic is assigned")
			s.parts = append(s.parts, t.Partitions...)
		}
		var ins IncrGroupMemberInstructions
		vpVerify(json.Unmarshal(m.UserData, &ins) == nil, "the instructions can not be read")
		s.prepare, s.forget = ins.Prepare, ins.Forget
		res[a.MemberID] = s
	}
	return res
}

func vpHas(l []int32, p int32) bool {
	in := false
	for _, q := range l {
		in = vpOr(in, p == q)
	}
	return in
}

func vpMemberBalance(mb kgo.GroupMemberBalancer, topics map[string]int32) kgo.IntoSyncAssignment {
	if be, ok := mb.(interface {
		BalanceOrError(map[string]int32) (kgo.IntoSyncAssignment, error)
	}); ok {
		asg, err := be.BalanceOrError(topics)
		vpVerify(err == nil, "balancing fails")
		return asg
	}
	return mb.Balance(topics)
}
