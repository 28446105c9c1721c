package streams

//vp:use c15_moves.go

import (
	"time"

	"github.com/twmb/franz-go/pkg/kmsg"
)

// vpGMember is a member of a group with a balancer of its own
type vpGMember struct {
	id      string
	h       *vpGroupHandler
	b       IncrementalGroupRebalancer
	owned   []int32
	done    int // preparations which have been answered
	leaving <-chan struct{}
	gone    bool
}

// vpGroupSim is the group protocol around the balancers
type vpGroupSim struct {
	ms    []*vpGMember
	parts int32
	gen   int32
	lead  int
}

func vpNewGroupSim(n int, parts int32) *vpGroupSim {
	g := &vpGroupSim{parts: parts}
	for i := 0; i < n; i++ {
		h := vpNewGroupHandler()
		g.ms = append(g.ms, &vpGMember{id: []string{"m0", "m1", "m2", "m3"}[i], h: h, b: IncrementalRebalancer(h)})
	}
	return g
}

func (m *vpGMember) left() bool {
	select {
	case <-m.leaving:
		return m.leaving != nil
	default:
		return false
	}
}

// rebalance runs one rebalance and tells whether a partition moved or is to be prepared
func (g *vpGroupSim) rebalance() bool {
	g.gen++
	var in []kmsg.JoinGroupResponseMember
	active := 0
	nobody := map[int32]bool{}
	for p := int32(0); p < g.parts; p++ {
		nobody[p] = true
	}
	var lead *vpGMember
	for _, m := range g.ms {
		if m.gone {
			continue
		}
		if lead == nil {
			lead = m
		}
		if m.leaving == nil {
			active++
		}
		for _, p := range m.owned {
			nobody[p] = false
		}
		cur := map[string][]int32{}
		if len(m.owned) > 0 {
			cur["t"] = m.owned
		}
		jm := kmsg.NewJoinGroupResponseMember()
		jm.MemberID, jm.ProtocolMetadata = m.id, m.b.JoinGroupMetadata([]string{"t"}, cur, g.gen)
		in = append(in, jm)
	}
	if lead == nil {
		return false
	}
	res := vpBalance(lead.b, in, g.parts)
	changed := false
	owner := map[int32]bool{}
	for _, m := range g.ms {
		if m.gone {
			continue
		}
		s := res[m.id]
		was, left := m.owned, m.left()
		if s.raw == nil {
			var a kmsg.ConsumerMemberAssignment
			s.raw = a.AppendTo(nil)
		}
		asg, err := m.b.ParseSyncAssignment(s.raw)
		vpVerify(err == nil && len(asg["t"]) == len(s.parts), "an assignment does not reach the member")
		var added []TopicPartition
		for _, p := range asg["t"] {
			vpVerify(!owner[p], "a partition has two owners")
			owner[p] = true
			if !vpHas(was, p) {
				changed = true
				vpVerify(active == 0 || m.leaving == nil, "a partition is given to a member which is leaving")
				added = append(added, ntp(p, "t"))
			}
		}
		for _, p := range was {
			if !vpHas(asg["t"], p) {
				changed = true
			}
		}
		changed = changed || len(s.prepare) > 0
		m.owned = asg["t"]
		vpQuiesce(time.Millisecond)
		m.b.PartitionsAssigned(added...)
		if m.leaving != nil {
			vpVerify(m.left() == (len(asg["t"]) == 0 || left), "a member which is leaving is let go too early, or not when it owns nothing any more")
		}
	}
	if active > 0 {
		for p, n := range nobody {
			vpVerify(!n || owner[p], "a partition which nobody owns is not given to anybody")
		}
	}
	vpQuiesce(time.Millisecond)
	return changed
}

func (g *vpGroupSim) balanced() {
	owners := map[int32]int{}
	min, max, active := 1000, 0, 0
	for _, m := range g.ms {
		if m.gone {
			continue
		}
		for _, p := range m.owned {
			owners[p]++
		}
		if m.leaving != nil {
			vpVerify(len(m.owned) == 0, "a member which is leaving still owns partitions")
			vpVerify(m.left(), "a member which owns nothing any more is not let go")
			continue
		}
		active++
		if len(m.owned) < min {
			min = len(m.owned)
		}
		if len(m.owned) > max {
			max = len(m.owned)
		}
	}
	if active == 0 {
		return
	}
	for p := int32(0); p < g.parts; p++ {
		vpVerify(owners[p] == 1, "a partition does not have one owner")
	}
	vpVerify(max-min <= 1, "the group settles without being balanced")
	vpReach("balanced")
}

// settle rebalances again and again, while members answer their preparations at any moment, and checks where this leads to
func (g *vpGroupSim) settle(late, fails int) {
	quiet := 0
	for i := 0; quiet < 2; i++ {
		vpVerify(i < 4*int(g.parts)+6+2*(late+fails), "the group does not settle")
		if g.rebalance() {
			quiet = 0
		} else {
			quiet++
		}
		for _, m := range g.ms {
			if !m.gone && m.left() && vpChoose(2) == 1 {
				m.gone = true // its client is closed
			}
			for m.done < len(m.h.prepared) {
				if late > 0 && vpChoose(2) == 1 {
					late--
					quiet = 0
					break
				}
				tp := m.h.prepared[m.done]
				m.done++
				quiet = 0
				if fails > 0 && vpChoose(2) == 1 {
					fails--
					m.b.PartitionPreparationFailed(tp)
				} else {
					m.b.PartitionPrepared(tp)
				}
			}
		}
	}
	g.balanced()
	vpReach("settled")
}

// own gives every partition to any member or to nobody
func (g *vpGroupSim) own() {
	for p := int32(0); p < g.parts; p++ {
		if i := vpChoose(len(g.ms) + 1); i < len(g.ms) {
			g.ms[i].owned = append(g.ms[i].owned, p)
		}
	}
}

// 3 members, every assignment of 3 partitions to them, any of them leaving
//
//vp:harness prop=C16 timeout=100s thorough:timeout=700s
func vpH_C16_settle() {
	g := vpNewGroupSim(3, 3)
	g.own()
	for _, m := range g.ms {
		if vpChoose(2) == 1 {
			m.leaving = m.b.GracefullyLeaveGroup()
		}
	}
	vpQuiesce(2 * time.Second)
	g.settle(0, 0)
}

// 2 members (thorough 3), 2 partitions of a single owner (thorough: 3, with every assignment), up to 1 preparation which fails, up to 1 (thorough 2) which is answered late, and at any
// moment a member crashes, joins or decides to leave, and another one joins when the group has settled
//
//vp:harness prop=C16 timeout=100s thorough:timeout=700s
func vpH_C16_events() {
	n, late := 2, 1
	if vpThorough() {
		n, late = 3, 2
	}
	g := vpNewGroupSim(n, 2)
	if vpThorough() {
		g.parts = 3
		g.own()
	} else {
		g.ms[0].owned = []int32{0, 1}
	}
	for i := 1 + vpChoose(4); i > 0; i-- {
		g.rebalance()
		for _, m := range g.ms {
			for m.done < len(m.h.prepared) && vpChoose(2) == 1 {
				m.done++
				m.b.PartitionPrepared(m.h.prepared[m.done-1])
			}
		}
	}
	k := vpChoose(n)
	switch vpChoose(3) {
	case 0:
		g.ms[k].gone = true
	case 1:
		g.join("a")
	case 2:
		g.ms[k].leaving = g.ms[k].b.GracefullyLeaveGroup()
	}
	g.settle(late, 1)
	g.join("z")
	g.settle(0, 0)
}

func (g *vpGroupSim) join(id string) {
	h := vpNewGroupHandler()
	g.ms = append(g.ms, &vpGMember{id: id, h: h, b: IncrementalRebalancer(h)})
}

// 2 members and 5 partitions, 4 members and 4 partitions, from a single owner
//
//vp:harness prop=C16 timeout=100s thorough:timeout=700s
func vpH_C16_more() {
	g := vpNewGroupSim(2, 5)
	if vpChoose(2) == 1 {
		g = vpNewGroupSim(4, 4)
	}
	k := vpChoose(2)
	for p := int32(0); p < g.parts; p++ {
		g.ms[k].owned = append(g.ms[k].owned, p)
	}
	if vpChoose(2) == 1 {
		g.ms[1-k].leaving = g.ms[1-k].b.GracefullyLeaveGroup()
	}
	g.settle(0, 0)
}

// 3 members own 3, 1 and 1 partitions, or 4, 2 and 2; one of them may have left
//
//vp:harness prop=C16 timeout=100s thorough:timeout=700s
func vpH_C16_uneven() {
	parts := int32(5)
	if vpChoose(2) == 1 {
		parts = 8
	}
	g := vpNewGroupSim(3, parts)
	for p := int32(0); p < parts; p++ {
		k := int(p) % 3
		if p >= parts-parts%3 {
			k = 0
		}
		g.ms[k].owned = append(g.ms[k].owned, p)
	}
	g.settle(0, 0)
}

// every state of 3 members and 2 (thorough 3) partitions in which one that is leaving owns a partition and nothing is in transit
//
//vp:harness prop=C16 timeout=100s thorough:timeout=700s
func vpH_C16_drain() {
	parts := int32(2)
	if vpThorough() {
		parts = 3
	}
	rs := vpGroupState(3, int(parts), 0, parts)
	active, left, leaving := 0, 0, 0
	for i := range rs {
		r := &rs[i]
		r.meta.LeftAt = vpInt64()
		if r.meta.Status == ActiveMember {
			active++
			continue
		}
		left++
		for _, p := range r.owned {
			if p < parts {
				leaving++
			}
		}
		if vpChoose(2) == 1 {
			r.meta.Ready = append(r.meta.Ready, ntp(vpInt32(), "t"))
		}
	}
	vpAssume(active > 0 && leaving > 0)
	for p := int32(0); p < parts; p++ {
		n := 0
		for _, r := range rs {
			if vpHas(r.owned, p) {
				n++
			}
		}
		vpAssume(n == 1)
	}
	res := vpBalance(IncrementalRebalancer(vpNewGroupHandler()), vpGroupMembers(rs), parts)
	n := 0
	for _, r := range rs {
		for _, tp := range res[r.id].prepare {
			n++
			from := false
			for _, o := range rs {
				from = vpOr(from, vpAnd(o.meta.Status != ActiveMember, vpHas(o.owned, tp.Partition)))
			}
			vpVerify(from && r.meta.Status == ActiveMember, "a partition of another member is to be moved before those of members which are leaving")
		}
		for _, p := range r.owned {
			vpVerify(p >= parts || res[r.id].has(p), "a partition is taken from its owner although no other member has prepared for it")
		}
	}
	vpVerify(n == 1, "no partition of a member which is leaving is scheduled to be moved")
	vpReach("draining")
}
