package streams

//vp:use lib_group.go

import "github.com/twmb/franz-go/pkg/kmsg"

// vpGroupState makes up the reports of n members with up to k owned partitions each
func vpGroupState(n, owned, pending int, parts int32) []vpReport {
	rs := make([]vpReport, n)
	ids := []string{"m0", "m1", "m2"}
	part := func() int32 {
		p := vpInt32()
		vpAssume(vpAnd(p >= 0, p <= parts)) // one more than there are
		return p
	}
	for i := range rs {
		r := &rs[i]
		r.id = ids[i]
		r.meta.Status = MemberStatus(vpInt())
		vpAssume(vpAnd(r.meta.Status >= ActiveMember, r.meta.Status <= Defunct))
		for j := vpChoose(owned + 1); j > 0; j-- {
			p := part()
			vpAssume(len(r.owned) == 0 || p > r.owned[len(r.owned)-1])
			r.owned = append(r.owned, p)
		}
		for j := vpChoose(pending + 1); j > 0; j-- {
			tp := ntp(part(), "t")
			if vpBool() {
				r.meta.Ready = append(r.meta.Ready, tp)
			} else {
				r.meta.Preparing = append(r.meta.Preparing, tp)
			}
		}
	}
	return rs
}

func vpGroupMembers(rs []vpReport) []kmsg.JoinGroupResponseMember {
	var ms []kmsg.JoinGroupResponseMember
	for _, r := range rs {
		ms = append(ms, r.member())
	}
	return ms
}

func vpBalanced(rs []vpReport, parts int32) {
	active := false
	for _, r := range rs {
		active = vpOr(active, r.meta.Status == ActiveMember)
	}
	vpAssume(active)
	res := vpBalance(IncrementalRebalancer(vpNewGroupHandler()), vpGroupMembers(rs), parts)
	vpVerify(len(res) <= len(rs), "a stranger gets an assignment")
	for p := int32(0); p <= parts; p++ {
		owners, claims := 0, 0
		for _, r := range rs {
			for _, q := range res[r.id].parts {
				vpVerify(vpAnd(q >= 0, q < parts), "a partition is assigned which does not exist")
				if q == p {
					owners++
				}
			}
			if vpHas(r.owned, p) {
				claims++
			}
		}
		vpVerify(owners <= 1, "a partition has two owners")
		if p < parts && owners == 0 {
			vpVerify(claims > 0, "a partition which nobody owns is not given to anybody")
			moves := false // from its owner to another member, which is ready for it
			for i, r := range rs {
				for j, q := range rs {
					if i == j || !vpHas(r.owned, p) {
						continue
					}
					ready := false
					for _, tp := range q.meta.Ready {
						ready = vpOr(ready, vpAnd(tp.Partition == p, tp.Topic == "t"))
					}
					moves = vpOr(moves, vpAnd(q.meta.Status == ActiveMember, ready))
				}
			}
			vpVerify(moves, "a partition is taken from its owner, and nobody else is to get it")
		}
		if p < parts && claims == 0 {
			for _, r := range rs {
				if vpHas(res[r.id].parts, p) {
					vpVerify(r.meta.Status == ActiveMember, "a partition which nobody owns is given to a member which is leaving")
				}
			}
		}
	}
	vpReach("balanced")
}

// every state which 2 members can report about 2 partitions: up to 2 owned partitions and one prepared or being prepared, of any number up to one
// more than there are, any status
//
//vp:harness prop=C14 timeout=100s thorough:timeout=700s maporder=1 thorough:maporder=2
func vpH_C14_two() {
	vpBalanced(vpGroupState(2, 2, 1, 2), 2)
}

// 3 members, up to 1 owned partition each, two of them with up to 1 prepared or being prepared, 2 partitions (thorough: each of them, 3 partitions)
//
//vp:harness prop=C14 timeout=100s thorough:timeout=700s
func vpH_C14_three() {
	if vpThorough() {
		vpBalanced(vpGroupState(3, 1, 1, 3), 3)
		return
	}
	rs := vpGroupState(2, 1, 1, 2)
	o := vpGroupState(1, 1, 0, 2)
	o[0].id = "m2"
	vpBalanced(append(rs, o...), 2)
}

// one member owns up to 3 partitions, the other one has prepared up to 2 (thorough: each of them either)
//
//vp:harness prop=C14 timeout=100s thorough:timeout=700s
func vpH_C14_pending() {
	rs := vpGroupState(1, 3, 0, 3)
	o := vpGroupState(1, 0, 2, 3)
	o[0].id = "m1"
	vpBalanced(append(rs, o...), 3)
}

// reports without any state, or with state which can not be read or is about another topic
//
//vp:harness prop=C14 timeout=100s thorough:timeout=700s
func vpH_C14_malformed() {
	rs := vpGroupState(2, 1, 0, 2)
	for i := range rs {
		switch vpChoose(4) {
		case 1:
			rs[i].raw, rs[i].meta = []byte{}, IncrGroupMemberMeta{}
		case 2:
			rs[i].raw, rs[i].meta = []byte("{"), IncrGroupMemberMeta{}
		case 3:
			tp := TopicPartition{Topic: "u", Partition: vpInt32()}
			if vpBool() {
				rs[i].meta.Ready = append(rs[i].meta.Ready, tp)
			} else {
				rs[i].meta.Preparing = append(rs[i].meta.Preparing, tp)
			}
		}
	}
	vpBalanced(rs, 2)
}

// 2 members which consume two topics, of 2 partitions and 1: every owner of each of them, either member leaving or not, the second member has prepared or is preparing partitions
// of either topic, or of both
//
//vp:harness prop=C14 timeout=100s thorough:timeout=700s maporder=1 thorough:maporder=2
func vpH_C14_topics() {
	rs := []vpReport{{id: "m0", other: []int32{}}, {id: "m1", other: []int32{}}}
	tps := []TopicPartition{ntp(0, "t"), ntp(1, "t"), ntp(0, "u")}
	owner := make([]int, len(tps))
	for i, tp := range tps {
		k := vpChoose(3)
		owner[i] = k
		switch {
		case k == 2: // nobody
		case tp.Topic == "t":
			rs[k].owned = append(rs[k].owned, tp.Partition)
		default:
			rs[k].other = append(rs[k].other, tp.Partition)
		}
	}
	left := vpChoose(3)
	if left < 2 {
		rs[left].meta.Status = InactiveMember
	}
	var pend []TopicPartition
	switch vpChoose(4) {
	case 1:
		pend = tps[:1]
	case 2:
		pend = tps[2:]
	case 3:
		pend = []TopicPartition{tps[0], tps[2]}
	}
	prepared := vpChoose(2) == 1
	if prepared {
		rs[1].meta.Ready = pend
	} else {
		rs[1].meta.Preparing = pend
	}
	mb, _, err := IncrementalRebalancer(vpNewGroupHandler()).MemberBalancer(vpGroupMembers(rs))
	vpVerify(err == nil, "balancing fails")
	got := make([]int, len(tps))
	for _, a := range vpMemberBalance(mb, map[string]int32{"t": 2, "u": 1}).IntoSyncAssignment() {
		var m kmsg.ConsumerMemberAssignment
		vpVerify(m.ReadFrom(a.MemberAssignment) == nil, "an assignment can not be read")
		for _, t := range m.Topics {
			for _, p := range t.Partitions {
				known := false
				for i, tp := range tps {
					if tp == ntp(p, t.Topic) {
						known = true
						got[i]++
						if owner[i] == 2 {
							vpVerify(left == 2 || a.MemberID != rs[left].id, "a partition which nobody owns is given to a member which is leaving")
						}
					}
				}
				vpVerify(known, "a partition is assigned which does not exist")
			}
		}
	}
	for i := range tps {
		vpVerify(got[i] <= 1, "a partition has two owners")
		moves := owner[i] == 0 && prepared && left != 1
		in := false
		for _, tp := range pend {
			in = in || tp == tps[i]
		}
		vpVerify(got[i] == 1 || moves && in, "a partition which nobody owns is not given to anybody, or is taken from its owner, and nobody else is to get it")
	}
	vpReach("balanced")
}
