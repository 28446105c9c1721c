package streams

//vp:use c14_balance.go

func vpHasTopicPartition(l []TopicPartition, p int32) bool {
	in := false
	for _, tp := range l {
		in = vpOr(in, vpAnd(tp.Partition == p, tp.Topic == "t"))
	}
	return in
}

func vpMoves(rs []vpReport, parts int32) {
	active := false
	pending := false
	for _, r := range rs {
		active = vpOr(active, r.meta.Status == ActiveMember)
		pending = vpOr(pending, vpAnd(r.meta.Status == ActiveMember, len(r.meta.Preparing)+len(r.meta.Ready) > 0))
	}
	vpAssume(active)
	res := vpBalance(IncrementalRebalancer(vpNewGroupHandler()), vpGroupMembers(rs), parts)
	moving := false
	for p := int32(0); p < parts; p++ {
		owner := -1
		for i, r := range rs {
			if vpHas(r.owned, p) {
				if owner >= 0 {
					owner = -2
					break
				}
				owner = i
			}
		}
		if owner == -2 {
			continue
		}
		if owner >= 0 && !res[rs[owner].id].has(p) {
			moving = true
			ready := false
			for i, r := range rs {
				ready = vpOr(ready, vpAnd(i != owner, vpAnd(r.meta.Status == ActiveMember, vpHasTopicPartition(r.meta.Ready, p))))
			}
			vpVerify(ready, "a partition is taken from its owner, although no other member has prepared for it")
			for i, r := range rs {
				if i != owner {
					vpVerify(!res[r.id].has(p), "a partition is given away before its owner has let it go")
				}
			}
			vpReach("moved")
		}
		if owner < 0 {
			moving = true
		}
	}
	n := 0
	for _, r := range rs {
		s := res[r.id]
		for _, tp := range s.prepare {
			n++
			vpVerify(tp.Topic == "t" && tp.Partition >= 0 && tp.Partition < parts, "a partition is to be prepared which does not exist")
			vpVerify(r.meta.Status == ActiveMember, "a member which is leaving is to prepare a partition")
			vpVerify(!s.has(tp.Partition), "a member is to prepare a partition which it owns")
			from := false
			for _, o := range rs {
				from = vpOr(from, vpHas(o.owned, tp.Partition))
			}
			vpVerify(from, "a partition which nobody owns is to be prepared")
			vpReach("prepare")
		}
		for _, tp := range s.forget {
			vpVerify(r.meta.Status != ActiveMember, "an active member is to forget a partition")
			in := vpOr(vpHasTopicPartition(r.meta.Preparing, tp.Partition), vpHasTopicPartition(r.meta.Ready, tp.Partition))
			vpVerify(in, "a member is to forget a partition which it does not prepare")
		}
		if r.meta.Status != ActiveMember {
			vpVerify(len(s.forget) == len(r.meta.Preparing)+len(r.meta.Ready), "a member which is leaving is not told to forget what it prepares")
		}
	}
	vpVerify(n <= 1, "several partitions are to be prepared at the same time")
	vpVerify(n == 0 || !vpOr(pending, moving), "a partition is to be prepared while another one is being prepared or handed over")
	vpReach("checked")
}

// every state which 2 members can report about 3 partitions: up to 3 (thorough 3) owned partitions of the first and up to 1 (thorough 2) of the second,
// up to 1 prepared or being prepared each, any status
//
//vp:harness prop=C15 timeout=100s thorough:timeout=700s
func vpH_C15_two() {
	rs := vpGroupState(1, 3, 1, 3)
	n := 1
	if vpThorough() {
		n = 2
	}
	o := vpGroupState(1, n, 1, 3)
	o[0].id = "m1"
	vpMoves(append(rs, o...), 3)
}

// 3 members, one of them with up to 2 owned partitions, two of them with up to 1 prepared or being prepared, 3 partitions
//
//vp:harness prop=C15 timeout=100s thorough:timeout=700s
func vpH_C15_three() {
	rs := vpGroupState(1, 2, 0, 3)
	o := vpGroupState(2, 1, 1, 3)
	o[0].id, o[1].id = "m1", "m2"
	if !vpThorough() {
		vpAssume(len(o[0].owned) == 0)
	}
	vpMoves(append(rs, o...), 3)
}

// the members are sorted the other way round
//
//vp:harness prop=C15 timeout=100s thorough:timeout=700s
func vpH_C15_late() {
	rs := vpGroupState(1, 2, 0, 2)
	rs[0].id = "m9"
	o := vpGroupState(1, 0, 1, 2)
	vpMoves(append(o, rs...), 2)
}
