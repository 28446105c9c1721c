package streams

// every sequence of 3 (thorough 4) inserts and removals on two sets over arbitrary non-negative partitions and topics of length 0..1
//
//vp:harness prop=C32 timeout=120s thorough:timeout=700s
func vpH_C32_ops() {
	sets := [2]TopicPartitionSet{NewTopicPartitionSet(), NewTopicPartitionSet()}
	// the mathematical sets, as insertion-ordered lists
	var model [2][]TopicPartition
	n := 3
	if vpThorough() {
		n = 4
	}
	eq := func(a, b TopicPartition) bool { return vpAnd(a.Partition == b.Partition, a.Topic == b.Topic) }
	for i := 0; i < n; i++ {
		s := vpChoose(2)
		p := vpInt32()
		vpAssume(p >= 0)
		tp := ntp(p, vpString(vpChoose(2)))
		at := -1
		for j, m := range model[s] {
			if eq(m, tp) {
				at = j
			}
		}
		switch vpChoose(2) {
		case 0:
			vpVerify(sets[s].Insert(tp) == (at < 0), "Insert misreports whether it changed the set")
			if at < 0 {
				model[s] = append(model[s], tp)
			}
		case 1:
			vpVerify(sets[s].Remove(tp) == (at >= 0), "Remove misreports whether it changed the set")
			if at >= 0 {
				model[s] = append(model[s][:at:at], model[s][at+1:]...)
			}
		}
		vpVerify(sets[1-s].Contains(tp) == vpHasTP(model[1-s], tp), "Contains is wrong")
		for k := range sets {
			vpVerify(sets[k].Len() == len(model[k]), "the size is wrong")
		}
	}
	for k := range sets {
		items := sets[k].Items()
		vpVerify(len(items) == len(model[k]), "Items has the wrong length")
		for i, it := range items {
			in := false
			for _, m := range model[k] {
				in = vpOr(in, eq(m, it))
			}
			vpVerify(in, "Items contains something that is not in the set")
			vpVerify(sets[k].Contains(it), "an item of the set is not contained in it")
			if i > 0 {
				a := items[i-1]
				vpVerify(vpOr(a.Partition < it.Partition, vpAnd(a.Partition == it.Partition, a.Topic < it.Topic)), "Items is not ordered by partition and topic")
			}
		}
		if len(items) > 0 {
			items[0].Partition = -7
			vpVerify(sets[k].Items()[0].Partition >= 0, "Items aliases the set")
		}
	}
	vpReach("set")
}

func vpHasTP(l []TopicPartition, tp TopicPartition) bool {
	in := false
	for _, m := range l {
		in = vpOr(in, vpAnd(m.Partition == tp.Partition, m.Topic == tp.Topic))
	}
	return in
}

// 40 concrete and 2 arbitrary members, enough to split the tree's nodes: order, membership and removal
//
//vp:harness prop=C32 timeout=120s
func vpH_C32_large() {
	s := NewTopicPartitionSet()
	for i := int32(0); i < 40; i++ {
		vpVerify(s.Insert(ntp((i*7)%40, "t")), "a new member is reported as present")
	}
	p := vpInt32()
	vpAssume(p >= 0)
	q := vpInt32()
	vpAssume(q >= 0)
	vpVerify(s.Insert(ntp(p, "t")) == (p >= 40), "Insert misreports whether it changed the set")
	want := 40
	if p >= 40 {
		want++
	}
	had := vpOr(q < 40, q == p)
	vpVerify(s.Remove(ntp(q, "t")) == had, "Remove misreports whether it changed the set")
	if had {
		want--
	}
	vpVerify(s.Len() == want, "the size is wrong")
	items := s.Items()
	vpVerify(len(items) == want, "Items has the wrong length")
	for i := 1; i < len(items); i++ {
		vpVerify(items[i-1].Partition < items[i].Partition, "Items is not ordered")
	}
	vpReach("large")
}
