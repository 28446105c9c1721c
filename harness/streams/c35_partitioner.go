package streams

import "github.com/twmb/franz-go/pkg/kgo"

// a partitioner with a fixed arbitrary answer that counts its records
type vpPartitioner struct {
	answer int
	topics []string
	asked  int
}

func (p *vpPartitioner) ForTopic(t string) kgo.TopicPartitioner {
	p.topics = append(p.topics, t)
	return &vpTopicPartitioner{p}
}

type vpTopicPartitioner struct{ p *vpPartitioner }

func (t *vpTopicPartitioner) RequiresConsistency(*kgo.Record) bool { return true }
func (t *vpTopicPartitioner) Partition(r *kgo.Record, n int) int {
	t.p.asked++
	vpVerify(r.Partition == AutoAssign, "a partitioner is asked for a record with an explicit partition")
	return t.p.answer
}

// two records in turn with any 32-bit partition to topics of 0..2 bytes, 0..2 per-topic partitioners, any answers, any partition count
//
//vp:harness prop=C35
func vpH_C35_partition() {
	def := &vpPartitioner{answer: vpInt()}
	m := map[string]kgo.Partitioner{}
	var names []string
	var parts []*vpPartitioner
	for i := vpChoose(3); i > 0; i-- {
		name := vpString(vpChoose(3))
		for _, o := range names {
			vpAssume(o != name)
		}
		p := &vpPartitioner{answer: vpInt()}
		names, parts = append(names, name), append(parts, p)
		m[name] = p
	}
	var op OptionalPartitioner
	if len(names) == 0 && vpChoose(2) == 0 {
		op = NewOptionalPartitioner(def)
	} else {
		op = NewOptionalPerTopicPartitioner(def, m)
	}
	for k := 0; k < 2; k++ {
		topic := vpString(vpChoose(3))
		tp := op.ForTopic(topic)
		want := def
		for i, n := range names {
			if n == topic {
				want = parts[i]
			}
		}
		n := vpInt()
		r := &kgo.Record{Topic: topic, Partition: vpInt32()}
		vpVerify(tp.RequiresConsistency(r), "the partition of a record does not require consistency")
		asked := want.asked
		got := tp.Partition(r, n)
		if r.Partition == AutoAssign {
			vpVerify(want.asked == asked+1, "the topic's partitioner is not asked exactly once")
			vpVerify(got == want.answer, "an automatic partition is not the topic partitioner's")
		} else {
			vpVerify(got == int(r.Partition), "an explicit partition is not honoured")
		}
	}
	vpReach("partition")
}

// a record of the library: WithPartition for any 32-bit partition reaches the Kafka record, otherwise it is automatic
//
//vp:harness prop=C35
func vpH_C35_record() {
	r := NewRecord()
	vpVerify(r.toKafkaRecord().Partition == AutoAssign, "a new record is not automatically assigned")
	p := vpInt32()
	r.WithPartition(p)
	vpVerify(r.toKafkaRecord().Partition == p, "WithPartition is not honoured")
	r.Release()
	vpVerify(NewRecord().toKafkaRecord().Partition == AutoAssign, "a recycled record is not automatically assigned")
	vpReach("record")
}
