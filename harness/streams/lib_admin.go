package streams

import (
	"errors"
	"net"

	"github.com/twmb/franz-go/pkg/kadm"
	"github.com/twmb/franz-go/pkg/kerr"
	"github.com/twmb/franz-go/pkg/kgo"
)

type vpTopic struct {
	partitions, replicas int
	created              bool
	config               map[string]*string
}

// vpAdmin stands in for the brokers' topic administration. Topics are per cluster (seed broker).
type vpAdmin struct {
	topics   map[string]*vpTopic // cluster/topic
	creates  []string
	deletes  []string
	clients  map[*kgo.Client]*vpKC
	opened   int
	closed   int
	calls    int
	fault    func(call int, create bool) error
	perTopic func(topic string) error
	describe func(groups []string) (kadm.DescribedGroups, error)
}

var vpNetErr = &net.OpError{Op: "dial", Err: errors.New("refused")}
var vpOtherErr = errors.New("not authorized")

func vpNewAdmin() *vpAdmin {
	a := &vpAdmin{topics: map[string]*vpTopic{}, clients: map[*kgo.Client]*vpKC{}}
	vpKafka(func(c *vpKC) error {
		a.clients[c.cl] = c
		a.opened++
		c.closing = func() { a.closed++ }
		return nil
	})
	kadm.VerifAdmin = a
	return a
}

func (a *vpAdmin) cluster(cl *kgo.Client) string { return a.clients[cl].cfg.SeedBrokers[0] }

func (a *vpAdmin) call(create bool) error {
	a.calls++
	if a.fault != nil {
		return a.fault(a.calls-1, create)
	}
	return nil
}

func (a *vpAdmin) CreateTopics(cl *kgo.Client, partitions int32, rf int16, configs map[string]*string, topics ...string) (kadm.CreateTopicResponses, error) {
	if err := a.call(true); err != nil {
		return nil, err
	}
	res := kadm.CreateTopicResponses{}
	for _, t := range topics {
		k := a.cluster(cl) + "/" + t
		var err error
		if a.perTopic != nil {
			err = a.perTopic(t)
		}
		if err == nil && a.topics[k] != nil {
			err = kerr.TopicAlreadyExists
		}
		res[t] = kadm.CreateTopicResponse{Topic: t, Err: err}
		if err == nil {
			a.topics[k] = &vpTopic{partitions: int(partitions), replicas: int(rf), created: true, config: configs}
			a.creates = append(a.creates, k)
		}
	}
	return res, nil
}

func (a *vpAdmin) ListTopicsWithInternal(cl *kgo.Client, topics ...string) (kadm.TopicDetails, error) {
	if err := a.call(false); err != nil {
		return nil, err
	}
	res := kadm.TopicDetails{}
	for _, t := range topics {
		k := a.cluster(cl) + "/" + t
		d := kadm.TopicDetail{Topic: t, Err: kerr.UnknownTopicOrPartition}
		if e := a.topics[k]; e != nil {
			d.Err = nil
			d.Partitions = kadm.PartitionDetails{}
			for p := 0; p < e.partitions; p++ {
				d.Partitions[int32(p)] = kadm.PartitionDetail{Topic: t, Partition: int32(p), Replicas: make([]int32, e.replicas)}
			}
		}
		res[t] = d
	}
	return res, nil
}

func (a *vpAdmin) DeleteTopics(cl *kgo.Client, topics ...string) (kadm.DeleteTopicResponses, error) {
	for _, t := range topics {
		a.deletes = append(a.deletes, a.cluster(cl)+"/"+t)
	}
	return kadm.DeleteTopicResponses{}, nil
}

func (a *vpAdmin) DescribeGroups(cl *kgo.Client, groups ...string) (kadm.DescribedGroups, error) {
	if a.describe != nil {
		return a.describe(groups)
	}
	return nil, nil
}
