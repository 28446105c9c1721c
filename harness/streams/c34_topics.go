package streams

//vp:use lib_kafka.go
//vp:use lib_admin.go

import (
	"errors"
	"strconv"

	"github.com/twmb/franz-go/pkg/kerr"
)

func vpCheckTopic(a *vpAdmin, k string, parts, rf, minISR int, compact bool) {
	t := a.topics[k]
	vpVerify(t != nil, "a missing topic is not created: "+k)
	vpVerify(t.created, "an existing topic is created again")
	vpVerify(t.partitions == parts, "a topic is created with the wrong partition count: "+k)
	vpVerify(t.replicas == rf, "a topic is created with the wrong replication factor: "+k)
	m := t.config["min.insync.replicas"]
	vpVerify(m != nil && *m == strconv.Itoa(minISR), "a topic is created with the wrong min-in-sync: "+k)
	p := t.config["cleanup.policy"]
	vpVerify((p != nil && *p == "compact") == compact, "a topic is created with the wrong cleanup policy: "+k)
}

// every combination of existing and missing topics; any configured partition count (1..2^31-1), replication factor and min-in-sync (any
// int up to 99), commit log partition count (any int up to 2^31-1); existing topics with 1..2 partitions and 1..2 replicas; one or two
// clusters, and with them a derived or given state topic
//
//vp:harness prop=C34 timeout=120s
func vpH_C34_resolve() {
	a := vpNewAdmin()
	cfg := EventSourceConfig{GroupId: "g", Topic: "t", SourceCluster: &vpClusterT{"src"}, NumPartitions: vpInt(), ReplicationFactor: vpInt(), MinInSync: vpInt(), CommitLogPartitions: vpInt()}
	vpAssume(vpAnd(cfg.NumPartitions >= 1, cfg.NumPartitions <= 1<<31-1))
	vpAssume(vpAnd(cfg.ReplicationFactor <= 99, cfg.CommitLogPartitions <= 1<<31-1))
	sc := "src"
	state := "gkes_change_log_t_g"
	if vpChoose(2) == 1 {
		sc = "st"
		cfg.StateCluster = &vpClusterT{sc}
		state = "own"
		cfg.StateStoreTopic = state
	}
	want := cfg
	srcEx, clEx, stEx := vpChoose(2) == 1, vpChoose(2) == 1, vpChoose(2) == 1
	if srcEx {
		n := vpChoose(3)
		a.topics["src/t"] = &vpTopic{partitions: 1 + n%2, replicas: 1 + (n+1)/2}
		want.NumPartitions, want.ReplicationFactor = a.topics["src/t"].partitions, a.topics["src/t"].replicas
	}
	if clEx {
		a.topics[sc+"/gkes_commit_log_g"] = &vpTopic{partitions: 3, replicas: 1}
		want.CommitLogPartitions = a.topics[sc+"/gkes_commit_log_g"].partitions
	}
	if stEx {
		a.topics[sc+"/"+state] = &vpTopic{partitions: 1 + vpChoose(2), replicas: 1}
	}
	s, err := CreateSource(cfg)
	vpVerify(a.opened == a.closed, "a client is left open")
	rf, mis := want.ReplicationFactor, want.MinInSync
	if rf <= 0 {
		rf = 1
	}
	if !srcEx || !clEx || !stEx {
		if mis >= rf {
			mis = rf - 1
		}
		if mis < 1 {
			mis = 1
		}
	}
	if !srcEx {
		vpCheckTopic(a, "src/t", want.NumPartitions, rf, mis, false)
	}
	clp := want.CommitLogPartitions
	if clp <= 0 {
		clp = 5
	}
	if stEx && a.topics[sc+"/"+state].partitions != want.NumPartitions {
		vpVerify(err != nil, "a state topic with another partition count than the source is accepted")
		vpReach("mismatch")
		return
	}
	vpVerify(err == nil && s != nil, "CreateSource fails although nothing failed")
	vpVerify(s.NumPartitions() == want.NumPartitions, "the source's partition count is not adopted")
	if !clEx {
		vpCheckTopic(a, sc+"/gkes_commit_log_g", clp, rf, mis, true)
	}
	vpVerify(commitLogPartitionsConfig(s) == clp, "the commit log's partition count is not adopted")
	if !stEx {
		vpCheckTopic(a, sc+"/"+state, want.NumPartitions, rf, mis, true)
	}
	n := 0
	for _, ex := range []bool{srcEx, clEx, stEx} {
		if !ex {
			n++
		}
	}
	vpVerify(len(a.creates) == n, "topics are created that were not missing")
	vpReach("resolved")
}

// a failure at any of the admin calls of CreateSource (network: once, twice or for good; anything else), or of any single topic's creation,
// for every combination of existing and missing topics
//
//vp:harness prop=C34 timeout=120s nonative
func vpH_C34_faults() {
	a := vpNewAdmin()
	cfg := EventSourceConfig{GroupId: "g", Topic: "t", SourceCluster: &vpClusterT{"c"}, NumPartitions: 2}
	names := []string{"c/t", "c/gkes_commit_log_g", "c/gkes_change_log_t_g"}
	ex := [3]bool{}
	calls := 2
	for i, k := range names {
		if vpChoose(2) == 1 {
			ex[i] = true
			a.topics[k] = &vpTopic{partitions: 2, replicas: 1}
		} else {
			calls++
		}
	}
	at := vpChoose(calls)
	kind := vpChoose(5) // 0: one network failure, 1: two, 2: for good, 3: other, 4: wrapped network
	failed := 0
	a.fault = func(call int, create bool) error {
		if call < at {
			return nil
		}
		switch {
		case kind == 0 && failed == 0, kind == 1 && failed < 2, kind == 2:
			failed++
			return vpNetErr
		case kind == 3 && failed == 0:
			failed++
			return vpOtherErr
		case kind == 4 && failed == 0:
			failed++
			return vpWrapped{vpNetErr}
		}
		return nil
	}
	s, err := CreateSource(cfg)
	switch kind {
	case 0, 1, 4:
		vpVerify(err == nil && s != nil, "a passing network failure is not retried")
		for i, k := range names {
			vpVerify(a.topics[k] != nil && a.topics[k].created == !ex[i], "a topic is missing after a retry")
		}
		vpReach("retried")
	case 2:
		vpVerify(errors.Is(err, vpNetErr), "a lasting network failure is not reported")
		vpVerify(failed <= 50, "network failures are retried without bound")
		vpReach("network")
	case 3:
		vpVerify(errors.Is(err, vpOtherErr), "a failure is not reported")
		vpVerify(a.calls == at+1, "a failure other than of the network is not returned at once")
		vpReach("other")
	}
	vpVerify(a.opened == a.closed, "a client is left open")
}

type vpWrapped struct{ err error }

func (w vpWrapped) Error() string { return "wrapped" }
func (w vpWrapped) Unwrap() error { return w.err }

// the brokers refuse to create any one of the missing topics, or say it exists already
//
//vp:harness prop=C34
func vpH_C34_refused() {
	a := vpNewAdmin()
	cfg := EventSourceConfig{GroupId: "g", Topic: "t", SourceCluster: &vpClusterT{"c"}, NumPartitions: 2}
	bad := []string{"t", "gkes_commit_log_g", "gkes_change_log_t_g"}[vpChoose(3)]
	exists := vpChoose(2) == 1
	a.perTopic = func(t string) error {
		if t != bad {
			return nil
		}
		if exists {
			return kerr.TopicAlreadyExists
		}
		return kerr.InvalidReplicationFactor
	}
	s, err := CreateSource(cfg)
	if exists {
		vpVerify(err == nil && s != nil, "a topic which exists already makes CreateSource fail")
		vpReach("exists")
		return
	}
	vpVerify(errors.Is(err, kerr.InvalidReplicationFactor), "a topic that could not be created is not reported")
	vpReach("refused")
}

// incomplete configurations are refused without any request
//
//vp:harness prop=C34
func vpH_C34_incomplete() {
	a := vpNewAdmin()
	cfg := EventSourceConfig{GroupId: vpString(vpChoose(2)), Topic: vpString(vpChoose(2)), NumPartitions: 1}
	if vpChoose(2) == 1 {
		cfg.SourceCluster = &vpClusterT{"c"}
	}
	_, err := CreateSource(cfg)
	if len(cfg.GroupId) == 0 || len(cfg.Topic) == 0 || cfg.SourceCluster == nil {
		vpVerify(err != nil && a.calls == 0, "an incomplete configuration is accepted")
		vpReach("refused")
	} else {
		vpVerify(err == nil && len(a.creates) == 3, "a complete configuration is refused")
		vpReach("accepted")
	}
}

// creating a destination with any partition count, replication factor and min-in-sync: missing or existing topic, network failures (once, twice, for good), other failures, refusals
//
//vp:harness prop=C34 nonative
func vpH_C34_destination() {
	a := vpNewAdmin()
	d := Destination{DefaultTopic: "d", NumPartitions: vpInt(), ReplicationFactor: vpInt(), MinInSync: vpInt(), Cluster: &vpClusterT{"c"}}
	vpAssume(vpAnd(d.NumPartitions >= 1, d.NumPartitions <= 1<<31-1))
	vpAssume(vpAnd(vpAnd(d.ReplicationFactor >= 1, d.ReplicationFactor <= 1<<15-1), vpAnd(d.MinInSync >= 1, d.MinInSync < 1<<15)))
	ex := vpChoose(2) == 1
	if ex {
		a.topics["c/d"] = &vpTopic{partitions: 1, replicas: 1}
	}
	kind := vpChoose(6)
	failed := 0
	a.fault = func(int, bool) error {
		switch {
		case kind == 1 && failed < 1, kind == 2 && failed < 2, kind == 3:
			failed++
			return vpNetErr
		case kind == 4:
			failed++
			return vpOtherErr
		}
		return nil
	}
	if kind == 5 {
		a.perTopic = func(string) error { return kerr.InvalidReplicationFactor }
	}
	r, err := CreateDestination(d)
	switch kind {
	case 0, 1, 2:
		vpVerify(err == nil, "CreateDestination fails")
		vpVerify(r.DefaultTopic == "d" && r.NumPartitions == d.NumPartitions && r.Cluster == d.Cluster, "the resolved destination is another")
		vpVerify(a.calls == kind+1, "CreateDestination does not stop at the first success")
		if !ex {
			vpCheckTopic(a, "c/d", d.NumPartitions, d.ReplicationFactor, d.MinInSync, false)
		}
		vpReach("created")
	case 3:
		vpVerify(errors.Is(err, vpNetErr) && failed <= 50, "a lasting network failure is not reported")
		vpReach("network")
	case 4:
		vpVerify(errors.Is(err, vpOtherErr), "a failure is not reported")
		vpVerify(failed == 1, "a failure other than of the network is not returned at once")
		vpReach("other")
	case 5:
		vpVerify(errors.Is(err, kerr.InvalidReplicationFactor), "a topic that could not be created is not reported")
		vpReach("refused")
	}
}

// deleting a source names exactly its topics
//
//vp:harness prop=C34
func vpH_C34_delete() {
	a := vpNewAdmin()
	vpVerify(DeleteSource(EventSourceConfig{GroupId: "g", Topic: "t", SourceCluster: &vpClusterT{"c"}, StateCluster: &vpClusterT{"s"}}) == nil, "DeleteSource fails")
	vpVerify(len(a.deletes) == 3, "DeleteSource deletes another number of topics")
	for _, k := range []string{"c/t", "s/gkes_commit_log_g", "s/gkes_change_log_t_g"} {
		n := 0
		for _, d := range a.deletes {
			if d == k {
				n++
			}
		}
		vpVerify(n == 1, "DeleteSource does not delete exactly the source's topics")
	}
	vpReach("delete")
}
