package streams

import "github.com/twmb/franz-go/pkg/kgo"

type vpCluster struct{ name string }

func (c *vpCluster) Config() ([]kgo.Opt, error) { return nil, nil }

// every 64-bit CommitLogPartitions, ReplicationFactor and MinInSync
//
//vp:harness prop=C31
func vpH_C31_ints() {
	clp, rf, mis := vpInt(), vpInt(), vpInt()
	s := newSource(EventSourceConfig{GroupId: "g", Topic: "t", CommitLogPartitions: clp, ReplicationFactor: rf, MinInSync: mis})
	p := commitLogPartitionsConfig(s)
	if clp > 0 {
		vpVerify(p == clp, "the commit log partition count is not the configured one")
	} else {
		vpVerify(p == 5, "the commit log partition count does not default to 5")
	}
	f := replicationFactorConfig(s)
	if rf > 0 {
		vpVerify(f == rf, "the replication factor is not the configured one")
	} else {
		vpVerify(f == 1, "the replication factor does not default to 1")
	}
	m := minInSyncConfig(s)
	vpVerify(m >= 1, "the resolved min-in-sync is below 1")
	if f > 1 {
		vpVerify(m < f, "the resolved min-in-sync is not below the replication factor")
		if vpAnd(mis >= 1, mis < rf) {
			vpVerify(m == mis, "a valid min-in-sync is not used")
		}
	} else {
		vpVerify(m == 1, "min-in-sync is not 1 without replication")
	}
	if mis <= 0 {
		vpVerify(m == 1, "an unset min-in-sync does not resolve to 1")
	}
	vpReach("ints")
}

// group, topic and state topic names of 0..2 arbitrary bytes, with and without a state cluster
//
//vp:harness prop=C31
func vpH_C31_names() {
	g, t, st := vpString(vpChoose(3)), vpString(vpChoose(3)), vpString(vpChoose(3))
	src, state := &vpCluster{"source"}, &vpCluster{"state"}
	cfg := EventSourceConfig{GroupId: g, Topic: t, StateStoreTopic: st, SourceCluster: src, NumPartitions: vpInt()}
	two := vpChoose(2) == 1
	if two {
		cfg.StateCluster = state
	}
	s := newSource(cfg)
	vpVerify(s.Topic() == t && s.GroupId() == g, "the source's topic or group is not the configured one")
	vpVerify(s.CommitLogTopicNameForGroupId() == "gkes_commit_log_"+g, "the commit log topic is not named after the group")
	if len(st) > 0 {
		vpVerify(s.StateStoreTopicName() == st, "the given state topic is not used")
	} else {
		vpVerify(s.StateStoreTopicName() == "gkes_change_log_"+t+"_"+g, "the state topic is not named after topic and group")
	}
	if two {
		vpVerify(s.stateCluster() == Cluster(state), "state does not go to the state cluster")
	} else {
		vpVerify(s.stateCluster() == Cluster(src), "state does not go to the source cluster")
	}
	d := s.AsDestination()
	vpVerify(d.DefaultTopic == t && d.Cluster == Cluster(src) && d.NumPartitions == cfg.NumPartitions, "AsDestination is not the source's topic and cluster")
	vpReach("names")
}
