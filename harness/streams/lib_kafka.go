package streams

import (
	"context"

	"github.com/twmb/franz-go/pkg/kgo"
)

type vpClusterT struct{ name string }

func (c *vpClusterT) Config() ([]kgo.Opt, error) { return []kgo.Opt{kgo.SeedBrokers(c.name)}, nil }

// vpKC stands in for the network side of a Kafka client. Unset hooks succeed and do nothing.
type vpKC struct {
	cl      *kgo.Client
	cfg     kgo.VerifCfg
	begin   func() error
	flush   func(context.Context) error
	end     func(context.Context, kgo.TransactionEndTry) error
	produce func(context.Context, *kgo.Record, func(*kgo.Record, error))
	poll    func(context.Context) kgo.Fetches
	pause   func(map[string][]int32)
	resume  func(map[string][]int32)
	set     func(map[string]map[int32]kgo.EpochOffset)
	mark    func(...*kgo.Record)
	rebal   func()
	leave   func()
	closing func()
	closed  int
	left    int
}

func (c *vpKC) BeginTransaction() error {
	if c.begin != nil {
		return c.begin()
	}
	return nil
}
func (c *vpKC) Flush(ctx context.Context) error {
	if c.flush != nil {
		return c.flush(ctx)
	}
	return nil
}
func (c *vpKC) EndTransaction(ctx context.Context, t kgo.TransactionEndTry) error {
	if c.end != nil {
		return c.end(ctx, t)
	}
	return nil
}
func (c *vpKC) Produce(ctx context.Context, r *kgo.Record, p func(*kgo.Record, error)) {
	if c.produce != nil {
		c.produce(ctx, r, p)
	} else if p != nil {
		p(r, nil)
	}
}
func (c *vpKC) PollFetches(ctx context.Context) kgo.Fetches {
	if c.poll != nil {
		return c.poll(ctx)
	}
	<-ctx.Done()
	return nil
}
func (c *vpKC) PauseFetchPartitions(m map[string][]int32) map[string][]int32 {
	if c.pause != nil && len(m) > 0 {
		c.pause(m)
	}
	return m
}
func (c *vpKC) ResumeFetchPartitions(m map[string][]int32) {
	if c.resume != nil {
		c.resume(m)
	}
}
func (c *vpKC) SetOffsets(m map[string]map[int32]kgo.EpochOffset) {
	if c.set != nil {
		c.set(m)
	}
}
func (c *vpKC) MarkCommitRecords(rs ...*kgo.Record) {
	if c.mark != nil {
		c.mark(rs...)
	}
}
func (c *vpKC) ForceRebalance() {
	if c.rebal != nil {
		c.rebal()
	}
}
func (c *vpKC) LeaveGroup() {
	c.left++
	if c.leave != nil {
		c.leave()
	}
}
func (c *vpKC) Close() {
	c.closed++
	if c.closing != nil {
		c.closing()
	}
}

// every client created from now on is a vpKC, which setup may fill in
func vpKafka(setup func(*vpKC) error) {
	kgo.VerifNewClient = func(cl *kgo.Client, cfg kgo.VerifCfg) (kgo.VerifClient, error) {
		c := &vpKC{cl: cl, cfg: cfg}
		if setup != nil {
			if err := setup(c); err != nil {
				return nil, err
			}
		}
		return c, nil
	}
}
