package main

import (
	"strconv"
	"sync"
	"sync/atomic"
)

// queryCache remembers the solver's answers: paths ask many questions which are equal up to the names of their variables. A question is the
// asserted constraints which share variables with the asked term, and the term; the other constraints are satisfiable on their own.
type queryCache struct {
	m    sync.Map
	n    atomic.Int64
	hits atomic.Int64
}

type cacheEntry struct {
	r    satResult
	vals []uint64 // of the canonical variables
}

func termVars(t *Term, seen map[*Term]bool, out []*Term) []*Term {
	if t == nil || t.op == opConst || seen[t] {
		return out
	}
	seen[t] = true
	if t.op == opVar {
		return append(out, t)
	}
	out = termVars(t.a, seen, out)
	out = termVars(t.b, seen, out)
	return termVars(t.c, seen, out)
}

// pcVarsOf returns the variables of the i-th constraint
func (p *path) pcVarsOf(i int) []*Term {
	for len(p.pcVars) <= i {
		p.pcVars = append(p.pcVars, termVars(p.pc[len(p.pcVars)], map[*Term]bool{}, nil))
	}
	return p.pcVars[i]
}

type canon struct {
	b    []byte
	vars []*Term
	num  map[*Term]int
}

func (c *canon) term(t *Term) {
	if len(c.b) > 1<<14 {
		return
	}
	if n, ok := c.num[t]; ok {
		c.b = append(c.b, '#')
		c.b = strconv.AppendInt(c.b, int64(n), 36)
		c.b = append(c.b, ' ')
		return
	}
	if t.op == opConst {
		c.b = append(c.b, 'k', byte('A'+t.w%26), byte('A'+t.w/26))
		c.b = strconv.AppendUint(c.b, t.val, 36)
		c.b = append(c.b, ' ')
		return
	}
	c.num[t] = len(c.num)
	c.b = append(c.b, '(', byte('0'+int(t.op)), byte('A'+t.w%26), byte('A'+t.w/26))
	if t.op == opVar {
		c.vars = append(c.vars, t)
	} else {
		c.b = strconv.AppendUint(c.b, t.val, 36)
		for _, x := range [...]*Term{t.a, t.b, t.c} {
			if x != nil {
				c.term(x)
			}
		}
	}
	c.b = append(c.b, ')')
}

// question returns the key of a query and its variables in canonical order; "" when it is too large
func (p *path) question(t *Term) (string, []*Term) {
	in := map[*Term]bool{}
	for _, v := range termVars(t, map[*Term]bool{}, nil) {
		in[v] = true
	}
	use := make([]bool, len(p.pc))
	for again := true; again; {
		again = false
		for i := range p.pc {
			if use[i] {
				continue
			}
			vs := p.pcVarsOf(i)
			for _, v := range vs {
				if in[v] {
					use[i] = true
					again = true
					for _, x := range vs {
						in[x] = true
					}
					break
				}
			}
		}
	}
	c := &canon{num: map[*Term]int{}}
	c.term(t)
	for i, x := range p.pc {
		if use[i] {
			c.b = append(c.b, '&')
			c.term(x)
		}
	}
	if len(c.b) > 1<<14 {
		return "", nil
	}
	return string(c.b), c.vars
}

func (q *queryCache) get(k string) (cacheEntry, bool) {
	v, ok := q.m.Load(k)
	if !ok {
		return cacheEntry{}, false
	}
	q.hits.Add(1)
	return v.(cacheEntry), true
}

func (q *queryCache) put(k string, e cacheEntry) {
	if q.n.Load() < 200000 && e.r != resUnknown {
		q.n.Add(1)
		q.m.Store(k, e)
	}
}
