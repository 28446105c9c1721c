package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"os/exec"
	"strings"
	"time"
)

// The verdict of a harness is one formula over its decision variables (harness choices, scheduling, select and map order decisions as bit vectors
// of the values they may take, the outcome of symbolic branches as booleans): it says that an assignment of the variables leads to a violated
// assertion or to something that has not been explored. Every path contributes the leaf its decisions lead to; equal subtrees are shared as soon as
// they are complete. The solver has to refute the formula.

const (
	vcHolds = 0
	vcOpen  = 1 // violated, undecided or never reached
)

type vcNode struct {
	parent *vcNode
	slot   int
	d      decision
	depth  int
	sub    []*vcNode
	kids   []int32
	open   int
}

type vcTree struct {
	root  *vcNode
	rid   int32
	done  bool
	ids   map[string]int32
	table []vcEntry
	buf   []byte
}
type vcEntry struct {
	d     decision
	depth int
	kids  []int32
}

func newVcTree() *vcTree { return &vcTree{ids: map[string]int32{}, rid: vcOpen} }

func (d decision) arity() int {
	if d.kind == 2 {
		return int(d.n)
	}
	return 2
}
func (d decision) vcSlot() int {
	if d.kind == 2 {
		return int(d.val)
	}
	if d.taken {
		return 0
	}
	return 1
}

// add notes where the decisions of a path lead to
func (t *vcTree) add(ds []decision, leaf int32) {
	var cur *vcNode // nil: the place where the root is kept
	slot := 0
	place := func(n *vcNode) *vcNode {
		if cur == nil {
			return t.root
		}
		return cur.sub[slot]
	}
	for i, d := range ds {
		if d.n <= 1 { // the only possibility
			continue
		}
		n := place(nil)
		if n == nil {
			n = &vcNode{parent: cur, slot: slot, d: d, depth: i, sub: make([]*vcNode, d.arity()), kids: make([]int32, d.arity()), open: d.arity()}
			for j := range n.kids {
				n.kids[j] = -1
			}
			if cur == nil {
				t.root = n
			} else {
				cur.sub[slot] = n
			}
		}
		cur, slot = n, d.vcSlot()
	}
	t.set(cur, slot, leaf)
}

func (t *vcTree) set(n *vcNode, slot int, id int32) {
	for n != nil {
		if n.kids[slot] >= 0 {
			return // two paths with the same decisions
		}
		n.kids[slot] = id
		n.sub[slot] = nil
		n.open--
		if n.open > 0 {
			return
		}
		id = t.cons(n)
		n, slot = n.parent, n.slot
	}
	t.rid, t.done = id, true
	t.root = nil
}

func (t *vcTree) cons(n *vcNode) int32 {
	b := t.buf[:0]
	b = append(b, n.d.kind)
	b = binary.AppendUvarint(b, uint64(n.d.nv))
	if n.d.kind != 2 {
		b = binary.AppendUvarint(b, uint64(n.depth))
	}
	for _, k := range n.kids {
		b = binary.AppendUvarint(b, uint64(k))
	}
	t.buf = b
	if id, ok := t.ids[string(b)]; ok {
		return id
	}
	id := int32(len(t.table) + 2)
	t.ids[string(b)] = id
	t.table = append(t.table, vcEntry{n.d, n.depth, append([]int32{}, n.kids...)})
	return id
}

// close completes what has not been explored
func (t *vcTree) close() {
	if t.done {
		return
	}
	var walk func(n *vcNode) int32
	walk = func(n *vcNode) int32 {
		for i := range n.kids {
			if n.kids[i] < 0 {
				if n.sub[i] != nil {
					n.kids[i] = walk(n.sub[i])
				} else {
					n.kids[i] = vcOpen
				}
			}
		}
		return t.cons(n)
	}
	if t.root != nil {
		t.rid = walk(t.root)
	}
}

func (t *vcTree) formula() (*bytes.Buffer, int) {
	var b bytes.Buffer
	seen := map[string]bool{}
	ref := func(id int32) string {
		if id == vcHolds {
			return "false"
		}
		if id == vcOpen {
			return "true"
		}
		return fmt.Sprintf("n%d", id)
	}
	b.WriteString("(set-logic QF_BV)\n")
	for i, e := range t.table {
		if e.d.kind == 2 {
			v := fmt.Sprintf("c%d", e.d.nv)
			if !seen[v] {
				seen[v] = true
				fmt.Fprintf(&b, "(declare-const %s (_ BitVec 16))\n", v)
			}
			fmt.Fprintf(&b, "(define-fun n%d () Bool (or", i+2)
			for j, k := range e.kids {
				fmt.Fprintf(&b, " (and (= %s (_ bv%d 16)) %s)", v, j, ref(k))
			}
			b.WriteString("))\n")
		} else {
			v := fmt.Sprintf("b%d", e.depth)
			if !seen[v] {
				seen[v] = true
				fmt.Fprintf(&b, "(declare-const %s Bool)\n", v)
			}
			fmt.Fprintf(&b, "(define-fun n%d () Bool (ite %s %s %s))\n", i+2, v, ref(e.kids[0]), ref(e.kids[1]))
		}
	}
	fmt.Fprintf(&b, "(assert %s)\n(check-sat)\n", ref(t.rid))
	return &b, len(seen)
}

type vcVerdict struct {
	res   string
	nodes int
	vars  int
	secs  float64
}

// decide asks the solver for an assignment of the decisions for which the property was not shown to hold
func (ex *explorer) decide() {
	if len(ex.violations) > 0 {
		return
	}
	if len(ex.vc.table) > 3000000 {
		ex.incomplete["verdict formula too large"]++
		return
	}
	ex.verdict = ex.vc.decide()
	ex.vc = nil
	if ex.verdict.res != "unsat" && len(ex.incomplete) == 0 {
		ex.incomplete["verdict: "+ex.verdict.res]++
	}
}

func (t *vcTree) decide() vcVerdict {
	t.close()
	start := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, solverBin, "-in")
	f, nv := t.formula()
	cmd.Stdin = f
	out, err := cmd.StdoutPipe()
	v := vcVerdict{nodes: len(t.table), vars: nv}
	if err == nil {
		err = cmd.Start()
	}
	if err != nil {
		v.res = err.Error()
		return v
	}
	r := bufio.NewScanner(out)
	for r.Scan() {
		if v.res == "" || strings.Contains(r.Text(), "error") {
			v.res = r.Text()
		}
	}
	cmd.Wait()
	v.secs = time.Since(start).Seconds()
	return v
}
