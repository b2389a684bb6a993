package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"slices"
	"time"
)

var slowLog = os.Getenv("GOSYM_SLOW") != ""

func termSize(ts []*Term) int {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return len(seen)
}

// cached is the answer to a query over one independent part of a path condition.
type cached struct {
	r    Result
	vals map[*Term]uint64
}

func (m *Model) byName() map[string]uint64 {
	if m == nil {
		return nil
	}
	r := make(map[string]uint64, len(m.v))
	for t, v := range m.v {
		if v != 0 {
			r[t.name] = v
		}
	}
	return r
}

// slotsOf lists the variables of t.
func (w *Worker) slotsOf(t *Term) []*Term {
	if r, ok := w.slots[t]; ok {
		return r
	}
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == OpConst || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OpVar {
			out = append(out, t)
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	w.slots[t] = out
	return out
}

// slicedSolve decides pc and seeds together, where base satisfies every conjunct of pc that is
// not among the seeds: only the conjuncts connected to the seeds through variables matter.
func (p *Path) slicedSolve(base *Model, seeds []*Term) (Result, *Model) {
	w := p.w
	in := map[*Term]bool{}
	for _, s := range seeds {
		for _, v := range w.slotsOf(s) {
			in[v] = true
		}
	}
	used := make([]bool, len(p.pc))
	for changed := true; changed; {
		changed = false
		for i, t := range p.pc {
			if used[i] {
				continue
			}
			vs := w.slotsOf(t)
			hit := len(vs) == 0
			for _, v := range vs {
				if in[v] {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
			used[i], changed = true, true
			for _, v := range vs {
				in[v] = true
			}
		}
	}
	var part []*Term
	for i, t := range p.pc {
		if used[i] {
			part = append(part, t)
		}
	}
	ids := make([]int, 0, len(part)+len(seeds))
	for _, t := range part {
		ids = append(ids, t.id)
	}
	for _, t := range seeds {
		ids = append(ids, t.id)
	}
	slices.Sort(ids)
	ids = slices.Compact(ids)
	key := make([]byte, 0, 4*len(ids))
	for _, i := range ids {
		key = binary.LittleEndian.AppendUint32(key, uint32(i))
	}
	c, ok := w.cache[string(key)]
	if !ok {
		vars := make([]*Term, 0, len(in))
		for v := range in {
			vars = append(vars, v)
		}
		slices.SortFunc(vars, func(a, b *Term) int { return a.id - b.id })
		var extra *Term
		for _, s := range seeds {
			if extra == nil {
				extra = s
			} else {
				extra = p.c.And(extra, s)
			}
		}
		if extra.op == OpConst {
			if extra.k == 0 {
				return Unsat, nil
			}
			extra = nil
		}
		t0 := time.Now()
		r, vals, err := w.solver.Check(part, extra, vars)
		if d := time.Since(t0); d > 300*time.Millisecond && slowLog {
			fmt.Fprintf(os.Stderr, "SLOW %v part %d vars %d res %v size %d%s\n", d, len(part), len(vars), r, termSize(append(part, seeds...)), p.where())
			w.solver.dump(fmt.Sprintf("/tmp/dump/%d.smt2", time.Now().UnixNano()), part, extra)
		}
		if err != nil {
			w.e.noteErr(err)
			if e := w.solver.Reset(); e != nil {
				panic(abortPath{"unsupported", "solver died: " + err.Error()})
			}
			return Unknown, nil
		}
		if r == Unknown {
			r, vals = w.fallback(part, extra, vars)
		}
		c = cached{r, vals}
		if r != Unknown {
			w.cache[string(key)] = c
		}
	}
	if c.r != Sat {
		return c.r, nil
	}
	m := NewModel()
	for k, v := range base.v {
		m.v[k] = v
	}
	for k, v := range c.vals {
		m.v[k] = v
	}
	return Sat, m
}
