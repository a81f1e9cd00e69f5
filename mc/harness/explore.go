//go:build !free

package main

import (
	"fmt"
	"sort"
	"time"

	"vrt"
)

type frame struct {
	c    vrt.Choice
	next int
}

// visTab maps state keys to the largest remaining preemption budget they were reached with.
// It is no Go map because map operations are visible to the race detector.
type visTab struct {
	k []uint64
	v []int8
	n int
}

func newVisTab() *visTab { return &visTab{k: make([]uint64, 1024), v: make([]int8, 1024)} }

func (t *visTab) slot(k uint64) int {
	m := uint64(len(t.k) - 1)
	i := k & m
	for t.v[i] != 0 && t.k[i] != k {
		i = (i + 1) & m
	}
	return int(i)
}

// visit reports whether k was already seen with at least budget v (>0), and records it.
func (t *visTab) visit(k uint64, v int8) bool {
	i := t.slot(k)
	if t.v[i] >= v {
		return true
	}
	if t.v[i] == 0 {
		t.n++
		if t.n*2 > len(t.k) {
			ok, ov := t.k, t.v
			t.k, t.v = make([]uint64, 2*len(ok)), make([]int8, 2*len(ov))
			for j, x := range ov {
				if x != 0 {
					s := t.slot(ok[j])
					t.k[s], t.v[s] = ok[j], x
				}
			}
			i = t.slot(k)
		}
	}
	t.k[i], t.v[i] = k, v
	return false
}

// Result of one worker job.
type Result struct {
	Scenario   string
	P, F       int
	Shard      int
	Executions int
	Pruned     int
	Steps      int64
	States     int
	Completed  bool // the whole space within the bounds was enumerated
	Bound      int  // largest preemption bound completed
	Outcomes   int
	OutcomeSet []string `json:",omitempty"`
	Other      map[string]int
	Violation  *Violation
	Internal   string
	Samples    []string
	Plans      []PlanOut `json:",omitempty"`
	WallS      float64
	Inputs     int // inputs exercised
}

// Violation is a failing execution.
type Violation struct {
	Property string
	Scenario string
	Tier     string
	Kind     string
	Msg      string
	Choices  []int
	P, F     int
	Race     bool
	Trace    []string
	Free     *FreeRun `json:",omitempty"` // environment script of a run of the unmodified code
}

type dfs struct {
	stack   []frame
	pos     int
	maxP    int
	maxF    int
	visited *visTab
	shard   int
	shards  int
	noCache bool
	diverge string
	deep    int // work is split at the deviation with this number
	track   func([]int)
}

// Choose implements vrt.Chooser.
func (d *dfs) Choose(x *vrt.Exec, c *vrt.Choice, key uint64) int {
	if d.pos < len(d.stack) {
		f := &d.stack[d.pos]
		if f.c.N != c.N || f.c.Kind != c.Kind {
			d.diverge = fmt.Sprintf("choice %d: had kind %d of %d, now kind %d of %d", d.pos, f.c.Kind, f.c.N, c.Kind, c.N)
			return -1
		}
		d.pos++
		return int(f.c.Idx)
	}
	remP, remF := d.maxP-int(c.P), d.maxF-int(c.F)
	if d.visited != nil {
		if d.visited.visit(vrt.Mix(key, uint64(remF)), int8(remP+1)) {
			return -1
		}
	}
	d.stack = append(d.stack, frame{c: *c, next: 1})
	d.pos++
	return 0
}

// advance moves to the next unexplored alternative; false when the space is exhausted.
func (d *dfs) advance() bool {
	for len(d.stack) > 0 {
		i := len(d.stack) - 1
		f := &d.stack[i]
		for f.next < int(f.c.N) {
			alt := f.next
			f.next++
			p, fl := f.c.Cost(alt)
			if int(f.c.P)+p > d.maxP || int(f.c.F)+fl > d.maxF {
				continue
			}
			if d.shards > 1 {
				if k, n := d.deviations(i); n == d.deep && int(vrt.Mix(k, vrt.Mix(uint64(i), uint64(alt)))%uint64(d.shards)) != d.shard {
					continue
				}
			}
			f.c.Idx = uint16(alt)
			return true
		}
		d.stack = d.stack[:i]
	}
	return false
}

// deviations counts and hashes the non-default choices before position i.
func (d *dfs) deviations(i int) (key uint64, n int) {
	for k := 0; k < i; k++ {
		if x := d.stack[k].c.Idx; x != 0 {
			n++
			key = vrt.Mix(key, vrt.Mix(uint64(k), uint64(x)))
		}
	}
	return
}

func (d *dfs) choices() []int {
	r := make([]int, len(d.stack))
	for i := range d.stack {
		r[i] = int(d.stack[i].c.Idx)
	}
	return r
}

// replayer follows a recorded choice list, then defaults.
type replayer struct {
	list []int
	pos  int
	bad  bool
}

func (r *replayer) Choose(x *vrt.Exec, c *vrt.Choice, key uint64) int {
	i := 0
	if r.pos < len(r.list) {
		i = r.list[r.pos]
		r.pos++
	}
	if i >= int(c.N) {
		r.bad = true
		return -1
	}
	return i
}

func (s *Scenario) config(trace bool) vrt.Config {
	mt := s.MaxTime
	if mt == 0 {
		mt = 100 * time.Second
	}
	ms := s.MaxSteps
	if ms == 0 {
		ms = 100000
	}
	return vrt.Config{MaxSteps: ms, MaxTime: int64(mt), EarlyTime: s.Early, PoolLIFO: s.LIFO, Delay: s.Delay, Trace: trace}
}

func (s *Scenario) once(ch vrt.Chooser, trace bool, prop string) (*vrt.Exec, string) {
	var h *H
	cfg := s.config(trace)
	cfg.Ignore = func(p string) bool { return prop != "" && !s.relevant(&vrt.Failure{Kind: "oracle", Prop: p}, prop) }
	x := vrt.Run(cfg, ch, func() { s.Body(&h) })
	out := ""
	if h != nil {
		s.inputs += h.inputs
	}
	if h != nil && x.Failure == nil && !x.Pruned {
		out = h.Outcome()
	}
	return x, out
}

// relevant reports whether a failure violates prop in this scenario.
func (s *Scenario) relevant(f *vrt.Failure, prop string) bool {
	if has(s.Own, prop) || prop == "ANY" {
		return f.Kind != "race"
	}
	switch f.Kind {
	case "oracle":
		for _, p := range splitComma(f.Prop) {
			if p == prop {
				return true
			}
		}
		return false
	case "panic":
		return true
	case "race":
		return prop == "C17"
	}
	return s.Liveness && livenessProps[prop]
}

var livenessProps = map[string]bool{"C02": true, "C03": true, "C04": true, "C05": true, "C06": true, "C07": true, "C08": true, "C09": true,
	"C10": true, "C11": true, "C12": true, "C13": true, "C15": true, "C18": true, "C19": true, "C20": true, "C21": true}

func splitComma(s string) []string {
	var r []string
	for len(s) > 0 {
		i := 0
		for i < len(s) && s[i] != ',' {
			i++
		}
		if i > 0 {
			r = append(r, s[:i])
		}
		if i == len(s) {
			break
		}
		s = s[i+1:]
	}
	return r
}

// Explore enumerates the scenario for one property.
func (s *Scenario) Explore(prop string, P, F, shard, shards int, deadline time.Time, track func([]int)) *Result {
	t0 := time.Now()
	res := &Result{Scenario: s.Name, P: P, F: F, Shard: shard, Other: map[string]int{}, Bound: -1}
	outcomes := map[string]bool{}
	plans := &planSet{m: 1, by: map[uint64]*PlanOut{}}
	states := map[uint64]struct{}{}
	defer func() {
		res.Outcomes = len(outcomes)
		for o := range outcomes {
			if len(res.OutcomeSet) < 4000 {
				res.OutcomeSet = append(res.OutcomeSet, o)
			}
		}
		if res.States < len(states) {
			res.States = len(states)
		}
		res.Inputs = s.inputs
		if !s.Real {
			res.Plans = plans.list()
		}
		res.WallS = time.Since(t0).Seconds()
	}()
	for bound := 0; bound <= P; bound++ {
		d := &dfs{maxP: bound, maxF: F, shard: shard, shards: shards, deep: s.Deep}
		if !s.NoCache {
			d.visited = newVisTab()
		}
		for {
			d.pos = 0
			if track != nil {
				track(d.choices())
			}
			x, out := s.once(d, false, prop)
			res.Executions++
			res.Steps += int64(x.Steps)
			if d.diverge != "" {
				res.Internal = "replay diverged: " + d.diverge
				return res
			}
			for _, f := range x.Ignored {
				k := f.Kind + " " + f.Prop
				res.Other[k]++
				if len(res.Samples) < 5 {
					res.Samples = append(res.Samples, "other: "+k+": "+f.Msg)
				}
			}
			if x.Pruned {
				res.Pruned++
			} else if x.Failure != nil {
				if s.relevant(x.Failure, prop) {
					v := &Violation{Property: prop, Scenario: s.Name, Kind: x.Failure.Kind, Msg: x.Failure.Msg, Choices: d.choices(), P: x.Pused, F: x.Fused}
					if s.confirm(v, prop) {
						res.Violation = v
						return res
					}
					res.Internal = "violation did not reproduce: " + x.Failure.Kind + ": " + x.Failure.Msg
					return res
				}
				k := x.Failure.Kind + " " + x.Failure.Prop
				res.Other[k]++
				if len(res.Samples) < 5 {
					res.Samples = append(res.Samples, "other: "+k+": "+x.Failure.Msg)
				}
			} else {
				if out != "" {
					outcomes[out] = true
				}
				if s.planable(x) {
					plans.add(x, out)
				}
				if len(res.Samples) < 2 {
					res.Samples = append(res.Samples, fmt.Sprintf("%s choices=%v steps=%d outcome=%q", s.Name, compact(d.choices()), x.Steps, out))
				}
			}
			states[vrt.Mix(x.Hash, uint64(x.Time()))] = struct{}{}
			if !d.advance() {
				break
			}
			if res.Executions&15 == 0 && time.Now().After(deadline) {
				if d.visited != nil && d.visited.n > res.States {
					res.States = d.visited.n
				}
				return res
			}
		}
		if d.visited != nil && d.visited.n > res.States {
			res.States = d.visited.n
		}
		res.Bound = bound
	}
	res.Completed = true
	return res
}

func (s *Scenario) planable(x *vrt.Exec) bool { return !s.Early }

// PlanOut is a plan with the outcomes explored under it.
type PlanOut struct {
	Plan
	Outcomes []string
	key      uint64
}

// planSet keeps a deterministic sample of the environment scripts explored, each with all its outcomes.
type planSet struct {
	m  uint64 // keys divisible by m are kept
	by map[uint64]*PlanOut
}

const maxPlans = 24

func (ps *planSet) add(x *vrt.Exec, out string) {
	key := uint64(1)
	for _, e := range x.Envs {
		key = vrt.Mix(key, vrt.HashString(e.Kind))
		key = vrt.Mix(key, uint64(e.Conn)<<40|uint64(e.Op)<<16|uint64(e.Idx))
	}
	for i := range x.Choices {
		if c := &x.Choices[i]; c.Kind == vrt.KData {
			key = vrt.Mix(key, uint64(c.Idx)+7)
		}
	}
	key = vrt.Mix(key, 99)
	if key%ps.m != 0 {
		return
	}
	p := ps.by[key]
	if p == nil {
		p = &PlanOut{key: key}
		p.Envs = append(p.Envs, x.Envs...)
		for i := range x.Choices {
			if c := &x.Choices[i]; c.Kind == vrt.KData {
				p.Data = append(p.Data, int(c.Idx))
			}
		}
		ps.by[key] = p
		for len(ps.by) > maxPlans {
			ps.m *= 2
			for k := range ps.by {
				if k%ps.m != 0 {
					delete(ps.by, k)
				}
			}
		}
	}
	if len(p.Outcomes) < 200 && !has(p.Outcomes, out) {
		p.Outcomes = append(p.Outcomes, out)
	}
}

func (ps *planSet) list() []PlanOut {
	var r []PlanOut
	for _, p := range ps.by {
		r = append(r, *p)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].key < r[j].key })
	return r
}

func compact(c []int) []int {
	n := len(c)
	for n > 0 && c[n-1] == 0 {
		n--
	}
	return c[:n]
}

// confirm replays a failing execution several times and attaches its trace.
func (s *Scenario) confirm(v *Violation, prop string) bool {
	if v.Kind == "race" {
		// the detector reports each pair of sites once per process: confirmed by a fresh process
		return true
	}
	for i := 0; i < 5; i++ {
		x, _ := s.once(&replayer{list: v.Choices}, i == 4, prop)
		if x.Failure == nil || !s.relevant(x.Failure, prop) {
			return false
		}
		if i == 4 {
			v.Trace = x.Trace()
			v.Kind, v.Msg = x.Failure.Kind, x.Failure.Msg
		}
	}
	v.Choices = compact(v.Choices)
	return true
}
