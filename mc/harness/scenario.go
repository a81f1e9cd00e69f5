package main

import (
	"time"

	"vrt"
)

// Scenario is a closed driver; the explorer enumerates all its executions within the bounds.
type Scenario struct {
	Name     string
	Props    []string
	Own      []string // properties every failure in this scenario violates
	Also     []string // properties judged with one preemption less in the quick tier
	Body     func(h **H)
	P, F     int // preemption and fault bounds, quick tier
	TP, TF   int // thorough tier
	MaxTime  time.Duration
	MaxSteps int
	Early    bool // the clock may run ahead of runnable threads (one fault each)
	LIFO     bool // sync.Pool recycles aggressively
	Liveness bool // deadlocks, hangs and livelocks violate Props
	Shards   int  // split over this many workers
	TShards  int
	NoCache  bool
	Delay    bool // delay bounding: any departure from the default schedule costs one
	Thorough bool // only in the thorough tier
	Weight   int
	Deep     int  // work is split among shards at the deviation with this number (default: the first)
	Real     bool // no replays against the unmodified code: uses real sockets, or runs too long
	Race     bool

	inputs int
}

// Plan is an environment script with the outcomes explored under it.
type Plan struct {
	Envs []vrt.EnvRec
	Data []int
}

var scenarios []*Scenario

func register(s *Scenario) { scenarios = append(scenarios, s) }

func find(name string) *Scenario {
	for _, s := range scenarios {
		if s.Name == name {
			return s
		}
	}
	return nil
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
