// Package vrt is the controlled runtime under which the rewritten client runs.
// Exactly one thread (goroutine) runs at a time; every synchronisation operation
// of the code under test is a scheduling point at which the explorer decides who
// continues. Time is virtual.
package vrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"unsafe"
)

// Base is the virtual wall clock at the start of every execution (seconds).
const Base = 1_700_000_000

// Choice kinds.
const (
	KPre  uint8 = iota + 1 // switch away from a runnable thread: index>0 costs a preemption
	KFree                  // running thread blocked: free (or a delay, see Config.Delay)
	KEnv                   // environment deviation: index>0 costs a fault
	KData                  // plain enumeration, always free
)

// Choice is one resolved choice point of an execution.
type Choice struct {
	Kind    uint8
	N       uint16
	Idx     uint16
	Adv     bool // the last option is "advance the clock", costing a fault
	P, F    int16
	DelayOn bool
}

// Cost of taking option i at this point.
func (c *Choice) Cost(i int) (p, f int) {
	if i == 0 {
		return 0, 0
	}
	if c.Adv && i == int(c.N)-1 {
		return 0, 1
	}
	switch c.Kind {
	case KPre:
		return 1, 0
	case KFree:
		if c.DelayOn {
			return 1, 0
		}
		return 0, 0
	case KEnv:
		return 0, 1
	}
	return 0, 0
}

// Chooser resolves choice points. Returning -1 prunes the execution.
type Chooser interface {
	Choose(x *Exec, c *Choice, key uint64) int
}

// Config of one execution.
type Config struct {
	MaxSteps  int
	MaxTime   int64 // virtual ns
	EarlyTime bool  // the clock may advance while threads are runnable (a fault)
	Delay     bool  // delay bounding: free switches to a non-default thread cost 1
	PoolLIFO  bool  // sync.Pool recycles the most recently freed object (else never recycles)
	Trace     bool
	Ignore    func(prop string) bool // oracle failures that are only counted
}

// Thread is one goroutine of the execution.
type Thread struct {
	ID        int
	Name      string
	h, h0     uint64
	nspawn    uint64
	wake      chan struct{}
	enabled   func() bool
	deadline  int64
	idle      bool
	blocked   string
	harness   bool
	done      bool
	exited    chan struct{}
	parked    bool
	unwinding bool
	eventless int // points since the last event
}

// Obj is the identity of a synchronisation object for happens-before hashing.
type Obj struct {
	ep      uint32
	h       uint64
	readers uint64
}

type timer struct {
	when   int64
	seq    uint64
	fire   func()
	active bool
}

// Exec is one controlled execution.
type Exec struct {
	cfg      Config
	ch       Chooser
	Threads  []*Thread
	cur      *Thread
	now      int64
	timers   []*timer
	tseq     uint64
	opts     []*Thread
	Hash     uint64
	Steps    int
	consec   int
	aborting bool
	finished chan struct{}
	ended    bool
	Choices  []Choice
	Pused    int
	Fused    int
	Failure  *Failure
	Ignored  []Failure
	Pruned   bool
	epoch    uint32
	trace    []string
	rawObjs  []rawObj
	exitAddr int32
	frozen   bool
	onceDl   bool
	Progress atomic.Uint64
	Envs     []EnvRec
}

// Failure is an abnormal end of an execution.
type Failure struct {
	Kind string // panic, deadlock, hang, livelock, race, oracle
	Prop string // for oracle failures
	Msg  string
}

// X is the current execution.
var X *Exec
var epochCounter uint32
var resets []func()

// RegisterReset is called by rewritten packages: fn re-initialises their package variables.
func RegisterReset(fn func()) { resets = append(resets, fn) }

// Zero clears a package variable.
//
//go:norace
func Zero[T any](p *T) {
	var z T
	*p = z
}

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a ^= a >> 32
	a *= 0xd6e8feb86659fd93
	a ^= a >> 32
	a *= 0xd6e8feb86659fd93
	a ^= a >> 32
	return a
}

// Mix is exported for harness use.
func Mix(a, b uint64) uint64 { return mix(a, b) }

// HashString hashes a string.
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return mix(h, uint64(len(s)))
}

// Run executes main under the chooser and returns the finished execution.
func Run(cfg Config, ch Chooser, main func()) *Exec {
	epochCounter++
	x := &Exec{cfg: cfg, ch: ch, finished: make(chan struct{}, 1), epoch: epochCounter}
	raced := RaceErrors()
	X = x
	if OnStart != nil {
		OnStart(x)
	}
	for _, f := range resets {
		f()
	}
	t := x.newThread("main", 1)
	t.harness = true
	go x.threadMain(t, main)
	x.cur = t
	raceDisable()
	t.wake <- struct{}{}
	<-x.finished
	raceEnable()
	// kill the remaining threads one by one
	x.aborting = true
	if RaceEnabled {
		for _, t := range x.Threads {
			if !t.done && t.parked {
				x.cur = t
				raceDisable()
				t.wake <- struct{}{}
				<-t.exited
				raceEnable()
			}
		}
	}
	for i := 0; i < len(x.Threads); i++ {
		t := x.Threads[i]
		if !t.done {
			x.cur = t
			raceDisable()
			t.wake <- struct{}{}
			raceEnable()
		}
		raceDisable()
		<-t.exited
		raceEnable()
	}
	RaceAcquire(unsafe.Pointer(&x.exitAddr))
	if n := RaceErrors(); n != raced && x.Failure == nil {
		x.Failure = &Failure{Kind: "race", Msg: fmt.Sprintf("%d data race(s) reported", n-raced)}
	}
	return x
}

func (x *Exec) newThread(name string, h uint64) *Thread {
	t := &Thread{ID: len(x.Threads), Name: name, h: h, h0: h, wake: make(chan struct{}, 1), exited: make(chan struct{}, 1)}
	x.Threads = append(x.Threads, t)
	return t
}

func (x *Exec) threadMain(t *Thread, f func()) {
	raceDisable()
	<-t.wake
	raceEnable()
	defer func() {
		t.done = true
		if !x.aborting {
			if r := recover(); r != nil {
				x.fail(&Failure{Kind: "panic", Msg: fmt.Sprintf("panic in %s: %v\n%s", t.Name, r, debug.Stack())})
			} else if t.ID == 0 {
				x.end()
			} else {
				x.event(nil, 0x77)
				x.Progress.Add(1)
				if n := x.pick(); n != nil {
					x.handoff(n)
				}
			}
		} else {
			_ = recover()
		}
		RaceReleaseMerge(unsafe.Pointer(&x.exitAddr))
		raceDisable()
		t.exited <- struct{}{}
		raceEnable()
	}()
	if x.aborting {
		return
	}
	f()
}

// end marks the execution as over and lets Run continue.
func (x *Exec) end() {
	if x.ended {
		return
	}
	x.ended = true
	raceDisable()
	x.finished <- struct{}{}
	raceEnable()
}

func (x *Exec) fail(f *Failure) {
	if x.Failure == nil && !x.ended {
		x.Failure = f
	}
	x.end()
}

func (x *Exec) handoff(n *Thread) {
	x.cur = n
	raceDisable()
	n.wake <- struct{}{}
	raceEnable()
}

// park waits for the baton; leaves the goroutine when the execution is over.
func (x *Exec) park(t *Thread) {
	t.parked = true
	raceDisable()
	<-t.wake
	raceEnable()
	if x.aborting {
		if RaceEnabled {
			// everything done so far by any thread happens before any unwinding
			RaceReleaseMerge(unsafe.Pointer(&x.exitAddr))
			raceDisable()
			t.exited <- struct{}{}
			<-t.wake
			raceEnable()
			RaceAcquire(unsafe.Pointer(&x.exitAddr))
		}
		t.unwinding = true
		runtime.Goexit()
	}
	t.parked = false
}

// stop ends the execution from the current thread and never returns.
func (x *Exec) stop() {
	t := x.cur
	x.end()
	x.park(t)
}

func (t *Thread) isEnabled(now int64) bool {
	if t.done || t.idle {
		return false
	}
	if t.enabled == nil {
		return true
	}
	if t.deadline != 0 && now >= t.deadline {
		return true
	}
	return t.enabled()
}

// nextDeadline returns the earliest future instant something waits for, 0 if none.
func (x *Exec) nextDeadline() int64 {
	var best int64
	for _, tm := range x.timers {
		if tm.active && (best == 0 || tm.when < best) {
			best = tm.when
		}
	}
	for _, t := range x.Threads {
		if !t.done && t.enabled != nil && t.deadline > x.now && (best == 0 || t.deadline < best) {
			best = t.deadline
		}
	}
	return best
}

func (x *Exec) advance(to int64) {
	if to > x.now {
		x.now = to
	}
	x.Hash = mix(x.Hash, mix(0xadadad, uint64(x.now)))
	if x.cfg.Trace {
		x.trace = append(x.trace, fmt.Sprintf("-- clock -> %dms", x.now/1e6))
	}
	for {
		var best *timer
		for _, tm := range x.timers {
			if tm.active && tm.when <= x.now && (best == nil || tm.when < best.when || tm.when == best.when && tm.seq < best.seq) {
				best = tm
			}
		}
		if best == nil {
			break
		}
		best.active = false
		best.fire()
	}
	k := 0
	for _, tm := range x.timers {
		if tm.active {
			x.timers[k] = tm
			k++
		}
	}
	x.timers = x.timers[:k]
}

const spinLimit = 3000

// pick decides which thread runs next. nil means the execution ended.
func (x *Exec) pick() *Thread {
	for {
		x.opts = x.opts[:0]
		cur := x.cur
		n := len(x.Threads)
		curOn := cur.isEnabled(x.now)
		if curOn {
			x.opts = append(x.opts, cur)
		}
		for i := 1; i < n; i++ {
			t := x.Threads[(cur.ID+i)%n]
			if t.isEnabled(x.now) {
				x.opts = append(x.opts, t)
			}
		}
		if len(x.opts) == 0 {
			for _, t := range x.Threads {
				if t.idle && !t.done {
					t.idle = false
					x.Hash = mix(x.Hash, 0x1d1e)
					return t
				}
			}
			dl := x.nextDeadline()
			if dl == 0 {
				x.fail(&Failure{Kind: "deadlock", Msg: x.describe()})
				return nil
			}
			if x.cfg.MaxTime > 0 && dl > x.cfg.MaxTime {
				x.fail(&Failure{Kind: "hang", Msg: fmt.Sprintf("still waiting at virtual time %dms; %s", x.now/1e6, x.describe())})
				return nil
			}
			x.advance(dl)
			continue
		}
		if curOn && x.consec > spinLimit {
			// a thread that never blocks: let others, or time, proceed
			x.consec = 0
			if len(x.opts) > 1 {
				return x.opts[1]
			}
			if dl := x.nextDeadline(); dl != 0 {
				x.advance(dl)
				continue
			}
		}
		adv := false
		var dl int64
		if x.cfg.EarlyTime {
			dl = x.nextDeadline()
			adv = dl != 0 && (x.cfg.MaxTime == 0 || dl <= x.cfg.MaxTime)
		}
		if x.frozen {
			return x.opts[0]
		}
		total := len(x.opts)
		if adv {
			total++
		}
		if total == 1 {
			return x.opts[0]
		}
		c := Choice{N: uint16(total), Adv: adv, DelayOn: x.cfg.Delay}
		key := mix(x.Hash, uint64(x.now))
		if curOn {
			c.Kind = KPre
			key = mix(key, cur.h0)
			if cur.eventless > 1 {
				key = mix(key, uint64(cur.eventless)+0xe0)
			}
		} else {
			c.Kind = KFree
			if c.DelayOn {
				key = mix(key, x.opts[0].h0)
			}
			key = mix(key, 0xf4ee)
		}
		idx := x.choose(&c, key)
		if idx < 0 {
			return nil
		}
		if adv && idx == total-1 {
			x.advance(dl)
			continue
		}
		return x.opts[idx]
	}
}

func (x *Exec) choose(c *Choice, key uint64) int {
	c.P, c.F = int16(x.Pused), int16(x.Fused)
	idx := x.ch.Choose(x, c, key)
	if idx < 0 {
		x.Pruned = true
		x.end()
		return -1
	}
	c.Idx = uint16(idx)
	dp, df := c.Cost(idx)
	x.Pused += dp
	x.Fused += df
	x.Choices = append(x.Choices, *c)
	return idx
}

// Point is a scheduling point; the calling thread continues when enabled() holds (nil: always).
func Point(what string, enabled func() bool) { PointDL(what, enabled, 0) }

// PointDL is Point with a deadline after which the thread is enabled anyway.
func PointDL(what string, enabled func() bool, deadline int64) {
	x := X
	if x.aborting {
		return
	}
	t := x.cur
	t.enabled = enabled
	t.deadline = deadline
	t.blocked = what
	t.eventless++
	x.Steps++
	x.consec++
	x.Progress.Add(1)
	if x.cfg.MaxSteps > 0 && x.Steps > x.cfg.MaxSteps {
		x.fail(&Failure{Kind: "livelock", Msg: fmt.Sprintf("%d steps; %s", x.Steps, x.describe())})
		x.park(t)
	}
	n := x.pick()
	if n == nil {
		x.park(t)
	}
	if n != t {
		x.consec = 0
		x.handoff(n)
		x.park(t)
	}
	t.enabled = nil
	t.deadline = 0
	if x.cfg.Trace {
		x.trace = append(x.trace, fmt.Sprintf("T%d(%s) %s", t.ID, t.Name, what))
	}
}

// Aborting reports whether the execution is being torn down (shims must not block then).
func Aborting() bool { return X == nil || X.aborting }

func (x *Exec) fresh(o *Obj) {
	if o.ep != x.epoch {
		*o = Obj{ep: x.epoch, h: mix(0x0b1, x.cur.h)}
	}
}

// Stale reports whether o belongs to an earlier execution, and adopts it.
func Stale(o *Obj) bool {
	x := X
	if x == nil || o.ep == x.epoch {
		return false
	}
	x.fresh(o)
	return true
}

func (x *Exec) event(o *Obj, kind uint64) {
	t := x.cur
	var e uint64
	if o == nil {
		e = mix(t.h, kind)
	} else {
		x.fresh(o)
		e = mix(mix(mix(t.h, o.h), o.readers), kind)
		o.h = e
		o.readers = 0
	}
	t.h = e
	t.eventless = 0
	x.Hash += e
}

// Event records a write-like operation of the current thread on o.
func Event(o *Obj, kind uint64) {
	if x := X; !x.aborting {
		x.event(o, kind)
	}
}

// ReadEvent records a read-like operation (commutes with other reads).
func ReadEvent(o *Obj, kind uint64) {
	x := X
	if x.aborting {
		return
	}
	t := x.cur
	x.fresh(o)
	e := mix(mix(t.h, o.h), kind)
	o.readers += e
	t.h = e
	t.eventless = 0
	x.Hash += e
}

// RawObj returns the object that stands for a raw address.
func RawObj(p unsafe.Pointer) *Obj {
	x := X
	for i := range x.rawObjs {
		if x.rawObjs[i].p == p {
			return x.rawObjs[i].o
		}
	}
	o := &Obj{}
	x.rawObjs = append(x.rawObjs, rawObj{p, o})
	return o
}

type rawObj struct {
	p unsafe.Pointer
	o *Obj
}

func (x *Exec) spawn(f func(), harness bool, name string) *Thread {
	p := x.cur
	p.nspawn++
	x.event(nil, 0x60)
	t := x.newThread(name, mix(p.h, mix(p.nspawn, 0x5155)))
	t.harness = harness
	go x.threadMain(t, f)
	return t
}

// Go starts a goroutine of the code under test.
func Go(f func()) {
	x := X
	if x.aborting {
		return
	}
	pc, _, _, _ := runtime.Caller(1)
	name := "g"
	if fn := runtime.FuncForPC(pc); fn != nil {
		name = fn.Name()
		for i := len(name) - 1; i >= 0; i-- {
			if name[i] == '/' {
				name = name[i+1:]
				break
			}
		}
	}
	x.spawn(f, false, name)
	// the new thread is runnable; it competes from the spawner's next point on
}

// GoHarness starts a thread that belongs to the test driver.
func GoHarness(name string, f func()) *Thread {
	x := X
	if x.aborting {
		return nil
	}
	return x.spawn(f, true, name)
}

// Join waits for a harness thread.
func Join(t *Thread) {
	if Aborting() {
		return
	}
	Point("join "+t.Name, func() bool { return t.done })
	Event(nil, t.h)
}

// Done reports whether t has ended.
func (t *Thread) Done() bool { return t.done }

// Idle lets all other threads run until none is runnable (time does not advance).
func Idle() {
	x := X
	if x.aborting {
		return
	}
	t := x.cur
	t.idle = true
	t.blocked = "idle"
	x.Steps++
	x.Progress.Add(1)
	n := x.pick()
	if n == nil {
		x.park(t)
	}
	if n != t {
		x.consec = 0
		x.handoff(n)
		x.park(t)
	}
	x.Hash = mix(x.Hash, 0x1d)
	t.h = mix(t.h, x.Hash)
}

// Yield is a non-preemptive scheduling point (runtime.Gosched).
func Yield() {
	x := X
	if x.aborting {
		return
	}
	x.consec += spinLimit / 3
	Point("gosched", nil)
	x.event(nil, 0x905c)
}

// Alive tells that the running thread makes progress (bytes were transferred): it is not spinning.
func Alive() {
	if x := X; x != nil {
		x.consec = 0
	}
}

// Now is the virtual time in ns since the start of the execution.
func Now() int64 {
	x := X
	if x == nil {
		return 0
	}
	if !x.aborting {
		x.cur.h = mix(x.cur.h, uint64(x.now)+0x404)
		x.Hash += x.cur.h
	}
	return x.now
}

// PeekNow is Now for oracles: it leaves no trace in the state.
func PeekNow() int64 { return X.now }

// TimerHandle is a pending virtual timer.
type TimerHandle struct{ t *timer }

// AddTimer calls fire (in the clock's context) once virtual time reaches when.
func AddTimer(when int64, fire func()) TimerHandle {
	x := X
	if x.aborting {
		return TimerHandle{&timer{}}
	}
	x.tseq++
	tm := &timer{when: when, seq: x.tseq, fire: fire, active: true}
	x.event(nil, mix(0x71, uint64(when)))
	if when <= x.now {
		tm.active = false
		fire()
		return TimerHandle{tm}
	}
	x.timers = append(x.timers, tm)
	return TimerHandle{tm}
}

// Stop cancels; reports whether it was pending.
func (h TimerHandle) Stop() bool {
	if h.t == nil {
		return false
	}
	was := h.t.active
	h.t.active = false
	return was
}

// SleepUntil blocks until the virtual instant.
func SleepUntil(when int64) {
	if Aborting() {
		return
	}
	if when <= X.now {
		Point("sleep", nil)
		Event(nil, 0x51ef)
		return
	}
	PointDL("sleep", func() bool { return false }, when)
	Event(nil, 0x51ee)
}

// WaitUntil blocks until pred holds or the deadline (0: none) passes; it reports whether pred holds.
// The caller must record an Event on the object pred depends on.
func WaitUntil(what string, pred func() bool, deadline int64) bool {
	if Aborting() {
		return false
	}
	PointDL(what, pred, deadline)
	return pred()
}

// Choose enumerates n alternatives for free.
func Choose(n int) int { return x1(KData, n) }

// Env picks an environment behaviour: 0 is the benign default, others cost one fault.
func Env(n int) int { return x1(KEnv, n) }

// EnvRec is an environment deviation taken: the n-th operation of a kind on a connection.
type EnvRec struct {
	Kind     string
	Conn, Op int
	Idx      int
}

// EnvKey is Env for the named operation.
func EnvKey(kind string, conn, op, n int) int {
	i := Env(n)
	if i != 0 {
		X.Envs = append(X.Envs, EnvRec{kind, conn, op, i})
	}
	return i
}

// Enter and Leave bracket harness code entered from the code under test, Changed tells that a
// condition of WaitUntil may have changed; all three matter only in the free-running runtime.
func Enter()   {}
func Leave()   {}
func Changed() {}

// Controlled tells the harness that schedules are controlled.
const Controlled = true

// Addr of an object for race annotations.
func Addr(o *Obj) unsafe.Pointer { return unsafe.Pointer(o) }

func x1(kind uint8, n int) int {
	x := X
	if x.aborting || n <= 1 {
		return 0
	}
	c := Choice{Kind: kind, N: uint16(n)}
	key := mix(mix(x.Hash, uint64(x.now)), mix(x.cur.h0, x.cur.h+0xc0))
	t := x.cur
	idx := x.choose(&c, key)
	if idx < 0 {
		x.park(t)
	}
	t.h = mix(t.h, uint64(idx)+0xd0)
	x.Hash += t.h
	return idx
}

// FailOracle ends the execution with a property violation.
func FailOracle(prop, msg string) {
	x := X
	if x.aborting {
		return
	}
	t := x.cur
	if x.cfg.Ignore != nil && x.cfg.Ignore(prop) {
		if len(x.Ignored) < 4 {
			x.Ignored = append(x.Ignored, Failure{Kind: "oracle", Prop: prop, Msg: msg})
		}
		return
	}
	x.fail(&Failure{Kind: "oracle", Prop: prop, Msg: msg})
	x.park(t)
}

// LiveSubject returns the names of live goroutines of the code under test.
func LiveSubject() []string {
	var r []string
	for _, t := range X.Threads {
		if !t.done && !t.harness {
			r = append(r, t.Name+" at "+t.blocked)
		}
	}
	return r
}

// CurName names the running thread.
func CurName() string { return X.cur.Name }

func (x *Exec) describe() string {
	s := "threads:"
	for _, t := range x.Threads {
		if !t.done {
			s += fmt.Sprintf(" [T%d %s at %s]", t.ID, t.Name, t.blocked)
		}
	}
	return s
}

// Trace of the execution when Config.Trace is set.
func (x *Exec) Trace() []string { return x.trace }

// Note adds a line to the trace.
func Note(format string, a ...any) {
	if x := X; x.cfg.Trace && !x.aborting {
		x.trace = append(x.trace, fmt.Sprintf("   T%d ", x.cur.ID)+fmt.Sprintf(format, a...))
	}
}

// EarlyTime reports whether the clock may run ahead of runnable threads.
func EarlyTime() bool { return X.cfg.EarlyTime }

// PoolLIFO tells the pool shim which policy to use.
func PoolLIFO() bool { return X != nil && X.cfg.PoolLIFO }

// Time returns the configured virtual time now of a finished execution.
func (x *Exec) Time() int64 { return x.now }

// OnStart is called with every new execution.
var OnStart func(*Exec)

// CurThread names the running thread, for watchdogs.
func (x *Exec) CurThread() string {
	if t := x.cur; t != nil {
		return t.Name + " (last at " + t.blocked + ")"
	}
	return "?"
}

// ChoiceList returns the choices made so far.
func (x *Exec) ChoiceList() []int {
	r := make([]int, len(x.Choices))
	for i, c := range x.Choices {
		r[i] = int(c.Idx)
	}
	return r
}

// Freeze switches to the default schedule (no scheduling alternatives) until unfrozen.
func Freeze(on bool) {
	if x := X; !x.aborting {
		x.frozen = on
	}
}
