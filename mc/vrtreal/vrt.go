// Package vrt is the free-running twin of the controlled runtime: the harness runs on it against
// the unmodified code, with real goroutines, locks and channels in a testing/synctest bubble
// (virtual time). It is used to check that what the unmodified code does under a scripted
// environment is among the executions explored.
package vrt

import (
	"bytes"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"
	"unsafe"
)

const (
	KPre uint8 = iota + 1
	KFree
	KEnv
	KData
)

// Controlled tells the harness that schedules are not controlled.
const Controlled = false

// RaceEnabled is false: the free run is not a race check.
const RaceEnabled = false

// Obj has no meaning here.
type Obj struct{}

// Thread is a goroutine of the driver.
type Thread struct{ done chan struct{} }

// EnvRec is an environment deviation: the n-th operation of a kind on a connection.
type EnvRec struct {
	Kind     string
	Conn, Op int
	Idx      int
}

// Plan scripts the environment of one run.
type Plan struct {
	Envs []EnvRec
	Data []int
}

var (
	big   sync.Mutex // protects the harness
	owner int64
	depth int
	conds = sync.NewCond(&big)
	start time.Time
	plan  Plan
	npos  int
	lifo  bool
	fail  func(prop, msg string)
)

// Begin starts a run; it is called inside the bubble.
func Begin(p Plan, onFail func(prop, msg string)) {
	conds = sync.NewCond(&big)
	start = time.Now()
	plan, npos, fail = p, 0, onFail
}

func goid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	id, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return id
}

var ownMut sync.Mutex

func mine() bool {
	ownMut.Lock()
	defer ownMut.Unlock()
	return depth > 0 && owner == goid()
}

// Enter and Leave bracket harness code; they nest.
func Enter() {
	if mine() {
		ownMut.Lock()
		depth++
		ownMut.Unlock()
		return
	}
	big.Lock()
	ownMut.Lock()
	owner, depth = goid(), 1
	ownMut.Unlock()
}

func Leave() {
	ownMut.Lock()
	depth--
	d := depth
	ownMut.Unlock()
	if d == 0 {
		big.Unlock()
	}
}

// Changed tells that a condition of WaitUntil may have changed.
func Changed() { conds.Broadcast() }

// WaitUntil blocks until pred holds or the deadline passes.
func WaitUntil(what string, pred func() bool, deadline int64) bool {
	Enter()
	defer Leave()
	var t *time.Timer
	for !pred() {
		now := PeekNow()
		if deadline > 0 && now >= deadline {
			return pred()
		}
		if deadline > 0 && t == nil {
			t = time.AfterFunc(time.Duration(deadline-now), func() {
				big.Lock()
				big.Unlock()
				conds.Broadcast()
			})
			defer t.Stop()
		}
		d := depth
		ownMut.Lock()
		depth = 0
		ownMut.Unlock()
		conds.Wait()
		ownMut.Lock()
		owner, depth = goid(), d
		ownMut.Unlock()
	}
	return true
}

func Point(what string, enabled func() bool) {}
func Event(o *Obj, kind uint64)              {}
func Alive()                                 {}
func Freeze(on bool)                         {}
func Note(format string, a ...any)           {}
func EarlyTime() bool                        { return false }
func Addr(o *Obj) unsafe.Pointer             { return unsafe.Pointer(o) }
func RaceAcquire(p unsafe.Pointer)           {}
func RaceReleaseMerge(p unsafe.Pointer)      {}
func RaceReadBytes(b []byte)                 {}
func RaceWriteBytes(b []byte)                {}

// Idle waits until every other goroutine is blocked.
func Idle() {
	if mine() {
		panic("Idle inside Enter")
	}
	synctest.Wait()
}

// Now is the virtual time since the start.
func Now() int64     { return int64(time.Since(start)) }
func PeekNow() int64 { return Now() }

// Start is the instant of virtual time 0.
func Start() time.Time { return start }

// SleepUntil blocks until the virtual instant.
func SleepUntil(when int64) { time.Sleep(time.Duration(when - Now())) }

// TimerHandle is a pending timer.
type TimerHandle struct{ t *time.Timer }

// Stop cancels.
func (h TimerHandle) Stop() bool { return h.t != nil && h.t.Stop() }

// AddTimer calls fire at the instant.
func AddTimer(when int64, fire func()) TimerHandle {
	c := conds
	return TimerHandle{time.AfterFunc(time.Duration(when-Now()), func() {
		Enter()
		fire()
		Leave()
		c.Broadcast()
	})}
}

// GoHarness starts a goroutine of the driver.
func GoHarness(name string, f func()) *Thread {
	t := &Thread{make(chan struct{})}
	go func() {
		defer func() {
			Enter()
			close(t.done)
			Leave()
			conds.Broadcast()
		}()
		f()
	}()
	return t
}

// Join waits for it.
func Join(t *Thread) { <-t.done }

// Done reports whether it has ended.
func (t *Thread) Done() bool {
	select {
	case <-t.done:
		return true
	default:
		return false
	}
}

// Choose follows the plan.
func Choose(n int) int {
	if n <= 1 {
		return 0
	}
	ownMut.Lock()
	defer ownMut.Unlock()
	if npos >= len(plan.Data) {
		npos++
		return 0
	}
	i := plan.Data[npos]
	npos++
	if i >= n {
		panic("the plan does not fit: choice " + strconv.Itoa(i) + " of " + strconv.Itoa(n))
	}
	return i
}

// EnvKey follows the plan.
func EnvKey(kind string, conn, op, n int) int {
	for _, e := range plan.Envs {
		if e.Kind == kind && e.Conn == conn && e.Op == op && e.Idx < n {
			return e.Idx
		}
	}
	return 0
}

// FailOracle reports a violation; it does not return.
func FailOracle(prop, msg string) {
	fail(prop, msg)
	select {}
}

// LiveSubject returns the live goroutines started by the code under test.
func LiveSubject() []string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var r []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if i := strings.Index(g, "created by github.com/QuangTung97/go-memcache"); i >= 0 {
			r = append(r, strings.SplitN(g[i:], "\n", 2)[0])
		}
	}
	return r
}

// as in the controlled runtime
func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a ^= a >> 32
	a *= 0xd6e8feb86659fd93
	a ^= a >> 32
	a *= 0xd6e8feb86659fd93
	a ^= a >> 32
	return a
}

func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return mix(h, uint64(len(s)))
}
