package main

import (
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/QuangTung97/go-memcache/memcache/netconn"
	"github.com/QuangTung97/go-memcache/memcache/stats"
	"vrt"
)

// ---- C22: resources stay bounded ----------------------------------------------------------------

const steadySize = 16 << 10 // bytes of a value, which a leak would keep

// heap is the live memory of the process.
func heap() int {
	vrt.Enter()
	defer vrt.Leave()
	vrt.Alive()
	var m runtime.MemStats
	runtime.GC()
	runtime.GC() // what is in a sync.Pool goes with the second
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}

// multiset chooses n of k things, regardless of order.
func multiset(n, k int) []int {
	var l []int
	for i := 0; i < n; i++ {
		k = 1 + vrt.Choose(k)
		l = append(l, k-1)
	}
	return l
}

// steadyLog is what the client holds at rest in the first and the second half of the rounds.
type steadyLog struct {
	what           string
	threads, conns [2]int
	mem            [2]int
	rounds         int
	noise          int // bytes that may be left of a round: twice what the scheduler and the network keep
}

// add says that a round has such an event.
func (m *steadyLog) add(kind string) {
	m.what += kind + ", "
	switch kind {
	case "client":
		m.noise += 5000
	case "stats", "bad reply", "cut reply", "reset", "eof", "silent", "stalled", "refused":
		m.noise += 1500
	default:
		m.noise += 300
	}
}

func (m *steadyLog) round(h *H, r, rounds int) {
	h.calls, h.pipes, h.net.activity, h.net.errs, h.logged = nil, nil, nil, nil, nil
	h.net.dials = h.net.dials[:min(len(h.net.dials), h.net.cfg.N)] // the first ones tell the slots
	open := 0
	for _, c := range h.net.conns {
		c.wire, c.cmds, c.firstBad = nil, nil, nil
		if c.closed {
			c.in, c.out, c.held, c.errs = nil, nil, nil, nil
		} else {
			open++
		}
	}
	half := r / (rounds / 2)
	if r%(rounds/2) >= rounds/4 {
		m.threads[half] = max(m.threads[half], len(vrt.LiveSubject()))
		m.conns[half] = max(m.conns[half], open)
	}
	if (r+1)%(rounds/2) == 0 && rounds >= 100 {
		m.mem[half] = heap()
	}
	m.rounds = rounds
}

func (m *steadyLog) judge(h *H, n int, closed bool) {
	what := m.what + "repeated " + strconv.Itoa(m.rounds) + " times: "
	if m.conns[1] > n || closed && m.conns[1] > 0 {
		h.fail("C22", what+strconv.Itoa(m.conns[1])+" open connections")
	}
	if m.threads[1] > m.threads[0] {
		h.fail("C22", what+"the number of goroutines at rest grows from "+strconv.Itoa(m.threads[0])+" to "+strconv.Itoa(m.threads[1]))
	}
	if d := m.mem[1] - m.mem[0]; d > m.rounds/2*m.noise {
		h.fail("C22", what+"memory in use grows by "+strconv.Itoa(d*2/m.rounds)+" bytes in each round")
	}
}

// steadyKinds are the things that may happen again and again.
var steadyKinds = []string{"get", "fast", "set", "delete", "error", "finish", "dropped", "result late", "bad reply", "cut reply", "reset", "eof", "silent", "stalled", "refused", "ping", "client", "stats", "same pipeline", "after"}

// steady repeats some kinds of events and compares what the client holds in between.
func steady(n, depth, rounds int) func(**H) {
	return func(hp **H) {
		ks := multiset(depth, len(steadyKinds))
		closed := false
		for _, k := range ks {
			closed = closed || steadyKinds[k] == "after"
		}
		h := OpenQuiet(NetCfg{N: n, MaxBatch: 1, Limit: 3, Health: true}, memcache.WithBufferSize(64<<10), memcache.WithHealthCheckDuration(100*time.Second))
		*hp = h
		vrt.Freeze(true)
		refuse := false
		h.net.cfg.Script = func(kind string, _, _ int) int {
			if kind == "dial" && refuse {
				refuse = false
				return DialErr
			}
			return 0
		}
		id := 0
		val := sized("v", steadySize)
		newKey := func() string {
			id++
			return "b" + strconv.Itoa(steadySize) + "." + strconv.Itoa(id)
		}
		some := func() *Pipe { // commands with large values on a connection
			p := h.Pipeline()
			p.Get(newKey(), memcache.MGetOptions{})
			p.Set(newKey(), val, memcache.MSetOptions{})
			p.Get(newKey(), memcache.MGetOptions{})
			return p
		}
		wait := func(p *Pipe) {
			for _, c := range p.calls {
				c.Wait()
			}
		}
		rest := func(o *H, what string) {
			for _, c := range o.net.conns {
				if !c.closed {
					h.fail("C22,C07", "a closed "+what+" leaves a connection open")
				}
			}
		}
		same := h.Pipeline()
		do := func(kind string, r int) {
			conn := h.net.conns[len(h.net.conns)-1]
			switch kind {
			case "get":
				wait(some())
			case "fast":
				p := h.Pipeline()
				c := p.GetFast(newKey(), memcache.MGetOptions{}, true)
				c.Wait()
			case "set":
				p := h.Pipeline()
				p.Set(newKey(), val, memcache.MSetOptions{}).Wait()
			case "delete":
				p := h.Pipeline()
				p.Any('d', newKey()).Wait()
			case "error":
				p := h.Pipeline()
				p.Set("e"+newKey(), val, memcache.MSetOptions{}).Wait()
			case "finish": // results are not collected
				some().Finish()
			case "dropped": // never sent
				p := some()
				p.calls = nil
				h.calls = nil
			case "result late":
				p, q := some(), some()
				p.Execute()
				wait(q)
				wait(p)
			case "bad reply":
				h.malformed = true
				p := some()
				p.calls[1].reply = &Reply{Text: "WHAT\r\n", Bad: true}
				wait(p)
			case "cut reply":
				p := some()
				h.net.faulty = true
				p.calls[2].reply = &Reply{Text: "VA 16384\r\n" + val[:len(val)/2], Wild: true}
				p.Execute()
				vrt.Idle()
				conn.PeerClose()
				wait(p)
			case "reset":
				conn.Reset()
				wait(some())
			case "eof":
				p := some()
				conn.PeerClose()
				wait(p)
			case "silent":
				conn.Kill()
				wait(some())
			case "stalled":
				conn.Stall()
				wait(some())
			case "refused":
				refuse = true
				h.net.faulty = true
				conn.Reset()
				wait(some())
				wait(some())
			case "ping":
				vrt.SleepUntil(vrt.Now() + int64(250*time.Second))
			case "client":
				o := newH(NetCfg{N: n})
				var lost *Conn // no dial succeeds any more
				o.net.cfg.Script = func(kind string, _, _ int) int {
					if kind == "dial" && (r%4 == 1 || lost != nil) {
						return DialErr
					}
					return 0
				}
				cl, err := memcache.New("server:11211", n, memcache.WithDialFunc(o.net.DialFunc), memcache.WithDialErrorLogger(h.logErr), memcache.WithBufferSize(64<<10), memcache.WithRetryDuration(time.Second))
				if err != nil {
					h.fail("C03", err.Error())
				}
				o.cl = cl
				vrt.Idle()
				switch r % 4 {
				case 2: // closed while the connection is being dialed again
					lost = o.net.conns[0]
					lost.Reset()
					o.net.faulty = true
					c := o.Pipeline().Any('d', "b")
					c.Wait()
				case 3: // closed with a command outstanding
					o.net.conns[0].Kill()
					o.net.faulty = true
					o.Pipeline().Any('d', "b").p.Execute()
					vrt.Idle()
				}
				o.closed, o.relaxErr = true, true
				_ = cl.Close()
				vrt.Idle()
				rest(o, "client")
			case "stats":
				o := newH(NetCfg{N: n})
				o.net.cfg.Script = func(kind string, _, _ int) int {
					if kind == "dial" && r%2 == 1 {
						return DialErr
					}
					return 0
				}
				c := stats.New("server:11211", stats.WithNetConnOptions(netconn.WithDialFunc(o.net.DialFunc)), stats.WithErrorLogger(h.logErr))
				o.closed = true
				_ = c.Close()
				rest(o, "statistics client")
			case "same pipeline":
				same = &Pipe{h: h, p: same.p, last: -1, conn: -1, slot: -1} // the same pipeline, checked as a new one
				h.pipes = append(h.pipes, same)
				same.Get(newKey(), memcache.MGetOptions{})
				same.Set(newKey(), val, memcache.MSetOptions{})
				if r%2 == 0 {
					same.Execute()
				}
				same.Finish()
				wait(same)
			case "after":
				p := some()
				p.Execute()
				wait(p)
			}
		}
		if closed {
			h.Close1()
		}
		m := steadyLog{noise: 600}
		for _, k := range ks {
			m.add(steadyKinds[k])
		}
		for r := 0; r < n*rounds/2 && rounds >= 100 && !closed; r++ { // fill buffers of fixed size
			do("get", 0)
		}
		for r := 0; r < rounds; r++ {
			for _, k := range ks {
				do(steadyKinds[k], r)
			}
			vrt.Idle()
			if !closed {
				vrt.SleepUntil(vrt.Now() + 2*h.retry())
				vrt.Idle()
			}
			refuse = false
			m.round(h, r, rounds)
		}
		m.judge(h, n, closed)
		h.relaxErr = true
		if !closed {
			h.Close()
		}
	}
}

// steadyStats does the same with a statistics client.
func steadyStats(depth, rounds int) func(**H) {
	kinds := []string{"general", "slabs", "items", "dump", "malformed", "error line", "eof", "reset", "silent", "refused"}
	return func(hp **H) {
		ks := multiset(depth, len(kinds))
		s := openStats(hp, NetCfg{}, stats.WithNetConnOptions(netconn.WithBufferSize(64<<10)))
		h := s.h
		refuse := false
		h.net.cfg.Script = func(kind string, _, _ int) int {
			if kind == "dial" && refuse {
				refuse = false
				return DialErr
			}
			return 0
		}
		do := func(k, r int) {
			q := r % 4
			if k < 4 {
				q = k
			}
			text, _ := sample(q, 300)
			s.send(answer{text: text})
			switch kinds[k] {
			case "malformed":
				l := lines(text)
				s.send(answer{text: strings.Join(l[:len(l)/2], "") + "WHAT\r\n" + strings.Join(l[len(l)/2:], "")})
			case "error line":
				s.send(answer{text: "SERVER_ERROR busy\r\n"})
			case "eof":
				s.send(answer{text: text[:len(text)/2], end: ReadEOF})
			case "reset":
				s.send(answer{text: text[:len(text)/2], end: ReadErr})
			case "silent":
				s.send(answer{text: text[:len(text)/2]})
			case "refused":
				for _, c := range h.net.conns {
					if !c.closed {
						c.Reset()
					}
				}
				refuse = true
			}
			s.call(q)
		}
		m := steadyLog{noise: 600}
		for _, k := range ks {
			m.add(kinds[k])
		}
		for r := 0; r < rounds; r++ {
			for _, k := range ks {
				do(k, r)
			}
			s.cmds, s.last = nil, nil
			vrt.Idle()
			m.round(h, r, rounds)
		}
		m.judge(h, 1, false)
		h.closed = true
		_ = s.cl.Close()
	}
}

func init() {
	reg := func(name string, thorough bool, body func(**H)) {
		register(&Scenario{Name: name, Own: []string{"C22"}, Props: []string{"C22"}, Liveness: true, LIFO: true, Shards: 8, Thorough: thorough, NoCache: true, MaxSteps: 500000000, MaxTime: 1000000 * time.Second, Body: body})
	}
	reg("steady-one", false, steady(1, 3, 200))
	reg("steady-two", false, steady(2, 2, 200))
	reg("steady-two-deep", true, steady(2, 3, 200))
	reg("steady-one-deep", true, steady(1, 4, 200))
	reg("steady-short", false, steady(2, 2, 8))
	reg("steady-stats", false, steadyStats(3, 200))
	reg("steady-stats-deep", true, steadyStats(4, 200))
	for _, s := range scenarios {
		if strings.HasPrefix(s.Name, "steady-") && s.Name != "steady-short" {
			s.Real = true
		}
	}
}
