package main

import (
	"strconv"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"vrt"
)

// ---- C16: the spread over the pool; C15: health checks ---------------------------------------

// spread checks that the assignments (slots in order, -1 where unknown) are round robin.
func (h *H) spread(prop string, seq []int) {
	n := h.cfg.N
	at := make([]int, n) // slot of residue
	for i := range at {
		at[i] = -1
	}
	for i, s := range seq {
		if s < 0 {
			continue
		}
		r := i % n
		if at[r] >= 0 && at[r] != s {
			h.fail(prop, "assignment "+strconv.Itoa(i)+" went to connection "+strconv.Itoa(s)+", "+strconv.Itoa(n)+" earlier it was "+strconv.Itoa(at[r]))
			return
		}
		at[r] = s
		for q := range at {
			if q != r && at[q] == s {
				h.fail(prop, "connection "+strconv.Itoa(s)+" used twice among "+strconv.Itoa(n)+" consecutive assignments")
				return
			}
		}
	}
}

// even checks that the connections got equally many assignments, up to one.
func (h *H) even(prop string, count []int) {
	lo, hi := count[0], count[0]
	for _, c := range count {
		lo, hi = min(lo, c), max(hi, c)
	}
	if hi > lo+1 {
		s := ""
		for _, c := range count {
			s += " " + strconv.Itoa(c)
		}
		h.fail(prop, "assignments per connection:"+s)
	}
}

func (h *H) pipeCounts() []int {
	n := make([]int, h.cfg.N)
	for _, p := range h.pipes {
		if p.slot >= 0 {
			n[p.slot]++
		}
	}
	return n
}

type ping struct {
	slot int
	at   int64
}

// watchPings records version commands no user issued.
func (h *H) watchPings(l *[]ping) {
	h.wireHook = func(c *Conn, w *WireCmd) {
		if w.Verb == "version" && w.Call == nil {
			*l = append(*l, ping{c.slot, vrt.PeekNow()})
		}
	}
}

func init() {
	// every sequence of pipelines, some of which never get a connection
	seqs := func(depth int) func(**H) {
		return func(hp **H) {
			n := 1 + vrt.Choose(4)
			h := OpenQuiet(NetCfg{N: n, MaxBatch: 2, Limit: 4})
			*hp = h
			vrt.Freeze(true)
			var seq []int
			for i := 0; i < depth; i++ {
				p := h.Pipeline()
				switch vrt.Choose(7) {
				case 0:
					p.Any('g', key('v', i, 0)).Wait()
				case 1: // several sessions
					a := p.Any('s', key('h', i, 0))
					p.Execute()
					b := p.Any('g', key('v', i, 1))
					a.Wait()
					b.Wait()
					p.Any('d', key('h', i, 2)).Wait()
					p.Any('V', "").Wait()
				case 2: // several batches
					for j := 0; j < 5; j++ {
						p.Any("gsd"[j%3], key('v', i, j))
					}
					p.Finish()
				case 3:
					p.Any('F', "").Wait()
				case 4: // nothing issued
					p.Execute()
					p.Finish()
					continue
				case 5: // invalid keys only
					bad := p.p.MGet("", memcache.MGetOptions{})
					_, _ = p.p.MGetFast("a b", memcache.MGetOptions{})
					p.p.MSet("a\n", nil, memcache.MSetOptions{})
					p.p.MDel("", memcache.MDelOptions{})
					_, _ = bad()
					continue
				case 6: // issued, never flushed
					p.Any('g', key('v', i, 0))
				}
				vrt.Idle()
				seq = append(seq, p.slot)
			}
			h.spread("C16", seq)
			h.Close()
		}
	}
	register(&Scenario{Name: "spread-sequences", Props: []string{"C16", "C02"}, Liveness: true, LIFO: true, Deep: 2, Shards: 8, Body: seqs(5)})
	register(&Scenario{Name: "spread-sequences-deep", Props: []string{"C16"}, Liveness: true, LIFO: true, Deep: 3, Shards: 8, Thorough: true, Body: seqs(7)})
	// concurrent pipelines
	conc := func(n int, progs ...string) func(**H) {
		return func(hp **H) {
			h := OpenQuiet(NetCfg{N: n, MaxBatch: 100, Limit: 500})
			*hp = h
			h.users(progs...)
			vrt.Freeze(true)
			vrt.Idle()
			h.Delivered()
			h.even("C16", h.pipeCounts())
			// and the rotation goes on
			var seq []int
			for i := 0; i < 2*n; i++ {
				p := h.Pipeline()
				p.Any('g', key('v', 50, i)).Wait()
				seq = append(seq, p.slot)
			}
			h.spread("C16", seq)
			h.even("C16", h.pipeCounts())
			h.Close()
		}
	}
	register(&Scenario{Name: "spread-two", Props: []string{"C16"}, Also: []string{"C17"}, P: 1, TP: 2, Liveness: true, LIFO: true, Deep: 1, Shards: 4, TShards: 8, Body: conc(2, "gvxngvx", "gvxnsvx")})
	// only the assignment itself is interleaved, the commands are flushed afterwards
	assign := func(users, each int) func(**H) {
		return func(hp **H) {
			n := 1 + vrt.Choose(4)
			h := OpenQuiet(NetCfg{N: n, MaxBatch: 100, Limit: 500})
			*hp = h
			var ts []*vrt.Thread
			for i := 0; i < users; i++ {
				i := i
				ts = append(ts, user("user"+strconv.Itoa(i), func() {
					for j := 0; j < each; j++ {
						p := h.Pipeline()
						p.Any("gsdV"[(i+j)%4], key('v', i, j))
					}
				}))
			}
			join(ts...)
			vrt.Freeze(true)
			for _, p := range h.pipes {
				p.Finish()
			}
			vrt.Idle()
			h.Delivered()
			h.even("C16", h.pipeCounts())
			var seq []int
			for i := 0; i < 2*n; i++ {
				p := h.Pipeline()
				p.Any('g', key('v', 50, i)).Wait()
				seq = append(seq, p.slot)
			}
			h.spread("C16", seq)
			h.even("C16", h.pipeCounts())
			h.Close()
		}
	}
	register(&Scenario{Name: "spread-assign", Props: []string{"C16"}, P: 4, TP: 6, Liveness: true, LIFO: true, Deep: 1, Shards: 4, TShards: 8, Body: assign(3, 2)})
	register(&Scenario{Name: "spread-assign-four", Props: []string{"C16"}, P: 3, TP: 4, Liveness: true, LIFO: true, Deep: 1, Shards: 4, TShards: 8, Body: assign(4, 2)})
	// sessions of a pipeline stay in their slot when connections fail in between
	register(&Scenario{Name: "spread-faults", Props: []string{"C16"}, P: 1, F: 1, TP: 2, TF: 2, Liveness: true, LIFO: true, Deep: 1, Shards: 4, TShards: 8, Delay: true, Weight: 2,
		Body: faulty(NetCfg{N: 2, MaxBatch: 1, Limit: 2, Faults: WriteErr | ReadErr | ReadEOF | DialErr}, nil, "gvshrgvr", "gVrnshr")})

	// ---- C15
	const period = 2 * time.Second
	// all traffic patterns over some periods
	every := func(_, _, n int) int { return vrt.Choose(n) }
	traffic := func(periods int, choose func(r, j, n int) int) func(**H) {
		return func(hp **H) {
			n := 1 + vrt.Choose(3)
			lat := int64(vrt.Choose(2)) * int64(300*time.Millisecond)
			h := OpenQuiet(NetCfg{N: n, MaxBatch: 2, Limit: 4, Health: true, Latency: lat, RT: int64(time.Second)}, memcache.WithHealthCheckDuration(period))
			h.slowServer = true
			*hp = h
			vrt.Freeze(true)
			var pings []ping
			h.watchPings(&pings)
			long := h.Pipeline()  // its traffic starts no pipeline
			tick := int64(period) // of the running period: the end of the last pings and a period
			used := make([]bool, n)
			longUsed := false
			for r := 0; r < periods; r++ {
				k := choose(r, 0, n+2)
				for i := 0; i < k; i++ {
					p := h.Pipeline()
					if i == 0 {
						p.Any('g', key('v', r, i)).Wait()
					} else { // not awaited
						p.Any('g', key('v', r, i))
						p.Execute()
						vrt.Idle()
					}
					if p.slot >= 0 {
						used[p.slot] = true
					}
				}
				if choose(r, 1, 2) == 1 {
					c := long.Any('s', key('h', 7000+r, 0)).Wait()
					if !longUsed && c.sent != nil {
						used[c.sent.Conn.slot] = true
						k++
					}
					longUsed = true
				}
				before := len(pings)
				// the tick and the pings it leads to
				if vrt.Now() >= tick {
					panic("traffic does not fit into the period")
				}
				vrt.SleepUntil(tick)
				vrt.Idle()
				for i := 0; i <= n; i++ {
					vrt.SleepUntil(vrt.Now() + lat)
					vrt.Idle()
				}
				got := make([]int, n)
				for _, p := range pings[before:] {
					got[p.slot]++
				}
				for s := range got {
					want := 1
					if used[s] || k >= n {
						want = 0
					}
					if got[s] != want {
						h.fail("C15", "period "+strconv.Itoa(r)+": connection "+strconv.Itoa(s)+" pinged "+strconv.Itoa(got[s])+" times, "+strconv.Itoa(k)+" of "+strconv.Itoa(n)+" connections were assigned pipelines")
					}
				}
				tick += int64(period) + int64(len(pings)-before)*lat
				if k >= n && len(pings) > before {
					h.fail("C15", "pings although user traffic covered all connections")
				}
				for s := range used {
					used[s] = false
				}
			}
			h.CloseQuiet()
			np := len(pings)
			vrt.SleepUntil(vrt.Now() + int64(3*period))
			vrt.Idle()
			if len(pings) != np {
				h.fail("C15,C06", "ping after Close")
			}
		}
	}
	register(&Scenario{Name: "health-traffic", Own: []string{"C15"}, Props: []string{"C15"}, Liveness: true, LIFO: true, Deep: 2, Shards: 4, TShards: 8, Body: traffic(4, every)})
	register(&Scenario{Name: "health-traffic-deep", Own: []string{"C15"}, Props: []string{"C15"}, Liveness: true, LIFO: true, Deep: 2, Shards: 8, Thorough: true, Body: traffic(6, every)})
	// hundreds of periods, in which all patterns take turns in different orders
	register(&Scenario{Name: "health-long", Own: []string{"C15"}, Props: []string{"C15", "C16"}, Liveness: true, LIFO: true, NoCache: true, Shards: 4, MaxSteps: 500000000, MaxTime: 100000 * time.Second, Body: func(hp **H) {
		step := []int{1, 2, 3, 5, 7, 0, 11}[vrt.Choose(7)]
		traffic(400, func(r, j, n int) int {
			if j == 0 {
				return r * step % n
			}
			return r * step / 3 % n
		})(hp)
	}})
	// connections die silently at some time; nobody uses the client
	register(&Scenario{Name: "health-death", Own: []string{"C15"}, Props: []string{"C15", "C05"}, Liveness: true, LIFO: true, Deep: 2, Shards: 4, TShards: 8, Body: func(hp **H) {
		n := 1 + vrt.Choose(3)
		h := OpenQuiet(NetCfg{N: n, MaxBatch: 2, Limit: 4, Health: true, RT: int64(time.Second)}, memcache.WithHealthCheckDuration(period))
		*hp = h
		h.slowServer = true
		vrt.Freeze(true)
		var pings []ping
		h.watchPings(&pings)
		before := vrt.Choose(3)
		for r := before; r > 0; r-- { // some periods of traffic before
			for k := vrt.Choose(n + 2); k > 0; k-- {
				p := h.Pipeline()
				p.Any('g', key('v', r, k)).Wait()
			}
			vrt.SleepUntil(vrt.Now() + int64(period))
			vrt.Idle()
		}
		vrt.SleepUntil(vrt.Now() + int64(vrt.Choose(4))*int64(500*time.Millisecond))
		vrt.Idle()
		set := 1 + vrt.Choose(1<<n-1)
		dead := make([]*Conn, n)
		m := int64(0)
		for i := 0; i < n; i++ {
			if set>>i&1 == 0 {
				continue
			}
			m++
			dead[i] = h.net.slots[i]
			if vrt.Choose(2) == 0 {
				dead[i].Kill()
			} else {
				dead[i].Stall()
			}
		}
		for k := vrt.Choose(n); k > 0; k-- { // the rest of the running period may see traffic
			p := h.Pipeline()
			p.Any('g', key('v', 80, k))
			p.Execute()
			vrt.Idle()
		}
		// pinged one after the other at the end of the period
		vrt.SleepUntil(int64(before+1)*int64(period) + m*int64(time.Second))
		vrt.Idle()
		for i, c := range dead {
			if c != nil && !c.closed {
				h.fail("C15", "connection "+strconv.Itoa(i)+" died silently and was not detected at the end of the period")
			}
		}
		vrt.SleepUntil(vrt.Now() + int64(period) + 2*int64(time.Second))
		vrt.Idle()
		for i, d := range h.net.slots {
			if dead[i] == nil && d.id != i {
				h.fail("C15,C04", "healthy connection "+strconv.Itoa(i)+" was replaced")
			}
			if dead[i] != nil && d != nil && (d.closed || d == dead[i]) { // nil: two were redialled in the same instant
				h.fail("C15,C05", "connection "+strconv.Itoa(i)+" died silently and was not replaced")
			}
		}
		if k := h.openConns(); k != n {
			h.fail("C15,C05", "only "+strconv.Itoa(k)+" of "+strconv.Itoa(n)+" connections are open one period after some died")
		}
		for i := 0; i < n; i++ {
			p := h.Pipeline()
			if c := p.Any('g', key('v', 90, i)).Wait(); c.Err != nil {
				h.fail("C15,C05", "call after the replacement failed: "+c.Err.Error())
			}
		}
		h.CloseQuiet()
	}})
	// users start pipelines at the very tick
	tick := func(n int, cl bool, progs ...string) func(**H) {
		return func(hp **H) {
			h := OpenQuiet(NetCfg{N: n, MaxBatch: 2, Limit: 4, Health: true}, memcache.WithHealthCheckDuration(period))
			*hp = h
			var pings []ping
			h.watchPings(&pings)
			var ts []*vrt.Thread
			for i, s := range progs {
				i, s := i, s
				ts = append(ts, user("user"+strconv.Itoa(i), func() {
					vrt.SleepUntil(int64(period))
					h.script(i, s)
				}))
			}
			if cl {
				ts = append(ts, user("closer", func() {
					vrt.SleepUntil(int64(period))
					h.Close1()
				}))
			}
			join(ts...)
			vrt.Freeze(true)
			if cl {
				h.finishClose(1)
				return
			}
			vrt.Idle()
			h.Delivered()
			count := h.pipeCounts()
			for _, p := range pings {
				count[p.slot]++
			}
			// every connection is in use at the tick at the latest
			for s := range count {
				if count[s] == 0 {
					h.fail("C15", "connection "+strconv.Itoa(s)+" was neither used nor pinged in the period")
				}
			}
			if len(pings) > n {
				h.fail("C15", strconv.Itoa(len(pings))+" pings for "+strconv.Itoa(n)+" connections")
			}
			h.even("C15,C16", count)
			before := len(pings)
			vrt.SleepUntil(2*int64(period) + int64(period)/2) // a period without traffic but for what came after the tick
			vrt.Idle()
			for _, p := range pings[before:] {
				count[p.slot]++
			}
			h.even("C15,C16", count)
			before = len(pings)
			vrt.SleepUntil(3*int64(period) + int64(period)/2)
			vrt.Idle()
			if len(pings)-before != n {
				h.fail("C15", strconv.Itoa(len(pings)-before)+" pings in a period without traffic")
			}
			h.Close()
		}
	}
	register(&Scenario{Name: "health-tick", Props: []string{"C15"}, Also: []string{"C16", "C01", "C02", "C17"}, P: 2, TP: 3, Liveness: true, LIFO: true, Deep: 1, Shards: 4, TShards: 8, Weight: 2, Body: tick(2, false, "gvxngVr")})
	register(&Scenario{Name: "health-tick-two", Props: []string{"C15"}, Also: []string{"C16", "C17"}, P: 3, TP: 4, Delay: true, Liveness: true, LIFO: true, Deep: 1, Shards: 4, TShards: 8, Weight: 2, Body: tick(3, false, "gvr", "gvxngvr")})
	register(&Scenario{Name: "health-close", Props: []string{"C15"}, Also: []string{"C06", "C17"}, P: 3, Delay: true, TP: 5, Liveness: true, LIFO: true, Deep: 1, Shards: 4, TShards: 8, Weight: 2, Body: tick(2, true, "gvr")})
}
