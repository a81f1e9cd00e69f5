package main

import (
	"strconv"
	"time"

	"vrt"
)

// ---- C07: the write limit; C08: fairness ----------------------------------------------------

// batchKey identifies a batch on the wire.
type batchKey struct{ pipe, batch int }

// windowCheck is called for every command that reaches the server: unanswered commands stay within
// the limit, batches larger than it being exempt.
func (h *H) windowCheck(c *Conn, w *WireCmd) {
	lim := h.cfg.Limit
	if lim == 0 || w.Call == nil {
		return
	}
	size := 0
	for _, d := range w.Call.p.calls {
		if d.Batch == w.Call.Batch {
			size++
		}
	}
	if size > lim {
		return
	}
	if n := c.unanswered(); n > lim {
		h.fail("C07", w.Call.String()+" written as unanswered command number "+strconv.Itoa(n)+" on connection "+strconv.Itoa(c.id)+", the write limit is "+strconv.Itoa(lim))
	}
}

// unanswered counts the commands written to c whose batch has not begun to be answered.
func (c *Conn) unanswered() int {
	n := 0
	for i := len(c.cmds) - 1; i >= 0; i-- {
		w := c.cmds[i]
		if w.Call == nil {
			if w.ReplyEnd < 0 || c.read <= w.ReplyStart {
				n++
			}
			continue
		}
		f := w.first
		if f.ReplyEnd < 0 || c.read <= f.ReplyStart {
			n++
		} else if w == f {
			break // everything before is answered too
		}
	}
	return n
}

// pendingCheck is called with everything settled: no flushed batch that fits the window is held back.
func (h *H) pendingCheck(c *Conn) {
	n := c.unanswered()
	what, max := "", 0
	for _, k := range h.calls {
		if !k.flush || k.sent != nil || k.done {
			continue
		}
		if what == "" {
			what = k.String()
		}
		s := 0
		for _, d := range k.p.calls {
			if d.Batch == k.Batch {
				s++
			}
		}
		if s > max && s <= h.cfg.Limit {
			max = s
		}
	}
	if what != "" && n+max <= h.cfg.Limit {
		h.fail("C07", what+" is held back although only "+strconv.Itoa(n)+" of "+strconv.Itoa(h.cfg.Limit)+" commands are unanswered")
	}
}

// ---- fairness

// flushNote records what a flush finds under way.
func (p *Pipe) flushNote() {
	h := p.h
	if h.cfg.N != 1 || h.cfg.Limit == 0 || h.cfg.MaxBatch == 0 || h.cfg.MaxBatch > h.cfg.Limit || len(h.net.conns) == 0 {
		return
	}
	if p.flushed {
		return
	}
	p.flushed = true
	c := h.net.conns[len(h.net.conns)-1]
	p.flushConn, p.flushAt = c.id, len(c.cmds)
	for _, q := range h.pipes {
		if q != p && q.unwritten() > 0 {
			p.ahead += h.cfg.MaxBatch
		}
	}
}

func (p *Pipe) unwritten() int {
	n := 0
	for _, k := range p.calls {
		if k.flush && k.sent == nil {
			n++
		}
	}
	return n
}

// fairCheck is called for every command that reaches the server.
func (h *H) fairCheck(c *Conn, w *WireCmd) {
	k := w.Call
	if k == nil {
		return
	}
	p := k.p
	if k.seq == 0 && p.flushed && p.flushConn == c.id {
		if n := w.Idx - p.flushAt; n > h.cfg.Limit+p.ahead {
			h.fail("C08", strconv.Itoa(n)+" commands of earlier pipelines were written between the flush of pipeline "+strconv.Itoa(p.id)+" and its first command (limit "+strconv.Itoa(h.cfg.Limit)+", batch "+strconv.Itoa(h.cfg.MaxBatch)+")")
		}
	}
	if !h.turns {
		return
	}
	// round robin among the pipelines under way
	if k.seq == 0 || p.calls[k.seq-1].Batch != k.Batch {
		for _, q := range h.pipes {
			if q.id == p.id {
				for j := range q.since {
					q.since[j] = 0
				}
				continue
			}
			for len(q.since) < len(h.pipes) {
				q.since = append(q.since, 0)
			}
			if q.last >= 0 && q.unwritten() > 0 {
				q.since[p.id]++
				if q.since[p.id] > 2 {
					h.fail("C08", "pipeline "+strconv.Itoa(p.id)+" got "+strconv.Itoa(q.since[p.id])+" batches in a row while pipeline "+strconv.Itoa(q.id)+" was under way")
				}
			}
		}
	}
}

// after the oracle of turns: within any stretch, two pipelines under way get equally many batches.
func (h *H) turnsCheck(c *Conn) {
	type span struct{ first, last int }
	var spans []span
	for _, p := range h.pipes {
		s := span{-1, -1}
		for _, k := range p.calls {
			if k.sent != nil {
				if s.first < 0 {
					s.first = k.sent.Idx
				}
				s.last = k.sent.Idx
			}
		}
		spans = append(spans, s)
	}
	for i := range h.pipes {
		for j := range h.pipes {
			if i == j || spans[i].first < 0 || spans[j].first < 0 {
				continue
			}
			from, to := max(spans[i].first, spans[j].first), min(spans[i].last, spans[j].last)
			run := 0
			prev := batchKey{-1, -1}
			for x := from; x <= to; x++ {
				k := c.cmds[x].Call
				b := batchKey{k.p.id, k.Batch}
				if b == prev {
					continue
				}
				prev = b
				switch k.p.id {
				case i:
					run++
					if run > 1 && x > from {
						h.fail("C08", "pipeline "+strconv.Itoa(i)+" got two batches in a row while pipeline "+strconv.Itoa(j)+" waited for its next one")
					}
				case j:
					run = 0
				}
			}
		}
	}
}

func init() {
	// the window under withheld replies: all shapes of pipelines, one reply released at a time
	register(&Scenario{Name: "window-shapes", Props: []string{"C07", "C02", "C03", "C08"}, Liveness: true, LIFO: true, Deep: 3, Shards: 4, TShards: 8, MaxTime: 1000 * time.Second, Body: func(hp **H) {
		lim := 1 + vrt.Choose(4)
		mb := 1 + vrt.Choose(3)
		h := OpenQuiet(NetCfg{N: 1, MaxBatch: mb, Limit: lim, Hold: true})
		*hp = h
		vrt.Freeze(true)
		np := 1 + vrt.Choose(4)
		var ps []*Pipe
		for i := 0; i < np; i++ {
			p := h.Pipeline()
			n := 1 + vrt.Choose(5)
			for j := 0; j < n; j++ {
				p.Any('g', key('v', i, j))
			}
			p.Execute()
			ps = append(ps, p)
			if vrt.Choose(2) == 1 {
				vrt.Idle()
				h.pendingCheck(h.net.conns[0])
			}
		}
		h.drain(1)
		for _, p := range ps {
			for _, c := range p.calls {
				c.Wait()
			}
		}
		h.Delivered()
		h.net.ReleaseAll()
		h.Close()
	}})
	// the window after failures of every kind
	kinds := []struct {
		kind string
		f    int
	}{{"", 0}, {"write", WriteErr}, {"write", WritePartial}, {"write", WriteStall}, {"read", ReadErr}, {"read", ReadEOF}, {"read", ReadStall}, {"read", ReadDataEOF}, {"malformed", 0}, {"reset", 0}, {"eof", 0}, {"dial", 0}, {"badparse", 0}}
	history := func(rounds int) func(**H) {
		return func(hp **H) {
			lim := []int{1, 3, 4}[vrt.Choose(3)]
			mb := []int{1, 2, 5}[vrt.Choose(3)]
			arm, armKind := 0, ""
			h := OpenQuiet(NetCfg{N: 1, MaxBatch: mb, Limit: lim, Script: func(kind string, conn, op int) int {
				if kind == armKind && arm != 0 {
					f := arm
					arm = 0
					return f
				}
				return 0
			}})
			*hp = h
			vrt.Freeze(true)
			for r := 0; r < rounds; r++ {
				k := kinds[vrt.Choose(len(kinds))]
				shape := vrt.Choose(3)
				arm, armKind = k.f, k.kind
				c := h.net.conns[len(h.net.conns)-1]
				switch k.kind {
				case "reset":
					c.Reset()
				case "eof":
					c.PeerClose()
				case "dial": // the redial fails once, calls during the gap fail
					arm, armKind = DialErr, "dial"
					c.Reset()
				}
				h.malformed = h.malformed || k.kind == "malformed" || k.kind == "badparse"
				a, b := h.Pipeline(), h.Pipeline()
				for i := 0; i < []int{1, 4, 7}[shape]; i++ {
					a.Any("gsdg"[i%4], key('v', 10+r, i))
				}
				switch k.kind {
				case "malformed":
					a.calls[0].reply = &Reply{Text: "VA x\r\n", Bad: true}
				case "badparse":
					a.calls[0].reply = &Reply{Text: "WHAT\r\n", Bad: true}
				}
				b.Any('g', key('v', 20+r, 0))
				a.Execute()
				b.Execute()
				for _, c := range append(append([]*Call{}, a.calls...), b.calls...) {
					c.Wait()
				}
				if k.kind == "dial" {
					vrt.Idle()
					p := h.Pipeline()
					p.Any('g', key('v', 30+r, 0)).Wait()
				}
				vrt.Idle()
				vrt.SleepUntil(vrt.Now() + h.retry())
				vrt.Idle()
				if h.openConns() != 1 {
					h.fail("C05", "no connection after the retry duration")
				}
			}
			h.fullWindow(lim)
			h.Close()
		}
	}
	register(&Scenario{Name: "window-history", Own: []string{"C07"}, Props: []string{"C07", "C05", "C03"}, Liveness: true, LIFO: true, Deep: 1, Shards: 8, TShards: 8, Weight: 2, MaxTime: 4000 * time.Second, Body: history(2)})
	register(&Scenario{Name: "window-history-deep", Own: []string{"C07"}, Props: []string{"C07"}, Liveness: true, LIFO: true, Deep: 1, Shards: 8, Thorough: true, Weight: 2, MaxTime: 4000 * time.Second, Body: history(3)})
	// the window under interleavings, replies withheld, then released one by one
	sched := func(lim, mb int, progs ...string) func(**H) {
		return func(hp **H) {
			h := OpenQuiet(NetCfg{N: 1, MaxBatch: mb, Limit: lim, Hold: true})
			*hp = h
			var ts []*vrt.Thread
			for i, s := range progs {
				i, s := i, s
				ts = append(ts, user("user"+strconv.Itoa(i), func() { h.script(i, s) }))
			}
			server := user("server", func() {
				for {
					vrt.WaitUntil("server waits", func() bool { return len(h.net.conns[0].held) > 0 || ts[0].Done() && ts[len(ts)-1].Done() }, 0)
					if len(h.net.conns[0].held) == 0 {
						return
					}
					h.net.Release(h.net.conns[0], 1)
				}
			})
			join(ts...)
			join(server)
			vrt.Freeze(true)
			vrt.Idle()
			h.pendingCheck(h.net.conns[0])
			h.net.ReleaseAll()
			h.fullWindow(lim)
			h.Close()
		}
	}
	register(&Scenario{Name: "window-schedules", Props: []string{"C07"}, Also: []string{"C08", "C02", "C03", "C17"}, P: 2, TP: 3, Liveness: true, LIFO: true, Deep: 1, Shards: 8, TShards: 8, Weight: 2, Body: sched(2, 1, "gvgvgvr", "gvr")})
	register(&Scenario{Name: "window-schedules-2", Props: []string{"C07"}, Also: []string{"C08", "C02", "C03"}, P: 2, TP: 3, Liveness: true, LIFO: true, Deep: 1, Shards: 4, TShards: 8, Weight: 2, Body: sched(3, 2, "gvgvgvr", "gvshgvxr")})

	// ---- C08
	late := func(maxN int) func(**H) {
		return func(hp **H) {
			lim := 1 + vrt.Choose(4)
			mb := 1 + vrt.Choose(lim)
			h := OpenQuiet(NetCfg{N: 1, MaxBatch: mb, Limit: lim, Hold: true})
			*hp = h
			h.turns = true
			vrt.Freeze(true)
			c := h.net.conns[0]
			n := mb * (1 + vrt.Choose(maxN))
			long := h.Pipeline()
			for i := 0; i < n; i++ {
				long.Any('g', key('v', 0, i))
			}
			if vrt.Choose(2) == 1 { // something holds the sender before
				b := h.Pipeline()
				for i := 0; i < mb; i++ {
					b.Any('g', key('v', 9, i))
				}
				b.Execute()
				vrt.Idle()
			}
			long.Execute()
			vrt.Idle()
			k := vrt.Choose(n + 1)
			for i := 0; i < k && len(c.held) > 0; i++ {
				h.net.Release(c, 1)
				vrt.Idle()
			}
			nl := 1 + vrt.Choose(2)
			var lates []*Pipe
			for i := 0; i < nl; i++ {
				q := h.Pipeline()
				m := []int{1, mb + 1, 3*mb + 1}[vrt.Choose(3)]
				for j := 0; j < m; j++ {
					q.Any('s', key('h', 1+i, j))
				}
				q.Execute()
				lates = append(lates, q)
				if vrt.Choose(2) == 1 && len(c.held) > 0 {
					h.net.Release(c, 1)
					vrt.Idle()
				}
			}
			h.drain(1)
			h.turnsCheck(c)
			for _, p := range append(lates, long) {
				for _, c := range p.calls {
					c.Wait()
				}
			}
			h.Delivered()
			h.net.ReleaseAll()
			h.Close()
		}
	}
	register(&Scenario{Name: "late-pipelines", Own: []string{"C08"}, Props: []string{"C08", "C07", "C03", "C02"}, Liveness: true, LIFO: true, Deep: 2, Shards: 8, TShards: 8, Weight: 2, MaxTime: 100 * time.Second, Body: late(4)})
	register(&Scenario{Name: "late-pipelines-deep", Own: []string{"C08"}, Props: []string{"C08"}, Liveness: true, LIFO: true, Deep: 2, Shards: 8, Thorough: true, Weight: 2, MaxTime: 100 * time.Second, Body: late(12)})
	// several long pipelines that start together take turns
	register(&Scenario{Name: "turns", Own: []string{"C08"}, Props: []string{"C08", "C07", "C02", "C03"}, Liveness: true, LIFO: true, Deep: 2, Shards: 4, TShards: 8, MaxTime: 100 * time.Second, Body: func(hp **H) {
		lim := 1 + vrt.Choose(4)
		mb := 1 + vrt.Choose(lim)
		h := OpenQuiet(NetCfg{N: 1, MaxBatch: mb, Limit: lim, Hold: true})
		*hp = h
		h.turns = true
		vrt.Freeze(true)
		c := h.net.conns[0]
		if vrt.Choose(2) == 1 {
			b := h.Pipeline()
			for i := 0; i < lim; i++ {
				b.Any('g', key('v', 9, i))
			}
			b.Execute()
			vrt.Idle()
		}
		np := 2 + vrt.Choose(3)
		var ps []*Pipe
		for i := 0; i < np; i++ {
			p := h.Pipeline()
			m := mb * []int{1, 2, 5}[vrt.Choose(3)]
			for j := 0; j < m; j++ {
				p.Any("gs"[i%2], key('v', i, j))
			}
			ps = append(ps, p)
		}
		for _, p := range ps {
			p.Execute()
		}
		vrt.Idle()
		h.drain(1 + vrt.Choose(3))
		h.turnsCheck(c)
		for _, p := range ps {
			for _, c := range p.calls {
				c.Wait()
			}
		}
		h.Delivered()
		h.net.ReleaseAll()
		h.Close()
	}})
	// a pipeline flushed at any moment of the transmission of a longer one
	register(&Scenario{Name: "late-schedules", Props: []string{"C08"}, Also: []string{"C07", "C02"}, P: 2, TP: 3, Liveness: true, LIFO: true, Deep: 1, Shards: 4, TShards: 8, Weight: 2, Body: func(hp **H) {
		h := OpenQuiet(NetCfg{N: 1, MaxBatch: 1, Limit: 1})
		*hp = h
		h.users("gvgvgvgvxr", "shxr")
		vrt.Freeze(true)
		vrt.Idle()
		h.Delivered()
		h.Close()
	}})
	register(&Scenario{Name: "late-schedules-2", Props: []string{"C08"}, Also: []string{"C07"}, P: 2, TP: 3, Liveness: true, LIFO: true, Deep: 1, Shards: 4, TShards: 8, Weight: 2, Body: func(hp **H) {
		h := OpenQuiet(NetCfg{N: 1, MaxBatch: 2, Limit: 3})
		*hp = h
		h.users("gvgvgvgvgvxr", "shxr")
		vrt.Freeze(true)
		vrt.Idle()
		h.Delivered()
		h.Close()
	}})
}

// drain releases k replies at a time until nothing is withheld, checking the window each time.
func (h *H) drain(k int) {
	c := h.net.conns[0]
	for i := 0; i < 10000; i++ {
		vrt.Idle()
		h.pendingCheck(c)
		if len(c.held) == 0 {
			return
		}
		h.net.Release(c, k)
	}
}

// fullWindow checks that exactly the limit can be in flight on a working connection.
func (h *H) fullWindow(lim int) {
	vrt.Idle()
	h.net.cfg.Hold = true
	c := h.net.conns[len(h.net.conns)-1]
	base := len(c.cmds)
	var ps []*Pipe
	for i := 0; i < lim+2; i++ {
		p := h.Pipeline()
		p.Any('g', key('v', 70, i))
		p.Execute()
		ps = append(ps, p)
		vrt.Idle()
		want := min(i+1, lim)
		if n := len(c.cmds) - base; n != want {
			h.fail("C07", "after "+strconv.Itoa(i+1)+" single commands "+strconv.Itoa(n)+" are in flight, the write limit is "+strconv.Itoa(lim))
			return
		}
	}
	h.net.ReleaseAll()
	for _, p := range ps {
		p.calls[0].Wait()
		if p.calls[0].Err != nil {
			h.fail("C07,C03", p.calls[0].String()+" failed: "+p.calls[0].Err.Error())
		}
	}
	vrt.Idle()
}
