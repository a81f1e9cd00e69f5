package main

import (
	"strconv"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"vrt"
)

// ---- long histories: the state machines after tens of thousands of batches -------------------

// long runs n pipelines of mixed kinds, at most depth of them under way at a time, and checks every
// result, the connection of every command and the window; counters, ring indexes and pools go
// through all their values.
func long(n int, shapes [][3]int, reuse bool) func(**H) {
	return func(hp **H) {
		x := shapes[vrt.Choose(len(shapes))]
		slots, depth, lim := x[0], x[1], x[2]
		h := OpenQuiet(NetCfg{N: slots, MaxBatch: 2, Limit: lim})
		*hp = h
		vrt.Freeze(true)
		h.relaxErr = true
		type item struct {
			key  string
			fn   func() (Res, error)
			want Res
		}
		at := make([]int, n) // slot of every pipeline
		for i := range at {
			at[i] = -1
		}
		h.net.cfg.Raw = func(c *Conn, w *WireCmd) (string, bool) {
			c.wire, c.cmds = c.wire[:0], c.cmds[:0]
			i, err := strconv.Atoi(w.Key[1:])
			if err != nil || i >= n {
				h.fail("C02", "unknown command "+strconv.Quote(w.Raw))
				return "", false
			}
			if at[i] < 0 {
				at[i] = c.slot
			} else if at[i] != c.slot {
				h.fail("C16", "the commands of pipeline "+strconv.Itoa(i)+" use the connections "+strconv.Itoa(at[i])+" and "+strconv.Itoa(c.slot))
			}
			return keyReply(w.Verb, w.Key), true
		}
		var open [][]item
		finish := func() {
			for _, it := range open[0] {
				res, err := it.fn()
				if err != nil || res != it.want {
					h.fail("C01,C03,C13", it.key+" gives "+res.String()+" "+errText(err)+" want "+it.want.String())
				}
			}
			open = open[1:]
		}
		p := h.cl.Pipeline()
		for i := 0; i < n; i++ {
			if !reuse {
				p = h.cl.Pipeline()
			}
			var l []item
			for j := 0; j < 1+i%7%4; j++ {
				k := string("vnHh"[i%4]) + strconv.Itoa(i)
				switch (i + j) % 3 {
				case 0:
					f, err := p.MGetFast(k, memcache.MGetOptions{CAS: true})
					if err != nil {
						h.fail("C01,C13", "MGetFast gives "+err.Error())
					}
					want, _ := expected("mg", k)
					l = append(l, item{k, func() (Res, error) {
						r, err := f.Result()
						memcache.ReleaseMGetResult(f)
						res := Res{Typ: int(r.Type), Data: string(r.Data), Flags: uint64(r.Flags), CAS: r.CAS}
						memcache.ReleaseGetResponseData(r.Data)
						return res, err
					}, want})
				case 1:
					f := p.MGet(k, memcache.MGetOptions{CAS: true})
					want, _ := expected("mg", k)
					l = append(l, item{k, func() (Res, error) {
						r, err := f()
						res := Res{Typ: int(r.Type), Data: string(r.Data), Flags: uint64(r.Flags), CAS: r.CAS}
						memcache.ReleaseGetResponseData(r.Data)
						return res, err
					}, want})
				case 2:
					f := p.MDel(k, memcache.MDelOptions{})
					want, _ := expected("md", k)
					l = append(l, item{k, func() (Res, error) { r, err := f(); return Res{Typ: int(r.Type)}, err }, want})
				}
			}
			if reuse && i%5 == 4 {
				p.Finish()
			} else if !reuse || i%5 != 3 { // else it is sent by the first result function
				p.Execute()
			}
			open = append(open, l)
			if reuse && i%5 == 3 {
				for len(open) > 0 {
					finish()
				}
			}
			if len(open) >= depth {
				finish()
			}
			if reuse {
				if at[i] >= 0 && at[0] >= 0 && at[i] != at[0] {
					h.fail("C16", "a pipeline uses the connections "+strconv.Itoa(at[0])+" and "+strconv.Itoa(at[i]))
				}
			} else if i >= slots && at[i-slots] >= 0 && at[i] >= 0 && at[i] != at[i-slots] {
				h.fail("C16", "pipeline "+strconv.Itoa(i)+" uses connection "+strconv.Itoa(at[i])+", pipeline "+strconv.Itoa(i-slots)+" used "+strconv.Itoa(at[i-slots]))
			}
		}
		for len(open) > 0 {
			finish()
		}
		vrt.Idle()
		if !reuse {
			h.spread("C16", at)
		}
		h.inputs += n
		h.relaxErr = false
		h.net.cfg.Raw = nil
		for _, c := range h.net.conns {
			c.wire, c.cmds = nil, nil
		}
		if slots == 1 {
			h.fullWindow(lim)
		}
		h.Close()
	}
}

// outage takes the server away for a long time, again and again.
func outage(lens []int, rounds int) func(**H) {
	return func(hp **H) {
		n := []int{1, 3}[vrt.Choose(2)]
		T := int64(lens[vrt.Choose(len(lens))]) * int64(time.Second)
		way := vrt.Choose(3)
		traffic := vrt.Choose(2) == 1
		h := OpenQuiet(NetCfg{N: n, MaxBatch: 2, Limit: 3})
		*hp = h
		vrt.Freeze(true)
		down := false
		h.net.cfg.Script = func(kind string, _, _ int) int {
			if kind == "dial" && down {
				return DialErr
			}
			return 0
		}
		id := 100
		for r := 0; r < rounds; r++ {
			down = true
			h.net.faulty = true
			t0, before := vrt.Now(), len(h.net.dials)
			for _, c := range h.net.conns {
				if c.closed {
					continue
				}
				if way == 0 || way == 2 && r%2 == 0 {
					c.PeerClose()
				} else {
					c.Reset()
				}
			}
			for i := 0; i < n; i++ { // finds out
				p := h.Pipeline()
				p.Any('g', key('v', id, i)).Wait()
			}
			id++
			vrt.Idle()
			for q := int64(1); traffic && q < 4; q++ {
				vrt.SleepUntil(t0 + T*q/4)
				h.script(id, "gvshr")
				id++
			}
			vrt.SleepUntil(t0 + T)
			vrt.Idle()
			if got, want := len(h.net.dials)-before, n*(1+int(T/h.retry())); got != want {
				h.fail("C05", strconv.Itoa(got)+" dials of "+strconv.Itoa(n)+" connections in an outage of "+time.Duration(T).String()+", want "+strconv.Itoa(want))
			}
			if n == 1 {
				h.Reconnects()
			}
			down = false
			if r == rounds-1 {
				break
			}
			vrt.SleepUntil(t0 + T + h.retry())
			vrt.Idle()
			if k := h.openConns(); k != n {
				h.fail("C05", strconv.Itoa(k)+" of "+strconv.Itoa(n)+" connections one retry duration after an outage of "+time.Duration(T).String())
			}
			for i := 0; i < n; i++ {
				p := h.Pipeline()
				c := p.Any('g', key('v', id, i)).Wait()
				if c.Err != nil {
					h.fail("C05,C03", "call after an outage failed: "+c.Err.Error())
				}
			}
			id++
			h.forget()
		}
		h.Close() // while the server is away, or has just come back
		h.AfterClose(2)
	}
}

func init() {
	register(&Scenario{Name: "long-outage", Props: []string{"C05", "C03", "C06"}, Liveness: true, LIFO: true, Shards: 4, NoCache: true, MaxSteps: 500000000, MaxTime: 100000 * time.Second, Body: outage([]int{1, 6, 42, 127, 502, 1302}, 4)})
	register(&Scenario{Name: "long-drops", Props: []string{"C05", "C03", "C06", "C07"}, Liveness: true, LIFO: true, Shards: 4, NoCache: true, MaxSteps: 500000000, MaxTime: 100000 * time.Second, Body: outage([]int{1}, 1100)})
	var all [][3]int // connections, pipelines under way, write limit
	for _, n := range []int{1, 3, 5} {
		for _, d := range []int{1, 3, 7} {
			for _, l := range []int{2, 5} {
				all = append(all, [3]int{n, d, l})
			}
		}
	}
	props := []string{"C01", "C02", "C03", "C07", "C16"}
	register(&Scenario{Name: "long-history", Props: props, Liveness: true, Deep: 1, Shards: 8, NoCache: true, MaxSteps: 500000000, MaxTime: 100000 * time.Second, Body: long(1200, all, false)})
	register(&Scenario{Name: "long-pipeline", Props: append([]string{"C13"}, props...), Liveness: true, Deep: 1, Shards: 4, NoCache: true, MaxSteps: 500000000, MaxTime: 100000 * time.Second, Body: long(3000, [][3]int{{1, 1, 2}, {1, 4, 2}, {3, 2, 5}, {2, 7, 1}}, true)})
	register(&Scenario{Name: "long-history-wraps", Real: true, Props: props, Liveness: true, Deep: 1, Shards: 4, NoCache: true, MaxSteps: 500000000, MaxTime: 100000 * time.Second, Body: long(66500, [][3]int{{1, 7, 2}, {3, 3, 5}}, false)})
	register(&Scenario{Name: "long-history-wraps-all", Real: true, Props: props, Liveness: true, Deep: 1, Shards: 8, NoCache: true, MaxSteps: 500000000, MaxTime: 100000 * time.Second, Thorough: true, Body: long(70000, all, false)})
}
