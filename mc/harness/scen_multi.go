package main

import (
	"strconv"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/QuangTung97/go-memcache/memcache/netconn"
	"vrt"
)

// ---- several clients in one process -----------------------------------------------------------

// together joins the calls of two clients for the checks on memory.
func together(a, b *H) *H {
	h := &H{cfg: a.cfg, net: a.net}
	h.calls = append(append([]*Call(nil), a.calls...), b.calls...)
	return h
}

// pause closes a client while another one stays open.
func (h *H) pause() {
	h.Close1()
	vrt.Idle()
	h.connsClosed()
}

func init() {
	// two clients with different limits and batch sizes in all schedules; one is closed while the other works
	both := func(ca, cb NetCfg, pa, pb, after string) func(**H) {
		return func(hp **H) {
			a := OpenQuiet(ca)
			b := OpenQuiet(cb)
			*hp = a
			ta := user("user of the first client", func() { a.script(0, pa) })
			tb := user("user of the second client", func() { b.script(5, pb) })
			join(ta, tb)
			vrt.Freeze(true)
			vrt.Idle()
			a.Delivered()
			b.Delivered()
			together(a, b).Intact()
			vrt.Freeze(false)
			tb = user("second user of the second client", func() { b.script(6, after) })
			a.Close1()
			join(tb)
			vrt.Freeze(true)
			vrt.Idle()
			a.connsClosed()
			b.Delivered()
			together(a, b).Intact()
			if n := b.openConns(); n != cb.N {
				b.fail("C06,C05", "only "+strconv.Itoa(n)+" connections of a client are open after another client was closed")
			}
			a.AfterClose(1)
			b.script(7, "gvshr")
			b.Close()
		}
	}
	p := []string{"C14", "C01", "C02"}
	also := []string{"C06", "C17"}
	register(&Scenario{Name: "two-clients", Props: p, Also: also, P: 1, TP: 2, Liveness: true, LIFO: true, Deep: 1, Shards: 4, TShards: 8,
		Body: both(NetCfg{N: 1, MaxBatch: 1, Limit: 2}, NetCfg{N: 2, MaxBatch: 3, Limit: 4}, "gvgwr", "gvgXswdvr", "gvr")})
	register(&Scenario{Name: "two-clients-reverse", Props: p, Also: also, P: 1, TP: 2, Liveness: true, LIFO: true, Deep: 1, Shards: 4, TShards: 8,
		Body: both(NetCfg{N: 1, MaxBatch: 3, Limit: 3}, NetCfg{N: 1, MaxBatch: 1, Limit: 1}, "gvgXswr", "GvgwR", "swr")})

	// histories of two clients, one step after the other
	histories := func(depth int) func(**H) {
		return func(hp **H) {
			big := vrt.Choose(2)
			var hs [2]*H
			cfgs := [2]NetCfg{{N: 1, MaxBatch: 2, Limit: 2}, {N: 2, MaxBatch: 5, Limit: 7}}
			if big == 1 {
				cfgs[0], cfgs[1] = cfgs[1], cfgs[0]
			}
			for i := range hs {
				hs[i] = OpenQuiet(cfgs[i])
			}
			*hp = hs[0]
			vrt.Freeze(true)
			var open [2][]*Call
			n := 0
			issue := func(i, k int) {
				h := hs[i]
				p := h.Pipeline()
				for j := 0; j < k; j++ {
					n++
					open[i] = append(open[i], p.Any("gsgdG"[(n+j)%5], key("vXHe"[n%4], 10*i, n)))
				}
				p.Execute()
			}
			collect := func(i int) {
				for _, c := range open[i] {
					c.Wait()
				}
				open[i] = nil
			}
			gone := false
			for d := 0; d < depth; d++ {
				switch vrt.Choose(8) {
				case 0:
					issue(0, 5)
				case 1:
					issue(1, 5)
				case 2:
					collect(0)
				case 3:
					collect(1)
				case 4: // issued without being sent
					p := hs[1].Pipeline()
					n++
					open[1] = append(open[1], p.Any('s', key('h', 10, n)), p.Any('g', key('v', 10, n)))
				case 5:
					if l := hs[0].net.slots; !gone && l[0] != nil && !l[0].closed {
						hs[0].net.faulty = true
						l[0].Reset()
					}
				case 6:
					if !gone {
						gone = true
						hs[0].pause()
					}
				case 7:
					if !gone {
						gone = true
						hs[0].net.faulty = true
						for _, c := range hs[0].net.conns {
							c.Kill()
						}
					}
				}
				vrt.Idle()
			}
			collect(1)
			collect(0)
			together(hs[0], hs[1]).Intact()
			hs[1].Delivered()
			var seq []int
			for _, p := range hs[1].pipes {
				seq = append(seq, p.slot)
			}
			hs[1].spread("C16", seq)
			if k := hs[1].openConns(); k != cfgs[1].N {
				hs[1].fail("C04,C05,C06", "only "+strconv.Itoa(k)+" connections of a client are open after another client had failures or was closed")
			}
			if !hs[0].cdone {
				hs[0].pause()
			}
			issue(1, 6)
			collect(1)
			hs[1].Close()
		}
	}
	hp := []string{"C14", "C01", "C04", "C06", "C16"}
	register(&Scenario{Name: "two-clients-history", Props: hp, Liveness: true, LIFO: true, Deep: 2, Shards: 4, TShards: 8, MaxTime: 1000 * time.Second, Body: histories(4)})
	register(&Scenario{Name: "two-clients-history-deep", Props: hp, Liveness: true, LIFO: true, Deep: 2, Shards: 8, Thorough: true, MaxTime: 1000 * time.Second, Body: histories(5)})

	// options given to one client do not reach another one
	register(&Scenario{Name: "options-two-clients", Own: []string{"C18"}, Props: []string{"C18"}, Liveness: true, LIFO: true, Deep: 2, Shards: 4, TShards: 8, MaxTime: 10000 * time.Second, Body: func(hp **H) {
		ops := confOpts()
		vrt.Freeze(true)
		var hs [2]*H
		var cs [2]*conf
		shared := vrt.Choose(3)                // both are given the same slice with room behind it
		base := make([]netconn.Option, 0, 4+4) // read-only for the client
		base = append(base, netconn.WithTCPKeepAliveDuration(5*time.Second), netconn.WithBufferSize(4096))
		for i := range hs {
			c := &conf{rt: 1000 * ms, wt: 1000 * ms, retry: 10000 * ms, health: 15000 * ms, limit: 500, batch: 100, buf: 16384}
			h := newH(NetCfg{N: 1, Health: true})
			h.slowServer = true
			hs[i], cs[i] = h, c
			if i == 0 {
				*hp = h
			}
			list := []memcache.Option{memcache.WithDialFunc(h.net.DialFunc), memcache.WithDialErrorLogger(h.logErr)}
			switch shared {
			case 1:
				list = append([]memcache.Option{memcache.WithNetConnOptions(base...)}, list...)
			case 2:
				list = append(list, memcache.WithNetConnOptions(base[:1]...))
			}
			if k := vrt.Choose(len(ops) + 1); k > 0 {
				vrt.Note("option %s", ops[k-1].name)
				list = append(list, ops[k-1].opt())
				ops[k-1].set(c)
			}
			h.cfg.RT, h.cfg.WT, h.cfg.Limit, h.cfg.MaxBatch = c.rt, c.wt, c.limit, c.batch
			h.deadlines(c)
			cl, err := memcache.New("server:11211", 1, list...)
			if err != nil {
				h.fail("C18", "New: "+err.Error())
			}
			h.cl = cl
		}
		x := vrt.Choose(2)
		hs[x].exercise(cs[x])
		hs[x].pause()
		if c := hs[1-x].Pipeline().Any('g', "v9.9").Wait(); c.Err != nil {
			hs[1-x].fail("C18", c.String()+" failed: "+c.Err.Error())
		}
		hs[1-x].Close()
	}})
}
