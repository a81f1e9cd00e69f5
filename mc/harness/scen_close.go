package main

import (
	"strconv"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"vrt"
)

// closing runs users concurrently with Close.
func closing(cfg NetCfg, opts []memcache.Option, after int, progs ...string) func(**H) {
	return func(hp **H) {
		h := OpenQuiet(cfg, opts...)
		*hp = h
		var ts []*vrt.Thread
		for i, s := range progs {
			i, s := i, s
			ts = append(ts, user("user"+strconv.Itoa(i), func() { h.script(i, s) }))
		}
		ts = append(ts, user("closer", func() { h.Close1() }))
		join(ts...)
		h.finishClose(after)
	}
}

// finishClose checks what must hold once Close has returned and all users are done.
func (h *H) finishClose(after int) {
	vrt.Freeze(true)
	h.CheckClosed()
	if after > 0 {
		h.AfterClose(after)
	}
	h.CloseAgain()
	vrt.Idle()
	h.CheckClosed()
}

// CloseAgain closes once more: harmless.
func (h *H) CloseAgain() {
	if err := h.cl.Close(); err != nil {
		h.fail("C06", "second Close returned "+err.Error())
	}
}

// closeBound is the longest a Close may take in virtual time.
func (h *H) closeBound() int64 {
	b := h.cfg.RT
	if h.cfg.WT > b {
		b = h.cfg.WT
	}
	return h.cfg.RT + h.cfg.WT + int64(10*time.Second) + b
}

func init() {
	c06 := []string{"C06", "C03"}
	lim := NetCfg{N: 1, MaxBatch: 100, Limit: 500}
	small := NetCfg{N: 1, MaxBatch: 1, Limit: 2}
	register(&Scenario{Name: "close-one-user", Props: append([]string{"C01", "C02", "C04", "C17"}, c06...), P: 2, TP: 3, Liveness: true, LIFO: true, Weight: 2, TShards: 4,
		Body: closing(lim, nil, 3, "gvshr")})
	register(&Scenario{Name: "close-batches", Props: append([]string{"C01", "C02", "C04"}, c06...), P: 2, TP: 3, Liveness: true, LIFO: true, Weight: 3, Shards: 4, TShards: 8,
		Body: closing(small, nil, 3, "gvgwgvr")})
	register(&Scenario{Name: "close-two-users", Props: append([]string{"C02", "C17"}, c06...), P: 1, TP: 2, Liveness: true, LIFO: true, Weight: 2, Shards: 2, TShards: 8,
		Body: closing(small, nil, 2, "gvshr", "gVxfr")})
	register(&Scenario{Name: "close-two-conns", Props: c06, P: 3, TP: 4, Delay: true, Liveness: true, LIFO: true, Weight: 2, Shards: 2, TShards: 8,
		Body: closing(NetCfg{N: 2, MaxBatch: 2, Limit: 2}, nil, 4, "gvr", "gVshnr")})
	register(&Scenario{Name: "close-faults", Props: append([]string{"C04", "C02", "C17"}, c06...), P: 1, F: 1, TP: 2, TF: 2, Liveness: true, LIFO: true, Weight: 4, Shards: 6, TShards: 8,
		Body: closing(NetCfg{N: 1, MaxBatch: 1, Limit: 2, Faults: allFaults}, nil, 2, "gvgvr")})
	// the server is silent (or stops reading) when Close comes; the clock may run at any point
	silent := func(hold bool, prog string) func(**H) {
		return func(hp **H) {
			h := OpenQuiet(NetCfg{N: 1, MaxBatch: 1, Limit: 2, Hold: hold})
			*hp = h
			if !hold {
				h.net.conns[0].Stall()
			}
			a := user("user0", func() { h.script(0, prog) })
			b := user("closer", func() {
				vrt.SleepUntil(int64(vrt.Choose(3)) * int64(500*time.Millisecond))
				h.Close1()
			})
			join(a, b)
			h.finishClose(2)
		}
	}
	register(&Scenario{Name: "close-silent", Props: c06, P: 1, F: 0, TP: 2, Liveness: true, Weight: 2, Body: silent(true, "gvgvgvr")})
	register(&Scenario{Name: "close-stalled", Props: c06, P: 1, F: 0, TP: 2, Liveness: true, Weight: 2, Body: silent(false, "gvgvgvr")})
	// every dial fails: Close while the reconnector waits or dials
	register(&Scenario{Name: "close-nodial", Props: c06, Also: []string{"C17"}, P: 2, F: 1, TP: 5, TF: 2, Delay: true, Shards: 2, TShards: 8, Liveness: true, Weight: 2, Early: true, Body: func(hp **H) {
		k := vrt.Choose(3)
		n := 0
		h := Open(NetCfg{N: 1, MaxBatch: 2, Limit: 2, Script: func(kind string, conn, op int) int {
			if kind != "dial" {
				return 0
			}
			n++
			switch {
			case n == 1 && k > 0:
				return 0
			case k == 2:
				return DialSlow
			}
			return DialErr
		}})
		*hp = h
		if k > 0 {
			h.net.conns[0].PeerClose()
		}
		a := user("user0", func() { h.script(0, "gvr") })
		b := user("closer", func() { h.Close1() })
		join(a, b)
		h.finishClose(1)
	}})
	// Close of an idle client, from two goroutines, with the health checker about to fire
	register(&Scenario{Name: "close-idle", Props: []string{"C06", "C15"}, Also: []string{"C17"}, P: 2, F: 1, TP: 4, TF: 1, Delay: true, Shards: 2, TShards: 8, Liveness: true, Early: true, Weight: 2, Body: func(hp **H) {
		h := OpenQuiet(NetCfg{N: 2, Health: true}, memcache.WithHealthCheckDuration(time.Second))
		*hp = h
		a := user("closer", func() { h.Close1() })
		b := user("closer2", func() { h.Close1() })
		join(a, b)
		h.finishClose(1)
	}})
	// every background goroutine sleeps for a long time when Close comes
	register(&Scenario{Name: "close-sleeping", Props: c06, Also: []string{"C17"}, P: 2, TP: 3, Delay: true, Shards: 2, TShards: 8, Liveness: true, LIFO: true, MaxTime: 100000 * time.Second, Body: func(hp **H) {
		const hours = 2 * time.Hour
		n := 1 + vrt.Choose(2)
		down := vrt.Choose(n + 1) // so many connections cannot be dialled (again)
		late := vrt.Choose(2) == 1
		dials := 0
		h := OpenQuiet(NetCfg{N: n, MaxBatch: 2, Limit: 2, Health: true, Script: func(kind string, conn, op int) int {
			if kind != "dial" {
				return 0
			}
			dials++
			if !late && dials <= down || dials > n {
				return DialErr
			}
			return 0
		}}, memcache.WithRetryDuration(hours), memcache.WithHealthCheckDuration(hours))
		*hp = h
		for i := 0; late && i < down; i++ {
			h.net.conns[i].Reset()
		}
		for i := 0; late && i < n; i++ {
			h.Pipeline().Any('g', key('v', 5, i)).Wait()
		}
		vrt.Idle()
		vrt.SleepUntil(vrt.Now() + int64(vrt.Choose(2))*int64(hours/2))
		a := user("user0", func() { h.script(0, "gvr") })
		b := user("closer", func() { h.Close1() })
		join(a, b)
		h.finishClose(1)
	}})
	// Close while (re)connecting and while starting
	register(&Scenario{Name: "close-startup", Props: []string{"C06", "C03", "C17"}, P: 2, TP: 3, Liveness: true, Weight: 1, Body: func(hp **H) {
		h := Open(NetCfg{N: 1})
		*hp = h
		h.Close1()
		h.finishClose(1)
	}})
}
