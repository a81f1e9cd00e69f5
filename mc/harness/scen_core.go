package main

import (
	"strconv"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"vrt"
)

// user starts a user goroutine.
func user(name string, f func()) *vrt.Thread { return vrt.GoHarness(name, f) }

func join(ts ...*vrt.Thread) {
	for _, t := range ts {
		vrt.Join(t)
	}
}

func key(style byte, t, i int) string {
	return string(style) + strconv.Itoa(t) + "." + strconv.Itoa(i)
}

// script runs a user: letters g,s,d,G,V,F issue commands with the following style letter,
// 'x' = Execute, 'f' = Finish, 'r' = collect all open results in order, 'R' = in reverse.
func (h *H) script(t int, prog string) {
	p := h.Pipeline()
	var open []*Call
	n := 0
	for i := 0; i < len(prog); i++ {
		switch prog[i] {
		case 'g', 's', 'd', 'G':
			i++
			open = append(open, p.Any(prog[i-1], key(prog[i], t, n)))
			n++
		case 'V', 'F':
			open = append(open, p.Any(prog[i], ""))
			n++
		case 'x':
			p.Execute()
		case 'f':
			p.Finish()
		case 'r':
			for _, c := range open {
				c.Wait()
			}
			open = nil
		case 'R':
			for k := len(open) - 1; k >= 0; k-- {
				open[k].Wait()
			}
			open = nil
		case 'n':
			p = h.Pipeline()
		}
	}
}

// users runs the scripts concurrently and waits for all.
func (h *H) users(progs ...string) {
	var ts []*vrt.Thread
	for i, s := range progs {
		i, s := i, s
		ts = append(ts, user("user"+strconv.Itoa(i), func() { h.script(i, s) }))
	}
	join(ts...)
}

// healthy runs users without faults, then closes.
func healthy(cfg NetCfg, opts []memcache.Option, progs ...string) func(**H) {
	return func(hp **H) {
		h := OpenQuiet(cfg, opts...)
		*hp = h
		h.users(progs...)
		vrt.Freeze(true)
		vrt.Idle()
		h.Delivered()
		h.Close()
		h.AfterClose(1)
	}
}

// faulty runs users with faults, then checks recovery and closes.
func faulty(cfg NetCfg, opts []memcache.Option, progs ...string) func(**H) {
	return func(hp **H) {
		h := OpenQuiet(cfg, opts...)
		*hp = h
		h.users(progs...)
		vrt.Freeze(true)
		h.Recover(5 * time.Second)
		h.Close()
	}
}

// Recover switches faults off and checks that every slot works again.
func (h *H) Recover(retry time.Duration) {
	vrt.Enter()
	h.net.cfg.Faults = 0
	h.net.cfg.Script = nil
	vrt.Leave()
	for i := 0; i < h.cfg.N; i++ { // runs into whatever is broken
		p := h.Pipeline()
		p.Any('g', key('v', 90, i)).Wait()
	}
	vrt.Idle()
	if d := h.dialling(); d > 0 { // a dial that began before the faults ended
		vrt.SleepUntil(d)
		vrt.Idle()
	}
	if h.openConns() < h.cfg.N {
		vrt.SleepUntil(vrt.Now() + int64(retry))
		vrt.Idle()
	}
	if n := h.openConns(); n != h.cfg.N {
		h.fail("C05", "only "+strconv.Itoa(n)+" of "+strconv.Itoa(h.cfg.N)+" connections after the retry duration without faults")
	}
	for r := 0; r < 2; r++ {
		for i := 0; i < h.cfg.N; i++ {
			p := h.Pipeline()
			a := p.Any('s', key('h', 91+r, i))
			b := p.Any('g', key('v', 91+r, i))
			a.Wait()
			b.Wait()
			if a.Err != nil || b.Err != nil {
				h.fail("C05,C03", "call after recovery failed: "+errText(a.Err)+" / "+errText(b.Err))
			}
		}
	}
}

// dialling returns the instant until which a dial attempt is under way, 0 if there is none.
func (h *H) dialling() int64 {
	r := int64(0)
	for _, d := range h.net.dials {
		if d.end == 0 && d.start+int64(d.timeout) > r {
			r = d.start + int64(d.timeout)
		}
	}
	if r <= vrt.PeekNow() {
		return 0
	}
	return r
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	return err.Error()
}

func (h *H) openConns() int {
	n := 0
	for _, c := range h.net.conns {
		if !c.closed {
			n++
		}
	}
	return n
}

const allFaults = DialErr | DialSlow | WriteErr | WritePartial | WriteStall | ReadErr | ReadEOF | ReadOne | ReadStall | ReadDataEOF

func init() {
	core := []string{"C01", "C02", "C03", "C13", "C14", "C16", "C06", "C17"}
	register(&Scenario{Name: "two-users", Props: core, P: 2, TP: 3, Liveness: true, LIFO: true, Race: true,
		Body: healthy(NetCfg{N: 1, MaxBatch: 100, Limit: 500}, nil, "gvshr", "gVr")})
	register(&Scenario{Name: "two-users-batches", Props: core, P: 2, TP: 3, Deep: 1, Shards: 4, TShards: 8, Weight: 2, Liveness: true, LIFO: true,
		Body: healthy(NetCfg{N: 1, MaxBatch: 1, Limit: 2}, nil, "gvgwdhR", "snger")})
}
