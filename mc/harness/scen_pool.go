package main

import (
	"strconv"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"vrt"
)

// ---- C14: buffers ----------------------------------------------------------------------------

// poolHist is a history of operations on value buffers.
type poolHist struct {
	h    *H
	n    int
	kept []*Call
	open []*Pipe
}

func (s *poolHist) key(size int) string {
	s.n++
	return "b" + strconv.Itoa(size) + "." + strconv.Itoa(s.n)
}

func (s *poolHist) setKey() string {
	s.n++
	return "h" + strconv.Itoa(s.n)
}

func (s *poolHist) get(p *Pipe, size int) *Call {
	return p.Get(s.key(size), memcache.MGetOptions{})
}

func (s *poolHist) set(p *Pipe, size int) *Call {
	k := s.setKey()
	return p.Set(k, sized("S"+k, size), memcache.MSetOptions{})
}

func (s *poolHist) keep(c *Call) {
	if c.Verb == "mg" && c.Err == nil {
		s.kept = append(s.kept, c)
	}
}

// release gives back the value of kept call i.
func (s *poolHist) release(i int) {
	if i < 0 || i >= len(s.kept) {
		return
	}
	c := s.kept[i]
	c.kept = false
	s.kept = append(s.kept[:i:i], s.kept[i+1:]...)
	for j := range c.raw[:cap(c.raw)] {
		c.raw[:cap(c.raw)][j] = '#'
	}
	memcache.ReleaseGetResponseData(c.raw)
}

// scribble overwrites the newest kept value, which its caller owns, up to its capacity.
func (s *poolHist) scribble() {
	if len(s.kept) == 0 {
		return
	}
	c := s.kept[len(s.kept)-1]
	b := c.raw[:cap(c.raw)]
	for j := range b {
		b[j] = '%'
	}
	c.Res.Data = string(c.raw)
}

type poolOp struct {
	name string
	do   func(s *poolHist)
}

func poolOps(small bool) []poolOp {
	var r []poolOp
	add := func(name string, do func(s *poolHist)) { r = append(r, poolOp{name, do}) }
	sizes := []int{1, 63, 64, 65, 128}
	if small {
		sizes = []int{64, 65}
	}
	for _, n := range sizes {
		n := n
		add("get "+strconv.Itoa(n), func(s *poolHist) { s.keep(s.get(s.h.Pipeline(), n).Wait()) })
	}
	if !small {
		add("get 0", func(s *poolHist) { s.keep(s.get(s.h.Pipeline(), 0).Wait()) })
		add("get 129 fast, released", func(s *poolHist) {
			s.h.Pipeline().GetFast(s.key(129), memcache.MGetOptions{}, true).Wait()
		})
		add("set 62", func(s *poolHist) { s.set(s.h.Pipeline(), 62).Wait() })
		add("set 64", func(s *poolHist) { s.set(s.h.Pipeline(), 64).Wait() })
	}
	add("get 64 fast, released", func(s *poolHist) {
		s.h.Pipeline().GetFast(s.key(64), memcache.MGetOptions{}, true).Wait()
	})
	add("set 63", func(s *poolHist) { s.set(s.h.Pipeline(), 63).Wait() })
	add("release oldest", func(s *poolHist) { s.release(0) })
	add("release newest", func(s *poolHist) { s.release(len(s.kept) - 1) })
	add("scribble", func(s *poolHist) { s.scribble() })
	add("release foreign", func(s *poolHist) {
		for _, n := range []int{1, 63, 100, 65, 127, 192} {
			memcache.ReleaseGetResponseData(make([]byte, n, n))
		}
		memcache.ReleaseGetResponseData(nil)
		memcache.ReleaseGetResponseData(make([]byte, 0, 96))
	})
	add("mixed pipeline", func(s *poolHist) {
		p := s.h.Pipeline()
		cs := []*Call{s.get(p, 65), s.set(p, 65), s.get(p, 64), p.Get("n"+s.key(0), memcache.MGetOptions{}), s.set(p, 1), s.get(p, 1), p.Version(), p.Set("e"+s.key(0), "x", memcache.MSetOptions{})}
		for _, c := range cs {
			s.keep(c.Wait())
		}
	})
	add("open pipeline", func(s *poolHist) {
		p := s.h.Pipeline()
		s.get(p, 64)
		s.set(p, 62)
		s.get(p, 65)
		p.Execute()
		vrt.Idle()
		s.open = append(s.open, p)
	})
	add("collect", func(s *poolHist) { s.collect() })
	add("failure within a value", func(s *poolHist) {
		h := s.h
		k := s.key(64)
		h.net.cfg.Raw = func(c *Conn, w *WireCmd) (string, bool) {
			if w.Key != k {
				return "", false
			}
			return cutReply(c, keyReply(w.Verb, w.Key), 40, 0), true
		}
		p := h.Pipeline()
		a := s.get(p, 63)
		b := p.Get(k, memcache.MGetOptions{})
		c := s.set(p, 64)
		s.keep(a.Wait())
		b.Wait()
		c.Wait()
		h.net.cfg.Raw = nil
		vrt.Idle()
	})
	add("malformed", func(s *poolHist) {
		h := s.h
		h.malformed = true
		p := h.Pipeline()
		a := s.get(p, 64)
		b := s.get(p, 63)
		b.reply = &Reply{Text: "VA 64 W\r\n" + sized("bad", 64) + "\r\r", Bad: true}
		c := s.get(p, 65)
		s.keep(a.Wait())
		b.Wait()
		s.keep(c.Wait())
		vrt.Idle()
	})
	return r
}

func (s *poolHist) collect() {
	if len(s.open) == 0 {
		return
	}
	p := s.open[0]
	s.open = s.open[1:]
	for _, c := range p.calls {
		s.keep(c.Wait())
	}
}

func poolHistory(depth int, small bool) func(**H) {
	ops := poolOps(small)
	return func(hp **H) {
		h := OpenQuiet(NetCfg{N: 1, MaxBatch: 4, Limit: 100})
		*hp = h
		vrt.Freeze(true)
		s := &poolHist{h: h}
		for i := 0; i < depth; i++ {
			o := ops[vrt.Choose(len(ops))]
			vrt.Note("operation: %s", o.name)
			o.do(s)
			h.Intact()
		}
		// whatever the pools now hold is handed out again
		p := h.Pipeline()
		for _, n := range []int{64, 64, 65, 65, 64, 65} {
			s.get(p, n)
			s.set(p, n-2)
		}
		for _, c := range p.calls {
			s.keep(c.Wait())
		}
		for len(s.open) > 0 {
			s.collect()
		}
		h.Intact()
		h.Close()
	}
}

func init() {
	register(&Scenario{Name: "pool-history", Own: []string{"C14"}, Props: []string{"C14"}, Liveness: true, LIFO: true, Deep: 2, Shards: 8, TShards: 8, Body: poolHistory(4, false)})
	register(&Scenario{Name: "pool-history-small", Own: []string{"C14"}, Props: []string{"C14"}, Liveness: true, LIFO: true, Deep: 2, Shards: 8, TShards: 8, Body: poolHistory(4, true)})
	register(&Scenario{Name: "pool-history-deep", Own: []string{"C14"}, Props: []string{"C14"}, Liveness: true, LIFO: true, Deep: 2, Shards: 8, Thorough: true, Weight: 3, Body: poolHistory(5, false)})
	register(&Scenario{Name: "pool-history-small-deep", Own: []string{"C14"}, Props: []string{"C14"}, Liveness: true, LIFO: true, Deep: 2, Shards: 8, Thorough: true, Weight: 3, Body: poolHistory(6, true)})
	// every size class: values next to its boundaries, released and handed out again
	register(&Scenario{Name: "pool-classes", Own: []string{"C14"}, Props: []string{"C14", "C10", "C09"}, Liveness: true, LIFO: true, Deep: 1, Shards: 8, MaxSteps: 3000000, MaxTime: 1000 * time.Second, Body: func(hp **H) {
		h := OpenQuiet(NetCfg{N: 1, MaxBatch: 100, Limit: 500}, memcache.WithBufferSize(1<<16))
		*hp = h
		vrt.Freeze(true)
		s := &poolHist{h: h}
		l := vrt.Choose(16)
		d := vrt.Choose(3)
		first := 64<<l + d - 1
		second := 64<<vrt.Choose(16) + 1 - d
		for _, n := range []int{first, second} {
			a := s.get(h.Pipeline(), n).Wait()
			s.keep(a)
			h.Intact()
			s.set(h.Pipeline(), n).Wait()
			h.Intact()
			s.release(len(s.kept) - 1)
			p := h.Pipeline()
			cs := []*Call{s.get(p, n), s.set(p, n-1), s.get(p, n-1)}
			for _, c := range cs {
				s.keep(c.Wait())
			}
			h.Intact()
			s.release(0)
		}
		h.Intact()
		h.Close()
	}})
	// two users of the same size class
	register(&Scenario{Name: "pool-schedules", Props: []string{"C14"}, Also: []string{"C17"}, P: 2, TP: 3, Liveness: true, LIFO: true, Deep: 1, Shards: 4, TShards: 8, Weight: 2, Body: func(hp **H) {
		h := OpenQuiet(NetCfg{N: 1, MaxBatch: 2, Limit: 3})
		*hp = h
		a := user("user0", func() {
			s := &poolHist{h: h, n: 100}
			p := h.Pipeline()
			x, y := s.get(p, 64), s.set(p, 62)
			s.keep(x.Wait())
			y.Wait()
			s.release(0)
			s.keep(s.get(h.Pipeline(), 63).Wait())
			h.Intact()
		})
		b := user("user1", func() {
			s := &poolHist{h: h, n: 200}
			p := h.Pipeline()
			x, y := s.set(p, 60), s.get(p, 50)
			y.Wait()
			x.Wait()
			s.keep(y)
			h.Intact()
		})
		join(a, b)
		vrt.Freeze(true)
		vrt.Idle()
		h.Delivered()
		h.Intact()
		h.Close()
	}})
	// two users of two connections, one of which fails within a value
	register(&Scenario{Name: "pool-faults", Props: []string{"C14", "C04"}, Also: []string{"C17"}, P: 1, F: 1, TP: 2, Liveness: true, LIFO: true, Deep: 1, Shards: 4, TShards: 8, Weight: 2, Body: func(hp **H) {
		h := OpenQuiet(NetCfg{N: 2, MaxBatch: 2, Limit: 3, Faults: WriteErr | ReadErr | ReadEOF | ReadOne | ReadDataEOF})
		*hp = h
		a := user("user0", func() {
			s := &poolHist{h: h, n: 100}
			p := h.Pipeline()
			x, y, z := s.get(p, 64), s.set(p, 62), s.get(p, 62)
			s.keep(x.Wait())
			y.Wait()
			s.keep(z.Wait())
			h.Intact()
		})
		b := user("user1", func() {
			s := &poolHist{h: h, n: 200}
			p := h.Pipeline()
			x, y := s.set(p, 60), s.get(p, 50)
			y.Wait()
			x.Wait()
			s.keep(y)
			h.Intact()
		})
		join(a, b)
		vrt.Freeze(true)
		h.Intact()
		h.Recover(5 * time.Second)
		h.Intact()
		h.Close()
	}})
}
