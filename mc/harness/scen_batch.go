package main

import (
	"strconv"

	"github.com/QuangTung97/go-memcache/memcache"
	"vrt"
)

// ---- C23: batching ----------------------------------------------------------------------------------

// group is what one Execute publishes.
type group struct {
	calls []*Call
	ended int // writes that had returned by then
}

// batching watches the writes of one connection.
type batching struct {
	h     *H
	c     *Conn
	limit int // all groups are single commands if there is one

	groups       []*group
	begun, ended int // writes
	sent         int // commands
	done         int // commands whose result the user has
	doneBefore   int // the same, when the last write ended
	sizes        []int
}

func openBatching(hp **H, cfg NetCfg, opts ...memcache.Option) *batching {
	cfg.N = 1
	b := &batching{limit: cfg.Limit}
	cfg.Wrote = func(c *Conn, p []byte, returns bool) {
		if returns {
			b.ended++
			b.doneBefore = b.done
			return
		}
		b.wrote(c, p)
	}
	b.h = OpenQuiet(cfg, opts...)
	b.c = b.h.net.conns[0]
	*hp = b.h
	return b
}

// publish executes the pipeline.
func (b *batching) publish(p *Pipe, calls ...*Call) {
	p.Execute()
	vrt.Enter()
	defer vrt.Leave()
	vrt.Event(&b.c.o, 0xba7c4)
	b.groups = append(b.groups, &group{calls: calls, ended: b.ended})
}

// collect waits for the results.
func (b *batching) collect(calls ...*Call) {
	for _, c := range calls {
		c.Wait()
		vrt.Enter()
		vrt.Event(&b.c.o, 0xd02e)
		b.done++
		vrt.Leave()
	}
}

// wrote judges a write that has just arrived.
func (b *batching) wrote(c *Conn, p []byte) {
	k := b.begun
	b.begun++
	b.sizes = append(b.sizes, len(p))
	if len(p) == 0 {
		b.h.fail("C23", "a write of nothing")
	}
	b.sent = len(c.cmds)
	for _, g := range b.groups {
		n := 0
		for _, d := range g.calls {
			if d.sent != nil {
				n++
			}
		}
		if n == len(g.calls) {
			continue
		}
		if n > 0 && b.limit == 0 {
			b.h.fail("C23", "write "+strconv.Itoa(k)+" ends within the commands of one Execute, after "+strconv.Itoa(n)+" of "+strconv.Itoa(len(g.calls)))
		}
		if g.ended >= k || b.limit > 0 && b.sent-b.doneBefore+1 > b.limit {
			continue
		}
		b.h.fail("C23", g.calls[0].String()+" was waiting when write "+strconv.Itoa(k-1)+" ended and is not in the next one")
	}
}

// user publishes groups of the given numbers of commands, then collects all results.
func (b *batching) user(t int, sizes ...int) {
	var all []*Call
	for i, n := range sizes {
		p := b.h.Pipeline()
		var l []*Call
		for j := 0; j < n; j++ {
			if (i+j+t)%2 == 0 {
				l = append(l, p.Any('d', key('v', t, 10*i+j)))
			} else {
				l = append(l, p.Any('s', key('v', t, 10*i+j)))
			}
		}
		b.publish(p, l...)
		all = append(all, l...)
	}
	b.collect(all...)
}

// burst publishes values of all sizes while the client is at rest.
func burst(depth, rounds int) func(**H) {
	sizes := []int{0, 1, 60, 100, 200, 300, 700}
	const buf = 256
	return func(hp **H) {
		b := openBatching(hp, NetCfg{MaxBatch: 2}, memcache.WithBufferSize(buf))
		b.limit = 1 << 30 // commands may be cut between writes
		vrt.Freeze(true)
		var calls []*Call
		id := 0
		cmd := func(p *Pipe) {
			k := vrt.Choose(len(sizes) + 1)
			id++
			if k == len(sizes) {
				calls = append(calls, p.Get("g"+strconv.Itoa(id), memcache.MGetOptions{}))
				return
			}
			calls = append(calls, p.Set("h"+strconv.Itoa(id), sized("v", sizes[k]), memcache.MSetOptions{}))
		}
		for r := 0; r < rounds; r++ {
			p := b.h.Pipeline()
			for i := 0; i < depth; i++ {
				cmd(p)
			}
			vrt.Idle()
			b.sizes = nil
			p.Execute()
			vrt.Idle()
			for i, n := range b.sizes {
				if i > 0 && b.sizes[i-1]+n <= buf {
					b.h.fail("C23", "writes of "+strconv.Itoa(b.sizes[i-1])+" and "+strconv.Itoa(n)+" bytes follow each other, although the buffer has room for "+strconv.Itoa(buf))
				}
			}
		}
		for _, c := range calls {
			c.Wait()
		}
		b.h.Close()
	}
}

func init() {
	users := func(name string, p, tp, limit int, shape ...[]int) {
		register(&Scenario{Name: name, Own: []string{"C23"}, Props: []string{"C23"}, P: p, TP: tp, Liveness: true, LIFO: true, Deep: 1, Shards: 8, TShards: 8, Body: func(hp **H) {
			b := openBatching(hp, NetCfg{MaxBatch: 2, Limit: limit})
			var ts []*vrt.Thread
			for i, s := range shape {
				i, s := i, s
				ts = append(ts, user("user", func() { b.user(i, s...) }))
			}
			join(ts...)
			b.h.CloseQuiet()
		}})
	}
	users("batching-two", 2, 3, 0, []int{1, 2}, []int{1})
	users("batching-three", 1, 2, 0, []int{1}, []int{1}, []int{1})
	users("batching-long", 1, 2, 0, []int{5, 1}, []int{1, 3})
	users("batching-many", 1, 2, 0, []int{1, 1}, []int{1, 1}, []int{1})
	users("batching-limit-2", 1, 2, 2, []int{1, 1, 1, 1}, []int{1, 1})
	users("batching-limit-3", 1, 2, 3, []int{1, 1, 1}, []int{1, 1, 1})
	// many pipelines wait at once
	register(&Scenario{Name: "batching-burst", Own: []string{"C23"}, Props: []string{"C23"}, Liveness: true, LIFO: true, Shards: 4, TShards: 8, Body: func(hp **H) {
		b := openBatching(hp, NetCfg{MaxBatch: 2}, memcache.WithBufferSize(64<<10))
		vrt.Freeze(true)
		n := []int{3, 10, 30, 60, 100}[vrt.Choose(5)]
		size := 1 + vrt.Choose(4)
		if size > 2 && n > 60 {
			n = 60
		}
		odd := vrt.Choose(4) // every so manyth is of another size
		if odd > 0 {
			n = min(n, 60)
		}
		var all []*Call
		for r := 0; r < 3; r++ {
			for i := 0; i < n; i++ {
				p := b.h.Pipeline()
				k := size
				if odd > 0 && i%(odd+1) == odd {
					k = 3 - size/2
				}
				var l []*Call
				for j := 0; j < k; j++ {
					l = append(l, p.Any("dgs"[(i+j)%3], key('v', r, 100*i+j)))
				}
				b.publish(p, l...)
				all = append(all, l...)
			}
			vrt.Idle()
		}
		b.collect(all...)
		b.h.Close()
	}})
	for _, v := range []struct {
		depth, rounds int
		thorough      bool
	}{{2, 2, false}, {3, 1, false}, {3, 2, true}, {5, 1, true}} {
		register(&Scenario{Name: "batching-sizes-" + strconv.Itoa(v.depth) + "-" + strconv.Itoa(v.rounds), Own: []string{"C23"}, Props: []string{"C23"}, Liveness: true, LIFO: true, Shards: 8, TShards: 8, Thorough: v.thorough, Body: burst(v.depth, v.rounds)})
	}
}
