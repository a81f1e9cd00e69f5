package main

import (
	"errors"
	"strconv"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"vrt"
)

// Reconnects checks the redial protocol of a client with one slot: an immediate redial after a
// failure, one attempt per retry duration while dialling fails, every dial error logged.
func (h *H) Reconnects() {
	vrt.Enter()
	defer vrt.Leave()
	n := h.net
	var errs []error
	for i, d := range n.dials {
		if d.err != nil {
			errs = append(errs, d.err)
		}
		if i == 0 {
			continue
		}
		p := n.dials[i-1]
		switch {
		case p.err != nil && d.start != p.end+h.retry():
			h.fail("C05", "dial #"+strconv.Itoa(i)+" began "+time.Duration(d.start-p.end).String()+" after dial #"+strconv.Itoa(i-1)+" had failed")
		case p.conn != nil && p.conn.failed && d.start != p.conn.errAt && !h.malformed:
			h.fail("C05", "dial #"+strconv.Itoa(i)+" began "+time.Duration(d.start-p.conn.errAt).String()+" after its connection had failed")
		}
	}
	if k := len(n.dials) - 1; k >= 0 && !h.closed {
		p := n.dials[k]
		if p.err != nil && vrt.PeekNow() > p.end+h.retry() {
			h.fail("C05", "no further dial after dial #"+strconv.Itoa(k)+" failed")
		}
		if p.conn != nil && p.conn.failed {
			h.fail("C05", "no redial after connection "+strconv.Itoa(p.conn.id)+" failed")
		}
	}
	for _, c := range n.conns {
		if c.failed && (!c.closed || c.closedAt != c.errAt) {
			h.fail("C05", "connection "+strconv.Itoa(c.id)+" failed but was not closed at once")
		}
	}
	if len(errs) != len(h.logged) {
		h.fail("C05", strconv.Itoa(len(errs))+" dials failed, "+strconv.Itoa(len(h.logged))+" errors logged")
		return
	}
	for i, e := range errs {
		if !errors.Is(h.logged[i], e) {
			h.fail("C05", "dial error "+e.Error()+" logged as "+h.logged[i].Error())
		}
	}
}

// faultyRec is faulty with a check of the redial protocol.
func faultyRec(cfg NetCfg, opts []memcache.Option, progs ...string) func(**H) {
	return func(hp **H) {
		h := OpenQuiet(cfg, opts...)
		*hp = h
		h.users(progs...)
		vrt.Freeze(true)
		vrt.Idle()
		h.Reconnects()
		h.Recover(5 * time.Second)
		h.Reconnects()
		h.Close()
		h.AfterClose(2)
	}
}

// cuts are the ways a connection ends in the middle of a reply.
const nCuts = 3

// cutReply makes the reply of w end after k bytes and the connection fail in the given way.
func cutReply(c *Conn, full string, k, way int) string {
	switch way {
	case 0:
		c.eof = true
	case 1:
		c.err = &netErr{msg: "reset after reply on conn " + strconv.Itoa(c.id)}
	case 2:
		c.silentAfter = true
	}
	c.n.faulty = true
	return full[:k]
}

func init() {
	fp := []string{"C03", "C04", "C05", "C02", "C01"}
	one := NetCfg{N: 1, MaxBatch: 100, Limit: 500, Faults: allFaults}
	small := NetCfg{N: 1, MaxBatch: 1, Limit: 2, Faults: allFaults}
	register(&Scenario{Name: "faults-two-users", Props: append([]string{"C17"}, fp...), P: 1, F: 1, TP: 2, TF: 1, TShards: 8, Liveness: true, LIFO: true, Weight: 2,
		Body: faultyRec(one, nil, "gvshr", "gVr")})
	register(&Scenario{Name: "faults-batches", Props: append([]string{"C07"}, fp...), P: 1, F: 1, TP: 2, TF: 1, Shards: 2, TShards: 8, Liveness: true, LIFO: true, Weight: 3,
		Body: faultyRec(small, nil, "gvshgnr", "snr")})
	register(&Scenario{Name: "faults-pairs", Props: fp, P: 0, F: 2, TP: 0, TF: 3, Shards: 4, TShards: 8, Liveness: true, LIFO: true, Weight: 3,
		Body: faultyRec(NetCfg{N: 1, MaxBatch: 2, Limit: 3, Faults: allFaults}, nil, "gvshgHrgvr")})
	register(&Scenario{Name: "faults-history", Props: fp, P: 0, F: 3, TF: 4, Shards: 4, TShards: 8, Liveness: true, LIFO: true, Weight: 3, MaxTime: 200 * time.Second,
		Body: func(hp **H) {
			h := OpenQuiet(NetCfg{N: 1, MaxBatch: 2, Limit: 2, Faults: allFaults &^ ReadOne})
			*hp = h
			vrt.Freeze(true)
			for i := 0; i < 3; i++ {
				h.script(i, "gvshr")
				if vrt.Choose(2) == 1 { // the next call comes at once, or after the client settled and tried to reconnect
					vrt.Idle()
					vrt.SleepUntil(vrt.Now() + int64(6*time.Second))
				}
			}
			vrt.Idle()
			h.Reconnects()
			h.Recover(5 * time.Second)
			h.Reconnects()
			h.Close()
		}})
	// a connection that fails at every byte of the replies
	register(&Scenario{Name: "faults-bytewise", Props: []string{"C04", "C03", "C05", "C10", "C01"}, P: 0, F: 1, TF: 2, TShards: 8, Liveness: true, LIFO: true,
		Body: faultyRec(NetCfg{N: 1, MaxBatch: 2, Limit: 3, Chunk: 1, Faults: ReadErr | ReadEOF | ReadStall | ReadDataEOF}, nil, "gvshgXrgvr")})
	// failures stay on their connection
	register(&Scenario{Name: "faults-pool", Props: []string{"C04", "C03", "C05", "C16"}, Also: []string{"C17"}, P: 2, F: 1, TP: 3, TF: 1, Delay: true, Shards: 3, TShards: 8, Liveness: true, LIFO: true, Weight: 3,
		Body: faulty(NetCfg{N: 2, MaxBatch: 1, Limit: 2, Faults: allFaults}, nil, "gvshrgvr", "gVsnr")})
	// calls behind a stalled or silent peer, with full windows
	stalls := faultyRec(NetCfg{N: 1, MaxBatch: 1, Limit: 1, Faults: ReadStall | WriteStall}, nil, "gvgvgvr", "shr")
	register(&Scenario{Name: "stalls", Props: []string{"C03"}, Also: []string{"C04", "C07", "C17"}, P: 1, F: 1, TP: 2, TF: 2, Deep: 1, Shards: 4, TShards: 8, Liveness: true, LIFO: true, Weight: 2, Body: stalls})
	register(&Scenario{Name: "stalls-twice", Props: []string{"C03"}, P: 0, F: 2, Deep: 1, Shards: 2, Liveness: true, LIFO: true, Weight: 2, Body: stalls})
	// hundreds of batches in flight fill every internal queue, then the connection fails in some way
	fill := func(n, limit int, faults int) func(**H) {
		return func(hp **H) {
			h := OpenQuiet(NetCfg{N: 1, MaxBatch: 1, Limit: limit, Hold: true, Faults: faults})
			*hp = h
			vrt.Freeze(true)
			p := h.Pipeline()
			for i := 0; i < n; i++ {
				p.Any('g', key('v', 0, i))
			}
			p.Execute()
			q := h.Pipeline()
			q.Any('s', key('h', 1, 0))
			q.Execute()
			way := vrt.Choose(5)
			vrt.Idle()
			c := h.net.conns[0]
			switch way {
			case 1: // the server answers some, then resets
				h.net.Release(c, 3)
				vrt.Idle()
				c.Reset()
			case 2:
				c.PeerClose()
			case 3: // some answers, then silence
				h.net.Release(c, 130)
			case 4: // everything is answered
				h.net.cfg.Hold = false
				h.net.Release(c, -1)
			}
			vrt.Idle()
			for i, c := range p.calls {
				if i%50 == 0 || i > n-3 {
					c.Wait()
				}
			}
			q.calls[0].Wait()
			h.net.cfg.Hold = false
			h.Recover(5 * time.Second)
			h.Close()
		}
	}
	register(&Scenario{Name: "fill-queues", Props: []string{"C03", "C06", "C04", "C07"}, P: 0, F: 0, MaxTime: 1000 * time.Second, Liveness: true, MaxSteps: 2000000, Weight: 5, Body: func(hp **H) {
		n := []int{120, 127, 128, 129, 255, 256, 257, 300, 383, 384, 385, 386, 420, 520}[vrt.Choose(14)]
		fill(n, []int{500, 1000, 3}[vrt.Choose(3)], 0)(hp)
	}})
	register(&Scenario{Name: "fill-stall", Props: []string{"C03", "C04"}, P: 0, F: 1, MaxTime: 1000 * time.Second, Liveness: true, MaxSteps: 2000000, Weight: 5, Shards: 2, Body: fill(400, 500, WriteStall|WriteErr)})
	// the connection ends within a reply: every cut of several replies, ended by EOF, reset or silence
	register(&Scenario{Name: "cut-replies", Props: []string{"C04", "C05", "C01", "C03", "C10"}, P: 0, F: 0, Liveness: true, LIFO: true, Deep: 2, Shards: 4, TShards: 4, Body: func(hp **H) {
		h := OpenQuiet(NetCfg{N: 1, MaxBatch: 2, Limit: 3})
		*hp = h
		vrt.Freeze(true)
		for round := 0; round < 2; round++ {
			at := vrt.Choose(3) // which command of the pipeline
			vs := []string{"gv", "gX", "gH", "ge", "gz", "sh", "sf", "se", "dh", "dn"}
			way := 0
			if round > 0 {
				vs = []string{"gX", "sh"}
			} else {
				way = vrt.Choose(nCuts)
			}
			v := vs[vrt.Choose(len(vs))]
			verb, st := v[0], v[1]
			k := key(st, 10+round, at)
			cut := -1
			h.net.cfg.Raw = func(c *Conn, w *WireCmd) (string, bool) {
				if w.Key != k {
					return "", false
				}
				full := keyReply(w.Verb, w.Key)
				cut = vrt.Choose(len(full))
				return cutReply(c, full, cut, way), true
			}
			p := h.Pipeline()
			var cs []*Call
			for i := 0; i < 4; i++ {
				if i == at {
					cs = append(cs, p.Any(verb, k))
				} else {
					cs = append(cs, p.Any("gsdg"[i], key('v', 10+round, i)))
				}
			}
			for _, c := range cs {
				c.Wait()
			}
			h.net.cfg.Raw = nil
			vrt.Idle()
			h.Reconnects()
		}
		h.Recover(5 * time.Second)
		h.Close()
	}})
}
