package main

import (
	"errors"
	"strconv"
	"strings"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"vrt"
)

// ---- C09: requests -------------------------------------------------------------------------

type cmdForm struct {
	verb string
	val  string
	g    memcache.MGetOptions
	s    memcache.MSetOptions
	d    memcache.MDelOptions
	fast bool
}

func (f *cmdForm) issue(p *Pipe, key string) *Call {
	switch f.verb {
	case "mg":
		if f.fast {
			return p.GetFast(key, f.g, true)
		}
		return p.Get(key, f.g)
	case "ms":
		return p.Set(key, f.val, f.s)
	case "md":
		return p.Del(key, f.d)
	case "version":
		return p.Version()
	}
	return p.Flush()
}

var num32 = []uint32{0, 1, 9, 10, 99, 100, 4294967295}
var num64 = []uint64{0, 1, 10, 18446744073709551615}

func pat(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i/256 + 13)
	}
	return string(b)
}

// forms is the alphabet of requests used in pairs.
func forms() []cmdForm {
	var r []cmdForm
	for i, n := range num32 {
		for _, c := range []bool{false, true} {
			r = append(r, cmdForm{verb: "mg", g: memcache.MGetOptions{N: n, CAS: c}, fast: i%2 == 1})
		}
	}
	for i, v := range []string{"", "a", "\r\n", "mg x v\r\n", pat(62), pat(63), pat(300)} {
		for k, c := range num64 {
			t := num32[(i+k*2)%len(num32)]
			r = append(r, cmdForm{verb: "ms", val: v, s: memcache.MSetOptions{CAS: c, TTL: t}})
			r = append(r, cmdForm{verb: "ms", val: v, s: memcache.MSetOptions{CAS: c}})
		}
	}
	for _, c := range num64 {
		for _, i := range []bool{false, true} {
			for _, t := range []uint32{0, 1, 4294967295} {
				r = append(r, cmdForm{verb: "md", d: memcache.MDelOptions{CAS: c, I: i, TTL: t}})
			}
		}
	}
	return append(r, cmdForm{verb: "version"}, cmdForm{verb: "flush_all"})
}

// around lists the numbers next to powers of two and ten.
func around(max uint64) []uint64 {
	var r []uint64
	add := func(x uint64) {
		for d := uint64(0); d < 3; d++ {
			if x+d-1 <= max && (x > 0 || d > 0) {
				r = append(r, x+d-1)
			}
		}
	}
	add(0)
	for x := uint64(2); x != 0 && x <= max; x *= 2 {
		add(x)
	}
	for x, i := uint64(10), 0; i < 19 && x <= max; x, i = x*10, i+1 {
		add(x)
		add(x * 5)
	}
	add(max)
	return r
}

// runAll issues the forms in one pipeline, collects all, and checks the wire.
func (h *H) runAll(fs []cmdForm, key func(i int) string) {
	p := h.Pipeline()
	var cs []*Call
	for i := range fs {
		cs = append(cs, fs[i].issue(p, key(i)))
	}
	for _, c := range cs {
		c.Wait()
	}
	h.inputs++
	h.Delivered()
	// forget: the ledger of this round is complete
	for _, c := range h.net.conns {
		if len(c.in) > 0 {
			h.fail("C09,C02", "incomplete command left on the wire: "+strconv.Quote(string(c.in)))
		}
		c.wire = nil
		c.cmds = nil
	}
	h.Intact()
	h.calls = nil
	h.pipes = nil
	h.net.activity = nil
}

func init() {
	buf := func(n int) []memcache.Option { return []memcache.Option{memcache.WithBufferSize(n)} }
	// every pair (and with a fixed middle: every position) of request forms, batch sizes 1..3, two write buffers
	register(&Scenario{Name: "encode-pairs", Own: []string{"C09"}, Props: []string{"C09", "C02", "C12"}, Liveness: true, LIFO: true, MaxSteps: 5000000, Shards: 4, TShards: 8, Weight: 2, Body: func(hp **H) {
		fs := forms()
		mb := 1 + vrt.Choose(3)
		bs := []int{16, 4096}[vrt.Choose(2)]
		a := vrt.Choose(len(fs))
		h := OpenQuiet(NetCfg{N: 1, MaxBatch: mb, Limit: 500}, buf(bs)...)
		*hp = h
		vrt.Freeze(true)
		for b := range fs {
			tail := []cmdForm{fs[a], fs[b], {verb: "mg"}}
			if b%2 == 1 {
				tail = append(tail, fs[(a+b)%len(fs)], fs[a])
			}
			h.runAll(tail, func(i int) string { return key('v', a, b*10+i) })
		}
		h.Close()
	}})
	// every option with every boundary number, alone
	register(&Scenario{Name: "encode-numbers", Own: []string{"C09"}, Props: []string{"C09"}, Liveness: true, LIFO: true, MaxSteps: 5000000, Shards: 2, Body: func(hp **H) {
		which := vrt.Choose(6)
		h := OpenQuiet(NetCfg{N: 1, MaxBatch: 2, Limit: 500})
		*hp = h
		vrt.Freeze(true)
		max := uint64(4294967295)
		if which == 2 || which == 4 {
			max = 18446744073709551615
		}
		for i, n := range around(max) {
			var f cmdForm
			switch which {
			case 0:
				f = cmdForm{verb: "mg", g: memcache.MGetOptions{N: uint32(n)}}
			case 1:
				f = cmdForm{verb: "ms", val: "x", s: memcache.MSetOptions{TTL: uint32(n)}}
			case 2:
				f = cmdForm{verb: "ms", val: "x", s: memcache.MSetOptions{CAS: n, TTL: 5}}
			case 3:
				f = cmdForm{verb: "md", d: memcache.MDelOptions{I: true, TTL: uint32(n)}}
			case 4:
				f = cmdForm{verb: "md", d: memcache.MDelOptions{CAS: n}}
			case 5:
				f = cmdForm{verb: "md", d: memcache.MDelOptions{TTL: uint32(n)}} // ignored without I
			}
			h.runAll([]cmdForm{f, {verb: "mg"}}, func(k int) string { return key('v', i, k) })
		}
		h.Close()
	}})
	// values of every length around the buffer and pool boundaries, every byte value, keys of every length
	register(&Scenario{Name: "encode-values", Own: []string{"C09"}, Props: []string{"C09", "C14", "C02"}, Liveness: true, LIFO: true, MaxSteps: 5000000, Shards: 4, TShards: 8, Weight: 2, Body: func(hp **H) {
		bs := []int{1, 64, 4096, 16384}[vrt.Choose(4)]
		which := vrt.Choose(5)
		h := OpenQuiet(NetCfg{N: 1, MaxBatch: 2, Limit: 500}, buf(bs)...)
		*hp = h
		vrt.Freeze(true)
		set := func(i int, v string) {
			h.runAll([]cmdForm{{verb: "ms", val: v}, {verb: "mg"}, {verb: "ms", val: "t" + v}}, func(k int) string { return key('v', i, k) })
		}
		switch which {
		case 0:
			for n := 0; n <= 320; n++ {
				set(n, pat(n))
			}
		case 1:
			for k := 9; k <= 21; k++ {
				for d := -3; d <= 3; d++ {
					if bs >= 4096 || k < 14 {
						set(k*10+d, pat(1<<k+d))
					}
				}
			}
		case 2:
			for b := 0; b < 256; b++ {
				set(b, string([]byte{byte(b)}))
				set(300+b, string([]byte{'x', byte(b), '\n'}))
			}
		case 3: // keys
			for n := 1; n <= 250; n++ {
				for _, f := range []cmdForm{{verb: "mg", g: memcache.MGetOptions{CAS: true, N: 3}}, {verb: "ms", val: "w"}, {verb: "md", d: memcache.MDelOptions{I: true, TTL: 9}}} {
					h.runAll([]cmdForm{f, f}, func(k int) string { return strings.Repeat(string("v~!"[k]), n) })
				}
			}
		case 4: // many sets in one batch and over batches
			for n := 1; n <= 40; n++ {
				var fs []cmdForm
				for i := 0; i < n; i++ {
					fs = append(fs, cmdForm{verb: "ms", val: pat(i * 11)})
					if i%3 == 0 {
						fs = append(fs, cmdForm{verb: "mg"})
					}
				}
				h.runAll(fs, func(k int) string { return key('v', n, k) })
			}
		}
		h.Close()
	}})
	// ---- C12: keys
	register(&Scenario{Name: "keys", Own: []string{"C12"}, Props: []string{"C12"}, Liveness: true, LIFO: true, MaxSteps: 20000000, Shards: 4, TShards: 8, Weight: 2, Body: func(hp **H) {
		verb := vrt.Choose(4)
		which := vrt.Choose(4)
		slice := 0
		if which == 1 {
			slice = vrt.Choose(8)
		}
		h := OpenQuiet(NetCfg{N: 1, MaxBatch: 2, Limit: 500})
		*hp = h
		vrt.Freeze(true)
		n := 0
		try := func(k string) {
			n++
			h.inputs++
			p := h.Pipeline()
			var a, b *Call
			if n%4 < 2 {
				a = p.Get(key('v', n, 0), memcache.MGetOptions{CAS: true})
			}
			err, fin := rawIssue(p, verb, k)
			if n%4 != 0 {
				b = p.Set(key('h', n, 1), "q", memcache.MSetOptions{})
			}
			if err == nil {
				err = fin()
			} else if e2 := fin(); e2 != nil && !errors.Is(e2, err) {
				h.fail("C12", "key "+strconv.Quote(k)+": first "+err.Error()+", then "+e2.Error())
			}
			checkKey(h, k, err)
			if a != nil {
				a.Wait()
			}
			if b != nil {
				b.Wait()
			}
			p.Finish()
			h.Delivered()
			h.calls, h.pipes, h.net.activity = nil, nil, nil
			h.net.conns[0].cmds, h.net.conns[0].wire = nil, nil
		}
		switch which {
		case 0: // one byte, and every length
			for b := 0; b < 256; b++ {
				try(string([]byte{byte(b)}))
			}
			for l := 0; l <= 270; l++ {
				try(strings.Repeat("k", l))
			}
			for _, l := range []int{300, 500, 1000, 65536} {
				try(strings.Repeat("k", l))
			}
		case 1: // every two bytes
			for a := slice * 32; a < slice*32+32; a++ {
				for b := 0; b < 256; b++ {
					try(string([]byte{byte(a), byte(b)}))
				}
			}
		case 2: // every byte at first, middle and last position of several lengths
			for _, l := range []int{3, 4, 100, 249, 250, 251} {
				for b := 0; b < 256; b++ {
					for _, at := range []int{0, l / 2, l - 1} {
						k := []byte(strings.Repeat("k", l))
						k[at] = byte(b)
						try(string(k))
					}
				}
			}
		case 3: // runes of more than one byte
			for _, r := range []rune{0x80, 0x85, 0xa0, 0xe9, 0x7ff, 0x800, 0x2028, 0x3000, 0xfeff, 0xfffd, 0x10000, 0x10ffff} {
				for l := 0; l <= 2; l++ {
					try(strings.Repeat("k", l) + string(r))
					try(string(r) + strings.Repeat("k", l))
				}
				for l := 244; l <= 252; l++ {
					try(strings.Repeat("k", l) + string(r))
				}
			}
		}
		h.Close()
	}})
	// ---- C13: sequences of pipeline operations
	register(&Scenario{Name: "pipeline-ops", Own: []string{"C13"}, Props: []string{"C13", "C01", "C02", "C03"}, Liveness: true, LIFO: true, Shards: 8, TShards: 8, Deep: 1, Weight: 2, P: 0, Body: pipelineOps(6, "gsdxf")})
	register(&Scenario{Name: "pipeline-ops-deep", Own: []string{"C13"}, Props: []string{"C13"}, Liveness: true, LIFO: true, Shards: 8, Deep: 1, Thorough: true, Weight: 4, Body: pipelineOps(8, "gsxf")})
	register(&Scenario{Name: "pipeline-ops-kinds", Own: []string{"C13"}, Props: []string{"C13"}, Liveness: true, LIFO: true, Shards: 4, TShards: 8, Weight: 2, Body: pipelineOps(5, "GVFEixf")})
}

func rawIssue(p *Pipe, verb int, k string) (error, func() error) {
	vrt.Enter()
	valid := keyOK(k)
	vrt.Leave()
	mk := func(verb, enc string) {
		if valid {
			p.add(verb, k, enc).flush = true
		}
	}
	switch verb {
	case 0:
		mk("mg", "mg "+k+" v\r\n")
		f := p.p.MGet(k, memcache.MGetOptions{})
		return nil, func() error { _, err := f(); return err }
	case 1:
		mk("mg", "mg "+k+" N1 v\r\n")
		f, err := p.p.MGetFast(k, memcache.MGetOptions{N: 1})
		if err != nil {
			return err, func() error { return nil }
		}
		return nil, func() error { _, err := f.Result(); return err }
	case 2:
		mk("ms", "ms "+k+" 2\r\nxy\r\n")
		f := p.p.MSet(k, []byte("xy"), memcache.MSetOptions{})
		return nil, func() error { _, err := f(); return err }
	}
	mk("md", "md "+k+"\r\n")
	f := p.p.MDel(k, memcache.MDelOptions{})
	return nil, func() error { _, err := f(); return err }
}

func keyOK(k string) bool {
	if len(k) == 0 || len(k) > 250 {
		return false
	}
	for i := 0; i < len(k); i++ {
		if k[i] <= 32 || k[i] >= 127 {
			return false
		}
	}
	return true
}

func checkKey(h *H, k string, err error) {
	q := strconv.Quote(k)
	if len(k) > 20 {
		q = strconv.Quote(k[:10]) + "... of " + strconv.Itoa(len(k)) + " bytes"
	}
	bad := false
	for i := 0; i < len(k); i++ {
		bad = bad || k[i] <= 32 || k[i] >= 127
	}
	isServer := err != nil && memcache.IsServerError(err)
	switch {
	case keyOK(k):
		if err != nil && !(isServer && k[0] == 'e') {
			h.fail("C12", "valid key "+q+" refused: "+err.Error())
		}
	case len(k) == 0:
		if !errors.Is(err, memcache.ErrKeyEmpty) {
			h.fail("C12", "empty key: "+errText(err))
		}
	case bad && len(k) > 250:
		if !errors.Is(err, memcache.ErrKeyTooLong) && !errors.Is(err, memcache.ErrInvalidKeyFormat) {
			h.fail("C12", "key "+q+": "+errText(err))
		}
	case bad:
		if !errors.Is(err, memcache.ErrInvalidKeyFormat) {
			h.fail("C12", "key "+q+": "+errText(err))
		}
	default:
		if !errors.Is(err, memcache.ErrKeyTooLong) {
			h.fail("C12", "key "+q+": "+errText(err))
		}
	}
}

// ---- C13 -----------------------------------------------------------------------------------

// store is the reference memcached: one key.
type store struct {
	has bool
	val string
	cas uint64
}

func (s *store) get() Res {
	if !s.has {
		return Res{Typ: int(memcache.MGetResponseTypeEN)}
	}
	return Res{Typ: int(memcache.MGetResponseTypeVA), Data: s.val, CAS: s.cas}
}

func (s *store) set(v string) Res {
	s.cas++
	s.has, s.val = true, v
	return Res{Typ: int(memcache.MSetResponseTypeHD)}
}

func (s *store) del() Res {
	if !s.has {
		return Res{Typ: int(memcache.MDelResponseTypeNF)}
	}
	s.has = false
	return Res{Typ: int(memcache.MDelResponseTypeHD)}
}

type opCall struct {
	name string
	raw  string
	fn   func() (Res, error)
	want Res
	got  bool
	sess int
}

// pipelineOps enumerates sequences of pipeline operations against a reference pipeline over a
// reference memcached.
func pipelineOps(depth int, alphabet string) func(**H) {
	return func(hp **H) {
		mb := 1 + vrt.Choose(2)
		cfg := NetCfg{N: 1, MaxBatch: mb, Limit: 3}
		server, ref := &store{}, &store{}
		var wire []string
		nver := 0
		cfg.Raw = func(c *Conn, w *WireCmd) (string, bool) {
			wire = append(wire, w.Raw)
			if w.Key == "e" {
				return "SERVER_ERROR no\r\n", true
			}
			switch w.Verb {
			case "mg":
				r := server.get()
				if r.Typ == int(memcache.MGetResponseTypeEN) {
					return "EN\r\n", true
				}
				return "VA " + strconv.Itoa(len(r.Data)) + " c" + itoa(r.CAS) + "\r\n" + r.Data + "\r\n", true
			case "ms":
				server.set(w.Val)
				return "HD\r\n", true
			case "md":
				if server.del().Typ == int(memcache.MDelResponseTypeNF) {
					return "NF\r\n", true
				}
				return "HD\r\n", true
			case "version":
				nver++
				return "VERSION v" + strconv.Itoa(nver) + "\r\n", true
			case "flush_all":
				server.has = false
				return "OK\r\n", true
			}
			return "ERROR\r\n", true
		}
		h := OpenQuiet(cfg)
		*hp = h
		h.relaxErr = true
		vrt.Freeze(true)
		p := h.cl.Pipeline()
		var cs []*opCall
		var issued []string // in issue order
		must := 0           // commands that must have been sent
		pend := 0           // first pending command of the current session
		refVer := 0
		sess := 0
		published := false
		trail := ""
		bad := func(s string) { h.fail("C13", "after "+trail+": "+s) }
		add := func(name, raw string, want Res, fn func() (Res, error)) {
			if published { // a command after Execute opens a new session
				published = false
				sess++
				pend = len(issued)
			}
			issued = append(issued, raw)
			cs = append(cs, &opCall{name: name, raw: raw, fn: fn, want: want, sess: sess})
		}
		flush := func() {
			must = len(issued)
		}
		lazy := vrt.Choose(2) == 1 // the operations follow each other before anything is answered
		check := func() {
			if !lazy {
				vrt.Idle()
			}
			if len(wire) < must && !lazy {
				bad(strconv.Itoa(must-len(wire)) + " commands not sent")
			}
			if len(wire) > must {
				bad(strconv.Itoa(len(wire)-must) + " commands sent too early")
			}
			for i := range wire {
				if wire[i] != issued[i] {
					bad("sent " + strconv.Quote(wire[i]) + " instead of " + strconv.Quote(issued[i]))
				}
			}
		}
		finish := func() {
			p.Finish()
			flush()
			conn := h.net.conns[0]
			if len(wire) < must {
				bad("Finish returned before " + strconv.Itoa(must-len(wire)) + " commands were delivered")
			} else if conn.read < conn.outTotal {
				bad("Finish returned before the commands were answered")
			}
		}
		collect := func(i int) {
			c := cs[i]
			res, err := c.fn()
			if c.got {
				if !errors.Is(err, memcache.ErrAlreadyGotten) {
					bad("second result of #" + strconv.Itoa(i) + " " + c.name + " is " + res.String() + " " + errText(err))
				}
				return
			}
			c.got = true
			if c.name == "failing" {
				if !memcache.IsServerError(err) {
					bad("#" + strconv.Itoa(i) + " gives " + res.String() + " " + errText(err) + " want a server error")
				}
			} else if err != nil || res != c.want {
				bad("#" + strconv.Itoa(i) + " " + c.name + " gives " + res.String() + " " + errText(err) + " want " + c.want.String())
			}
			if c.sess == sess && !(i < pend) {
				flush()
				sess++
				published = false
				pend = len(issued)
			}
		}
		for d := 0; d < depth; d++ {
			n := len(cs)
			first := 0
			if n > 4 {
				first = n - 4
			}
			k := vrt.Choose(len(alphabet) + n - first + 1)
			if k == len(alphabet)+n-first { // stop here
				break
			}
			if k >= len(alphabet) {
				i := first + k - len(alphabet)
				trail += " result" + strconv.Itoa(i)
				collect(i)
				check()
				continue
			}
			op := alphabet[k]
			trail += " " + string(op)
			switch op {
			case 'g':
				f := p.MGet("k", memcache.MGetOptions{CAS: true})
				add("get", "mg k c v\r\n", ref.get(), func() (Res, error) {
					r, err := f()
					return Res{Typ: int(r.Type), Data: string(r.Data), Flags: uint64(r.Flags), CAS: r.CAS}, err
				})
			case 'G':
				f, err := p.MGetFast("k", memcache.MGetOptions{CAS: true})
				if err != nil {
					bad(err.Error())
				}
				add("getfast", "mg k c v\r\n", ref.get(), func() (Res, error) {
					r, err := f.Result()
					return Res{Typ: int(r.Type), Data: string(r.Data), Flags: uint64(r.Flags), CAS: r.CAS}, err
				})
			case 's':
				v := "value" + strconv.Itoa(d)
				f := p.MSet("k", []byte(v), memcache.MSetOptions{})
				add("set", "ms k 6\r\n"+v+"\r\n", ref.set(v), func() (Res, error) { r, err := f(); return Res{Typ: int(r.Type)}, err })
			case 'd':
				f := p.MDel("k", memcache.MDelOptions{})
				add("del", "md k\r\n", ref.del(), func() (Res, error) { r, err := f(); return Res{Typ: int(r.Type)}, err })
			case 'V':
				refVer++
				f := p.Version()
				add("version", "version\r\n", Res{Ver: "v" + strconv.Itoa(refVer)}, func() (Res, error) { r, err := f(); return Res{Ver: r.Version}, err })
			case 'F':
				ref.has = false
				f := p.FlushAll()
				add("flush_all", "flush_all\r\n", Res{}, func() (Res, error) { return Res{}, f() })
			case 'E':
				f := p.MSet("e", []byte("x"), memcache.MSetOptions{})
				add("failing", "ms e 1\r\nx\r\n", Res{}, func() (Res, error) { r, err := f(); return Res{Typ: int(r.Type)}, err })
			case 'i':
				_, err := p.MSet("bad key", []byte("x"), memcache.MSetOptions{})()
				if !errors.Is(err, memcache.ErrInvalidKeyFormat) {
					bad("invalid key: " + errText(err))
				}
			case 'x':
				p.Execute()
				if pend < len(issued) {
					flush()
					published = true
				}
			case 'f':
				finish()
				if pend < len(issued) {
					sess++
					published = false
					pend = len(issued)
				}
			}
			check()
		}
		trail += " end"
		finish()
		pend = len(issued)
		check()
		for i := range cs {
			if !cs[i].got {
				collect(i)
			}
		}
		for i := range cs {
			collect(i)
		}
		check()
		// the pipeline stays usable
		if v, err := p.MSet("k", []byte("z"), memcache.MSetOptions{})(); err != nil || v.Type != memcache.MSetResponseTypeHD {
			bad("pipeline unusable: " + errText(err))
		}
		h.relaxErr = true
		h.Close()
	}
}

var _ = time.Second
