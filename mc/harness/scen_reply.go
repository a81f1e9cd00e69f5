package main

import (
	"errors"
	"strconv"
	"strings"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"vrt"
)

// replyForm is a reply to a command of some kind.
type replyForm struct {
	verb byte // g s d V F
	r    Reply
}

const (
	tVA = int(memcache.MGetResponseTypeVA)
	tHD = int(memcache.MGetResponseTypeHD)
	tEN = int(memcache.MGetResponseTypeEN)
	fW  = uint64(memcache.MGetFlagW)
	fX  = uint64(memcache.MGetFlagX)
	fZ  = uint64(memcache.MGetFlagZ)
)

func va(val, flags string, f, cas uint64) replyForm {
	return replyForm{'g', Reply{Text: "VA " + strconv.Itoa(len(val)) + flags + "\r\n" + val + "\r\n", Res: Res{Typ: tVA, Data: val, Flags: f, CAS: cas}}}
}

func srvErr(verb byte, msg string) replyForm {
	return replyForm{verb, Reply{Text: "SERVER_ERROR " + msg + "\r\n", IsE: true, Err: msg}}
}

// goodForms is the alphabet of well-formed replies.
func goodForms() []replyForm {
	r := []replyForm{
		{'g', Reply{Text: "EN\r\n", Res: Res{Typ: tEN}}},
		{'g', Reply{Text: "HD\r\n", Res: Res{Typ: tHD}}},
		{'g', Reply{Text: "HD c18446744073709551615\r\n", Res: Res{Typ: tHD, CAS: 18446744073709551615}}},
		{'g', Reply{Text: "HD W c0 Z\r\n", Res: Res{Typ: tHD, Flags: fW | fZ}}},
		{'g', Reply{Text: "HD X\r\n", Res: Res{Typ: tHD, Flags: fX}}},
		va("", "", 0, 0),
		va("", " c7 W", fW, 7),
		va("a", "", 0, 0),
		va("\r\n", " W X c10", fW|fX, 10),
		va("\r", " Z c999999999999 X W", fW|fX|fZ, 999999999999),
		va("\n", " c1", 0, 1),
		va("HD\r\nEN\r\nVA 1\r\n", " X Z", fX|fZ, 0),
		va("VA 3 c1 W\r\n", " c1234567890 W X Z", fW|fX|fZ, 1234567890),
		va(pat(10), " Z", fZ, 0),
		va(pat(63), " c5", 0, 5),
		va(pat(65), " X", fX, 0),
		srvErr('g', "out of memory"),
		srvErr('g', "V"),
		{'g', Reply{Text: "SERVER_ERROR\r\n", IsE: true}},
		{'s', Reply{Text: "SERVER_ERROR \r\n", IsE: true}},
		srvErr('s', "object too large for cache"),
		srvErr('d', "x y  z"),
	}
	for _, m := range []struct {
		s string
		t memcache.MSetResponseType
	}{{"HD", memcache.MSetResponseTypeHD}, {"NS", memcache.MSetResponseTypeNS}, {"EX", memcache.MSetResponseTypeEX}, {"NF", memcache.MSetResponseTypeNF}} {
		r = append(r, replyForm{'s', Reply{Text: m.s + "\r\n", Res: Res{Typ: int(m.t)}}})
	}
	for _, m := range []struct {
		s string
		t memcache.MDelResponseType
	}{{"HD", memcache.MDelResponseTypeHD}, {"NF", memcache.MDelResponseTypeNF}, {"EX", memcache.MDelResponseTypeEX}} {
		r = append(r, replyForm{'d', Reply{Text: m.s + "\r\n", Res: Res{Typ: int(m.t)}}})
	}
	return append(r,
		replyForm{'V', Reply{Text: "VERSION 1.6.21\r\n", Res: Res{Ver: "1.6.21"}}},
		replyForm{'V', Reply{Text: "VERSION VA 3 (x)\r\n", Res: Res{Ver: "VA 3 (x)"}}},
		replyForm{'F', Reply{Text: "OK\r\n"}},
		srvErr('V', "e"), srvErr('F', "flush off"))
}

// issueForm issues a command whose reply will be the form.
func (p *Pipe) issueForm(f *replyForm, key string) *Call {
	verb := f.verb
	vrt.Enter()
	defer vrt.Leave()
	var c *Call
	if verb == 'g' && len(key)%2 == 0 {
		c = p.GetFast(key, memcache.MGetOptions{CAS: true}, key[0] == 'r')
	} else {
		c = p.Any(verb, key)
	}
	c.reply = &f.r
	return c
}

// round runs one pipeline of forms with the reads cut at the given offsets of the reply stream.
func (h *H) round(k int, fs []*replyForm, cuts ...int) {
	c := h.net.conns[len(h.net.conns)-1]
	h.net.cuts = h.net.cuts[:0]
	for _, x := range cuts {
		h.net.cuts = append(h.net.cuts, c.read+x)
	}
	p := h.Pipeline()
	style := byte('v')
	if k%3 == 0 {
		style = 'r'
	}
	for i, f := range fs {
		p.issueForm(f, key(style, k, i))
	}
	for _, c := range p.calls {
		c.Wait()
	}
	h.inputs++
	if c.outTotal != c.read {
		h.fail("C10", strconv.Itoa(c.outTotal-c.read)+" reply bytes were not read")
	}
	h.forget()
}

// forget drops the ledger of finished rounds.
func (h *H) forget() {
	for _, c := range h.net.conns {
		c.wire, c.cmds = nil, nil
	}
	h.Intact()
	h.calls, h.pipes, h.net.activity = nil, nil, nil
}

func streamLen(fs []*replyForm) int {
	n := 0
	for _, f := range fs {
		n += len(f.r.Text)
	}
	return n
}

// badForms is the alphabet of malformed replies, per command kind.
func badForms() []replyForm {
	var r []replyForm
	add := func(verbs string, text string) {
		for _, v := range verbs {
			r = append(r, replyForm{byte(v), Reply{Text: text, Bad: true}})
		}
	}
	add("gsdVF", "\r\n")
	add("gsdVF", "ERROR\r\n")
	add("gsdVF", "CLIENT_ERROR bad command line format\r\n")
	add("gsdVF", "CLIENT_ERROR\r\n")
	add("gsdVF", "HELLO\r\n")
	add("gsdVF", "X\r\n")
	add("gsdVF", "HD\rX\r\n")
	add("gsdVF", "V\r\n")
	add("gsdVF", "\r\r\n")
	add("gsdVF", "SERVER_ERRORX out of memory\r\n")
	add("gsdVF", "CLIENT_ERRORS\r\n")
	add("gsd", "HDX\r\n")
	add("g", "ENX\r\n")
	add("g", "ENW\r\n")
	add("s", "NSX\r\n")
	add("sd", "NFX c1\r\n")
	add("sd", "EX:\r\n")
	add("V", "VERSIONX 1\r\n")
	add("F", "OKX\r\n")
	add("g", "NS\r\n")
	add("g", "NF\r\n")
	add("g", "EX\r\n")
	add("g", "OK\r\n")
	add("g", "VA\r\n")
	add("g", "VA \r\n")
	add("g", "VA x\r\n")
	add("g", "VA -1\r\n")
	add("g", "VA W 3\r\nabc\r\n")
	add("g", "VA 99999999999999999999999\r\n")
	add("g", "VA 18446744073709551615\r\n")
	add("g", "VA 18446744073709551616\r\n\r\n")
	add("g", "VA 18446744073709551614\r\nab\r\n")
	add("g", "VA 9223372036854775807\r\n")
	add("g", "VA 3 W\rabc\r\n")
	add("g", "VA 3\r\nabcdef\r\n")
	add("g", "HD c\r\n")
	add("g", "HD cW\r\n")
	add("g", "HD c W\r\n")
	add("g", "VA 1 c\r\nx\r\n")
	add("g", "HD c18446744073709551616\r\n")
	add("g", "HD W c99999999999999999999\r\n")
	add("g", "VA 1 c18446744073709551616 W\r\nx\r\n")
	add("g", "VA 1 c36893488147419103232\r\nx\r\n")
	add("g", "VERSION 1\r\n")
	add("s", "EN\r\n")
	add("s", "OK\r\n")
	add("s", "VA 1\r\nx\r\n")
	add("d", "EN\r\n")
	add("d", "NS\r\n")
	add("d", "VA 1\r\nx\r\n")
	add("V", "OK\r\n")
	add("V", "HD\r\n")
	add("V", "VERSIO 1\r\n")
	add("V", "VA 1\r\nx\r\n")
	add("F", "HD\r\n")
	add("F", "O\r\n")
	add("F", "VA 1\r\nx\r\n")
	return r
}

// fragments is the alphabet of wild replies.
var fragments = []string{"\r\n", "VA ", "2", " c", "W", "HD", "\r", "\n", "ab", "SERVER_ERROR", "EN", " "}

// afterBad checks that the connection was replaced and the replacement works.
func (h *H) afterBad(must bool) {
	vrt.Idle()
	if c := h.net.conns[0]; must && !c.closed {
		h.fail("C11", "the connection that sent the malformed reply is still open")
	}
	if n := h.openConns(); n != h.cfg.N {
		h.fail("C11,C05", strconv.Itoa(n)+" open connections after a malformed reply")
	}
	for r := 0; r < 2; r++ {
		p := h.Pipeline()
		cs := []*Call{p.Any('g', key('v', 80+r, 0)), p.Any('s', key('h', 80+r, 1)), p.Any('g', key('X', 80+r, 2)), p.Any('d', key('f', 80+r, 3))}
		for _, c := range cs {
			c.Wait()
			if must && c.Err != nil && !memcache.IsServerError(c.Err) {
				h.fail("C11,C05", c.String()+" on the replacement connection failed: "+c.Err.Error())
			}
		}
	}
}

func init() {
	props := []string{"C10", "C01", "C14"}
	// every pair of replies, every single cut, several read sizes
	register(&Scenario{Name: "reply-pairs", Own: []string{"C10"}, Props: props, Liveness: true, LIFO: true, MaxSteps: 50000000, Shards: 8, TShards: 8, Weight: 3, Body: func(hp **H) {
		fs := goodForms()
		mb := 1 + vrt.Choose(2)
		chunk := []int{0, 1, 2, 7}[vrt.Choose(4)]
		a := vrt.Choose(len(fs))
		bs := []int{256, 5, 16}[vrt.Choose(3)]
		h := OpenQuiet(NetCfg{N: 1, MaxBatch: mb, Limit: 500, Chunk: chunk}, memcache.WithBufferSize(bs))
		*hp = h
		vrt.Freeze(true)
		for b := range fs {
			seq := []*replyForm{&fs[a], &fs[b], &fs[(a+b)%len(fs)]}
			n := streamLen(seq[:2])
			if chunk != 0 {
				n = 1 // cut everywhere already
			}
			for cut := 0; cut < n; cut++ {
				h.round(b*1000+cut, seq, cut)
			}
		}
		h.Close()
	}})
	// triples of replies, every pair of cuts
	register(&Scenario{Name: "reply-cuts", Own: []string{"C10"}, Props: props, Liveness: true, LIFO: true, MaxSteps: 50000000, Shards: 8, TShards: 8, Weight: 3, Body: func(hp **H) {
		all := goodForms()
		var fs []*replyForm
		for _, i := range []int{0, 3, 6, 8, 9, 11, 16, 20} {
			fs = append(fs, &all[i])
		}
		a, b, c := vrt.Choose(len(fs)), vrt.Choose(len(fs)), vrt.Choose(len(fs))
		h := OpenQuiet(NetCfg{N: 1, MaxBatch: 2, Limit: 500})
		*hp = h
		vrt.Freeze(true)
		seq := []*replyForm{fs[a], fs[b], fs[c]}
		n := streamLen(seq)
		k := 0
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				k++
				h.round(k, seq, i, j)
			}
		}
		h.Close()
	}})
	// values of many lengths with read buffers and read sizes around them
	register(&Scenario{Name: "reply-sizes", Own: []string{"C10"}, Props: props, Liveness: true, LIFO: true, MaxSteps: 50000000, Shards: 4, TShards: 8, Weight: 2, Body: func(hp **H) {
		bs := []int{1, 2, 3, 64, 4096, 16384}[vrt.Choose(6)]
		chunk := []int{0, 1, 13, 1460}[vrt.Choose(4)]
		which := vrt.Choose(2)
		h := OpenQuiet(NetCfg{N: 1, MaxBatch: 2, Limit: 500, Chunk: chunk}, memcache.WithBufferSize(bs))
		*hp = h
		vrt.Freeze(true)
		one := func(n int) {
			f := va(pat(n), " c"+strconv.Itoa(n), 0, uint64(n))
			g := va("", "", 0, 0)
			e := replyForm{'s', Reply{Text: "NS\r\n", Res: Res{Typ: int(memcache.MSetResponseTypeNS)}}}
			h.round(n, []*replyForm{&f, &e, &f, &g})
		}
		if which == 0 {
			for n := 0; n <= 260; n++ {
				one(n)
			}
		} else {
			for k := 9; k <= 21; k++ {
				for d := -3; d <= 2; d++ {
					if k <= 12 || (k <= 16 && bs >= 64 && chunk != 1) || (bs >= 4096 && chunk == 0) {
						one(1<<k + d)
					}
				}
			}
		}
		h.Close()
	}})
	// large batches of every reply kind arriving coalesced
	register(&Scenario{Name: "reply-batches", Own: []string{"C10"}, Props: append([]string{"C13"}, props...), Liveness: true, LIFO: true, MaxSteps: 50000000, Body: func(hp **H) {
		mb := []int{1, 3, 100}[vrt.Choose(3)]
		bs := []int{7, 1000, 16384}[vrt.Choose(3)]
		h := OpenQuiet(NetCfg{N: 1, MaxBatch: mb, Limit: 500}, memcache.WithBufferSize(bs))
		*hp = h
		vrt.Freeze(true)
		fs := goodForms()
		for n := 1; n < 130; n++ {
			var seq []*replyForm
			for i := 0; i < n; i++ {
				seq = append(seq, &fs[(i*7+n)%len(fs)])
			}
			h.round(n, seq)
		}
		h.Close()
	}})

	// ---- C11
	c11 := []string{"C11", "C03", "C05"}
	// a malformed reply at any place of a pipeline and of the stream
	register(&Scenario{Name: "malformed", Own: []string{"C11"}, Props: c11, Liveness: true, LIFO: true, Deep: 1, Shards: 8, TShards: 8, Weight: 2, Body: func(hp **H) {
		bad := badForms()
		good := goodForms()
		next := []int{0, 8, 20}
		mb := []int{1, 2, 100}[vrt.Choose(3)]
		f := vrt.Choose(len(bad))
		at := vrt.Choose(3)
		chunk := []int{0, 1, 3}[vrt.Choose(3)]
		nx := &good[next[vrt.Choose(3)]]
		h := OpenQuiet(NetCfg{N: 1, MaxBatch: mb, Limit: 500, Chunk: chunk})
		*hp = h
		vrt.Freeze(true)
		p, q := h.Pipeline(), h.Pipeline()
		for i := 0; i < 4; i++ {
			if i == at {
				p.issueForm(&bad[f], key('v', 1, i))
			} else {
				p.issueForm(nx, key('v', 1, i))
			}
		}
		q.issueForm(&good[10], key('v', 2, 0))
		q.issueForm(&good[22], key('v', 2, 1))
		p.Execute()
		q.Execute()
		for _, c := range p.calls {
			c.Wait()
		}
		for _, c := range q.calls {
			c.Wait()
		}
		h.afterBad(true)
		h.Close()
	}})
	// two malformed replies in a row, on successive connections, one of them while pipelines wait
	register(&Scenario{Name: "malformed-twice", Own: []string{"C11"}, Props: c11, Liveness: true, LIFO: true, Deep: 1, Shards: 4, TShards: 8, Body: func(hp **H) {
		bad := badForms()
		a, b := vrt.Choose(len(bad)), vrt.Choose(len(bad))
		h := OpenQuiet(NetCfg{N: 1, MaxBatch: 1, Limit: 2})
		*hp = h
		vrt.Freeze(true)
		for i, f := range []int{a, b} {
			p := h.Pipeline()
			p.issueForm(&goodForms()[8], key('v', i, 0))
			p.issueForm(&bad[f], key('v', i, 1))
			p.issueForm(&goodForms()[5], key('v', i, 2))
			for _, c := range p.calls {
				c.Wait()
			}
			vrt.Idle()
		}
		h.afterBad(true)
		h.Close()
	}})
	// interleavings around a malformed reply
	register(&Scenario{Name: "malformed-schedules", Own: []string{"C11"}, Props: append([]string{"C17", "C04"}, c11...), P: 2, TP: 3, Liveness: true, LIFO: true, Shards: 2, TShards: 8, Body: func(hp **H) {
		bad := []replyForm{{'g', Reply{Text: "VA x\r\nHD\r\n", Bad: true}}, {'g', Reply{Text: "ERROR\r\n", Bad: true}}}
		f := vrt.Choose(2)
		h := OpenQuiet(NetCfg{N: 1, MaxBatch: 1, Limit: 500})
		*hp = h
		a := user("user0", func() {
			p := h.Pipeline()
			p.issueForm(&bad[f], key('v', 0, 0)).Wait()
		})
		b := user("user1", func() { h.script(1, "gvshr") })
		join(a, b)
		vrt.Freeze(true)
		h.afterBad(true)
		h.Close()
	}})
	// all strings of protocol fragments as reply to every command
	wild := func(depth int) func(**H) {
		return func(hp **H) {
			verb := "gsdVF"[vrt.Choose(5)]
			text := ""
			for i := 0; i < depth; i++ {
				k := vrt.Choose(len(fragments) + 1)
				if k == 0 {
					break
				}
				text += fragments[k-1]
			}
			h := OpenQuiet(NetCfg{N: 1, MaxBatch: 2, Limit: 500})
			*hp = h
			vrt.Freeze(true)
			f := replyForm{verb, Reply{Text: text, Wild: true}}
			p := h.Pipeline()
			for i, v := range []byte{'s', verb, 'g', 'd'} {
				g := replyForm{v, Reply{Wild: true, Text: "HD\r\n"}}
				if i == 1 {
					g = f
				}
				p.issueForm(&g, key('v', 0, i))
			}
			p.calls[3].Wait()
			for _, c := range p.calls[:3] {
				c.Wait()
			}
			h.malformed = true
			h.net.faulty = true
			// the connection may be out of step now: it recovers after at most one more failure
			vrt.Idle()
			for i := 0; i < 3; i++ {
				q := h.Pipeline()
				g := replyForm{'g', Reply{Wild: true, Text: "EN\r\n"}}
				q.issueForm(&g, key('v', 1+i, 0)).Wait()
				vrt.Idle()
			}
			h.Close()
		}
	}
	register(&Scenario{Name: "wild-replies", Own: []string{"C11"}, Props: []string{"C11", "C03"}, Liveness: true, LIFO: true, Deep: 1, Shards: 8, TShards: 8, Weight: 2, Body: wild(4)})
	register(&Scenario{Name: "wild-replies-deep", Own: []string{"C11"}, Props: []string{"C11"}, Liveness: true, LIFO: true, Deep: 1, Shards: 8, Thorough: true, Weight: 4, Body: wild(6)})
	// surplus bytes after a reply must not survive the connection
	register(&Scenario{Name: "surplus", Props: []string{"C05", "C11"}, Liveness: true, LIFO: true, Deep: 1, Shards: 2, Body: func(hp **H) {
		extra := []string{"HD\r\n", "EN\r\nEN\r\n", "VA 1\r\nx\r\n", "H", "VA 5\r\nab", "\r\n", "SERVER_ERROR out\r\n"}[vrt.Choose(7)]
		way := vrt.Choose(4)
		chunk := []int{0, 1, 9}[vrt.Choose(3)]
		h := OpenQuiet(NetCfg{N: 1, MaxBatch: 2, Limit: 4, Chunk: chunk})
		*hp = h
		vrt.Freeze(true)
		c := h.net.conns[0]
		bad := "VA 4 c12\r\nabcd\r\n" + extra
		if way == 3 { // the reader notices a malformed reply with more bytes behind it
			bad = "VA x\r\n" + extra
		}
		p := h.Pipeline()
		f := replyForm{'g', Reply{Text: bad, Wild: true}}
		p.issueForm(&f, key('v', 0, 0)).Wait()
		switch way {
		case 0:
			c.Reset()
		case 1:
			c.PeerClose()
		case 2:
			c.Stall()
		}
		h.malformed = true
		h.net.faulty = true
		h.relaxErr = true
		for i := 0; i < 4; i++ { // may get the surplus, or run into the failure
			q := h.Pipeline()
			var fn func() (memcache.MSetResponse, error)
			vrt.Enter()
			fn = q.p.MSet(key('h', 7, i), []byte("x"), memcache.MSetOptions{})
			vrt.Leave()
			_, err := fn()
			vrt.Idle()
			if err != nil {
				break
			}
		}
		vrt.Idle()
		h.relaxErr = false
		if !c.closed {
			h.Close()
			return
		}
		h.afterBad(true)
		h.Close()
	}})
}

var _ = errors.New
var _ = strings.Repeat
var _ = time.Second
