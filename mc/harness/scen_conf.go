package main

import (
	"errors"
	"net"
	"strconv"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/QuangTung97/go-memcache/memcache/netconn"
	"vrt"
)

// ---- C18: the configuration governs the network operations ------------------------------------

type conf struct {
	rt, wt, retry, health int64
	limit, batch, buf     int
}

type confOpt struct {
	name string
	opt  func() memcache.Option
	set  func(c *conf)
}

const ms = int64(time.Millisecond)

func confOpts() []confOpt {
	nco := func(o ...netconn.Option) func() memcache.Option {
		return func() memcache.Option { return memcache.WithNetConnOptions(o...) }
	}
	d := func(n int64) time.Duration { return time.Duration(n * ms) }
	return []confOpt{
		{"read timeout 300ms", nco(netconn.WithReadTimeout(d(300))), func(c *conf) { c.rt = 300 * ms }},
		{"read timeout 1700ms", nco(netconn.WithReadTimeout(d(1700))), func(c *conf) { c.rt = 1700 * ms }},
		{"write timeout 400ms", nco(netconn.WithWriteTimeout(d(400))), func(c *conf) { c.wt = 400 * ms }},
		{"write timeout 2300ms", nco(netconn.WithWriteTimeout(d(2300))), func(c *conf) { c.wt = 2300 * ms }},
		{"both timeouts", nco(netconn.WithWriteTimeout(d(600)), netconn.WithReadTimeout(d(500))), func(c *conf) { c.rt, c.wt = 500*ms, 600*ms }},
		{"buffer size 64", func() memcache.Option { return memcache.WithBufferSize(64) }, func(c *conf) { c.buf = 64 }},
		{"network buffer size 32", nco(netconn.WithBufferSize(32)), func(c *conf) {}},
		{"retry 3s", func() memcache.Option { return memcache.WithRetryDuration(d(3000)) }, func(c *conf) { c.retry = 3000 * ms }},
		{"write limit 5", func() memcache.Option { return memcache.WithWriteLimit(5) }, func(c *conf) { c.limit = 5 }},
		{"batch size 3", func() memcache.Option { return memcache.WithMaxCommandsPerBatch(3) }, func(c *conf) { c.batch = 3 }},
		{"health check 4s", func() memcache.Option { return memcache.WithHealthCheckDuration(d(4000)) }, func(c *conf) { c.health = 4000 * ms }},
		{"keep alive", func() memcache.Option { return memcache.WithTCPKeepAliveDuration(d(7000)) }, func(c *conf) {}},
	}
}

// newH makes an execution without a client.
func newH(cfg NetCfg) *H {
	h := &H{cfg: cfg}
	h.net = newNet(h, cfg)
	return h
}

func (h *H) logErr(err error) {
	vrt.Enter()
	defer vrt.Leave()
	h.logged = append(h.logged, err)
	vrt.Note("dial error logged: %v", err)
}

// deadlines checks that every operation is guarded by exactly the configured timeouts.
func (h *H) deadlines(c *conf) {
	h.opHook = func(cn *Conn, kind string, start int64, dl time.Time) {
		want := c.rt
		if kind == "write" {
			want = c.wt
		}
		if got := deadlineNs(dl) - start; got != want {
			s := time.Duration(got).String()
			if dl.IsZero() {
				s = "none"
			}
			h.fail("C18", "deadline of a "+kind+" is "+s+", configured "+time.Duration(want).String())
		}
	}
}

// exercise checks the effect of the whole configuration.
func (h *H) exercise(c *conf) {
	vrt.Idle()
	if len(h.net.dials) != 1 || h.net.dials[0].network != "tcp" || h.net.dials[0].addr != "server:11211" || h.net.dials[0].timeout != 10*time.Second {
		h.fail("C18", "wrong first dial")
	}
	conn := h.net.conns[0]
	all := func(cs []*Call) {
		for _, k := range cs {
			if k.Wait(); k.Err != nil {
				h.fail("C18", k.String()+" failed: "+k.Err.Error())
			}
		}
	}
	// batches within the limit
	h.net.cfg.Hold = true
	var cs []*Call
	p := h.Pipeline()
	for i := 0; i < 7; i++ {
		cs = append(cs, p.Any("gsd"[i%3], key('v', 0, i)))
	}
	p.Execute()
	vrt.Idle()
	want := 7
	if c.limit < 7 && c.batch < 7 {
		want = c.batch
	}
	if len(conn.cmds) != want {
		h.fail("C18,C07", strconv.Itoa(len(conn.cmds))+" commands of a pipeline of 7 were written at once, expected "+strconv.Itoa(want)+" (write limit "+strconv.Itoa(c.limit)+", batch size "+strconv.Itoa(c.batch)+")")
	}
	h.net.ReleaseAll()
	all(cs)
	vrt.Idle()
	// single commands within the limit
	h.net.cfg.Hold = true
	cs = nil
	before := len(conn.cmds)
	for i := 0; i < 7; i++ {
		p := h.Pipeline()
		cs = append(cs, p.Any('g', key('v', 1, i)))
		p.Execute()
	}
	vrt.Idle()
	if n := len(conn.cmds) - before; n != min(7, c.limit) {
		h.fail("C18,C07", strconv.Itoa(n)+" of 7 pipelines of one command were written, write limit "+strconv.Itoa(c.limit))
	}
	h.net.ReleaseAll()
	all(cs)
	// every operation has its own deadline, however soon it follows the one before
	for i, d := range []int64{c.rt / 10, c.rt / 3, c.wt / 3, c.rt * 2 / 3, c.wt * 2 / 3, c.rt / 2, c.rt / 2} {
		vrt.SleepUntil(vrt.Now() + d)
		h.net.cfg.Hold = i >= 3
		p := h.Pipeline()
		cs := []*Call{p.Any("gs"[i%2], key('v', 5, i)), p.Any('g', key('V', 5, i))}
		p.Execute()
		vrt.Idle()
		if i >= 3 { // answered in two halves, each within the read timeout
			d = min(d, c.rt*2/3)
			vrt.SleepUntil(vrt.Now() + d)
			h.net.Release(conn, 1)
			vrt.Idle()
			vrt.SleepUntil(vrt.Now() + d)
			h.net.ReleaseAll()
		}
		all(cs)
	}
	if conn.maxRead > c.buf {
		h.fail("C18", "a read of "+strconv.Itoa(conn.maxRead)+" bytes, buffer size "+strconv.Itoa(c.buf))
	}
	// a silent peer
	p = h.Pipeline()
	k := p.Any('g', key('v', 2, 0))
	conn.Kill()
	t := vrt.Now()
	if k.Wait(); k.Err == nil || k.end-t != c.rt {
		h.fail("C18,C03", "a call to a silent peer took "+time.Duration(k.end-t).String()+", read timeout "+time.Duration(c.rt).String())
	}
	vrt.Idle()
	// a peer that stops reading
	conn = h.net.conns[1]
	conn.Stall()
	t = vrt.Now()
	p = h.Pipeline()
	k = p.Any('s', key('h', 3, 0))
	if k.Wait(); k.Err == nil || k.end-t != c.wt && k.end-t != c.rt {
		h.fail("C18,C03", "a call to a stalled peer took "+time.Duration(k.end-t).String()+", write timeout "+time.Duration(c.wt).String())
	}
	vrt.SleepUntil(vrt.Now() + max(c.wt, c.rt))
	vrt.Idle()
	// refused dials
	nd := len(h.net.dials)
	h.net.cfg.Script = func(kind string, conn, op int) int {
		if kind == "dial" && op < nd+3 {
			return DialErr
		}
		return 0
	}
	h.net.conns[2].Reset()
	t = vrt.Now()
	h.Pipeline().Any('g', key('v', 4, 0)).Wait()
	vrt.SleepUntil(t + 4*c.retry)
	vrt.Idle()
	if len(h.net.dials) != nd+4 {
		h.fail("C18,C05", strconv.Itoa(len(h.net.dials)-nd)+" dials after three refused ones")
	} else {
		for i := 0; i < 4; i++ {
			if d := h.net.dials[nd+i]; d.start != t+int64(i)*c.retry || d.network != "tcp" || d.addr != "server:11211" || d.timeout != 10*time.Second {
				h.fail("C18,C05", "redial "+strconv.Itoa(i)+" came "+time.Duration(d.start-t).String()+" after the failure, retry duration "+time.Duration(c.retry).String())
			}
		}
	}
	if len(h.logged) != 3 {
		h.fail("C18,C05", strconv.Itoa(len(h.logged))+" dial errors logged, expected 3")
	}
	// pings
	var pings []ping
	h.watchPings(&pings)
	vrt.SleepUntil(vrt.Now() + 4*c.health)
	vrt.Idle()
	if n := len(pings); n < 2 || n > 4 {
		h.fail("C18,C15", strconv.Itoa(n)+" pings in four health check durations")
	}
	for i := 1; i < len(pings); i++ {
		if d := pings[i].at - pings[i-1].at; d != c.health {
			h.fail("C18,C15", "time between pings "+time.Duration(d).String()+", configured "+time.Duration(c.health).String())
		}
	}
	if n := h.openConns(); n != 1 {
		h.fail("C18,C05", strconv.Itoa(n)+" open connections")
	}
}

// ---- C19: authentication ----------------------------------------------------------------------

// authSrv is the server's side of the handshake.
type authSrv struct {
	h          *H
	user, pw   string
	command    string
	reply      func(c *Conn) (text string, end int) // the answer on a connection; end: 0 open, ReadEOF, ReadErr, ReadStall
	good       bool
	refusals   []error
	bad        bool // some connection did not get authenticated
	handshakes int
}

const stored = "STORED\r\n"

func newAuth(h *H, user, pw string) *authSrv {
	a := &authSrv{h: h, user: user, pw: pw}
	a.command = "set memcached_auth 0 0 " + strconv.Itoa(len(user)+1+len(pw)) + "\r\n" + user + " " + pw + "\r\n"
	h.net.cfg.Auth = a.receive
	h.net.cfg.OnWrite = func(c *Conn, p []byte) {
		if c.authDone && c.read < len(stored) {
			h.fail("C19", "bytes were sent before the answer to the authentication command was read")
		}
	}
	return a
}

// dial is the dial function with authentication.
func (a *authSrv) dial() netconn.DialFunc {
	pa, err := netconn.NewPasswordAuth(a.user, a.pw)
	if err != nil {
		a.h.fail("C19", "NewPasswordAuth: "+err.Error())
	}
	return pa.GetDialFunc(a.h.net.DialFunc)
}

func (a *authSrv) receive(c *Conn, p []byte) {
	h := a.h
	if c.refused {
		h.fail("C19", "bytes sent after failed authentication: "+brief(string(p)))
		return
	}
	c.authBuf = append(c.authBuf, p...)
	n := len(c.authBuf)
	if n > len(a.command) || string(c.authBuf) != a.command[:n] {
		h.fail("C19", "authentication command is "+brief(string(c.authBuf))+", expected "+brief(a.command))
		c.refused = true
		return
	}
	if n < len(a.command) {
		return
	}
	a.handshakes++
	text, end := stored, 0
	if a.reply != nil {
		text, end = a.reply(c)
	}
	vrt.Note("authentication reply %q, then %s", text, faultName(end))
	c.produce(text)
	if len(text) >= len(stored) && text[:len(stored)] == stored {
		c.authDone = true
	} else {
		c.refused = true
		a.bad = true
		h.net.faulty = true
		if len(text) >= len(stored) {
			h.net.errs = append(h.net.errs, netconn.ErrInvalidUsernamePassword)
		}
	}
	switch end {
	case ReadEOF:
		c.eof = true
		h.net.faulty = true
	case ReadErr:
		h.net.faulty = true
		c.err = &netErr{msg: "connection reset on conn " + strconv.Itoa(c.id)}
	case ReadStall:
		h.net.faulty = true
	}
	vrt.Changed()
}

// guard checks the deadlines of the handshake.
func (a *authSrv) guard(after *conf) {
	h := a.h
	h.deadlines(after)
	exact := h.opHook
	h.opHook = func(c *Conn, kind string, start int64, dl time.Time) {
		if c.authDone && c.read >= len(stored) {
			exact(c, kind, start, dl)
			return
		}
		if dl.IsZero() {
			h.fail("C18", "a "+kind+" of the authentication handshake has no deadline")
		} else if deadlineNs(dl) > c.dialAt+int64(10*time.Second) {
			h.fail("C18", "a "+kind+" of the authentication handshake may end after the connect timeout")
		}
	}
}

func (h *H) openAuth(a *authSrv, n int, opts ...memcache.Option) {
	all := append([]memcache.Option{memcache.WithDialFunc(a.dial()), memcache.WithDialErrorLogger(h.logErr),
		memcache.WithRetryDuration(5 * time.Second), memcache.WithHealthCheckDuration(time.Hour)}, opts...)
	cl, err := memcache.New("server:11211", n, all...)
	if err != nil {
		h.fail("C03,C05", "New fails: "+err.Error())
	}
	h.cl = cl
}

// authFailed checks the aftermath of a first dial whose authentication must fail.
func (a *authSrv) authFailed(refusal bool) {
	h := a.h
	c := h.net.conns[0]
	if !c.closed {
		h.fail("C19", "the connection that failed authentication is not closed")
	}
	if len(h.logged) != 1 {
		h.fail("C19,C05", strconv.Itoa(len(h.logged))+" dial errors logged after a failed authentication")
	} else if is := errors.Is(h.logged[0], netconn.ErrInvalidUsernamePassword); is != refusal {
		h.fail("C19", "dial error is "+h.logged[0].Error())
	}
}

var _ net.Conn = (*Conn)(nil)

func init() {
	// every ordered choice of options
	options := func(depth int) func(**H) {
		return func(hp **H) {
			ops := confOpts()
			c := &conf{rt: 1000 * ms, wt: 1000 * ms, retry: 10000 * ms, health: 15000 * ms, limit: 500, batch: 100, buf: 16384}
			h := newH(NetCfg{N: 1, Health: true})
			h.slowServer = true
			*hp = h
			vrt.Freeze(true)
			wrong := func(network, addr string, timeout time.Duration) (net.Conn, error) {
				h.fail("C18", "a dial function that was replaced was called")
				return nil, &netErr{msg: "wrong dial function"}
			}
			var list []memcache.Option
			at := vrt.Choose(4) // where the dial function and logger are given
			switch at {
			case 0:
				list = append(list, memcache.WithDialFunc(h.net.DialFunc), memcache.WithDialErrorLogger(h.logErr))
			case 1:
				list = append(list, memcache.WithNetConnOptions(netconn.WithDialFunc(h.net.DialFunc)), memcache.WithDialErrorLogger(h.logErr))
			case 2:
				list = append(list, memcache.WithDialFunc(wrong))
			case 3:
				list = append(list, memcache.WithDialErrorLogger(func(error) { h.fail("C18", "a logger that was replaced was called") }))
			}
			used := make([]bool, len(ops))
			for i := 0; i < depth; i++ {
				k := vrt.Choose(len(ops) + 1 - i)
				if k == 0 {
					break
				}
				for j := range ops {
					if used[j] {
						continue
					}
					if k--; k == 0 {
						used[j] = true
						vrt.Note("option %s", ops[j].name)
						list = append(list, ops[j].opt())
						ops[j].set(c)
						break
					}
				}
			}
			switch at {
			case 2:
				list = append(list, memcache.WithNetConnOptions(netconn.WithDialFunc(h.net.DialFunc)), memcache.WithDialErrorLogger(h.logErr))
			case 3:
				list = append(list, memcache.WithDialErrorLogger(h.logErr), memcache.WithDialFunc(h.net.DialFunc))
			}
			h.cfg.RT, h.cfg.WT, h.cfg.Limit, h.cfg.MaxBatch = c.rt, c.wt, c.limit, c.batch
			h.deadlines(c)
			cl, err := memcache.New("server:11211", 1, list...)
			if err != nil {
				h.fail("C18", "New: "+err.Error())
			}
			h.cl = cl
			h.exercise(c)
			h.Close()
		}
	}
	register(&Scenario{Name: "options", Own: []string{"C18"}, Props: []string{"C18"}, Liveness: true, LIFO: true, Deep: 2, Shards: 8, MaxTime: 1000 * time.Second, Body: options(4)})
	register(&Scenario{Name: "options-deep", Own: []string{"C18"}, Props: []string{"C18"}, Liveness: true, LIFO: true, Deep: 2, Shards: 8, Thorough: true, MaxTime: 1000 * time.Second, Body: options(5)})

	// the buffer sizes on both sides, given in every order among other options
	register(&Scenario{Name: "options-buffers", Own: []string{"C18"}, Props: []string{"C18"}, Liveness: true, LIFO: true, Deep: 2, Shards: 4, MaxTime: 1000 * time.Second, Body: func(hp **H) {
		h := newH(NetCfg{N: 1, RT: 1000 * ms, WT: 1000 * ms, Limit: 500, MaxBatch: 100})
		h.slowServer = true
		*hp = h
		vrt.Freeze(true)
		c := &conf{rt: 1000 * ms, wt: 1000 * ms}
		ws, rs := 16384, 16384
		list := []memcache.Option{memcache.WithDialFunc(h.net.DialFunc)}
		sizes := []int{512, 4096, 10000, 40000, 65536, 200000}
		for i, n := 0, vrt.Choose(4); i < n; i++ {
			switch k := vrt.Choose(8); {
			case k < 4:
				s := sizes[(k+5*i)%len(sizes)]
				vrt.Note("buffer size %d", s)
				list = append(list, memcache.WithBufferSize(s))
				ws, rs = s, s
			case k < 7:
				s := sizes[(k*3+i)%len(sizes)]
				vrt.Note("network buffer size %d", s)
				list = append(list, memcache.WithNetConnOptions(netconn.WithBufferSize(s)))
				ws = s
			default:
				vrt.Note("read timeout")
				list = append(list, memcache.WithNetConnOptions(netconn.WithReadTimeout(700*time.Millisecond)))
				c.rt = 700 * ms
			}
		}
		h.cfg.RT = c.rt
		h.deadlines(c)
		cl, err := memcache.New("server:11211", 1, append(list, memcache.WithDialErrorLogger(h.logErr))...)
		if err != nil {
			h.fail("C18", "New: "+err.Error())
		}
		h.cl = cl
		vrt.Idle()
		writes := 0
		h.net.cfg.OnWrite = func(*Conn, []byte) { writes++ }
		conn := h.net.conns[0]
		// a batch which fits in the buffer, of a few commands or of many
		for i, n := range []int{1, 2, 6, 40} {
			size := ws * 3 / 5 / n
			if size < 64 {
				continue
			}
			p := h.Pipeline()
			var cs []*Call
			for j := 0; j < n; j++ {
				k := key('v', i, j)
				cs = append(cs, p.Set(k, sized(k, size-30), memcache.MSetOptions{}))
			}
			writes = 0
			p.Execute()
			vrt.Idle()
			if writes != 1 {
				h.fail("C18", "a batch of "+strconv.Itoa(n*size)+" bytes was sent by "+strconv.Itoa(writes)+" writes, send buffer size "+strconv.Itoa(ws))
			}
			for _, k := range cs {
				if k.Wait(); k.Err != nil {
					h.fail("C18", k.String()+" failed: "+k.Err.Error())
				}
			}
		}
		for i, n := range []int{10, rs / 2, rs, 2*rs + 1} {
			p := h.Pipeline()
			if k := p.Get("b"+strconv.Itoa(n)+"."+strconv.Itoa(i), memcache.MGetOptions{}).Wait(); k.Err != nil {
				h.fail("C18", k.String()+" failed: "+k.Err.Error())
			}
		}
		if conn.maxRead > rs || conn.maxRead < rs/2 {
			h.fail("C18", "the longest read is "+strconv.Itoa(conn.maxRead)+" bytes, receive buffer size "+strconv.Itoa(rs))
		}
		h.Close()
	}})

	// the write limit and batch size which hold when none is given
	register(&Scenario{Name: "options-defaults", Own: []string{"C18"}, Props: []string{"C18", "C07", "C08"}, Liveness: true, LIFO: true, Deep: 2, Shards: 4, MaxSteps: 500000000, MaxTime: 1000 * time.Second, Body: func(hp **H) {
		h := newH(NetCfg{N: 1, RT: 1000 * ms, WT: 1000 * ms, Limit: 500, MaxBatch: 100, Hold: true})
		h.slowServer = true
		*hp = h
		vrt.Freeze(true)
		list := []memcache.Option{memcache.WithDialFunc(h.net.DialFunc), memcache.WithDialErrorLogger(h.logErr)}
		if vrt.Choose(2) == 1 {
			list = append(list, memcache.WithBufferSize(700), memcache.WithRetryDuration(time.Second))
		}
		cl, err := memcache.New("server:11211", 1, list...)
		if err != nil {
			h.fail("C18", "New: "+err.Error())
		}
		h.cl = cl
		vrt.Idle()
		conn := h.net.conns[0]
		sizes := []int{1, 100, 101, 230, 500, 501, 640}
		var cs []*Call
		total := 0
		for i := 0; i < 3; i++ {
			n := 150
			if i < 2 {
				n = sizes[vrt.Choose(len(sizes))]
			}
			total += n
			p := h.Pipeline()
			for j := 0; j < n; j++ {
				cs = append(cs, p.Any("gd"[j%2], key('v', i, j)))
			}
			p.Execute()
			vrt.Idle()
			h.pendingCheck(conn)
			if got := len(conn.cmds); got > 500 || total <= 500 && got < total || got <= 400 && got < total {
				h.fail("C18,C07", strconv.Itoa(got)+" of "+strconv.Itoa(total)+" unanswered commands were written, default write limit 500")
			}
		}
		h.drain(29)
		for _, k := range cs {
			if k.Wait(); k.Err != nil {
				h.fail("C18,C03", k.String()+" failed: "+k.Err.Error())
			}
		}
		h.Close()
	}})

	// the deadlines of all operations in all schedules
	register(&Scenario{Name: "deadlines", Props: []string{"C18"}, Also: []string{"C03", "C17"}, P: 2, F: 1, TP: 3, TF: 2, Liveness: true, LIFO: true, Deep: 1, Delay: true, Shards: 4, TShards: 8, Body: func(hp **H) {
		c := &conf{rt: 700 * ms, wt: 400 * ms}
		h := newH(NetCfg{N: 2, RT: c.rt, WT: c.wt, MaxBatch: 2, Limit: 3, Faults: ReadStall | WriteStall | ReadErr | DialErr})
		*hp = h
		h.deadlines(c)
		cl, err := memcache.New("server:11211", 2, memcache.WithMaxCommandsPerBatch(2), memcache.WithWriteLimit(3), memcache.WithDialFunc(h.net.DialFunc), memcache.WithDialErrorLogger(h.logErr),
			memcache.WithNetConnOptions(netconn.WithReadTimeout(700*time.Millisecond)), memcache.WithNetConnOptions(netconn.WithWriteTimeout(400*time.Millisecond)), memcache.WithRetryDuration(5*time.Second))
		if err != nil {
			h.fail("C18", "New: "+err.Error())
		}
		h.cl = cl
		a := user("user0", func() { h.script(0, "gvxngvshr") })
		b := user("user1", func() { h.script(1, "gvr") })
		d := user("user2", func() { h.script(2, "gvrshr") })
		join(a, b, d)
		vrt.Freeze(true)
		h.net.cfg.Faults = 0
		for _, d := range h.net.dials {
			if d.network != "tcp" || d.addr != "server:11211" || d.timeout != 10*time.Second {
				h.fail("C18", "a dial with other parameters")
			}
		}
		h.Close()
	}})
	// deadlines that cannot be set
	for i, n := range []int{1, 2} {
		n := n
		register(&Scenario{Name: "deadlines-unset" + []string{"", "-pool"}[i], Props: []string{"C18"}, Also: []string{"C03", "C04", "C05"}, P: 1, F: 1, TP: 2, TF: 2, Liveness: true, LIFO: true, TShards: 8, Body: func(hp **H) {
			h := OpenQuiet(NetCfg{N: n, RT: 1000 * ms, WT: 1000 * ms, MaxBatch: 2, Limit: 3, Faults: DeadlineErr})
			*hp = h
			h.deadlines(&conf{rt: 1000 * ms, wt: 1000 * ms})
			h.users("gvngvshr", "gvr")
			vrt.Freeze(true)
			vrt.Idle()
			h.Reconnects()
			h.Recover(5 * time.Second)
			h.Reconnects()
			h.Close()
			h.AfterClose(2)
		}})
	}
	// a handshake that does not finish, at the first dial or a later one
	register(&Scenario{Name: "auth-stall", Own: []string{"C18"}, Props: []string{"C18", "C19"}, Also: []string{"C06"}, Liveness: true, LIFO: true, Deep: 1, Shards: 4, MaxTime: 1000 * time.Second, Body: func(hp **H) {
		h := newH(NetCfg{N: 2, RT: 1000 * ms, WT: 1000 * ms})
		h.slowServer = true
		*hp = h
		vrt.Freeze(true)
		a := newAuth(h, "user", "secret")
		a.guard(&conf{rt: 1000 * ms, wt: 1000 * ms})
		way := vrt.Choose(3)         // silent, trickling, not reading
		k := vrt.Choose(len(stored)) // bytes of the answer before
		first := vrt.Choose(2) == 1
		cl := vrt.Choose(2) == 1 // Close while it lasts
		from := 0
		if !first {
			from = 2
		}
		isBad := func(c *Conn) bool { return c.id == from }
		a.reply = func(c *Conn) (string, int) {
			if !isBad(c) {
				return stored, 0
			}
			if way == 1 {
				for i := k; i < 4; i++ {
					i := i
					vrt.AddTimer(vrt.PeekNow()+int64(i-k+1)*4000*ms, func() { c.out = append(c.out, stored[i]); vrt.Changed() })
				}
			}
			return stored[:k], ReadStall
		}
		h.net.cfg.OnDial = func(c *Conn) {
			if isBad(c) && way == 2 {
				c.dead0 = true
			}
		}
		t := vrt.Now()
		h.openAuth(a, 2)
		if first && vrt.Now()-t > 10000*ms {
			h.fail("C18", "New took "+time.Duration(vrt.Now()-t).String()+" although the connect timeout is 10s")
		}
		if !first {
			vrt.Idle()
			h.net.conns[0].Reset()
			p := h.Pipeline()
			q := h.Pipeline()
			p.Any('g', key('v', 0, 0)).Wait()
			q.Any('g', key('v', 0, 1)).Wait()
			vrt.Idle()
			t = vrt.Now()
			if len(h.net.conns) != 3 {
				h.fail("C05,C18", "no redial after the failure")
				return
			}
		}
		if cl {
			h.Close1()
			vrt.Idle()
			h.CheckClosed()
			return
		}
		other := 0
		for i := 0; i < 4; i++ { // calls meanwhile
			k := h.Pipeline().Any('g', key('v', 5, i)).Wait()
			if k.end != k.start {
				h.fail("C18,C04", "a call was blocked by a handshake in progress")
			}
			if k.Err == nil {
				other++
			}
		}
		if other < 2 {
			h.fail("C04,C18", "calls on the other connection failed")
		}
		vrt.SleepUntil(t + 10000*ms)
		vrt.Idle()
		if !h.net.conns[from].closed {
			h.fail("C18,C19", "the connection whose handshake did not finish is still open after the connect timeout")
		}
		if len(h.logged) != 1 {
			h.fail("C18,C05", strconv.Itoa(len(h.logged))+" dial errors logged")
		}
		vrt.SleepUntil(t + 15000*ms)
		vrt.Idle()
		for i := 0; i < 4; i++ {
			if k := h.Pipeline().Any('g', key('v', 6, i)).Wait(); k.Err != nil {
				h.fail("C18,C05", "call after the redial failed: "+k.Err.Error())
			}
		}
		h.Close()
	}})

	// every answer to the authentication command
	after := func(h *H, a *authSrv) {
		// a later dial is answered well
		a.reply = nil
		for i := 0; i < 2; i++ {
			k := h.Pipeline().Any("gs"[i], key('v', 1, i))
			if i > 0 { // redialled by now
				a.bad = false
				vrt.Idle()
			}
			if k.Wait(); k.Err == nil && a.bad {
				h.fail("C19", k.String()+" succeeded although authentication failed")
			} else if a.bad && !errors.Is(k.Err, h.logged[0]) {
				h.fail("C19,C04", k.String()+" failed with "+k.Err.Error())
			} else if !a.bad && k.Err != nil {
				h.fail("C19", k.String()+" failed although authentication succeeded: "+k.Err.Error())
			}
		}
		for i := 0; i < 2; i++ {
			if k := h.Pipeline().Any('g', key('v', 2, i)).Wait(); k.Err != nil {
				h.fail("C19,C05", k.String()+" failed on the replacement connection: "+k.Err.Error())
			}
		}
		h.CloseQuiet()
		vrt.Idle()
		h.CheckClosed()
	}
	attempt := func(hp **H, text string, end int, cuts []int, chunk int) {
		h := newH(NetCfg{N: 1, RT: 1000 * ms, WT: 1000 * ms, Chunk: chunk})
		h.slowServer = true
		*hp = h
		a := newAuth(h, "user", "secret")
		h.net.cuts = cuts
		a.reply = func(c *Conn) (string, int) { return text, end }
		t := vrt.Now()
		h.openAuth(a, 1)
		if d := vrt.Now() - t; d > 10000*ms {
			h.fail("C18,C19", "New took "+time.Duration(d).String())
		}
		vrt.Idle()
		if a.bad {
			a.authFailed(len(text) >= len(stored))
		} else if len(h.logged) != 0 {
			h.fail("C19", "successful authentication reported as "+h.logged[0].Error())
		}
		after(h, a)
	}
	refusals := []string{"CLIENT_ERROR authentication failure\r\n", "CLIENT_ERROR unauthenticated\r\n", "ERROR\r\n", "SERVER_ERROR x\r\n", "NOT_STORED\r\n", "EXISTS\r\n", "NOT_FOUND\r\n",
		"STORED \r\n", "stored\r\n", "STORED\n\n", "STORED\r\r\n", " STORED\r\n", "\r\nSTORED\r\n", "STORED", "STORE", "OK\r\n", "HD\r\n", "END\r\n", "XSTORED\r\nSTORED\r\n", "\x00\x00\x00\x00\x00\x00\x00\x00"}
	register(&Scenario{Name: "auth-answers", Own: []string{"C19"}, Props: []string{"C19"}, Liveness: true, LIFO: true, Deep: 2, Shards: 4, MaxTime: 1000 * time.Second, Body: func(hp **H) {
		vrt.Freeze(true)
		k := vrt.Choose(len(refusals) + 1 + len(stored))
		end := []int{0, ReadEOF, ReadErr}[vrt.Choose(3)]
		chunk := []int{0, 1, 3}[vrt.Choose(3)]
		text := stored
		if k > len(stored) {
			text = refusals[k-len(stored)-1]
		} else if k > 0 {
			text = stored[:k-1]
		}
		var cuts []int
		if chunk == 0 {
			if i := vrt.Choose(len(stored)); i > 0 {
				cuts = append(cuts, i)
				if j := vrt.Choose(len(stored) - i); j > 0 {
					cuts = append(cuts, i+j)
				}
			}
		}
		if text == stored && end != 0 { // authenticated, the connection fails later
			end = 0
		}
		attempt(hp, text, end, cuts, chunk)
	}})
	register(&Scenario{Name: "auth-corrupted", Own: []string{"C19"}, Props: []string{"C19"}, Liveness: true, LIFO: true, Deep: 1, Shards: 4, MaxTime: 1000 * time.Second, Body: func(hp **H) {
		vrt.Freeze(true)
		i := vrt.Choose(len(stored))
		x := byte(vrt.Choose(256))
		chunk := []int{0, 1, 5}[vrt.Choose(3)]
		b := []byte(stored)
		b[i] = x
		attempt(hp, string(b), 0, nil, chunk)
	}})
	// user names and passwords
	register(&Scenario{Name: "auth-credentials", Own: []string{"C19"}, Props: []string{"C19"}, Liveness: true, LIFO: true, Deep: 1, Shards: 4, Body: func(hp **H) {
		vrt.Freeze(true)
		text := func(n int, kind int) string {
			b := make([]byte, n)
			for i := range b {
				switch kind {
				case 0:
					b[i] = byte('a' + i%26)
				case 1:
					b[i] = byte(i*7 + n)
				case 2:
					b[i] = " \r\n%"[i%4]
				}
			}
			return string(b)
		}
		lens := []int{0, 1, 2, 3, 7, 8, 9, 10, 31, 63, 64, 90, 91, 98, 99, 100, 255, 256, 300, 997, 1000, 5000}
		u := text(lens[vrt.Choose(len(lens))], vrt.Choose(3))
		p := text(lens[vrt.Choose(len(lens))], vrt.Choose(3))
		h := newH(NetCfg{N: 1, RT: 1000 * ms, WT: 1000 * ms})
		*hp = h
		a := newAuth(h, u, p)
		h.openAuth(a, 1)
		vrt.Idle()
		if a.handshakes != 1 || len(h.logged) > 0 {
			h.fail("C19", "the authentication command was not sent completely")
			return
		}
		after(h, a)
	}})
	// faults at every operation, handshakes included, with interleavings
	register(&Scenario{Name: "auth-faults", Own: []string{"C19"}, Props: []string{"C19"}, Also: []string{"C17"}, P: 1, F: 3, TP: 2, TF: 3, Liveness: true, LIFO: true, Deep: 1, Delay: true, Shards: 4, TShards: 8, MaxTime: 1000 * time.Second, Body: func(hp **H) {
		h := newH(NetCfg{N: 1, RT: 1000 * ms, WT: 1000 * ms, MaxBatch: 100, Limit: 500, Faults: DialErr | WriteErr | WritePartial | ReadErr | ReadEOF | ReadOne | ReadDataEOF | ReadStall})
		h.slowServer = true
		*hp = h
		bad := vrt.Choose(3)
		a := newAuth(h, "user", "secret")
		a.reply = func(c *Conn) (string, int) {
			if c.id == 1 && bad == 1 {
				return "CLIENT_ERROR authentication failure\r\n", 0
			}
			if c.id <= 1 && bad == 2 {
				return "STORED", ReadEOF
			}
			return stored, 0
		}
		h.openAuth(a, 1)
		u := user("user0", func() { h.script(0, "gvrshr") })
		v := user("user1", func() { h.script(1, "gvr") })
		join(u, v)
		vrt.Freeze(true)
		h.net.cfg.Faults = 0
		bad = 0
		vrt.SleepUntil(vrt.Now() + 30000*ms)
		vrt.Idle()
		h.Pipeline().Any('g', key('v', 8, 0)).Wait()
		vrt.SleepUntil(vrt.Now() + 10000*ms)
		vrt.Idle()
		if k := h.Pipeline().Any('g', key('v', 9, 0)).Wait(); k.Err != nil {
			h.fail("C19,C05", k.String()+" failed although the server is well again: "+k.Err.Error())
		}
		if h.openConns() != 1 {
			h.fail("C19,C05", strconv.Itoa(h.openConns())+" open connections")
		}
		h.Close()
	}})

	// the dial function used by itself, with several timeouts and all faults
	register(&Scenario{Name: "auth-direct", Own: []string{"C19", "C18"}, Props: []string{"C19", "C18"}, P: 0, F: 3, TP: 0, TF: 4, Liveness: true, LIFO: true, MaxTime: 1000 * time.Second, Body: func(hp **H) {
		T := []int64{0, 1000 * ms, 10000 * ms}[vrt.Choose(3)]
		faults := DialErr | WriteErr | WritePartial | ReadErr | ReadEOF | ReadOne | ReadDataEOF | DeadlineErr
		if T > 0 { // no timeout: a silent server may block it for good
			faults |= ReadStall | WriteStall | DialSlow
		}
		h := newH(NetCfg{N: 1, Faults: faults})
		h.slowServer = true
		*hp = h
		vrt.Freeze(true)
		a := newAuth(h, "user", "secret")
		h.opHook = func(c *Conn, kind string, start int64, dl time.Time) {
			if n := deadlineNs(dl); T == 0 && !dl.IsZero() {
				h.fail("C18", "a "+kind+" of a handshake without timeout has a deadline")
			} else if T > 0 && (dl.IsZero() || n <= start || n > c.dialAt+T) {
				h.fail("C18", "the deadline of a "+kind+" of the handshake is not within the timeout of the dial")
			}
		}
		answer := vrt.Choose(4)
		a.reply = func(c *Conn) (string, int) {
			switch answer {
			case 1:
				return "CLIENT_ERROR authentication failure\r\n", 0
			case 2:
				return "ERROR\r\n", ReadEOF
			case 3:
				return stored + "END\r\n", 0 // early bytes stay in the connection
			}
			return stored, 0
		}
		t := vrt.Now()
		dial := a.dial()
		c, err := dial("tcp", "server:11211", time.Duration(T))
		if T > 0 && vrt.Now()-t > T {
			h.fail("C18", "the dial took "+time.Duration(vrt.Now()-t).String()+", the timeout is "+time.Duration(T).String())
		}
		if len(h.net.dials) != 1 || h.net.dials[0].timeout != time.Duration(T) || h.net.dials[0].addr != "server:11211" || h.net.dials[0].network != "tcp" {
			h.fail("C18", "wrong dial")
		}
		var nc *Conn
		if len(h.net.conns) > 0 {
			nc = h.net.conns[0]
		}
		if err != nil {
			if c != nil {
				h.fail("C19", "a connection is returned together with the error "+err.Error())
			}
			if nc != nil && !nc.closed {
				h.fail("C19", "the connection is not closed after the error "+err.Error())
			}
			if !h.net.faulty && (answer == 0 || answer == 3) {
				h.fail("C19", "the right answer gives "+err.Error())
			}
			if !h.net.faulty && answer == 1 && !errors.Is(err, netconn.ErrInvalidUsernamePassword) {
				h.fail("C19", "a refusal gives "+err.Error())
			}
			return
		}
		if c == nil || nc == nil {
			h.fail("C19", "neither connection nor error")
			return
		}
		if nc.closed || !nc.authDone || nc.read != len(stored) {
			h.fail("C19", "success, "+strconv.Itoa(nc.read)+" bytes of the answer were read")
		}
		if !nc.rdl.IsZero() || !nc.wdl.IsZero() {
			h.fail("C18", "the connection is handed over with a deadline")
		}
	}})
}
