package main

import (
	"errors"
	"io"
	"net"
	"os"
	"strconv"
	"time"

	"vrt"
	"vrt/vtime"
)

// Fault bits a scenario may enable; each use costs one unit of the fault budget.
const (
	DialErr      = 1 << iota // dial fails at once
	DialSlow                 // dial fails after the connect timeout
	WriteErr                 // write fails, nothing was sent
	WritePartial             // half of the bytes are sent, then the write fails
	WriteStall               // the peer stops reading: write times out
	ReadErr                  // connection reset
	ReadEOF                  // peer closes
	ReadOne                  // short read of one byte
	ReadStall                // the peer stops answering for good
	ReadDataEOF              // data and EOF in the same read
	DeadlineErr              // the deadline cannot be set
)

// NetCfg configures the simulated network.
type NetCfg struct {
	N        int // pool size
	Faults   int
	Hold     bool // replies are withheld until released
	Chunk    int  // maximal bytes per read, 0 = no limit
	Latency  int64
	RT, WT   int64 // configured timeouts (for oracles)
	MaxBatch int
	Limit    int
	Health   bool // unsolicited version commands are legitimate
	Raw      func(c *Conn, cmd *WireCmd) (reply string, ok bool)
	OnWrite  func(c *Conn, p []byte)
	Wrote    func(c *Conn, p []byte, returns bool) // after the bytes have arrived, and when Write returns
	OnCmd    func(c *Conn, cmd *WireCmd)
	OnDial   func(c *Conn)
	Script   func(kind string, conn, op int) int // scripted (free) faults: returns a fault bit or 0
	Auth     func(c *Conn, in []byte)            // takes over the stream until c.authDone
	Stream   func(c *Conn, in []byte)            // takes over the stream (after authentication)
}

// WireCmd is one command parsed from the bytes of a connection.
type WireCmd struct {
	Verb, Key, Raw string
	Val            string
	Flags          string
	Bad            bool
	Call           *Call // the issued call it was matched with
	Conn           *Conn
	Idx            int // index on its connection
	ReplyEnd       int // offset in the reply stream after its reply, -1 when none was produced
	ReplyStart     int
	Batch          int
	first          *WireCmd // of its batch
}

// Net is the simulated network with a memcached server model on every connection.
type Net struct {
	h        *H
	cfg      NetCfg
	o        vrt.Obj
	conns    []*Conn
	dials    []dialRec
	nOpen    int
	activity []int64
	errs     []error // every error handed to the client
	faulty   bool    // some fault was injected
	cuts     []int   // reads never cross these offsets of the reply stream
	slots    []*Conn
}

type dialRec struct {
	start, end int64
	network    string
	addr       string
	timeout    time.Duration
	err        error
	conn       *Conn
}

// Conn is the client's end of a simulated connection.
type Conn struct {
	n           *Net
	id          int
	o           vrt.Obj
	in          []byte // unparsed bytes
	inTotal     int
	wire        []byte
	cmds        []*WireCmd
	out         []byte // readable
	held        [][]byte
	outTotal    int   // bytes ever produced by the server
	read        int   // bytes delivered to the client
	avail       int64 // instant from which out is readable
	closed      bool
	eof         bool
	err         error // sticky failure
	dead        bool  // peer silent for good
	errs        []error
	rdl, wdl    time.Time
	nr, nw      int
	dead0       bool // peer does not read: writes stall
	silentAfter bool // no further replies
	bad         bool
	authDone    bool
	authBuf     []byte
	dialAt      int64
	openedAt    int64
	closedAt    int64
	failed      bool // client saw an error on it
	errAt       int64
	inRead      bool
	inWrite     bool
	slot        int
	maxRead     int      // the longest read asked for
	refused     bool     // failed authentication
	firstBad    *WireCmd // the first command answered with a malformed reply
}

type netErr struct {
	msg     string
	timeout bool
}

func (e *netErr) Error() string   { return e.msg }
func (e *netErr) Timeout() bool   { return e.timeout }
func (e *netErr) Temporary() bool { return e.timeout }
func (e *netErr) Is(target error) bool {
	return e.timeout && target == os.ErrDeadlineExceeded
}

func newNet(h *H, cfg NetCfg) *Net { return &Net{h: h, cfg: cfg} }

func (n *Net) mark() { n.activity = append(n.activity, vrt.PeekNow()) }

// opts lists the enabled fault bits for an operation.
func (n *Net) fault(kind string, conn, op int, mask int) int {
	if n.cfg.Script != nil {
		if f := n.cfg.Script(kind, conn, op); f != 0 {
			return f
		}
	}
	mask &= n.cfg.Faults
	if mask == 0 {
		return 0
	}
	var list [12]int
	k := 1
	for b := 1; b <= DeadlineErr; b <<= 1 {
		if mask&b != 0 {
			list[k] = b
			k++
		}
	}
	f := list[vrt.EnvKey(kind, conn, op, k)]
	if f != 0 {
		vrt.Note("fault %s on conn %d op %d: %s", kind, conn, op, faultName(f))
	}
	return f
}

func faultName(f int) string {
	names := []string{"dial error", "dial timeout", "write error", "partial write", "write stall", "read reset", "EOF", "short read", "silent peer", "data+EOF", "deadline not set"}
	for i, s := range names {
		if f == 1<<i {
			return s
		}
	}
	return strconv.Itoa(f)
}

// DialFunc is handed to the client.
func (n *Net) DialFunc(network, addr string, timeout time.Duration) (net.Conn, error) {
	vrt.Enter()
	defer vrt.Leave()
	vrt.Point("dial", nil)
	vrt.Event(&n.o, 0xd1a1)
	rec := dialRec{start: vrt.PeekNow(), network: network, addr: addr, timeout: timeout}
	i := len(n.dials)
	n.dials = append(n.dials, rec)
	n.h.onDial(i)
	f := n.fault("dial", 0, i, DialErr|DialSlow)
	var err error
	switch f {
	case DialErr:
		err = &netErr{msg: "dial refused #" + strconv.Itoa(i)}
	case DialSlow:
		vrt.WaitUntil("slow dial", func() bool { return false }, vrt.PeekNow()+int64(timeout))
		vrt.Event(&n.o, 0xd1a2)
		err = &netErr{msg: "dial timeout #" + strconv.Itoa(i), timeout: true}
	}
	n.dials[i].end = vrt.PeekNow()
	if err != nil {
		n.faulty = true
		n.dials[i].err = err
		n.errs = append(n.errs, err)
		vrt.Note("dial #%d fails: %v", i, err)
		return nil, err
	}
	c := &Conn{n: n, id: len(n.conns), openedAt: vrt.PeekNow(), dialAt: rec.start, slot: -1}
	n.conns = append(n.conns, c)
	n.place(c)
	n.dials[i].conn = c
	n.nOpen++
	n.mark()
	vrt.Note("dial #%d -> conn %d", i, c.id)
	if n.nOpen > n.cfg.N && n.cfg.N > 0 {
		vrt.FailOracle("C05", "more open connections than pool slots: "+strconv.Itoa(n.nOpen))
	}
	if n.cfg.OnDial != nil {
		n.cfg.OnDial(c)
	}
	return c, nil
}

// place assigns a new connection to the pool slot it must be for, if that is clear.
func (n *Net) place(c *Conn) {
	if len(n.dials) <= n.cfg.N { // the initial dials happen in order
		for len(n.slots) < len(n.dials)-1 {
			n.slots = append(n.slots, nil)
		}
		n.slots = append(n.slots, c)
		c.slot = len(n.dials) - 1
		return
	}
	for len(n.slots) < n.cfg.N {
		n.slots = append(n.slots, nil)
	}
	free := -1
	for i, d := range n.slots {
		if d == nil || d.closed {
			if free >= 0 {
				n.slots[i], n.slots[free] = nil, nil
				free = -2
				break
			}
			free = i
		}
	}
	if free >= 0 {
		n.slots[free] = c
		c.slot = free
	}
}

func (c *Conn) fail(err error) error {
	if !c.failed {
		c.errAt = vrt.PeekNow()
	}
	c.failed = true
	c.errs = append(c.errs, err)
	c.n.errs = append(c.n.errs, err)
	return err
}

func (c *Conn) brk(msg string) error {
	c.n.faulty = true
	if c.err == nil {
		c.err = &netErr{msg: msg + " on conn " + strconv.Itoa(c.id)}
	}
	return c.fail(c.err)
}

var errClosed = net.ErrClosed

// Write implements net.Conn.
func (c *Conn) Write(p []byte) (int, error) {
	vrt.Enter()
	defer vrt.Leave()
	vrt.Point("conn write", nil)
	vrt.Event(&c.o, 0x3217e)
	vrt.RaceReadBytes(p)
	vrt.RaceWriteBytes(nil)
	vrt.RaceReleaseMerge(vrt.Addr(&c.o))
	start := vrt.PeekNow()
	op := c.nw
	c.nw++
	if c.inWrite {
		vrt.FailOracle("C02", "two goroutines write one connection at the same time")
	}
	if c.closed {
		return 0, c.fail(errClosed)
	}
	if c.err != nil {
		return 0, c.fail(c.err)
	}
	c.n.h.onNetOp(c, "write", start, c.wdl)
	f := c.n.fault("write", c.id, op, WriteErr|WritePartial|WriteStall)
	if c.dead0 {
		f = WriteStall
	}
	switch f {
	case WriteErr:
		return 0, c.brk("write error")
	case WritePartial:
		c.n.mark()
		k := (len(p) + 1) / 2
		c.receive(p[:k])
		vrt.Point("conn half written", nil)
		return k, c.brk("partial write")
	case WriteStall:
		c.n.faulty = true
		c.dead0 = true
		c.dead = true
		c.inWrite = true
		dl := deadlineNs(c.wdl)
		vrt.WaitUntil("conn write (stalled)", func() bool { return c.closed }, dl)
		c.inWrite = false
		vrt.Event(&c.o, 0x57a11)
		if c.closed {
			return 0, c.fail(errClosed)
		}
		return 0, c.fail(&netErr{msg: "write timeout on conn " + strconv.Itoa(c.id), timeout: true})
	}
	c.n.mark()
	vrt.Alive()
	vrt.Note("conn %d write %q", c.id, p)
	c.receive(p)
	wrote := c.n.cfg.Wrote
	if wrote != nil {
		wrote(c, p, false)
	}
	vrt.Point("conn written", nil) // the peer may answer before Write returns
	if wrote != nil {
		vrt.Event(&c.o, 0xe2d)
		wrote(c, p, true)
	}
	return len(p), nil
}

// deadlineNs converts a deadline; 0 means none.
func deadlineNs(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	return vtime.FromTime(t)
}

// Read implements net.Conn.
func (c *Conn) Read(p []byte) (int, error) {
	vrt.Enter()
	defer vrt.Leave()
	start := vrt.PeekNow()
	c.n.h.onNetOp(c, "read", start, c.rdl)
	if c.inRead {
		vrt.FailOracle("C10", "two goroutines read one connection at the same time")
	}
	c.inRead = true
	c.maxRead = max(c.maxRead, len(p))
	ready := func() bool {
		return c.closed || c.err != nil || c.eof || (len(c.out) > 0 && !c.dead && c.avail <= vrt.PeekNow())
	}
	vrt.WaitUntil("conn read", ready, deadlineNs(c.rdl))
	c.inRead = false
	vrt.Event(&c.o, 0x4ead)
	vrt.RaceAcquire(vrt.Addr(&c.o))
	op := c.nr
	c.nr++
	if c.closed {
		return 0, c.fail(errClosed)
	}
	if len(c.out) == 0 || c.dead {
		if c.err != nil {
			return 0, c.fail(c.err)
		}
		if c.eof {
			c.n.faulty = true
			return 0, c.fail(io.EOF)
		}
		c.n.faulty = true
		return 0, c.fail(&netErr{msg: "read timeout on conn " + strconv.Itoa(c.id), timeout: true})
	}
	max := len(c.out)
	if max > len(p) {
		max = len(p)
	}
	if c.n.cfg.Chunk > 0 && max > c.n.cfg.Chunk {
		max = c.n.cfg.Chunk
	}
	mask := ReadErr | ReadEOF | ReadStall | ReadDataEOF
	if max > 1 {
		mask |= ReadOne
	}
	for _, k := range c.n.cuts {
		if k > c.read && k < c.read+max {
			max = k - c.read
		}
	}
	var rerr error
	switch c.n.fault("read", c.id, op, mask) {
	case ReadErr:
		return 0, c.brk("read reset")
	case ReadEOF:
		c.n.faulty = true
		c.eof = true
		c.out = nil
		return 0, c.fail(io.EOF)
	case ReadOne:
		max = 1
	case ReadStall:
		c.n.faulty = true
		c.dead = true
		vrt.WaitUntil("conn read (silent peer)", func() bool { return c.closed }, deadlineNs(c.rdl))
		vrt.Event(&c.o, 0x57a11)
		if c.closed {
			return 0, c.fail(errClosed)
		}
		return 0, c.fail(&netErr{msg: "read timeout on conn " + strconv.Itoa(c.id), timeout: true})
	case ReadDataEOF:
		c.n.faulty = true
		c.eof = true
		rerr = c.fail(io.EOF)
	}
	k := copy(p[:max], c.out)
	vrt.RaceWriteBytes(p[:k])
	vrt.Note("conn %d read %q", c.id, c.out[:k])
	c.out = c.out[k:]
	c.read += k
	vrt.Alive()
	c.n.mark()
	if rerr != nil {
		c.out = nil
	}
	return k, rerr
}

// Close implements net.Conn.
func (c *Conn) Close() error {
	vrt.Enter()
	defer vrt.Leave()
	vrt.Point("conn close", nil)
	vrt.Event(&c.o, 0xc105e)
	if c.closed {
		return errClosed
	}
	c.closed = true
	c.closedAt = vrt.PeekNow()
	vrt.Event(&c.n.o, 0xc105e)
	c.n.nOpen--
	vrt.Note("conn %d closed by client", c.id)
	c.n.h.onClose(c)
	vrt.Changed()
	vrt.Point("conn closed", nil)
	return nil
}

func (c *Conn) SetDeadline(t time.Time) error {
	vrt.Enter()
	defer vrt.Leave()
	if err := c.deadlineErr("deadline", c.nr+c.nw); err != nil {
		return err
	}
	c.rdl, c.wdl = t, t
	vrt.Changed()
	return nil
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	vrt.Enter()
	defer vrt.Leave()
	if err := c.deadlineErr("read deadline", c.nr); err != nil {
		return err
	}
	c.rdl = t
	vrt.Changed()
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	vrt.Enter()
	defer vrt.Leave()
	if err := c.deadlineErr("write deadline", c.nw); err != nil {
		return err
	}
	c.wdl = t
	vrt.Changed()
	return nil
}

// deadlineErr decides whether a deadline can be set.
func (c *Conn) deadlineErr(kind string, op int) error {
	if c.n.cfg.Faults&DeadlineErr == 0 || c.closed {
		return nil
	}
	if c.n.fault(kind, c.id, op, DeadlineErr) == 0 {
		return nil
	}
	c.n.faulty = true
	return c.fail(&netErr{msg: kind + " not set on conn " + strconv.Itoa(c.id)})
}

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

func (c *Conn) LocalAddr() net.Addr  { return simAddr("client") }
func (c *Conn) RemoteAddr() net.Addr { return simAddr("server") }

// PeerClose makes the peer close the connection (no more bytes after those already sent).
func (c *Conn) PeerClose() {
	vrt.Enter()
	defer vrt.Leave()
	vrt.Event(&c.o, 0x9ee4)
	c.eof = true
	c.n.faulty = true
	vrt.Changed()
}

// Reset makes the peer reset the connection.
func (c *Conn) Reset() {
	vrt.Enter()
	defer vrt.Leave()
	vrt.Event(&c.o, 0x9ee7)
	c.err = &netErr{msg: "connection reset on conn " + strconv.Itoa(c.id)}
	c.out = nil
	c.n.faulty = true
	vrt.Changed()
}

// Stall makes the peer stop reading: writes block until their deadline.
func (c *Conn) Stall() {
	vrt.Enter()
	defer vrt.Leave()
	vrt.Event(&c.o, 0x9ee6)
	c.dead0 = true
	vrt.Changed()
}

// Kill makes the peer silent for good.
func (c *Conn) Kill() {
	vrt.Enter()
	defer vrt.Leave()
	vrt.Event(&c.o, 0x9ee5)
	c.dead = true
	c.n.faulty = true
	vrt.Changed()
}

// produce appends server output.
func (c *Conn) produce(reply string) {
	if c.n.cfg.Hold {
		c.held = append(c.held, []byte(reply))
	} else {
		c.out = append(c.out, reply...)
		if c.n.cfg.Latency > 0 {
			c.avail = vrt.PeekNow() + c.n.cfg.Latency
			vrt.AddTimer(c.avail, func() {})
		}
	}
	c.outTotal += len(reply)
	vrt.Changed()
}

// Release lets k withheld replies through (k<0: all and stop holding).
func (n *Net) Release(c *Conn, k int) {
	vrt.Enter()
	defer vrt.Leave()
	vrt.Point("server releases", nil)
	vrt.Event(&c.o, 0x4e1ea5e)
	for i := 0; len(c.held) > 0 && (k < 0 || i < k); i++ {
		c.out = append(c.out, c.held[0]...)
		c.held = c.held[1:]
	}
	vrt.Changed()
}

// ReleaseAll lets everything through on all connections and stops holding.
func (n *Net) ReleaseAll() {
	vrt.Enter()
	n.cfg.Hold = false
	cs := n.conns
	vrt.Leave()
	for _, c := range cs {
		n.Release(c, -1)
	}
}

var errBadWire = errors.New("bad wire")

// receive is the server's side of a write.
func (c *Conn) receive(p []byte) {
	vrt.Changed()
	c.wire = append(c.wire, p...)
	c.inTotal += len(p)
	if c.n.cfg.OnWrite != nil {
		c.n.cfg.OnWrite(c, p)
	}
	if c.n.cfg.Auth != nil && !c.authDone {
		c.n.cfg.Auth(c, p)
		return
	}
	if c.n.cfg.Stream != nil {
		c.n.cfg.Stream(c, p)
		return
	}
	c.in = append(c.in, p...)
	for !c.bad {
		w, used := parseWire(c.in)
		if w == nil {
			break
		}
		c.in = c.in[used:]
		w.Conn = c
		w.Idx = len(c.cmds)
		w.ReplyEnd = -1
		c.cmds = append(c.cmds, w)
		c.n.h.onCmd(c, w)
		if c.n.cfg.OnCmd != nil {
			c.n.cfg.OnCmd(c, w)
		}
		if c.dead || c.silentAfter || c.eof || c.err != nil {
			continue
		}
		reply, ok := "", false
		if c.n.cfg.Raw != nil {
			reply, ok = c.n.cfg.Raw(c, w)
		}
		if k := w.Call; !ok && k != nil && k.reply != nil {
			reply, ok = k.reply.Text, true
			if k.reply.Bad || k.reply.Wild {
				c.n.h.malformed = true
				if c.firstBad == nil {
					c.firstBad = w
				}
			}
		}
		if !ok {
			reply = c.defaultReply(w)
		}
		if reply != "" {
			w.ReplyStart = c.outTotal
			c.produce(reply)
			w.ReplyEnd = c.outTotal
		}
	}
	c.n.h.onWire(c)
}

// parseWire takes one command off the front of b; nil if incomplete.
func parseWire(b []byte) (*WireCmd, int) {
	e := -1
	for i := 0; i+1 < len(b); i++ {
		if b[i] == '\r' && b[i+1] == '\n' {
			e = i
			break
		}
	}
	if e < 0 {
		return nil, 0
	}
	line := string(b[:e])
	f := fields(line)
	w := &WireCmd{}
	if len(f) > 0 {
		w.Verb = f[0]
	}
	if len(f) > 1 {
		w.Key = f[1]
	}
	used := e + 2
	switch w.Verb {
	case "mg", "md", "version", "flush_all":
		if w.Verb == "mg" || w.Verb == "md" {
			for _, x := range f[min(2, len(f)):] {
				w.Flags += " " + x
			}
		}
	case "ms":
		if len(f) < 3 {
			w.Bad = true
			break
		}
		size, err := strconv.Atoi(f[2])
		if err != nil || size < 0 {
			w.Bad = true
			break
		}
		if len(b) < used+size+2 {
			return nil, 0
		}
		w.Val = string(b[used : used+size])
		if b[used+size] != '\r' || b[used+size+1] != '\n' {
			w.Bad = true
		}
		used += size + 2
		for _, x := range f[3:] {
			w.Flags += " " + x
		}
	default:
		w.Bad = true
	}
	w.Raw = string(b[:used])
	return w, used
}

func fields(s string) []string {
	var r []string
	i := 0
	for i < len(s) {
		for i < len(s) && s[i] == ' ' {
			i++
		}
		j := i
		for j < len(s) && s[j] != ' ' {
			j++
		}
		if j > i {
			r = append(r, s[i:j])
		}
		i = j
	}
	return r
}

// defaultReply is the server model: the reply is a function of the (unique) key, see call.go.
func (c *Conn) defaultReply(w *WireCmd) string {
	switch {
	case w.Bad:
		return "ERROR\r\n"
	case w.Verb == "version":
		return "VERSION 1." + strconv.Itoa(c.id) + "." + strconv.Itoa(w.Idx) + "\r\n"
	case w.Verb == "flush_all":
		return "OK\r\n"
	}
	return keyReply(w.Verb, w.Key)
}
