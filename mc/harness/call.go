package main

import (
	"errors"
	"net"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/QuangTung97/go-memcache/memcache"
	"vrt"
)

// H is one execution of a scenario: client, network, ledger of issued commands.
type H struct {
	cfg    NetCfg
	net    *Net
	cl     *memcache.Client
	calls  []*Call
	pipes  []*Pipe
	closed bool // Close has begun
	cdone  bool // Close has returned
	o      vrt.Obj

	logged     []error
	npipe      int
	mixProps   string
	out        []string
	opHook     func(c *Conn, kind string, start int64, dl time.Time)
	wireHook   func(c *Conn, w *WireCmd)
	relaxErr   bool // errors are judged by the scenario
	malformed  bool
	lateDials  int
	slowServer bool // the scenario delays replies
	closeStart int64
	turns      bool // pipelines under way take turns
	inputs     int  // inputs exercised beyond one per execution
}

// Reply is a scripted server reply with its meaning.
type Reply struct {
	Text string
	Res  Res
	Err  string // server error message
	IsE  bool
	Bad  bool // malformed: the call must fail
	Wild bool // anything may come of it
}

// Pipe is a user pipeline with its recorded commands.
type Pipe struct {
	h     *H
	id    int
	p     *memcache.Pipeline
	calls []*Call
	last  int // seq of the last command seen on the wire
	conn  int
	slot  int
	batch int
	inBat int

	flushed            bool // the flush was recorded
	flushConn, flushAt int
	ahead              int // batches of other pipelines that may be written before
	since              []int
}

// Res is a decoded result.
type Res struct {
	Typ   int
	Data  string
	Flags uint64
	CAS   uint64
	Ver   string
}

// Call is one issued command.
type Call struct {
	p     *Pipe
	seq   int
	Verb  string
	Key   string
	Enc   string
	Batch int // batch of its pipeline session
	sent  *WireCmd
	exec  func() (Res, error)
	raw   []byte // the value slice as returned
	done  bool
	Res   Res
	Err   error
	start int64
	end   int64
	began bool
	flush bool
	reply *Reply
	kept  bool   // the caller retains raw
	once  bool   // the command object has been given back: no second call
	inb   []byte // the caller's value slice, overwritten with '!'

	ver, text string // the version string as returned, a copy of the error text
}

func casOf(key string) uint64 {
	h := vrt.HashString(key)
	switch h % 4 {
	case 0:
		return h
	case 1:
		return h % 100000
	case 2:
		return 18446744073709551615
	}
	return h % 10
}

func valOf(key string) string {
	switch key[0] {
	case 'z':
		return ""
	case 'V':
		return strings.Repeat("<"+key+">\r\n", 20)
	case 'b': // b<size>.<anything>
		n := 0
		for i := 1; i < len(key) && key[i] >= '0' && key[i] <= '9'; i++ {
			n = n*10 + int(key[i]-'0')
		}
		return sized(key, n)
	}
	return "D(" + key + ")"
}

// sized is a text of n bytes made from key.
func sized(key string, n int) string {
	b := make([]byte, 0, n+len(key)+1)
	for len(b) < n {
		b = append(append(b, key...), '|')
	}
	return string(b[:n])
}

// keyReply is the reply of the server model to a command, determined by its key.
func keyReply(verb, key string) string {
	if key == "" {
		return "CLIENT_ERROR bad\r\n"
	}
	if key[0] == 'e' {
		return "SERVER_ERROR msg " + key + "\r\n"
	}
	switch verb {
	case "mg":
		cas := strconv.FormatUint(casOf(key), 10)
		v := valOf(key)
		n := strconv.Itoa(len(v))
		switch key[0] {
		case 'n':
			return "EN\r\n"
		case 'H':
			return "HD c" + cas + " W\r\n"
		case 'v', 'V':
			return "VA " + n + " c" + cas + "\r\n" + v + "\r\n"
		case 'X':
			return "VA " + n + " W c" + cas + " X Z\r\n" + v + "\r\n"
		case 'z':
			return "VA 0 Z\r\n\r\n"
		}
		return "VA " + n + " W\r\n" + v + "\r\n"
	case "ms":
		switch key[0] {
		case 'n':
			return "NS\r\n"
		case 'x':
			return "EX\r\n"
		case 'f':
			return "NF\r\n"
		}
		return "HD\r\n"
	case "md":
		switch key[0] {
		case 'f':
			return "NF\r\n"
		case 'x':
			return "EX\r\n"
		}
		return "HD\r\n"
	}
	return "ERROR\r\n"
}

// expected is the decoded form of keyReply, written down independently.
func expected(verb, key string) (Res, string) {
	if key != "" && key[0] == 'e' {
		return Res{}, "msg " + key
	}
	var r Res
	switch verb {
	case "mg":
		switch key[0] {
		case 'n':
			r.Typ = int(memcache.MGetResponseTypeEN)
		case 'H':
			r.Typ = int(memcache.MGetResponseTypeHD)
			r.CAS = casOf(key)
			r.Flags = uint64(memcache.MGetFlagW)
		case 'v', 'V':
			r.Typ = int(memcache.MGetResponseTypeVA)
			r.Data = valOf(key)
			r.CAS = casOf(key)
		case 'X':
			r.Typ = int(memcache.MGetResponseTypeVA)
			r.Data = valOf(key)
			r.CAS = casOf(key)
			r.Flags = uint64(memcache.MGetFlagW | memcache.MGetFlagX | memcache.MGetFlagZ)
		case 'z':
			r.Typ = int(memcache.MGetResponseTypeVA)
			r.Flags = uint64(memcache.MGetFlagZ)
		default:
			r.Typ = int(memcache.MGetResponseTypeVA)
			r.Data = valOf(key)
			r.Flags = uint64(memcache.MGetFlagW)
		}
	case "ms":
		switch key[0] {
		case 'n':
			r.Typ = int(memcache.MSetResponseTypeNS)
		case 'x':
			r.Typ = int(memcache.MSetResponseTypeEX)
		case 'f':
			r.Typ = int(memcache.MSetResponseTypeNF)
		default:
			r.Typ = int(memcache.MSetResponseTypeHD)
		}
	case "md":
		switch key[0] {
		case 'f':
			r.Typ = int(memcache.MDelResponseTypeNF)
		case 'x':
			r.Typ = int(memcache.MDelResponseTypeEX)
		default:
			r.Typ = int(memcache.MDelResponseTypeHD)
		}
	}
	return r, ""
}

// Pipeline starts a pipeline.
func (h *H) Pipeline() *Pipe {
	vrt.Enter()
	defer vrt.Leave()
	p := &Pipe{h: h, id: len(h.pipes), p: h.cl.Pipeline(), last: -1, conn: -1, slot: -1}
	h.pipes = append(h.pipes, p)
	return p
}

func (p *Pipe) add(verb, key, enc string) *Call {
	vrt.Enter()
	defer vrt.Leave()
	c := &Call{p: p, seq: len(p.calls), Verb: verb, Key: key, Enc: enc, Batch: p.batch}
	if p.inBat >= p.h.cfg.MaxBatch && p.h.cfg.MaxBatch > 0 {
		p.batch++
		p.inBat = 0
		c.Batch = p.batch
	}
	p.inBat++
	p.calls = append(p.calls, c)
	p.h.calls = append(p.h.calls, c)
	return c
}

// cut ends the current session: the next command starts a new batch.
func (p *Pipe) cut() {
	p.batch++
	p.inBat = 0
}

func itoa(n uint64) string { return strconv.FormatUint(n, 10) }

// Get issues a meta get.
func (p *Pipe) Get(key string, o memcache.MGetOptions) *Call {
	enc := "mg " + key
	if o.CAS {
		enc += " c"
	}
	if o.N > 0 {
		enc += " N" + itoa(uint64(o.N))
	}
	c := p.add("mg", key, enc+" v\r\n")
	f := p.p.MGet(key, o)
	c.kept = true
	c.exec = func() (Res, error) {
		r, err := f()
		c.raw = r.Data
		return Res{Typ: int(r.Type), Data: string(r.Data), Flags: uint64(r.Flags), CAS: r.CAS}, err
	}
	return c
}

// GetFast issues a meta get through MGetFast; release gives the command object back after use.
func (p *Pipe) GetFast(key string, o memcache.MGetOptions, release bool) *Call {
	enc := "mg " + key
	if o.CAS {
		enc += " c"
	}
	if o.N > 0 {
		enc += " N" + itoa(uint64(o.N))
	}
	c := p.add("mg", key, enc+" v\r\n")
	f, err := p.p.MGetFast(key, o)
	c.kept, c.once = !release, release
	c.exec = func() (Res, error) {
		if err != nil {
			return Res{}, err
		}
		r, err := f.Result()
		c.raw = r.Data
		res := Res{Typ: int(r.Type), Data: string(r.Data), Flags: uint64(r.Flags), CAS: r.CAS}
		if release {
			memcache.ReleaseGetResponseData(r.Data)
			memcache.ReleaseMGetResult(f)
		}
		return res, err
	}
	return c
}

// Set issues a meta set; the value slice is overwritten right after the call.
func (p *Pipe) Set(key, val string, o memcache.MSetOptions) *Call {
	enc := "ms " + key + " " + strconv.Itoa(len(val))
	if o.CAS > 0 {
		enc += " C" + itoa(o.CAS)
	}
	if o.TTL > 0 {
		enc += " T" + itoa(uint64(o.TTL))
	}
	c := p.add("ms", key, enc+"\r\n"+val+"\r\n")
	b := []byte(val)
	f := p.p.MSet(key, b, o)
	for i := range b {
		b[i] = '!'
	}
	c.inb = b
	c.exec = func() (Res, error) {
		r, err := f()
		return Res{Typ: int(r.Type)}, err
	}
	return c
}

// Del issues a meta delete.
func (p *Pipe) Del(key string, o memcache.MDelOptions) *Call {
	enc := "md " + key
	if o.CAS > 0 {
		enc += " C" + itoa(o.CAS)
	}
	if o.I {
		enc += " I"
		if o.TTL > 0 {
			enc += " T" + itoa(uint64(o.TTL))
		}
	}
	c := p.add("md", key, enc+"\r\n")
	f := p.p.MDel(key, o)
	c.exec = func() (Res, error) {
		r, err := f()
		return Res{Typ: int(r.Type)}, err
	}
	return c
}

// Version issues a version command.
func (p *Pipe) Version() *Call {
	c := p.add("version", "", "version\r\n")
	f := p.p.Version()
	c.exec = func() (Res, error) {
		r, err := f()
		return Res{Ver: r.Version}, err
	}
	return c
}

// Flush issues a flush_all.
func (p *Pipe) Flush() *Call {
	c := p.add("flush_all", "", "flush_all\r\n")
	f := p.p.FlushAll()
	c.exec = func() (Res, error) { return Res{}, f() }
	return c
}

// Execute sends what is pending.
func (p *Pipe) Execute() {
	p.p.Execute()
	vrt.Enter()
	for _, c := range p.calls {
		c.flush = true
	}
	p.cut()
	p.flushNote()
	vrt.Leave()
}

// Finish completes what is pending.
func (p *Pipe) Finish() {
	p.p.Finish()
	vrt.Enter()
	for _, c := range p.calls {
		c.flush = true
		if h := p.h; !h.net.faulty && !h.malformed && !h.relaxErr && !h.closed && !c.done {
			if w := c.sent; w == nil {
				h.fail("C13", "Finish returned and "+c.String()+" was not delivered")
			} else if w.ReplyEnd < 0 || w.Conn.read < w.ReplyEnd {
				h.fail("C13", "Finish returned before "+c.String()+" was answered")
			}
		}
	}
	p.cut()
	vrt.Leave()
}

// Any issues a command of the kind denoted by verb letter g,s,d with the key.
func (p *Pipe) Any(verb byte, key string) *Call {
	switch verb {
	case 'g':
		return p.Get(key, memcache.MGetOptions{CAS: true})
	case 'G':
		return p.GetFast(key, memcache.MGetOptions{N: 7}, true)
	case 's':
		return p.Set(key, "val-"+key, memcache.MSetOptions{})
	case 'd':
		return p.Del(key, memcache.MDelOptions{})
	case 'V':
		return p.Version()
	case 'F':
		return p.Flush()
	}
	panic("kind")
}

// Wait collects the result and judges it.
func (c *Call) Wait() *Call {
	h := c.p.h
	vrt.Enter()
	c.start = vrt.PeekNow()
	c.began = true
	vrt.Leave()
	res, err := c.exec()
	vrt.Enter()
	defer vrt.Leave()
	c.p.cut()
	for _, d := range c.p.calls {
		d.flush = true
	}
	c.done = true
	c.ver = res.Ver
	res.Ver = strings.Clone(res.Ver)
	c.Res, c.Err = res, err
	if err != nil {
		c.text = strings.Clone(err.Error())
	}
	c.end = vrt.PeekNow()
	h.judgeTime(c)
	h.judge(c)
	if !c.once {
		vrt.Leave()
		c.again()
		vrt.Enter()
	}
	return c
}

// again calls the result function a second time, right after it gave the result or the error.
func (c *Call) again() {
	raw := c.raw
	_, err := c.exec()
	c.raw = raw
	if !errors.Is(err, memcache.ErrAlreadyGotten) {
		c.p.h.fail("C13", "the second result of "+c.String()+" is "+errText(err)+" after the first was "+errText(c.Err))
	}
}

// judgeTime checks how long the call took on the virtual clock.
func (h *H) judgeTime(c *Call) {
	if vrt.EarlyTime() || h.closed || h.slowServer {
		return
	}
	if w := c.carrier(); h.cfg.N > 1 && w != nil && w.id < h.cfg.N && len(w.errs) == 0 && c.end != c.start {
		h.fail("C04,C03", c.String()+" was delayed by "+time.Duration(c.end-c.start).String()+" although its connection never failed")
	}
	if h.cfg.N == 1 {
		last := c.start
		limit := h.cfg.RT + h.cfg.WT
		for _, a := range h.net.activity {
			if a > c.end {
				break
			}
			if a > last {
				if a-last > limit {
					break
				}
				last = a
			}
		}
		if c.end-last > limit {
			h.fail("C03,C18", c.String()+" returned "+time.Duration(c.end-last).String()+" after the last network activity")
		}
	}
}

func (r Res) String() string {
	s := strconv.Itoa(r.Typ)
	if r.Data != "" {
		s += "=" + r.Data
	}
	if r.Flags != 0 {
		s += " f" + strconv.FormatUint(r.Flags, 10)
	}
	if r.CAS != 0 {
		s += " c" + strconv.FormatUint(r.CAS, 10)
	}
	return s + r.Ver
}

func (c *Call) String() string {
	return "pipeline " + strconv.Itoa(c.p.id) + " #" + strconv.Itoa(c.seq) + " " + c.Verb + " " + c.Key
}

func (h *H) fail(props, msg string) { vrt.FailOracle(props, msg) }

// judge checks a finished call.
func (h *H) judge(c *Call) {
	if c.Err == nil {
		vrt.Note("%s -> %s", c, c.Res)
	} else {
		vrt.Note("%s -> error %v", c, c.Err)
	}
	if h.relaxErr {
		return
	}
	extra := ""
	if h.net.faulty {
		extra = ",C04,C05"
	}
	if h.mixProps != "" {
		extra += "," + h.mixProps
	}
	if (c.Verb == "version" || c.Verb == "flush_all") && c.reply == nil {
		if c.Err == nil && c.Verb == "version" {
			w := c.sent
			if w == nil {
				h.fail("C01,C02"+extra, c.String()+": success, but it was never sent")
				return
			}
			want := "1." + strconv.Itoa(w.Conn.id) + "." + strconv.Itoa(w.Idx)
			if c.Res.Ver != want && h.countVerb("version") == 1 {
				h.fail("C01"+extra, c.String()+": got version "+c.Res.Ver+" want "+want)
				return
			}
			if !strings.HasPrefix(c.Res.Ver, "1.") {
				h.fail("C01"+extra, c.String()+": got version "+c.Res.Ver)
				return
			}
		}
		if c.Err != nil {
			h.judgeErr(c, extra)
		}
		return
	}
	want, wantErr := expected(c.Verb, c.Key)
	isErr := wantErr != ""
	if r := c.reply; r != nil {
		want, wantErr, isErr = r.Res, r.Err, r.IsE
		if r.Wild {
			return
		}
		if r.Bad {
			if c.Err == nil {
				h.fail("C11,C10", c.String()+": malformed reply "+strconv.Quote(r.Text)+" accepted as "+c.Res.String())
			}
			return
		}
	}
	if c.Err == nil {
		if c.sent == nil {
			h.fail("C01,C02,C04"+extra, c.String()+": success although the command was never sent completely")
			return
		}
		w := c.sent
		if w.ReplyEnd < 0 || w.Conn.read < w.ReplyEnd {
			h.fail("C04,C01"+extra, c.String()+": success although its complete reply was never received: "+c.Res.String())
			return
		}
		if isErr || c.Res != want {
			h.fail("C01,C04"+extra, c.String()+": got "+c.Res.String()+" want "+want.String()+" "+wantErr)
		}
		return
	}
	var se memcache.ErrServerError
	if errors.As(c.Err, &se) {
		if !isErr || se.Message != wantErr {
			h.fail("C01,C04"+extra, c.String()+": got server error "+strconv.Quote(se.Message)+" want "+want.String()+" "+wantErr)
		}
		return
	}
	h.judgeErr(c, extra)
}

func (h *H) countVerb(v string) int {
	n := 0
	for _, c := range h.calls {
		if c.Verb == v {
			n++
		}
	}
	return n
}

// judgeErr checks that a non-server error of a call is legitimate and truthful.
func (h *H) judgeErr(c *Call, extra string) {
	err := c.Err
	if errors.Is(err, memcache.ErrConnClosed) {
		if !h.closed {
			h.fail("C01,C04"+extra, c.String()+": closed error although the client was not closed")
		}
		return
	}
	if !h.net.faulty && !h.closed && !h.malformed {
		h.fail("C01,C04"+extra, c.String()+": failed without any fault: "+err.Error())
		return
	}
	if h.malformed {
		if w := c.sent; w != nil && w.Conn.firstBad != nil && !h.net.faulty && !h.closed && w.Conn.firstBad.Idx > c.lastOfBatch() {
			h.fail("C11"+extra, c.String()+": failed although its batch was answered before the malformed reply: "+err.Error())
		}
		return
	}
	// the error must be one the network produced, on the connection that carried the call if known
	carrier := c.carrier()
	pool := h.net.errs
	if carrier != nil {
		pool = carrier.errs
	}
	for _, e := range pool {
		if errors.Is(err, e) {
			return
		}
	}
	if h.closed && (errors.Is(err, net.ErrClosed)) {
		return
	}
	if carrier != nil && len(carrier.errs) == 0 {
		h.fail("C04"+extra, c.String()+": failed although its connection "+strconv.Itoa(carrier.id)+" did not: "+err.Error())
		return
	}
	h.fail("C04", c.String()+": error does not say what happened: "+err.Error())
}

// lastOfBatch is the index on the wire of the last command of the batch of c.
func (c *Call) lastOfBatch() int {
	r := -1
	for _, d := range c.p.calls {
		if d.Batch == c.Batch {
			if d.sent == nil {
				return 1 << 30
			}
			r = max(r, d.sent.Idx)
		}
	}
	return r
}

// carrier is the connection the command was written to (even partially), if known.
func (c *Call) carrier() *Conn {
	if c.sent != nil {
		return c.sent.Conn
	}
	return nil
}

// onCmd matches a command arriving at the server with the ledger.
func (h *H) onCmd(c *Conn, w *WireCmd) {
	if h.relaxErr {
		if h.wireHook != nil {
			h.wireHook(c, w)
		}
		return
	}
	var dup *Call
	for _, k := range h.calls {
		if k.Enc != w.Raw {
			continue
		}
		if k.sent != nil {
			dup = k
			continue
		}
		p := k.p
		if k.seq <= p.last {
			h.fail("C02,C13", k.String()+" written after command #"+strconv.Itoa(p.last)+" of the same pipeline")
			return
		}
		p.last = k.seq
		k.sent = w
		w.Call = k
		w.Batch = k.Batch
		if p.slot >= 0 && c.slot >= 0 && p.slot != c.slot {
			h.fail("C16,C02", k.String()+" in slot "+strconv.Itoa(c.slot)+" of the pool, earlier ones in "+strconv.Itoa(p.slot))
			return
		}
		if c.slot >= 0 {
			p.slot = c.slot
		}
		if p.conn >= 0 && p.conn != c.id && !h.net.faulty && !h.malformed {
			h.fail("C16,C02", k.String()+" on connection "+strconv.Itoa(c.id)+", earlier ones on "+strconv.Itoa(p.conn))
			return
		}
		p.conn = c.id
		w.first = w
		if k.seq > 0 {
			if b := p.calls[k.seq-1]; b.Batch == k.Batch && b.sent != nil {
				w.first = b.sent.first
			}
		}
		h.windowCheck(c, w)
		h.fairCheck(c, w)
		if h.wireHook != nil {
			h.wireHook(c, w)
		}
		return
	}
	if w.Verb == "version" && h.cfg.Health {
		if h.wireHook != nil {
			h.wireHook(c, w)
		}
		return
	}
	if dup != nil {
		h.fail("C02", dup.String()+" written twice")
		return
	}
	h.fail("C02,C09", "bytes on the wire are no issued command: "+strconv.Quote(w.Raw))
}

// onWire checks the incomplete tail of the stream.
func (h *H) onWire(c *Conn) {
	if len(c.in) == 0 || h.relaxErr {
		return
	}
	for _, k := range h.calls {
		if k.sent == nil && strings.HasPrefix(k.Enc, string(c.in)) {
			return
		}
	}
	if h.cfg.Health && strings.HasPrefix("version\r\n", string(c.in)) {
		return
	}
	h.fail("C02,C09", "incomplete command on the wire is no prefix of an issued one: "+strconv.Quote(string(c.in)))
}

func (h *H) onDial(i int) {
	if h.closed {
		h.lateDials++
		failed := 0
		for _, c := range h.net.conns {
			if len(c.errs) > 0 {
				failed++
			}
		}
		if h.lateDials > h.cfg.N*(1+int((vrt.PeekNow()-h.closeStart)/h.retry()))+failed {
			h.fail("C06", "Close keeps dialling: "+strconv.Itoa(h.lateDials)+" dials since it began")
		}
	}
	if h.cdone {
		h.fail("C06", "dial after Close returned")
	}
	if i >= h.cfg.N && !h.net.faulty && !h.malformed {
		if h.closed {
			h.fail("C06", "Close dials although no connection failed")
		} else {
			h.fail("C05", "a healthy connection was redialled")
		}
	}
}

func (h *H) onClose(c *Conn) {
	if len(c.errs) == 0 && !c.refused && !h.closed && !h.malformed && c.err == nil && !c.eof {
		h.fail("C05,C04", "healthy connection "+strconv.Itoa(c.id)+" closed by the client")
	}
}

func (h *H) onNetOp(c *Conn, kind string, start int64, dl time.Time) {
	if h.cdone {
		h.fail("C06", kind+" on a connection after Close returned")
	}
	if h.opHook != nil {
		h.opHook(c, kind, start, dl)
	}
}

// Open creates network and client.
func Open(cfg NetCfg, opts ...memcache.Option) *H {
	h := &H{cfg: cfg, npipe: 0}
	if cfg.RT == 0 {
		h.cfg.RT = int64(time.Second)
	}
	if cfg.WT == 0 {
		h.cfg.WT = int64(time.Second)
	}
	h.net = newNet(h, h.cfg)
	all := []memcache.Option{
		memcache.WithDialFunc(h.net.DialFunc),
		memcache.WithDialErrorLogger(func(err error) {
			vrt.Enter()
			defer vrt.Leave()
			h.logged = append(h.logged, err)
			vrt.Note("dial error logged: %v", err)
		}),
		memcache.WithBufferSize(256),
		memcache.WithHealthCheckDuration(time.Hour),
		memcache.WithRetryDuration(5 * time.Second),
	}
	if cfg.MaxBatch > 0 {
		all = append(all, memcache.WithMaxCommandsPerBatch(cfg.MaxBatch))
	}
	if cfg.Limit > 0 {
		all = append(all, memcache.WithWriteLimit(cfg.Limit))
	}
	all = append(all, opts...)
	cl, err := memcache.New("server:11211", cfg.N, all...)
	if err != nil {
		h.fail("C03,C05", "New fails: "+err.Error())
	}
	h.cl = cl
	return h
}

// OpenQuiet opens under the default schedule and lets the background goroutines settle.
func OpenQuiet(cfg NetCfg, opts ...memcache.Option) *H {
	vrt.Freeze(true)
	f := cfg.Faults
	cfg.Faults = 0
	h := Open(cfg, opts...)
	vrt.Idle()
	h.net.cfg.Faults = f
	vrt.Freeze(false)
	return h
}

// CloseQuiet closes under the default schedule.
func (h *H) CloseQuiet() {
	vrt.Freeze(true)
	h.Close()
}

// Close closes the client and checks that everything is released.
func (h *H) Close() {
	h.Close1()
	vrt.Idle()
	h.CheckClosed()
}

// Close1 closes the client and checks what holds the moment Close returns.
func (h *H) Close1() {
	vrt.Enter()
	vrt.Event(&h.net.o, 0xc10)
	h.closed = true
	start := vrt.PeekNow()
	if h.closeStart == 0 {
		h.closeStart = start
	}
	vrt.Leave()
	err := h.cl.Close()
	vrt.Enter()
	defer vrt.Leave()
	vrt.Event(&h.net.o, 0xc11)
	h.cdone = true
	if err != nil {
		h.fail("C06", "Close returned "+err.Error())
	}
	if d := vrt.PeekNow() - start; d > h.closeBound() && !vrt.EarlyTime() {
		h.fail("C06", "Close took "+time.Duration(d).String())
	}
	h.connsClosed()
	h.Intact()
}

func (h *H) retry() int64 { return int64(5 * time.Second) }

func (h *H) connsClosed() {
	for _, c := range h.net.conns {
		if !c.closed {
			h.fail("C06", "connection "+strconv.Itoa(c.id)+" still open after Close returned")
		}
	}
}

// CheckClosed checks, after Close and with everything settled, that nothing is left.
func (h *H) CheckClosed() {
	vrt.Enter()
	defer vrt.Leave()
	h.connsClosed()
	if l := vrt.LiveSubject(); len(l) > 0 {
		h.fail("C06", "goroutines alive after Close returned: "+strings.Join(l, "; "))
	}
}

// AfterClose checks that calls after Close fail promptly with the closed error.
func (h *H) AfterClose(n int) {
	p := h.Pipeline()
	var cs []*Call
	for i := 0; i < n; i++ {
		cs = append(cs, p.Any('g', "vafter"+strconv.Itoa(i)))
	}
	for _, c := range cs {
		t := vrt.PeekNow()
		c.Wait()
		if !errors.Is(c.Err, memcache.ErrConnClosed) {
			msg := "nil"
			if c.Err != nil {
				msg = c.Err.Error()
			}
			h.fail("C06", "call after Close returned "+msg)
		}
		if vrt.PeekNow() != t {
			h.fail("C06", "call after Close was not prompt")
		}
	}
}

// Intact checks that no value handed out and not released has changed or shares memory with
// another one, and that the callers' value slices are left alone.
func (h *H) Intact() {
	vrt.Enter()
	defer vrt.Leave()
	for _, c := range h.calls {
		if !c.done {
			continue
		}
		if c.ver != c.Res.Ver {
			h.fail("C14,C01", c.String()+": the returned version changed from "+brief(c.Res.Ver)+" to "+brief(c.ver))
		}
		if c.Err != nil && c.Err.Error() != c.text {
			h.fail("C14,C01", c.String()+": the returned error changed from "+brief(c.text)+" to "+brief(c.Err.Error()))
		}
	}
	type span struct {
		a, b uintptr
		c    *Call
		in   bool
	}
	var l []span
	for _, c := range h.calls {
		if c.done && c.Err == nil && c.kept {
			if string(c.raw) != c.Res.Data {
				h.fail("C14", c.String()+": the returned value changed from "+brief(c.Res.Data)+" to "+brief(string(c.raw)))
			}
			if cap(c.raw) > 0 {
				a := uintptr(unsafe.Pointer(&c.raw[:1][0]))
				l = append(l, span{a, a + uintptr(cap(c.raw)), c, false})
			}
		}
		for _, x := range c.inb {
			if x != '!' {
				h.fail("C14", c.String()+": the caller's value slice was written to")
				break
			}
		}
		if len(c.inb) > 0 {
			a := uintptr(unsafe.Pointer(&c.inb[0]))
			l = append(l, span{a, a + uintptr(len(c.inb)), c, true})
		}
	}
	sort.Slice(l, func(i, k int) bool { return l[i].a < l[k].a })
	for i := 1; i < len(l); i++ {
		if l[i].a < l[i-1].b {
			h.fail("C14", l[i-1].c.String()+" and "+l[i].c.String()+" share memory")
		}
	}
}

func brief(s string) string {
	if len(s) > 80 {
		return strconv.Quote(s[:80]) + "..."
	}
	return strconv.Quote(s)
}

// Delivered checks that every flushed command reached the wire (fault-free executions).
func (h *H) Delivered() {
	for _, c := range h.calls {
		if c.flush && c.sent == nil {
			h.fail("C02,C13", c.String()+" was flushed but never sent")
		}
	}
}

// Outcome summarises what the users saw.
func (h *H) Outcome() string {
	var l []string
	for _, c := range h.calls {
		s := c.Verb + " " + c.Key + ":"
		switch {
		case !c.done:
			s += "-"
		case c.Err != nil:
			s += "!" + c.Err.Error()
		default:
			s += c.Res.String()
		}
		l = append(l, s)
	}
	sort.Strings(l)
	return strings.Join(append(l, h.out...), "\n")
}
