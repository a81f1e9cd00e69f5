package main

import (
	"errors"
	"strconv"
	"strings"
	"time"

	"github.com/QuangTung97/go-memcache/memcache/netconn"
	"github.com/QuangTung97/go-memcache/memcache/stats"
	"vrt"
)

// ---- C20, C21: the statistics client ----------------------------------------------------------

// S is a stats client with its server.
type S struct {
	h     *H
	cl    *stats.Client
	cmds  []string // complete command lines received
	want  string   // the command under way
	reply func(c *Conn)
	buf   string
	last  func() string // the last result once more
	kept  []kept        // results of earlier calls, which the user keeps
}

type kept struct {
	show func() string
	want string
}

func (s *S) stream(c *Conn, p []byte) {
	s.buf += string(p)
	if !strings.HasPrefix(s.want, s.buf) {
		s.h.fail("C21", "a call sent "+brief(s.buf)+", its command is "+brief(s.want))
		return
	}
	if s.buf == s.want {
		s.cmds = append(s.cmds, s.buf)
		s.buf, s.want = "", ""
		if !c.dead && !c.eof && c.err == nil {
			s.reply(c)
		}
	}
}

func openStats(hp **H, cfg NetCfg, opts ...stats.Option) *S {
	vrt.Freeze(true)
	cfg.N, cfg.RT, cfg.WT = 1, 1000*ms, 1000*ms
	h := newH(cfg)
	*hp = h
	s := &S{h: h}
	h.net.cfg.Stream = s.stream
	all := append([]stats.Option{stats.WithNetConnOptions(netconn.WithDialFunc(h.net.DialFunc)), stats.WithErrorLogger(h.logErr)}, opts...)
	s.cl = stats.New("server:11211", all...)
	return s
}

// answer is a server's answer to one statistics command.
type answer struct {
	text   string
	late   string // the rest, sent after the read timeout
	end    int    // 0, ReadEOF, ReadErr, ReadStall
	good   bool   // complete and well-formed: the call must succeed
	either bool   // success with the expected result or an error
}

// send is the reply function for an answer.
func (s *S) send(a answer) {
	s.reply = func(c *Conn) {
		c.produce(a.text)
		if a.late != "" {
			vrt.AddTimer(vrt.PeekNow()+3000*ms, func() { c.out = append(c.out, a.late...); vrt.Changed() })
		}
		switch a.end {
		case ReadEOF:
			c.eof = true
		case ReadErr:
			c.err = &netErr{msg: "connection reset on conn " + strconv.Itoa(c.id)}
		}
	}
}

const (
	qGeneral = iota
	qSlabs
	qItems
	qDump
)

var commands = []string{"stats\r\n", "stats slabs\r\n", "stats items\r\n", "lru_crawler metadump all\r\n"}

// call runs one call and returns its result in a canonical form.
func (s *S) call(q int) (res string, err error) {
	vrt.Enter()
	s.want, s.buf = commands[q], ""
	vrt.Leave()
	start := vrt.Now()
	switch q {
	case qGeneral:
		var g stats.GeneralStats
		g, err = s.cl.GetGeneralStats()
		s.last = func() string { return showGeneral(g) }
	case qSlabs:
		var g stats.SlabsStats
		g, err = s.cl.GetSlabsStats()
		s.last = func() string { return showSlabs(g) }
	case qItems:
		var g stats.SlabItemsStats
		g, err = s.cl.GetSlabItemsStats()
		s.last = func() string { return showItems(g) }
	case qDump:
		var l []stats.MetaDumpKey
		err = s.cl.MetaDumpAll(func(k stats.MetaDumpKey) { l = append(l, k) })
		s.last = func() string { return showDump(l) }
	}
	res = s.last()
	if err != nil {
		vrt.Note("call %d -> error %v", q, err)
	} else {
		vrt.Note("call %d -> %s", q, brief(res))
	}
	s.h.inputs++
	if d := vrt.Now() - start; d > 2000*ms {
		s.h.fail("C18,C20", "a statistics call took "+time.Duration(d).String())
	}
	return
}

// check runs one call and judges it; props names the properties a wrong result violates.
func (s *S) check(props string, q int, a answer, want string) error {
	s.send(a)
	got, err := s.call(q)
	switch {
	case err == nil && got != want:
		s.h.fail(props, "answer "+tail(a.text)+": got "+brief(got)+" want "+brief(want))
	case err == nil && !a.good && !a.either:
		s.h.fail(props, "incomplete or malformed answer "+tail(a.text)+" reported as complete")
	case err != nil && a.good:
		s.h.fail(props, "answer "+tail(a.text)+" rejected: "+err.Error())
	}
	for _, k := range s.kept {
		if x := k.show(); x != k.want {
			s.h.fail(props, "a result changed after it had been returned: it is now "+brief(x)+", was "+brief(k.want))
		}
	}
	if err == nil {
		s.kept = append(s.kept, kept{s.last, got})
		if len(s.kept) > 3 {
			s.kept = s.kept[1:]
		}
	}
	return err
}

func tail(s string) string {
	if len(s) > 200 {
		return "..." + strconv.Quote(s[len(s)-200:])
	}
	return strconv.Quote(s)
}

func u32(n uint32) string { return strconv.FormatUint(uint64(n), 10) }

func showGeneral(g stats.GeneralStats) string { return itoa(g.PID) + " " + itoa(g.Uptime) }

func showSlabs(g stats.SlabsStats) string {
	s := u32(g.ActiveSlabs) + " " + itoa(g.TotalMalloced)
	for _, id := range g.SlabIDs {
		x, ok := g.Slabs[id]
		s += "|" + u32(id)
		if !ok {
			s += " missing"
		}
		s += " " + u32(x.ChunkSize) + " " + u32(x.ChunksPerPage) + " " + u32(x.TotalPages) + " " + itoa(x.TotalChunks) + " " + itoa(x.UsedChunks)
	}
	return s + "|" + strconv.Itoa(len(g.Slabs))
}

type itemField struct {
	name string
	at   func(x *stats.SingleSlabItemStats) *uint64
}

var itemFields = []itemField{
	{"number", func(x *stats.SingleSlabItemStats) *uint64 { return &x.Number }},
	{"number_hot", func(x *stats.SingleSlabItemStats) *uint64 { return &x.NumberHot }},
	{"number_warm", func(x *stats.SingleSlabItemStats) *uint64 { return &x.NumberWarm }},
	{"number_cold", func(x *stats.SingleSlabItemStats) *uint64 { return &x.NumberCold }},
	{"age_hot", func(x *stats.SingleSlabItemStats) *uint64 { return &x.AgeHot }},
	{"age_warm", func(x *stats.SingleSlabItemStats) *uint64 { return &x.AgeWarm }},
	{"age", func(x *stats.SingleSlabItemStats) *uint64 { return &x.Age }},
	{"mem_requested", func(x *stats.SingleSlabItemStats) *uint64 { return &x.MemRequested }},
	{"evicted", func(x *stats.SingleSlabItemStats) *uint64 { return &x.Evicted }},
	{"evicted_nonzero", func(x *stats.SingleSlabItemStats) *uint64 { return &x.EvictedNonZero }},
	{"evicted_time", func(x *stats.SingleSlabItemStats) *uint64 { return &x.EvictedTime }},
	{"outofmemory", func(x *stats.SingleSlabItemStats) *uint64 { return &x.OutOfMemory }},
	{"tailrepairs", func(x *stats.SingleSlabItemStats) *uint64 { return &x.TailRepairs }},
	{"reclaimed", func(x *stats.SingleSlabItemStats) *uint64 { return &x.Reclaimed }},
	{"expired_unfetched", func(x *stats.SingleSlabItemStats) *uint64 { return &x.ExpiredUnfetched }},
	{"evicted_unfetched", func(x *stats.SingleSlabItemStats) *uint64 { return &x.EvictedUnfetched }},
	{"evicted_active", func(x *stats.SingleSlabItemStats) *uint64 { return &x.EvictedActive }},
	{"crawler_reclaimed", func(x *stats.SingleSlabItemStats) *uint64 { return &x.CrawlerReclaimed }},
	{"crawler_items_checked", func(x *stats.SingleSlabItemStats) *uint64 { return &x.CrawlerItemsChecked }},
	{"lrutail_reflocked", func(x *stats.SingleSlabItemStats) *uint64 { return &x.LRUTailRefLocked }},
	{"moves_to_cold", func(x *stats.SingleSlabItemStats) *uint64 { return &x.MovesToCold }},
	{"moves_to_warm", func(x *stats.SingleSlabItemStats) *uint64 { return &x.MovesToWarm }},
	{"moves_within_lru", func(x *stats.SingleSlabItemStats) *uint64 { return &x.MovesWithinLRU }},
	{"direct_reclaims", func(x *stats.SingleSlabItemStats) *uint64 { return &x.DirectReclaims }},
	{"hits_to_hot", func(x *stats.SingleSlabItemStats) *uint64 { return &x.HitsToHot }},
	{"hits_to_warm", func(x *stats.SingleSlabItemStats) *uint64 { return &x.HitsToWarm }},
	{"hits_to_cold", func(x *stats.SingleSlabItemStats) *uint64 { return &x.HitsToCold }},
	{"hits_to_temp", func(x *stats.SingleSlabItemStats) *uint64 { return &x.HitsToTemp }},
}

func showItems(g stats.SlabItemsStats) string {
	s := ""
	for _, id := range g.SlabIDs {
		x, ok := g.Slabs[id]
		s += "|" + u32(id)
		if !ok {
			s += " missing"
		}
		for _, f := range itemFields {
			s += " " + itoa(*f.at(&x))
		}
	}
	return s + "|" + strconv.Itoa(len(g.Slabs))
}

func showKey(k stats.MetaDumpKey) string {
	return strconv.Quote(k.Key) + " " + strconv.FormatInt(k.Exp, 10) + " " + strconv.FormatInt(k.LA, 10) + " " + itoa(k.CAS) + " " + strconv.FormatBool(k.Fetch) + " " + u32(k.Class) + " " + u32(k.Size)
}

func showDump(l []stats.MetaDumpKey) string {
	s := strconv.Itoa(len(l))
	for _, k := range l {
		s += "|" + showKey(k)
	}
	return s
}

// slabModel collects the expected slab statistics.
type slabModel struct {
	g    stats.SlabsStats
	text string
}

var slabFields = []string{"chunk_size", "chunks_per_page", "total_pages", "total_chunks", "used_chunks", "free_chunks", "get_hits", "mem_requested"}

func newSlabModel() *slabModel {
	return &slabModel{g: stats.SlabsStats{Slabs: map[uint32]stats.SingleSlabStats{}}}
}

func (m *slabModel) add(id uint32, field int, val uint64) {
	m.text += "STAT " + u32(id) + ":" + slabFields[field] + " " + itoa(val) + "\r\n"
	x, ok := m.g.Slabs[id]
	if !ok {
		m.g.SlabIDs = append(m.g.SlabIDs, id)
	}
	switch field {
	case 0:
		x.ChunkSize = uint32(val)
	case 1:
		x.ChunksPerPage = uint32(val)
	case 2:
		x.TotalPages = uint32(val)
	case 3:
		x.TotalChunks = val
	case 4:
		x.UsedChunks = val
	}
	m.g.Slabs[id] = x
}

func (m *slabModel) active(n uint32) {
	m.text += "STAT active_slabs " + u32(n) + "\r\n"
	m.g.ActiveSlabs = n
}

func (m *slabModel) malloced(n uint64) {
	m.text += "STAT total_malloced " + itoa(n) + "\r\n"
	m.g.TotalMalloced = n
}

type itemModel struct {
	g    stats.SlabItemsStats
	text string
}

func newItemModel() *itemModel {
	return &itemModel{g: stats.SlabItemsStats{Slabs: map[uint32]stats.SingleSlabItemStats{}}}
}

func (m *itemModel) add(id uint32, field int, val uint64) {
	x, ok := m.g.Slabs[id]
	if !ok {
		m.g.SlabIDs = append(m.g.SlabIDs, id)
	}
	m.text += "STAT items:" + u32(id) + ":" + itemFields[field].name + " " + itoa(val) + "\r\n"
	*itemFields[field].at(&x) = val
	m.g.Slabs[id] = x
}

// dumpModel collects the expected keys of a dump.
type dumpModel struct {
	l    []stats.MetaDumpKey
	text string
}

// escape is memcached's URI encoding; mode 1 escapes everything, 2 as little as possible, 3 everything in lower case.
func escape(k string, mode int) string {
	const up, low = "0123456789ABCDEF", "0123456789abcdef"
	hex := up
	if mode == 3 {
		hex = low
	}
	b := make([]byte, 0, 3*len(k))
	for i := 0; i < len(k); i++ {
		c := k[i]
		plain := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '.' || c == '_' || c == '~'
		if mode == 2 {
			plain = c > ' ' && c < 0x7f && c != '%' && c != '='
		}
		if plain && mode != 1 && mode != 3 {
			b = append(b, c)
		} else {
			b = append(b, '%', hex[c>>4], hex[c&15])
		}
	}
	return string(b)
}

func (m *dumpModel) add(k stats.MetaDumpKey, mode int, extra string) {
	f := "no"
	if k.Fetch {
		f = "yes"
	}
	m.text += "key=" + escape(k.Key, mode) + " exp=" + strconv.FormatInt(k.Exp, 10) + " la=" + strconv.FormatInt(k.LA, 10) + " cas=" + itoa(k.CAS) +
		" fetch=" + f + " cls=" + u32(k.Class) + " size=" + u32(k.Size) + extra + "\r\n"
	m.l = append(m.l, k)
}

const endLine = "END\r\n"

// sample is a well-formed answer to a query and its meaning; n makes the numbers differ.
func sample(q, n int) (text, want string) {
	v := uint64(n)*1000 + 7
	switch q {
	case qGeneral:
		g := stats.GeneralStats{PID: v, Uptime: v + 1}
		return "STAT pid " + itoa(v) + "\r\nSTAT uptime " + itoa(v+1) + "\r\nSTAT version 1.6.21\r\nSTAT rusage_user 0.091\r\n" + endLine, showGeneral(g)
	case qSlabs:
		m := newSlabModel()
		m.add(1, 0, v)
		m.add(1, 4, v+1)
		m.add(uint32(5+n), 3, v+2)
		m.active(uint32(v + 3))
		m.malloced(v + 4)
		return m.text + endLine, showSlabs(m.g)
	case qItems:
		m := newItemModel()
		m.add(1, 0, v)
		m.add(uint32(5+n), 6, v+1)
		m.add(1, 27, v+2)
		return m.text + endLine, showItems(m.g)
	}
	m := &dumpModel{}
	m.add(stats.MetaDumpKey{Key: "key " + itoa(v), Exp: -1, LA: int64(v), CAS: v + 1, Fetch: n%2 == 0, Class: uint32(v), Size: 60}, 0, "")
	m.add(stats.MetaDumpKey{Key: "k=%" + itoa(v), Exp: int64(v), LA: int64(v) + 1, CAS: v + 2, Fetch: n%2 == 1, Class: 2, Size: uint32(v)}, 0, "")
	return m.text + endLine, showDump(m.l)
}

// badLines is the alphabet of malformed lines inside an answer.
func badLines(q int) []string {
	l := []string{"", "STAT", "STAX a 1", "garbage", "E", "EN", "ENDX", " ", "stat pid 1", "VALUE x 0 1"}
	switch q {
	case qGeneral:
		l = append(l, "STAT pid", "STAT pid -1", "STAT pid 18446744073709551616", "STAT pid x", "STAT uptime 1.5", "STAT uptime", "STAT uptime 1x", "STAT uptime 0x10")
	case qSlabs:
		l = append(l, "STAT 1:chunk_size", "STAT 1:chunk_size x", "STAT x:chunk_size 1", "STAT :chunk_size 1", "STAT 4294967296:chunk_size 1", "STAT 1:chunk_size 4294967296", "STAT 1:chunks_per_page -1",
			"STAT 1:total_pages 4294967296", "STAT 1:total_chunks 18446744073709551616", "STAT 1:used_chunks 1.0", "STAT active_slabs x", "STAT active_slabs 4294967296", "STAT total_malloced -", "STAT 1 5", "STAT -1:chunk_size 4")
	case qItems:
		l = append(l, "STAT items:1:number", "STAT items:1:number x", "STAT items:x:number 1", "STAT items:1 1", "STAT items 1", "STAT items::number 1", "STAT items:4294967296:number 1", "STAT items:1:age -1",
			"STAT items:1:hits_to_temp 18446744073709551616", "STAT items:-1:number 1")
		for _, f := range itemFields {
			l = append(l, "STAT items:1:"+f.name+" 1e5")
		}
	case qDump:
		base := []string{"key=abc", "exp=1", "la=2", "cas=3", "fetch=no", "cls=4", "size=5"}
		for i, alts := range [][]string{{"key", "key=%zz", "key=%2", "key=%", "abc"}, {"exp", "exp=", "exp=x", "exp=9223372036854775808", "exp=1.5"}, {"la", "la=", "la=-x", "la=-9223372036854775809"},
			{"cas", "cas=", "cas=-1", "cas=18446744073709551616", "cas=3x"}, {"fetch"}, {"cls", "cls=", "cls=4294967296", "cls=-1"}, {"size", "size=", "size=4294967296", "size=x"}} {
			for _, a := range alts {
				x := append([]string(nil), base...)
				x[i] = a
				l = append(l, strings.Join(x, " "))
			}
		}
		l = append(l, "key=abc  exp=1", "END ")
	}
	return l
}

var errorLines = []string{"ERROR", "CLIENT_ERROR bad command line format", "SERVER_ERROR out of memory", "BUSY currently processing crawler request", "BADCLASS invalid class id", "NOTSTARTED no items to crawl"}

func lines(text string) []string {
	l := strings.SplitAfter(text, "\r\n")
	return l[:len(l)-1]
}

func init() {
	p20 := []string{"C20"}
	// numbers and orders of the general statistics
	register(&Scenario{Name: "stats-general", Own: p20, Props: p20, Liveness: true, Deep: 1, Shards: 4, MaxSteps: 50000000, MaxTime: 100000 * time.Second, Body: func(hp **H) {
		nums := []uint64{0, 1, 9, 10, 4294967295, 4294967296, 9223372036854775807, 9223372036854775808, 18446744073709551615}
		s := openStats(hp, NetCfg{Chunk: []int{0, 1, 3}[vrt.Choose(3)]})
		a, b := nums[vrt.Choose(len(nums))], nums[vrt.Choose(len(nums))]
		pid, up := "STAT pid "+itoa(a)+"\r\n", "STAT uptime "+itoa(b)+"\r\n"
		others := []string{"", "STAT time 1700000000\r\n", "STAT version 1.6.21\r\nSTAT libevent 2.1.12-stable\r\n", "STAT pointer_size 64\r\nSTAT rusage_user 0.09\r\n", "STAT pid_x 5\r\nSTAT uptimes 7\r\n", "STAT x pid 3\r\n"}
		for _, x := range others {
			for _, y := range others {
				for _, z := range others {
					s.check("C20", qGeneral, answer{text: x + pid + y + up + z + endLine, good: true}, showGeneral(stats.GeneralStats{PID: a, Uptime: b}))
					s.check("C20", qGeneral, answer{text: x + up + y + pid + z + endLine, good: true}, showGeneral(stats.GeneralStats{PID: a, Uptime: b}))
				}
			}
		}
	}})
	// sequences of slab lines
	slabSeq := func(depth int) func(**H) {
		return func(hp **H) {
			ids := []uint32{1, 2, 39, 4294967295}
			vals := []uint64{0, 96, 4294967295, 18446744073709551615}
			s := openStats(hp, NetCfg{Chunk: []int{0, 5}[vrt.Choose(2)]})
			m := newSlabModel()
			seen := map[uint32]bool{}
			for i := 0; i < depth; i++ {
				k := vrt.Choose(len(ids) + 3)
				if k == 0 {
					break
				}
				switch {
				case k == 1:
					m.active(uint32(i*17 + 3))
				case k == 2:
					m.malloced(vals[i%4] - uint64(i))
				default:
					id := ids[k-3]
					n := len(slabFields)
					if !seen[id] {
						n = 5
					}
					f := vrt.Choose(n)
					v := vals[(i+f)%4] / (uint64(i) + 1)
					if f < 3 {
						v &= 4294967295
					}
					seen[id] = true
					m.add(id, f, v)
				}
			}
			s.check("C20", qSlabs, answer{text: m.text + endLine, good: true}, showSlabs(m.g))
			s.check("C20", qSlabs, answer{text: m.text + endLine, good: true}, showSlabs(m.g))
		}
	}
	register(&Scenario{Name: "stats-slabs", Own: p20, Props: p20, Liveness: true, Deep: 2, Shards: 8, MaxTime: 100000 * time.Second, Body: slabSeq(3)})
	register(&Scenario{Name: "stats-slabs-deep", Own: p20, Props: p20, Liveness: true, Deep: 2, Shards: 8, Thorough: true, MaxTime: 100000 * time.Second, Body: slabSeq(4)})
	// sequences of item lines
	itemSeq := func(depth int) func(**H) {
		return func(hp **H) {
			ids := []uint32{1, 2, 4294967295}
			s := openStats(hp, NetCfg{})
			m := newItemModel()
			for i := 0; i < depth; i++ {
				k := vrt.Choose(len(ids) + 1)
				if k == 0 {
					break
				}
				f := vrt.Choose(len(itemFields))
				m.add(ids[k-1], f, []uint64{18446744073709551615, 1, 1 << 32, 0}[(i+f)%4])
				if i == 1 {
					m.text += "STAT items:" + u32(ids[k-1]) + ":unknown_thing 5\r\n"
				}
			}
			s.check("C20", qItems, answer{text: m.text + endLine, good: true}, showItems(m.g))
		}
	}
	register(&Scenario{Name: "stats-items", Own: p20, Props: p20, Liveness: true, Deep: 2, Shards: 8, MaxTime: 100000 * time.Second, Body: itemSeq(2)})
	register(&Scenario{Name: "stats-items-deep", Own: p20, Props: p20, Liveness: true, Deep: 2, Shards: 8, Thorough: true, MaxTime: 100000 * time.Second, Body: itemSeq(3)})
	register(&Scenario{Name: "stats-full", Own: p20, Props: p20, Liveness: true, Deep: 1, Shards: 4, MaxSteps: 50000000, MaxTime: 100000 * time.Second, Body: func(hp **H) {
		s := openStats(hp, NetCfg{Chunk: []int{0, 1, 7, 1460}[vrt.Choose(4)]})
		n := []int{0, 1, 2, 10, 63, 200}[vrt.Choose(6)]
		down := vrt.Choose(2) == 1
		id := func(i int) uint32 {
			if down {
				return uint32(500 - i)
			}
			return uint32(i + 1)
		}
		for r := 0; r < 2; r++ {
			m := newSlabModel()
			it := newItemModel()
			d := &dumpModel{}
			for i := 0; i < n; i++ {
				for f := range slabFields {
					m.add(id(i), f, uint64(i*100+f+r))
				}
				for f := range itemFields {
					it.add(id(i), f, uint64(i*1000+f+r))
				}
				d.add(stats.MetaDumpKey{Key: "key" + itoa(uint64(i)), Exp: int64(i - 1), LA: int64(i) * 7, CAS: uint64(i) + 2, Fetch: i%3 == 0, Class: id(i), Size: uint32(i) * 11}, 0, []string{"", " flags=0"}[i%2])
			}
			m.active(uint32(n))
			m.malloced(uint64(n) << 20)
			s.check("C20", qSlabs, answer{text: m.text + endLine, good: true}, showSlabs(m.g))
			s.check("C20", qItems, answer{text: it.text + endLine, good: true}, showItems(it.g))
			s.check("C20", qDump, answer{text: d.text + endLine, good: true}, showDump(d.l))
		}
	}})
	// all keys of one and two bytes, long keys, in every way of escaping
	register(&Scenario{Name: "stats-keys", Own: p20, Props: p20, Liveness: true, Deep: 1, Shards: 8, MaxSteps: 50000000, MaxTime: 100000 * time.Second, Body: func(hp **H) {
		s := openStats(hp, NetCfg{})
		mode := vrt.Choose(4)
		a := vrt.Choose(257)
		nums := []stats.MetaDumpKey{{Exp: -1}, {Exp: 9223372036854775807, LA: 1, CAS: 18446744073709551615, Fetch: true, Class: 4294967295, Size: 4294967295}, {Exp: 0, LA: -9223372036854775808, CAS: 9223372036854775808}}
		m := &dumpModel{}
		add := func(key string) {
			k := nums[len(m.l)%3]
			k.Key = key
			m.add(k, mode, "")
		}
		if a == 256 {
			for n := 0; n <= 250; n++ {
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(i*37 + n)
				}
				add(string(b))
			}
		} else {
			add(string([]byte{byte(a)}))
			for b := 0; b < 256; b++ {
				add(string([]byte{byte(a), byte(b)}))
			}
		}
		s.check("C20", qDump, answer{text: m.text + endLine, good: true}, showDump(m.l))
	}})
	// numbers in dumps
	register(&Scenario{Name: "stats-dump", Own: p20, Props: p20, Liveness: true, Deep: 2, Shards: 4, MaxTime: 100000 * time.Second, Body: func(hp **H) {
		i64 := []int64{-1, 0, 1, 1700000000, 9223372036854775807, -9223372036854775808}
		u64 := []uint64{0, 1, 9223372036854775807, 9223372036854775808, 18446744073709551615}
		w32 := []uint32{0, 1, 2147483647, 2147483648, 4294967295}
		s := openStats(hp, NetCfg{Chunk: []int{0, 2}[vrt.Choose(2)]})
		k := stats.MetaDumpKey{Key: "k", Exp: i64[vrt.Choose(6)], LA: i64[vrt.Choose(6)], CAS: u64[vrt.Choose(5)], Fetch: vrt.Choose(2) == 1, Class: w32[vrt.Choose(5)], Size: w32[vrt.Choose(5)]}
		m := &dumpModel{}
		m.add(k, 0, "")
		s.check("C20", qDump, answer{text: m.text + endLine, good: true}, showDump(m.l))
	}})
	// every cut, every truncation with every end
	register(&Scenario{Name: "stats-cuts", Own: p20, Props: p20, Liveness: true, Deep: 2, Shards: 8, MaxSteps: 50000000, MaxTime: 100000 * time.Second, Body: func(hp **H) {
		q := vrt.Choose(4)
		text, want := sample(q, vrt.Choose(3))
		s := openStats(hp, NetCfg{})
		i := vrt.Choose(len(text))
		for j := i; j < len(text); j++ {
			c := s.h.net.conns[0]
			s.h.net.cuts = []int{c.read + i, c.read + j}
			s.check("C20", q, answer{text: text, good: true}, want)
		}
	}})
	register(&Scenario{Name: "stats-truncated", Own: p20, Props: p20, Liveness: true, Deep: 2, Shards: 8, MaxTime: 100000 * time.Second, Body: func(hp **H) {
		q := vrt.Choose(4)
		text, want := sample(q, vrt.Choose(2))
		k := vrt.Choose(len(text))
		end := []int{ReadEOF, ReadErr, ReadStall}[vrt.Choose(3)]
		warm := vrt.Choose(2)
		s := openStats(hp, NetCfg{Chunk: []int{0, 1}[vrt.Choose(2)]})
		for i := 0; i < warm; i++ {
			x, w := sample(3-q, 2)
			s.check("C20", 3-q, answer{text: x, good: true}, w)
		}
		a := answer{text: text[:k], end: end, either: k >= len(text)-2}
		s.check("C20", q, a, want)
		x, w := sample(q, 5)
		s.check("C20,C21", q, answer{text: x, either: true}, w)
	}})
	// malformed lines at every place
	register(&Scenario{Name: "stats-malformed", Own: p20, Props: []string{"C20", "C21"}, Liveness: true, Deep: 2, Shards: 8, MaxTime: 100000 * time.Second, Body: func(hp **H) {
		q := vrt.Choose(4)
		text, want := sample(q, 1)
		l := lines(text)
		bad := append(badLines(q), errorLines...)
		b := bad[vrt.Choose(len(bad))]
		at := vrt.Choose(len(l))
		replace := vrt.Choose(2)
		s := openStats(hp, NetCfg{Chunk: []int{0, 3}[vrt.Choose(2)]})
		t := strings.Join(l[:at], "") + b + "\r\n" + strings.Join(l[min(len(l)-1, at+replace):], "")
		s.check("C20", q, answer{text: t}, want)
	}})

	// ---- C21: sequences of calls
	p21 := []string{"C21"}
	sequences := func(n int, all bool) func(**H) {
		return func(hp **H) {
			s := openStats(hp, NetCfg{Chunk: []int{0, 4}[vrt.Choose(2)]})
			clean := true // every response so far came at once and was complete
			for i := 0; i < n; i++ {
				q := vrt.Choose(4)
				text, want := sample(q, i+1)
				l := lines(text)
				a := answer{text: text, either: !clean, good: clean}
				switch k := vrt.Choose(9); k {
				case 0: // well-formed
				case 1, 2, 3: // a malformed line first, in the middle, at the end
					bad := badLines(q)
					b := 4 + i // differs from call to call
					if all {
						b = vrt.Choose(len(bad))
					} else if vrt.Choose(2) == 1 {
						b = len(bad) - 1 - i
					}
					at := []int{0, 1, len(l) - 1}[k-1]
					a = answer{text: strings.Join(l[:at], "") + bad[b] + "\r\n" + strings.Join(l[at:], "")}
				case 4: // the number of a line replaced
					at := vrt.Choose(len(l) - 1)
					x := strings.LastIndexAny(l[at], " =")
					a = answer{text: strings.Join(l[:at], "") + l[at][:x+1] + "-7x\r\n" + strings.Join(l[at+1:], ""), either: q == qGeneral && at > 1}
				case 5: // an error line instead
					a = answer{text: errorLines[(i+q)%len(errorLines)] + "\r\n"}
				case 6: // a single line that means nothing
					clean = false
					a = answer{text: "garbage\r\n"}
				case 7: // the second part comes after the read timeout
					clean = false
					x := len(l[0]) + len(l[1])/2
					a = answer{text: text[:x], late: text[x:]}
				case 8: // nothing, and everything after the read timeout
					clean = false
					a = answer{late: text}
				}
				s.check("C21,C20", q, a, want)
				if i == n-2 && vrt.Choose(2) == 1 {
					vrt.SleepUntil(vrt.Now() + 4000*ms)
				}
			}
			s.h.closed = true
			if e := s.cl.Close(); e != nil && !errors.Is(e, errClosed) {
				s.h.fail("C21", "Close: "+e.Error())
			}
		}
	}
	register(&Scenario{Name: "stats-sequences", Own: p21, Props: []string{"C21", "C20"}, Liveness: true, Deep: 2, Shards: 8, MaxTime: 100000 * time.Second, Body: sequences(3, false)})
	register(&Scenario{Name: "stats-sequences-all", Own: p21, Props: p21, Liveness: true, Deep: 2, Shards: 8, MaxTime: 100000 * time.Second, Body: sequences(2, true)})
	register(&Scenario{Name: "stats-sequences-deep", Own: p21, Props: p21, Liveness: true, Deep: 3, Shards: 8, Thorough: true, MaxTime: 100000 * time.Second, Body: sequences(4, false)})

	// hundreds of calls on one client, good ones among rejected ones
	register(&Scenario{Name: "stats-long", Own: p21, Props: []string{"C21", "C20"}, Liveness: true, Shards: 8, MaxSteps: 500000000, MaxTime: 100000 * time.Second, Body: func(hp **H) {
		step := []int{1, 3, 5, 7, 11}[vrt.Choose(5)]
		mix := vrt.Choose(3)
		s := openStats(hp, NetCfg{Chunk: []int{0, 1, 7, 1000}[vrt.Choose(4)]})
		for i := 0; i < 600; i++ {
			q := i * step / 2 % 4
			n := 1 + i*step*37%90
			text, want := sample(q, n)
			l := lines(text)
			a := answer{text: text, good: true}
			switch (i * step % 8) * mix {
			case 1, 6: // a malformed line
				bad := badLines(q)
				at := i % len(l)
				a = answer{text: strings.Join(l[:at], "") + bad[i%len(bad)] + "\r\n" + strings.Join(l[at:], "")}
			case 3, 14: // an error line instead
				a = answer{text: errorLines[i%len(errorLines)] + "\r\n"}
			}
			s.check("C21,C20", q, a, want)
		}
		s.h.closed = true
		if e := s.cl.Close(); e != nil {
			s.h.fail("C21", "Close: "+e.Error())
		}
	}})

	// ---- C18 and C19 for the statistics client
	register(&Scenario{Name: "stats-options", Own: []string{"C18"}, Props: []string{"C18"}, Liveness: true, Deep: 1, Shards: 2, MaxTime: 1000 * time.Second, Body: func(hp **H) {
		vrt.Freeze(true)
		h := newH(NetCfg{N: 1, RT: 1000 * ms, WT: 1000 * ms})
		*hp = h
		s := &S{h: h}
		h.net.cfg.Stream = s.stream
		c := &conf{rt: 1000 * ms, wt: 1000 * ms}
		logger := 0
		d := func(n int64) time.Duration { return time.Duration(n * ms) }
		type so struct {
			opt stats.Option
			set func()
		}
		nop := func() {}
		ops := []so{
			{stats.WithNetConnOptions(netconn.WithReadTimeout(d(300))), func() { c.rt = 300 * ms }},
			{stats.WithNetConnOptions(netconn.WithWriteTimeout(d(400))), func() { c.wt = 400 * ms }},
			{stats.WithNetConnOptions(netconn.WithReadTimeout(d(1700)), netconn.WithWriteTimeout(d(1900))), func() { c.rt, c.wt = 1700*ms, 1900*ms }},
			{stats.WithNetConnOptions(netconn.WithBufferSize(4)), nop},
			{stats.WithNetConnOptions(), nop},
			{stats.WithNetConnOptions(netconn.WithTCPKeepAliveDuration(d(5000))), nop},
			{stats.WithErrorLogger(func(err error) { h.logErr(err); logger = 1 }), func() { logger = -1 }},
			{stats.WithErrorLogger(func(err error) { h.logErr(err); logger = 2 }), func() { logger = -2 }},
		}
		base := stats.WithNetConnOptions(netconn.WithDialFunc(h.net.DialFunc))
		at := vrt.Choose(3)
		list := []stats.Option{stats.WithErrorLogger(h.logErr)}
		used := make([]bool, len(ops))
		for i := 0; i < 4; i++ {
			if i == at {
				list = append(list, base)
			}
			if i == 3 {
				break
			}
			if k := vrt.Choose(len(ops) + 1); k > 0 && !used[k-1] {
				used[k-1] = true
				list = append(list, ops[k-1].opt)
				ops[k-1].set()
			}
		}
		h.deadlines(c)
		refuse := vrt.Choose(2) == 1
		if refuse {
			h.net.cfg.Script = func(kind string, conn, op int) int {
				if kind == "dial" {
					return DialErr
				}
				return 0
			}
		}
		want := -logger
		logger = 0
		s.cl = stats.New("server:11211", list...)
		if len(h.net.dials) != 1 || h.net.dials[0].network != "tcp" || h.net.dials[0].addr != "server:11211" || h.net.dials[0].timeout != 10*time.Second {
			h.fail("C18", "the configured dial function was not called as it should")
			return
		}
		if refuse {
			if logger != want || len(h.logged) != 1 {
				h.fail("C18", "the dial error did not go to the configured logger")
			}
			for q := range commands {
				if _, err := s.call(q); !errors.Is(err, h.net.errs[0]) {
					h.fail("C18", "a statistics call without a connection does not return the dial error")
				}
			}
			return
		}
		for i := int64(1); i <= 5; i++ {
			text, w := sample(0, 1)
			s.check("C18", 0, answer{text: text, good: true}, w)
			vrt.SleepUntil(vrt.Now() + min(c.rt, c.wt)*i/6)
		}
		q := vrt.Choose(4)
		t := vrt.Now()
		if vrt.Choose(2) == 0 {
			h.net.conns[0].Kill()
			s.send(answer{})
			if _, err := s.call(q); err == nil || vrt.Now()-t != c.rt {
				h.fail("C18", "a statistics call to a silent peer took "+time.Duration(vrt.Now()-t).String())
			}
		} else {
			h.net.conns[0].Stall()
			if _, err := s.call(q); err == nil || vrt.Now()-t != c.wt {
				h.fail("C18", "a statistics call to a stalled peer took "+time.Duration(vrt.Now()-t).String())
			}
		}
	}})
	register(&Scenario{Name: "stats-auth", Own: []string{"C19"}, Props: []string{"C19"}, Liveness: true, Deep: 1, Shards: 2, MaxTime: 1000 * time.Second, Body: func(hp **H) {
		vrt.Freeze(true)
		h := newH(NetCfg{N: 1, RT: 1000 * ms, WT: 1000 * ms, Chunk: []int{0, 1, 3}[vrt.Choose(3)]})
		*hp = h
		s := &S{h: h}
		h.net.cfg.Stream = s.stream
		h.slowServer = true
		a := newAuth(h, "user", "p w")
		text := []string{stored, "CLIENT_ERROR authentication failure\r\n", "STORED", "", "ERROR\r\n", "STOREd\r\n"}[vrt.Choose(6)]
		end := []int{0, ReadEOF, ReadErr}[vrt.Choose(3)]
		if text == stored {
			end = 0
		}
		a.reply = func(c *Conn) (string, int) { return text, end }
		s.cl = stats.New("server:11211", stats.WithErrorLogger(h.logErr), stats.WithNetConnOptions(netconn.WithDialFunc(a.dial())))
		if a.bad {
			a.authFailed(len(text) >= len(stored))
		}
		for q := range commands {
			x, w := sample(q, q)
			err := s.check("C19", q, answer{text: x, good: !a.bad}, w)
			if a.bad && len(h.logged) > 0 && !errors.Is(err, h.logged[0]) {
				h.fail("C19", "a statistics call after failed authentication does not return its error")
			}
		}
	}})
}
