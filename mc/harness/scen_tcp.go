package main

import (
	"net"
	"os"
	"strconv"
	"syscall"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/QuangTung97/go-memcache/memcache/netconn"
	"github.com/QuangTung97/go-memcache/memcache/stats"
	"vrt"
)

// ---- C18 on real TCP sockets: what the fake connections of the other scenarios cannot show ----

// tcpPeer is a loopback listener that closes whatever connects to it, or a port nobody listens on.
type tcpPeer struct {
	ln    net.Listener
	fd    int
	at    string
	ports chan int // remote ports of the connections accepted
}

func newTCPPeer(refuse bool) *tcpPeer {
	if refuse {
		fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		if err != nil {
			return nil
		}
		p := &tcpPeer{fd: fd}
		if syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}) != nil {
			p.close()
			return nil
		}
		sa, err := syscall.Getsockname(fd)
		if err != nil {
			p.close()
			return nil
		}
		p.at = "127.0.0.1:" + strconv.Itoa(sa.(*syscall.SockaddrInet4).Port)
		return p
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil
	}
	p := &tcpPeer{ln: ln, at: ln.Addr().String(), ports: make(chan int, 64)}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			port := c.RemoteAddr().(*net.TCPAddr).Port
			_ = c.Close()
			p.ports <- port
		}
	}()
	return p
}

func (p *tcpPeer) close() {
	if p.ln != nil {
		_ = p.ln.Close()
	} else {
		_ = syscall.Close(p.fd)
	}
}

// accepted waits (in real time) until a connection has arrived and been closed.
func (p *tcpPeer) accepted() int {
	select {
	case port := <-p.ports:
		return port
	case <-time.After(5 * time.Second):
		return 0
	}
}

// keepAlive gives the keep-alive period of a socket in seconds, 0 if keep-alive is off.
func keepAlive(fd int) int {
	on, err := syscall.GetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_KEEPALIVE)
	if err != nil || on == 0 {
		return 0
	}
	idle, err := syscall.GetsockoptInt(fd, syscall.IPPROTO_TCP, syscall.TCP_KEEPIDLE)
	if err != nil {
		return -1
	}
	return idle
}

func tcpSockets(hp **H) {
	h := newH(NetCfg{N: 1})
	*hp = h
	vrt.Freeze(true)
	api := vrt.Choose(3)    // netconn, client, statistics client
	dialed := vrt.Choose(2) // the default dial function, a dial function
	period := vrt.Choose(5) // none given: 30 s
	other := vrt.Choose(3)  // other options: none, before, after
	twice := vrt.Choose(2)  // given before with another value: the last one counts
	refuse := vrt.Choose(2) // nobody listens
	want := []int{30, 1, 7, 45, 600}[period]
	p := newTCPPeer(refuse == 1)
	if p == nil {
		return
	}
	defer p.close()
	var files []*os.File
	defer func() {
		for _, f := range files {
			_ = f.Close()
		}
	}()
	dials := 0
	dial := func(network, address string, timeout time.Duration) (net.Conn, error) {
		dials++
		d := net.Dialer{Timeout: 5 * time.Second, KeepAlive: -1}
		nc, err := d.Dial(network, address)
		if err != nil {
			return nil, err
		}
		f, err := nc.(*net.TCPConn).File()
		if err != nil {
			return nil, err
		}
		files = append(files, f)
		return nc, nil
	}
	var list []netconn.Option
	if other == 1 {
		list = append(list, netconn.WithBufferSize(4096), netconn.WithReadTimeout(2*time.Second), netconn.WithWriteTimeout(3*time.Second))
	}
	if twice == 1 {
		list = append(list, netconn.WithTCPKeepAliveDuration(1234*time.Second))
		if period == 0 {
			want = 1234
		}
	}
	if dialed == 1 {
		list = append(list, netconn.WithDialFunc(dial))
	}
	mopt := -1
	if period > 0 {
		if api == 1 && twice == 0 {
			mopt = want
		} else {
			list = append(list, netconn.WithTCPKeepAliveDuration(time.Duration(want)*time.Second))
		}
	}
	if other == 2 {
		list = append(list, netconn.WithBufferSize(100), netconn.WithReadTimeout(2*time.Second))
	}
	vrt.Note("tcp api=%d dial=%d period=%d other=%d twice=%d refuse=%d", api, dialed, want, other, twice, refuse)
	logged := 0
	logErr := func(error) { logged++ }
	switch api {
	case 0:
		nc, err := netconn.DialNewConn(p.at, list...)
		if (err != nil) != (refuse == 1) {
			h.fail("C18", "DialNewConn on a TCP address: unexpected result")
		}
		if err == nil {
			if dialed == 0 {
				// the socket cannot be seen from outside, except by its descriptor
				h.keepAlivePort(p.accepted(), want)
			}
			_ = nc.Closer.Close()
		}
	case 1:
		all := []memcache.Option{memcache.WithNetConnOptions(list...), memcache.WithDialErrorLogger(logErr)}
		if mopt >= 0 {
			all = append(all, memcache.WithTCPKeepAliveDuration(time.Duration(mopt)*time.Second))
		}
		cl, err := memcache.New(p.at, 1, all...)
		if err != nil {
			h.fail("C18", "New: "+err.Error())
			return
		}
		_ = cl.Close()
	case 2:
		cl := stats.New(p.at, stats.WithErrorLogger(logErr), stats.WithNetConnOptions(list...))
		_ = cl.Close()
	}
	if api > 0 && refuse == 1 && logged == 0 {
		h.fail("C18", "a refused TCP connection was not logged")
	}
	if refuse == 0 && dialed == 1 {
		if dials == 0 || len(files) == 0 {
			h.fail("C18", "the dial function was not used")
			return
		}
		if got := keepAlive(int(files[0].Fd())); got != want {
			h.fail("C18", "TCP keep-alive period is "+strconv.Itoa(got)+" s, configured "+strconv.Itoa(want)+" s")
		}
	}
	if refuse == 0 && !(api == 0 && dialed == 0) && p.accepted() == 0 {
		h.fail("C18", "no TCP connection was made to the address")
	}
	vrt.Idle()
}

// keepAlivePort checks the socket of this process with the given local port.
func (h *H) keepAlivePort(port, want int) {
	if port == 0 {
		h.fail("C18", "no TCP connection was made to the address")
		return
	}
	for fd := 3; fd < 1024; fd++ {
		sa, err := syscall.Getsockname(fd)
		if err != nil {
			continue
		}
		if a, ok := sa.(*syscall.SockaddrInet4); ok && a.Port == port {
			if got := keepAlive(fd); got != want {
				h.fail("C18", "TCP keep-alive period is "+strconv.Itoa(got)+" s, configured "+strconv.Itoa(want)+" s")
			}
			return
		}
	}
}

func init() {
	register(&Scenario{Name: "tcp-sockets", Own: []string{"C18"}, Props: []string{"C18"}, Liveness: true, LIFO: true, Real: true, MaxTime: 1000 * time.Second, Body: tcpSockets})
}
