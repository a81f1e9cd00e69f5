package main

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Cmd is a command received by the fake server.
type Cmd struct {
	Conn, Idx int
	Line      string
	Val       string
	At        time.Time
}

// Server is a scripted memcached behind net.Pipe connections.
type Server struct {
	mu    sync.Mutex
	Dials int
	Open  []net.Conn // client ends
	Peers []net.Conn
	Cmds  []Cmd
	// Handle returns the reply; "" = none. It may close or block.
	Handle func(c Cmd, peer net.Conn) string
	// Dial may refuse.
	OnDial func(n int) error
}

// DialFunc is given to the client.
func (s *Server) DialFunc(_, _ string, _ time.Duration) (net.Conn, error) {
	s.mu.Lock()
	n := s.Dials
	s.Dials++
	s.mu.Unlock()
	if s.OnDial != nil {
		if err := s.OnDial(n); err != nil {
			return nil, err
		}
	}
	a, b := net.Pipe()
	s.mu.Lock()
	id := len(s.Open)
	s.Open = append(s.Open, a)
	s.Peers = append(s.Peers, b)
	s.mu.Unlock()
	go s.serve(id, b)
	return a, nil
}

func (s *Server) serve(id int, peer net.Conn) {
	r := bufio.NewReaderSize(peer, 1<<20)
	out := make(chan string, 100000)
	go func() {
		for x := range out {
			if _, err := io.WriteString(peer, x); err != nil {
				return
			}
		}
	}()
	defer close(out)
	for i := 0; ; i++ {
		line, err := r.ReadString('\n')
		if err != nil {
			return
		}
		c := Cmd{Conn: id, Idx: i, Line: strings.TrimSuffix(line, "\r\n"), At: time.Now()}
		f := strings.Fields(c.Line)
		if len(f) > 2 && f[0] == "ms" {
			n, _ := strconv.Atoi(f[2])
			b := make([]byte, n+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			c.Val = string(b[:n])
		}
		s.mu.Lock()
		s.Cmds = append(s.Cmds, c)
		s.mu.Unlock()
		h := s.Handle
		if h == nil {
			h = Default
		}
		if rep := h(c, peer); rep != "" {
			out <- rep
		}
	}
}

// Count of commands seen.
func (s *Server) Count() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.Cmds)
}

// List of commands seen.
func (s *Server) List() []Cmd {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Cmd(nil), s.Cmds...)
}

// Default answers like a memcached where every key has the value "v-<key>".
func Default(c Cmd, _ net.Conn) string {
	f := strings.Fields(c.Line)
	if len(f) == 0 {
		return "ERROR\r\n"
	}
	switch f[0] {
	case "mg":
		v := "v-" + f[1]
		return fmt.Sprintf("VA %d\r\n%s\r\n", len(v), v)
	case "ms", "md":
		return "HD\r\n"
	case "version":
		return "VERSION 1.6\r\n"
	case "flush_all":
		return "OK\r\n"
	}
	return "ERROR\r\n"
}

// Bad reports the failure and exits.
func Bad(f string, a ...any) {
	fmt.Printf("FAIL: "+f+"\n", a...)
	os.Exit(1)
}

// Within runs f and fails when it takes longer than d.
func Within(d time.Duration, what string, f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(d):
		Bad("%s does not return within %v", what, d)
	}
}
