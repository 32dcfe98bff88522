//go:build go1.22

// Package redis is a store that speaks the Redis protocol, and can fail.
package redis

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Store is one.
type Store struct {
	Port string

	mu    sync.Mutex
	ln    net.Listener
	hash  map[string]map[string]string
	str   map[string]string
	conns map[net.Conn]bool
	most  int
	total int

	// Fault is called for every command; what it returns is one of the following.
	fault func(cmd []string) Fault
	delay func()
}

// Fault is what may go wrong with a command.
type Fault int

const (
	None     Fault = iota
	Refuse         // an error is answered, nothing is done
	HangUp         // the connection is closed, nothing is done
	DoHangUp       // it is done, and the connection is closed without an answer
)

// New starts one.
func New() *Store {
	s := &Store{hash: map[string]map[string]string{}, str: map[string]string{}, conns: map[net.Conn]bool{}}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	_, s.Port, _ = net.SplitHostPort(ln.Addr().String())
	s.start(ln)
	return s
}

func (s *Store) start(ln net.Listener) {
	s.mu.Lock()
	s.ln = ln
	s.mu.Unlock()
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.conns[c] = true
			s.total++
			if len(s.conns) > s.most {
				s.most = len(s.conns)
			}
			s.mu.Unlock()
			go s.serve(c)
		}
	}()
}

// Down stops it; the data stays.
func (s *Store) Down() {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.ln != nil {
		s.ln.Close()
		s.ln = nil
	}
	for c := range s.conns {
		c.Close()
	}
}

// Up starts it again.
func (s *Store) Up() {
	var ln net.Listener
	var err error
	for i := 0; i < 100; i++ {
		if ln, err = net.Listen("tcp", "127.0.0.1:"+s.Port); err == nil {
			s.start(ln)
			return
		}
		time.Sleep(50 * time.Millisecond)
	}
	panic("harness: " + err.Error())
}

// Faults sets what goes wrong.
func (s *Store) Faults(f func(cmd []string) Fault) { s.mu.Lock(); s.fault = f; s.mu.Unlock() }

// Delay is called before every command.
func (s *Store) Delay(f func()) { s.mu.Lock(); s.delay = f; s.mu.Unlock() }

// Conns counts the open connections.
func (s *Store) Conns() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.conns) }

// Size counts what is stored under all names.
func (s *Store) Size() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := len(s.str)
	for _, h := range s.hash {
		n += len(h)
	}
	return n
}

func (s *Store) serve(c net.Conn) {
	defer func() {
		c.Close()
		s.mu.Lock()
		delete(s.conns, c)
		s.mu.Unlock()
	}()
	in := bufio.NewReader(c)
	out := bufio.NewWriter(c)
	multi := false
	var queue [][]string
	for {
		cmd, err := read(in)
		if err != nil {
			return
		}
		s.mu.Lock()
		delay, fault := s.delay, s.fault
		s.mu.Unlock()
		if delay != nil {
			delay()
		}
		f := None
		if fault != nil {
			f = fault(cmd)
		}
		switch f {
		case Refuse:
			out.WriteString("-ERR fault injected\r\n")
			out.Flush()
			continue
		case HangUp:
			return
		}
		var a string
		switch name := strings.ToUpper(cmd[0]); {
		case name == "MULTI":
			multi, queue, a = true, nil, "+OK\r\n"
		case name == "DISCARD":
			multi, queue, a = false, nil, "+OK\r\n"
		case name == "EXEC":
			s.mu.Lock()
			a = fmt.Sprintf("*%d\r\n", len(queue))
			for _, q := range queue {
				a += s.do(q)
			}
			s.mu.Unlock()
			multi, queue = false, nil
		case multi:
			queue, a = append(queue, cmd), "+QUEUED\r\n"
		default:
			s.mu.Lock()
			a = s.do(cmd)
			s.mu.Unlock()
		}
		if f == DoHangUp {
			return
		}
		out.WriteString(a)
		if in.Buffered() == 0 {
			out.Flush()
		}
	}
}

func bulk(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }

func num(n int) string { return fmt.Sprintf(":%d\r\n", n) }

func list(l []string) string {
	a := fmt.Sprintf("*%d\r\n", len(l))
	for _, x := range l {
		a += bulk(x)
	}
	return a
}

// do runs a command; the lock is held.
func (s *Store) do(cmd []string) string {
	n := len(cmd)
	need := func(min int) bool { return n >= min }
	bad := "-ERR wrong number of arguments for '" + cmd[0] + "' command\r\n"
	var key string
	if n > 1 {
		key = cmd[1]
	}
	h := s.hash[key]
	var fields []string
	for f := range h {
		fields = append(fields, f)
	}
	sort.Strings(fields)
	switch strings.ToUpper(cmd[0]) {
	case "PING":
		return "+PONG\r\n"
	case "SELECT", "AUTH", "CLIENT", "READONLY":
		return "+OK\r\n"
	case "HSET", "HMSET":
		if n < 4 || n%2 != 0 {
			return bad
		}
		if h == nil {
			h = map[string]string{}
			s.hash[key] = h
		}
		added := 0
		for i := 2; i < n; i += 2 {
			if _, ok := h[cmd[i]]; !ok {
				added++
			}
			h[cmd[i]] = cmd[i+1]
		}
		if strings.ToUpper(cmd[0]) == "HMSET" {
			return "+OK\r\n"
		}
		return num(added)
	case "HSETNX":
		if n != 4 {
			return bad
		}
		if _, ok := h[cmd[2]]; ok {
			return num(0)
		}
		if h == nil {
			h = map[string]string{}
			s.hash[key] = h
		}
		h[cmd[2]] = cmd[3]
		return num(1)
	case "HGET":
		if n != 3 {
			return bad
		}
		if v, ok := h[cmd[2]]; ok {
			return bulk(v)
		}
		return "$-1\r\n"
	case "HMGET":
		if !need(3) {
			return bad
		}
		a := fmt.Sprintf("*%d\r\n", n-2)
		for _, f := range cmd[2:] {
			if v, ok := h[f]; ok {
				a += bulk(v)
			} else {
				a += "$-1\r\n"
			}
		}
		return a
	case "HGETALL":
		var l []string
		for _, f := range fields {
			l = append(l, f, h[f])
		}
		return list(l)
	case "HKEYS":
		return list(fields)
	case "HVALS":
		var l []string
		for _, f := range fields {
			l = append(l, h[f])
		}
		return list(l)
	case "HLEN":
		return num(len(h))
	case "HEXISTS":
		if n != 3 {
			return bad
		}
		if _, ok := h[cmd[2]]; ok {
			return num(1)
		}
		return num(0)
	case "HDEL":
		if !need(3) {
			return bad
		}
		gone := 0
		for _, f := range cmd[2:] {
			if _, ok := h[f]; ok {
				gone++
				delete(h, f)
			}
		}
		if len(h) == 0 {
			delete(s.hash, key)
		}
		return num(gone)
	case "HSCAN":
		var l []string
		for _, f := range fields {
			l = append(l, f, h[f])
		}
		return "*2\r\n" + bulk("0") + list(l)
	case "SET":
		if !need(3) {
			return bad
		}
		s.str[key] = cmd[2]
		return "+OK\r\n"
	case "GET":
		if v, ok := s.str[key]; ok {
			return bulk(v)
		}
		return "$-1\r\n"
	case "DEL", "UNLINK", "EXISTS":
		c := 0
		for _, x := range cmd[1:] {
			_, a := s.hash[x]
			_, b := s.str[x]
			if a || b {
				c++
			}
			if strings.ToUpper(cmd[0]) != "EXISTS" {
				delete(s.hash, x)
				delete(s.str, x)
			}
		}
		return num(c)
	case "FLUSHDB", "FLUSHALL":
		s.hash, s.str = map[string]map[string]string{}, map[string]string{}
		return "+OK\r\n"
	}
	return "-ERR unknown command '" + cmd[0] + "'\r\n"
}

func read(in *bufio.Reader) ([]string, error) {
	line := func() (string, error) {
		l, err := in.ReadString('\n')
		return strings.TrimRight(l, "\r\n"), err
	}
	l, err := line()
	if err != nil {
		return nil, err
	}
	if !strings.HasPrefix(l, "*") {
		return nil, io.ErrUnexpectedEOF
	}
	n, err := strconv.Atoi(l[1:])
	if err != nil || n < 1 || n > 1<<20 {
		return nil, io.ErrUnexpectedEOF
	}
	cmd := make([]string, n)
	for i := range cmd {
		l, err := line()
		if err != nil || !strings.HasPrefix(l, "$") {
			return nil, io.ErrUnexpectedEOF
		}
		m, err := strconv.Atoi(l[1:])
		if err != nil || m < 0 || m > 1<<26 {
			return nil, io.ErrUnexpectedEOF
		}
		b := make([]byte, m+2)
		if _, err := io.ReadFull(in, b); err != nil {
			return nil, err
		}
		cmd[i] = string(b[:m])
	}
	return cmd, nil
}
