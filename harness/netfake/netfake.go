// Package netfake accepts MySQL and PostgreSQL connections as a server would, up to the first query, and records
// with which credentials and settings the client connected.
package netfake

import (
	"bufio"
	"crypto/sha1"
	"encoding/binary"
	"io"
	"net"
	"strings"
	"sync"
)

// Conn is what a client said when it connected.
type Conn struct {
	User, Database string
	Password       func(string) bool // whether the client proved to know the given password
	Sent           string            // the password itself, when it was sent in the clear
	Params         map[string]string // PostgreSQL run-time parameters
	SSL            bool              // the client asked for SSL
	Queries        []string
}

type Server struct {
	l     net.Listener
	mu    sync.Mutex
	conns []*Conn
	// NoPassword: PostgreSQL does not ask for a password.
	NoPassword bool
}

func (s *Server) Addr() string { return s.l.Addr().String() }
func (s *Server) Port() string { _, p, _ := net.SplitHostPort(s.Addr()); return p }
func (s *Server) Close()       { s.l.Close() }

// Take returns the connections made since the last call.
func (s *Server) Take() []*Conn {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := s.conns
	s.conns = nil
	return r
}

func (s *Server) add(c *Conn) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.conns = append(s.conns, c)
}

func (s *Server) note(c *Conn, q string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	c.Queries = append(c.Queries, q)
}

func listen(network, addr string, serve func(*Server, net.Conn)) *Server {
	s, err := try(network, addr, serve)
	if err != nil {
		panic(err)
	}
	return s
}

func try(network, addr string, serve func(*Server, net.Conn)) (*Server, error) {
	l, err := net.Listen(network, addr)
	if err != nil {
		return nil, err
	}
	s := &Server{l: l}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				serve(s, c)
			}()
		}
	}()
	return s, nil
}

// TryMySQL and TryPostgres give nil where the address is not free.
func TryMySQL(network, addr string) *Server {
	s, _ := try(network, addr, (*Server).mysql)
	return s
}

func TryPostgres(network, addr string) *Server {
	s, _ := try(network, addr, (*Server).postgres)
	return s
}

func MySQL(network, addr string) *Server { return listen(network, addr, (*Server).mysql) }
func Postgres() *Server                  { return listen("tcp", "127.0.0.1:0", (*Server).postgres) }

func (s *Server) mysql(c net.Conn) {
	r := bufio.NewReader(c)
	send := func(seq byte, b []byte) {
		c.Write(append([]byte{byte(len(b)), byte(len(b) >> 8), byte(len(b) >> 16), seq}, b...))
	}
	recv := func() ([]byte, bool) {
		h := make([]byte, 4)
		if _, err := io.ReadFull(r, h); err != nil {
			return nil, false
		}
		b := make([]byte, int(h[0])|int(h[1])<<8|int(h[2])<<16)
		_, err := io.ReadFull(r, b)
		return b, err == nil
	}
	nonce := []byte("abcdefghijklmnopqrst")
	const caps = 1 | 2 | 4 | 8 | 0x200 | 0x2000 | 0x8000 | 1<<16 | 1<<17 | 1<<19 | 1<<21
	h := append([]byte{10}, "8.0.30\x00"...)
	h = append(h, 1, 0, 0, 0)
	h = append(h, nonce[:8]...)
	h = append(h, 0, byte(caps&0xff), byte(caps>>8&0xff), 45, 2, 0, byte(caps>>16&0xff), byte(caps>>24&0xff), 21)
	h = append(h, make([]byte, 10)...)
	h = append(h, nonce[8:]...)
	h = append(h, 0)
	h = append(h, "mysql_native_password\x00"...)
	send(0, h)
	b, ok := recv()
	if !ok || len(b) < 33 {
		return
	}
	flags := binary.LittleEndian.Uint32(b)
	rest := b[32:]
	str := func() string {
		i := strings.IndexByte(string(rest), 0)
		if i < 0 {
			v := string(rest)
			rest = nil
			return v
		}
		v := string(rest[:i])
		rest = rest[i+1:]
		return v
	}
	conn := &Conn{User: str()}
	n := int(rest[0])
	auth := append([]byte(nil), rest[1:1+n]...)
	rest = rest[1+n:]
	if flags&8 != 0 {
		conn.Database = str()
	}
	conn.Password = func(p string) bool {
		if p == "" {
			return len(auth) == 0
		}
		h1 := sha1.Sum([]byte(p))
		h2 := sha1.Sum(h1[:])
		h3 := sha1.Sum(append(append([]byte(nil), nonce...), h2[:]...))
		for i := range h1 {
			if len(auth) != 20 || auth[i] != h1[i]^h3[i] {
				return false
			}
		}
		return true
	}
	s.add(conn)
	okPacket := []byte{0, 0, 0, 2, 0, 0, 0}
	send(2, okPacket)
	for {
		b, ok := recv()
		if !ok || len(b) == 0 || b[0] == 1 {
			return
		}
		q := string(b[1:])
		s.note(conn, q)
		if b[0] == 14 || b[0] == 3 && strings.HasPrefix(strings.ToUpper(q), "SET ") {
			send(1, okPacket)
			continue
		}
		send(1, append([]byte{0xff, 0x50, 0x04}, "#HY000no such thing here"...))
	}
}

func (s *Server) postgres(c net.Conn) {
	r := bufio.NewReader(c)
	send := func(t byte, b []byte) {
		l := make([]byte, 4)
		binary.BigEndian.PutUint32(l, uint32(len(b)+4))
		c.Write(append(append([]byte{t}, l...), b...))
	}
	read := func() ([]byte, bool) {
		l := make([]byte, 4)
		if _, err := io.ReadFull(r, l); err != nil {
			return nil, false
		}
		n := binary.BigEndian.Uint32(l)
		if n < 4 || n > 1<<20 {
			return nil, false
		}
		b := make([]byte, n-4)
		_, err := io.ReadFull(r, b)
		return b, err == nil
	}
	conn := &Conn{Params: map[string]string{}}
	conn.Password = func(p string) bool { return conn.Sent == p }
	b, ok := read()
	if ok && len(b) == 4 && binary.BigEndian.Uint32(b) == 80877103 {
		conn.SSL = true
		s.add(conn)
		c.Write([]byte{'N'})
		return
	}
	if !ok || len(b) < 4 {
		return
	}
	kv := strings.Split(string(b[4:]), "\x00")
	for i := 0; i+1 < len(kv) && kv[i] != ""; i += 2 {
		conn.Params[kv[i]] = kv[i+1]
	}
	conn.User, conn.Database = conn.Params["user"], conn.Params["database"]
	if !s.NoPassword {
		send('R', []byte{0, 0, 0, 3})
		t := make([]byte, 1)
		if _, err := io.ReadFull(r, t); err != nil || t[0] != 'p' {
			return
		}
		b, ok := read()
		if !ok {
			return
		}
		conn.Sent = strings.TrimSuffix(string(b), "\x00")
	}
	s.add(conn)
	send('R', []byte{0, 0, 0, 0})
	send('Z', []byte{'I'})
	for {
		t := make([]byte, 1)
		if _, err := io.ReadFull(r, t); err != nil || t[0] == 'X' {
			return
		}
		b, ok := read()
		if !ok {
			return
		}
		s.note(conn, strings.TrimSuffix(string(b), "\x00"))
		send('E', []byte("SERROR\x00VERROR\x00CXX000\x00Mno such thing here\x00\x00"))
		send('Z', []byte{'I'})
	}
}
