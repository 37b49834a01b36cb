// Package tx is a transport of the streaming client whose other end the
// harness plays.
package tx

import (
	"context"
	"errors"
	"net/http"
	"net/url"
	"sync"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"verif/harness/v"
)

// Link is the transport; it makes one connection at a time.
type Link struct {
	mu    sync.Mutex
	cur   *Conn
	conns int

	// Refuse tells whether the n-th connection attempt fails.
	Refuse func(n int) bool
	// Event is called after each connection attempt and message.
	Event func()
	// Jam tells whether the connection takes no more messages, although it
	// stays open.
	Jam func(c *Conn, msg jlib.Message) bool
	// Write is called with every message the peer gets.
	Write func(c *Conn, msg jlib.Message)
}

// Conn is one connection.
type Conn struct {
	N      int
	in     chan jlib.Message
	closed chan struct{} // by the client
	broken chan struct{} // by the peer
	once   sync.Once
}

// Message round trip over the wire.
func Wire(msg jlib.Message) (jlib.Message, error) {
	b, err := jlib.MessageBytes(msg)
	if err != nil {
		return nil, err
	}
	return jlib.ParseBytes(b)
}

// Deliver sends a message to the client.
func (c *Conn) Deliver(msg jlib.Message) {
	m, err := Wire(msg)
	if err != nil {
		panic(err)
	}
	c.in <- m
}

// Break ends the connection from the peer's side.
func (c *Conn) Break() { c.once.Do(func() { close(c.broken) }) }

// Conns is the number of connections made.
func (l *Link) Conns() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.conns
}

// Cur is the present connection.
func (l *Link) Cur() *Conn {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.cur
}

func (l *Link) event() {
	if l.Event != nil {
		l.Event()
	}
}

func (l *Link) Connect(ctx context.Context, u *url.URL, h http.Header) error {
	v.Yield()
	defer l.event()
	l.mu.Lock()
	defer l.mu.Unlock()
	n := l.conns
	l.conns++
	if l.Refuse != nil && l.Refuse(n) {
		return jlibhttp.TransportConnectFailed
	}
	l.cur = &Conn{N: n, in: make(chan jlib.Message, 16), closed: make(chan struct{}), broken: make(chan struct{})}
	return nil
}

func (l *Link) Close() {
	v.Yield()
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.cur != nil {
		close(l.cur.closed)
		l.cur = nil
	}
}

func (l *Link) Connected() bool { return l.Cur() != nil }

func (l *Link) ReadMessage() (jlib.Message, bool, error) {
	v.Yield()
	c := l.Cur()
	if c == nil {
		return nil, false, jlibhttp.TransportClosed
	}
	select {
	case m := <-c.in:
		return m, true, nil
	default:
	}
	select {
	case m := <-c.in:
		return m, true, nil
	case <-c.closed:
	case <-c.broken:
	}
	return nil, false, jlibhttp.TransportClosed
}

func (l *Link) WriteMessage(msg jlib.Message) error {
	v.Yield()
	c := l.Cur()
	if c == nil {
		return jlibhttp.TransportClosed
	}
	select {
	case <-c.broken:
		return jlibhttp.TransportClosed
	default:
	}
	m, err := Wire(msg)
	if err != nil {
		return err
	}
	if l.Jam != nil && l.Jam(c, m) {
		return errors.New("broken pipe")
	}
	if l.Write != nil {
		l.Write(c, m)
	}
	l.event()
	return nil
}

// URL of the peer.
func URL() *url.URL { return &url.URL{Scheme: "ws", Host: "peer"} }
