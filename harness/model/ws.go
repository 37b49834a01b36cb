package model

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io"
	"net"
	"net/http"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"verif/harness/v"
)

// Message-level model of gorilla/websocket connections.

type frame struct {
	kind int
	data []byte
}

type wsEnd struct {
	mu      sync.Mutex
	in      chan frame
	peer    *wsEnd
	closed  chan struct{}
	isDone  bool
	writing bool
	lost    int
	failed  int
	limit   int64
}

var wsEnds = map[*websocket.Conn]*wsEnd{}

// UpgradeKey holds the connection Upgrade returns in the request's context;
// without it, it fails.
type UpgradeKey struct{}

// Dial plays the server for clients that dial.
var Dial func(d *websocket.Dialer, url string, h http.Header) (*websocket.Conn, error)

// WSPair makes a connection.
func WSPair() (a, b *websocket.Conn) {
	a, b = new(websocket.Conn), new(websocket.Conn)
	x := &wsEnd{in: make(chan frame, 32), closed: make(chan struct{})}
	y := &wsEnd{in: make(chan frame, 32), closed: make(chan struct{}), peer: x}
	x.peer = y
	wsEnds[a], wsEnds[b] = x, y
	return
}

func WSUpgrade(u *websocket.Upgrader, w http.ResponseWriter, r *http.Request, h http.Header) (*websocket.Conn, error) {
	c, _ := r.Context().Value(UpgradeKey{}).(*websocket.Conn)
	if c == nil {
		w.Header().Set("Sec-Websocket-Version", "13")
		http.Error(w, http.StatusText(400), 400)
		return nil, errors.New("websocket: the client is not using the websocket protocol")
	}
	return c, nil
}

func WSDial(d *websocket.Dialer, url string, h http.Header) (*websocket.Conn, *http.Response, error) {
	c, err := Dial(d, url, h)
	return c, nil, err
}

func WSDialContext(d *websocket.Dialer, ctx context.Context, url string, h http.Header) (*websocket.Conn, *http.Response, error) {
	if err := ctx.Err(); err != nil {
		return nil, nil, err
	}
	return WSDial(d, url, h)
}

// The model knows no deadlines and no control frames.
func WSSetDeadline(c *websocket.Conn, t time.Time) error { return nil }

func WSWriteControl(c *websocket.Conn, kind int, data []byte, t time.Time) error { return nil }

func WSWriteJSON(c *websocket.Conn, x interface{}) error {
	b, err := json.Marshal(x)
	if err != nil {
		return err
	}
	return WSWriteMessage(c, websocket.TextMessage, append(b, '\n'))
}

func WSNextReader(c *websocket.Conn) (int, io.Reader, error) {
	kind, b, err := WSReadMessage(c)
	if err != nil {
		return kind, nil, err
	}
	return kind, bytes.NewReader(b), nil
}

func end(c *websocket.Conn) *wsEnd {
	if c == nil {
		panic(errors.New("nil websocket.Conn"))
	}
	return wsEnds[c]
}

var errClosedConn = &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}

// WSSetReadLimit bounds the length of the messages read, as gorilla does.
func WSSetReadLimit(c *websocket.Conn, limit int64) { end(c).limit = limit }

type wsWriter struct {
	c    *websocket.Conn
	kind int
	data []byte
	done bool
}

func (w *wsWriter) Write(b []byte) (int, error) {
	w.data = append(w.data, b...)
	return len(b), nil
}

func (w *wsWriter) Close() error {
	if w.done {
		return errors.New("websocket: write closed")
	}
	w.done = true
	return WSWriteMessage(w.c, w.kind, w.data)
}

func WSNextWriter(c *websocket.Conn, kind int) (io.WriteCloser, error) {
	return &wsWriter{c: c, kind: kind}, nil
}

func WSReadMessage(c *websocket.Conn) (int, []byte, error) {
	e := end(c)
	kind, b, err := e.read()
	if err == nil && e.limit > 0 && int64(len(b)) > e.limit {
		e.failed++
		return -1, nil, websocket.ErrReadLimit
	}
	return kind, b, err
}

func (e *wsEnd) read() (int, []byte, error) {
	v.Yield()
	select {
	case <-e.closed:
		e.failed++
		if e.failed >= 1000 {
			panic("repeated read on failed websocket connection")
		}
		return -1, nil, errClosedConn
	default:
	}
	select {
	case f := <-e.in:
		return f.kind, f.data, nil
	default:
	}
	select {
	case f := <-e.in:
		return f.kind, f.data, nil
	case <-e.closed:
		e.failed++
		return -1, nil, errClosedConn
	case <-e.peer.closed:
	}
	select {
	case f := <-e.in:
		return f.kind, f.data, nil
	default:
	}
	e.failed++
	if e.failed >= 1000 {
		panic("repeated read on failed websocket connection")
	}
	return -1, nil, &websocket.CloseError{Code: 1006, Text: io.ErrUnexpectedEOF.Error()}
}

func WSWriteMessage(c *websocket.Conn, kind int, data []byte) error {
	e := end(c)
	v.Yield()
	if e.writing {
		panic("concurrent write to websocket connection")
	}
	e.writing = true
	v.Yield()
	e.writing = false
	select {
	case <-e.closed:
		return errClosedConn
	default:
	}
	select {
	case <-e.peer.closed:
		// the first write after the peer went away is still accepted
		e.lost++
		if e.lost > 1 {
			return &net.OpError{Op: "write", Net: "tcp", Err: errors.New("broken pipe")}
		}
		return nil
	default:
	}
	e.peer.in <- frame{kind, append([]byte{}, data...)}
	return nil
}

func WSClose(c *websocket.Conn) error {
	e := end(c)
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.isDone {
		return errClosedConn
	}
	e.isDone = true
	close(e.closed)
	return nil
}
