package model

import (
	"context"
	"errors"
	"net"
	"net/http"
	"sync"

	"strings"
)

// Model of listening sockets and of http.Server's serving loop.

type listener struct {
	addr   string
	conns  chan *exchange
	closed chan struct{}
	isDone bool
}

// exchange is a connection that carries one request.
type exchange struct {
	net.Conn
	tls  bool
	done chan struct{}
	text string
	cert string
}

type tcpAddr string

func (a tcpAddr) Network() string { return "tcp" }
func (a tcpAddr) String() string  { return string(a) }

var netMu sync.Mutex
var listeners = map[string]*listener{}
var serving = map[*http.Server][]net.Listener{}
var shut = map[*http.Server]bool{}

func NetListen(network, addr string) (net.Listener, error) {
	if network != "tcp" && network != "tcp4" || !strings.HasPrefix(addr, "127.0.0.1:") {
		return nil, &net.OpError{Op: "listen", Net: network, Err: errors.New("invalid address")}
	}
	netMu.Lock()
	defer netMu.Unlock()
	if listeners[addr] != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: errors.New("address already in use")}
	}
	l := &listener{addr: addr, conns: make(chan *exchange, 8), closed: make(chan struct{})}
	listeners[addr] = l
	return l, nil
}

func (l *listener) Addr() net.Addr { return tcpAddr(l.addr) }

func (l *listener) Accept() (net.Conn, error) {
	select {
	case <-l.closed:
	default:
		select {
		case <-l.closed:
		case c := <-l.conns:
			return c, nil
		}
	}
	return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
}

func (l *listener) Close() error {
	netMu.Lock()
	defer netMu.Unlock()
	if l.isDone {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	l.isDone = true
	delete(listeners, l.addr)
	close(l.closed)
	return nil
}

type recorder struct {
	code int
	h    http.Header
	b    strings.Builder
}

func (r *recorder) Header() http.Header         { return r.h }
func (r *recorder) WriteHeader(code int)        { r.code = code }
func (r *recorder) Write(b []byte) (int, error) { return r.b.Write(b) }

func ServerServe(s *http.Server, l net.Listener) error { return serve(s, l, "") }

func serve(s *http.Server, l net.Listener, cert string) error {
	netMu.Lock()
	over := shut[s]
	serving[s] = append(serving[s], l)
	netMu.Unlock()
	defer l.Close()
	for !over {
		c, err := l.Accept()
		if err != nil {
			netMu.Lock()
			over = shut[s]
			netMu.Unlock()
			if over {
				break
			}
			return err
		}
		x := c.(*exchange)
		go func() {
			defer close(x.done)
			if x.tls != (cert != "") {
				return
			}
			r := &recorder{code: 200, h: http.Header{}}
			req, _ := http.NewRequest("GET", "http://"+l.Addr().String()+"/", nil)
			h := s.Handler
			if h == nil {
				h = http.DefaultServeMux
			}
			h.ServeHTTP(r, req.WithContext(context.Background()))
			if r.code == 200 {
				x.text, x.cert = r.b.String(), cert
			}
		}()
	}
	return http.ErrServerClosed
}

// certNames of the certificate and key files there are.
var certNames = map[string]string{}

func ServerServeTLS(s *http.Server, l net.Listener, certFile, keyFile string) error {
	if certNames[certFile] == "" || certNames[certFile] != certNames[keyFile] {
		return errors.New("open " + certFile + ": no such file or directory")
	}
	return serve(s, l, certNames[certFile])
}

func ServerListenAndServe(s *http.Server) error {
	l, err := NetListen("tcp", s.Addr)
	if err != nil {
		return err
	}
	return ServerServe(s, l)
}

func ServerListenAndServeTLS(s *http.Server, certFile, keyFile string) error {
	l, err := NetListen("tcp", s.Addr)
	if err != nil {
		return err
	}
	defer l.Close()
	return ServerServeTLS(s, l, certFile, keyFile)
}

func ServerClose(s *http.Server) error {
	netMu.Lock()
	shut[s] = true
	ls := serving[s]
	netMu.Unlock()
	for _, l := range ls {
		l.Close()
	}
	return nil
}

func ServerShutdown(s *http.Server, ctx context.Context) error { return ServerClose(s) }

// Certificate makes files of a self-signed certificate.
func Certificate(name string) (cert, key string) {
	certNames[name+".crt"], certNames[name+".key"] = name, name
	return name + ".crt", name + ".key"
}

func CleanCertificates() {}

// FreeAddr is an address nobody listens at.
func FreeAddr() string { return "127.0.0.1:6767" }

// Fetch asks the server at an address.
func Fetch(addr string, tls bool) (text, cert string) {
	netMu.Lock()
	l := listeners[addr]
	netMu.Unlock()
	if l == nil {
		return
	}
	x := &exchange{tls: tls, done: make(chan struct{})}
	select {
	case l.conns <- x:
	case <-l.closed:
		return
	}
	select {
	case <-x.done:
	case <-l.closed:
		return
	}
	return x.text, x.cert
}
