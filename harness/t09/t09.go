// Package t09: ListenAndServe serves until its context ends.
package t09

import (
	"context"
	"net"
	"net/http"

	"github.com/superisaac/jlib/http"
	"verif/harness/nx"
	"verif/harness/v"
)

var _ = v.Reg("t09.CheckServe", CheckServe)

// up to two (three in the thorough tier) TLS configurations, each nil, one of two certificates or naming missing or no files; a free or a taken address; the context ending before, or after up to two requests; one scheduling deviation
//v:fields time=60 ttime=300 samples=6 tries=4
func CheckServe() {
	defer nx.CleanCertificates()
	bind := nx.FreeAddr()
	taken := v.Choose("taken", 2) == 1
	if taken {
		l, err := net.Listen("tcp", bind)
		v.Assert(err == nil, "the address is free")
		defer l.Close()
	}
	var cfgs []*jlibhttp.TLSConfig
	want, missing := "", false
	for i, n := 0, v.Choose("n", v.N(3, 4)); i < n; i++ {
		var cfg *jlibhttp.TLSConfig
		name := ""
		switch v.Choose("config", 7) {
		case 1:
			name = "one"
		case 2:
			name = "two"
		case 3:
			cfg = &jlibhttp.TLSConfig{Certfile: "/nonexistent/a.crt", Keyfile: "/nonexistent/a.key"}
			missing = missing || want == ""
		case 4:
			cfg = &jlibhttp.TLSConfig{}
			missing = missing || want == ""
		case 5:
			cfg = &jlibhttp.TLSConfig{}
			cfg.Certfile, _ = nx.Certificate("one")
			missing = missing || want == ""
		case 6:
			cfg = &jlibhttp.TLSConfig{}
			_, cfg.Keyfile = nx.Certificate("one")
			missing = missing || want == ""
		}
		if name != "" {
			cfg = &jlibhttp.TLSConfig{}
			cfg.Certfile, cfg.Keyfile = nx.Certificate(name)
			if want == "" && !missing {
				want = name
			}
		}
		cfgs = append(cfgs, cfg)
	}
	early := v.Choose("early", 2) == 1
	ctx, cancel := context.WithCancel(context.Background())
	if early {
		cancel()
	}
	v.Preempt(1)
	ret := make(chan error, 1)
	go func() {
		ret <- jlibhttp.ListenAndServe(ctx, bind, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			w.Write([]byte("hello"))
		}), cfgs...)
	}()
	if taken || missing && !early {
		v.Assert(<-ret != nil, "an address that cannot be bound or a certificate that cannot be read is reported")
	} else if early {
		<-ret
	} else {
		v.Idle()
		for i := v.Choose("requests", 3); i > 0; i-- {
			text, cert := nx.Fetch(bind, want != "")
			v.Assert(text == "hello" && cert == want, "the handler answers, with the first certificate given")
			text, _ = nx.Fetch(bind, want == "")
			v.Assert(text == "", "it serves TLS exactly when a certificate is given")
		}
		select {
		case <-ret:
			v.Assert(false, "it serves until the context ends")
		default:
		}
		cancel()
		<-ret
	}
	if !taken {
		v.Idle()
		text, _ := nx.Fetch(bind, want != "")
		v.Assert(text == "", "nothing is served after it returned")
		l, err := net.Listen("tcp", bind)
		v.Assert(err == nil, "the address is free again")
		l.Close()
	}
	cancel()
}
