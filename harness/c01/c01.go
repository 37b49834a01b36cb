// Package c01: the command line client sends what it was told and prints the
// answer.
package c01

import (
	"net/http"
	"strconv"
	"strings"

	"github.com/superisaac/jlib"
	"verif/harness/cli"
	"verif/harness/gen/call"
	"verif/harness/gen/notify"
	"verif/harness/hx"
	"verif/harness/nx"
	"verif/harness/v"
)

var _ = v.Reg("c01.CheckCall", CheckCall)
var _ = v.Reg("c01.CheckNotify", CheckNotify)
var _ = v.Reg("c01.CheckRefused", CheckRefused)
var _ = v.Reg("c01.CheckExit", CheckExit)

// line makes the arguments that name the server and the headers.
func line(s *nx.Site, elsewhere string, vary bool) (args []string, h http.Header) {
	cli.Env = map[string]string{}
	if !vary {
		return []string{"-c", s.URL}, http.Header{}
	}
	switch v.Choose("url", 4) {
	case 0:
		args = append(args, "-c", s.URL)
	case 1:
		args = append(args, "--c="+s.URL)
	case 2:
		cli.Env["JSONRPC_CONNECT"] = s.URL
	case 3:
		cli.Env["JSONRPC_CONNECT"] = elsewhere
		args = append(args, "-c", s.URL)
	}
	h = http.Header{}
	for i := v.Choose("headers", 3); i > 0; i-- {
		val := v.StringOf("value"+strconv.Itoa(i), "a=", 2)
		args = append(args, "-header", "X-A= "+val+" ")
		h["X-A"] = append(h["X-A"], val)
	}
	return
}

// params makes the arguments after the method.
func params(vary bool) (args []string) {
	if !vary {
		return []string{"x"}
	}
	for i := v.Choose("params", v.N(3, 4)); i > 0; i-- {
		n := strconv.Itoa(i)
		switch v.Choose("p"+n, 2) {
		case 0:
			args = append(args, v.StringOf("text"+n, "a1-", 2))
		case 1:
			args = append(args, v.Pick("word"+n, "true", "null", "1.5", `[1,"a"]`, `{"a":[]}`, `"1"`, "-x", "-c", "--"))
		}
	}
	return
}

func result(req *jlib.RequestMessage) jlib.Message {
	if v.Choose("iserror", 2) == 1 {
		e := &jlib.RPCError{Code: v.Int("code"), Message: v.ASCII("text", 1)}
		return e.ToMessage(req)
	}
	return jlib.NewResultMessage(req, v.Value("result", hx.Val()))
}

// arrived states what the server must have got.
func arrived(s *nx.Site, method string, args []string, h http.Header) jlib.Message {
	want, err := jlib.GuessJsonArray(args)
	v.Assert(err == nil, "the params are good")
	if want == nil {
		want = []interface{}{}
	}
	n, path, got := s.Visits()
	v.Assert(n == 1 && path == "/p", "one request or connection is made to the server named")
	for k, vs := range h {
		v.Assert(len(got[k]) == len(vs) && nx.Contains(got[k], vs), "the headers given accompany it")
	}
	ms := s.Messages()
	v.Assert(len(ms) == 1, "one message is sent")
	if len(ms) != 1 {
		return nil
	}
	m := ms[0]
	v.Assert(m.IsRequestOrNotify(), "it is a request or notify")
	if m.IsRequestOrNotify() {
		v.Assert(m.MustMethod() == method, "it has the method given")
		v.Assert(v.SameJSON(hx.Enc(m.MustParams()), hx.Enc(want)), "it has the params given, in order")
	}
	return m
}

func open() *nx.Site { return nx.Open(v.Pick("kind", "http", "ws", "h2"), false) }

// the call program against a server of each kind named by a flag or the environment or both, up to 2 headers of up to 2 letters, a method of 1 or 2 letters or dashes, up to 2 (3) params: texts of up to 2 letters of a1- or nine words; any result of depth 1 or error; the flags, the params or the answer vary
//v:reach=result,error time=60 ttime=300 samples=6
func CheckCall() {
	s := open()
	defer s.Stop()
	var answer jlib.Message
	focus := v.Choose("focus", 3)
	s.Reply = func(msg jlib.Message) jlib.Message {
		req, ok := msg.(*jlib.RequestMessage)
		if !ok {
			return nil
		}
		if focus == 0 {
			answer = result(req)
		} else {
			answer = jlib.NewResultMessage(req, 1)
		}
		return answer
	}
	args, h := line(s, "ftp://nowhere", focus == 1)
	method := v.StringOf("method", "a-", 2)
	v.Assume(method != "" && method[0] != '-')
	ps := params(focus == 2)
	args = append(append(args, method), ps...)
	code := cli.Run(call.Main, args...)
	m := arrived(s, method, ps, h)
	v.Assert(m == nil || m.IsRequest(), "the message is a request")
	v.Assert(code == 0, "the program succeeds")
	if answer == nil {
		return
	}
	got, err := jlib.ParseBytes([]byte(cli.Stdout.Text()))
	v.Assert(err == nil, "the output is one JSON-RPC message")
	if err != nil {
		return
	}
	if answer.IsError() {
		v.Reach("error")
		v.Assert(got.IsError(), "the server's error is printed")
		if got.IsError() {
			a, b := answer.MustError(), got.MustError()
			v.Assert(v.And(a.Code == b.Code, a.Message == b.Message), "the server's error is printed")
		}
	} else {
		v.Reach("result")
		v.Assert(got.IsResult(), "the server's result is printed")
		if got.IsResult() {
			v.Assert(v.SameJSON(hx.Enc(got.MustResult()), hx.Enc(answer.MustResult())), "the server's result is printed")
		}
	}
}

// the notify program, in the same way
//v:reach=sent time=60 ttime=300 samples=6
func CheckNotify() {
	s := open()
	defer s.Stop()
	s.Reply = func(jlib.Message) jlib.Message { return nil }
	focus := v.Choose("focus", 2)
	args, h := line(s, "ftp://nowhere", focus == 1)
	method := v.StringOf("method", "a-", 2)
	v.Assume(method != "" && method[0] != '-')
	ps := params(focus == 0)
	args = append(append(args, method), ps...)
	code := cli.Run(notify.Main, args...)
	v.Assert(code == 0, "the program succeeds")
	v.Assert(cli.Stdout.Text() == "", "nothing is printed")
	if s.Kind != "http" {
		v.Idle() // see CheckExit
	}
	v.Reach("sent")
	m := arrived(s, method, ps, h)
	v.Assert(m == nil || m.IsNotify(), "the message is a notify")
}

// either program with no method, an unparsable param, header or URL, an unknown flag, or a server that refuses the TLS-less connection
//v:time=60 ttime=300 samples=6
func CheckRefused() {
	kind := v.Pick("kind", "http", "ws", "h2")
	s := nx.Open(kind, v.Choose("secure", 2) == 1)
	defer s.Stop()
	cli.Env = map[string]string{}
	args := []string{"-c", s.URL, "-header", "X-A=1"}
	tail := []string{"m", "1"}
	why := v.Pick("why", "no method", "param", "header", "scheme", "url", "flag", "trust")
	switch why {
	case "no method":
		tail = nil
	case "param":
		tail = append(tail, v.Pick("bad", "[1", `{"a"}`, `"x`, "[1] 2"))
	case "header":
		args = append(args, "-header", v.StringOf("h", "ab: ", 2))
	case "scheme":
		args = append(args, "-c", v.Pick("scheme", "tcp", "HTTPX", "")+"://h")
	case "url":
		args = append(args, "-c", "http://[::1")
	case "flag":
		args = append(args, "-unknown")
	case "trust":
		v.Assume(strings.HasPrefix(s.URL, "https:") || strings.HasPrefix(s.URL, "wss:") || strings.HasPrefix(s.URL, "h2:"))
	}
	f := call.Main
	if v.Choose("program", 2) == 1 {
		f = notify.Main
	}
	code := cli.Run(f, append(args, tail...)...)
	v.Assert(code == 1 || code == 2, "the program fails")
	v.Assert(cli.Stdout.Text() == "", "nothing is printed as a result")
	v.Assert(cli.Stderr.Text() != "" || why == "flag", "the reason is printed")
	n, _, _ := s.Visits()
	v.Assert(n == 0, "nothing is sent")
}

// the notify program against a websocket or HTTP/2 server, at the moment it ends
//v:time=60 samples=2
func CheckExit() {
	s := nx.Open(v.Pick("kind", "ws", "h2"), false)
	defer s.Stop()
	s.Reply = func(jlib.Message) jlib.Message { return nil }
	code := cli.Run(notify.Main, "-c", s.URL, "m", "1")
	v.Assert(code == 0, "the program succeeds")
	v.Assert(len(s.Messages()) == 1, "the notify has reached the server when the program ends")
}
