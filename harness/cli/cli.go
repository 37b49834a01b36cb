// Package cli stands in for what the repository's programs do to the outside
// world.
package cli

import (
	"context"
	"flag"
	"fmt"
	"net/http"
	"sync"

	"github.com/superisaac/jlib/http"
)

const Used = true

// Served is what a program serves.
type Served struct {
	Ctx     context.Context
	Bind    string
	Handler http.Handler
}

// Serving gets one value per ListenAndServe.
var Serving = make(chan Served, 4)

// ListenAndServe serves until the context ends.
func ListenAndServe(ctx context.Context, bind string, handler http.Handler, tls ...*jlibhttp.TLSConfig) error {
	Serving <- Served{ctx, bind, handler}
	<-ctx.Done()
	return nil
}

// Args, Env, Stdout and Stderr of the program.
var Args []string
var Env = map[string]string{}
var Stdout, Stderr = &Output{}, &Output{}

// Output keeps what is written.
type Output struct {
	mu    sync.Mutex
	Parts []string
}

func (o *Output) add(s string) (int, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.Parts = append(o.Parts, s)
	return len(s), nil
}

func (o *Output) Write(b []byte) (int, error) {
	return o.add(string(b))
}

func (o *Output) WriteString(s string) (int, error) { return o.add(s) }

// Text is all that was written.
func (o *Output) Text() string {
	s := ""
	for _, p := range o.Parts {
		s += p
	}
	return s
}

func Getenv(k string) string { return Env[k] }

func LookupEnv(k string) (string, bool) {
	s, ok := Env[k]
	return s, ok
}

type exit struct{ code int }

func Exit(code int) { panic(exit{code}) }

func Printf(f string, args ...interface{}) (int, error) {
	return Stdout.WriteString(fmt.Sprintf(f, args...))
}
func Println(args ...interface{}) (int, error) { return Stdout.WriteString(fmt.Sprintln(args...)) }
func Print(args ...interface{}) (int, error)   { return Stdout.WriteString(fmt.Sprint(args...)) }

// Fatalf of the log.
func Fatalf(f string, args ...interface{}) {
	Stderr.WriteString(fmt.Sprintf(f, args...))
	Exit(1)
}

const ExitOnError = flag.PanicOnError

// Run runs a program with arguments; the code is what it exits with, 2 for a
// panic.
func Run(f func(), args ...string) (code int) {
	Args = append([]string{"program"}, args...)
	Stdout, Stderr = &Output{}, &Output{}
	defer func() {
		switch r := recover().(type) {
		case nil:
		case exit:
			code = r.code
		default:
			code = 2
		}
	}()
	f()
	return 0
}
