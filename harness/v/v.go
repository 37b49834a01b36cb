// Package v is the nondeterminism interface of the harnesses.
//
// Under the symbolic engine every function here is replaced by an engine
// primitive: inputs are fresh symbolic values, Assert asks the solver whether
// the assertion can fail on the current path.  The bodies below are the
// native meaning: inputs come from an assignment file written by the engine
// (a counterexample or a sample), and assertions are evaluated for real.
package v

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"
)

// Shape bounds a symbolic JSON document.
//
// Kinds: n null, b bool, i any 64-bit integer, f a literal from Lits, F any
// finite float, s string of at most StrLen ASCII bytes, a list, o object with
// keys from Keys, ! malformed text (root only).
type Shape struct {
	Depth, Width, StrLen int
	Keys                 []string
	Kinds                string
	Lits                 []string
}

type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
}

var (
	mu     sync.Mutex
	inputs map[string]Input
	names  = map[string]int{}
	tier   = "quick"
	reg    = map[string]func(){}
	failed []string
	obs    []string
	out    = os.Stdout
)

// Reg registers a harness for native replay.
func Reg(name string, fn func()) bool { reg[name] = fn; return true }

func uniq(name string) string {
	mu.Lock()
	defer mu.Unlock()
	n := names[name]
	names[name] = n + 1
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s~%d", name, n)
}

func get(name string) (string, bool) {
	in, ok := inputs[uniq(name)]
	return in.Val, ok
}

func getInt(name string) int64 {
	s, ok := get(name)
	if !ok {
		return 0
	}
	n, _ := strconv.ParseInt(s, 10, 64)
	return n
}

// Int is any 64-bit integer.
func Int(name string) int     { return int(getInt(name)) }
func Int64(name string) int64 { return getInt(name) }

// Bool is any boolean.
func Bool(name string) bool { s, _ := get(name); return s == "true" }

// Float is any finite float64.
func Float(name string) float64 {
	s, _ := get(name)
	f, _ := strconv.ParseFloat(s, 64)
	return f
}

// String is any string of at most max bytes.
func String(name string, max int) string {
	s, ok := get(name)
	if !ok {
		return ""
	}
	u, err := strconv.Unquote(s)
	if err != nil {
		panic("bad input " + name + ": " + s)
	}
	return u
}

// ASCII is any string of at most max ASCII bytes.
func ASCII(name string, max int) string { return String(name, max) }

// StringOf is any string of at most max bytes of the alphabet.
func StringOf(name, alphabet string, max int) string { return String(name, max) }

// Choose is any integer in [0,n), decided by forking.
func Choose(name string, n int) int { return int(getInt(name)) }

// Pick is one of the options.
func Pick(name string, opts ...string) string { return opts[Choose(name, len(opts))] }

// JSON is the text of any JSON document within the shape.
func JSON(name string, sh Shape) []byte {
	s, ok := get(name)
	if !ok {
		return []byte("null")
	}
	return []byte(s)
}

// Value is the decoded form of JSON (numbers as json.Number).
func Value(name string, sh Shape) interface{} {
	return decode(name, true)
}

// FValue is the decoded form of JSON (numbers as float64).
func FValue(name string, sh Shape) interface{} {
	return decode(name, false)
}

func decode(name string, useNumber bool) interface{} {
	s, ok := get(name)
	if !ok {
		return nil
	}
	d := json.NewDecoder(strings.NewReader(s))
	if useNumber {
		d.UseNumber()
	}
	var x interface{}
	if err := d.Decode(&x); err != nil {
		panic("bad input " + name + ": " + s)
	}
	return x
}

type assumeFailed struct{}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		fmt.Fprintln(out, "@@ ASSUME-FAILED")
		os.Exit(3)
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		mu.Lock()
		failed = append(failed, msg)
		fmt.Fprintln(out, "@@ ASSERT "+strconv.Quote(msg))
		mu.Unlock()
	}
}

// Reach marks a situation the harness must be able to reach.
func Reach(label string) {}

// Observe records a value compared between the symbolic and the native run.
func Observe(name string, val interface{}) {
	mu.Lock()
	defer mu.Unlock()
	s := "?"
	switch x := val.(type) {
	case nil:
		s = "nil"
	case error:
		s = "err"
	case bool:
		s = strconv.FormatBool(x)
	case string:
		s = strconv.Quote(x)
	case []byte:
		s = strconv.Quote(string(x))
	case float64:
		s = strconv.FormatFloat(x, 'g', -1, 64)
	default:
		rv := reflect.ValueOf(val)
		switch rv.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			s = strconv.FormatInt(rv.Int(), 10)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			s = strconv.FormatUint(rv.Uint(), 10)
		case reflect.String:
			s = strconv.Quote(rv.String())
		}
	}
	fmt.Fprintln(out, "@@ OBS "+name+"="+s)
}

// SameJSON: the two texts are the same JSON document (numbers by their text,
// objects without regard to key order).
func SameJSON(a, b []byte) bool {
	x, err := dec(a)
	if err != nil {
		return false
	}
	y, err := dec(b)
	if err != nil {
		return false
	}
	return reflect.DeepEqual(x, y)
}

func dec(b []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var x interface{}
	if err := d.Decode(&x); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("trailing data")
	}
	return x, nil
}

// And, Or evaluate all their arguments (no branching).
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

// In: c is one of the bytes of set.
func In(c byte, set string) bool { return strings.IndexByte(set, c) >= 0 }

// Symbolic tells whether the symbolic engine is running the harness.
func Symbolic() bool { return false }

// MapOrder makes map iteration order nondeterministic from here on.
func MapOrder() {}

// Preempt allows up to n scheduling deviations from here on.
func Preempt(n int) {
	mu.Lock()
	defer mu.Unlock()
	held = n <= 0
	for i := range delays {
		delays[i].hits = 0
	}
}

// held is set while the harness allows no deviation.
var held bool

// Selects bounds, from here on, how many selects take another than the first of
// several ready cases.
func Selects(n int) {}

// Quiet runs without preemption (setup code).
func Quiet(on bool) {}

// Encoding makes encoding a value as JSON a preemption point.
func Encoding() {}

// Yield is a preemption point.
func Yield() {}

// Set sets a field of a struct the harness cannot reach otherwise (false when
// there is no such field).
func Set(ptr interface{}, field string, val interface{}) bool {
	f := reflect.ValueOf(ptr).Elem().FieldByName(field)
	if !f.IsValid() || !reflect.TypeOf(val).AssignableTo(f.Type()) {
		return false
	}
	reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(val))
	return true
}

// Races turns on detection of unsynchronised map accesses.
func Races() {}

// Idle waits until every other goroutine is blocked or gone.
func Idle() {
	buf := make([]byte, 1<<20)
	end := time.Now().Add(6 * time.Second)
	for calm := 0; calm < 3 && time.Now().Before(end); {
		time.Sleep(8 * time.Millisecond)
		if busy(string(buf[:runtime.Stack(buf, true)])) {
			calm = 0
		} else {
			calm++
		}
	}
}

// Running is the number of goroutines but the caller's that run code of a
// package (natively after some time to end).
func Running(pkg string) int {
	n := 0
	for try := 0; try < 60; try++ {
		buf := make([]byte, 1<<20)
		n = 0
		for i, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
			if i == 0 {
				continue
			}
			for _, l := range strings.Split(g, "\n") {
				if strings.HasPrefix(l, pkg+".") {
					n++
					break
				}
			}
		}
		if n == 0 {
			break
		}
		time.Sleep(25 * time.Millisecond)
	}
	return n
}

// busy tells whether a goroutine other than the first one listed (the caller)
// can go on by itself.
func busy(dump string) bool {
	for i, g := range strings.Split(dump, "\n\n") {
		if i == 0 {
			continue
		}
		head, _, _ := strings.Cut(g, "\n")
		a, b := strings.IndexByte(head, '['), strings.IndexByte(head, ']')
		if a < 0 || b < a {
			continue
		}
		st, _, _ := strings.Cut(head[a+1:b], ",")
		switch {
		case strings.HasPrefix(st, "chan "), strings.HasPrefix(st, "select"), strings.HasPrefix(st, "sync."),
			st == "semacquire", st == "IO wait", strings.HasPrefix(st, "GC "), strings.HasPrefix(st, "force gc"), strings.HasPrefix(st, "finalizer"):
		case st == "sleep" && !strings.Contains(g, "harness/v.Point"):
		default:
			return true
		}
	}
	return false
}

// Point is put between the statements of the real code by the schedule
// replay: it holds a goroutine back where the counterexample does.
func Point(site string) {
	if len(delays) == 0 {
		return
	}
	for i := range delays {
		d := &delays[i]
		if d.site != site {
			continue
		}
		mu.Lock()
		d.hits++
		hit := !held && (d.hits == d.want || d.want == 0)
		mu.Unlock()
		if hit {
			time.Sleep(d.dur)
		}
	}
}

type delay struct {
	site string
	want int // which hit of the site; 0 all
	hits int
	dur  time.Duration
}

var delays []delay

// Tries is how many variations of the delays Point knows.
const Tries = 24

func setDelays(sites []string, try int) {
	n := len(sites)
	for i, s := range sites {
		if try >= 8 && try < 16 && !strings.HasSuffix(s, "+") && !strings.HasSuffix(s, "{") {
			s += "~"
		}
		k := i + 1
		if try%2 == 1 {
			k = n - i
		}
		want := try / 2 % 4
		if try >= 16 {
			want += 4
		}
		delays = append(delays, delay{site: s, want: want, dur: time.Duration(k) * 70 * time.Millisecond})
	}
}

// IdleTimers waits until nothing at all can happen any more, letting virtual
// time pass.
func IdleTimers(max time.Duration) { time.Sleep(max) }

// Tier of the run.
func Tier() string { return tier }

// N picks a bound by tier.
func N(quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

// Main runs one harness natively: replay NAME ASSIGNMENT.json
func Main() {
	if len(os.Args) < 3 {
		fmt.Println("usage: replay HARNESS FILE.json")
		os.Exit(2)
	}
	if t := os.Getenv("VERIF_TIER"); t != "" {
		tier = t
	}
	b, err := os.ReadFile(os.Args[2])
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var doc struct {
		Inputs []Input  `json:"inputs"`
		Delays []string `json:"delays"`
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	inputs = map[string]Input{}
	for _, in := range doc.Inputs {
		inputs[in.Name] = in
	}
	try, _ := strconv.Atoi(os.Getenv("VERIF_TRY"))
	setDelays(doc.Delays, try)
	fn := reg[os.Args[1]]
	if fn == nil {
		fmt.Println("no such harness: " + os.Args[1])
		os.Exit(2)
	}
	fn()
	fmt.Fprintln(out, "@@ DONE")
	if len(failed) > 0 {
		os.Exit(1)
	}
}
