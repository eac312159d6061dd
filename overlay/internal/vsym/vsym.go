// Package vsym is the harness interface of the symbolic engine. Compiled
// natively, it replays the concrete inputs of a counterexample (or of a
// sampled path); under the engine the functions below are intrinsics.
package vsym

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Case is one concrete execution of a harness.
type Case struct {
	Harness string            `json:"harness"`
	Values  map[string]uint64 `json:"values"`
	Tier    string            `json:"tier"`
	Repeat  int               `json:"repeat"`
	Seconds int               `json:"seconds"`
}

// Result is what a native execution did.
type Result struct {
	Index int      `json:"index"`
	Stage string   `json:"stage"` // start, done
	Fails []string `json:"fails,omitempty"`
	Panic string   `json:"panic,omitempty"`
	Obs   []string `json:"obs,omitempty"`
	Skip  bool     `json:"skip,omitempty"` // an assumption failed
	Runs  int      `json:"runs,omitempty"`
}

type state struct {
	mu     sync.Mutex
	c      Case
	count  map[string]int
	fails  []string
	obs    []string
	wg     sync.WaitGroup
	panics []string
	dirs   []string
	after  []func()
}

var cur = &state{count: map[string]int{}}

type skip struct{}

func (s *state) next(label string) (uint64, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := s.count[label]
	s.count[label] = n + 1
	v, ok := s.c.Values[fmt.Sprintf("%s#%d", label, n)]
	return v, ok
}

func get(label string) uint64 {
	v, _ := cur.next(label)
	return v
}

func Bool(label string) bool { return get(label) != 0 }
func U8(label string) uint8   { return uint8(get(label)) }
func U16(label string) uint16 { return uint16(get(label)) }
func U32(label string) uint32 { return uint32(get(label)) }
func U64(label string) uint64 { return get(label) }
func I64(label string) int64  { return int64(get(label)) }
func F64(label string) float64 {
	return math.Float64frombits(get(label))
}

// U64In is a value in [lo, hi].
func U64In(label string, lo, hi uint64) uint64 {
	v, ok := cur.next(label)
	if !ok || v < lo || v > hi {
		return lo
	}
	return v
}

// IntIn is a value in [lo, hi]; lo must not be negative.
func IntIn(label string, lo, hi int) int { return int(U64In(label, uint64(lo), uint64(hi))) }

// Choose explores each of n alternatives on its own path.
func Choose(label string, n int) int {
	v := get(label)
	if v >= uint64(n) {
		return 0
	}
	return int(v)
}

// Str is a string of exactly n symbolic bytes.
func Str(label string, n int) string { return string(Bytes(label, n)) }

// Bytes is a slice of exactly n symbolic bytes.
func Bytes(label string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(get(label))
	}
	return b
}

func Assume(ok bool) {
	if !ok {
		panic(skip{})
	}
}

func Assert(ok bool, msg string) {
	if !ok {
		cur.mu.Lock()
		cur.fails = append(cur.fails, msg)
		cur.mu.Unlock()
	}
}

// Fail is a failed assertion that stops the harness.
func Fail(msg string) {
	Assert(false, msg)
	panic(skip{})
}

func Reach(label string) {}

func Observe(name string, v any) {
	s := name + "=" + show(reflect.ValueOf(v), 0)
	cur.mu.Lock()
	cur.obs = append(cur.obs, s)
	cur.mu.Unlock()
}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func IteI64(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

// EqBytes compares without forking.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// Const tells whether a value is the same for all inputs.
func Const(v uint64) bool { return true }

// ConcU64 fixes a symbolic value to each of its feasible values in turn.
func ConcU64(v uint64) uint64 { return v }

// Symbolic reports whether the engine is executing.
func Symbolic() bool { return false }

// Bound picks a bound by tier.
func Bound(quick, thorough int) int {
	if cur.c.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Go starts a goroutine, Wait waits for all of them.
func Go(f func()) {
	cur.wg.Add(1)
	s := cur
	go func() {
		defer s.wg.Done()
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(skip); ok {
					return
				}
				s.mu.Lock()
				s.panics = append(s.panics, fmt.Sprint(r))
				s.mu.Unlock()
			}
		}()
		f()
	}()
}

func Wait() { cur.wg.Wait() }

// Yield is a schedule point.
func Yield() { runtime.Gosched() }

// Preempt bounds the preemptions per path (engine only).
func Preempt(n int) {}

// MapOrder makes the iteration order of maps symbolic (engine only).
func MapOrder(on bool) {}

// Atomic runs f without schedule points (engine only).
func Atomic(f func()) { f() }

// Races turns on the happens-before race detector (engine only).
func Races(on bool) {}

// NowIs fixes what time.Now returns under the engine.
func NowIs(unixNano uint64) {}

// TempDir is a scratch directory removed after the case.
func TempDir() string {
	if d := os.Getenv("VSYM_SCRATCH"); d != "" {
		os.MkdirAll(d, 0o755)
		t, err := os.MkdirTemp(d, "case")
		if err != nil {
			panic(err)
		}
		cur.dirs = append(cur.dirs, t)
		return t
	}
	t, err := os.MkdirTemp("", "vsym")
	if err != nil {
		panic(err)
	}
	cur.dirs = append(cur.dirs, t)
	return t
}

// After registers a clean-up that runs when the case ends (native only).
func After(f func()) { cur.after = append(cur.after, f) }

func show(v reflect.Value, d int) string {
	if d > 6 {
		return "..."
	}
	if !v.IsValid() {
		return "nil"
	}
	switch v.Kind() {
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Int, reflect.Int64:
		return strconv.FormatUint(uint64(v.Int()), 10)
	case reflect.Int32:
		return strconv.FormatUint(uint64(uint32(v.Int())), 10)
	case reflect.Int16:
		return strconv.FormatUint(uint64(uint16(v.Int())), 10)
	case reflect.Int8:
		return strconv.FormatUint(uint64(uint8(v.Int())), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float64:
		return strconv.FormatUint(math.Float64bits(v.Float()), 10)
	case reflect.Float32:
		return strconv.FormatUint(uint64(math.Float32bits(float32(v.Float()))), 10)
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Slice, reflect.Array:
		var l []string
		for i := 0; i < v.Len(); i++ {
			l = append(l, show(v.Index(i), d+1))
		}
		if v.Kind() == reflect.Array {
			return "{" + strings.Join(l, " ") + "}"
		}
		return "[" + strings.Join(l, " ") + "]"
	case reflect.Struct:
		var l []string
		for i := 0; i < v.NumField(); i++ {
			l = append(l, show(v.Field(i), d+1))
		}
		return "{" + strings.Join(l, " ") + "}"
	case reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		return "&" + show(v.Elem(), d+1)
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return show(v.Elem(), d+1)
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			l = append(l, show(k, d+1)+":"+show(v.MapIndex(k), d+1))
		}
		sort.Strings(l)
		return "map[" + strings.Join(l, " ") + "]"
	}
	return v.Kind().String()
}

// RunCases executes the cases of VSYM_CASES, starting at VSYM_FROM, and
// appends results to VSYM_OUT.
func RunCases(reg map[string]func()) error {
	data, err := os.ReadFile(os.Getenv("VSYM_CASES"))
	if err != nil {
		return err
	}
	var cases []Case
	if err := json.Unmarshal(data, &cases); err != nil {
		return err
	}
	out, err := os.OpenFile(os.Getenv("VSYM_OUT"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		return err
	}
	defer out.Close()
	from, _ := strconv.Atoi(os.Getenv("VSYM_FROM"))
	emit := func(r Result) {
		b, _ := json.Marshal(r)
		out.Write(append(b, '\n'))
	}
	for i := from; i < len(cases); i++ {
		c := cases[i]
		f := reg[c.Harness]
		if f == nil {
			continue
		}
		emit(Result{Index: i, Stage: "start"})
		var r Result
		stop := time.Now().Add(time.Duration(max(c.Seconds, 1)) * time.Second)
		n := max(c.Repeat, 1)
		for k := 0; k < n; k++ {
			// compressors of the column store allocate per processor
			runtime.GOMAXPROCS(2)
			if n > 1 {
				runtime.GOMAXPROCS([]int{2, 4, 1, 8, 3}[k%5])
			}
			r = runOne(c, f)
			r.Runs = k + 1
			if len(r.Fails) > 0 || r.Panic != "" {
				break
			}
			if n > 1 && time.Now().After(stop) {
				break
			}
		}
		r.Index = i
		r.Stage = "done"
		emit(r)
	}
	return nil
}

func runOne(c Case, f func()) (r Result) {
	s := &state{c: c, count: map[string]int{}}
	cur = s
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(skip); ok {
					r.Skip = len(s.fails) == 0
					return
				}
				buf := make([]byte, 4096)
				n := runtime.Stack(buf, false)
				r.Panic = fmt.Sprint(x) + "\n" + string(buf[:n])
			}
		}()
		f()
	}()
	for i := len(s.after) - 1; i >= 0; i-- {
		s.after[i]()
	}
	s.mu.Lock()
	r.Fails = s.fails
	r.Obs = s.obs
	if r.Panic == "" && len(s.panics) > 0 {
		r.Panic = s.panics[0]
	}
	s.mu.Unlock()
	for _, d := range s.dirs {
		os.RemoveAll(d)
	}
	return
}

// Must reports whether the engine already knows b to be true (no query).
func Must(b bool) bool { return b }
