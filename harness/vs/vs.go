// Package vs gives the harnesses their symbolic inputs. The symbolic engine intercepts every
// function below; the bodies here are used when a model found by the solver is replayed
// against the natively compiled code.
package vs

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sync"
	"time"
)

type input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Int  int64  `json:"int"`
	Str  []byte `json:"str"`
	N    int    `json:"n"`
}

type assignment struct {
	Inputs []input `json:"inputs"`
	Tier   string  `json:"tier"`
}

var (
	mu     sync.Mutex
	vals   = map[string]input{}
	counts = map[string]int{}
	tier   string
	failed bool
)

// Load reads the assignment of a replay.
func Load(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var a assignment
	if err := json.Unmarshal(b, &a); err != nil {
		panic(err)
	}
	for _, i := range a.Inputs {
		vals[i.Name] = i
	}
	tier = a.Tier
}

type stopReplay struct{}

// say reports at once, so that it is seen even when the code hangs afterwards.
func say(line string) { os.Stdout.WriteString(line + "\n") }

// Run executes a harness under the loaded assignment and reports what it observed.
func Run(f func()) {
	InstallHooks()
	defer func() {
		r := recover()
		if _, ok := r.(stopReplay); ok {
			r = nil
		}
		if r != nil {
			fmt.Printf("VS-PANIC %v\n", r)
			os.Exit(3)
		}
		fmt.Println("VS-END")
		if failed {
			os.Exit(2)
		}
		os.Exit(0)
	}()
	f()
}

func next(label string) (input, bool) {
	mu.Lock()
	defer mu.Unlock()
	counts[label]++
	n := label
	if c := counts[label]; c > 1 {
		n = fmt.Sprintf("%s#%d", label, c)
	}
	v, ok := vals[n]
	return v, ok
}

// Symbolic reports whether the harness runs in the symbolic engine.
func Symbolic() bool { return false }

// Thorough reports whether the thorough tier runs.
func Thorough() bool { return tier == "thorough" }

func Int(label string) int       { v, _ := next(label); return int(v.Int) }
func Int64(label string) int64   { v, _ := next(label); return v.Int }
func Uint64(label string) uint64 { v, _ := next(label); return uint64(v.Int) }
func Int32(label string) int32   { v, _ := next(label); return int32(v.Int) }
func Uint32(label string) uint32 { v, _ := next(label); return uint32(v.Int) }
func Byte(label string) byte     { v, _ := next(label); return byte(v.Int) }
func Bool(label string) bool     { v, _ := next(label); return v.Int != 0 }

func IntRange(label string, lo, hi int) int {
	v, ok := next(label)
	if !ok {
		return lo
	}
	return int(v.Int)
}
func Int64Range(label string, lo, hi int64) int64 {
	v, ok := next(label)
	if !ok {
		return lo
	}
	return v.Int
}

// Choose forks over 0..n-1.
func Choose(label string, n int) int { v, _ := next(label); return int(v.Int) }

// Pick is one of the given strings.
func Pick(label string, opts ...string) string { v, _ := next(label); return opts[v.Int] }

// Str is any string of at most max bytes.
func Str(label string, max int) string { v, _ := next(label); return string(v.Str) }

// StrRange is any string of lo..hi bytes.
func StrRange(label string, lo, hi int) string {
	v, ok := next(label)
	if !ok {
		return string(make([]byte, lo))
	}
	return string(v.Str)
}

// StrIn is any string of lo..hi bytes drawn from charset.
func StrIn(label string, lo, hi int, charset string) string {
	v, ok := next(label)
	if !ok {
		b := make([]byte, lo)
		for i := range b {
			b[i] = charset[0]
		}
		return string(b)
	}
	return string(v.Str)
}

func Bytes(label string, max int) []byte { v, _ := next(label); return append([]byte{}, v.Str...) }
func BytesN(label string, n int) []byte {
	v, ok := next(label)
	if !ok {
		return make([]byte, n)
	}
	return append([]byte{}, v.Str...)
}

// Assume cuts the executions in which c is false.
func Assume(c bool) {
	if !c {
		say("VS-ASSUME-FALSE")
		panic(stopReplay{})
	}
}

// Assert states the property.
func Assert(c bool, label string) {
	mu.Lock()
	defer mu.Unlock()
	if !c {
		say("VS-VIOLATION "+label)
		failed = true
	} else {
		say("VS-OK "+label)
	}
}

// Possible states that some values of the inputs that lead here make c true.
func Possible(c bool, label string) { Assert(c, label) }

// Cover marks a reachability witness.
func Cover(label string) {
	mu.Lock()
	defer mu.Unlock()
	say("VS-COVER "+label)
}

// Stop ends the execution quietly.
func Stop() { panic(stopReplay{}) }

func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }

func Debug(msg string, x ...any) {
	if os.Getenv("VS_DEBUG") != "" {
		fmt.Println(append([]any{"DEBUG", msg}, x...)...)
	}
}

var (
	nowSec int64
	nowSet bool
)

// SetNow sets the clock to sec seconds after the epoch.
func SetNow(sec int64) {
	mu.Lock()
	nowSec, nowSet = sec, true
	mu.Unlock()
}

func clock() (int64, bool) {
	mu.Lock()
	defer mu.Unlock()
	if !nowSet {
		return 1700000000, true
	}
	return nowSec, true
}

// Locked reports whether a mutex is held.
func Locked(m any) bool {
	l := m.(interface{ TryLock() bool })
	if l.TryLock() {
		m.(interface{ Unlock() }).Unlock()
		return false
	}
	return true
}

// Same is deep equality of messages and plain data.
func Same(a, b any) bool { return same(a, b) }

// Snapshot is a deep copy of a message.
func Snapshot(a any) any { return snapshot(a) }

// ---- threads

type thr struct {
	resume chan struct{}
	parked chan struct{}
	done   bool
	// waiting reports whether the thread still waits for a lock
	waiting func() bool
}

var (
	threads []*thr
	cur     *thr
	vals0   int
)

// Go starts a thread that runs when Join schedules it.
func Go(f func()) {
	t := &thr{resume: make(chan struct{}), parked: make(chan struct{}, 1)}
	threads = append(threads, t)
	go func() {
		<-t.resume
		defer func() {
			r := recover()
			if r != nil {
				if _, ok := r.(stopReplay); !ok {
					mu.Lock()
					say(fmt.Sprintf("VS-PANIC %v", r))
					failed = true
					mu.Unlock()
				}
			}
			t.done = true
			t.parked <- struct{}{}
		}()
		f()
	}()
}

// Yield is a scheduling point.
func Yield() {
	t := cur
	if t == nil {
		return
	}
	t.parked <- struct{}{}
	<-t.resume
}

// MaxPreempt is the preemption bound of the engine (set by the runner).
var MaxPreempt = 3

// Free makes Join run the threads without a schedule (for the race detector).
var Free = os.Getenv("VS_FREE") != ""

// Join runs the threads under the schedule of the assignment.
func Join() {
	if Free {
		for _, t := range threads {
			t.resume <- struct{}{}
		}
		for _, t := range threads {
			for {
				<-t.parked
				if t.done {
					break
				}
				t.resume <- struct{}{}
			}
		}
		threads = nil
		return
	}
	last, preempt := -1, 0
	blocked := map[int]bool{}
	for {
		var run []int
		for i, t := range threads {
			if blocked[i] {
				select {
				case <-t.parked:
					blocked[i] = false
				default:
				}
			}
			if !t.done && !blocked[i] && (t.waiting == nil || !t.waiting()) {
				run = append(run, i)
			}
		}
		alive := 0
		for _, t := range threads {
			if !t.done {
				alive++
			}
		}
		if alive == 0 {
			break
		}
		if len(run) == 0 {
			// everything left waits inside a lock: give it a moment, then call it a deadlock
			time.Sleep(300 * time.Millisecond)
			moved := false
			for i, t := range threads {
				if blocked[i] {
					select {
					case <-t.parked:
						blocked[i] = false
						moved = true
					default:
					}
				}
			}
			if moved {
				continue
			}
			say("VS-DEADLOCK")
			failed = true
			panic(stopReplay{})
		}
		k := run[0]
		if len(run) > 1 {
			lastOK := false
			for _, i := range run {
				lastOK = lastOK || i == last
			}
			if lastOK && preempt >= MaxPreempt {
				k = last
			} else {
				v, _ := next("sched")
				if int(v.Int) < len(run) {
					k = run[v.Int]
				}
				if lastOK && k != last {
					preempt++
				}
			}
		}
		last = k
		t := threads[k]
		cur = t
		t.resume <- struct{}{}
		select {
		case <-t.parked:
		case <-time.After(2 * time.Second):
			blocked[k] = true
		}
		cur = nil
	}
	threads = nil
}

func reflectSame(a, b any) bool { return reflect.DeepEqual(a, b) }

// Fill leaves every unset exported field of the message m open: strings of at most max bytes,
// any number, any enumeration value, nil or a filled message. Fields named by except keep their
// value.
func Fill(label string, m any, max int, except ...string) {
	mu.Lock()
	counts[label]++
	if c := counts[label]; c > 1 {
		label = fmt.Sprintf("%s#%d", label, c)
	}
	mu.Unlock()
	v := reflect.ValueOf(m)
	if v.Kind() == reflect.Pointer && !v.IsNil() {
		fillStruct(label, v.Elem(), except)
	}
}

func fillStruct(name string, v reflect.Value, except []string) {
fields:
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if !f.IsExported() || !v.Field(i).IsZero() {
			continue
		}
		for _, x := range except {
			if x == f.Name {
				continue fields
			}
		}
		fillValue(name+"."+f.Name, v.Field(i))
	}
}

func fillValue(name string, v reflect.Value) {
	in := vals[name]
	given := vals[name+"?"].Int != 0
	switch v.Kind() {
	case reflect.String:
		v.SetString(string(in.Str))
	case reflect.Bool:
		v.SetBool(in.Int != 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(in.Int)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(in.Int))
	case reflect.Pointer:
		if !given {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		if v.Type().Elem().Kind() == reflect.Struct {
			fillStruct(name, v.Elem(), nil)
		} else {
			fillValue(name, v.Elem())
		}
	case reflect.Slice:
		if !given {
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes(append([]byte{}, in.Str...))
			return
		}
		if k := v.Type().Elem().Kind(); k == reflect.Pointer || k == reflect.Struct {
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), 1, 1))
		fillValue(name+"[0]", v.Index(0))
	}
}
