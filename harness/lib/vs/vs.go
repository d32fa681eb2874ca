// Package vs is the interface between a harness and the two ways of running
// it. The symbolic engine replaces every function here by its own; this file
// is the native version, used to replay a counterexample against the compiled
// code: symbolic inputs are read from the file named by VERIF_REPLAY.
package vs

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"
	"syscall"
	"time"
)

var (
	mu     sync.Mutex
	vals   map[string]uint64
	count  = map[string]int{}
	bounds map[string]string
	limit  int
	base   runtime.MemStats
	thor   bool
)

func init() {
	f := os.Getenv("VERIF_REPLAY")
	if f == "" {
		return
	}
	b, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	var r struct {
		Values map[string]uint64
		Tier   string
	}
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	vals = r.Values
	thor = r.Tier == "thorough"
}

func next(name string) string {
	mu.Lock()
	k := count[name]
	count[name] = k + 1
	mu.Unlock()
	return fmt.Sprintf("%s#%d", name, k)
}

func val(name string) uint64 { return vals[next(name)] }

func U8(name string) uint8   { return uint8(val(name)) }
func U16(name string) uint16 { return uint16(val(name)) }
func U32(name string) uint32 { return uint32(val(name)) }
func U64(name string) uint64 { return val(name) }
func I32(name string) int32  { return int32(val(name)) }
func I64(name string) int64  { return int64(val(name)) }
func Int(name string) int    { return int(val(name)) }
func Bool(name string) bool  { return val(name) != 0 }

func IntRange(name string, lo, hi int) int {
	v := int(val(name))
	if v < lo || v > hi {
		return lo
	}
	return v
}

func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := int(val(name))
	if v >= n {
		return 0
	}
	return v
}

func Bytes(name string, n int) []byte {
	p := next(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vals[fmt.Sprintf("%s[%d]", p, i)])
	}
	return b
}

func Str(name string, n int) string { return string(Bytes(name, n)) }

func BigBytes(name string, n int) []byte {
	p := next(name)
	b := make([]byte, n)
	for j := 0; ; j++ {
		v, ok := vals[fmt.Sprintf("%s.at#%d", p, j)]
		if !ok {
			break
		}
		i := vals[fmt.Sprintf("%s.idx#%d", p, j)]
		if i < uint64(n) {
			b[i] = byte(v)
		}
	}
	return b
}

func Assume(c bool) {
	if !c {
		println("VERIF-ASSUME")
		os.Exit(4)
	}
}

func Assert(c bool, label string) {
	if !c {
		Fail(label)
	}
}

func Fail(label string) {
	println("VERIF-FAIL " + label)
	os.Exit(3)
}

func Reach(label string) {}

func Thorough() bool { return thor }

func Bound(name string, quick, thorough int) int {
	if thor {
		return thorough
	}
	return quick
}

// Scale is the first number in the engine and the second natively, for sizes
// whose effect shows natively only when they are large.
func Scale(symbolic, native int) int { return native }

func Concrete(x int) int { return x }

func AllocLimit(n int) {
	limit = n
	runtime.ReadMemStats(&base)
}

// Done is called by the replay driver when the harness returned.
func Done() {
	if limit > 0 {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.TotalAlloc-base.TotalAlloc > uint64(limit)+(1<<20) {
			Fail("alloc")
		}
	}
}

func MapOrder(bool)   {}
func Races(bool)      {}
func Preemptions(int) {}
func Timers(int)      {}

// Delays turns on delay-bounded scheduling with that many delays.
func Delays(int) {}

// LateStarts lets that many new goroutines not start before all others are
// blocked.
func LateStarts(int) {}

func MaxSteps(int) {}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }

func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

func IteU8(c bool, a, b uint8) uint8 {
	if c {
		return a
	}
	return b
}

func EqBytes(a, b []byte) bool { return bytes.Equal(a, b) }
func EqStr(a, b string) bool   { return a == b }
func LessStr(a, b string) bool { return a < b }

func At(b []byte, i int) byte {
	if i < 0 || i >= len(b) {
		return 0
	}
	return b[i]
}

func Yield()              { runtime.Gosched() }
func Atomically(f func()) { mu2.Lock(); defer mu2.Unlock(); f() }

var mu2 sync.Mutex

func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}

func Symbolic() bool { return false }

// Live is only meaningful symbolically.
func Live() int { return 0 }

func Advance(d time.Duration) {
	mu.Lock()
	offset += d
	mu.Unlock()
}

func FreezeClock(b bool) { frozen = b }

// VirtualTime lets time pass only when all goroutines wait, and timers fire in
// the order they are due; for delay-bounded scheduling.
func VirtualTime(b bool) { realTime = b }

// Settle gives the other goroutines time to run until they block.
func Settle() { time.Sleep(300 * time.Millisecond) }

// --- clock and random numbers, installed only when the counterexample
// depends on them

var (
	t0     = time.Now()
	offset time.Duration
	frozen bool
	// realTime leaves native runs on the clock of the system.
	realTime bool
)

//verif:nhook time.Now hookNow tick#|passed#
func hookNow() time.Time {
	if realTime {
		var tv syscall.Timeval
		_ = syscall.Gettimeofday(&tv)
		return t0.Add(time.Unix(tv.Sec, tv.Usec*1000).Sub(t0))
	}
	if !frozen {
		d := val("tick")
		mu.Lock()
		offset += time.Duration(d)
		mu.Unlock()
	}
	return t0.Add(offset)
}

//verif:nhook time.Since hookSince tick#|passed#
func hookSince(t time.Time) time.Duration { return hookNow().Sub(t) }

//verif:nhook time.Until hookUntil tick#|passed#
func hookUntil(t time.Time) time.Duration { return t.Sub(hookNow()) }

//verif:nhook math/rand.Uint32 hookUint32 rand.
func hookUint32() uint32 { return uint32(val("rand.Uint32")) }

//verif:nhook math/rand.Uint64 hookUint64 rand.
func hookUint64() uint64 { return val("rand.Uint64") }

//verif:nhook math/rand.Int hookInt rand.
func hookInt() int { return int(val("rand.Int")) }

//verif:nhook math/rand.Int31 hookInt31 rand.
func hookInt31() int32 { return int32(val("rand.Int31")) }

//verif:nhook math/rand.Int63 hookInt63 rand.
func hookInt63() int64 { return int64(val("rand.Int63")) }

//verif:nhook math/rand.Intn hookIntn rand.
func hookIntn(n int) int {
	v := int(val("rand.Intn"))
	if v >= n {
		return 0
	}
	return v
}

//verif:nhook math/rand/v2.Uint32 hookUint32b rand.
func hookUint32b() uint32 { return uint32(val("rand.Uint32")) }

//verif:nhook crypto/rand.Read hookRead rand.
func hookRead(b []byte) (int, error) {
	p := next("rand.Read")
	for i := range b {
		b[i] = byte(vals[fmt.Sprintf("%s[%d]", p, i)])
	}
	return len(b), nil
}

// LastTimer is the duration of the timer made last, 0 if none was made since
// it was last asked for.
func LastTimer() time.Duration {
	mu.Lock()
	defer mu.Unlock()
	d := lastTimer
	lastTimer = 0
	return d
}

// DistinctRand makes the random numbers drawn from now on differ from each
// other.
func DistinctRand(bool) {}

var lastTimer time.Duration

func setTimer(d time.Duration) {
	mu.Lock()
	lastTimer = d
	mu.Unlock()
}

//verif:nhook time.After hookAfter waited#
func hookAfter(d time.Duration) <-chan time.Time {
	setTimer(d)
	return make(chan time.Time)
}

//verif:nhook time.NewTimer hookNewTimer waited#
func hookNewTimer(d time.Duration) *time.Timer {
	setTimer(d)
	t := time.AfterFunc(1000*time.Hour, func() {})
	t.C = make(chan time.Time)
	return t
}
