// Package verifrt is what the verification harnesses are written against. The symbolic engine replaces every function
// of this package by its symbolic meaning; the bodies below are used when a harness is built natively, where the inputs
// come from the values the solver chose.
package verifrt

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

var (
	values  = map[string]interface{}{}
	counter = map[string]int{}
	missing int
	failed  int
	obs     []string
)

func key(name string) string {
	k := counter[name]
	counter[name]++
	return fmt.Sprintf("%s#%d", strings.Map(func(r rune) rune {
		if r == ' ' || r == '(' || r == ')' || r == '|' || r == '\\' {
			return '_'
		}
		return r
	}, name), k)
}

func num(name string) uint64 {
	v, ok := values[key(name)]
	if !ok {
		missing++
		return 0
	}
	s, _ := v.(string)
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		i, _ := strconv.ParseInt(s, 10, 64)
		return uint64(i)
	}
	return n
}

// Bool is an arbitrary boolean.
func Bool(name string) bool {
	v, ok := values[key(name)]
	if !ok {
		missing++
		return false
	}
	b, _ := v.(bool)
	return b
}

func U8(name string) uint8   { return uint8(num(name)) }
func U64(name string) uint64 { return num(name) }
func I64(name string) int64  { return int64(num(name)) }

// Int is an arbitrary integer in [lo, hi].
func Int(name string, lo, hi int) int {
	if lo == hi {
		key(name)
		return lo
	}
	return int(num(name))
}

// Choice is an arbitrary integer in [0, n), fixed on each path.
func Choice(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(num(name))
}

// Pick is one of the given strings.
func Pick(name string, items ...string) string {
	if len(items) <= 1 {
		return items[0]
	}
	return items[int(num(name))]
}

// Str is an arbitrary string of lo to hi bytes from the class ("a-z0-9_").
func Str(name string, lo, hi int, class string) string {
	if hi > lo {
		num(name + ".len")
	}
	v, ok := values[key(name)]
	if !ok {
		missing++
		return strings.Repeat(class[:1], lo)
	}
	s, _ := v.(string)
	return s
}

type assumeFailed struct{}

func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}

func Assert(c bool, msg string) {
	if !c {
		Fail(msg)
	}
}

func Fail(msg string) {
	failed++
	fmt.Printf("ASSERT-FAILED %s\n", strconv.Quote(msg))
}

func Reach(label string) {}

func Observe(name string, v interface{}) {
	fmt.Printf("OBS %s\n", strconv.Quote(fmt.Sprintf("%s=%v", name, v)))
}

// Once returns f(); the engine computes it once per key and gives each path its own copy.
func Once(key string, f func() interface{}) interface{} { return f() }

// MapOrder makes the iteration order of maps in the repository's code arbitrary.
func MapOrder(on bool) {}

// Deviations bounds how many entries may be taken before their turn.
func Deviations(n int) {}

// Later lets time pass.
func Later() { time.Sleep(1100 * time.Millisecond) }

// Sched makes the goroutine schedule arbitrary.
func Sched(on bool) {}

// Preempt bounds how often Sched takes a goroutine that could go on off the processor.
func Preempt(n int) {}

// Conc forks until s is a concrete string.
func Conc(s string) string { return s }
func ConcInt(n int) int    { return n }
func IsTrue(b bool) bool   { return b }

// Symbolic reports whether the harness runs in the engine.
func Symbolic() bool { return false }

func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

// InClass reports whether every byte of s is in the class.
func InClass(s, class string) bool {
	for i := 0; i < len(s); i++ {
		ok := false
		for j := 0; j < len(class); j++ {
			if j+2 < len(class) && class[j+1] == '-' {
				ok = ok || class[j] <= s[i] && s[i] <= class[j+2]
				j += 2
				continue
			}
			ok = ok || s[i] == class[j]
		}
		if !ok {
			return false
		}
	}
	return true
}

func Contains(s, sub string) bool { return strings.Contains(s, sub) }

// Protect runs f and returns "" or a description of the panic that ended it.
func Protect(f func()) (res string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(assumeFailed); ok {
				panic(r)
			}
			res = fmt.Sprintf("panic: %v", r)
		}
	}()
	f()
	return ""
}

// Deep reports whether the thorough bounds are asked for.
func Deep() bool { return os.Getenv("VERIF_DEEP") != "" }

// Pause waits a moment, of another length each time, when run natively; the encoding has the schedules instead.
func Pause() { time.Sleep(time.Duration(rand.Intn(60)) * time.Microsecond) }

func Yield()    {}
func Gors() int { return 0 }

// SetFault lets operations of a kind ("mkdir", "create", "write", "close", "rename") fail. Natively strace makes them.
func SetFault(op string) {}

// Faulted reports whether one of them has failed.
func Faulted() bool {
	for k, v := range values {
		if b, _ := v.(bool); b && strings.HasPrefix(k, "fault:") {
			return true
		}
	}
	return false
}

// Scratch is an empty directory to work in.
func Scratch() string {
	wd, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	d := filepath.Join(wd, "scratch")
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
	return d
}

// Enabled reports whether a replay was requested.
func Enabled() bool { return os.Getenv("VERIF_FUNC") != "" }

// Main runs the harness function named by VERIF_FUNC on the values in the file VERIF_VALUES.
func Main(fns map[string]func()) {
	f := fns[os.Getenv("VERIF_FUNC")]
	if f == nil {
		fmt.Println("NO-SUCH-FUNCTION")
		os.Exit(3)
	}
	if p := os.Getenv("VERIF_VALUES"); p != "" {
		b, err := ioutil.ReadFile(p)
		if err != nil {
			fmt.Println("NO-VALUES", err)
			os.Exit(3)
		}
		if err := json.Unmarshal(b, &values); err != nil {
			fmt.Println("BAD-VALUES", err)
			os.Exit(3)
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(assumeFailed); ok {
					fmt.Println("ASSUME-FAILED")
					return
				}
				fmt.Printf("PANIC %s\n", strconv.Quote(fmt.Sprint(r)))
			}
		}()
		f()
	}()
	fmt.Printf("DONE failed=%d missing=%d\n", failed, missing)
	os.Exit(0)
}
