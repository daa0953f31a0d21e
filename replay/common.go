package PKG

// Driver of the executable contracts. Copied into the package under test by an overlay.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"sync/atomic"
	"testing"
	"time"
)

type vT struct {
	*rand.Rand
	N    int    // case number
	What string // description of the current case
	tick int64
}

type vStop struct{ msg string }

type vSkip struct{}

// fail reports a violated contract with the input that violates it.
func (v *vT) fail(format string, args ...interface{}) {
	panic(vStop{fmt.Sprintf(format, args...)})
}

func (v *vT) check(ok bool, format string, args ...interface{}) {
	if !ok {
		v.fail(format, args...)
	}
}

func (v *vT) chance(n int) bool { return v.Intn(n) == 0 }

func vEnv(name string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return n
	}
	return def
}

// vHints returns the undischarged obligations (with the solver's values) of this run.
func vHints() (h struct{ Fails, Models []string }) {
	b, err := os.ReadFile(os.Getenv("VERIF_HINTS"))
	if err == nil {
		json.Unmarshal(b, &h)
	}
	return
}

// vrun runs one case after another until the time is used up. A case that panics or takes 30 s violates.
func vrun(t *testing.T, min int, f func(v *vT)) {
	seed := int64(vEnv("VERIF_SEED", 1))
	secs := vEnv("VERIF_SECS", 5)
	end := time.Now().Add(time.Duration(secs) * time.Second)
	v := &vT{}
	done := make(chan bool)
	go func() {
		for last, since := int64(-1), time.Now(); ; {
			select {
			case <-done:
				return
			case <-time.After(time.Second):
			}
			if n := atomic.LoadInt64(&v.tick); n != last {
				last, since = n, time.Now()
			} else if time.Since(since) > 60*time.Second {
				fmt.Printf("VERIF-FAIL case %d (seed %d) does not terminate: %s\n", v.N, seed, v.What)
				os.Exit(1)
			}
		}
	}()
	for v.N = 0; v.N < min || time.Now().Before(end); v.N++ {
		if time.Now().After(end.Add(time.Duration(secs) * time.Second)) {
			break
		}
		v.Rand = rand.New(rand.NewSource(seed*1000003 + int64(v.N)))
		v.What = ""
		if msg, stack := vcase(v, f); msg != "" {
			fmt.Printf("VERIF-FAIL case %d (seed %d): %s\n", v.N, seed, msg)
			if v.What != "" {
				fmt.Printf("  case: %s\n", v.What)
			}
			fmt.Printf("%s\n", stack)
			os.Exit(1) // deferred clean-up may hang once the property is broken
		}
		atomic.AddInt64(&v.tick, 1)
	}
	close(done)
	fmt.Printf("VERIF-CASES %d\n", v.N)
}

func vcase(v *vT, f func(v *vT)) (msg, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(vStop); ok {
				msg = s.msg
			} else if _, ok := r.(vSkip); ok {
				// The case did not come about.
			} else {
				msg = fmt.Sprintf("panic: %v", r)
				stack = string(debug.Stack())
			}
		}
	}()
	f(v)
	return
}
