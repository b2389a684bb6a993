//go:build !gosym

package vs

import (
	crand "crypto/rand"
	"io"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/dchest/uniuri"
	"google.golang.org/protobuf/proto"
)

// InstallHooks redirects the clock and the random sources of the replayed program.
func InstallHooks() {
	time.ZZNow = clock
	if !Free {
		sync.ZZHook = schedPoint
	}
	uniuri.ZZHook = func(n int, chars []byte) (string, bool) {
		if n == 0 {
			return "", true
		}
		v, ok := next("uniuri")
		if !ok {
			return "", false
		}
		return string(v.Str), true
	}
	crand.Reader = &reader{crand.Reader}
}

type reader struct{ real io.Reader }

// Read serves the repository's own reads from the assignment.
func (r *reader) Read(b []byte) (int, error) {
	var pcs [16]uintptr
	n := runtime.Callers(2, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		switch {
		case strings.HasPrefix(f.Function, "io.") || strings.HasPrefix(f.Function, "crypto/rand.") || strings.HasPrefix(f.Function, "bufio."):
			if more {
				continue
			}
		case strings.HasPrefix(f.Function, "zntr.io/solid/"):
			if v, ok := next("rand"); ok {
				return copy(b, v.Str), nil
			}
		}
		return r.real.Read(b)
	}
}

func same(a, b any) bool {
	x, ok1 := a.(proto.Message)
	y, ok2 := b.(proto.Message)
	if ok1 && ok2 {
		return proto.Equal(x, y)
	}
	return reflectSame(a, b)
}

func snapshot(a any) any {
	if m, ok := a.(proto.Message); ok {
		return proto.Clone(m)
	}
	return a
}

// schedPoint lets another thread run before synchronisation done by the code under test, and
// waits without blocking when the lock is taken.
func schedPoint(try func() bool, release func()) {
	if cur == nil {
		return
	}
	var pcs [3]uintptr
	n := runtime.Callers(3, pcs[:])
	fr, _ := runtime.CallersFrames(pcs[:n]).Next()
	f := fr.Function
	if !strings.HasPrefix(f, "zntr.io/solid") && !strings.HasPrefix(f, "github.com/patrickmn/go-cache.") || strings.HasPrefix(f, "zntr.io/solid/zzverif/vs") {
		return
	}
	Yield()
	if try == nil {
		return
	}
	t := cur
	for !try() {
		t.waiting = func() bool {
			if try() {
				release()
				return false
			}
			return true
		}
		Yield()
		t.waiting = nil
	}
	release()
}
