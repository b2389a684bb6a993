// Package h05: the shared random source is never left locked and never exceeds its range.
package h05

import (
	"math/rand"

	"zntr.io/solid/sdk/randomness"
	"zntr.io/solid/zzverif/vs"
)

type src struct{ calls int }

func (s *src) Int63() int64 {
	s.calls++
	if s.calls > 3 {
		vs.Stop()
	}
	return vs.Int64Range("draw", 0, 1<<63-1)
}
func (s *src) Seed(int64) {}

func free(r *randomness.LockedRand, what string) {
	vs.Assert(!vs.Locked(randomness.ZZLock(r)), "left locked after "+what)
}

func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

// Bounded draws respect their range, invalid bounds panic, and the lock is always released.
//
//gosym:bounds every 63-bit draw (at most 3 rejections), all bounds in -2..40 and 2^30, 2^31-1, 2^40, 2^62
//gosym:cover valid,invalid
func CheckBounded() {
	r := randomness.ZZNew(&src{})
	bounds := []int64{-1 << 62, -2, -1, 0, 1, 2, 3, 7, 10, 16, 1 << 30, 1<<31 - 1, 1 << 40, 1 << 62}
	n := bounds[vs.Choose("n", len(bounds))]
	var v int64
	which := vs.Choose("which", 3)
	valid := n > 0
	bad := panics(func() {
		switch which {
		case 0:
			v = int64(r.Intn(int(n)))
		case 1:
			v = r.Int63n(n)
		default:
			vs.Assume(n == int64(int32(n)))
			v = int64(r.Int31n(int32(n)))
		}
	})
	vs.Assert(bad != valid, "bound check differs from n > 0")
	if valid {
		vs.Cover("valid")
		vs.Assert(v >= 0 && v < n, "draw outside the range")
	} else {
		vs.Cover("invalid")
	}
	free(r, "a bounded draw")
	// the next caller still gets through
	r.Int63()
	free(r, "a draw")
}

// Every other method releases the lock and stays in range.
//
//gosym:bounds every 63-bit draw; permutations of up to 3 elements; reads of up to 9 bytes
//gosym:cover int63,uint32,uint64,int31,int,perm,shuffle,read,badshuffle,swappanic,seed
func CheckOthers() {
	s := &src{}
	r := randomness.ZZNew(s)
	what := vs.Choose("which", 11)
	switch what {
	case 0:
		vs.Assert(r.Int63() >= 0, "negative Int63")
		vs.Cover("int63")
	case 1:
		r.Uint32()
		vs.Cover("uint32")
	case 2:
		r.Uint64()
		vs.Cover("uint64")
	case 3:
		vs.Assert(r.Int31() >= 0, "negative Int31")
		vs.Cover("int31")
	case 4:
		vs.Assert(r.Int() >= 0, "negative Int")
		vs.Cover("int")
	case 5:
		p := r.Perm(3)
		vs.Assert(len(p) == 3 && p[0]+p[1]+p[2] == 3 && p[0] != p[1] && p[1] != p[2] && p[0] != p[2], "Perm is not a permutation")
		vs.Assert(panics(func() { r.Perm(-1) }), "Perm of a negative length")
		vs.Cover("perm")
	case 6:
		a := []int{0, 1, 2}
		r.Shuffle(3, func(i, j int) { a[i], a[j] = a[j], a[i] })
		vs.Assert(a[0]+a[1]+a[2] == 3 && a[0] != a[1] && a[1] != a[2] && a[0] != a[2], "Shuffle is not a permutation")
		vs.Cover("shuffle")
	case 7:
		b := make([]byte, vs.Choose("len", 10))
		n, err := r.Read(b)
		vs.Assert(n == len(b) && err == nil, "short read")
		vs.Cover("read")
	case 8:
		vs.Assert(panics(func() { r.Shuffle(-1, func(i, j int) {}) }), "negative Shuffle accepted")
		vs.Cover("badshuffle")
	case 9:
		vs.Assert(panics(func() { r.Shuffle(2, func(i, j int) { panic("swap") }) }), "panic swallowed")
		vs.Cover("swappanic")
	default:
		r.Seed(vs.Int64("seed"))
		vs.Cover("seed")
	}
	free(r, "a draw")
	s.calls = 0
	r.Int63()
	free(r, "the next draw")
}

// The package-level functions work on one shared source and release it, also after bad arguments.
//
//gosym:bounds one bad or good call on the shared source followed by another call
//gosym:cover bad,good
func CheckGlobal() {
	g := randomness.ZZGlobal(&src{})
	n := []int{-1, 0, 1, 5}[vs.Choose("n", 4)]
	which := vs.Choose("which", 9)
	bad := panics(func() {
		switch which {
		case 0:
			randomness.Intn(n)
		case 1:
			randomness.Int63n(int64(n))
		case 2:
			randomness.Int31n(int32(n))
		case 3:
			randomness.Perm(n)
		case 4:
			randomness.Uint32()
		case 5:
			randomness.Uint64()
		case 6:
			vs.Assert(randomness.Int31() >= 0, "negative Int31")
		case 7:
			vs.Assert(randomness.Int() >= 0, "negative Int")
		default:
			randomness.Shuffle(n, func(i, j int) {})
		}
	})
	if bad {
		vs.Cover("bad")
	} else {
		vs.Cover("good")
	}
	free(g, "a package-level call")
	randomness.Int63()
	free(g, "the next package-level call")
}

// Two goroutines drawing at once never touch the source without the lock.
//
//gosym:bounds two goroutines, one draw each, every interleaving at lock operations
//gosym:cover joined
func CheckConcurrent() {
	s := &guarded{}
	r := randomness.ZZNew(s)
	s.r = r
	draw := func(k int) func() {
		return func() {
			switch k {
			case 0:
				r.Int63()
			case 1:
				r.Uint32()
			case 2:
				r.Int31n(4)
			case 3:
				r.Perm(2)
			case 4:
				r.Read(make([]byte, 3))
			case 5:
				r.Shuffle(2, func(i, j int) {})
			case 6:
				r.Uint64()
			case 7:
				r.Seed(4)
			case 8:
				r.Intn(3)
			case 9:
				r.Int63n(5)
			case 10:
				r.Int31()
			default:
				r.Int()
			}
		}
	}
	vs.Go(draw(vs.Choose("a", 12)))
	vs.Go(draw(vs.Choose("b", 12)))
	vs.Join()
	vs.Cover("joined")
	free(r, "concurrent draws")
}

type guarded struct {
	r    *randomness.LockedRand
	busy bool
}

func (g *guarded) Int63() int64 {
	vs.Assert(vs.Locked(randomness.ZZLock(g.r)), "source used without the lock")
	vs.Assert(!g.busy, "two draws at once")
	g.busy = true
	vs.Yield()
	g.busy = false
	return vs.Int64Range("draw", 0, 1<<40)
}
func (g *guarded) Seed(int64) {
	vs.Assert(vs.Locked(randomness.ZZLock(g.r)), "source seeded without the lock")
}

type script struct {
	draws []int64
	at    int
}

func (s *script) Int63() int64 {
	if s.at == len(s.draws) {
		if s.at == 4 {
			vs.Stop()
		}
		s.draws = append(s.draws, vs.Int64Range("draw", 0, 1<<63-1))
	}
	s.at++
	return s.draws[s.at-1]
}
func (s *script) Seed(int64) {}

type drawer interface {
	Intn(int) int
	Int63n(int64) int64
	Int31n(int32) int32
	Int63() int64
	Uint32() uint32
	Uint64() uint64
	Int31() int32
	Int() int
	Perm(int) []int
	Shuffle(int, func(i, j int))
	Read([]byte) (int, error)
}

// global draws from the shared source of the package.
type global struct{}

func (global) Intn(n int) int                  { return randomness.Intn(n) }
func (global) Int63n(n int64) int64            { return randomness.Int63n(n) }
func (global) Int31n(n int32) int32            { return randomness.Int31n(n) }
func (global) Int63() int64                    { return randomness.Int63() }
func (global) Uint32() uint32                  { return randomness.Uint32() }
func (global) Uint64() uint64                  { return randomness.Uint64() }
func (global) Int31() int32                    { return randomness.Int31() }
func (global) Int() int                        { return randomness.Int() }
func (global) Perm(n int) []int                { return randomness.Perm(n) }
func (global) Shuffle(n int, f func(i, j int)) { randomness.Shuffle(n, f) }
func (global) Read([]byte) (n int, err error)  { return 0, nil }

// Every method and function returns what its source yields, so no randomness is lost under the lock.
//
//gosym:bounds every 63-bit draw (at most 4), ranges 1, 2, 3, 10, 16, 2^30 and 2^31-1, permutations of 3, reads of up to 9 bytes; the reference is math/rand over the same draws
//gosym:cover same
func CheckFaithful() {
	s := &script{}
	r := randomness.ZZNew(s)
	ref := rand.New(s)
	n := []int32{1, 2, 3, 10, 16, 1 << 30, 1<<31 - 1}[vs.Choose("n", 7)]
	what := vs.Choose("which", 11)
	vs.Assume(what < 3 || n == 1)
	draw := func(r drawer) []uint64 {
		s.at = 0
		switch what {
		case 0:
			return []uint64{uint64(r.Intn(int(n)))}
		case 1:
			return []uint64{uint64(r.Int63n(int64(n)))}
		case 2:
			return []uint64{uint64(r.Int31n(n))}
		case 3:
			return []uint64{uint64(r.Int63())}
		case 4:
			return []uint64{uint64(r.Uint32())}
		case 5:
			return []uint64{r.Uint64()}
		case 6:
			return []uint64{uint64(r.Int31())}
		case 7:
			return []uint64{uint64(r.Int())}
		case 8:
			p := r.Perm(3)
			return []uint64{uint64(p[0]), uint64(p[1]), uint64(p[2])}
		case 9:
			a := []uint64{0, 1, 2}
			r.Shuffle(3, func(i, j int) { a[i], a[j] = a[j], a[i] })
			return a
		default:
			b := make([]byte, 9)
			k, _ := r.Read(b)
			out := []uint64{uint64(k)}
			for _, c := range b {
				out = append(out, uint64(c))
			}
			return out
		}
	}
	var first drawer = r
	if vs.Choose("global", 2) == 1 {
		vs.Assume(what != 10)
		randomness.ZZGlobal(s)
		first = global{}
	}
	got, want := draw(first), draw(ref)
	vs.Assert(len(got) == len(want), "another number of values than the source yields")
	for i := range got {
		vs.Assert(got[i] == want[i], "another value than the source yields")
	}
	vs.Cover("same")
}
