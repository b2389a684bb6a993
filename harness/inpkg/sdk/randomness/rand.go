package randomness

import "math/rand"

// ZZNew wraps a source the harness controls.
func ZZNew(s rand.Source) *LockedRand {
	r := &LockedRand{}
	r.r = rand.New(s)
	return r
}

// ZZLock gives the lock to the harness.
func ZZLock(r *LockedRand) any { return &r.lk }

// ZZGlobal is the shared source, now drawing from s.
func ZZGlobal(s rand.Source) *LockedRand {
	globalRand.r = rand.New(s)
	return globalRand
}
