// Package models replaces library functions that the engine does not run from source.
package models

import (
	"errors"
	"io"
)

// Comparable reports whether the dynamic type of err is comparable.
func comparable_(err error) bool { return true }

// randRead is replaced by the engine.
func randRead(b []byte) {}

// Is follows the documented algorithm of errors.Is.
//
//gosym:replace errors.Is
func Is(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	cmp := comparable_(target)
	return is(err, target, cmp)
}

func is(err, target error, cmp bool) bool {
	for {
		if cmp && comparable_(err) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && is(e, target, cmp) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

type wrapErr struct {
	msg string
	err error
}

func (e *wrapErr) Error() string { return e.msg }
func (e *wrapErr) Unwrap() error { return e.err }

type wrapErrs struct {
	msg  string
	errs []error
}

func (e *wrapErrs) Error() string   { return e.msg }
func (e *wrapErrs) Unwrap() []error { return e.errs }

// sprintf is replaced by the engine.
func sprintf(f string, a []any) string { return "" }

// Errorf keeps the wrapped errors of fmt.Errorf.
//
//gosym:replace fmt.Errorf
func Errorf(f string, a ...any) error {
	var wrapped []error
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && (f[i] == '+' || f[i] == '-' || f[i] == '#' || f[i] == ' ' || f[i] >= '0' && f[i] <= '9' || f[i] == '.') {
			i++
		}
		if i >= len(f) || f[i] == '%' {
			continue
		}
		if f[i] == 'w' && n < len(a) {
			if e, ok := a[n].(error); ok {
				wrapped = append(wrapped, e)
			}
		}
		n++
	}
	msg := sprintf(f, a)
	switch len(wrapped) {
	case 0:
		return errors.New(msg)
	case 1:
		return &wrapErr{msg, wrapped[0]}
	}
	return &wrapErrs{msg, wrapped}
}

// Fprintf writes what fmt.Sprintf gives.
//
//gosym:replace fmt.Fprintf
func Fprintf(w io.Writer, f string, a ...any) (int, error) {
	return w.Write([]byte(sprintf(f, a)))
}
