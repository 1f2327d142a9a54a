package grate

import (
	"errors"
	"fmt"
	"sort"
	"testing"
	"time"
)

type vSource struct{ id int }

func (s *vSource) List() ([]string, error)             { return nil, nil }
func (s *vSource) Get(name string) (Collection, error) { return nil, nil }
func (s *vSource) Close() error                        { return nil }

type vErr struct{ id int }

func (e *vErr) Error() string { return fmt.Sprint("error ", e.id) }

// registrations of readers with given outcomes, and nested wrapped errors
func TestVerifC23(t *testing.T) {
	rng := vRand()
	n := 0
	saved := srcTable
	defer func() { srcTable = saved }()
	for iter := 0; iter < vScale(20000); iter++ {
		type reader struct {
			pri, outcome int
		}
		var rs []reader
		for i := 0; i < rng.Intn(7); i++ {
			rs = append(rs, reader{rng.Intn(9) - 2, rng.Intn(8)})
		}
		n++
		desc := func() string {
			return fmt.Sprintf("readers {priority outcome} registered in the order %v (outcome 0 accepts, 1 fails, 2.. not in format)", rs)
		}
		vGuard(t, 5*time.Second, desc, func() error {
			srcTable = nil
			var calls []int
			srcs := make([]*vSource, len(rs))
			errs := make([]error, len(rs))
			for i, r := range rs {
				i, r := i, r
				srcs[i] = &vSource{i}
				switch r.outcome {
				case 0:
				case 1:
					errs[i] = &vErr{i}
					if i%2 == 0 {
						errs[i] = WrapErr(&vErr{i}, errors.New("reason"))
					}
				case 2:
					errs[i] = WrapErr(&vErr{i}, ErrNotInFormat)
				case 3:
					errs[i] = WrapErr(&vErr{i}, fmt.Errorf("wrapped %w", ErrNotInFormat))
				case 4:
					errs[i] = WrapErr(errors.New("a"), errors.New("b"), ErrNotInFormat)
				case 5:
					errs[i] = fmt.Errorf("inner: %w", WrapErr(ErrNotInFormat, &vErr{i}))
				default:
					errs[i] = ErrNotInFormat
				}
				Register(fmt.Sprint("r", i), r.pri, func(fn string) (Source, error) {
					calls = append(calls, i)
					if fn != "file" {
						return nil, errors.New("wrong file name")
					}
					if r.outcome == 5 {
						return srcs[i], errs[i]
					}
					if errs[i] != nil {
						return nil, errs[i]
					}
					return srcs[i], nil
				})
			}
			src, err := Open("file")
			if !sort.SliceIsSorted(calls, func(a, b int) bool { return rs[calls[a]].pri < rs[calls[b]].pri }) {
				return fmt.Errorf("readers tried in the order %v", calls)
			}
			seen := map[int]bool{}
			stop := -1
			for k, c := range calls {
				if seen[c] {
					return fmt.Errorf("reader %d tried twice", c)
				}
				seen[c] = true
				if rs[c].outcome < 2 {
					if k != len(calls)-1 {
						return fmt.Errorf("readers tried after the outcome of reader %d: %v", c, calls)
					}
					stop = c
				}
			}
			if stop < 0 {
				for i, r := range rs {
					if r.outcome < 2 || !seen[i] {
						return fmt.Errorf("reader %d was not tried", i)
					}
				}
				if src != nil || err != ErrUnknownFormat {
					return fmt.Errorf("no reader accepts the file, Open returned %v, %v", src, err)
				}
				return nil
			}
			for i, r := range rs {
				if r.pri < rs[stop].pri && !seen[i] {
					return fmt.Errorf("reader %d has priority over reader %d and was not tried", i, stop)
				}
			}
			if errs[stop] == nil && (err != nil || src != Source(srcs[stop])) {
				return fmt.Errorf("reader %d accepts the file, Open returned %v, %v", stop, src, err)
			}
			if errs[stop] != nil && (fmt.Sprintf("%p", err) != fmt.Sprintf("%p", errs[stop]) || err == nil || err.Error() != errs[stop].Error() || src != nil) {
				return fmt.Errorf("reader %d fails with %v, Open returned %v, %v", stop, errs[stop], src, err)
			}
			return nil
		})
	}
	for iter := 0; iter < vScale(5000); iter++ {
		var leaves []error
		var build func(d int) error
		build = func(d int) error {
			if d == 0 || rng.Intn(3) == 0 {
				e := error(&vErr{len(leaves)})
				leaves = append(leaves, e)
				return e
			}
			if rng.Intn(4) == 0 {
				return fmt.Errorf("with text: %w", build(d-1))
			}
			var es []error
			for i := 0; i < 1+rng.Intn(4); i++ {
				es = append(es, build(d-1))
			}
			return WrapErr(es...)
		}
		e := build(3)
		n++
		desc := func() string { return fmt.Sprintf("wrapped error %#v", e) }
		vGuard(t, 5*time.Second, desc, func() error {
			for i, l := range leaves {
				if !errors.Is(e, l) {
					return fmt.Errorf("does not match the wrapped error %d (%v)", i, l)
				}
			}
			if errors.Is(e, &vErr{-1}) || errors.Is(e, ErrNotInFormat) {
				return fmt.Errorf("matches an error that is not in it")
			}
			var x *vErr
			if !errors.As(e, &x) || x != leaves[0] {
				return fmt.Errorf("does not give the first wrapped error")
			}
			if e.Error() == "" {
				return fmt.Errorf("has no text")
			}
			return nil
		})
	}
	fmt.Println("VERIF-EVALS", n)
}
