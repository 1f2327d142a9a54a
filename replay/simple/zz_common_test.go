package simple

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"
)

func vSeed() int64 {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return int64(n) + 1
}

func vRand() *rand.Rand { return rand.New(rand.NewSource(vSeed())) }

func vScale(quick int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return quick * 10
	}
	return quick
}

// vGuard runs f; a panic or a run longer than the limit is a failure, described by desc
func vGuard(t *testing.T, limit time.Duration, desc func() string, f func() error) {
	t.Helper()
	done := make(chan error, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Errorf("panic: %v", r)
			}
		}()
		done <- f()
	}()
	select {
	case err := <-done:
		if err != nil {
			t.Fatalf("COUNTEREXAMPLE %s\n  %v", desc(), err)
		}
	case <-time.After(limit):
		t.Fatalf("COUNTEREXAMPLE %s\n  does not end", desc())
	}
}
