package response_test

// Search for a concrete failing input, run by govc only after an obligation
// has failed (or as conformance run of the thorough tier). Finding nothing
// proves nothing.

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"testing"
	"time"
)

type verifFail struct{ msg string }

func verifFailf(format string, args ...interface{}) {
	panic(verifFail{fmt.Sprintf(format, args...)})
}

type verifDiscard struct{}

// verifLog is the script of one trial, the failing input if it fails.
type verifLog struct{ lines []string }

func (l *verifLog) add(format string, args ...interface{}) {
	l.lines = append(l.lines, fmt.Sprintf(format, args...))
}

func verifSeed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

func verifReport(t *testing.T, prop, msg string, seed int64, l *verifLog) {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s fails: %s\n(test %s, trial seed %d)\n", prop, msg, t.Name(), seed)
	for _, s := range l.lines {
		sb.WriteString("  " + s + "\n")
	}
	if f := os.Getenv("VERIF_INPUT"); f != "" {
		os.WriteFile(f, []byte(sb.String()), 0o644)
	}
	t.Fatal(sb.String())
}

// verifRun runs random trials of growing size until the budget is used up.
// hang, if set, makes a trial that never returns a failure.
func verifRun(t *testing.T, prop string, hang bool, trial func(r *rand.Rand, size int, l *verifLog)) {
	budget := 20 * time.Second
	if s := os.Getenv("VERIF_SEARCH_SEC"); s != "" {
		n, _ := strconv.Atoi(s)
		budget = time.Duration(n) * time.Second
	}
	stop := time.Now().Add(budget)
	base := verifSeed() * 1000003
	for i := int64(0); time.Now().Before(stop); i++ {
		seed := base + i
		size := 2 + int(i/60)
		if size > 24 {
			size = 2 + int(i%23)
		}
		l := &verifLog{}
		done := make(chan string, 1)
		go func() {
			defer func() {
				switch e := recover().(type) {
				case nil:
					done <- ""
				case verifFail:
					done <- e.msg
				case verifDiscard:
					done <- ""
				default:
					buf := make([]byte, 4000)
					buf = buf[:runtime.Stack(buf, false)]
					fmt.Printf("harness panic: %v\n%s\n", e, buf)
					done <- ""
				}
			}()
			trial(rand.New(rand.NewSource(seed)), size, l)
		}()
		select {
		case msg := <-done:
			if msg != "" {
				verifReport(t, prop, msg, seed, l)
			}
		case <-time.After(20 * time.Second):
			if hang {
				verifReport(t, prop, "an operation does not return (deadlock)", seed, &verifLog{append([]string(nil), l.lines...)})
			}
			return
		}
	}
}

// verifPanics runs f and returns what it panicked with.
func verifPanics(f func()) (v interface{}, ok bool) {
	defer func() {
		if v = recover(); v != nil {
			ok = true
		}
	}()
	f()
	return
}
