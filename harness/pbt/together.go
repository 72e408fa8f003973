package pbt

import (
	"fmt"
	"runtime/debug"
	"sync"
)

// Together runs each operation alone, and then all of them in several goroutines at the same time,
// each starting at another one. What an operation gives must not depend on what else goes on.
func Together(c *C, what string, ops []func() string) {
	c.Helper()
	want := make([]string, len(ops))
	for i, op := range ops {
		NoPanic(c, what, func() { want[i] = op() })
	}
	const workers = 8
	var wg sync.WaitGroup
	start := make(chan bool)
	failed := make(chan string, workers)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					failed <- fmt.Sprintf("panicked: %v\n%s", r, trimStack(string(debug.Stack())))
				}
			}()
			<-start
			for k := 0; k < 3*len(ops); k++ {
				i := (k + w*len(ops)/workers) % len(ops)
				if got := ops[i](); got != want[i] {
					failed <- fmt.Sprintf("operation %d of %d gives\n%s\nand alone\n%s", i, len(ops), got, want[i])
					return
				}
			}
		}(w)
	}
	close(start)
	wg.Wait()
	select {
	case msg := <-failed:
		c.Fatalf("%s in several goroutines: %s", what, msg)
	default:
	}
}
