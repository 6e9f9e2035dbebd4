package main

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// sweep builds once, without the race detector, and explores several
// properties in one lane each until the first violation (a development aid:
// which properties notice a change at all, see sim/mut).
func (c *ctl) sweep(secs string, props []string) int {
	if err := c.b.build(false); err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 2
	}
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	sem := make(chan bool, c.lanes)
	var wg sync.WaitGroup
	var mu sync.Mutex
	rc := 0
	for _, p := range props {
		p := p
		sem <- true
		if ctx.Err() != nil {
			break
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			t0 := time.Now()
			cmd := exec.CommandContext(ctx, c.b.bin(false), "run", p, fmt.Sprint(c.base()), "0", "1", secs, filepath.Join(c.b.work, "sweep"+p), "0")
			cmd.Dir = c.b.work
			cmd.Env = []string{"VSIM_MAPSEED=1", "GOMAXPROCS=2", "PATH=" + os.Getenv("PATH")}
			var so, se strings.Builder
			cmd.Stdout, cmd.Stderr = &so, &se
			done := make(chan error, 1)
			if cmd.Start() != nil {
				return
			}
			go func() { done <- cmd.Wait() }()
			var err error
			select {
			case err = <-done:
			case <-time.After(120 * time.Second):
				cmd.Process.Kill()
				<-done
				err = fmt.Errorf("hang")
			}
			mu.Lock()
			defer mu.Unlock()
			if ctx.Err() != nil {
				return
			}
			msg := ""
			for _, l := range strings.Split(so.String(), "\n") {
				if strings.Contains(l, `"t":"V"`) {
					msg = l
					break
				}
			}
			if msg == "" && err != nil {
				msg = err.Error() + ": " + se.String()
			}
			if msg != "" {
				if i := strings.Index(msg, `"class"`); i >= 0 {
					msg = msg[i:]
				}
				fmt.Printf("HIT %s %.1fs %s\n", p, time.Since(t0).Seconds(), clip(strings.ReplaceAll(msg, "\n", " "), 300))
				rc = 1
				if os.Getenv("VSIM_ALL") == "" {
					stop()
				}
			}
		}()
	}
	wg.Wait()
	return rc
}
