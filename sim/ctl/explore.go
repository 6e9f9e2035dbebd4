package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"
)

type violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
	Key   string `json:"key,omitempty"`
}

type sw struct {
	At uint64 `json:"at"`
	To int    `json:"to"`
}

type result struct {
	Seed  uint64         `json:"seed"`
	Viol  *violation     `json:"viol"`
	Trace []sw           `json:"trace,omitempty"`
	Steps uint64         `json:"steps"`
	Hash  string         `json:"hash"`
	Sched map[string]any `json:"sched,omitempty"`
}

// candidate is a violation some lane reported.
type candidate struct {
	seed       uint64
	class, msg string
	key        string
	lane       int
	env        []string
}

type stats struct {
	Runs     uint64            `json:"runs"`
	Sims     uint64            `json:"sims"`
	Steps    uint64            `json:"steps"`
	Switches uint64            `json:"switches"`
	Preempts uint64            `json:"preempts"`
	Stalls   uint64            `json:"stalls"`
	MaxTasks int               `json:"max_tasks"`
	Nontriv  uint64            `json:"nontrivial"`
	Faults   map[string]uint64 `json:"faults"`
	Sched    map[string]uint64 `json:"sched"`
	Variant  map[string]uint64 `json:"variants"`
	Ops      map[string]uint64 `json:"ops"`
	Counts   map[string]uint64 `json:"counts"`
	Samples  []json.RawMessage `json:"samples"`
	Maps     uint64            `json:"map_orders"`
}

type summary struct {
	stats
	inter, cases int
	sites        map[int]uint64
	trouble      string
	extra        map[string]any
}

func addMap(dst *map[string]uint64, src map[string]uint64) {
	if *dst == nil {
		*dst = map[string]uint64{}
	}
	for k, v := range src {
		(*dst)[k] += v
	}
}

func (s *summary) add(x *stats) {
	s.Runs += x.Runs
	s.Sims += x.Sims
	s.Steps += x.Steps
	s.Switches += x.Switches
	s.Preempts += x.Preempts
	s.Stalls += x.Stalls
	if x.MaxTasks > s.MaxTasks {
		s.MaxTasks = x.MaxTasks
	}
	s.Nontriv += x.Nontriv
	s.Maps += x.Maps
	addMap(&s.Faults, x.Faults)
	addMap(&s.Sched, x.Sched)
	addMap(&s.Variant, x.Variant)
	addMap(&s.Ops, x.Ops)
	addMap(&s.Counts, x.Counts)
	s.Samples = append(s.Samples, x.Samples...)
}

// proc runs the worker; it returns stdout, stderr and the exit code (-1: killed
// by the time limit).
func (c *ctl) proc(race bool, limit time.Duration, env []string, args ...string) (string, string, int) {
	cmd := exec.Command(c.b.bin(race), args...)
	cmd.Dir = c.b.work
	cmd.Env = append([]string{"GORACE=halt_on_error=1 exitcode=66 history_size=4", "PATH=" + os.Getenv("PATH"), "GOTRACEBACK=all"}, env...)
	var so, se strings.Builder
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		return "", err.Error(), 70
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
		return so.String(), se.String(), cmd.ProcessState.ExitCode()
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return so.String(), se.String(), -1
	}
}

var gseFrame = regexp.MustCompile(`github\.com/(go-ego/gse|vcaesar/cedar)`)

// processEnd judges how a worker process ended.
func processEnd(rc int, stderr string) (class, msg string) {
	switch {
	case rc == 0:
		return "", ""
	case strings.Contains(stderr, "WARNING: DATA RACE"):
		i := strings.Index(stderr, "WARNING: DATA RACE")
		m := stderr[i:]
		if j := strings.Index(m, "\nGoroutine "); j > 0 && !gseFrame.MatchString(m[:j]) {
			// neither access was made by the code under test
			return "trouble", clip(m, 2500)
		}
		return "race", clip(m, 2500)
	case strings.Contains(stderr, "fatal error:"):
		i := strings.Index(stderr, "fatal error:")
		m := stderr[i:]
		if strings.Contains(clip(m, 200), "out of memory") && !gseFrame.MatchString(m) {
			return "trouble", clip(m, 2500)
		}
		return "crash", clip(m, 2500)
	case rc == -1:
		return "hang", "the run did not end"
	case strings.Contains(stderr, "panic:"):
		i := strings.Index(stderr, "panic:")
		m := stderr[i:]
		if strings.Contains(m, "harness:") || strings.Contains(clip(m, 300), "rt: ") || !gseFrame.MatchString(clip(m, 1500)) {
			return "trouble", clip(m, 2500)
		}
		return "crash", clip(m, 2500)
	}
	return "trouble", fmt.Sprintf("worker exit %d: %s", rc, clip(stderr, 1500))
}

func readSet(name string, into map[uint64]bool) {
	f, err := os.Open(name)
	if err != nil {
		return
	}
	defer f.Close()
	r := bufio.NewReader(f)
	var b [8]byte
	for {
		if _, err := r.Read(b[:1]); err != nil {
			return
		}
		for i := 1; i < 8; i++ {
			x, err := r.ReadByte()
			if err != nil {
				return
			}
			b[i] = x
		}
		into[binary.LittleEndian.Uint64(b[:])] = true
	}
}

func (c *ctl) base() uint64 { return c.seed << 32 }

// explore runs all lanes and collects what they found.
func (c *ctl) explore(prop string, race bool, secs float64) (*summary, []candidate) {
	sum := &summary{sites: map[int]uint64{}}
	inter, cases := map[uint64]bool{}, map[uint64]bool{}
	var cands []candidate
	var mu sync.Mutex
	var wg sync.WaitGroup
	for lane := 0; lane < c.lanes; lane++ {
		lane := lane
		wg.Add(1)
		go func() {
			defer wg.Done()
			set := filepath.Join(c.b.work, fmt.Sprintf("set%d", lane))
			env := []string{fmt.Sprintf("VSIM_MAPSEED=%d", c.base()+uint64(lane))}
			so, se, rc := c.proc(race, time.Duration(secs*float64(time.Second))+90*time.Second, env, "run", prop, fmt.Sprint(c.base()), fmt.Sprint(lane), fmt.Sprint(c.lanes), fmt.Sprint(secs), set, "0")
			mu.Lock()
			defer mu.Unlock()
			for _, l := range strings.Split(so, "\n") {
				if l == "" {
					continue
				}
				var m struct {
					T     string            `json:"t"`
					R     *result           `json:"r"`
					S     *stats            `json:"s"`
					Sites map[string]uint64 `json:"sites"`
				}
				if err := json.Unmarshal([]byte(l), &m); err != nil {
					sum.trouble = "worker output: " + err.Error()
					continue
				}
				switch m.T {
				case "V":
					cands = append(cands, candidate{seed: m.R.Seed, class: m.R.Viol.Class, msg: m.R.Viol.Msg, key: m.R.Viol.Key, lane: lane, env: env})
				case "S":
					sum.add(m.S)
					for k, v := range m.Sites {
						id, _ := strconv.Atoi(k)
						sum.sites[id] += v
					}
				}
			}
			readSet(set+".inter", inter)
			readSet(set+".cases", cases)
			if rc != 0 {
				class, msg := processEnd(rc, se)
				var b [8]byte
				if f, err := os.ReadFile(set + ".seed"); err == nil && len(f) >= 8 {
					copy(b[:], f)
				}
				seed := binary.LittleEndian.Uint64(b[:])
				if class == "trouble" {
					sum.trouble = fmt.Sprintf("seed %d: %s", seed, msg)
					return
				}
				cands = append(cands, candidate{seed: seed, class: class, msg: msg, lane: lane, env: env})
			}
		}()
	}
	wg.Wait()
	sum.inter, sum.cases = len(inter), len(cases)
	return sum, cands
}

func (c *ctl) seeds(prop, base, n string) int {
	race := raceProps[prop]
	if err := c.b.build(race); err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 2
	}
	so, se, rc := c.proc(race, 10*time.Minute, nil, "run", prop, base, "0", "1", "600", filepath.Join(c.b.work, "set"), n)
	fmt.Println(so, se, rc)
	return 0
}
