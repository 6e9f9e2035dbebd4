package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// selftest: the same seeds must give the same executions, whichever process
// runs them, after whatever other seeds, with and without the race detector.
func (c *ctl) selftest(props []string) int {
	if len(props) == 0 {
		for k := range rules {
			props = append(props, k)
		}
		sort.Strings(props)
	}
	bad := 0
	for _, race := range []bool{false, true} {
		if err := c.b.build(race); err != nil {
			fmt.Println(err)
			return 2
		}
	}
	const n = 24
	for _, p := range props {
		all := []map[string]string{}
		run := func(race bool, lanes, per int) {
			m := map[string]string{}
			for lane := 0; lane < lanes; lane++ {
				so, se, rc := c.proc(race, 10*time.Minute, nil, "run", p, "7000", fmt.Sprint(lane), fmt.Sprint(lanes), "600", filepath.Join(c.b.work, "set"), fmt.Sprint(per))
				if rc != 0 {
					fmt.Println(p, "rc", rc, clip(se, 2000))
					bad++
				}
				for _, l := range strings.Split(so, "\n") {
					var x struct {
						T      string `json:"t"`
						Hashes string `json:"hashes"`
					}
					if json.Unmarshal([]byte(l), &x) == nil && x.T == "S" {
						for _, h := range strings.Split(x.Hashes, ",") {
							if k, v, ok := strings.Cut(h, ":"); ok {
								m[k] = v
							}
						}
					}
				}
			}
			all = append(all, m)
		}
		run(false, 1, n)
		run(false, 1, n)
		run(false, 4, n/4)
		run(true, 1, n)
		diff := 0
		for k, v := range all[0] {
			for _, m := range all[1:] {
				if m[k] != v {
					diff++
					fmt.Println(p, "seed", k, v, m[k])
				}
			}
		}
		fmt.Printf("%s: %d seeds x 4 executions, %d differences\n", p, len(all[0]), diff)
		bad += diff
	}
	if bad > 0 {
		return 1
	}
	return 0
}

// hashes runs n seeds in one process and returns what each returned.
func (c *ctl) hashes(prop string, race bool, base uint64, n int, env []string, tag string) (map[string]string, error) {
	so, se, rc := c.proc(race, 10*time.Minute, env, "run", prop, fmt.Sprint(base), "0", "1", "600", filepath.Join(c.b.work, "xset"+tag), fmt.Sprint(n))
	if rc != 0 {
		return nil, fmt.Errorf("worker exit %d: %s", rc, clip(se, 1500))
	}
	m := map[string]string{}
	for _, l := range strings.Split(so, "\n") {
		var x struct {
			T      string `json:"t"`
			Hashes string `json:"hashes"`
		}
		if json.Unmarshal([]byte(l), &x) == nil && x.T == "S" {
			for _, h := range strings.Split(x.Hashes, ",") {
				if k, v, ok := strings.Cut(h, ":"); ok && len(v) > 16 {
					m[k] = v[len(v)-16:]
				}
			}
		}
	}
	return m, nil
}

// crossProcess executes the same seeds in several processes that differ in
// everything a process is free to choose, from package initialisation on, and
// compares the digests of all results.
func (c *ctl) crossProcess(prop string, race bool, sum *summary, base uint64, n, procs int) []candidate {
	type out struct {
		m   map[string]string
		err error
	}
	res := make([]out, procs)
	var wg sync.WaitGroup
	for i := range res {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			res[i].m, res[i].err = c.hashes(prop, race, base, n, []string{fmt.Sprintf("VSIM_MAPSEED=%d", 977*i+i)}, fmt.Sprint(i))
		}()
	}
	wg.Wait()
	compared := 0
	var cands []candidate
	for i := range res {
		if res[i].err != nil {
			sum.trouble = "cross-process comparison: " + res[i].err.Error()
			return nil
		}
		if i == 0 {
			continue
		}
		var seeds []string
		for k := range res[0].m {
			seeds = append(seeds, k)
		}
		sort.Strings(seeds)
		for _, k := range seeds {
			x, ok := res[i].m[k]
			if !ok {
				continue
			}
			compared++
			if x != res[0].m[k] && len(cands) == 0 {
				seed, _ := strconv.ParseUint(k, 10, 64)
				cands = append(cands, candidate{seed: seed, class: "cross-process",
					msg: fmt.Sprintf("the calls of seed %s return something else in a process with other map orders during package initialisation (digest %s in process 0, %s in process %d)", k, res[0].m[k], x, i)})
			}
		}
	}
	if sum.extra == nil {
		sum.extra = map[string]any{}
	}
	sum.extra["cross_process_comparisons"] = compared
	sum.extra["processes_compared"] = procs
	return cands
}
