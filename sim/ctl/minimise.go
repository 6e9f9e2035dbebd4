package main

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"
)

type op struct {
	K string          `json:"k"`
	I int             `json:"i,omitempty"`
	S []string        `json:"s,omitempty"`
	F json.RawMessage `json:"f,omitempty"`
	N int             `json:"n,omitempty"`
	B bool            `json:"b,omitempty"`
}

type plan struct {
	Prop     string            `json:"prop"`
	Seed     uint64            `json:"seed"`
	Variant  string            `json:"variant,omitempty"`
	Cfgs     []json.RawMessage `json:"cfgs,omitempty"`
	Files    []map[string]any  `json:"files,omitempty"`
	Setup    []op              `json:"setup,omitempty"`
	Clients  [][]op            `json:"clients,omitempty"`
	Texts    []string          `json:"texts,omitempty"`
	Models   []json.RawMessage `json:"models,omitempty"`
	MapSeed  uint64            `json:"mapseed,omitempty"`
	KeepCase bool              `json:"keepcase,omitempty"`
	Sched    sched             `json:"sched"`
}

type sched struct {
	Kind   string `json:"kind"`
	Seed   uint64 `json:"seed"`
	Gap    int    `json:"gap,omitempty"`
	Depth  int    `json:"depth,omitempty"`
	Est    int    `json:"est,omitempty"`
	Mod    int    `json:"mod,omitempty"`
	Budget uint64 `json:"budget"`
	Trace  []sw   `json:"trace,omitempty"`
}

func (p *plan) clone() *plan {
	b, _ := json.Marshal(p)
	q := &plan{}
	json.Unmarshal(b, q)
	return q
}

// replay is the file a violation is reported with.
type replay struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Seed     uint64   `json:"original_seed"`
	Race     bool     `json:"race_detector"`
	Env      []string `json:"env,omitempty"`
	Plan     *plan    `json:"plan,omitempty"`
	Hash     string   `json:"hash,omitempty"`
	Lane     []string `json:"lane,omitempty"` // when only the whole lane reproduces it
	Notes    []string `json:"notes,omitempty"`
}

const b64Mark = "\x01b64:"

func strDec(s string) string {
	if strings.HasPrefix(s, b64Mark) {
		if d, err := base64.StdEncoding.DecodeString(s[len(b64Mark):]); err == nil {
			return string(d)
		}
	}
	return s
}

func strEnc(s string) string {
	if utf8.ValidString(s) && !strings.HasPrefix(s, b64Mark) {
		return s
	}
	return b64Mark + base64.StdEncoding.EncodeToString([]byte(s))
}

var panicRe = regexp.MustCompile(`panic(?:ked)?: ([^\n]*)`)
var numRe = regexp.MustCompile(`0x[0-9a-f]+|[0-9]+`)

// sig identifies a violation well enough not to wander off to another one.
func sig(class, msg string) string {
	if class == "panic" || class == "crash" {
		if m := panicRe.FindStringSubmatch(msg); m != nil {
			return class + ":" + numRe.ReplaceAllString(clip(m[1], 80), "#")
		}
	}
	return class
}

type shrinker struct {
	c     *ctl
	race  bool
	env   []string
	want  string
	end   time.Time
	n     atomic.Int64
	tries int
	msg   string
}

func readTrace(name string) (sc *sched, tr []sw) {
	b, err := os.ReadFile(name)
	if err != nil || len(b) < 4 {
		return nil, nil
	}
	n := int(binary.LittleEndian.Uint32(b))
	if 4+n > len(b) {
		return nil, nil
	}
	sc = &sched{}
	if json.Unmarshal(b[4:4+n], sc) != nil {
		return nil, nil
	}
	for b = b[4+n:]; len(b) >= 16; b = b[16:] {
		tr = append(tr, sw{binary.LittleEndian.Uint64(b), int(binary.LittleEndian.Uint64(b[8:]))})
	}
	return
}

// try executes p (and, if it has several clients, other schedules for it) in a
// fresh process; it returns the plan that reproduces the violation, with the
// schedule fixed, or nil.
func (s *shrinker) try(p *plan, tries int) (*plan, string) {
	id := s.n.Add(1)
	pf := filepath.Join(s.c.b.work, fmt.Sprintf("p%d.json", id))
	tf := filepath.Join(s.c.b.work, fmt.Sprintf("t%d", id))
	defer os.Remove(pf)
	defer os.Remove(tf)
	b, _ := json.Marshal(p)
	if os.WriteFile(pf, b, 0o644) != nil {
		return nil, ""
	}
	so, se, rc := s.c.proc(s.race, 60*time.Second, s.env, "try", pf, tf, fmt.Sprint(tries), s.want)
	if rc == 0 {
		var r result
		if json.Unmarshal([]byte(so), &r) != nil || r.Viol == nil {
			return nil, ""
		}
		if sig(r.Viol.Class, r.Viol.Msg) != s.want {
			return nil, ""
		}
		q := p.clone()
		sc, _ := readTrace(tf)
		if sc != nil {
			q.Sched = *sc
		}
		fix(q, r.Trace)
		return q, r.Viol.Msg
	}
	class, msg := processEnd(rc, se)
	if sig(class, msg) != s.want {
		return nil, ""
	}
	q := p.clone()
	sc, tr := readTrace(tf)
	if sc != nil {
		q.Sched = *sc
		fix(q, tr)
	}
	return q, msg
}

// fix replaces the plan's schedule by the recorded switches.
func fix(q *plan, tr []sw) {
	if q.Sched.Kind == "seq" || len(tr) == 0 {
		return
	}
	q.Sched.Kind = "replay"
	q.Sched.Trace = tr
	q.Sched.Gap, q.Sched.Mod, q.Sched.Depth, q.Sched.Est = 0, 0, 0, 0
}

// first returns the first of the candidates that still fails.
func (s *shrinker) first(cands []*plan) *plan {
	for len(cands) > 0 && time.Now().Before(s.end) {
		n := s.c.lanes
		if n > len(cands) {
			n = len(cands)
		}
		res := make([]*plan, n)
		msgs := make([]string, n)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				t := s.tries
				busy := 0
				for _, c := range cands[i].Clients {
					if len(c) > 0 {
						busy++
					}
				}
				if busy < 2 {
					t = 1
				}
				res[i], msgs[i] = s.try(cands[i], t)
			}()
		}
		wg.Wait()
		for i, r := range res {
			if r != nil {
				s.msg = msgs[i]
				return r
			}
		}
		cands = cands[n:]
	}
	return nil
}

// chunks yields the ranges a list of n elements is reduced by.
func chunks(n int) [][2]int {
	var out [][2]int
	for sz := n; sz >= 1; sz /= 2 {
		for a := 0; a < n; a += sz {
			b := a + sz
			if b > n {
				b = n
			}
			out = append(out, [2]int{a, b})
		}
		if sz == 1 {
			break
		}
	}
	return out
}

func cut[T any](x []T, a, b int) []T {
	out := append([]T{}, x[:a]...)
	return append(out, x[b:]...)
}

// minimise shrinks the plan while it keeps failing the same way.
func (s *shrinker) minimise(p *plan) *plan {
	for round := 0; round < 4 && time.Now().Before(s.end); round++ {
		before, _ := json.Marshal(p)
		// clients and their operations
		for ci := range p.Clients {
			for again := true; again && time.Now().Before(s.end); {
				again = false
				var cs []*plan
				for _, r := range chunks(len(p.Clients[ci])) {
					q := p.clone()
					q.Clients[ci] = cut(q.Clients[ci], r[0], r[1])
					cs = append(cs, q)
				}
				if q := s.first(cs); q != nil {
					p, again = q, true
				}
			}
		}
		for again := true; again && time.Now().Before(s.end); {
			again = false
			var cs []*plan
			for _, r := range chunks(len(p.Setup)) {
				q := p.clone()
				q.Setup = cut(q.Setup, r[0], r[1])
				cs = append(cs, q)
			}
			if q := s.first(cs); q != nil {
				p, again = q, true
			}
		}
		// file contents and faults
		for fi := range p.Files {
			for again := true; again && time.Now().Before(s.end); {
				again = false
				var cs []*plan
				data, _ := p.Files[fi]["data"].(string)
				lines := strings.SplitAfter(strDec(data), "\n")
				for _, r := range chunks(len(lines)) {
					q := p.clone()
					nd := strings.Join(cut(lines, r[0], r[1]), "")
					q.Files[fi]["data"] = strEnc(nd)
					if nd != strDec(data) {
						cs = append(cs, q)
					}
				}
				for _, k := range []string{"chunks", "eof_with_data", "open_err", "err_kind", "err_times", "err_data", "stall_at", "close_err", "open_times"} {
					if _, ok := p.Files[fi][k]; ok {
						q := p.clone()
						delete(q.Files[fi], k)
						cs = append(cs, q)
					}
				}
				if q := s.first(cs); q != nil {
					p, again = q, true
				}
			}
		}
		// texts and arguments
		for again := true; again && time.Now().Before(s.end); {
			again = false
			var cs []*plan
			each := func(get func(q *plan) *string) {
				t := strDec(*get(p))
				rs := split(t)
				if len(rs) == 0 || len(rs) > 400 {
					return
				}
				for _, r := range chunks(len(rs)) {
					q := p.clone()
					*get(q) = strEnc(strings.Join(cut(rs, r[0], r[1]), ""))
					cs = append(cs, q)
				}
			}
			for i := range p.Clients {
				for k := range p.Clients[i] {
					for j := range p.Clients[i][k].S {
						i, k, j := i, k, j
						each(func(q *plan) *string { return &q.Clients[i][k].S[j] })
					}
				}
			}
			for i := range p.Texts {
				i := i
				each(func(q *plan) *string { return &q.Texts[i] })
			}
			if len(cs) > 160 {
				cs = cs[:160]
			}
			if q := s.first(cs); q != nil {
				p, again = q, true
			}
		}
		after, _ := json.Marshal(p)
		if string(before) == string(after) {
			break
		}
	}
	// the schedule
	if p.Sched.Kind == "replay" {
		s.tries = 1
		for again := true; again && time.Now().Before(s.end); {
			again = false
			var cs []*plan
			for _, r := range chunks(len(p.Sched.Trace)) {
				q := p.clone()
				q.Sched.Trace = cut(q.Sched.Trace, r[0], r[1])
				cs = append(cs, q)
			}
			if len(cs) > 200 {
				cs = cs[:200]
			}
			if q := s.first(cs); q != nil && len(q.Sched.Trace) < len(p.Sched.Trace) {
				p, again = q, true
			}
		}
	}
	return p
}

func split(s string) []string {
	var out []string
	for len(s) > 0 {
		_, n := utf8.DecodeRuneInString(s)
		out = append(out, s[:n])
		s = s[n:]
	}
	return out
}

// report confirms a candidate, minimises it and writes the replay file.
func (c *ctl) report(prop string, race bool, cd *candidate) string {
	limit := 70 * time.Second
	if c.tier == "thorough" {
		limit = 150 * time.Second
	}
	s := &shrinker{c: c, race: race, env: cd.env, want: sig(cd.class, cd.msg), end: time.Now().Add(limit), tries: 12}
	rp := &replay{Property: prop, Class: cd.class, Message: clip(cd.msg, 4000), Seed: cd.seed, Race: race, Env: cd.env}
	so, se, rc := c.proc(race, 60*time.Second, cd.env, "plan", prop, fmt.Sprint(cd.seed))
	p := &plan{}
	if cd.class != "cross-process" && rc == 0 && json.Unmarshal([]byte(so), p) == nil {
		var q *plan
		var msg string
		for i := 0; i < 4 && q == nil; i++ {
			q, msg = s.try(p, 1)
		}
		if q != nil {
			s.msg = msg
			q = s.minimise(q)
			rp.Plan = q
			rp.Message = clip(s.msg, 4000)
			cd.msg = s.msg
			// the file must reproduce it
			ok := 0
			for i := 0; i < 3; i++ {
				if r, _ := s.try(q, 1); r != nil {
					ok++
				}
			}
			rp.Notes = append(rp.Notes, fmt.Sprintf("confirmed in %d of 3 fresh processes", ok))
		}
	} else if rc != 0 {
		rp.Notes = append(rp.Notes, "plan: "+clip(se, 300))
	}
	if rp.Plan == nil {
		rp.Lane = []string{"run", prop, fmt.Sprint(c.base()), fmt.Sprint(cd.lane), fmt.Sprint(c.lanes), "3000", "SET", fmt.Sprint((cd.seed-c.base()-uint64(cd.lane))/uint64(c.lanes) + 1)}
		rp.Notes = append(rp.Notes, "the run alone did not reproduce it; the replay executes the lane up to and including it")
	}
	dir := filepath.Join(c.b.verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", prop, cd.class, cd.seed))
	b, _ := json.MarshalIndent(rp, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

// replayFile runs a replay file against the current tree.
func (c *ctl) replayFile(path string) int {
	b, err := os.ReadFile(path)
	rp := &replay{}
	if err == nil {
		err = json.Unmarshal(b, rp)
	}
	if err != nil {
		fatal("%v", err)
	}
	if err := c.b.build(rp.Race); err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 2
	}
	if rp.Class == "cross-process" {
		cands := c.crossProcess(rp.Property, rp.Race, &summary{}, rp.Seed, 1, 8)
		for _, cd := range cands {
			fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", cd.class, cd.msg, rp.Property, path)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	if rp.Plan == nil {
		a := append([]string(nil), rp.Lane...)
		a[6] = filepath.Join(c.b.work, "set")
		so, se, rc := c.proc(rp.Race, 50*time.Minute, rp.Env, a...)
		if rc != 0 || strings.Contains(so, `"t":"V"`) {
			fmt.Printf("%s\n%s\nVIOLATION property=%s replay=%s\n", clip(so, 2000), clip(se, 3000), rp.Property, path)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	s := &shrinker{c: c, race: rp.Race, env: rp.Env, want: sig(rp.Class, rp.Message)}
	q, msg := s.try(rp.Plan, 1)
	if q == nil {
		fmt.Println("not reproduced")
		return 0
	}
	fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", msg, rp.Property, path)
	return 1
}
