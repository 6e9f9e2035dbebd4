// The worker is the instrumented code under test plus the scenarios: it draws
// plans from seeds, executes them under the simulator and judges them.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"time"

	"github.com/go-ego/gse"

	"verif.local/rt"
)

// Scenario is how one property is decided.
type Scenario struct {
	gen func(r *Rng, p *Plan)
	run func(p *Plan, st *Stats) *Violation
}

var scenarios = map[string]Scenario{}

func genPlan(prop string, seed uint64) *Plan {
	p := &Plan{Prop: prop, Seed: seed}
	r := &Rng{s: seed*0x9e3779b97f4a7c15 + 0x1234}
	for _, c := range prop {
		r.s = r.s*31 + uint64(c)
	}
	r.u()
	p.MapSeed = r.u()
	gse.ToLower = true
	scenarios[prop].gen(r, p)
	return p
}

// execute runs one plan.
func execute(p *Plan, st *Stats) *Violation {
	st.begin(p)
	v := scenarios[p.Prop].run(p, st)
	st.end(p)
	return v
}

// Result is what a run reports.
type Result struct {
	Seed  uint64      `json:"seed"`
	Viol  *Violation  `json:"viol"`
	Trace []rt.Switch `json:"trace,omitempty"`
	Steps uint64      `json:"steps"`
	Hash  string      `json:"hash"`
}

func result(p *Plan, st *Stats, v *Violation) Result {
	return Result{p.Seed, v, append([]rt.Switch(nil), st.trace...), st.steps, fmt.Sprintf("%016x%016x", st.hash, obsHash)}
}

func emit(x any) {
	b, err := json.Marshal(x)
	if err != nil {
		fmt.Fprintln(os.Stderr, "worker: ", err)
		os.Exit(70)
	}
	b = append(b, '\n')
	os.Stdout.Write(b)
}

func num(s string) uint64 {
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		fmt.Fprintln(os.Stderr, "worker: bad number", s)
		os.Exit(70)
	}
	return v
}

func keysOf(m map[uint64]bool) []uint64 {
	k := make([]uint64, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	sort.Slice(k, func(i, j int) bool { return k[i] < k[j] })
	return k
}

func writeSet(name string, m map[uint64]bool) {
	f, err := os.Create(name)
	if err != nil {
		return
	}
	w := bufio.NewWriter(f)
	for _, k := range keysOf(m) {
		binary.Write(w, binary.LittleEndian, k)
	}
	w.Flush()
	f.Close()
}

func readPlan(name string) *Plan {
	b, err := os.ReadFile(name)
	p := &Plan{}
	if err == nil {
		err = json.Unmarshal(b, p)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "worker: plan:", err)
		os.Exit(70)
	}
	return p
}

func main() {
	log.SetOutput(io.Discard)
	flag.CommandLine = flag.NewFlagSet("x", flag.ContinueOnError)
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	a := os.Args[1:]
	if len(a) < 2 {
		fmt.Fprintln(os.Stderr, "usage: worker run|one|plan|replay ...")
		os.Exit(70)
	}
	os.Args = os.Args[:1]
	switch a[0] {
	case "run": // prop base lane lanes secs setprefix maxruns
		prop := a[1]
		base, lane, lanes := num(a[2]), num(a[3]), num(a[4])
		secs, _ := strconv.ParseFloat(a[5], 64)
		max := num(a[7])
		end := time.Now().Add(time.Duration(secs * float64(time.Second)))
		st := newStats()
		prog, _ := os.OpenFile(a[6]+".seed", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
		var buf [8]byte
		nv := 0
		hashes := ""
		use := 0.1
		for seed := base + lane; time.Now().Before(end) && (max == 0 || st.Runs < max); seed += lanes {
			binary.LittleEndian.PutUint64(buf[:], seed)
			prog.WriteAt(buf[:], 0)
			p := genPlan(prop, seed)
			t0 := time.Now()
			v := execute(p, st)
			if d := time.Since(t0); dbg && d > 3*time.Second {
				fmt.Fprintln(os.Stderr, "SLOW", prop, seed, d)
			}
			if dbg && rt.MaxUse > use+0.01 {
				use = rt.MaxUse
				fmt.Fprintln(os.Stderr, "USE", prop, seed, use)
			}
			if max > 0 {
				hashes += fmt.Sprintf("%d:%016x%016x,", seed, st.hash, obsHash)
			}
			if v != nil {
				emit(map[string]any{"t": "V", "r": result(p, st, v)})
				nv++
				if nv >= 3 {
					break
				}
			}
		}
		st.Maps = rt.MapRanges
		writeSet(a[6]+".inter", st.Inter)
		writeSet(a[6]+".cases", st.Cases)
		sites := map[string]uint32{}
		for i, h := range rt.SiteHits {
			if h > 0 {
				sites[strconv.Itoa(i)] = h
			}
		}
		emit(map[string]any{"t": "S", "s": st, "sites": sites, "hashes": hashes})
	case "plan": // prop seed
		emit(genPlan(a[1], num(a[2])))
	case "one", "replay": // one prop seed tracefile | replay planfile tracefile
		var p *Plan
		tf := ""
		if a[0] == "one" {
			p = genPlan(a[1], num(a[2]))
			if len(a) > 3 {
				tf = a[3]
			}
		} else {
			p = readPlan(a[1])
			if len(a) > 2 {
				tf = a[2]
			}
		}
		if tf != "" {
			f, err := os.Create(tf)
			if err == nil {
				traceTo(f)
			}
		}
		st := newStats()
		v := execute(p, st)
		emit(result(p, st, v))
	case "try": // planfile tracefile tries
		p := readPlan(a[1])
		orig := p.Sched
		f, err := os.Create(a[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, "worker:", err)
			os.Exit(70)
		}
		for i := uint64(0); i < num(a[3]); i++ {
			p.Sched = orig
			if i > 0 {
				p.Sched = newSched(&Rng{s: p.Seed ^ i<<40}, orig.Budget)
			}
			f.Truncate(0)
			f.Seek(0, 0)
			sc := p.Sched
			sc.Trace = nil
			b, _ := json.Marshal(sc)
			var h [4]byte
			binary.LittleEndian.PutUint32(h[:], uint32(len(b)))
			f.Write(append(h[:], b...))
			traceTo(f)
			st := newStats()
			v := execute(p, st)
			if v != nil {
				emit(result(p, st, v))
				return
			}
		}
		emit(Result{})
	default:
		os.Exit(70)
	}
}

// traceTo keeps the schedule of a run that may end the process.
func traceTo(f *os.File) {
	rt.TraceHook = func(s rt.Switch) {
		var buf [16]byte // not shared: tasks are ordered by the scheduler only
		binary.LittleEndian.PutUint64(buf[:], s.At)
		binary.LittleEndian.PutUint64(buf[8:], uint64(s.To))
		f.Write(buf[:])
	}
}
