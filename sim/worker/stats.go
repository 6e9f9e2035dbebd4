package main

import (
	"verif.local/rt"
	"verif.local/rt/vos"
)

// Stats is what a worker process counts over its runs.
type Stats struct {
	Runs     uint64            `json:"runs"`
	Sims     uint64            `json:"sims"`
	Steps    uint64            `json:"steps"`
	Switches uint64            `json:"switches"`
	Preempts uint64            `json:"preempts"`
	Stalls   uint64            `json:"stalls"`
	MaxTasks int               `json:"max_tasks"`
	Nontriv  uint64            `json:"nontrivial"`
	Faults   vos.Stats         `json:"faults"`
	Sched    map[string]uint64 `json:"sched"`
	Variant  map[string]uint64 `json:"variants"`
	Ops      map[string]uint64 `json:"ops"`
	Counts   map[string]uint64 `json:"counts"`
	Inter    map[uint64]bool   `json:"-"` // distinct interleavings (hash of site/task at every switch)
	Cases    map[uint64]bool   `json:"-"` // distinct non-trivial cases
	Samples  []Plan            `json:"samples"`
	Maps     uint64            `json:"map_orders"`

	plan  *Plan
	trace []rt.Switch
	hash  uint64
	steps uint64
	case_ uint64
	non   bool
}

const maxSet = 4 << 20

func newStats() *Stats {
	return &Stats{Sched: map[string]uint64{}, Variant: map[string]uint64{}, Ops: map[string]uint64{}, Counts: map[string]uint64{},
		Inter: map[uint64]bool{}, Cases: map[uint64]bool{}}
}

func (st *Stats) begin(p *Plan) {
	st.plan = p
	st.trace = st.trace[:0]
	st.hash = 0
	st.steps = 0
	st.non = false
	obsHash = 14695981039346656037
}

// run accounts for the main simulated execution of a plan.
func (st *Stats) run(o *rt.Outcome) {
	st.Sims++
	st.trace = append(st.trace[:0], o.Trace...)
	st.hash = st.hash*31 + o.Hash
	st.steps += o.Steps
	st.Steps += o.Steps
	st.Switches += uint64(o.Switches)
	st.Preempts += uint64(o.Preempt)
	st.Stalls += uint64(o.Stalls)
	if o.Tasks > st.MaxTasks {
		st.MaxTasks = o.Tasks
	}
	if o.Preempt > 0 {
		st.non = true
		if len(st.Inter) < maxSet {
			st.Inter[o.Hash] = true
		}
	}
}

// nontrivial marks the present case as one in which something happened that
// the property is about.
func (st *Stats) nontrivial() {
	if st != nil {
		st.non = true
	}
}

func (st *Stats) count(k string) {
	if st != nil {
		st.Counts[k]++
	}
}

func (st *Stats) end(p *Plan) {
	st.Runs++
	st.Sched[p.Sched.Kind]++
	if p.Variant != "" {
		st.Variant[p.Variant]++
	}
	for _, o := range p.Setup {
		st.Ops[o.K]++
	}
	for _, c := range p.Clients {
		for _, o := range c {
			st.Ops[o.K]++
		}
	}
	f := vos.TakeStats()
	st.Faults.Add(f)
	if st.non {
		st.Nontriv++
		if len(st.Cases) < maxSet {
			st.Cases[st.hash^obsHash] = true
		}
		if len(st.Samples) < 2 {
			st.Samples = append(st.Samples, *p)
		}
	}
}

// obsHash digests everything operations returned in the present run.
var obsHash uint64

//go:norace
func observe(s string) {
	h := obsHash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	obsHash = (h ^ 0xff) * 1099511628211
}
