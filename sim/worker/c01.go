package main

import (
	"flag"
	"fmt"
	"io"

	"github.com/go-ego/gse"

	"verif.local/rt"
	"verif.local/rt/vos"
)

// Violation is what a run found.
type Violation struct {
	Key   string `json:"key,omitempty"`
	Class string `json:"class"` // what kind of failure, kept through minimisation
	Msg   string `json:"msg"`
}

func viol(class, f string, a ...any) *Violation {
	return &Violation{Class: class, Msg: fmt.Sprintf(f, a...)}
}

// freshProcess gives the package state a new process has.
func freshProcess(p *Plan) {
	rt.SetMapOrder(p.MapSeed)
	flag.CommandLine = flag.NewFlagSet("x", flag.ContinueOnError)
	flag.CommandLine.SetOutput(io.Discard)
	rt.ResetAll()
	gse.ToLower = !p.KeepCase
	vos.Install(p.Files)
}

// outcomeViol turns what the scheduler saw into a violation.
func outcomeViol(o *rt.Outcome, what string) *Violation {
	if o.OverBudget {
		return viol("nontermination", "%s did not end within %d steps", what, o.Steps)
	}
	if o.Deadlock {
		return viol("deadlock", "%s: no task can run; blocked at sites %v", what, o.BlockedAt)
	}
	for i := 0; i < o.Tasks; i++ {
		if o.Panics[i] != nil {
			return viol("panic", "%s: task %d panicked: %v\n%s", what, i, o.Panics[i], o.Stacks[i])
		}
	}
	return nil
}

const defBudget = 20000000

// ---------------------------------------------------------------- C01, C02

func init() {
	scenarios["C01"] = Scenario{genC01, runShared}
	scenarios["C02"] = Scenario{genC02, runShared}
}

func genC01(r *Rng, p *Plan) {
	t := newTheme(r, false)
	c := genCfg(r, true)
	c.DefHMM = r.p(60)
	p.Cfgs = []Cfg{c}
	es := t.entries(r, r.between(1, 18), c.LoadNoFreq, true)
	words := wordsOf(es)
	f := vos.FileSpec{Name: "/d/a.txt", Data: Str(render(es, string(c.Sep), "\n", true))}
	p.Files = append(p.Files, f)
	p.Setup = append(p.Setup, Op{K: "loaddict", S: []Str{"/d/a.txt"}})
	if r.p(2) {
		var l []Str
		for i := 0; i < r.between(1, 4); i++ {
			l = append(l, Str(pickS(r, t.word(r), " ", "，", words[r.n(len(words))])))
		}
		p.Setup = append(p.Setup, Op{K: "loadstoparr", S: l})
	}
	for i := r.n(4); i > 0; i-- {
		p.Setup = append(p.Setup, genEdit(r, t, &words, true))
	}
	if r.p(2) {
		p.Setup = append(p.Setup, Op{K: "calc"})
	}
	if !c.DefHMM {
		p.Models = []Model{newModel(r)}
		p.Setup = append(p.Setup, Op{K: "loadmodel", N: 0})
	}
	nc := r.between(2, 4)
	for i := 0; i < nc; i++ {
		var ops []Op
		for k := r.between(1, 5); k > 0; k-- {
			ops = append(ops, genQuery(r, t, words, true))
		}
		p.Clients = append(p.Clients, ops)
	}
	// clients often work on the very same text
	if r.p(3) {
		p.Clients[1] = append([]Op(nil), p.Clients[0]...)
	}
	p.Sched = newSched(r, defBudget)
	if r.p(25) {
		c := r.n(len(p.Clients))
		p.Clients[c] = append([]Op{spin(r, genQuery(r, t, words, true))}, p.Clients[c]...)
		p.Sched.Budget = 20 * defBudget
	}
}

// genEdit draws a dictionary edit.
func genEdit(r *Rng, t *theme, words *[]string, force bool) Op {
	w := t.word(r)
	if len(*words) > 0 && r.p(2) {
		w = (*words)[r.n(len(*words))]
	}
	f := pickS(r, 2.0, 3, 10, 100, 5000, 7.5, 123456)
	pp := Str(posPool[r.n(len(posPool))])
	switch r.n(5) {
	case 0, 1:
		*words = append(*words, w)
		return Op{K: "add", S: []Str{Str(w), pp}, F: f}
	case 2:
		if force {
			*words = append(*words, w)
			return Op{K: "addforce", S: []Str{Str(w), pp}, F: f}
		}
		fallthrough
	case 3:
		return Op{K: "readd", S: []Str{Str(w), pp}, F: f}
	default:
		return Op{K: "remove", S: []Str{Str(w)}}
	}
}

func genC02(r *Rng, p *Plan) {
	t := newTheme(r, false)
	c := Cfg{}
	p.Cfgs = []Cfg{c}
	es := t.entries(r, r.between(1, 14), false, false)
	words := wordsOf(es)
	ies := t.entries(r, r.between(1, 8), false, false)
	for i := range ies {
		if r.p(2) {
			ies[i].W = words[r.n(len(words))]
		}
	}
	p.Files = append(p.Files,
		vos.FileSpec{Name: "/d/a.txt", Data: Str(render(es, "", "\n", true))},
		vos.FileSpec{Name: "/d/idf.txt", Data: Str(render(ies, "", "\n", true))},
		vos.FileSpec{Name: "/d/stop.txt", Data: Str(words[0] + "\n" + t.word(r) + "\n")})
	p.Models = []Model{newModel(r)}
	a := []Str{"/d/a.txt"}
	p.Setup = append(p.Setup, Op{K: "loaddict", S: a})
	if r.p(2) {
		p.Setup = append(p.Setup, Op{K: "tagwith"}, Op{K: "rankwith"})
	} else {
		p.Setup = append(p.Setup, Op{K: "tagload", S: a}, Op{K: "rankload", S: a})
	}
	p.Setup = append(p.Setup, Op{K: "extwith"}, Op{K: "extidf", S: []Str{"/d/idf.txt"}})
	if r.p(2) {
		p.Setup = append(p.Setup, Op{K: "extstop", S: []Str{"/d/stop.txt"}})
	}
	if r.p(2) {
		p.Setup = append(p.Setup, Op{K: "extadd", S: []Str{Str(t.word(r)), "n"}, F: 4.5})
	}
	p.Setup = append(p.Setup, Op{K: "loadmodel", N: 0})
	nc := r.between(2, 3)
	for i := 0; i < nc; i++ {
		var ops []Op
		for k := r.between(1, 3); k > 0; k-- {
			ops = append(ops, genTagQuery(r, t, words))
		}
		p.Clients = append(p.Clients, ops)
	}
	if r.p(3) {
		p.Clients[1] = append([]Op(nil), p.Clients[0]...)
	}
	p.Sched = newSched(r, 20*defBudget)
	if r.p(40) {
		c := r.n(len(p.Clients))
		p.Clients[c] = append([]Op{spin(r, genTagQuery(r, t, words))}, p.Clients[c]...)
		p.Sched.Budget = 100 * defBudget
	}
}

// genTagQuery draws a read-only call on a tagger, extracter or ranker.
func genTagQuery(r *Rng, t *theme, words []string) Op {
	txt := Str(t.text(r, words, 10))
	switch r.n(8) {
	case 0, 1:
		return Op{K: "tagcut", S: []Str{txt}, N: r.n(2), B: r.p(2)}
	case 2:
		return Op{K: pickS(r, "tagtrim", "tagpunct", "tagpos"), S: []Str{txt}, N: r.n(10), B: r.p(2)}
	case 3, 4, 5:
		return Op{K: "extract", S: []Str{txt}, N: r.n(6)}
	case 6:
		return Op{K: "rank", S: []Str{txt}, N: r.n(5)}
	default:
		s := []Str{txt}
		for _, x := range posPool {
			if r.p(2) {
				s = append(s, Str(x))
			}
		}
		return Op{K: "rankpos", S: s, N: r.n(5)}
	}
}

// objState renders what can be seen of an instance's other objects.
func (in *Inst) objState(words []Str) string {
	s := ""
	for _, w := range words {
		if in.ext.Idf != nil {
			f, p, ok := in.ext.Idf.Freq(string(w))
			s += fmt.Sprint(fl(f), p, ok, ";")
		}
	}
	return s
}

// runShared: clients issue read-only calls on one shared, loaded instance.
func runShared(p *Plan, st *Stats) *Violation {
	freshProcess(p)
	w := newWorld(p)
	if v := setupWorld(w, "setup"); v != nil {
		return v
	}
	before := dump(w.inst[0].seg)
	res := make([][]Res, len(p.Clients))
	var fns []func()
	for i := range p.Clients {
		i := i
		res[i] = make([]Res, len(p.Clients[i]))
		fns = append(fns, func() {
			for k, op := range p.Clients[i] {
				res[i][k] = w.do(op)
			}
		})
	}
	o := rt.Run(p.Sched, fns)
	st.run(o)
	if v := outcomeViol(o, "concurrent read-only calls"); v != nil {
		return v
	}
	for i := range res {
		for k := range res[i] {
			if res[i][k].Panic != "" {
				return viol("panic", "client %d call %s: panic: %s", i, opStr(p.Clients[i][k]), res[i][k].Panic)
			}
		}
	}
	after := dump(w.inst[0].seg)
	if after != before {
		return viol("state", "read-only calls changed the segmenter:\n before %s\n after  %s", before, after)
	}
	// every call alone, on an identically loaded twin
	for i := range p.Clients {
		for k, op := range p.Clients[i] {
			freshProcess(p)
			tw := newWorld(p)
			if v := setupWorld(tw, "twin setup"); v != nil {
				return v
			}
			var want Res
			oo := solo(p.Sched.Budget, func() { want = tw.do(op) })
			if v := outcomeViol(oo, "solo call"); v != nil {
				return v
			}
			if want.Panic != "" {
				return viol("panic", "solo call %s: panic: %s", opStr(op), want.Panic)
			}
			if want.Out != res[i][k].Out {
				return viol("result", "client %d call %s returned\n  %s\nalone it returns\n  %s", i, opStr(op), res[i][k].Out, want.Out)
			}
		}
	}
	// the same calls again on the shared object, one after another
	for i := range p.Clients {
		for k, op := range p.Clients[i] {
			var again Res
			freshModel(w)
			solo(p.Sched.Budget, func() { again = w.do(op) })
			if again.Out != res[i][k].Out {
				return viol("repeat", "call %s returned\n  %s\nrepeated later on the same object it returns\n  %s", opStr(op), res[i][k].Out, again.Out)
			}
		}
	}
	return nil
}

// freshModel re-installs the run's HMM model after the twin runs reset it.
func freshModel(w *World) {
	for _, op := range w.p.Setup {
		if op.K == "loadmodel" {
			w.exec(op)
		}
	}
}

func setupWorld(w *World, what string) *Violation {
	var bad *Violation
	o := solo(defBudget, func() {
		for _, op := range w.p.Setup {
			if r := w.do(op); r.Panic != "" {
				bad = viol("panic", "%s %s: panic: %s", what, opStr(op), r.Panic)
				return
			}
		}
	})
	if bad != nil {
		return bad
	}
	return outcomeViol(o, what)
}

func opStr(op Op) string {
	s := fmt.Sprintf("%s#%d(", op.K, op.I)
	for i, x := range op.S {
		if i > 0 {
			s += ", "
		}
		if len(x) > 200 {
			x = x[:200] + "..."
		}
		s += fmt.Sprintf("%q", string(x))
	}
	return s + fmt.Sprintf("; f=%v n=%d b=%v)", op.F, op.N, op.B)
}
