package main

import (
	"os"
	"strconv"

	"verif.local/rt"
	"verif.local/rt/vos"
)

// C12: results do not depend on anything a process is free to choose.

func init() { scenarios["C12"] = Scenario{genC12, runC12} }

// envMapSeed makes the orders of one worker process differ from another's.
var envMapSeed = func() uint64 {
	v, _ := strconv.ParseUint(os.Getenv("VSIM_MAPSEED"), 10, 64)
	r := Rng{s: v}
	if v == 0 {
		return 0
	}
	return r.u() >> 3 << 3
}()

func genC12(r *Rng, p *Plan) {
	t := newTheme(r, r.p(2))
	c := genCfg(r, true)
	c.DefHMM = r.p(40)
	p.Cfgs = []Cfg{c, {}}
	p.Models = []Model{newModel(r)}
	if r.p(2) {
		// a model full of ties
		m := &p.Models[0]
		for _, h := range hanPool {
			x := -float64(r.between(1, 2))
			m.B[h], m.E[h], m.M[h], m.S[h] = x, x, x, x
		}
	}
	tie := r.p(2) // equal frequencies, so that orders matter
	entries := func(c Cfg, n int) []Ent {
		es := t.entries(r, n, c.LoadNoFreq, true)
		if tie {
			f := pickS(r, "2", "10", "64")
			for i := range es {
				if es[i].NF > 1 {
					es[i].F = f
				}
				if es[i].NF == 3 && r.p(2) {
					es[i].P = "n"
				}
			}
		}
		return es
	}
	es := entries(c, r.between(2, 18))
	words := wordsOf(es)
	plain := entries(Cfg{}, r.between(1, 8))
	idf := entries(Cfg{}, r.between(1, 10))
	for i := range idf {
		if r.p(2) {
			idf[i].W = words[r.n(len(words))]
		}
		if idf[i].NF == 1 {
			idf[i].NF, idf[i].F = 2, "3"
		}
	}
	words = dedup(append(words, wordsOf(plain)...))
	p.Files = append(p.Files,
		vos.FileSpec{Name: "/d/a.txt", Data: Str(render(es, string(c.Sep), "\n", true))},
		vos.FileSpec{Name: "/d/p.txt", Data: Str(render(plain, "", "\n", true))},
		vos.FileSpec{Name: "/d/idf.txt", Data: Str(render(idf, "", "\n", true))},
		vos.FileSpec{Name: "/d/stop.txt", Data: Str(words[0] + "\n" + t.word(r) + "\n，\n")})
	for i := range p.Files {
		newDelivery(r, &p.Files[i])
	}
	ops := []Op{{K: "loadmodel", N: 0}, {K: "loaddict", S: []Str{"/d/a.txt"}}}
	objs := !r.p(3)
	if objs {
		p.Variant = "all objects"
		if r.p(2) {
			ops = append(ops, Op{K: "tagwith"}, Op{K: "rankwith"})
		} else {
			ops = append(ops, Op{K: "tagload", S: []Str{"/d/p.txt"}}, Op{K: "rankload", S: []Str{"/d/p.txt"}})
			ops = append(ops, Op{K: "loadmodel", N: 0})
		}
		ops = append(ops, Op{K: "extwith"})
		if r.p(2) {
			ops = append(ops, Op{K: "extidf", S: []Str{"/d/idf.txt"}})
		} else {
			ops = append(ops, Op{K: "prepidf"})
		}
		if r.p(3) {
			ops = append(ops, Op{K: "extstop", S: []Str{"/d/stop.txt"}})
		}
	} else {
		p.Variant = "segmenter"
	}
	for k := r.between(1, 8); k > 0; k-- {
		switch x := r.n(20); {
		case x < 2:
			ops = append(ops, genEdit(r, t, &words, true))
		case x == 2:
			ops = append(ops, Op{K: "calc"})
		case x == 3:
			ops = append(ops, Op{K: "loadstop", S: []Str{"/d/stop.txt"}})
		case x == 4 && objs:
			ops = append(ops, Op{K: "extadd", S: []Str{Str(words[r.n(len(words))]), "n"}, F: pickS(r, 2.0, 3, 10)})
		case x < 13 && objs:
			q := genTagQuery(r, t, words)
			if r.p(2) {
				q.S[0] = Str(t.text(r, words, pickS(r, 20, 40)))
				q.N = 0
				if q.K == "extract" {
					q.N = 100
				}
			}
			ops = append(ops, q)
		default:
			ops = append(ops, genQuery(r, t, words, true))
		}
	}
	ops = append(ops, Op{K: "num"})
	p.Clients = [][]Op{ops}
	// what the other executions do first, on objects of their own
	var warm []Op
	for k := r.n(4); k > 0; k-- {
		o := pickS(r, Op{K: "loaddict", S: []Str{"/d/p.txt"}}, Op{K: "loadstop", S: []Str{"/d/stop.txt"}}, Op{K: "empty"}, Op{K: "addstop", S: []Str{"x"}},
			Op{K: "idfload", S: []Str{"/d/p.txt"}}, Op{K: "swload", S: []Str{"/d/stop.txt"}}, Op{K: "swrm", S: []Str{"the"}}, genQuery(r, t, words, false))
		o.I = 1
		warm = append(warm, o)
	}
	p.Setup = warm
	p.Sched = newSched(r, 60*defBudget)
}

// detRun executes the history once; the outs are what the calls returned.
func detRun(p *Plan, st *Stats, mapSeed uint64, sched rt.Sched, warm bool) ([]Res, string, *Violation) {
	q := *p
	q.MapSeed = mapSeed ^ envMapSeed
	freshProcess(&q)
	w := newWorld(&q)
	if warm {
		if v := setupWorld(w, "warm-up"); v != nil {
			return nil, "", v
		}
	}
	res := make([]Res, len(p.Clients[0]))
	state := ""
	o := rt.Run(sched, []func(){func() {
		for k, op := range p.Clients[0] {
			res[k] = w.do(op)
		}
		state = dump(w.inst[0].seg)
	}})
	st.run(o)
	return res, state, outcomeViol(o, "history")
}

func runC12(p *Plan, st *Stats) *Violation {
	n0 := rt.MapRanges
	a, sa, v := detRun(p, st, p.MapSeed, rt.Sched{Kind: "seq", Budget: p.Sched.Budget}, false)
	if v != nil {
		return v
	}
	for k, op := range p.Clients[0] {
		if a[k].Panic != "" {
			return viol("panic", "call %d %s: panic: %s", k, opStr(op), a[k].Panic)
		}
	}
	if rt.MapRanges > n0 {
		st.nontrivial()
	}
	observe(sa)
	mine := obsHash
	r := Rng{s: p.MapSeed}
	// descending, ascending and shuffled orders, other clocks and schedules
	for i, m := range []uint64{r.u()>>3<<3 | 2, r.u() >> 3 << 3, r.u()>>3<<3 | 1}[:2+int(p.Seed%2)] {
		b, sb, v := detRun(p, st, m, p.Sched, true)
		if v != nil {
			return v
		}
		for k, op := range p.Clients[0] {
			if x, y := a[k].String(), b[k].String(); x != y {
				return viol("nondeterminism", "call %d %s returned\n  %s\nthe same calls in a process with other map orders, clock and earlier calls on other objects return (execution %d)\n  %s", k, opStr(op), clipS(x, 1500), i, clipS(y, 1500))
			}
			st.count("results compared")
		}
		if sa != sb {
			return viol("nondeterminism", "at the end the segmenter is\n  %s\nafter the same calls in a process with other map orders it is\n  %s", clipS(sa, 1500), clipS(sb, 1500))
		}
	}
	obsHash = mine
	return nil
}
