package main

import (
	"fmt"
	"os"
	"strings"
	"unicode/utf8"

	"verif.local/rt"
	"verif.local/rt/vos"
)

// C25: the work of a call, in executed statements, grows in proportion to its
// text or rows.

func init() { scenarios["C25"] = Scenario{genC25, runC25} }

var costCalls = []Op{
	{K: "segment"}, {K: "mode", B: true}, {K: "slice"}, {K: "slice", B: true}, {K: "string", B: true}, {K: "pos"}, {K: "pos", B: true},
	{K: "cuth"}, {K: "cuth", B: true}, {K: "cutall"}, {K: "cutsearch"}, {K: "cutsearch", N: 1}, {K: "cutsearch", N: 1, B: true}, {K: "hmmcut"},
	{K: "cutstop"}, {K: "cutstop", N: 1, B: true}, {K: "cuttrim"}, {K: "postrim", B: true}, {K: "postrimstr"}, {K: "posstr"}, {K: "cutstr"},
	{K: "suggest"}, {K: "analyze"}, {K: "split"}, {K: "cutdag"}, {K: "cutdagn"},
	{K: "tagcut"}, {K: "tagcut", N: 1, B: true}, {K: "tagtrim", B: true}, {K: "extract", N: 5}, {K: "rank", N: 5}, {K: "extract", N: 3}, {K: "rank", N: 20}, {K: "rank", N: 3},
	{K: "loadstr"}, {K: "loadstr"}, {K: "loaddict"}, {K: "reader"}, {K: "loadmap"}, {K: "add"}, {K: "remove"}, {K: "find"}, {K: "add"}, {K: "remove"}, {K: "find"}, {K: "remove"},
	{K: "loadstopstr"}, {K: "loadstoparr"}, {K: "addstop"}, {K: "rmstop"}, {K: "loadstop"}, {K: "isstop"}, {K: "extidfstr"},
}

func genC25(r *Rng, p *Plan) {
	genState(r, p, 8)
	p.Variant = ""
	for len(p.Texts) > 1 {
		p.Texts = p.Texts[1:]
	}
	if r.p(3) {
		t := newTheme(r, false)
		p.Texts[0] = Str(t.units[r.n(len(t.units))])
	}
	var calls []Op
	for i := r.between(1, 4); i > 0; i-- {
		op := costCalls[r.n(len(costCalls))]
		op.F = float64(r.between(60, 250))
		if r.p(3) && !(op.B && strings.HasPrefix(op.K, "tag")) {
			op.F *= 4
		}
		calls = append(calls, op)
	}
	p.Clients = [][]Op{p.Clients[0], calls}
	p.Sched = rt.Sched{Kind: "seq", Budget: 100 * histBudget}
}

// costRows are n rows in which most words differ.
func costRows(seed uint64, n, base int) (ws []string) {
	r := &Rng{s: seed}
	for len(ws) < n {
		var b strings.Builder
		k := r.between(2, 4)
		if len(ws) == 0 {
			k = 4
		}
		for ; k > 0; k-- {
			b.WriteRune(rune(base + r.n(60)))
		}
		ws = append(ws, b.String())
	}
	return
}

func runC25(p *Plan, st *Stats) *Violation {
	if !wfPlan(p) || len(p.Clients) != 2 || len(p.Texts) == 0 || !utf8.ValidString(string(p.Texts[0])) {
		return nil
	}
	x := string(p.Texts[0])
	u := utf8.RuneCountInString(x)
	if u == 0 {
		return nil
	}
	return inRun(st, p.Sched.Budget, "calls", func() *Violation {
		// every measurement begins in the same state
		start := func() *World {
			freshProcess(p)
			w := newWorld(p)
			if len(p.Models) > 0 {
				w.inst[0].seg.LoadModel(p.Models[0].Maps()...)
			}
			for _, op := range p.Clients[0] {
				if op.K != "heal" && op.K != "reader" {
					w.do(op)
				}
			}
			if w.inst[0].seg.Dict == nil {
				w.do(Op{K: "loadstr", S: []Str{"中国 5 n\n"}})
			}
			w.do(Op{K: "tagwith"})
			w.do(Op{K: "extwith"})
			w.do(Op{K: "rankwith"})
			w.do(Op{K: "prepidf"})
			return w
		}
		for _, op := range p.Clients[1] {
			n := int(op.F)
			if n < 1 || n > 1000 {
				continue
			}
			if strings.HasPrefix(op.K, "tag") { // unknown characters are dear
				n = (n + 3) / 4
			}
			isText, distinct := false, p.Seed%2 == 0
			limit := 2.8 // the trie grows in blocks
			switch op.K {
			case "loadstr", "loadmap", "loaddict", "reader", "loadstop", "loadstopstr", "loadstoparr", "extidfstr", "add", "remove", "find", "addstop", "rmstop", "isstop":
			default: // repetitions of the text
				limit, isText = 2.6, true
				if distinct {
					limit = 2.8
					break
				}
				if n = n / u; n < 4 {
					n = 4
				}
			}
			// cost measures n rows or a text of n parts, whole or in
			// groups of ten parts.
			cost := func(n int, group bool) (uint64, string) {
				w := start()
				var ops []Op
				rows := costRows(p.Seed, n, 0x4e00)
				var b strings.Builder
				sep := string(w.inst[0].cfg.Sep)
				for _, y := range rows {
					b.WriteString(Ent{y, "5", "n", 3}.line(sep) + "\n")
				}
				switch op.K {
				case "loadstr":
					ops = []Op{{K: op.K, S: []Str{Str(b.String())}}}
				case "extidfstr":
					ops = []Op{{K: op.K, S: []Str{Str(strings.Join(rows, " 5 n\n") + "\n")}}}
				case "loadstopstr":
					ops = []Op{{K: op.K, S: []Str{Str(strings.Join(rows, "\n"))}}}
				case "loadstoparr":
					o := Op{K: op.K}
					for _, y := range rows {
						o.S = append(o.S, Str(y))
					}
					ops = []Op{o}
				case "loadmap":
					o := Op{K: op.K}
					for _, y := range rows {
						o.S = append(o.S, Str(y), "5", "n")
					}
					ops = []Op{o}
				case "add", "remove", "find", "addstop", "rmstop", "isstop":
					if op.K == "remove" || op.K == "find" {
						w.do(Op{K: "loadstr", S: []Str{Str(b.String())}})
					}
					if op.K == "rmstop" || op.K == "isstop" {
						w.do(Op{K: "loadstopstr", S: []Str{Str(strings.Join(rows, "\n"))}})
					}
					for _, y := range rows {
						ops = append(ops, Op{K: op.K, S: []Str{Str(y), "n"}, F: 5})
					}
				case "loaddict", "reader", "loadstop":
					data := b.String()
					if op.K == "loadstop" {
						data = strings.Join(rows, "\n") + "\n"
					}
					vos.Install(append(append([]vos.FileSpec(nil), p.Files...), vos.FileSpec{Name: "/cost", Data: Str(data), Chunks: []int{1 + int(p.Seed%200)}}))
					ops = []Op{{K: op.K, S: []Str{"/cost"}, N: 16 + int(p.Seed%5000)}}
				default:
					o := op
					o.S = []Str{Str(strings.Repeat(x, n))}
					if distinct { // a text of many words
						var b strings.Builder
						all := costRows(p.Seed+1, 1000, 0x4e00)
						for _, y := range all {
							b.WriteString(Ent{y, "5", "n", 3}.line(sep) + "\n")
						}
						w.do(Op{K: "loadstr", S: []Str{Str(b.String())}})
						w.do(Op{K: "tagwith"})
						w.do(Op{K: "extwith"})
						w.do(Op{K: "rankwith"})
						b.Reset()
						r := &Rng{s: p.Seed}
						for i := 0; i < n; i++ {
							b.WriteString(all[r.n(len(all))] + "，")
							if group && i%10 == 9 {
								o.S = []Str{Str(b.String())}
								ops = append(ops, o)
								b.Reset()
							}
						}
						o.S = []Str{Str(b.String())}
					}
					ops = append(ops, o)
				}
				s0 := rt.Step()
				for _, o := range ops {
					if r := w.do(o); r.Panic != "" {
						return 0, r.Panic // told by others
					}
				}
				return rt.Step() - s0, ""
			}
			a, e1 := cost(n, false)
			b, e2 := cost(2*n, false)
			c, e3 := cost(4*n, false)
			if e1+e2+e3 != "" || a == 0 {
				continue
			}
			st.nontrivial()
			st.count("costs measured")
			observe(fmt.Sprint(op.K, op.B, a, b, c))
			if dbg {
				fmt.Fprintln(os.Stderr, "COST", op.K+fmt.Sprint(distinct && isText), op.B, n, a, b, c, float64(c-b)/float64(b-a+1))
			}
			if b > a && float64(c)-float64(b) > limit*float64(b-a)+1000 {
				if distinct && isText { // some words cost more than others
					pb, e1 := cost(2*n, true)
					pc, e2 := cost(4*n, true)
					if e1+e2 != "" || pc < pb || float64(c)-float64(b) <= 1.6*float64(pc-pb)+1000 {
						continue
					}
				}
				return viol("cost", "%s of %d, %d and %d (repetitions of %q, different words %v) takes %d, %d and %d steps", opStr(op), n, 2*n, 4*n, x, distinct, a, b, c)
			}
			if !isText || p.Seed%3 == 0 {
				continue
			}
			// words that do not occur in the text
			among := func(n int) (uint64, string) {
				w := start()
				var b strings.Builder
				sep := string(w.inst[0].cfg.Sep)
				for _, y := range costRows(p.Seed, n, 0x8e00) {
					b.WriteString(Ent{y, "5", "n", 3}.line(sep) + "\n")
				}
				w.do(Op{K: "loadstr", S: []Str{Str(b.String())}})
				w.do(Op{K: "tagwith"})
				w.do(Op{K: "extwith"})
				w.do(Op{K: "rankwith"})
				o := op
				o.S = []Str{Str(strings.Repeat(x, 4))}
				s0 := rt.Step()
				r := w.do(o)
				return rt.Step() - s0, r.Panic
			}
			few, e1 := among(50)
			many, e2 := among(1000)
			st.count("costs among many words measured")
			if e1+e2 == "" && float64(many) > 2*float64(few)+1000 {
				return viol("cost", "%s of 4 repetitions of %q takes %d steps with 50 other words in the dictionary, %d with 1000", opStr(op), x, few, many)
			}
		}
		return nil
	})
}

var dbg = os.Getenv("VSIM_DBG") != ""
