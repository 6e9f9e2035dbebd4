package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/go-ego/gse"

	"verif.local/rt"
	"verif.local/rt/vos"
)

// Histories of dictionary operations: C09 (table model), C10 (differential
// against a fresh build), C11 (losslessness in every state).

func init() {
	scenarios["C09"] = Scenario{genC09, runC09}
	scenarios["C10"] = Scenario{genC10, runC10}
	scenarios["C11"] = Scenario{genC11, runC11}
}

// histOpt shapes a history.
type histOpt struct {
	big    bool // starts from a large dictionary
	n      int
	faults bool
	query  bool
	stop   bool
	force  bool
	nul    bool
}

// genFault draws a fault for a source of the given length.
func genFault(r *Rng, f *vos.FileSpec) {
	n := len(f.Data)
	if r.p(4) {
		f.OpenErr = pickS(r, "ENOENT", "EACCES", "EMFILE", "EIO")
		f.OpenTimes = r.n(3)
		return
	}
	f.ErrKind = pickS(r, "EIO", "EIO", "EISDIR", "UNEXPECTED_EOF", "ETIMEDOUT", "ECANCELED", "CLOSED", "PANIC", "NOPROGRESS")
	switch r.n(4) {
	case 0:
		f.ErrAt = 0
	case 1:
		f.ErrAt = n
	default:
		f.ErrAt = r.n(n + 1)
	}
	if f.ErrKind == "EISDIR" {
		f.ErrAt = 0
	}
	if f.ErrKind != "NOPROGRESS" && f.ErrKind != "EISDIR" {
		f.ErrTimes = r.n(3)
	}
	f.ErrData = r.p(3)
}

// genDictFiles adds dictionary files /d/0 .. to the plan.
func genDictFiles(r *Rng, t *theme, p *Plan, c Cfg, n int, faults bool) (words []string) {
	for i := 0; i < n; i++ {
		es := t.entries(r, r.between(0, 9), c.LoadNoFreq, true)
		for k := range es {
			if len(words) > 0 && r.p(4) {
				es[k].W = words[r.n(len(words))]
			}
		}
		words = append(words, wordsOf(es)...)
		f := vos.FileSpec{Name: fmt.Sprintf("/d/%d", i), Data: Str(render(es, string(c.Sep), pickS(r, "\n", "\n", "\r\n"), !r.p(3)))}
		newDelivery(r, &f)
		if faults && r.p(2) {
			genFault(r, &f)
		}
		p.Files = append(p.Files, f)
	}
	return dedup(words)
}

var exactFreqs = []float64{2, 3, 5, 10, 100, 5000, 7.5, 2.25, 123456, 1, 64, 1e6, 1 << 40}

// genHist draws a history of dictionary operations on instance 0.
func genHist(r *Rng, t *theme, p *Plan, c Cfg, words *[]string, o histOpt) []Op {
	var ops []Op
	word := func() string {
		if o.nul && r.p(60) {
			return pickS(r, "\x00", "a\x00", "\x00a", "中\x00国")
		}
		if o.nul && r.p(60) {
			return ""
		}
		if len(*words) > 0 && !r.p(3) {
			w := (*words)[r.n(len(*words))]
			if r.p(5) {
				// a prefix or an extension of a word
				if rs := []rune(w); r.p(2) && len(rs) > 1 {
					w = string(rs[:1+r.n(len(rs)-1)])
				} else if len(w) < 60 {
					w += t.units[r.n(len(t.units))]
				}
			}
			return w
		}
		w := t.word(r)
		if t.up && !c.Alpha && r.p(4) {
			w = pickS(r, upPool...) + w
		}
		return w
	}
	file := func() string {
		if o.faults && r.p(12) {
			return "/missing"
		}
		if len(p.Files) == 0 {
			return "/missing"
		}
		return string(p.Files[r.n(len(p.Files))].Name)
	}
	for len(ops) < o.n {
		f := exactFreqs[r.n(len(exactFreqs))]
		pp := Str(posPool[r.n(len(posPool))])
		switch r.n(26) {
		case 0, 1, 2, 3, 4:
			w := word()
			*words = append(*words, w)
			ops = append(ops, Op{K: "add", S: []Str{Str(w), pp}, F: f})
		case 5, 6, 7, 8:
			ops = append(ops, Op{K: "remove", S: []Str{Str(word())}})
		case 9, 10, 11:
			ops = append(ops, Op{K: "readd", S: []Str{Str(word()), pp}, F: f})
		case 12:
			w := word()
			*words = append(*words, w)
			if o.force {
				ops = append(ops, Op{K: "addforce", S: []Str{Str(w), pp}, F: f})
			}
		case 13, 14:
			if r.p(3) {
				ops = append(ops, Op{K: "calc"})
			}
		case 15:
			if r.p(2) {
				ops = append(ops, Op{K: "empty"})
			}
		case 16, 17:
			a := file()
			for k := r.n(3); k > 0; k-- {
				a += pickS(r, ",", ", ") + file()
			}
			if strings.Contains(a, ", ") {
				a = strings.ReplaceAll(strings.ReplaceAll(a, ", ", ","), ",", ", ")
			}
			ops = append(ops, Op{K: "loaddict", S: []Str{Str(a)}})
		case 18:
			ops = append(ops, Op{K: "read", S: []Str{Str(file())}})
		case 19:
			if len(p.Files) > 0 {
				ops = append(ops, Op{K: "reader", S: []Str{Str(p.Files[r.n(len(p.Files))].Name)}, N: r.between(16, 200)})
			}
		case 20:
			es := t.entries(r, r.between(0, 5), c.LoadNoFreq, true)
			*words = append(*words, wordsOf(es)...)
			ops = append(ops, Op{K: "loadstr", S: []Str{Str(render(es, string(c.Sep), "\n", r.p(2)))}})
		case 21:
			es := t.entries(r, r.between(0, 4), c.LoadNoFreq, true)
			*words = append(*words, wordsOf(es)...)
			op := Op{K: "loadmap"}
			for _, e := range es {
				if e.NF < 3 {
					e.P = ""
				}
				if e.NF < 2 {
					e.F = ""
				}
				op.S = append(op.S, Str(e.W), Str(e.F), Str(e.P))
			}
			ops = append(ops, op)
		case 22:
			if o.faults && r.p(2) {
				ops = append(ops, Op{K: "heal"})
			}
		default:
			if o.query {
				ops = append(ops, genQuery(r, t, *words, false))
			}
		}
	}
	return addBulk(r, ops, t)
}

// addBulk puts many single edits somewhere into a few histories.
func addBulk(r *Rng, ops []Op, t *theme) []Op {
	if !r.p(25) {
		return ops
	}
	if r.p(3) {
		// many calls that change nothing
		o := spin(r, Op{K: pickS(r, "cut", "slice", "find", "pos", "cutall", "segment", "cutsearch"), S: []Str{Str(t.word(r))}, B: r.p(2)})
		o.F = pickS(r, 70.0, 140, 270)
		i := r.n(len(ops) + 1)
		return append(append(append([]Op(nil), ops[:i]...), o), ops[i:]...)
	}
	b := Op{K: "bulk", N: pickS(r, 127, 128, 255, 256, 256, 257, 511, 512, 600, 1100), F: float64(r.n(1 << 30)), B: !r.p(3)}
	for i := r.between(2, 9); i > 0; i-- {
		w := t.word(r)
		if strings.IndexByte(w, 0) < 0 && len(w) < 60 {
			b.S = append(b.S, Str(strings.ToLower(w)))
		}
	}
	if len(b.S) == 0 {
		return ops
	}
	add := []Op{b}
	if r.p(2) {
		add = []Op{{K: "calc"}, b, {K: "calc"}}
	}
	i := r.n(len(ops) + 1)
	if r.p(2) {
		i = len(ops)
	}
	return append(append(append([]Op(nil), ops[:i]...), add...), ops[i:]...)
}

// stepModel applies op to the model; it returns the new model and what the
// call must have returned ("" if not checked here).
func stepModel(w *World, tab *table, op Op, out string, before, after map[string]int, uni []string) (*table, *Violation) {
	want := func(x string) *Violation {
		if out != x && !(x == "error" && out == "device-panic") {
			return viol("return", "%s reported %q, expected %q", opStr(op), out, x)
		}
		return nil
	}
	c := tab.c
	switch op.K {
	case "add", "addforce":
		return tab, want(tab.add(tent{op.s(0), op.F, op.s(1)}))
	case "readd":
		x := tab.remove(op.s(0))
		if x == "ok" {
			x = tab.add(tent{op.s(0), op.F, op.s(1)})
		}
		return tab, want(x)
	case "remove":
		return tab, want(tab.remove(op.s(0)))
	case "bulk":
		x := uint32(op.F)
		for i := 0; i < op.N; i++ {
			x = x*1664525 + 1013904223
			t := op.s(int(x>>8) % len(op.S))
			if e, ok := tab.get(c.key(t)); !ok || e.f == 0 {
				tab.add(tent{t, bulkFreq(x), "n"})
			} else {
				tab.remove(t)
				if !op.B && x>>7&7 == 0 {
					tab.add(tent{t, bulkFreq(x), "v"})
				}
			}
		}
		return tab, want("ok")
	case "empty":
		return newTable(c), want("ok")
	case "loadstr":
		rs, _ := c.rows(op.s(0))
		tab.addRows(rs)
		return tab, want("ok")
	case "loadmap":
		for i := 0; i+2 < len(op.S); i += 3 {
			var f []string
			f = append(f, string(op.S[i]))
			if op.S[i+1] != "" {
				f = append(f, string(op.S[i+1]))
				if op.S[i+2] != "" {
					f = append(f, string(op.S[i+2]))
				}
			}
			if e, ok := c.row(f); ok {
				tab.add(e)
			}
		}
		return tab, want("ok")
	case "loaddict", "read", "reader":
		names := []string{op.s(0)}
		if op.K == "loaddict" {
			names = dictNames(op.s(0))
		}
		rs, faulted := loadRows(w.p, c, names, before, after)
		if !faulted {
			tab.addRows(rs)
			return tab, want("ok")
		}
		if v := want("error"); v != nil {
			return tab, v
		}
		n, why := tab.adopt(rs, segObs(w.inst[op.I].seg), uni)
		if n == nil {
			return tab, viol("partial", "after the failed %s the dictionary is no prefix of what the source holds: %s\n table before: %s", opStr(op), why, tab)
		}
		return n, nil
	}
	return tab, nil
}

func wfPlan(p *Plan) bool {
	c := p.Cfgs[0]
	for _, f := range p.Files {
		if _, wf := c.rows(string(f.Data)); !wf {
			return false
		}
	}
	for _, cl := range p.Clients {
		for _, o := range cl {
			if o.K == "loadstr" {
				if _, wf := c.rows(o.s(0)); !wf {
					return false
				}
			}
		}
	}
	return true
}

// inRun executes f as the single task of a simulated run.
func inRun(st *Stats, budget uint64, what string, f func() *Violation) *Violation {
	var v *Violation
	o := solo(budget, func() { v = f() })
	st.run(o)
	if v != nil {
		return v
	}
	return outcomeViol(o, what)
}

const histBudget = 300000000

// bigEntries draws a large dictionary over few or many characters.
func bigEntries(r *Rng) (es []Ent) {
	chars := pickS(r, 5, 40, 3000)
	max := pickS(r, 3, 6)
	for i := pickS(r, 200, 600, 1500); i > 0; i-- {
		var b strings.Builder
		for k := r.between(1, max); k > 0; k-- {
			b.WriteRune(rune(0x4e00 + r.n(chars)*7))
		}
		es = append(es, Ent{W: b.String(), F: freqPool[r.n(len(freqPool)-1)], P: posPool[r.n(len(posPool))], NF: 3})
	}
	return
}

func genHistPlan(r *Rng, p *Plan, o histOpt) (*theme, []string) {
	t := newTheme(r, false)
	t.long = t.long && p.Prop != "C25" // one text against such a word is no measure
	c := genCfg(r, true)
	c.DefHMM = r.p(80)
	if r.p(8) {
		c.Alpha = true
		t.up = false
	}
	p.Cfgs = []Cfg{c}
	words := genDictFiles(r, t, p, c, r.between(0, 3), o.faults)
	if o.big {
		es := bigEntries(r)
		words = append(words, wordsOf(es)...)
		p.Setup = append(p.Setup, Op{K: "loadstr", S: []Str{Str(render(es, string(c.Sep), "\n", true))}})
	} else if r.p(3) {
		// a loaded start
		p.Setup = append(p.Setup, Op{K: "loadstr", S: []Str{Str(render(t.entries(r, r.between(1, 10), false, false), string(c.Sep), "\n", true))}})
	}
	p.Clients = [][]Op{append(p.Setup, genHist(r, t, p, c, &words, o)...)}
	p.Setup = nil
	p.Sched = rt.Sched{Kind: "seq", Budget: 4 * histBudget}
	return t, dedup(words)
}

func genC09(r *Rng, p *Plan) {
	genHistPlan(r, p, histOpt{n: r.between(1, pickS(r, 4, 10, 30)), faults: r.p(2), query: r.p(3), force: true, nul: true, big: r.p(80)})
}

func runC09(p *Plan, st *Stats) *Violation {
	if !wfPlan(p) {
		return nil
	}
	freshProcess(p)
	w := newWorld(p)
	uni := universeOf(p)
	tab := newTable(p.Cfgs[0])
	return inRun(st, p.Sched.Budget, "history", func() *Violation {
		for i, op := range p.Clients[0] {
			if op.K == "heal" {
				vos.Heal()
				continue
			}
			n0 := len(tab.ents)
			before := vos.Faults()
			r := w.do(op)
			if r.Panic != "" {
				return viol("panic", "operation %d %s: panic: %s", i, opStr(op), r.Panic)
			}
			var v *Violation
			tab, v = stepModel(w, tab, op, r.Out, before, vos.Faults(), uni)
			if v != nil {
				return v
			}
			if n0 > 0 && (op.K == "remove" || op.K == "empty" || op.K == "readd") || r.Out == "error" {
				st.nontrivial()
			}
			if d := tab.diff(segObs(w.inst[0].seg), uni); d != "" {
				return viol("table", "after operation %d %s: %s\n table: %s", i, opStr(op), d, tab)
			}
			st.count("table comparisons")
			if (op.K == "loaddict" || op.K == "read") && vos.OpenHandles() > leaked(p, i) {
				return viol("handle", "operation %d %s left a file open", i, opStr(op))
			}
		}
		return nil
	})
}

// leaked counts the streams the harness itself opened up to operation i.
func leaked(p *Plan, i int) int {
	n := 0
	for _, o := range p.Clients[0][:i+1] {
		if o.K == "reader" {
			n++
		}
	}
	return n
}

// ---- C10

func genC10(r *Rng, p *Plan) {
	t, words := genHistPlan(r, p, histOpt{n: r.between(1, pickS(r, 4, 10, 30)), faults: r.p(3), query: r.p(4), force: true, big: r.p(150)})
	for i := r.between(2, 5); i > 0; i-- {
		p.Texts = append(p.Texts, Str(t.text(r, words, 14)))
	}
	if !p.Cfgs[0].DefHMM {
		p.Models = []Model{newModel(r)}
	}
}

func runC10(p *Plan, st *Stats) *Violation {
	if !wfPlan(p) {
		return nil
	}
	freshProcess(p)
	w := newWorld(p)
	uni := universeOf(p)
	c := p.Cfgs[0]
	tab := newTable(c)
	return inRun(st, p.Sched.Budget, "history", func() *Violation {
		for i, op := range p.Clients[0] {
			if op.K == "heal" {
				vos.Heal()
				continue
			}
			before := vos.Faults()
			r := w.do(op)
			if r.Panic != "" {
				return viol("panic", "operation %d %s: panic: %s", i, opStr(op), r.Panic)
			}
			var v *Violation
			tab, v = stepModel(w, tab, op, r.Out, before, vos.Faults(), uni)
			if v != nil {
				return v
			}
			if op.K == "remove" || op.K == "readd" || r.Out == "error" {
				st.nontrivial()
			}
		}
		if w.inst[0].seg.Dict == nil {
			return nil
		}
		w.do(Op{K: "calc"})
		if len(p.Models) > 0 {
			w.do(Op{K: "loadmodel", N: 0})
		}
		w.do(Op{K: "tagwith"})
		// the fresh build, in another order
		f := newInst(c)
		fw := &World{p: p, inst: []*Inst{f}}
		f.seg.Dict = gse.NewDict()
		if c.DefHMM || len(p.Models) == 0 {
			f.seg.Init()
		}
		r := &Rng{s: p.Seed}
		ents := append([]tent(nil), tab.ents...)
		for i := len(ents) - 1; i > 0; i-- {
			j := r.n(i + 1)
			ents[i], ents[j] = ents[j], ents[i]
		}
		for _, e := range ents {
			if err := f.seg.AddToken(e.w, e.f, e.p); err != nil {
				return viol("fresh", "adding %q to a fresh segmenter: %v", e.w, err)
			}
		}
		f.seg.CalcToken()
		fw.do(Op{K: "tagwith"})
		var texts []Str
		texts = append(texts, p.Texts...)
		for i, e := range tab.ents {
			if i < 6 {
				texts = append(texts, Str(e.w))
			}
		}
		for _, x := range texts {
			for _, q := range []Op{
				{K: "segment"}, {K: "mode", B: true}, {K: "slice", B: true}, {K: "string", B: true}, {K: "cuth"}, {K: "cuth", B: true}, {K: "cutall"},
				{K: "cutsearch", N: 1}, {K: "cutsearch", N: 1, B: true}, {K: "cutsearch"}, {K: "pos", B: true}, {K: "tagcut"}, {K: "tagcut", N: 1, B: true}, {K: "suggest"},
			} {
				q.S = []Str{x}
				a, b := w.do(q), fw.do(q)
				st.count("fresh build comparisons")
				if a.String() != b.String() {
					return viol("fresh", "after the history %s gives\n  %s\na fresh build of the same entries gives\n  %s\n entries: %s", opStr(q), a, b, tab)
				}
			}
		}
		return nil
	})
}

// ---- C11

func genC11(r *Rng, p *Plan) {
	t, words := genHistPlan(r, p, histOpt{n: r.between(1, pickS(r, 3, 8, 20)), faults: r.p(2), query: false, force: true, nul: true})
	p.KeepCase = r.p(12)
	for i := r.between(2, 6); i > 0; i-- {
		x := t.text(r, words, pickS(r, 6, 14, 40))
		switch r.n(8) {
		case 0:
			b := make([]byte, r.between(1, 30))
			for k := range b {
				b[k] = byte(r.u())
			}
			x = string(b)
		case 1:
			b := []byte(x)
			for k := r.between(1, 4); k > 0 && len(b) > 0; k-- {
				b[r.n(len(b))] = byte(r.u())
			}
			x = string(b)
		case 2:
			x = x[:r.n(len(x)+1)]
		case 3:
			x = strings.ToUpper(x)
		case 4:
			x += "\x00" + x
		}
		p.Texts = append(p.Texts, Str(x))
	}
	p.Models = []Model{newModel(r)}
}

// lossless checks C11 for one text in the present state.
func lossless(w *World, x string) *Violation {
	s := w.inst[0].seg
	c := w.inst[0].cfg
	segs := s.Segment([]byte(x))
	empty := s.Dict == nil
	if empty && len(segs) == 0 {
		return nil
	}
	pos := 0
	var texts []string
	for i := range segs {
		g := &segs[i]
		if g.Start() != pos || g.End() <= g.Start() || g.End() > len(x) {
			return viol("offsets", "segment %d of %q is [%d,%d), the one before ended at %d: %s", i, x, g.Start(), g.End(), pos, segl(segs))
		}
		pos = g.End()
		part := x[g.Start():g.End()]
		tt := g.Token().Text()
		texts = append(texts, tt)
		if tt != lowASCII(part) && !(c.Alpha && strings.EqualFold(tt, part)) {
			return viol("text", "segment %d of %q covers %q but says %q", i, x, part, tt)
		}
	}
	if pos != len(x) {
		return viol("offsets", "the segments of %q end at %d of %d: %s", x, pos, len(x), segl(segs))
	}
	if cut := s.Cut(x); sl(cut) != sl(texts) {
		return viol("cut", "Cut(%q) = %q, the segments are %q", x, cut, texts)
	}
	if utf8.ValidString(x) {
		want := lower(x)
		for _, h := range []bool{false, true} {
			if got := strings.Join(s.Cut(x, h), ""); got != want {
				return viol("cut", "Cut(%q, %v) spells %q, expected %q", x, h, got, want)
			}
		}
		if got := strings.Join(s.HMMCut(x), ""); got != x {
			return viol("cut", "HMMCut(%q) spells %q", x, got)
		}
	}
	return nil
}

func runC11(p *Plan, st *Stats) *Violation {
	freshProcess(p)
	w := newWorld(p)
	if len(p.Models) > 0 {
		w.inst[0].seg.LoadModel(p.Models[0].Maps()...)
	}
	return inRun(st, p.Sched.Budget, "history", func() *Violation {
		check := func(when string) *Violation {
			for _, x := range p.Texts {
				v := func() (v *Violation) {
					defer func() {
						if e := recover(); e != nil {
							if ob, ok := e.(rt.OverBudget); ok {
								panic(ob)
							}
							v = viol("panic", "segmenting %q: panic: %v", string(x), e)
						}
					}()
					return lossless(w, string(x))
				}()
				st.count("texts segmented")
				if v != nil {
					v.Msg = when + ": " + v.Msg
					return v
				}
			}
			return nil
		}
		if v := check("on a new segmenter"); v != nil {
			return v
		}
		for i, op := range p.Clients[0] {
			if op.K == "heal" {
				vos.Heal()
				continue
			}
			r := w.do(op)
			if r.Panic != "" {
				return viol("panic", "operation %d %s: panic: %s", i, opStr(op), r.Panic)
			}
			if r.Out == "error" || r.Out == "device-panic" || op.K == "remove" || op.K == "empty" {
				st.nontrivial()
			}
			if v := check(fmt.Sprintf("after operation %d %s", i, opStr(op))); v != nil {
				return v
			}
		}
		return nil
	})
}
