package main

import (
	"fmt"
	"strings"

	"github.com/go-ego/gse"

	"verif.local/rt"
	"verif.local/rt/vos"
)

// C21: embedded dictionaries and stop words.

func init() { scenarios["C21"] = Scenario{genC21, runC21} }

// the bundled files that can be embedded
var embedFiles = []string{"data/" + bS1, "data/" + bT1, "data/" + bJp, "data/" + bTok}

func genC21(r *Rng, p *Plan) {
	t := newTheme(r, false)
	t.bad = false
	t.up = false
	c := Cfg{}
	if r.p(3) {
		c = genCfg(r, true)
	}
	c.DefHMM = r.p(80)
	p.Variant = "history"
	n := 1
	if r.p(3) {
		p.Variant = "clients"
		n = r.between(2, 3)
	}
	for i := 0; i < n; i++ {
		p.Cfgs = append(p.Cfgs, c)
	}
	var words []string
	rows := func(max int) string {
		es := t.entries(r, r.between(1, max), c.LoadNoFreq, true)
		for i := range es {
			if len(words) > 0 && r.p(3) {
				es[i].W = words[r.n(len(words))]
			}
		}
		words = append(words, wordsOf(es)...)
		return render(es, string(c.Sep), "\n", true)
	}
	stops := func(max int) string {
		var b strings.Builder
		for i := r.between(1, max); i > 0; i-- {
			b.WriteString(t.word(r) + "\n")
		}
		return b.String()
	}
	for _, e := range embedFiles {
		f := vos.FileSpec{Name: "*/" + e}
		if e == "data/"+bTok {
			f.Data = Str(stops(5))
		} else {
			f.Data = Str(rows(6))
		}
		newDelivery(r, &f)
		p.Files = append(p.Files, f)
	}
	f := vos.FileSpec{Name: "/d/0", Data: Str(rows(5))}
	newDelivery(r, &f)
	if n == 1 && r.p(2) {
		genFault(r, &f)
		if f.ErrKind == "PANIC" || f.ErrKind == "NOPROGRESS" {
			f.ErrKind = "EIO"
		}
	}
	p.Files = append(p.Files, f)
	text := func() string { return strings.TrimSuffix(rows(3), "\n") }
	arg := func() []Str {
		switch r.n(9) {
		case 0:
			return nil
		case 1, 2, 3:
			return []Str{pickS[Str](r, "zh", "zh_s", "zh_t", "ja")}
		case 4, 5, 6:
			if c.Sep == "," { // not split then
				return []Str{Str(text())}
			}
			a := pickS(r, "zh", "zh_s", "zh_t", "zh", text())
			for i := r.between(1, pickS(r, 2, 2, 6)); i > 0; i-- {
				if r.p(8) {
					a += ", "
					continue
				}
				a += ", " + text()
			}
			return []Str{Str(a)}
		}
		return []Str{Str(text())}
	}
	for i := 0; i < n; i++ {
		var ops []Op
		for k := r.between(1, pickS(r, 4, 10)); len(ops) < k; {
			switch r.n(16) {
			case 0, 1, 2, 3, 4:
				ops = append(ops, Op{K: "embed", I: i, S: arg()})
			case 5:
				if c.Sep == "" && r.p(2) {
					a := arg()
					if len(a) > 0 && r.p(2) {
						a = append(a, pickS[Str](r, "alpha", "en", "x"))
					}
					ops = append(ops, Op{K: "newembed", I: i, S: a})
				}
			case 6, 7:
				var a []Str
				switch r.n(4) {
				case 0:
				case 1:
					a = []Str{Str(strings.TrimSuffix(stops(3), "\n"))}
				default:
					x := pickS(r, "zh", "zh", t.word(r))
					for j := r.between(1, pickS(r, 2, 2, 6)); j > 0; j-- {
						if r.p(8) {
							x += ", "
							continue
						}
						x += ", " + strings.TrimSuffix(stops(2), "\n")
					}
					a = []Str{Str(x)}
				}
				ops = append(ops, Op{K: "stopembed", I: i, S: a})
			case 8, 9:
				ops = append(ops, Op{K: pickS(r, "add", "readd", "addforce"), I: i, S: []Str{Str(pickS(r, append(words, t.word(r))...)), posPoolStr(r)}, F: exactFreqs[r.n(len(exactFreqs))]})
			case 10, 11:
				ops = append(ops, Op{K: "remove", I: i, S: []Str{Str(pickS(r, words...))}})
			case 12:
				ops = append(ops, Op{K: pickS(r, "empty", "emptystop", "calc"), I: i})
			case 13, 14:
				if n == 1 {
					ops = append(ops, Op{K: "loaddict", I: i, S: []Str{pickS[Str](r, "/d/0", "/missing", "/d/0,/missing")}})
				}
			case 15:
				ops = append(ops, Op{K: "addstop", I: i, S: []Str{Str(t.word(r))}})
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	for i := r.between(1, 3); i > 0; i-- {
		p.Texts = append(p.Texts, Str(t.text(r, words, 8)))
	}
	p.Sched = rt.Sched{Kind: "seq", Budget: histBudget}
	if n > 1 {
		p.Sched = newSched(r, histBudget)
	}
}

// embedTexts is what an argument of an embedding load stands for.
func embedTexts(op Op, sep string, data func(string) string) (texts []string) {
	s, t, j := data("data/"+bS1), data("data/"+bT1), data("data/"+bJp)
	if len(op.S) == 0 {
		return []string{s, t}
	}
	a := op.s(0)
	switch a {
	case "zh":
		return []string{s, t}
	case "zh_s":
		return []string{s}
	case "zh_t":
		return []string{t}
	case "ja":
		return []string{j}
	}
	if sep == "," {
		return []string{a}
	}
	l := strings.Split(a, ", ")
	for i, x := range l {
		switch {
		case i > 0 || len(l) == 1:
			texts = append(texts, x)
		case x == "zh":
			texts = append(texts, s, t)
		case x == "zh_s":
			texts = append(texts, s)
		case x == "zh_t":
			texts = append(texts, t)
		default:
			texts = append(texts, x)
		}
	}
	return
}

func runC21(p *Plan, st *Stats) *Violation {
	if len(p.Files) != len(embedFiles)+1 || len(p.Clients) == 0 || len(p.Clients) != len(p.Cfgs) {
		return nil
	}
	if !wfPlan(&Plan{Cfgs: p.Cfgs, Files: append(append([]vos.FileSpec(nil), p.Files[:3]...), p.Files[4])}) {
		return nil
	}
	for i := 0; i < 4; i++ {
		if !strings.HasSuffix(string(p.Files[i].Data), "\n") {
			return nil
		}
	}
	for _, cl := range p.Clients {
		for _, op := range cl {
			if op.K != "embed" && op.K != "newembed" {
				continue
			}
			sep := string(p.Cfgs[0].Sep)
			for _, x := range embedTexts(op, sep, func(string) string { return "" }) {
				if _, wf := p.Cfgs[0].rows(x); !wf {
					return nil
				}
			}
			if sep != "" && op.K == "newembed" {
				return nil
			}
		}
	}
	freshProcess(p)
	m := map[string]string{}
	for _, e := range embedFiles {
		m[e], _ = fileData(p, "*/"+e)
	}
	// what cannot be set (in this tree) is empty
	set := gse.VsimEmbed(m)
	data := func(e string) string {
		if set[e] {
			return m[e]
		}
		return ""
	}
	w := newWorld(p)
	uni := universeOf(p)
	client := func(i int, st *Stats) *Violation {
		tab, stops := newTable(p.Cfgs[i]), map[string]bool{}
		for k, op := range p.Clients[i] {
			when := fmt.Sprintf("client %d operation %d %s", i, k, opStr(op))
			var before, after map[string]int
			if op.K == "loaddict" {
				before = vos.Faults()
			}
			r := w.do(op)
			if op.K == "loaddict" {
				after = vos.Faults()
			}
			if r.Panic != "" {
				return viol("panic", "%s: panic: %s", when, r.Panic)
			}
			in := w.inst[op.I]
			switch op.K {
			case "embed", "newembed":
				if r.Out != "ok" {
					return viol("report", "%s reported %q", when, r.Out)
				}
				if op.K == "newembed" {
					c := Cfg{AlphaNum: len(op.S) > 1 && (op.s(1) == "alpha" || op.s(1) == "en")}
					tab, stops = newTable(c), map[string]bool{}
					if in.seg.AlphaNum != c.AlphaNum {
						return viol("option", "%s: AlphaNum is %v", when, in.seg.AlphaNum)
					}
				}
				for _, x := range embedTexts(op, string(tab.c.Sep), data) {
					rs, _ := tab.c.rows(x)
					tab.addRows(rs)
				}
			case "stopembed":
				if r.Out != "ok" {
					return viol("report", "%s reported %q", when, r.Out)
				}
				l := []string{data("data/" + bTok)}
				if len(op.S) > 0 {
					l = strings.Split(op.s(0), ", ")
					if l[0] == "zh" && len(l) > 1 {
						l[0] = data("data/" + bTok)
					}
				}
				for _, x := range l {
					for _, y := range strings.Split(x, "\n") {
						if y = strings.TrimSpace(y); y != "" {
							stops[y] = true
						}
					}
				}
			case "addstop":
				stops[op.s(0)] = true
			case "emptystop":
				stops = map[string]bool{}
			default:
				var v *Violation
				tab, v = stepModel(w, tab, op, r.Out, before, after, uni)
				if v != nil {
					return v
				}
				st.nontrivial()
			}
			if d := tab.diff(segObs(in.seg), uni); d != "" {
				return viol("contents", "after %s: %s\n table: %s", when, d, tab)
			}
			for _, u := range uni {
				if u != "" && in.seg.IsStop(u) != stops[u] {
					return viol("contents", "after %s %q is a stop word: %v, expected %v", when, u, in.seg.IsStop(u), stops[u])
				}
			}
			st.count("tables compared")
			if op.K != "embed" && op.K != "newembed" {
				continue
			}
			// a load counts everything before it
			f := newInst(tab.c)
			f.seg.Dict = gse.NewDict()
			for _, e := range tab.ents {
				if err := f.seg.AddToken(e.w, e.f, e.p); err != nil {
					return viol("fresh", "adding %q to a fresh segmenter: %v", e.w, err)
				}
			}
			f.seg.CalcToken()
			a, b := &World{p: p, inst: []*Inst{in}}, &World{p: p, inst: []*Inst{f}}
			for _, x := range p.Texts {
				for _, q := range []Op{{K: "segment"}, {K: "string", B: true}} {
					q.S = []Str{x}
					if y, z := a.do(q), b.do(q); y.String() != z.String() {
						return viol("fresh", "after %s %s gives\n  %s\na fresh build of the same entries gives\n  %s\n entries: %s", when, opStr(q), y, z, tab)
					}
				}
			}
		}
		return nil
	}
	if p.Variant == "clients" {
		vs := make([]*Violation, len(p.Clients))
		var fns []func()
		for i := range p.Clients {
			i := i
			fns = append(fns, func() { vs[i] = client(i, nil) })
		}
		o := rt.Run(p.Sched, fns)
		st.run(o)
		for _, v := range vs {
			if v != nil {
				return v
			}
		}
		return outcomeViol(o, "concurrent embedded loads")
	}
	if v := inRun(st, p.Sched.Budget, "history", func() *Violation { return client(0, st) }); v != nil {
		return v
	}
	// the embedded text and the file give the same dictionary and cuts
	c := p.Cfgs[0]
	return inRun(st, p.Sched.Budget, "file", func() *Violation {
		for k, name := range []string{"zh_s", "zh_t", "ja"} {
			e := embedFiles[k]
			if !set[e] {
				continue
			}
			a, b := newSegmenter(c), newSegmenter(c)
			a.DictPath, a.NotLoadHMM, b.NotLoadHMM = "", true, true
			vos.Heal()
			if err := a.LoadDict(name); err != nil {
				return viol("file", "loading the file of %s: %v", name, err)
			}
			if err := b.LoadDictEmbed(name); err != nil {
				return viol("file", "loading the embedded %s: %v", name, err)
			}
			tab := newTable(c)
			rs, _ := c.rows(m[e])
			tab.addRows(rs)
			if d := tab.diff(segObs(a), uni); d != "" {
				return viol("file", "the file of %s: %s", name, d)
			}
			if d := tab.diff(segObs(b), uni); d != "" {
				return viol("file", "the embedded %s: %s", name, d)
			}
			for _, x := range p.Texts {
				if y, z := sl(a.Cut(string(x))), sl(b.Cut(string(x))); y != z {
					return viol("file", "Cut(%q) with the file of %s is %s, with the embedded one %s", x, name, y, z)
				}
			}
			st.count("file and embedded text compared")
		}
		return nil
	})
}
