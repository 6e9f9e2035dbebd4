package main

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/go-ego/gse"

	"verif.local/rt"
	"verif.local/rt/vos"
)

// C08: stop words are a set.

func init() { scenarios["C08"] = Scenario{genC08, runC08} }

const (
	defStopFile = "/vfs/data/dict/zh/stop_word.txt"
	zhStopFile  = "/vfs/data/dict/zh/stop_tokens.txt"
)

func genC08(r *Rng, p *Plan) {
	t := newTheme(r, true)
	c := genCfg(r, true)
	c.DefHMM = false
	p.Cfgs = []Cfg{c}
	p.Models = []Model{newModel(r)}
	es := t.entries(r, r.between(1, 9), false, false)
	words := wordsOf(es)
	p.Setup = append(p.Setup, Op{K: "loadmodel", N: 0}, Op{K: "loadstr", S: []Str{Str(render(es, string(c.Sep), "\n", true))}})
	faults := r.p(2)
	var stops []string
	sw := func() string {
		var w string
		switch r.n(9) {
		case 0, 1, 2:
			w = words[r.n(len(words))]
		case 3:
			w = t.units[r.n(len(t.units))]
		case 4:
			w = t.sep[r.n(len(t.sep))]
		case 5:
			w = pickS(r, "the", "of", "，", "。", "Go", "go", "+")
		case 6, 7:
			if len(stops) > 0 {
				return stops[r.n(len(stops))]
			}
			w = t.word(r)
		default:
			w = t.word(r) + t.word(r)
		}
		stops = append(stops, w)
		return w
	}
	lineWord := func() string {
		w := strings.TrimSpace(sw())
		if w == "" || strings.ContainsAny(w, "\n\r") {
			w = t.word(r)
		}
		return w
	}
	names := []string{}
	addFile := func(name string) {
		var l []string
		for k := r.n(pickS(r, 4, 8, 60)); k > 0; k-- {
			l = append(l, lineWord())
		}
		if r.p(25) {
			// a long list
			for k := r.between(60, pickS(r, 130, 300, 600)); k > 0; k-- {
				l = append(l, t.word(r)+t.word(r)+t.word(r))
			}
		}
		nl := pickS(r, "\n", "\n", "\r\n")
		d := strings.Join(l, nl)
		if len(l) > 0 && r.p(2) {
			d += nl
		}
		if r.p(6) {
			d = strings.Replace(d, nl, nl+nl, 1+r.n(2))
		}
		f := vos.FileSpec{Name: name, Data: Str(d)}
		newDelivery(r, &f)
		if faults && r.p(2) {
			genFault(r, &f)
		}
		p.Files = append(p.Files, f)
		names = append(names, name)
	}
	for i := r.n(4); i > 0; i-- {
		addFile(fmt.Sprintf("/s/%d", i))
	}
	bundled := r.p(4)
	if bundled {
		addFile(defStopFile)
		addFile(zhStopFile)
	}
	var ops []Op
	for k := r.between(1, pickS(r, 4, 10, 25)); k > 0; k-- {
		switch r.n(17) {
		case 0, 1, 2:
			if len(names) == 0 {
				continue
			}
			l := []string{names[r.n(len(names))]}
			for j := r.n(3); j > 0; j-- {
				l = append(l, names[r.n(len(names))])
			}
			if faults && r.p(8) {
				l = append(l, "/missing")
			}
			if bundled && r.p(4) {
				l[0] = "zh"
			}
			op := Op{K: "loadstop", S: []Str{Str(strings.Join(l, ", "))}}
			if bundled && r.p(5) {
				op.S = nil
			}
			ops = append(ops, op)
		case 3, 4:
			var l []string
			for j := r.n(5); j > 0; j-- {
				l = append(l, pickS(r, "", "", " ", "\t")+lineWord()+pickS(r, "", "", " ", "\r"))
			}
			d := strings.Join(l, "\n")
			if r.p(2) {
				d += "\n"
			}
			ops = append(ops, Op{K: "loadstopstr", S: []Str{Str(d)}})
		case 5:
			l := []string{lineWord()}
			for j := r.n(3); j > 0; j-- {
				l = append(l, lineWord()+pickS(r, "", "\n"+lineWord()))
			}
			d := strings.Join(l, ", ")
			if !strings.Contains(d, "zh,") {
				ops = append(ops, Op{K: "loadstopembed", S: []Str{Str(d)}})
			}
		case 6, 7:
			op := Op{K: pickS(r, "loadstoparr", "addstoparr")}
			for j := r.n(4); j > 0; j-- {
				op.S = append(op.S, Str(sw()))
			}
			ops = append(ops, op)
		case 8, 9:
			ops = append(ops, Op{K: "addstop", S: []Str{Str(sw())}})
		case 10, 11, 12:
			ops = append(ops, Op{K: "rmstop", S: []Str{Str(sw())}})
		case 13:
			ops = append(ops, Op{K: "emptystop"})
		case 14:
			ops = append(ops, Op{K: "notstop", B: r.p(2)})
		case 15:
			if faults {
				ops = append(ops, Op{K: "heal"})
			} else {
				ops = append(ops, Op{K: "empty"})
			}
		default:
			ops = append(ops, genEdit(r, t, &words, true))
		}
	}
	p.Clients = [][]Op{ops}
	for i := r.between(1, 3); i > 0; i-- {
		x := t.text(r, append(words, stops...), 10)
		p.Texts = append(p.Texts, Str(x))
	}
	p.Sched = rt.Sched{Kind: "seq", Budget: 4 * histBudget}
}

// refFilter removes symbols, spaces and punctuation.
func refFilter(s string) string {
	var b strings.Builder
	for _, c := range s {
		if unicode.IsSymbol(c) || unicode.IsSpace(c) || unicode.IsPunct(c) {
			continue
		}
		b.WriteRune(c)
	}
	return b.String()
}

// stopNames resolves the names a LoadStop call reads.
func stopNames(op Op) []string {
	if len(op.S) == 0 {
		return []string{defStopFile}
	}
	l := strings.Split(op.s(0), ", ")
	if l[0] == "zh" {
		l[0] = zhStopFile
	}
	return l
}

func runC08(p *Plan, st *Stats) *Violation {
	freshProcess(p)
	w := newWorld(p)
	if v := setupWorld(w, "setup"); v != nil {
		return v
	}
	s := w.inst[0].seg
	uni := stopUniverse(p)
	uni = append(uni, "the", "of", "Go", "go")
	set := map[string]bool{}
	return inRun(st, p.Sched.Budget, "history", func() *Violation {
		for i, op := range append([]Op{{K: "start"}}, p.Clients[0]...) {
			when := fmt.Sprintf("after operation %d %s", i, opStr(op))
			before := vos.Faults()
			r := Res{Out: "ok"}
			n0 := len(set)
			switch op.K {
			case "start":
			case "heal":
				vos.Heal()
				continue
			case "notstop":
				s.NotStop = op.B
			default:
				r = w.do(op)
			}
			if r.Panic != "" {
				return viol("panic", "operation %d %s: panic: %s", i, opStr(op), r.Panic)
			}
			lines := func(d string) {
				for _, l := range strings.Split(d, "\n") {
					if l = strings.TrimSpace(l); l != "" {
						set[l] = true
					}
				}
			}
			want := "ok"
			switch op.K {
			case "loadstop":
				ws, faulted := stopLoad(p, stopNames(op), before, vos.Faults())
				if faulted {
					want = "error"
					if r.Out == "device-panic" {
						want = r.Out
					}
					st.nontrivial()
					st.count("failed loads")
				}
				n, why := adoptStop(set, ws, uni, s.IsStop)
				if !faulted {
					n = map[string]bool{}
					for k := range set {
						n[k] = true
					}
					for _, x := range ws {
						n[x] = true
					}
				}
				if n == nil {
					return viol("partial", "%s, which failed, the stop words are no prefix of what the source holds: %s", when, why)
				}
				set = n
				if vos.OpenHandles() != 0 {
					return viol("handle", "%s %d files are left open", when, vos.OpenHandles())
				}
			case "loadstopstr":
				lines(op.s(0))
			case "loadstopembed":
				for _, x := range strings.Split(op.s(0), ", ") {
					lines(x)
				}
			case "loadstoparr", "addstoparr", "addstop":
				for _, x := range op.S {
					set[string(x)] = true
				}
				want = ""
			case "rmstop":
				delete(set, op.s(0))
				want = ""
			case "emptystop":
				set = map[string]bool{}
			default:
				want = r.Out
			}
			if r.Out != want && !(want == "" && r.Out == "ok") {
				return viol("return", "operation %d %s reported %q, expected %q", i, opStr(op), r.Out, want)
			}
			if n0 > 0 && (op.K == "rmstop" || op.K == "emptystop") {
				st.nontrivial()
			}
			if d := stopDiff(set, uni, s.IsStop); d != "" {
				return viol("set", "%s: %s", when, d)
			}
			var texts []Str
			if len(p.Texts) > 0 {
				texts = p.Texts[i%len(p.Texts):][:1]
			}
			if v := stopFilters(w, set, uni, texts, when); v != nil {
				return v
			}
			st.count("stop set comparisons")
		}
		return nil
	})
}

// stopFilters compares every filtering operation with the set.
func stopFilters(w *World, set map[string]bool, uni []string, texts []Str, when string) (v *Violation) {
	defer func() {
		if e := recover(); e != nil {
			if ob, ok := e.(rt.OverBudget); ok {
				panic(ob)
			}
			v = viol("panic", "%s, a filtering call: panic: %v", when, e)
		}
	}()
	in := w.inst[0]
	s := in.seg
	stop := func(l []string) (r []string) {
		for _, x := range l {
			if x != "" && !set[x] {
				r = append(r, x)
			}
		}
		return
	}
	trim := func(l []string) (r []string) {
		for _, x := range l {
			if x = refFilter(x); x != "" && (s.NotStop || !set[x]) {
				r = append(r, x)
			}
		}
		return
	}
	tpos := func(l []gse.SegPos) (r []gse.SegPos) {
		for _, x := range l {
			if y := refFilter(x.Text); y != "" && (s.NotStop || !set[y]) {
				r = append(r, x)
			}
		}
		return
	}
	ppos := func(l []gse.SegPos) (r []gse.SegPos) {
		for _, x := range l {
			if x.Text == "" || !s.NotStop && set[x.Text] {
				continue
			}
			c := []rune(x.Text)[0]
			if !unicode.IsSpace(c) && !unicode.IsPunct(c) {
				r = append(r, x)
			}
		}
		return
	}
	eq := func(what string, got, want string) *Violation {
		if got != want {
			return viol("filter", "%s: %s gives\n  %s\nthe stop words give\n  %s", when, what, clipS(got, 1500), clipS(want, 1500))
		}
		return nil
	}
	step := 1
	if len(uni) > 40 {
		step = len(uni) / 40
	}
	var l []string
	var lp []gse.SegPos
	for i := 0; i < len(uni); i += step {
		l = append(l, uni[i])
		lp = append(lp, gse.SegPos{Text: uni[i], Pos: []string{"n", "v", "x"}[i%3]})
	}
	in.tag.WithGse(*s)
	if v := eq("Stop", sl(s.Stop(l)), sl(stop(l))); v != nil {
		return v
	}
	if v := eq("Trim", sl(s.Trim(l)), sl(trim(l))); v != nil {
		return v
	}
	// the trims that know no stop words
	var sym, punct []string
	for _, x := range l {
		if y := refFilter(x); y != "" {
			sym = append(sym, y)
		}
		if strings.ContainsFunc(x, func(c rune) bool { return !unicode.IsSpace(c) && !unicode.IsPunct(c) }) {
			punct = append(punct, x)
		}
	}
	if v := eq("TrimSymbol", sl(s.TrimSymbol(l)), sl(sym)); v != nil {
		return v
	}
	if v := eq("TrimPunct", sl(s.TrimPunct(l)), sl(punct)); v != nil {
		return v
	}
	var agree, letters []gse.SegPos
	for _, x := range lp {
		graph := func(c rune) bool { return !unicode.IsSpace(c) && !unicode.IsPunct(c) }
		c := []rune(x.Text)
		first := len(c) > 0 && graph(c[0])
		if first == strings.ContainsFunc(x.Text, graph) {
			agree = append(agree, x)
			if first {
				letters = append(letters, x)
			}
		}
	}
	if v := eq("TrimPunct of a tagger", posl(in.tag.TrimPunct(agree)), posl(letters)); v != nil {
		return v
	}
	for _, drop := range [][]string{{"n"}, {"v", "zz"}, {"x", "n"}, {"n", "v", "x"}} {
		var rest []gse.SegPos
		for _, x := range lp {
			if d := strings.Join(drop, ","); !strings.Contains(d, x.Pos) {
				rest = append(rest, x)
			}
		}
		if v := eq(fmt.Sprintf("TrimWithPos of %q", drop), posl(s.TrimWithPos(lp, drop...)), posl(rest)); v != nil {
			return v
		}
		if v := eq(fmt.Sprintf("TrimWithPos of a tagger of %q", drop), posl(in.tag.TrimWithPos(lp, drop...)), posl(rest)); v != nil {
			return v
		}
	}
	if v := eq("TrimPos", posl(s.TrimPos(lp)), posl(tpos(lp))); v != nil {
		return v
	}
	if v := eq("TrimPosPunct", posl(s.TrimPosPunct(lp)), posl(ppos(lp))); v != nil {
		return v
	}
	if v := eq("Trim of a tagger", posl(in.tag.Trim(lp)), posl(tpos(lp))); v != nil {
		return v
	}
	for _, x := range texts {
		x := string(x)
		for _, h := range [][]bool{nil, {false}, {true}} {
			c := s.Cut(x, h...)
			if v := eq(fmt.Sprintf("CutStop(%q, %v)", x, h), sl(s.CutStop(x, h...)), sl(stop(c))); v != nil {
				return v
			}
			if v := eq(fmt.Sprintf("CutTrim(%q, %v)", x, h), sl(s.CutTrim(x, h...)), sl(trim(c))); v != nil {
				return v
			}
		}
		for _, m := range []bool{false, true} {
			q := tpos(s.Pos(x, m))
			for _, drop := range []string{"none", "n"} {
				var k []gse.SegPos
				var ks []string
				for _, y := range q {
					if y.Pos != drop {
						k = append(k, y)
						ks = append(ks, y.Text)
					}
				}
				if v := eq(fmt.Sprintf("PosTrim(%q, %v, %q)", x, m, drop), posl(s.PosTrim(x, m, drop)), posl(k)); v != nil {
					return v
				}
				if v := eq(fmt.Sprintf("PosTrimArr(%q, %v, %q)", x, m, drop), sl(s.PosTrimArr(x, m, drop)), sl(ks)); v != nil {
					return v
				}
				if v := eq(fmt.Sprintf("PosTrimStr(%q, %v, %q)", x, m, drop), s.PosTrimStr(x, m, drop), strings.Join(ks, " ")); v != nil {
					return v
				}
			}
		}
		c := in.tag.Cut(x, true)
		if v := eq(fmt.Sprintf("Trim of tagged %q", x), posl(in.tag.Trim(c)), posl(tpos(c))); v != nil {
			return v
		}
	}
	return nil
}
