package main

import (
	"fmt"
	"strings"

	"verif.local/rt"
	"verif.local/rt/vos"
)

// C06: every route and every delivery gives the same dictionary.
// C07: failing loads.

func init() {
	scenarios["C06"] = Scenario{genC06, runC06}
	scenarios["C07"] = Scenario{genC07, runC07}
}

func genC06(r *Rng, p *Plan) {
	t := newTheme(r, false)
	c := genCfg(r, true)
	c.Sep = pickS[Str](r, "", "", ",", ",", ";")
	c.LoadNoFreq = r.p(3)
	if r.p(8) {
		c.Alpha = true
		t.up = false
	}
	p.Cfgs = []Cfg{c}
	n := r.between(0, pickS(r, 3, 10, 30))
	es := t.entries(r, n, r.p(2), true)
	words := wordsOf(es)
	if t.up && !c.Alpha {
		for i := range es {
			if r.p(5) {
				es[i].W = pickS(r, upPool...) + es[i].W
			}
		}
	}
	if r.p(25) && n > 0 {
		// a very long line
		k := r.n(n)
		es[k].W = hanText(r, 1+pickS(r, 4090, 4096, 4096, 8192, 65536, 70000)/3)
		if r.p(8) {
			es[k].W = hanText(r, r.between(70000, 120000))
		}
	}
	nl := pickS(r, "\n", "\n", "\n", "\r\n")
	data := render(es, string(c.Sep), nl, !r.p(3))
	if r.p(5) {
		// blank lines
		ls := strings.SplitAfter(data, "\n")
		for i := range ls {
			if r.p(4) {
				ls[i] += nl
			}
		}
		data = strings.Join(ls, "")
	}
	p.Variant = "wellformed"
	if r.p(3) {
		p.Variant = "malformed"
		b := []byte(data)
		switch r.n(3) {
		case 0:
			for k := r.between(1, 6); k > 0 && len(b) > 0; k-- {
				b[r.n(len(b))] = byte(r.u())
			}
		case 1:
			var o []byte
			junk := []string{" ", "\n", "\t", "\r", ",", ", ", "中", "x", "12", "\x00", "\xff", "\xe4\xb8", "\u3000", "\ufeff", "-", "NaN", "+Inf", "1e400", "n"}
			for k := r.between(1, 60); k > 0; k-- {
				if r.p(4) {
					o = append(o, es0(es, r, string(c.Sep))...)
				} else {
					o = append(o, pickS(r, junk...)...)
				}
			}
			b = o
		default:
			if len(b) > 0 {
				b = b[:r.n(len(b))]
			}
			b = append(b, pickS(r, " ", "  ", "中 5 n extra\n国 6 n", "\xe4", "一 9", "一,", ",,")...)
		}
		data = string(b)
	}
	f := vos.FileSpec{Name: "/d/a.txt", Data: Str(data)}
	newDelivery(r, &f)
	p.Files = []vos.FileSpec{f}
	var ops []Op
	for _, k := range []string{"file", "multi", "read", "stream", "str", "embed", "map", "add"} {
		if k == "file" || !r.p(4) {
			ops = append(ops, Op{K: "route", S: []Str{Str(k)}, N: r.between(16, 300), B: r.p(2)})
		}
	}
	p.Clients = [][]Op{ops}
	for i := r.between(1, 4); i > 0; i-- {
		p.Texts = append(p.Texts, Str(t.text(r, words, 12)))
	}
	p.Sched = rt.Sched{Kind: "seq", Budget: 20 * histBudget}
}

func es0(es []Ent, r *Rng, sep string) string {
	if len(es) == 0 {
		return "一 5 n\n"
	}
	return es[r.n(len(es))].line(sep) + "\n"
}

func runC06(p *Plan, st *Stats) *Violation {
	freshProcess(p)
	c := p.Cfgs[0]
	f := p.Files[0]
	rows, wf := c.rows(string(f.Data))
	if p.Variant == "wellformed" && !wf {
		return nil
	}
	want := newTable(c)
	want.addRows(rows)
	uni := universeOf(p)
	st.nontrivial()
	return inRun(st, p.Sched.Budget, "load", func() *Violation {
		first, firstRoute := "", ""
		for _, op := range p.Clients[0] {
			if op.K != "route" {
				continue
			}
			route := op.s(0)
			wf := p.Variant == "wellformed"
			if !wf && route != "file" && route != "read" && route != "stream" {
				continue
			}
			load := func(fs []vos.FileSpec, ops ...Op) (*World, *Violation) {
				vos.Install(fs)
				w := newWorld(p)
				for _, o := range ops {
					r := w.do(o)
					if r.Panic != "" {
						return nil, viol("panic", "%s: panic: %s", opStr(o), r.Panic)
					}
					if r.Out == "error" && wf {
						return nil, viol("return", "loading well-formed contents by %s reports an error", opStr(o))
					}
				}
				return w, nil
			}
			var w *World
			var v *Violation
			name := Str(f.Name)
			switch route {
			case "file":
				w, v = load(p.Files, Op{K: "loaddict", S: []Str{name}})
			case "read":
				w, v = load(p.Files, Op{K: "read", S: []Str{name}}, Op{K: "calc"})
			case "stream":
				w, v = load(p.Files, Op{K: "reader", S: []Str{name}, N: op.N}, Op{K: "calc"})
			case "multi":
				// cut the lines into several files
				r := &Rng{s: uint64(op.N)}
				var fs []vos.FileSpec
				var names []string
				part := ""
				flush := func() {
					g := vos.FileSpec{Name: fmt.Sprintf("/d/p%d", len(fs)), Data: Str(part)}
					newDelivery(r, &g)
					fs = append(fs, g)
					names = append(names, g.Name)
					part = ""
				}
				for _, l := range strings.SplitAfter(string(f.Data), "\n") {
					part += l
					if r.p(4) {
						if r.p(2) {
							part = strings.TrimSuffix(part, "\n")
						}
						flush()
					}
				}
				flush()
				sep := ","
				if op.B {
					sep = ", "
				}
				w, v = load(fs, Op{K: "loaddict", S: []Str{Str(strings.Join(names, sep))}})
			case "str":
				w, v = load(nil, Op{K: "loadstr", S: []Str{f.Data}})
			case "embed":
				if !strings.Contains(string(f.Data), "\n") || strings.Contains(string(f.Data), ", ") && c.Sep != "," {
					continue
				}
				w, v = load(nil, Op{K: "loadembed", S: []Str{f.Data}})
			case "map":
				o := Op{K: "loadmap"}
				for _, r := range rows {
					x := append([]string(nil), r.fields...)
					if len(x) == 0 {
						continue
					}
					for len(x) < 3 {
						x = append(x, "")
					}
					o.S = append(o.S, Str(x[0]), Str(x[1]), Str(x[2]))
				}
				w, v = load(nil, o)
			case "add":
				ops := []Op{}
				for _, r := range rows {
					if r.ok {
						ops = append(ops, Op{K: "add", S: []Str{Str(r.e.w), Str(r.e.p)}, F: r.e.f})
					}
				}
				w, v = load(nil, append(ops, Op{K: "calc"})...)
				if len(ops) == 0 {
					continue
				}
			}
			if v != nil {
				return v
			}
			st.count("route " + route)
			if n := vos.OpenHandles(); n != 0 && route != "stream" {
				return viol("handle", "%d files left open by route %s", n, route)
			}
			s := w.inst[0].seg
			if wf {
				if d := want.diff(segObs(s), uni); d != "" {
					return viol("table", "loading %q by route %s: %s\n expected: %s", clipS(string(f.Data), 1200), route, d, want)
				}
			} else {
				// the same route with everything delivered at once
				g := vos.FileSpec{Name: f.Name, Data: f.Data}
				ops := map[string][]Op{
					"file":   {{K: "loaddict", S: []Str{name}}},
					"read":   {{K: "read", S: []Str{name}}, {K: "calc"}},
					"stream": {{K: "reader", S: []Str{name}, N: 1 << 17}, {K: "calc"}},
				}[route]
				w2, v := load([]vos.FileSpec{g}, ops...)
				if v != nil {
					return v
				}
				a, b := dump(s), dump(w2.inst[0].seg)
				if a != b {
					return viol("delivery", "the contents %q, delivered differently, give different dictionaries by route %s:\n %s\n %s", clipS(string(f.Data), 1200), route, clipS(a, 2000), clipS(b, 2000))
				}
			}
			// segmentations
			got := ""
			for _, x := range p.Texts {
				for _, q := range []Op{{K: "segment"}, {K: "mode", B: true}, {K: "slice", B: true}, {K: "cuth"}, {K: "cutall"}} {
					q.S = []Str{x}
					got += w.do(q).String() + "\n"
				}
			}
			if first == "" {
				first, firstRoute = got, route
			} else if got != first {
				return viol("segmentation", "after route %s the texts give\n%s\nafter route %s\n%s", route, clipS(got, 2000), firstRoute, clipS(first, 2000))
			}
		}
		return nil
	})
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- C07

func genC07(r *Rng, p *Plan) {
	t := newTheme(r, false)
	c := genCfg(r, true)
	p.Variant = pickS(r, "dict", "dict", "dict", "dict", "read", "read", "reader", "stop", "stop", "swload", "extstop", "idf", "extidf", "tag", "rank", "ext")
	switch p.Variant {
	case "idf", "extidf", "tag", "rank", "ext", "swload", "extstop":
		c = Cfg{}
	}
	p.Cfgs = []Cfg{c}
	var words []string
	nf := 1
	if p.Variant == "dict" && r.p(2) {
		nf = r.between(2, 3)
	}
	p.Sched = rt.Sched{Kind: "seq", Budget: histBudget}
	if p.Variant == "stop" && r.p(2) {
		nf = r.between(2, 3)
	}
	bad := r.n(nf)
	var names []string
	isStop := p.Variant == "stop" || p.Variant == "swload" || p.Variant == "extstop"
	for i := 0; i < nf; i++ {
		f := vos.FileSpec{Name: fmt.Sprintf("/d/%d", i)}
		max := 9
		if r.p(12) {
			max = 300 // more than one buffer
		}
		if isStop {
			var l []string
			for k := r.n(max); k > 0; k-- {
				l = append(l, pickS(r, t.word(r), t.word(r), "，", " ", t.word(r)+" "+t.word(r)))
			}
			f.Data = Str(strings.Join(l, "\n"))
			if r.p(2) && len(l) > 0 {
				f.Data += "\n"
			}
			words = append(words, l...)
		} else {
			es := t.entries(r, r.n(max), c.LoadNoFreq, true)
			if max == 300 {
				for k := range es {
					es[k].W = fmt.Sprint(es[k].W, hanText(r, 3))
				}
			}
			words = append(words, wordsOf(es)...)
			f.Data = Str(render(es, string(c.Sep), pickS(r, "\n", "\n", "\r\n"), !r.p(3)))
		}
		newDelivery(r, &f)
		if i == bad {
			if r.p(15) {
				names = append(names, "/missing")
				continue
			}
			genFault(r, &f)
			if f.OpenErr != "" && p.Variant == "reader" {
				f.OpenErr, f.ErrKind = "", "EIO"
			}
		}
		p.Files = append(p.Files, f)
		names = append(names, f.Name)
	}
	if r.p(2) {
		switch {
		case isStop:
			p.Setup = append(p.Setup, Op{K: pickS(r, "loadstoparr", "addstoparr"), S: []Str{Str(t.word(r)), Str(t.word(r))}})
		default:
			p.Setup = append(p.Setup, Op{K: "loadstr", S: []Str{Str(render(t.entries(r, r.between(1, 6), false, false), string(c.Sep), "\n", true))}})
			if len(words) > 0 && r.p(2) {
				p.Setup = append(p.Setup, Op{K: "add", S: []Str{Str(words[r.n(len(words))]), "n"}, F: 7.5})
			}
		}
	}
	sep := pickS(r, ",", ", ")
	if isStop {
		sep = ", "
	}
	arg := []Str{Str(strings.Join(names, sep))}
	k := map[string]string{"dict": "loaddict", "read": "read", "reader": "reader", "stop": "loadstop", "swload": "swload", "extstop": "extstop",
		"idf": "idfload", "extidf": "extidf", "tag": "tagload", "rank": "rankload", "ext": "extload"}[p.Variant]
	if p.Variant == "reader" && names[0] == "/missing" {
		k = "read"
	}
	p.Clients = [][]Op{{{K: k, S: arg, N: r.between(16, 300)}}}
	for i := r.between(1, 3); i > 0; i-- {
		p.Texts = append(p.Texts, Str(t.text(r, words, 12)))
	}
}

// stopLines are the words of a stop word source; complete ones end before lim.
func stopLines(data string, lim int) (all []string, complete int) {
	off := 0
	for off < len(data) {
		i := strings.IndexByte(data[off:], '\n')
		l := data[off:]
		if i >= 0 {
			l = data[off : off+i]
			off += i + 1
		} else {
			off = len(data)
		}
		if l = strings.TrimSuffix(l, "\r"); l == "" {
			continue
		}
		all = append(all, l)
		if i >= 0 && off <= lim {
			complete = len(all)
		}
	}
	return
}

// stopLoad returns the words a load of the named stop word files may have
// inserted, and whether it had to fail.
func stopLoad(p *Plan, names []string, before, after map[string]int) (ws []string, faulted bool) {
	for _, n := range names {
		sp := fileSpec(p, n)
		if sp == nil {
			return ws, true
		}
		lim := len(sp.Data) + 1
		if after[n] != before[n] {
			lim = sp.ErrAt
			if sp.OpenErr != "" {
				lim = -1
			}
			all, k := stopLines(string(sp.Data), lim)
			return append(ws, all[:k]...), true
		}
		all, _ := stopLines(string(sp.Data), lim)
		ws = append(ws, all...)
	}
	return ws, false
}

// adoptStop finds the prefix of ws which, added to the set, explains is.
func adoptStop(set map[string]bool, ws []string, uni []string, is func(string) bool) (map[string]bool, string) {
	why := ""
	for k := len(ws); k >= 0; k-- {
		m := map[string]bool{}
		for w := range set {
			m[w] = true
		}
		for _, w := range ws[:k] {
			m[w] = true
		}
		d := stopDiff(m, uni, is)
		if d == "" {
			return m, ""
		}
		if why == "" {
			why = d
		}
	}
	return nil, why
}

func stopDiff(m map[string]bool, uni []string, is func(string) bool) string {
	for _, w := range uni {
		if is(w) != m[w] {
			return fmt.Sprintf("stop word query of %q gives %v, the set says %v", w, is(w), m[w])
		}
	}
	return ""
}

// stopUniverse: every line, its prefixes, and the defaults.
func stopUniverse(p *Plan) []string {
	u := universeOf(p)
	for _, f := range p.Files {
		for _, l := range strings.Split(string(f.Data), "\n") {
			u = append(u, l)
			for i := range l {
				if i < 40 {
					u = append(u, l[:i])
				}
			}
		}
	}
	for w := range defaultStops() {
		u = append(u, w)
	}
	u = append(u, " ", "，", "\n")
	return dedup(u)
}

func runC07(p *Plan, st *Stats) *Violation {
	c := p.Cfgs[0]
	op := p.Clients[0][0]
	isStop := p.Variant == "stop" || p.Variant == "swload" || p.Variant == "extstop"
	if !isStop && !wfPlan(p) {
		return nil
	}
	for _, s := range p.Setup {
		if s.K == "loadstr" {
			if _, wf := c.rows(s.s(0)); !wf {
				return nil
			}
		}
	}
	freshProcess(p)
	w := newWorld(p)
	in := w.inst[0]
	names := dictNames(op.s(0))
	if isStop {
		names = strings.Split(op.s(0), ", ")
	}
	streams := 0
	if op.K == "reader" {
		streams = 1
	}
	return inRun(st, p.Sched.Budget, "failing load", func() *Violation {
		tab := newTable(c)
		set := map[string]bool{}
		for _, o := range p.Setup {
			r := w.do(o)
			if r.Panic != "" {
				return viol("panic", "setup %s: panic: %s", opStr(o), r.Panic)
			}
			switch o.K {
			case "loadstoparr", "addstoparr":
				for _, s := range o.S {
					set[string(s)] = true
				}
			default:
				tab, _ = stepModel(w, tab, o, r.Out, nil, nil, nil)
			}
		}
		before := vos.Faults()
		r := w.do(op)
		if r.Panic != "" {
			return viol("panic", "%s: panic: %s", opStr(op), r.Panic)
		}
		after := vos.Faults()
		if n := vos.OpenHandles(); n > streams {
			return viol("handle", "%s left %d files open", opStr(op), n-streams)
		}
		faulted := false
		for _, n := range names {
			if fileSpec(p, n) == nil || after[n] != before[n] {
				faulted = true
				break
			}
		}
		if faulted {
			st.nontrivial()
			st.count("failed loads")
			if r.Out == "ok" {
				return viol("unreported", "%s met a fault and reported success (faults %v)", opStr(op), after)
			}
		} else if r.Out != "ok" {
			return viol("return", "%s met no fault and reported %q", opStr(op), r.Out)
		}
		obs := segObs(in.seg)
		uni := universeOf(p)
		var is func(string) bool
		switch p.Variant {
		case "stop":
			is = in.seg.IsStop
		case "swload":
			is, set = in.sw.IsStopWord, defaultStops()
		case "extstop":
			is, set = nil, defaultStops()
		case "idf":
			obs, tab = dictObs{find: in.idf.Freq, num: in.idf.NumTokens, total: in.idf.TotalFreq}, newTable(c)
		case "extidf":
			obs, tab = extObs(in), newTable(c)
		}
		base, base0 := tab.clone(), set
		// what was accepted before the fault is a prefix
		check := func(final bool) *Violation {
			if isStop {
				ws, _ := stopLoad(p, names, before, after)
				if final {
					ws, _ = stopLoad(p, names, nil, nil)
				}
				if is == nil {
					return nil
				}
				su := stopUniverse(p)
				if final {
					m := map[string]bool{}
					for k := range base0 {
						m[k] = true
					}
					for _, x := range ws {
						m[x] = true
					}
					if d := stopDiff(m, su, is); d != "" {
						return viol("retry", "after repeating the load without the fault: %s", d)
					}
					return nil
				}
				if m, why := adoptStop(base0, ws, su, is); m == nil {
					return viol("partial", "after the failed %s the stop words are no prefix of what the source holds: %s", opStr(op), why)
				}
				return nil
			}
			rs, _ := loadRows(p, c, names, before, after)
			if final {
				rs, _ = loadRows(p, c, names, nil, nil)
			}
			switch p.Variant {
			case "tag", "rank", "ext":
				return nil
			}
			if final {
				t := base.clone()
				t.addRows(rs)
				if d := t.diff(obs, uni); d != "" {
					return viol("retry", "after repeating the load without the fault: %s\n expected %s", d, t)
				}
				return nil
			}
			if t, why := base.adopt(rs, obs, uni); t == nil {
				return viol("partial", "after the failed %s the dictionary is no prefix of what the source holds: %s\n before: %s", opStr(op), why, base)
			}
			return nil
		}
		if v := check(!faulted); v != nil {
			return v
		}
		// still usable
		for _, x := range p.Texts {
			for _, q := range useOps(p.Variant) {
				q.S = []Str{x}
				if r := w.do(q); r.Panic != "" {
					return viol("panic", "after the failed load %s: panic: %s", opStr(q), r.Panic)
				}
			}
		}
		if !faulted {
			return nil
		}
		for _, n := range names {
			if fileSpec(p, n) == nil {
				return nil // it stays missing
			}
		}
		// repeating the load once the fault is gone
		vos.Heal()
		r = w.do(op)
		if r.String() != "ok" {
			return viol("retry", "repeating %s without the fault gives %s", opStr(op), r)
		}
		if n := vos.OpenHandles(); n > 2*streams {
			return viol("handle", "repeating %s left files open", opStr(op))
		}
		if v := check(true); v != nil {
			return v
		}
		// the same as if it had never failed
		tw := newWorld(p)
		for _, o := range p.Setup {
			tw.do(o)
		}
		tw.do(op)
		if op.K == "read" || op.K == "reader" {
			w.do(Op{K: "calc"})
			tw.do(Op{K: "calc"})
		}
		texts := p.Texts
		if len(base.ents)+len(uni) > 0 {
			x := ""
			for i, u := range uni {
				if i < 40 {
					x += u
				}
			}
			texts = append(append([]Str(nil), texts...), Str(x))
		}
		for _, x := range texts {
			for _, q := range useOps(p.Variant) {
				q.S = []Str{x}
				a, b := w.do(q), tw.do(q)
				st.count("retry comparisons")
				if a.String() != b.String() {
					return viol("retry", "after failing and repeating the load %s gives\n  %s\nif it had not failed\n  %s", opStr(q), a, b)
				}
			}
		}
		return nil
	})
}

// extObs observes the extracter's present IDF table.
func extObs(in *Inst) dictObs {
	return dictObs{
		find:  func(w string) (float64, string, bool) { return in.ext.Idf.Freq(w) },
		num:   func() int { return in.ext.Idf.NumTokens() },
		total: func() float64 { return in.ext.Idf.TotalFreq() },
	}
}

// useOps exercises what a load was for.
func useOps(variant string) []Op {
	switch variant {
	case "stop":
		return []Op{{K: "cutstop"}, {K: "cuttrim"}, {K: "isstop"}}
	case "swload":
		return []Op{{K: "swis"}}
	case "extstop":
		// the extracter needs tables to run
		return []Op{{K: "prepext"}, {K: "extract", N: 50}}
	case "idf":
		return []Op{{K: "idffreq"}, {K: "idfnum"}}
	case "extidf":
		return []Op{{K: "extfreq"}}
	case "tag":
		return []Op{{K: "tagcut"}, {K: "tagcut", N: 1}, {K: "tagcut", N: 1, B: true}}
	case "rank":
		return []Op{{K: "rank", N: 0}}
	case "ext":
		return []Op{{K: "prepidf"}, {K: "extract", N: 50}}
	}
	return []Op{{K: "segment"}, {K: "slice", B: true}, {K: "cuth"}, {K: "cuth", B: true}, {K: "pos", B: true}, {K: "cutall"}}
}
