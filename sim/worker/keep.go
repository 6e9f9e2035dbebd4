package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm"
	"github.com/go-ego/gse/hmm/segment"

	"verif.local/rt"
	"verif.local/rt/vos"
)

// C13: what a call returned stays as it was; what it was given is not changed.

func init() { scenarios["C13"] = Scenario{genC13, runC13} }

func genC13(r *Rng, p *Plan) {
	t := newTheme(r, r.p(3))
	t.up = r.p(2)
	c := genCfg(r, true)
	c.DefHMM = false
	if r.p(8) {
		c.Alpha = true
		t.up = false
	}
	p.Cfgs = []Cfg{c, c}
	p.Models = []Model{newModel(r), newModel(r)}
	conc := r.p(3)
	objs := r.p(3)
	p.Variant = "one after another"
	if conc {
		p.Variant = "held results re-read concurrently with edits"
	}
	if objs {
		p.Variant += ", all objects"
	}
	words := genDictFiles(r, t, p, c, r.between(1, 3), false)
	for i := range p.Files {
		p.Files[i].Chunks = nil
	}
	stops := vos.FileSpec{Name: "/s/0", Data: Str(t.word(r) + "\n，\n")}
	p.Files = append(p.Files, stops)
	es := t.entries(r, r.between(2, 10), false, false)
	words = dedup(append(words, wordsOf(es)...))
	p.Setup = []Op{{K: "loadmodel", N: 0}, {K: "loadstr", S: []Str{Str(render(es, string(c.Sep), "\n", true))}},
		{K: "loadstr", I: 1, S: []Str{Str(render(es, string(c.Sep), "\n", true))}}}
	if objs {
		p.Setup = append(p.Setup, Op{K: "tagwith"}, Op{K: "rankwith"}, Op{K: "extwith"}, Op{K: "prepidf"})
		if r.p(2) && c.Sep == "" {
			p.Setup = append(p.Setup, Op{K: "tagload", S: []Str{Str(p.Files[0].Name)}}, Op{K: "loadmodel", N: 0})
		}
	}
	edit := func(i int) Op {
		var o Op
		switch r.n(16) {
		case 0, 1, 2, 3, 4:
			o = genEdit(r, t, &words, true)
		case 5, 6:
			o = Op{K: "calc"}
		case 7:
			o = Op{K: "empty"}
		case 8:
			o = Op{K: "loaddict", S: []Str{Str(p.Files[r.n(len(p.Files)-1)].Name)}}
		case 9:
			o = Op{K: "loadstr", S: []Str{Str(render(t.entries(r, r.between(1, 5), false, false), string(c.Sep), "\n", true))}}
		case 10:
			o = Op{K: "loadmap", S: []Str{Str(t.word(r)), "5", "n", Str(t.word(r)), "64", ""}}
		case 11:
			o = Op{K: pickS(r, "loadstoparr", "addstoparr"), S: []Str{Str(t.word(r)), Str(words[r.n(len(words))])}}
		case 12:
			o = Op{K: "loadstop", S: []Str{"/s/0"}}
		case 13:
			o = Op{K: "emptystop"}
		case 14:
			o = Op{K: "addstop", S: []Str{Str(words[r.n(len(words))])}}
		default:
			o = Op{K: "newdict2"}
			if i == 0 && objs {
				o = pickS(r, Op{K: "tagwith"}, Op{K: "extidf", S: []Str{Str(p.Files[0].Name)}}, Op{K: "extadd", S: []Str{Str(t.word(r)), "n"}, F: 3}, Op{K: "extwith"}, Op{K: "rankwith"})
			}
		}
		o.I = i
		return o
	}
	query := func() Op {
		switch x := r.n(12); {
		case x == 0:
			return Op{K: "hmmmod", N: 1, S: []Str{Str(hanText(r, r.between(2, 10)))}}
		case x == 1:
			return Op{K: "tosl", S: []Str{Str(t.text(r, words, 10))}, B: r.p(2)}
		case x == 2:
			return Op{K: "joinw", S: []Str{Str(t.text(r, words, 10))}, B: r.p(2)}
		case x == 3:
			return Op{K: "cutstr", S: []Str{Str(t.text(r, words, 10))}}
		case x == 4:
			return Op{K: "splitw", S: []Str{Str(t.text(r, words, 10))}}
		case x < 7 && objs:
			return genTagQuery(r, t, words)
		}
		if r.p(60) {
			return spin(r, genQuery(r, t, words, true))
		}
		q := genQuery(r, t, words, true)
		if r.p(3) {
			q = Op{K: pickS(r, "segment", "mode", "split", "cut", "pos", "occs"), S: []Str{Str(t.text(r, words, 12))}, B: r.p(2)}
			if q.K == "occs" {
				q.S = append(q.S, Str(words[r.n(len(words))]), Str(t.word(r)))
			}
		}
		return q
	}
	if !conc {
		var ops []Op
		for k := r.between(3, pickS(r, 8, 16)); k > 0; k-- {
			if r.p(3) {
				ops = append(ops, edit(0))
			} else {
				ops = append(ops, query())
			}
		}
		p.Clients = [][]Op{ops}
		p.Sched = rt.Sched{Kind: "seq", Budget: histBudget}
		return
	}
	for k := r.between(2, 6); k > 0; k-- {
		p.Setup = append(p.Setup, query())
		if r.p(5) {
			p.Setup = append(p.Setup, edit(0))
		}
	}
	if r.p(2) {
		p.Variant = strings.Replace(p.Variant, "edits", "further calls", 1)
		for i := r.between(2, 3); i > 0; i-- {
			var o []Op
			for k := r.between(1, 4); k > 0; k-- {
				o = append(o, query())
			}
			p.Clients = append(p.Clients, o)
		}
		p.Sched = newSched(r, 30*defBudget)
		return
	}
	var ed []Op
	for k := r.between(1, 5); k > 0; k-- {
		ed = append(ed, edit(0))
	}
	p.Clients = [][]Op{ed}
	for k := r.between(1, 3); k > 0; k-- {
		p.Clients = append(p.Clients, []Op{{K: "reread", N: r.between(1, 3)}})
	}
	if r.p(2) {
		// queries and edits on another segmenter meanwhile
		var o []Op
		for k := r.between(1, 4); k > 0; k-- {
			q := genQuery(r, t, words, true)
			if r.p(4) {
				q = edit(1)
			}
			q.I = 1
			o = append(o, q)
		}
		p.Clients = append(p.Clients, o)
	}
	p.Sched = newSched(r, 30*defBudget)
}

// held is something a call returned.
type held struct {
	what, was string
	now       func() string
}

type keeper struct {
	w     *World
	held  []held
	bad   *Violation
	op    Op
	after []func()
}

const scrib = "\x01scribbled"

// hold keeps a result.
func (k *keeper) hold(now func() string) {
	was := strings.Clone(now())
	observe(was)
	if len(k.held) > 60 {
		k.held = append(k.held[:0:0], k.held[20:]...)
	}
	k.held = append(k.held, held{opStr(k.op), was, now})
}

// look compares everything held with what it was.
func (k *keeper) look(when string) *Violation {
	for i := range k.held {
		h := &k.held[i]
		if x := h.now(); x != h.was {
			return viol("changed", "%s, what %s had returned has changed from\n  %s\nto\n  %s", when, h.what, clipS(h.was, 1500), clipS(x, 1500))
		}
	}
	return nil
}

func (k *keeper) argChanged(was, is string) {
	if k.bad == nil {
		k.bad = viol("argument", "%s changed what it was given from\n  %s\nto\n  %s", opStr(k.op), clipS(was, 1500), clipS(is, 1500))
	}
}

// str is a string argument of its own.
func (k *keeper) str(i int) string {
	s := strings.Clone(k.op.s(i))
	k.after = append(k.after, func() {
		if s != k.op.s(i) {
			k.argChanged(fmt.Sprintf("%q", k.op.s(i)), fmt.Sprintf("%q", s))
		}
	})
	return s
}

// bytes is a buffer the caller will use again.
func (k *keeper) bytes(s string) []byte {
	full := make([]byte, len(s)+9)
	copy(full, s)
	for i := len(s); i < len(full); i++ {
		full[i] = 'Z'
	}
	was := string(full)
	k.after = append(k.after, func() {
		if string(full) != was {
			k.argChanged(fmt.Sprintf("%q", was), fmt.Sprintf("%q", full))
		}
		for i := range full {
			full[i] = "#Q9 "[i%4]
		}
	})
	return full[:len(s)]
}

func (k *keeper) strs(s []string) []string {
	full := make([]string, len(s)+4)
	copy(full, s)
	for i := len(s); i < len(full); i++ {
		full[i] = "beyond"
	}
	was := append([]string(nil), full...)
	k.after = append(k.after, func() {
		if sl(full) != sl(was) {
			k.argChanged(sl(was), sl(full))
		}
		for i := range full {
			full[i] = scrib
		}
	})
	return full[:len(s)]
}

func (k *keeper) poss(s []gse.SegPos) []gse.SegPos {
	full := make([]gse.SegPos, len(s)+4)
	copy(full, s)
	for i := len(s); i < len(full); i++ {
		full[i] = gse.SegPos{Text: "beyond", Pos: "n"}
	}
	was := posl(full)
	k.after = append(k.after, func() {
		if posl(full) != was {
			k.argChanged(was, posl(full))
		}
		for i := range full {
			full[i] = gse.SegPos{Text: scrib, Pos: scrib}
		}
	})
	return full[:len(s)]
}

func (k *keeper) maps(m []map[rune]float64) []map[rune]float64 {
	was := fmt.Sprint(m)
	k.after = append(k.after, func() {
		if x := fmt.Sprint(m); x != was {
			k.argChanged(was, x)
		}
	})
	return m
}

// flat renders segments without what their tokens are divided into, which
// CalcToken is there to compute again.
func flat(s []gse.Segment) string {
	var b strings.Builder
	for i := range s {
		t := s[i].Token()
		fmt.Fprintf(&b, "[%d,%d)%q/%s/%q ", s[i].Start(), s[i].End(), t.Text(), fl(t.Freq()), t.Pos())
	}
	return b.String()
}

func (k *keeper) hs(l []string)            { k.hold(func() string { return sl(l) }) }
func (k *keeper) hp(l []gse.SegPos)        { k.hold(func() string { return posl(l) }) }
func (k *keeper) ht(l segment.Segments)    { k.hold(func() string { return tags(l) }) }
func (k *keeper) h1(s string)              { k.hold(func() string { return s }) }
func (k *keeper) htx(l []gse.Text)         { k.hold(func() string { return fmt.Sprintf("%q", l) }) }
func (k *keeper) haz(l []gse.AnalyzeToken) { k.hold(func() string { return fmt.Sprintf("%+v", l) }) }

// hseg keeps segments, and the lists of parts that their tokens return now.
func (k *keeper) hseg(l []gse.Segment) {
	k.hold(func() string { return flat(l) })
	var subs [][]*gse.Segment
	add := func(g *gse.Segment) {
		if s := g.Token().Segments(); len(s) > 0 && len(subs) < 12 {
			subs = append(subs, s)
		}
	}
	for i := range l {
		add(&l[i])
	}
	for i := 0; i < len(subs) && i < 4; i++ {
		for _, g := range subs[i] {
			add(g)
		}
	}
	if len(subs) > 0 {
		k.hold(func() string {
			var b strings.Builder
			for _, s := range subs {
				b.WriteString("(")
				for _, g := range s {
					t := g.Token()
					fmt.Fprintf(&b, "[%d,%d)%q/%s/%q ", g.Start(), g.End(), t.Text(), fl(t.Freq()), t.Pos())
				}
				b.WriteString(")")
			}
			return b.String()
		})
	}
}

// call executes op, keeps what it returns, and checks and then overwrites
// what it was given.
func (k *keeper) call(op Op) *Violation {
	k.op, k.after, k.bad = op, nil, nil
	if p := k.exec(op); p != "" {
		return viol("panic", "%s: panic: %s", opStr(op), p)
	}
	for _, f := range k.after {
		f()
	}
	return k.bad
}

func (k *keeper) exec(op Op) (pan string) {
	in := k.w.inst[op.I]
	s := in.seg
	defer func() {
		if e := recover(); e != nil {
			if ob, ok := e.(rt.OverBudget); ok {
				panic(ob)
			}
			pan = fmt.Sprint(e)
		}
	}()
	hm := []bool{op.B}
	if op.N == 0 {
		hm = nil
	}
	tag := func() string { return posPool[op.N%len(posPool)] }
	rest := func() []string { return k.strs(ss(op.S[1:])) }
	all := func() []string { return k.strs(ss(op.S)) }
	switch op.K {
	case "segment":
		g := s.Segment(k.bytes(op.s(0)))
		k.hseg(g)
	case "mode":
		g := s.ModeSegment(k.bytes(op.s(0)), op.B)
		k.hseg(g)
	case "tosl":
		g := s.Segment(k.bytes(op.s(0)))
		c := append(make([]gse.Segment, 0, len(g)+3), g...)
		w := flat(c)
		k.hs(gse.ToSlice(c, op.B))
		k.hp(gse.ToPos(c, op.B))
		k.h1(gse.ToString(c, op.B))
		if x := flat(c); x != w {
			k.argChanged(w, x)
		}
		for i := range c {
			c[i] = gse.Segment{}
		}
		k.hseg(g)
	case "cut":
		k.hs(s.Cut(k.str(0)))
	case "cuth":
		k.hs(s.Cut(k.str(0), op.B))
	case "slice":
		k.hs(s.Slice(k.str(0), op.B))
	case "string":
		k.h1(s.String(k.str(0), op.B))
	case "pos":
		k.hp(s.Pos(k.str(0), op.B))
	case "cutall":
		k.hs(s.CutAll(k.str(0)))
	case "cutsearch":
		k.hs(s.CutSearch(k.str(0), hm...))
	case "cutdag":
		k.hs(s.CutDAG(k.str(0), append(make([]*regexp.Regexp, 0, 4), userRegs[:op.N%3]...)...))
	case "cutdagn":
		k.hs(s.CutDAGNoHMM(k.str(0)))
	case "hmmcut":
		k.hs(s.HMMCut(k.str(0)))
	case "hmmraw":
		k.hs(hmm.Cut(k.str(0)))
	case "hmmmod":
		k.hs(s.HMMCutMod(k.str(0), k.maps(k.w.model(op.N))...))
	case "loadmodel":
		s.LoadModel(k.maps(k.w.model(op.N))...)
	case "find":
		_, p, _ := s.Find(k.str(0))
		k.h1(p)
	case "analyze":
		c := k.strs(s.Cut(op.s(0)))
		if op.N == 1 {
			k.haz(s.Analyze(c, k.str(0), op.B))
		} else {
			k.haz(s.Analyze(c, ""))
		}
	case "suggest":
		s.SuggestFreq(all()...)
	case "stop":
		k.hs(s.Stop(all()))
	case "trim":
		k.hs(s.Trim(all()))
	case "trimpunct":
		k.hs(s.TrimPunct(all()))
	case "trimsymbol":
		k.hs(s.TrimSymbol(all()))
	case "trimpos":
		k.hp(s.TrimPos(k.poss(posArgs(op.S))))
	case "trimpospunct":
		k.hp(s.TrimPosPunct(k.poss(posArgs(op.S))))
	case "trimwithpos":
		k.hp(s.TrimWithPos(k.poss(posArgs(op.S)), k.strs([]string{tag(), "v"})...))
	case "cutstop":
		k.hs(s.CutStop(k.str(0), hm...))
	case "cuttrim":
		k.hs(s.CutTrim(k.str(0), hm...))
	case "postrim":
		k.hp(s.PosTrim(k.str(0), op.B, k.strs([]string{tag()})...))
	case "postrimarr":
		k.hs(s.PosTrimArr(k.str(0), op.B, k.strs([]string{tag()})...))
	case "postrimstr":
		k.h1(s.PosTrimStr(k.str(0), op.B, k.strs([]string{tag()})...))
	case "posstr":
		k.h1(s.PosStr(k.poss(s.Pos(op.s(0), op.B)), k.strs([]string{"|"})...))
	case "cutstr":
		k.h1(s.CutStr(k.strs(s.Cut(op.s(0))), k.strs([]string{"|"})...))
	case "cuttrimhtml":
		k.hs(s.CutTrimHtml(k.str(0)))
	case "cuttrimhtmls":
		k.h1(s.CutTrimHtmls(k.str(0)))
	case "cuturl":
		k.hs(s.CutUrl(k.str(0)))
	case "cuturls":
		k.h1(s.CutUrls(k.str(0)))
	case "split":
		k.htx(s.SplitTextToWords(k.bytes(op.s(0))))
	case "splitw":
		k.htx(gse.SplitWords(k.bytes(op.s(0))))
		k.hs(gse.SplitNum(k.str(0)))
		k.hs(gse.Range(k.str(0)))
	case "joinw":
		var tx []gse.Text
		for _, x := range gse.SplitWords(gse.Text(op.s(0))) {
			tx = append(tx, k.bytes(string(x)))
		}
		k.h1(gse.Join(tx))
	case "occs":
		o := gse.FindAllOccs(k.bytes(op.s(0)), rest())
		k.hold(func() string {
			var ks []string
			for x := range o {
				ks = append(ks, fmt.Sprintf("%q:%v", x, o[x]))
			}
			sort.Strings(ks)
			return strings.Join(ks, ",")
		})
	case "tagcut":
		k.hp(in.tag.Cut(k.str(0), hm...))
	case "tagtrim":
		k.hp(in.tag.Trim(k.poss(in.tag.Cut(op.s(0), op.B))))
	case "tagpunct":
		k.hp(in.tag.TrimPunct(k.poss(in.tag.Cut(op.s(0), op.B))))
	case "tagpos":
		k.hp(in.tag.TrimWithPos(k.poss(in.tag.Cut(op.s(0), op.B)), k.strs([]string{tag()})...))
	case "extract":
		k.ht(in.ext.ExtractTags(k.str(0), op.N))
	case "extfreq":
		_, p, _ := in.ext.Idf.Freq(k.str(0))
		k.h1(p)
	case "rank":
		k.ht(in.rank.TextRank(k.str(0), op.N))
	case "rankpos":
		k.ht(in.rank.TextRankWithPOS(k.str(0), op.N, rest()))
	case "add":
		s.AddToken(k.str(0), op.F, k.strs([]string{op.s(1)})...)
	case "addforce":
		s.AddTokenForce(k.str(0), op.F, k.strs([]string{op.s(1)})...)
	case "readd":
		s.ReAddToken(k.str(0), op.F, k.strs([]string{op.s(1)})...)
	case "loadstoparr", "addstoparr", "loadmap":
		var scribble func()
		switch op.K {
		case "loadmap":
			m := mapArgs(op.S)
			was := fmt.Sprint(m)
			s.LoadDictMap(m)
			if x := fmt.Sprint(m); x != was {
				k.argChanged(was, x)
			}
			scribble = func() {
				for i := range m {
					m[i]["text"], m[i]["freq"], m[i]["pos"] = scrib, "9", scrib
					m[i] = nil
				}
			}
		case "loadstoparr":
			l := all()
			s.LoadStopArr(l)
			scribble = func() {}
		default:
			l := all()
			s.AddStopArr(l...)
			scribble = func() {}
		}
		d := dump(s)
		for _, f := range k.after {
			f()
		}
		k.after = nil
		scribble()
		if x := dump(s); x != d && k.bad == nil {
			k.bad = viol("alias", "after %s returned, changing what it was given changed the segmenter from\n  %s\nto\n  %s", opStr(op), clipS(d, 1500), clipS(x, 1500))
		}
	default:
		r := k.w.do(op)
		return r.Panic
	}
	return ""
}

func runC13(p *Plan, st *Stats) *Violation {
	freshProcess(p)
	w := newWorld(p)
	k := &keeper{w: w}
	steps := func(ops []Op, what string) *Violation {
		for i, op := range ops {
			n := len(k.held)
			if v := k.call(op); v != nil {
				return v
			}
			if n > 0 {
				st.nontrivial()
			}
			if v := k.look(fmt.Sprintf("after %s %d %s", what, i, opStr(op))); v != nil {
				return v
			}
			st.count("held results looked at again")
		}
		return nil
	}
	if v := inRun(st, histBudget, "history", func() *Violation {
		if v := steps(p.Setup, "setup operation"); v != nil {
			return v
		}
		if len(p.Clients) == 1 {
			return steps(p.Clients[0], "operation")
		}
		return nil
	}); v != nil || len(p.Clients) == 1 {
		return v
	}
	vs := make([]*Violation, len(p.Clients))
	var fns []func()
	ks := []*keeper{k}
	calls := strings.Contains(p.Variant, "further calls")
	for i := range p.Clients {
		i := i
		mine := &keeper{w: w, held: append([]held(nil), k.held...)}
		ks = append(ks, mine)
		fns = append(fns, func() {
			for _, op := range p.Clients[i] {
				if op.K == "reread" {
					for n := 0; n < op.N; n++ {
						for h := range mine.held {
							if x := mine.held[h].now(); x != mine.held[h].was && vs[i] == nil {
								vs[i] = viol("changed", "while other clients edited, what %s had returned changed from\n  %s\nto\n  %s", mine.held[h].what, clipS(mine.held[h].was, 1500), clipS(x, 1500))
							}
							rt.Yield()
						}
					}
					continue
				}
				if calls {
					v := mine.call(op)
					if v == nil {
						v = mine.look("after " + opStr(op) + ", while other clients called")
					}
					if v != nil && vs[i] == nil {
						vs[i] = v
					}
					continue
				}
				if r := w.do(op); r.Panic != "" && vs[i] == nil {
					vs[i] = viol("panic", "client %d %s: panic: %s", i, opStr(op), r.Panic)
				}
			}
		})
	}
	o := rt.Run(p.Sched, fns)
	st.run(o)
	for _, v := range vs {
		if v != nil {
			return v
		}
	}
	if v := outcomeViol(o, "held results and edits"); v != nil {
		return v
	}
	st.count("concurrent phases")
	for _, m := range ks {
		if v := m.look("after the concurrent operations"); v != nil {
			return v
		}
	}
	return nil
}
