package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"github.com/go-ego/gse/hmm"

	"verif.local/rt"
	"verif.local/rt/vos"
)

// C03: independent instances. C04: the HMM model as a register.

func init() {
	scenarios["C03"] = Scenario{genC03, runC03}
	scenarios["C04"] = Scenario{genC04, runC04}
}

// ---- C03

func genC03(r *Rng, p *Plan) {
	t := newTheme(r, false)
	n := r.between(2, pickS(r, 2, 3, 4))
	objs := r.p(5) // also taggers, extracters, rankers, whose loads load the default model
	p.Variant = "segmenters"
	if objs {
		p.Variant = "all objects"
	}
	for i := 0; i < n; i++ {
		c := genCfg(r, true)
		c.DefHMM = objs && r.p(2)
		if r.p(8) {
			c.Alpha = true
		}
		if i > 0 && r.p(2) {
			c = p.Cfgs[r.n(i)] // the same options
		}
		p.Cfgs = append(p.Cfgs, c)
	}
	var common []int // files that several instances may load
	if objs {
		p.Setup = []Op{{K: "loadmodel", N: -1}}
	} else {
		p.Models = []Model{newModel(r)}
		p.Setup = []Op{{K: "loadmodel", N: 0}}
	}
	shared := t.word(r)
	stall := -1
	if r.p(3) {
		stall = r.n(n)
		p.Variant += ", slow stream"
	}
	for i := 0; i < n; i++ {
		c := p.Cfgs[i]
		words := []string{shared}
		file := func(es []Ent) Str {
			f := vos.FileSpec{Name: fmt.Sprintf("/d/%d.%d", i, len(p.Files)), Data: Str(render(es, string(c.Sep), "\n", !r.p(4)))}
			newDelivery(r, &f)
			if r.p(10) {
				genFault(r, &f)
				f.OpenTimes, f.ErrTimes = 0, 0
				if f.ErrKind == "NOPROGRESS" {
					f.ErrKind = "EIO"
				}
			}
			if stall == i && r.p(2) {
				f.StallAt = 1 + r.n(len(f.Data)+1)
			} else {
				common = append(common, len(p.Files))
			}
			p.Files = append(p.Files, f)
			return Str(f.Name)
		}
		dict := func(max int) Str {
			if len(common) > 0 && r.p(3) {
				f := p.Files[common[r.n(len(common))]]
				for _, l := range strings.Split(string(f.Data), "\n") {
					if w := strings.Split(l, string(c.Sep)+" ")[0]; w != "" {
						words = append(words, w)
					}
				}
				return Str(f.Name)
			}
			es := t.entries(r, r.between(0, max), c.LoadNoFreq, true)
			if len(es) > 0 && r.p(2) {
				es[0].W = shared
			}
			words = append(words, wordsOf(es)...)
			return file(es)
		}
		plain := func(max int) Str {
			// for objects with the default options
			save := c
			c = Cfg{}
			f := dict(max)
			c = save
			return f
		}
		stops := func() Str {
			var l []string
			for k := r.n(5); k >= 0; k-- {
				l = append(l, pickS(r, t.word(r), words[r.n(len(words))], "，", " "))
			}
			f := vos.FileSpec{Name: fmt.Sprintf("/s/%d.%d", i, len(p.Files)), Data: Str(strings.Join(l, "\n") + "\n")}
			newDelivery(r, &f)
			if stall == i && r.p(3) {
				f.StallAt = 1 + r.n(len(f.Data)+1)
			}
			p.Files = append(p.Files, f)
			return Str(f.Name)
		}
		var ops []Op
		op := func(k string, s ...Str) *Op {
			ops = append(ops, Op{K: k, S: s})
			return &ops[len(ops)-1]
		}
		if !r.p(5) {
			op("loaddict", dict(9))
		}
		for k := r.between(2, pickS(r, 5, 12)); k > 0; k-- {
			x := r.n(30)
			if objs {
				x = r.n(48)
			}
			switch {
			case x < 8:
				ops = append(ops, genQuery(r, t, words, true))
			case x < 13:
				ops = append(ops, genEdit(r, t, &words, true))
			case x == 13:
				op(pickS(r, "loaddict", "read", "loaddict"), dict(6))
			case x == 14:
				op("reader", dict(5)).N = r.between(16, 100)
			case x == 15:
				op("loadstr", Str(render(t.entries(r, r.between(1, 5), false, true), string(c.Sep), "\n", true)))
			case x == 16:
				op("calc")
			case x == 17:
				if r.p(2) {
					op("hold")
				}
				op("empty")
			case x == 18, x == 19:
				op("loadstop", stops())
			case x == 20:
				op("loadstopstr", Str(t.word(r)+"\n"+words[r.n(len(words))]+"\n"))
			case x == 21, x == 22:
				op("addstop", Str(pickS(r, words[r.n(len(words))], t.word(r), " ")))
			case x == 23:
				op("rmstop", Str(pickS(r, words[r.n(len(words))], " ", "the")))
			case x == 24:
				op("emptystop")
			case x == 25:
				op(pickS(r, "loadstoparr", "addstoparr"), Str(t.word(r)), Str(words[r.n(len(words))]))
			case x == 26:
				op("renew")
			case x == 27:
				op("newdict2")
			case x == 28:
				op("loadmap", Str(t.word(r)), "7.5", "n")
			case x == 29:
				op("readd", Str(words[r.n(len(words))]), "v").F = 64
			case x == 30, x == 31:
				op("idfload", plain(6))
			case x == 32:
				op("idfadd", Str(t.word(r)), "n").F = 3
			case x == 33:
				op("idffreq", Str(words[r.n(len(words))]))
			case x == 34:
				op("swload", stops())
			case x == 35:
				op(pickS(r, "swadd", "swrm"), Str(pickS(r, t.word(r), words[r.n(len(words))], "the", "of")))
			case x == 36:
				op("swis", Str(pickS(r, words[r.n(len(words))], "the", "of")))
			case x == 37:
				op("tagload", plain(6))
			case x == 38:
				op("tagwith")
			case x == 39:
				op("tagcut", Str(t.text(r, words, 8))).N = r.n(2)
			case x == 40:
				op("prepext")
				op("extract", Str(t.text(r, words, 8))).N = 9
			case x == 41:
				op("extstop", stops())
				op("prepidf")
				op("extwith")
				op("extract", Str(t.text(r, words, 8)+" the of "+string(words[0]))).N = 9
			case x == 42:
				op("rankload", plain(6))
			case x == 43:
				op("rankwith")
			case x == 44:
				op("rank", Str(t.text(r, words, 8))).N = r.n(4)
			case x == 45:
				op("new", plain(5))
			case x == 46:
				op("extload", plain(5))
			default:
				op("extidf", plain(5))
			}
		}
		if r.p(2) {
			// another owner of the dictionary after the segmenter let go of it
			op("held", Str(t.text(r, words, 6)))
		}
		for k := range ops {
			ops[k].I = i
		}
		p.Clients = append(p.Clients, ops)
	}
	p.Sched = newSched(r, 30*defBudget)
}

// instState is everything that can be seen of an instance.
func instState(in *Inst, words []string) string {
	s := dump(in.seg) + "\n"
	for _, w := range words {
		f, p, ok := in.idf.Freq(w)
		s += fmt.Sprint(fl(f), p, ok, in.sw.IsStopWord(w))
		if in.ext.Idf != nil {
			f, p, ok := in.ext.Idf.Freq(w)
			s += fmt.Sprint(fl(f), p, ok)
		}
		s += ";"
	}
	return s
}

func runC03(p *Plan, st *Stats) *Violation {
	words := universeOf(p)
	if len(words) > 60 {
		words = words[:60]
	}
	words = append(words, "the", "of", "or", " ")
	freshProcess(p)
	w := newWorld(p)
	if v := setupWorld(w, "setup"); v != nil {
		return v
	}
	res := make([][]Res, len(p.Clients))
	var fns []func()
	for i := range p.Clients {
		i := i
		res[i] = make([]Res, len(p.Clients[i]))
		fns = append(fns, func() {
			for k, op := range p.Clients[i] {
				res[i][k] = w.do(op)
			}
		})
	}
	o := rt.Run(p.Sched, fns)
	st.run(o)
	if v := outcomeViol(o, "independent instances"); v != nil {
		return v
	}
	if m := o.StallMask & (1<<uint(len(p.Clients)) - 1); m != 0 {
		return viol("waits", "clients with their own instances had to wait for another one's stalled stream (tasks %b)", m)
	}
	states := make([]string, len(w.inst))
	for i := range w.inst {
		states[i] = instState(w.inst[i], words)
	}
	// every client alone
	for i := range p.Clients {
		freshProcess(p)
		tw := newWorld(p)
		if v := setupWorld(tw, "twin setup"); v != nil {
			return v
		}
		want := make([]Res, len(p.Clients[i]))
		oo := solo(p.Sched.Budget, func() {
			for k, op := range p.Clients[i] {
				want[k] = tw.do(op)
			}
		})
		if v := outcomeViol(oo, fmt.Sprintf("client %d alone", i)); v != nil {
			return v
		}
		for k, op := range p.Clients[i] {
			if a, b := res[i][k].String(), want[k].String(); a != b {
				return viol("influence", "client %d call %d %s on its own instance returned\n  %s\nwithout the other instances it returns\n  %s", i, k, opStr(op), clipS(a, 1500), clipS(b, 1500))
			}
			if want[k].Panic != "" {
				return viol("panic", "client %d call %d %s: panic: %s", i, k, opStr(op), want[k].Panic)
			}
		}
		if a, b := states[i], instState(tw.inst[i], words); a != b {
			return viol("influence", "at the end instance %d is\n  %s\nwithout the other instances it is\n  %s", i, clipS(a, 1500), clipS(b, 1500))
		}
		// the untouched ones stay as created
		for j := range tw.inst {
			if j != i && tw.inst[j].seg.Dict != nil {
				return viol("influence", "instance %d got a dictionary from operations on instance %d", j, i)
			}
		}
	}
	return nil
}

// ---- C04

const (
	mInitial = -2 // nothing loaded yet
	mDefault = -1
)

func genC04(r *Rng, p *Plan) {
	nm := r.between(2, 4)
	for i := 0; i < nm; i++ {
		m := newModel(r)
		if i > 0 && r.p(4) {
			// differs from an earlier model in some parts only
			o := p.Models[r.n(i)]
			switch r.n(4) {
			case 0:
				m.B = o.B
			case 1:
				m.B, m.E = o.B, o.E
			case 2:
				m.B, m.E, m.M = o.B, o.E, o.M
			default:
				m.S, m.M = o.S, o.M
			}
		}
		p.Models = append(p.Models, m)
	}
	def := r.p(6)
	p.Variant = "own models"
	if def {
		p.Variant = "own and default models"
	}
	nc := r.between(2, 4)
	long := r.p(4) // fewer clients, longer histories
	if long {
		nc = r.between(1, 2)
		p.Variant += ", long histories"
	}
	var runs []string
	for i := r.between(1, 3); i > 0; i-- {
		runs = append(runs, hanText(r, r.between(2, pickS(r, 4, 8, 14))))
	}
	text := func() Str {
		s := ""
		if r.p(6) {
			s = "go"
		}
		s += runs[r.n(len(runs))]
		for k := r.n(3); k > 0 && r.p(2); k-- {
			s += pickS(r, "12", "，", " ", "x y", "3.5") + runs[r.n(len(runs))]
		}
		if r.p(6) {
			s += "42"
		}
		return Str(s)
	}
	model := func() int {
		if def && r.p(3) {
			return mDefault
		}
		return r.n(nm)
	}
	if !r.p(4) {
		p.Setup = append(p.Setup, Op{K: "loadmodel", N: model()})
	}
	p.Files = []vos.FileSpec{{Name: "/d/a", Data: "word 5 n\n"}}
	if r.p(3) {
		p.Files[0].StallAt = 1 + r.n(9)
	}
	// one instance per client, loading a dictionary
	for i := 0; i < nc; i++ {
		c := Cfg{DefHMM: def && r.p(2)}
		p.Cfgs = append(p.Cfgs, c)
	}
	wr := 0
	for i := 0; i < nc; i++ {
		var ops []Op
		k := r.between(1, 5)
		if long {
			k = r.between(5, 12)
		}
		for ; k > 0; k-- {
			x := r.n(12)
			if i == 0 && wr == 0 {
				x = 0
			}
			switch {
			case x < 3:
				ops = append(ops, Op{K: "loadmodel", N: model(), I: i})
				wr++
			case x == 3 || x > 9:
				ops = append(ops, Op{K: "hmmmod", S: []Str{text()}, N: model(), I: i})
				wr++
			case x == 4 && p.Cfgs[i].DefHMM:
				ops = append(ops, Op{K: "loaddict", S: []Str{"/d/a"}, I: i})
				wr++
			case x == 5:
				ops = append(ops, Op{K: "cuth", S: []Str{text()}, B: true, I: i})
			case x == 6:
				ops = append(ops, Op{K: "hmmraw", S: []Str{text()}, I: i})
			default:
				ops = append(ops, Op{K: "hmmcut", S: []Str{text()}, I: i})
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	for _, x := range runs {
		p.Texts = append(p.Texts, Str(x))
	}
	p.Sched = newSched(r, 10*defBudget)
}

// unlist parses a %q list.
func unlist(s string) []string {
	var r []string
	s = strings.TrimSuffix(strings.TrimPrefix(s, "["), "]")
	for s != "" {
		q, err := strconv.QuotedPrefix(s)
		if err != nil {
			return nil
		}
		x, _ := strconv.Unquote(q)
		r = append(r, x)
		s = strings.TrimPrefix(s[len(q):], " ")
	}
	return r
}

// hanRuns splits a text into its maximal runs of Han characters and the rest.
func hanRuns(s string) (parts []string, han []bool) {
	start, cur := 0, false
	for i, c := range s {
		h := unicode.Is(unicode.Han, c)
		if i > 0 && h != cur {
			parts, han = append(parts, s[start:i]), append(han, cur)
			start = i
		}
		cur = h
	}
	if start < len(s) {
		parts, han = append(parts, s[start:]), append(han, cur)
	}
	return
}

// hanReads splits what a cut of text returned into what it returned for each
// Han run.
func hanReads(text string, toks []string) (runs []string, got [][]string, err string) {
	if strings.Join(toks, "") != text {
		return nil, nil, "the words do not spell the text"
	}
	parts, han := hanRuns(text)
	k := 0
	for i, part := range parts {
		n := 0
		var ts []string
		for n < len(part) {
			if k >= len(toks) {
				return nil, nil, "words missing"
			}
			ts = append(ts, toks[k])
			n += len(toks[k])
			k++
		}
		if n > len(part) {
			return nil, nil, fmt.Sprintf("the word %q crosses the end of %q", toks[k-1], part)
		}
		if han[i] {
			runs = append(runs, part)
			got = append(got, ts)
		}
	}
	return
}

// regEvent is one read or write of the model register.
type regEvent struct {
	inv, ret uint64
	write    bool
	optional bool
	val      int    // write
	ok       uint64 // read: models (shifted by 2) it agrees with
	what     string
}

// linearizable searches an order of the clients' events.
func linearizable(seqs [][]regEvent, init int, st *Stats) (bool, string) {
	type key struct {
		pos string
		val int
	}
	seen := map[key]bool{}
	pos := make([]byte, len(seqs))
	best, bestAt := 0, ""
	var dfs func(val int) bool
	dfs = func(val int) bool {
		k := key{string(pos), val}
		if seen[k] {
			return false
		}
		seen[k] = true
		done, total := 0, 0
		minRet := ^uint64(0)
		for c := range seqs {
			total += len(seqs[c])
			done += int(pos[c])
			if int(pos[c]) < len(seqs[c]) {
				if e := seqs[c][pos[c]]; e.ret < minRet {
					minRet = e.ret
				}
			}
		}
		if done == total {
			return true
		}
		if done >= best {
			best = done
			bestAt = fmt.Sprintf("model %d, next:", val)
			for c := range seqs {
				if int(pos[c]) < len(seqs[c]) {
					bestAt += fmt.Sprintf("\n  client %d %s", c, seqs[c][pos[c]].what)
				}
			}
		}
		for c := range seqs {
			if int(pos[c]) >= len(seqs[c]) {
				continue
			}
			e := seqs[c][pos[c]]
			if e.inv > minRet {
				continue
			}
			v := val
			if e.write {
				v = e.val
			} else if e.ok&(1<<uint(val+2)) == 0 {
				continue
			}
			pos[c]++
			if dfs(v) {
				return true
			}
			if e.optional && dfs(val) {
				return true
			}
			pos[c]--
		}
		return false
	}
	ok := dfs(init)
	st.Counts["linearization states"] += uint64(len(seen))
	return ok, bestAt
}

func runC04(p *Plan, st *Stats) *Violation {
	freshProcess(p)
	w := newWorld(p)
	if v := setupWorld(w, "setup"); v != nil {
		return v
	}
	init := mInitial
	for _, op := range p.Setup {
		if op.K == "loadmodel" {
			init = op.N
		}
	}
	res := make([][]Res, len(p.Clients))
	var fns []func()
	for i := range p.Clients {
		i := i
		res[i] = make([]Res, len(p.Clients[i]))
		fns = append(fns, func() {
			for k, op := range p.Clients[i] {
				res[i][k] = w.do(op)
			}
		})
	}
	o := rt.Run(p.Sched, fns)
	st.run(o)
	if v := outcomeViol(o, "model loads and cuts"); v != nil {
		return v
	}
	if m := o.StallMask & (1<<uint(len(p.Clients)) - 1); m != 0 {
		return viol("waits", "clients were blocked by another one's stalled dictionary stream (tasks %b)", m)
	}
	// after everything has ended
	var last []Op
	for i := 0; i < 2; i++ {
		for _, t := range p.Texts {
			last = append(last, Op{K: "hmmcut", S: []Str{t}})
		}
	}
	lastRes := make([]Res, len(last))
	oo := solo(p.Sched.Budget, func() {
		for i := range last {
			lastRes[i] = w.do(last[i])
		}
	})
	if v := outcomeViol(oo, "cuts at the end"); v != nil {
		return v
	}
	for i := range lastRes {
		lastRes[i].Inv, lastRes[i].Ret = o.Steps+uint64(2*i)+10, o.Steps+uint64(2*i)+11
	}
	clients := append(append([][]Op(nil), p.Clients...), last)
	res = append(res, lastRes)

	// what each model makes of each run
	type rd struct {
		e    *regEvent
		run  string
		toks string
	}
	var reads []rd
	texts := map[string]bool{}
	seqs := make([][]regEvent, len(clients))
	for c := range clients {
		for k, op := range clients[c] {
			r := res[c][k]
			if r.Panic != "" {
				return viol("panic", "client %d %s: panic: %s", c, opStr(op), r.Panic)
			}
			what := fmt.Sprintf("%s = %s", opStr(op), clipS(r.Out, 300))
			switch op.K {
			case "loadmodel":
				seqs[c] = append(seqs[c], regEvent{inv: r.Inv, ret: r.Ret, write: true, val: op.N, what: what})
			case "loaddict":
				if p.Cfgs[op.I].DefHMM {
					first := true
					for _, o2 := range clients[c][:k] {
						if o2.K == "loaddict" {
							first = false
						}
					}
					seqs[c] = append(seqs[c], regEvent{inv: r.Inv, ret: r.Ret, write: true, val: mDefault, optional: !first, what: what})
				}
			case "hmmmod":
				seqs[c] = append(seqs[c], regEvent{inv: r.Inv, ret: r.Ret, write: true, val: op.N, what: what})
				fallthrough
			case "hmmcut", "hmmraw", "cuth":
				runs, got, err := hanReads(op.s(0), unlist(r.Out))
				if err != "" {
					return viol("torn", "client %d %s: %s", c, what, err)
				}
				for i := range runs {
					seqs[c] = append(seqs[c], regEvent{inv: r.Inv, ret: r.Ret, what: what + fmt.Sprintf(" run %d", i)})
					reads = append(reads, rd{&seqs[c][len(seqs[c])-1], runs[i], sl(got[i])})
					texts[runs[i]] = true
				}
			}
		}
	}
	// the events moved while their slices grew: number the reads again
	ri := 0
	for c := range seqs {
		for k := range seqs[c] {
			if !seqs[c][k].write {
				reads[ri].e = &seqs[c][k]
				ri++
			}
		}
	}
	var tl []string
	for t := range texts {
		tl = append(tl, t)
	}
	sort.Strings(tl)
	needDef := init == mDefault
	for _, s := range seqs {
		for _, e := range s {
			needDef = needDef || e.write && e.val == mDefault
		}
	}
	want := map[string][]string{} // text -> per model
	for m := mInitial; m < len(p.Models); m++ {
		var out []string
		if m == mInitial && init != mInitial || m == mDefault && !needDef {
			out = make([]string, len(tl))
		} else {
			freshProcess(p)
			oo := solo(p.Sched.Budget, func() {
				switch m {
				case mInitial:
				case mDefault:
					hmm.LoadModel()
				default:
					hmm.LoadModel(p.Models[m].Maps()...)
				}
				for _, t := range tl {
					out = append(out, sl(hmm.Cut(t)))
				}
			})
			if v := outcomeViol(oo, "cut with one model"); v != nil {
				return v
			}
		}
		for i, t := range tl {
			want[t] = append(want[t], out[i])
		}
	}
	for _, r := range reads {
		for m, x := range want[r.run] {
			if x == r.toks {
				r.e.ok |= 1 << uint(m)
			}
		}
		if r.e.ok == 0 {
			return viol("mixed", "%s: the run %q gave %s, which no single model gives: %q", r.e.what, r.run, r.toks, want[r.run])
		}
	}
	if ok, at := linearizable(seqs, init, st); !ok {
		return viol("order", "no order of the loads and cuts explains the results; stuck at %s", at)
	}
	return nil
}
