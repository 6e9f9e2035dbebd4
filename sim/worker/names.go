package main

import (
	"fmt"
	"strings"

	"github.com/go-ego/gse/hmm/idf"

	"verif.local/rt"
	"verif.local/rt/vos"
)

// C20: which files a dictionary, IDF or stop-word argument loads, in which
// order, and that a failing one ends the load there.

func init() { scenarios["C20"] = Scenario{genC20, runC20} }

const (
	bS1   = "dict/zh/s_1.txt"
	bT1   = "dict/zh/t_1.txt"
	bJp   = "dict/jp/dict.txt"
	bIdf  = "dict/zh/idf.txt"
	bStop = "dict/zh/stop_word.txt"
	bTok  = "dict/zh/stop_tokens.txt"
)

func genC20(r *Rng, p *Plan) {
	t := newTheme(r, false)
	t.bad = false
	c := Cfg{} // bundled files are separated by blanks
	c.LoadNoFreq = r.p(5)
	p.Cfgs = []Cfg{c}
	var words []string
	file := func(name string, stop bool) {
		var f vos.FileSpec
		f.Name = name
		if stop {
			var b strings.Builder
			for i := r.between(0, 5); i > 0; i-- {
				b.WriteString(t.word(r) + "\n")
			}
			f.Data = Str(b.String())
		} else {
			es := t.entries(r, r.between(1, 5), c.LoadNoFreq, true)
			for i := range es {
				if len(words) > 0 && r.p(3) {
					es[i].W = words[r.n(len(words))]
				}
			}
			words = append(words, wordsOf(es)...)
			f.Data = Str(render(es, "", "\n", true))
		}
		newDelivery(r, &f)
		if r.p(6) {
			genFault(r, &f)
			if f.ErrKind == "PANIC" || f.ErrKind == "NOPROGRESS" {
				f.ErrKind = "EIO"
			}
		}
		if r.p(12) {
			f.OpenErr, f.OpenTimes = "ENOENT", 0
		}
		p.Files = append(p.Files, f)
	}
	// the data beside the path a segmenter was given, and that of the sources
	for _, dir := range []string{"/vfs/data/", "*/data/"} {
		for _, b := range []string{bS1, bT1, bJp, bIdf} {
			file(dir+b, false)
		}
		for _, b := range []string{bStop, bTok} {
			file(dir+b, true)
		}
	}
	file("/d/0", false)
	file("/d/1", false)
	file("/d/en", false)
	file("/s/0", true)
	file("/s/1", true)
	file("/s/2", true)
	file("/d/0 ", false)
	list := func(pool ...string) Str {
		sep := pickS(r, ",", ", ")
		var l []string
		for i := r.between(1, pickS(r, 4, 4, 4, 4, 12)); i > 0; i-- {
			l = append(l, pool[r.n(len(pool))])
		}
		return Str(strings.Join(l, sep))
	}
	var ops []Op
	for n := r.between(1, 6); len(ops) < n; {
		k := "loaddict"
		switch r.n(14) {
		case 0, 1, 2, 3, 4, 5:
			if r.p(4) {
				k = pickS(r, "new", "loaddict2", "idfload", "tagload", "rankload", "extload")
			}
			if r.p(4) {
				ops = append(ops, Op{K: k})
				continue
			}
			ops = append(ops, Op{K: k, S: []Str{list("zh", "zh", "zh_s", "zh_t", "ja", "jp", "/d/0", "/d/0", "/d/1", "/d/en", "en", "ko", "ti", "", "/missing", "zh_", "/d/0 ", "zh ", "en.")}})
			if k == "new" && r.p(2) {
				op := &ops[len(ops)-1]
				op.S = append(op.S, pickS[Str](r, "alpha", "alpha", "en"))
			}
		case 6:
			ops = append(ops, Op{K: "extidf"})
		case 7:
			ops = append(ops, Op{K: "extidf", S: []Str{list("/d/0", "/d/1", "zh")}})
		case 8:
			ops = append(ops, Op{K: pickS(r, "loadstop", "swload", "extstop")})
		case 9, 10:
			s := pickS[Str](r, "zh", "zh, /s/0", "/s/0", "/s/1, /s/0", "/s/0, /missing, /s/1", "zh, /s/0, /s/1")
			if r.p(2) {
				s = pickS[Str](r, "zh", "/s/0", "/s/1")
				for i := r.between(1, pickS(r, 3, 3, 3, 10)); i > 0; i-- {
					s += ", " + pickS[Str](r, "/s/0", "/s/0", "/s/1", "/s/1", "/s/2", "/missing")
				}
			}
			ops = append(ops, Op{K: pickS(r, "loadstop", "swload", "extstop"), S: []Str{s}})
		case 11:
			ops = append(ops, Op{K: pickS(r, "empty", "emptystop", "heal")})
		case 12:
			ops = append(ops, Op{K: "add", S: []Str{Str(t.word(r)), "n"}, F: 5})
		case 13:
			ops = append(ops, Op{K: "remove", S: []Str{Str(pickS(r, words...))}})
		}
	}
	p.Clients = [][]Op{ops}
	p.Sched = rt.Sched{Kind: "seq", Budget: histBudget}
}

// names resolves a dictionary argument; data is where bundled files lie.
func resolve(args []string, data string) []string {
	if len(args) == 0 {
		return []string{data + bS1, data + bT1}
	}
	var l []string
	for _, n := range dictNames(args[0]) {
		switch n {
		case "zh":
			l = append(l, data+bT1, data+bS1)
		case "zh_s":
			l = append(l, data+bS1)
		case "zh_t":
			l = append(l, data+bT1)
		case "ja", "jp":
			l = append(l, data+bJp)
		case "en", "ko", "ti", "":
		default:
			l = append(l, n)
		}
	}
	return l
}

// resolveStop does the same for stop words.
func resolveStop(args []string, data string) []string {
	if len(args) == 0 {
		return []string{data + bStop}
	}
	l := strings.Split(args[0], ", ")
	if l[0] == "zh" {
		l[0] = data + bTok
	}
	return l
}

func runC20(p *Plan, st *Stats) *Violation {
	if len(p.Files) != 19 || !wfPlan(&Plan{Cfgs: p.Cfgs, Files: dictFiles(p)}) {
		return nil
	}
	freshProcess(p)
	w := newWorld(p)
	in := w.inst[0]
	c := p.Cfgs[0]
	uni := universeOf(p)
	for _, f := range p.Files {
		uni = append(uni, strings.Split(string(f.Data), "\n")...)
	}
	uni = dedup(uni)
	tab := newTable(c)
	idfTab := newTable(Cfg{})
	stops := map[string]bool{}
	idfStops := map[string]bool{}
	for k := range idf.StopWordMap {
		idfStops[k] = true
	}
	data := "/vfs/data/" // of the segmenter
	return inRun(st, p.Sched.Budget, "history", func() *Violation {
		for i, op := range p.Clients[0] {
			if op.K == "heal" {
				vos.Heal()
				continue
			}
			vos.TakeOpened()
			before := vos.Faults()
			args := ss(op.S)
			var r Res
			switch op.K {
			case "loaddict2": // another segmenter, of default path
				r = w.do(Op{K: "renew"})
				in = w.inst[0]
				in.seg.DictPath = ""
				data = "*/data/"
				tab, idfTab, stops, idfStops = newTable(c), newTable(Cfg{}), map[string]bool{}, map[string]bool{}
				for k := range idf.StopWordMap {
					idfStops[k] = true
				}
				vos.TakeOpened()
				r = w.do(Op{K: "loaddict", S: op.S})
			case "new":
				data = "*/data/"
				alpha := len(args) > 1 && args[1] == "alpha"
				tab, stops = newTable(Cfg{AlphaNum: alpha}), map[string]bool{}
				r = w.do(op)
				if in.seg.AlphaNum != alpha {
					return viol("option", "operation %d %s: AlphaNum is %v", i, opStr(op), in.seg.AlphaNum)
				}
			default:
				r = w.do(op)
			}
			if r.Panic != "" {
				return viol("panic", "operation %d %s: panic: %s", i, opStr(op), r.Panic)
			}
			after := vos.Faults()
			opened := vos.TakeOpened()
			var want []string
			var dict **table
			var stop *map[string]bool
			fresh := newTable(Cfg{})
			switch op.K {
			case "loaddict", "loaddict2", "new":
				want, dict = resolve(args, data), &tab
			case "tagload", "rankload", "extload":
				want = resolve(args, "*/data/")
			case "idfload", "extidf":
				if len(args) == 0 {
					args = []string{"*/data/" + bIdf}
				}
				want, dict = resolve(args, "*/data/"), &idfTab
				if op.K == "extidf" {
					dict = &fresh
				}
			case "loadstop":
				want, stop = resolveStop(args, data), &stops
			case "swload":
				want, stop = resolveStop(args, "*/data/"), &idfStops
			case "extstop":
				want = resolveStop(args, "*/data/")
			case "empty":
				tab = newTable(tab.c)
			case "emptystop":
				stops = map[string]bool{}
			case "add":
				tab.add(tent{op.s(0), op.F, op.s(1)})
			case "remove":
				tab.remove(op.s(0))
			}
			if want == nil && op.K != "loaddict" && op.K != "loaddict2" && op.K != "new" {
				if len(opened) > 0 {
					return viol("names", "operation %d %s opened %q", i, opStr(op), opened)
				}
				continue
			}
			// the files of the list, up to the first that fails
			failed := false
			for k, n := range want {
				if fileSpec(p, n) == nil || after[n] != before[n] {
					want = want[:k+1]
					failed = true
					break
				}
				if strings.HasPrefix(n, "*") || strings.HasPrefix(n, "/vfs") {
					st.nontrivial()
				}
			}
			if fmt.Sprintf("%q", opened) != fmt.Sprintf("%q", want) {
				return viol("names", "operation %d %s loaded from %q, expected %q", i, opStr(op), opened, want)
			}
			st.count("arguments resolved")
			exp := "ok"
			if failed {
				exp = "error"
				st.nontrivial()
			}
			if r.Out != exp {
				return viol("report", "operation %d %s reported %q, expected %q (files %q)", i, opStr(op), r.Out, exp, want)
			}
			if dict != nil {
				t := *dict
				o := segObs(in.seg)
				if dict == &idfTab {
					o = dictObs{find: in.idf.Freq, num: in.idf.NumTokens, total: in.idf.TotalFreq}
				} else if dict == &fresh {
					o = dictObs{find: in.ext.Idf.Freq, num: in.ext.Idf.NumTokens, total: in.ext.Idf.TotalFreq}
				}
				rs, _ := loadRows(p, t.c, want, before, after)
				if !failed {
					t.addRows(rs)
					if d := t.diff(o, uni); d != "" {
						return viol("contents", "operation %d %s (files %q): %s\n table: %s", i, opStr(op), want, d, t)
					}
				} else {
					n, why := t.adopt(rs, o, uni)
					if n == nil {
						return viol("contents", "after the failed operation %d %s (files %q) the dictionary is no prefix of their contents: %s\n table before: %s", i, opStr(op), want, why, t)
					}
					*dict = n
				}
			}
			if stop != nil {
				is := in.seg.IsStop
				if stop == &idfStops {
					is = in.sw.IsStopWord
				}
				for k, n := range want {
					last := failed && k == len(want)-1
					d, _ := fileData(p, n)
					for _, l := range strings.Split(d, "\n") {
						if l == "" {
							continue
						}
						if !last || is(l) {
							(*stop)[l] = true
						}
					}
				}
				for _, u := range uni {
					if u != "" && is(u) != (*stop)[u] {
						return viol("contents", "after operation %d %s (files %q) %q is a stop word: %v, expected %v", i, opStr(op), want, u, is(u), (*stop)[u])
					}
				}
			}
		}
		return nil
	})
}

// dictFiles are the plan's files that hold dictionaries.
func dictFiles(p *Plan) (l []vos.FileSpec) {
	for _, f := range p.Files {
		if !strings.Contains(string(f.Name), "stop_") && !strings.HasPrefix(string(f.Name), "/s/") {
			l = append(l, f)
		}
	}
	return
}
