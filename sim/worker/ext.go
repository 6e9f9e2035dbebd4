package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm/segment"

	"verif.local/rt"
	"verif.local/rt/vos"
)

// C14: keyword extraction and ranking follow the current tables.

func init() { scenarios["C14"] = Scenario{genC14, runC14} }

func genC14(r *Rng, p *Plan) {
	t := newTheme(r, r.p(2))
	c := Cfg{}
	p.Cfgs = []Cfg{c, c}
	p.Models = []Model{newModel(r)}
	faults := r.p(2)
	words := genDictFiles(r, t, p, c, r.between(1, 3), faults)
	nd := len(p.Files)
	// the mirror reads copies that fail in the same way
	for i := 0; i < nd; i++ {
		f := p.Files[i]
		f.Name = mirrorName(f.Name)
		p.Files = append(p.Files, f)
	}
	if len(words) == 0 {
		words = []string{t.word(r)}
	}
	var idfs, stops []string
	idfRows := func() Str {
		var es []Ent
		for k := r.between(0, 8); k > 0; k-- {
			e := Ent{W: t.word(r), F: pickS(r, "3", "4.5", "7.25", "10", "2", "11.5", "1.5", "64"), P: "n", NF: r.between(2, 3)}
			if r.p(3) {
				e.W = pickS(r, "the", "go", "of", "word", "中国", "人民")
			}
			if r.p(2) {
				e.W = words[r.n(len(words))]
			}
			es = append(es, e)
		}
		return Str(render(es, "", "\n", !r.p(3)))
	}
	for i := r.between(1, 3); i > 0; i-- {
		f := vos.FileSpec{Name: fmt.Sprintf("/i/%d", i), Data: idfRows()}
		newDelivery(r, &f)
		if faults && r.p(3) {
			genFault(r, &f)
		}
		p.Files = append(p.Files, f)
		idfs = append(idfs, f.Name)
	}
	for i := r.between(0, 2); i > 0; i-- {
		var l []string
		for k := r.n(6); k > 0; k-- {
			l = append(l, pickS(r, t.word(r), words[r.n(len(words))], words[r.n(len(words))], "the", "国人", "go"))
		}
		d := strings.Join(l, "\n")
		if r.p(2) {
			d += "\n"
		}
		f := vos.FileSpec{Name: fmt.Sprintf("/s/%d", i), Data: Str(d)}
		newDelivery(r, &f)
		if faults && r.p(2) {
			genFault(r, &f)
		}
		p.Files = append(p.Files, f)
		stops = append(stops, f.Name)
	}
	ops := []Op{{K: "loadmodel", N: 0}, {K: "loadstr", S: []Str{Str(render(t.entries(r, r.between(0, 10), false, false), "", "\n", true))}}}
	file := func() Str {
		a := string(p.Files[r.n(nd)].Name)
		for k := r.n(2); k > 0; k-- {
			a += "," + string(p.Files[r.n(nd)].Name)
		}
		if faults && r.p(12) {
			a += ",/missing"
		}
		return Str(a)
	}
	ext, tagged := false, false
	many := r.p(12)
	text := func() Str {
		s := t.text(r, words, pickS(r, 6, 12, 30))
		if many && r.p(3) {
			s += hanText(r, r.between(200, pickS(r, 300, 800)))
		}
		for k := r.n(3); k > 0; k-- {
			s += pickS(r, " the ", " of go ", "中国", "人民", " word ", words[r.n(len(words))])
		}
		return Str(s)
	}
	for k := r.between(3, pickS(r, 6, 12, 24)); k > 0; k-- {
		switch x := r.n(30); {
		case x < 2:
			ops = append(ops, genEdit(r, t, &words, true))
		case x == 2:
			ops = append(ops, Op{K: "calc"})
		case x == 3:
			ops = append(ops, Op{K: pickS(r, "empty", "loaddict", "loaddict"), S: []Str{file()}})
		case x < 6 || !ext:
			ext = true
			if r.p(4) {
				ops = append(ops, Op{K: "extload", S: []Str{file()}}, Op{K: "loadmodel", N: 0})
			} else {
				ops = append(ops, Op{K: "extwith"})
			}
			if k > 1 && r.p(2) {
				continue
			}
			fallthrough
		case x < 10:
			if r.p(3) {
				ops = append(ops, Op{K: "extidfstr", S: []Str{idfRows()}})
			} else {
				a := idfs[r.n(len(idfs))]
				if r.p(3) {
					a += "," + idfs[r.n(len(idfs))]
				}
				if faults && r.p(12) {
					a += ",/missing"
				}
				ops = append(ops, Op{K: "extidf", S: []Str{Str(a)}})
			}
		case x < 13:
			w := pickS(r, words[r.n(len(words))], t.word(r), "the")
			ops = append(ops, Op{K: "extadd", S: []Str{Str(w), "n"}, F: pickS(r, 2.0, 3, 4.5, 10)})
		case x < 16 && len(stops) > 0:
			a := stops[r.n(len(stops))]
			if r.p(4) {
				a += ", " + stops[r.n(len(stops))]
			}
			ops = append(ops, Op{K: "extstop", S: []Str{Str(a)}})
		case x == 16 && faults:
			ops = append(ops, Op{K: "heal"})
		case x < 19 || x < 24 && !tagged:
			tagged = true
			if r.p(4) {
				ops = append(ops, Op{K: "rankload", S: []Str{file()}}, Op{K: "loadmodel", N: 0})
			} else {
				ops = append(ops, Op{K: "rankwith"})
			}
		case x < 24:
			o := Op{K: pickS(r, "rank", "rankpos"), S: []Str{text()}, N: r.n(5)}
			if o.K == "rankpos" {
				for _, y := range append([]string{"eng", "x", "m"}, posPool...) {
					if r.p(2) {
						o.S = append(o.S, Str(y))
					}
				}
			}
			ops = append(ops, o)
		default:
			ops = append(ops, Op{K: "extract", S: []Str{text()}, N: r.n(6)})
		}
	}
	ops = append(ops, Op{K: "extract", S: []Str{text()}, N: r.n(6)})
	p.Clients = [][]Op{ops}
	p.Sched = rt.Sched{Kind: "seq", Budget: 4 * histBudget}
}

func mirrorName(n string) string {
	return strings.ReplaceAll(n, "/d/", "/m/")
}

// extRef is the reference: what the tables of the extracter and ranker are.
type extRef struct {
	seg   gse.Segmenter // segments as the extracter's segmenter does
	has   bool          // the extracter has a segmenter
	idf   *table        // nil before the first load
	stops []map[string]bool
	tag   bool // the ranker has a segmenter
}

func sorted(l segment.Segments) string {
	for i := 1; i < len(l); i++ {
		if !(l[i-1].Weight >= l[i].Weight) {
			return fmt.Sprintf("weight %s of %q before %s of %q", fl(l[i-1].Weight), l[i-1].Text, fl(l[i].Weight), l[i].Text)
		}
	}
	return ""
}

func once(l segment.Segments) string {
	seen := map[string]bool{}
	for _, x := range l {
		if seen[x.Text] {
			return x.Text
		}
		seen[x.Text] = true
	}
	return ""
}

// tagWords is what ExtractTags counts in a text.
func tagWords(cut []string, stop map[string]bool) (map[string]int, int) {
	m, n := map[string]int{}, 0
	for _, w := range cut {
		w = strings.TrimSpace(w)
		if utf8.RuneCountInString(w) < 2 || stop[w] {
			continue
		}
		m[w]++
		n++
	}
	return m, n
}

func keyList(m map[string]int) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return sl(l)
}

// topk compares the first k of the full list with what k gives.
func topk(what string, full segment.Segments, ask func(k int) segment.Segments, k int) *Violation {
	want := full
	if len(want) > k {
		want = want[:k]
	}
	if got := ask(k); tags(got) != tags(want) {
		return viol("topk", "%s: the top %d are\n  %s\nthe first %d of the full list are\n  %s", what, k, tags(got), k, tags(want))
	}
	return nil
}

func (e *extRef) extract(w *World, op Op, st *Stats) *Violation {
	in := w.inst[0]
	x := op.s(0)
	full := append(segment.Segments(nil), in.ext.ExtractTags(x, 1<<20)...)
	observe(tags(full))
	what := fmt.Sprintf("ExtractTags(%q)", x)
	cut := e.seg.Cut(x, true)
	why := ""
	var left []map[string]bool
	for _, s := range e.stops {
		want, total := tagWords(cut, s)
		got := map[string]int{}
		for _, y := range full {
			got[y.Text]++
		}
		bad := ""
		if keyList(got) != keyList(want) {
			bad = fmt.Sprintf("%s returns the words %s, expected %s (cut %q)", what, keyList(got), keyList(want), cut)
		}
		for _, y := range full {
			t, in := e.idf.get(y.Text)
			if !in || bad != "" {
				continue
			}
			ref := t.f * float64(want[y.Text]) / float64(total)
			if math.Abs(ref-y.Weight) > 1e-9*math.Max(1, ref) || y.Weight != y.Weight {
				bad = fmt.Sprintf("%s gives %q the weight %s; it is %d of %d counted words and has %s in the IDF table, that is %s", what, y.Text, fl(y.Weight), want[y.Text], total, fl(t.f), fl(ref))
			}
		}
		if bad == "" {
			left = append(left, s)
		} else if why == "" {
			why = bad
		}
	}
	if len(left) == 0 {
		return viol("extract", "%s\n IDF table: %s", why, e.idf)
	}
	e.stops = left
	if len(full) > 0 {
		st.nontrivial()
	}
	if d := once(full); d != "" {
		return viol("twice", "%s returns %q more than once", what, d)
	}
	if d := sorted(full); d != "" {
		return viol("order", "%s: %s", what, d)
	}
	st.count("extractions compared with the model")
	return topk(what, full, func(k int) segment.Segments { return in.ext.ExtractTags(x, k) }, op.N)
}

// textRank is the reference: ten rounds over the words with allowed tags, in
// the order of their texts; two of them are neighbours as often as they stand
// less than five pieces apart.
func textRank(pairs []gse.SegPos, allowed []string) map[string]float64 {
	near := map[string]map[string]float64{}
	var words []string
	node := func(x string) map[string]float64 {
		if near[x] == nil {
			near[x] = map[string]float64{}
			words = append(words, x)
		}
		return near[x]
	}
	ok := func(i int) bool {
		for _, a := range allowed {
			if pairs[i].Pos == a {
				return true
			}
		}
		return false
	}
	for j := range pairs {
		for i := j - 4; i < j; i++ {
			if i >= 0 && ok(i) && ok(j) {
				node(pairs[i].Text)[pairs[j].Text]++
				node(pairs[j].Text)[pairs[i].Text]++
			}
		}
	}
	sort.Strings(words)
	sum, rank := map[string]float64{}, map[string]float64{}
	for _, x := range words {
		rank[x] = 1 / float64(len(words))
		for _, y := range words {
			sum[x] += near[x][y]
		}
	}
	for k := 0; k < 10; k++ {
		for _, x := range words {
			v := 0.0
			for _, y := range words {
				v += near[x][y] / sum[y] * rank[y]
			}
			rank[x] = 0.15 + 0.85*v
		}
	}
	if len(words) == 0 {
		return rank
	}
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, x := range words {
		lo, hi = math.Min(lo, rank[x]), math.Max(hi, rank[x])
	}
	for _, x := range words {
		rank[x] = (rank[x] - lo/10) / (hi - lo/10)
	}
	return rank
}

func (e *extRef) rank(w *World, op Op, st *Stats) *Violation {
	in := w.inst[0]
	x := op.s(0)
	allowed := []string{"ns", "n", "vn", "v"}
	ask := func(k int) segment.Segments { return in.rank.TextRank(x, k) }
	if op.K == "rankpos" {
		allowed = ss(op.S[1:])
		ask = func(k int) segment.Segments { return in.rank.TextRankWithPOS(x, k, allowed) }
	}
	full := append(segment.Segments(nil), ask(0)...)
	observe(tags(full))
	what := fmt.Sprintf("the rank of %q with %q", x, allowed)
	ok := map[string]bool{}
	pairs := w.inst[1].tag.Cut(x, true)
	for _, y := range pairs {
		for _, a := range allowed {
			if y.Pos == a {
				ok[y.Text] = true
			}
		}
	}
	for _, y := range full {
		if !ok[y.Text] {
			return viol("rank", "%s contains %q, which is no word with an allowed tag (%s)", what, y.Text, posl(pairs))
		}
	}
	if len(full) > 0 {
		st.nontrivial()
	}
	if d := once(full); d != "" {
		return viol("twice", "%s returns %q more than once", what, d)
	}
	if d := sorted(full); d != "" {
		return viol("order", "%s: %s", what, d)
	}
	ref := textRank(pairs, allowed)
	if len(ref) != len(full) {
		return viol("rank", "%s has %d words, expected %d: %s (%s)", what, len(full), len(ref), tags(full), posl(pairs))
	}
	for _, y := range full {
		if r, in := ref[y.Text]; !in || !(math.Abs(r-y.Weight) <= 1e-9) {
			return viol("rank", "%s gives %q the weight %s, expected %s (%s)", what, y.Text, fl(y.Weight), fl(r), posl(pairs))
		}
	}
	st.count("ranks compared with the tagged words")
	if op.N == 0 {
		return nil
	}
	return topk(what, full, ask, op.N)
}

func runC14(p *Plan, st *Stats) *Violation {
	if !wfPlan(p) {
		return nil
	}
	freshProcess(p)
	w := newWorld(p)
	uni := universeOf(p)
	e := &extRef{}
	in, mi := w.inst[0], w.inst[1]
	return inRun(st, p.Sched.Budget, "history", func() *Violation {
		for i, op := range p.Clients[0] {
			when := fmt.Sprintf("operation %d %s", i, opStr(op))
			before := vos.Faults()
			mop := op
			mop.I = 1
			mop.S = append([]Str(nil), op.S...)
			for k := range mop.S {
				mop.S[k] = Str(mirrorName(string(mop.S[k])))
			}
			switch op.K {
			case "heal":
				vos.Heal()
				continue
			case "extract", "rank", "rankpos":
				if op.K == "extract" && (!e.has || e.idf == nil) || op.K != "extract" && !e.tag {
					continue
				}
				v := func() (v *Violation) {
					defer func() {
						if x := recover(); x != nil {
							if ob, ok := x.(rt.OverBudget); ok {
								panic(ob)
							}
							v = viol("panic", "%s: panic: %v", when, x)
						}
					}()
					if op.K == "extract" {
						return e.extract(w, op, st)
					}
					return e.rank(w, op, st)
				}()
				if v != nil {
					v.Msg = when + ": " + v.Msg
					return v
				}
				continue
			case "extadd":
				if e.idf == nil {
					continue
				}
			}
			r := w.do(op)
			if r.Panic != "" {
				return viol("panic", "%s: panic: %s", when, r.Panic)
			}
			if r.Out == "error" || r.Out == "device-panic" {
				st.nontrivial()
			}
			// the mirror
			mirror := func(f func()) {
				defer func() {
					if x := recover(); x != nil {
						if _, ok := x.(vos.ReaderPanic); !ok {
							panic(x)
						}
					}
				}()
				f()
			}
			switch op.K {
			case "loadmodel":
			case "extwith":
				e.seg = *mi.seg
				e.has = true
				if e.stops == nil {
					e.stops = []map[string]bool{defaultStops()}
				}
			case "extload":
				mirror(func() { e.seg.LoadDict(ss(mop.S)...) })
				e.has = true
				if e.stops == nil {
					e.stops = []map[string]bool{defaultStops()}
				}
			case "rankwith":
				mi.tag.WithGse(*mi.seg)
				e.tag = true
			case "rankload":
				mirror(func() { mi.tag.LoadDict(ss(mop.S)...) })
				e.tag = true
			case "extidf", "extidfstr", "extadd":
				want := "ok"
				switch op.K {
				case "extidf":
					e.idf = newTable(Cfg{})
					rs, faulted := loadRows(p, Cfg{}, dictNames(op.s(0)), before, vos.Faults())
					if !faulted {
						e.idf.addRows(rs)
						break
					}
					want = "error"
					n, why := e.idf.adopt(rs, extObs(in), uni)
					if n == nil {
						return viol("partial", "after the failed %s the IDF table is no prefix of what the source holds: %s", when, why)
					}
					e.idf = n
				case "extidfstr":
					e.idf = newTable(Cfg{})
					rs, _ := Cfg{}.rows(op.s(0))
					e.idf.addRows(rs)
				default:
					want = e.idf.add(tent{op.s(0), op.F, op.s(1)})
				}
				if r.Out != want && !(want == "error" && r.Out == "device-panic") {
					return viol("return", "%s reported %q, expected %q", when, r.Out, want)
				}
				if d := e.idf.diff(extObs(in), uni); d != "" {
					return viol("table", "after %s the IDF table differs: %s\n expected %s", when, d, e.idf)
				}
				st.count("IDF tables compared")
			case "extstop":
				ws, faulted := stopLoad(p, strings.Split(op.s(0), ", "), before, vos.Faults())
				want := "ok"
				e.stops = nil
				m := defaultStops()
				add := func() {
					c := map[string]bool{}
					for k := range m {
						c[k] = true
					}
					e.stops = append(e.stops, c)
				}
				if faulted {
					want = "error"
					add()
				}
				for _, x := range ws {
					m[x] = true
					if faulted {
						add()
					}
				}
				if !faulted {
					add()
				}
				if r.Out != want && !(want == "error" && r.Out == "device-panic") {
					return viol("return", "%s reported %q, expected %q", when, r.Out, want)
				}
			default:
				if x := w.do(mop); x.String() != r.String() {
					return viol("twin", "%s gives %s, on a twin it gives %s", when, r, x)
				}
			}
		}
		return nil
	})
}
