package main

import (
	"fmt"
	"math"
	"regexp"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm"

	"verif.local/rt"
	"verif.local/rt/vos"
)

// What the calls answer in every state a history reaches, against reference
// models over the live entries: C15 (minimum-weight segmentation, maximum-
// probability cut), C16 (HMM decoding), C18 (analysis), C19 (full and search
// mode), C20 (which files a dictionary argument loads).

func init() {
	scenarios["C15"] = Scenario{genC15, runC15}
	scenarios["C16"] = Scenario{genC16, runC16}
	scenarios["C18"] = Scenario{genC18, runC18}
	scenarios["C19"] = Scenario{genC19, runC19}
}

// follow plays the history of client 0 against the table model and calls
// check after every operation; fresh says whether the weights belong to the
// entries.
func follow(p *Plan, st *Stats, check func(w *World, tab *table, x string, fresh bool, st *Stats) *Violation) *Violation {
	if !wfPlan(p) {
		return nil
	}
	freshProcess(p)
	w := newWorld(p)
	if len(p.Models) > 0 {
		w.inst[0].seg.LoadModel(p.Models[0].Maps()...)
	}
	uni := universeOf(p)
	tab := newTable(p.Cfgs[0])
	guard := func(fresh bool, when string, st *Stats) (v *Violation) {
		defer func() {
			if e := recover(); e != nil {
				if ob, ok := e.(rt.OverBudget); ok {
					panic(ob)
				}
				v = viol("panic", "%s: panic: %v", when, e)
			}
		}()
		for _, x := range p.Texts {
			if !utf8.ValidString(string(x)) {
				continue
			}
			if v = check(w, tab, string(x), fresh, st); v != nil {
				v.Msg = when + ": " + v.Msg + "\n entries: " + tab.String()
				return v
			}
		}
		return nil
	}
	v := inRun(st, p.Sched.Budget, "history", func() *Violation {
		fresh := false
		for i, op := range p.Clients[0] {
			if op.K == "heal" {
				vos.Heal()
				continue
			}
			before := vos.Faults()
			r := w.do(op)
			if r.Panic != "" {
				return viol("panic", "operation %d %s: panic: %s", i, opStr(op), r.Panic)
			}
			var v *Violation
			tab, v = stepModel(w, tab, op, r.Out, before, vos.Faults(), uni)
			if v != nil {
				return v
			}
			if op.K == "remove" || op.K == "readd" || op.K == "empty" || r.Out == "error" || r.Out == "device-panic" {
				st.nontrivial()
			}
			switch op.K {
			case "calc", "addforce":
				fresh = true
			case "loaddict", "loadstr", "loadmap":
				fresh = r.Out == "ok"
			case "add", "remove", "readd", "read", "reader", "empty", "bulk":
				fresh = false
			}
			if w.inst[0].seg.Dict == nil {
				continue
			}
			if v := guard(fresh, fmt.Sprintf("after operation %d %s", i, opStr(op)), st); v != nil {
				return v
			}
		}
		if w.inst[0].seg.Dict == nil {
			return nil
		}
		w.do(Op{K: "calc"})
		return guard(true, "after the history and a recalculation", st)
	})
	if v != nil || p.Variant != "clients" || w.inst[0].seg.Dict == nil {
		return v
	}
	// several clients ask at once
	vs := make([]*Violation, len(p.Clients))
	var fns []func()
	for i := range p.Clients {
		i := i
		fns = append(fns, func() { vs[i] = guard(true, fmt.Sprintf("client %d of %d after the history", i, len(p.Clients)), nil) })
	}
	o := rt.Run(p.Sched, fns)
	st.run(o)
	for _, v := range vs {
		if v != nil {
			return v
		}
	}
	return outcomeViol(o, "concurrent calls")
}

// genState draws a history and texts of valid UTF-8.
func genState(r *Rng, p *Plan, max int) {
	t, words := genHistPlan(r, p, histOpt{n: r.between(1, pickS(r, 3, 8, 16)), faults: r.p(3), force: true})
	t.bad = false
	if r.p(3) {
		t.units = t.units[:r.between(1, 2)] // much overlap
		for i := range p.Clients[0] {
			op := &p.Clients[0][i]
			if r.p(2) && (op.K == "add" || op.K == "addforce") {
				op.S[0] = Str(t.word(r))
				words = append(words, string(op.S[0]))
			}
		}
	}
	if r.p(2) {
		words = genDense(r, t, p)
	}
	for i := r.between(1, 4); i > 0; i-- {
		p.Texts = append(p.Texts, Str(t.text(r, words, max)))
	}
	if !p.Cfgs[0].DefHMM {
		p.Models = []Model{newModel(r)}
	}
	p.KeepCase = r.p(12)
	p.Variant = "history"
	if r.p(4) {
		p.Variant = "clients"
		for i := r.between(1, 3); i > 0; i-- {
			p.Clients = append(p.Clients, nil)
		}
		p.Sched = newSched(r, 4*histBudget)
	}
}

// genDense replaces the history by one over few units, whose entries overlap
// and whose frequencies lie far apart.
func genDense(r *Rng, t *theme, p *Plan) []string {
	us := t.units
	for len(us) > 3 {
		i := r.n(len(us))
		us = append(append([]string(nil), us[:i]...), us[i+1:]...)
	}
	t.units = us
	word := func(max int) string {
		w := ""
		for i := r.between(1, max); i > 0; i-- {
			w += us[r.n(len(us))]
		}
		return w
	}
	f := func() float64 { return exactFreqs[r.n(len(exactFreqs))] }
	var ops []Op
	var words []string
	live := map[string]float64{}
	put := func(k, w string) {
		x := f()
		if r.p(3) {
			x *= 64
		}
		ops = append(ops, Op{K: k, S: []Str{Str(w), posPoolStr(r)}, F: x})
		words = append(words, w)
		if _, ok := live[w]; !ok {
			live[w] = x
		}
	}
	for i := r.between(2, 10); i > 0; i-- {
		put("add", word(r.between(1, 4)))
	}
	if r.p(2) {
		ops = append(ops, Op{K: "calc"})
	}
	for i := r.between(0, 6); i > 0; i-- {
		w := words[r.n(len(words))]
		switch r.n(8) {
		case 0, 1:
			put("add", word(4))
		case 2:
			put("addforce", word(4))
		case 3:
			put("addforce", w)
		case 4, 5:
			if r.p(2) {
				for _, x := range words {
					if live[x] > live[w] {
						w = x
					}
				}
			}
			delete(live, w)
			ops = append(ops, Op{K: "remove", S: []Str{Str(w)}})
		case 6:
			ops = append(ops, Op{K: "calc"})
		case 7:
			ops = append(ops, Op{K: "readd", S: []Str{Str(w), posPoolStr(r)}, F: f()})
		}
	}
	p.Files = nil
	p.Clients = [][]Op{addBulk(r, ops, t)}
	return dedup(words)
}

func posPoolStr(r *Rng) Str { return Str(posPool[r.n(len(posPool))]) }

// ---- C15

// split is the reference splitting of a text into units (see units).
func (c Cfg) split(s string) (u []string) {
	run := false
	for len(s) > 0 {
		r, k := utf8.DecodeRuneInString(s)
		word := k <= 2 && (unicode.IsLetter(r) && !c.Alpha || unicode.IsNumber(r) && !c.Num)
		x := s[:k]
		s = s[k:]
		if word {
			x = lowASCII(x)
		}
		if word && run && !c.AlphaNum {
			u[len(u)-1] += x
		} else {
			u = append(u, x)
		}
		run = word
	}
	return
}

const unknownWeight = 32

// maxRunes is the length of the longest entry in characters, at least 1.
func (t *table) maxRunes() int {
	max := 1
	for _, e := range t.ents {
		if n := utf8.RuneCountInString(e.w); n > max {
			max = n
		}
	}
	return max
}

// minWeight is the least weight of any split of units; whole says whether the
// split into one piece counts.
func (t *table) minWeight(u []string, whole bool) float64 {
	total := float32(math.Log2(t.total()))
	max := t.maxUnits()
	best := make([]float64, len(u)+1)
	for i := range u {
		best[i+1] = math.Inf(1)
	}
	for i := range u {
		if math.IsInf(best[i], 1) {
			continue
		}
		word := ""
		for j := i; j < len(u) && j < i+max+1; j++ {
			word += u[j]
			if i == 0 && j == len(u)-1 && !whole {
				continue
			}
			d := math.Inf(1)
			if e, ok := t.get(word); ok {
				d = float64(total - float32(math.Log2(e.f)))
			} else if i == j {
				d = unknownWeight
			}
			if best[i]+d < best[j+1] {
				best[j+1] = best[i] + d
			}
		}
	}
	return best[len(u)]
}

// pathWeight is the weight of a returned segmentation.
func (t *table) pathWeight(segs []gse.Segment) (float64, string) {
	total := float32(math.Log2(t.total()))
	sum := 0.0
	for i := range segs {
		x := segs[i].Token().Text()
		if e, ok := t.get(x); ok {
			sum += float64(total - float32(math.Log2(e.f)))
		} else if len(t.c.split(x)) == 1 {
			sum += unknownWeight
		} else {
			return 0, fmt.Sprintf("%q is neither an entry nor a single unit", x)
		}
	}
	return sum, ""
}

// maxProb is the greatest log probability of a split of s into entries and,
// where no entry starts, single characters of frequency one.
func (t *table) maxProb(s string) float64 {
	rs := []rune(s)
	lt := math.Log(t.total())
	max := t.maxRunes()
	best := make([]float64, len(rs)+1)
	for i := range rs {
		best[i+1] = math.Inf(-1)
	}
	for i := range rs {
		any := false
		for j := i + 1; j <= len(rs) && j <= i+max; j++ {
			if e, ok := t.get(string(rs[i:j])); ok {
				any = true
				best[j] = math.Max(best[j], best[i]+math.Log(e.f)-lt)
			}
		}
		if !any {
			best[i+1] = math.Max(best[i+1], best[i]-lt)
		}
	}
	return best[len(rs)]
}

// cutProb is the greatest log probability of a split a returned cut may stand
// for: a piece is an entry or made of single characters.
func (t *table) cutProb(ws []string) float64 {
	lt := math.Log(t.total())
	sum := 0.0
	for _, w := range ws {
		single := 0.0
		for _, r := range w {
			f := 1.0
			if e, ok := t.get(string(r)); ok {
				f = e.f
			}
			single += math.Log(f) - lt
		}
		if e, ok := t.get(w); ok && math.Log(e.f)-lt > single {
			single = math.Log(e.f) - lt
		}
		sum += single
	}
	return sum
}

func optimal(w *World, t *table, x string, fresh bool, st *Stats) *Violation {
	s := w.inst[0].seg
	u := t.c.split(x)
	for _, mode := range []bool{false, true} {
		if !fresh || mode && len(u) == 1 {
			continue // outdated weights, or nothing is left to split
		}
		segs := s.ModeSegment([]byte(x), mode)
		if !mode {
			segs = s.Segment([]byte(x))
		}
		observe(segl(segs))
		got, why := t.pathWeight(segs)
		if why != "" {
			return viol("path", "the segmentation of %q (search mode %v) is no split into entries and single units: %s: %s", x, mode, why, segl(segs))
		}
		best := t.minWeight(u, !mode)
		tol := 0.01 + best*1e-6*float64(len(u)+1)
		if len(u) > 0 && !(got <= best+tol) {
			return viol("weight", "the segmentation of %q (search mode %v) weighs %s, the lightest split weighs %s: %s", x, mode, fl(got), fl(best), segl(segs))
		}
		st.count("segmentations compared")
	}
	if len(t.ents) == 0 {
		return nil
	}
	low := lower(x)
	best := t.maxProb(low)
	tol := 1e-9 * (1 + math.Abs(best))
	for _, h := range []bool{false, true} {
		ws := s.Cut(x, h)
		observe(sl(ws))
		if got := t.cutProb(ws); !(got >= best-tol) {
			return viol("prob", "Cut(%q, %v) = %q has log probability %s, the likeliest split has %s", x, h, ws, fl(got), fl(best))
		}
		st.count("cuts compared")
	}
	return nil
}

func genC15(r *Rng, p *Plan) { genState(r, p, 14) }

func runC15(p *Plan, st *Stats) *Violation {
	return follow(p, st, func(w *World, t *table, x string, fresh bool, st *Stats) *Violation {
		return optimal(w, t, x, fresh, st)
	})
}

// ---- C18

func genC18(r *Rng, p *Plan) { genState(r, p, 10) }

// analysed checks one analysis. tiles says that the tokens are a segmentation.
func analysed(w *World, t *table, what string, toks []string, x string, tiles bool, st *Stats) *Violation {
	s := w.inst[0].seg
	if len(toks) == 0 {
		return nil
	}
	low := lower(x)
	check := func(az []gse.AnalyzeToken, how string) *Violation {
		if len(az) != len(toks) {
			return viol("analyse", "%s: the analysis of %s %q has %d entries for %d tokens", how, what, x, len(az), len(toks))
		}
		for i, a := range az {
			if a.Position != i || a.Text != toks[i] {
				return viol("analyse", "%s: entry %d of the analysis of %s %q is %+v, the token is %q", how, i, what, x, a, toks[i])
			}
			e, _ := t.get(toks[i])
			if a.Freq != e.f || a.Pos != e.p {
				return viol("analyse", "%s: entry %d of the analysis of %s %q says %s %q, the dictionary entry of %q is %s %q", how, i, what, x, fl(a.Freq), a.Pos, toks[i], fl(e.f), e.p)
			}
		}
		st.count("analyses")
		return nil
	}
	if x != "" {
		az := s.Analyze(append([]string(nil), toks...), x)
		observe(fmt.Sprint(az))
		if v := check(az, "with the text"); v != nil {
			return v
		}
		at := map[string]map[int]bool{}
		for i, a := range az {
			k := toks[i]
			if k == "" || !strings.Contains(low, k) {
				continue
			}
			if a.Start < 0 || a.End > len(low) || a.Start > a.End || low[a.Start:a.End] != k {
				return viol("offsets", "entry %d of the analysis of %s %q puts %q at [%d,%d)", i, what, x, k, a.Start, a.End)
			}
			if at[k] == nil {
				at[k] = map[int]bool{}
			}
			if tiles && at[k][a.Start] {
				return viol("offsets", "the analysis of %s %q puts %q at %d twice: %+v", what, x, k, a.Start, az)
			}
			at[k][a.Start] = true
		}
	}
	for _, by := range []bool{false, true} {
		az := s.Analyze(append([]string(nil), toks...), "")
		if by {
			az = s.Analyze(append([]string(nil), toks...), "", true)
		}
		if v := check(az, "without the text"); v != nil {
			return v
		}
		off := 0
		for i, a := range az {
			n := len(toks[i])
			if by {
				n = utf8.RuneCountInString(toks[i])
			}
			if a.Start != off || a.End != off+n {
				return viol("offsets", "entry %d of the analysis (by character %v) of %s %q puts %q at [%d,%d), the tokens before it end at %d", i, by, what, x, toks[i], a.Start, a.End, off)
			}
			off += n
		}
	}
	return nil
}

func runC18(p *Plan, st *Stats) *Violation {
	return follow(p, st, func(w *World, t *table, x string, fresh bool, st *Stats) *Violation {
		s := w.inst[0].seg
		for _, l := range []struct {
			what  string
			toks  []string
			tiles bool
		}{
			{"the cut of", s.Cut(x), true},
			{"the dictionary cut of", s.Cut(x, false), true},
			{"the HMM cut of", s.Cut(x, true), true},
			{"the full cut of", s.CutAll(x), false},
			{"the search cut of", s.CutSearch(x), false},
			{"the words of the search mode of", s.Slice(x, true), false},
		} {
			if v := analysed(w, t, l.what, l.toks, x, l.tiles, st); v != nil {
				return v
			}
		}
		return nil
	})
}

// ---- C19

func genC19(r *Rng, p *Plan) { genState(r, p, 12) }

// fullCut is the reference of the full mode.
func (t *table) fullCut(s string) (out []string) {
	rs := []rune(s)
	max := t.maxRunes()
	end := -1 // last character of the entry listed last
	for i := range rs {
		var ws []int
		for j := i + 1; j < len(rs) && j < i+max; j++ {
			if _, ok := t.get(string(rs[i : j+1])); ok {
				ws = append(ws, j)
			}
		}
		if len(ws) == 0 {
			if i > end {
				out = append(out, string(rs[i:i+1]))
				end = i
			}
			continue
		}
		for _, j := range ws {
			out = append(out, string(rs[i:j+1]))
			end = j
		}
	}
	return
}

// searchCut is the reference of the search cut, given the plain one.
func (t *table) searchCut(ws []string) (out []string) {
	for _, w := range ws {
		rs := []rune(w)
		for _, n := range []int{2, 3} {
			for i := 0; len(rs) > n && i+n <= len(rs); i++ {
				if _, ok := t.get(string(rs[i : i+n])); ok {
					out = append(out, string(rs[i:i+n]))
				}
			}
		}
		out = append(out, w)
	}
	return
}

func runC19(p *Plan, st *Stats) *Violation {
	return follow(p, st, func(w *World, t *table, x string, fresh bool, st *Stats) *Violation {
		s := w.inst[0].seg
		if got, want := s.CutAll(x), t.fullCut(lower(x)); sl(got) != sl(want) {
			return viol("full", "CutAll(%q) = %q, expected %q", x, got, want)
		}
		for _, h := range [][]bool{{false}, {true}} {
			got, want := s.CutSearch(x, h...), t.searchCut(s.Cut(x, h...))
			observe(sl(got))
			if sl(got) != sl(want) {
				return viol("search", "CutSearch(%q, %v) = %q, expected %q", x, h, got, want)
			}
		}
		st.count("lists compared")
		return nil
	})
}

// ---- C16

var refTrans = map[[2]byte]float64{
	{'B', 'E'}: -0.510825623765990, {'B', 'M'}: -0.916290731874155,
	{'E', 'B'}: -0.5897149736854513, {'E', 'S'}: -0.8085250474669937,
	{'M', 'E'}: -0.33344856811948514, {'M', 'M'}: -1.2603623820268226,
	{'S', 'B'}: -0.7211965654669841, {'S', 'S'}: -0.6658631448798212,
}

var refStart = map[byte]float64{'B': -0.26268660809250016, 'S': -1.4652633398537678}

// score is a number of impossible steps and a log probability.
type score struct {
	miss int
	lp   float64
}

func (a score) better(b score) bool {
	return a.miss < b.miss || a.miss == b.miss && a.lp > b.lp
}

func (m *Model) emit(y byte, r rune) (float64, bool) {
	mm := map[byte]map[string]float64{'B': m.B, 'E': m.E, 'M': m.M, 'S': m.S}[y]
	v, ok := mm[string(r)]
	return v, ok
}

func (a score) then(v float64, ok bool) score {
	if !ok {
		return score{a.miss + 1, a.lp}
	}
	return score{a.miss, a.lp + v}
}

// bestStates is the score of the best allowed state sequence.
func (m *Model) bestStates(rs []rune) score {
	cur := map[byte]score{}
	for _, y := range []byte("BMES") {
		v, ok := refStart[y]
		e, ok2 := m.emit(y, rs[0])
		cur[y] = score{}.then(v, ok).then(e, ok2)
	}
	for _, r := range rs[1:] {
		next := map[byte]score{}
		for _, y := range []byte("BMES") {
			first := true
			for _, y0 := range []byte("BMES") {
				v, ok := refTrans[[2]byte{y0, y}]
				if !ok {
					continue
				}
				e, ok2 := m.emit(y, r)
				c := cur[y0].then(v, true).then(e, ok2)
				if first || c.better(next[y]) {
					next[y] = c
					first = false
				}
			}
		}
		cur = next
	}
	if cur['S'].better(cur['E']) {
		return cur['S']
	}
	return cur['E']
}

// stateScore is the score of the state sequence a list of words stands for.
func (m *Model) stateScore(ws []string) score {
	var sc score
	prev := byte(0)
	step := func(y byte, r rune) {
		if prev == 0 {
			v, ok := refStart[y]
			sc = sc.then(v, ok)
		} else {
			v, ok := refTrans[[2]byte{prev, y}]
			sc = sc.then(v, ok)
		}
		e, ok := m.emit(y, r)
		sc = sc.then(e, ok)
		prev = y
	}
	for _, w := range ws {
		rs := []rune(w)
		for i, r := range rs {
			y := byte('M')
			switch {
			case len(rs) == 1:
				y = 'S'
			case i == 0:
				y = 'B'
			case i == len(rs)-1:
				y = 'E'
			}
			step(y, r)
		}
	}
	return sc
}

// cutRegs are the expressions a cut may be given; without any, those of the
// HMM package count.
var cutRegs = [][]*regexp.Regexp{
	nil,
	userRegs[:1],
	userRegs,
	{regexp.MustCompile(`\d+|[a-c]+`), regexp.MustCompile(`[中国人民银行大]+`)},
	// matches of both overlap
	{regexp.MustCompile(`\d+年|[a-z]+|人民|[。大]大`), regexp.MustCompile(`[中国人\d大]+`)},
	{regexp.MustCompile(`か|\d\.`), regexp.MustCompile(`[\p{Han}な]+`)},
}

const overlapRegs = 4

var defRegs = []*regexp.Regexp{regexp.MustCompile(`[0-9]+\.[0-9]+|[a-zA-Z0-9]+`), regexp.MustCompile(`\p{Han}+`)}

// hmmItem is a stretch of a text: characters to be cut with the model (run),
// or others.
type hmmItem struct {
	text string
	run  bool
}

// hmmItems divides a text as the expressions say: runs of the second, matches
// of the first, and what lies between.
func hmmItems(x string, regs []*regexp.Regexp) (out []hmmItem) {
	skip, han := defRegs[0], defRegs[1]
	if len(regs) > 0 {
		skip = regs[0]
	}
	if len(regs) > 1 {
		han = regs[1]
	}
	for x != "" {
		h, k := han.FindStringIndex(x), skip.FindStringIndex(x)
		end := len(x)
		switch {
		case h != nil && h[0] == 0:
			end = h[1]
		case k != nil && k[0] == 0:
			end = k[1]
			h = nil
		default:
			if h != nil {
				end = h[0]
			}
			if k != nil && k[0] < end {
				end = k[0]
			}
			h = nil
		}
		out = append(out, hmmItem{x[:end], h != nil})
		x = x[end:]
	}
	return
}

// decoded checks a cut of a text made under one model; the pieces of every
// run must be a best state sequence. When exact, the other pieces are known
// too.
func decoded(m *Model, what, x string, ws []string, regs []*regexp.Regexp, exact bool, st *Stats) *Violation {
	if strings.Join(ws, "") != x {
		return viol("decode", "%s(%q) = %q does not spell the text", what, x, ws)
	}
	items := hmmItems(x, regs)
	if !exact {
		var l []hmmItem
		for _, it := range items {
			if n := len(l); !it.run && n > 0 && !l[n-1].run {
				l[n-1].text += it.text
				continue
			}
			l = append(l, it)
		}
		items = l
	}
	k := 0
	for _, it := range items {
		k0, n := k, 0
		for n < len(it.text) {
			n += len(ws[k])
			k++
		}
		if n != len(it.text) || exact && !it.run && k != k0+1 {
			return viol("decode", "%s(%q, %v) = %q: the pieces %q do not keep to %q", what, x, regs, ws, ws[k0:k], it.text)
		}
		if !it.run {
			continue
		}
		best := m.bestStates([]rune(it.text))
		if best.miss > 0 {
			st.count("runs no state sequence of the model allows")
			continue
		}
		got := m.stateScore(ws[k0:k])
		if got.miss > 0 || got.lp < best.lp-1e-9*(1+math.Abs(best.lp)) {
			return viol("decode", "%s(%q, %v) = %q: the words %q of a run have log probability %s (impossible steps: %d), the best state sequence has %s", what, x, regs, ws, ws[k0:k], fl(got.lp), got.miss, fl(best.lp))
		}
		st.count("runs decoded")
	}
	return nil
}

// opDecoded checks the words of a cut operation.
func opDecoded(m *Model, op Op, ws []string, st *Stats) *Violation {
	return decoded(m, op.K, op.s(0), ws, cutReg(op), op.K == "hmmcut" || op.K == "hmmraw" || op.K == "hmmmod", st)
}

func cutReg(op Op) []*regexp.Regexp {
	switch op.K {
	case "hmmcut", "hmmraw", "cutdag":
		// runs that hold characters of words are cut at these first
		if op.N > 0 && op.N < len(cutRegs) && !(op.K == "cutdag" && op.N == overlapRegs) {
			return cutRegs[op.N]
		}
	}
	return nil
}

func genC16(r *Rng, p *Plan) {
	for i := r.between(1, 4); i > 0; i-- {
		m := newModel(r)
		if r.p(2) {
			for _, h := range hanPool {
				for _, mm := range []map[string]float64{m.B, m.E, m.M, m.S} {
					if _, ok := mm[h]; !ok {
						mm[h] = -float64(r.between(1, 1500)) / 100
					}
				}
			}
		}
		if len(p.Models) > 0 && r.p(3) { // differs little from the one before
			o := p.Models[len(p.Models)-1]
			pickS(r, func() { m.B = o.B }, func() { m.E = o.E }, func() { m.S = o.S; m.M = o.M })()
		}
		p.Models = append(p.Models, m)
	}
	text := func() Str {
		var b strings.Builder
		for i := r.between(1, 3); i > 0; i-- {
			b.WriteString(hanText(r, r.between(1, pickS(r, 4, 4, 12, 12, 40, 40, 250, 700))))
			if i > 1 || r.p(4) {
				b.WriteString(pickS(r, "abc", "12", "，", " ", "x1", "3.14", "。", "かな", "\n", "12年", "5月abcd", "1.2.3", "4."))
			}
		}
		return Str(b.String())
	}
	c := Cfg{DefHMM: r.p(4)}
	p.Cfgs = []Cfg{c}
	f := vos.FileSpec{Name: "/d/0", Data: Str("abc 5 n\nx1 3 n\n")}
	newDelivery(r, &f)
	if r.p(3) {
		genFault(r, &f)
	}
	p.Files = []vos.FileSpec{f}
	cut := func() Op {
		op := Op{K: pickS(r, "hmmcut", "hmmraw", "cuth", "cutdag", "hmmmod"), S: []Str{text()}, B: true}
		if r.p(2) && op.K != "cuth" && op.K != "hmmmod" {
			op.N = r.n(len(cutRegs))
		}
		return op
	}
	if r.p(3) {
		// one model, several clients
		p.Variant = "clients"
		p.Setup = []Op{{K: "loadstr", S: []Str{"abc 5 n\nx1 3 n\n"}}, {K: "loadmodel", N: r.n(len(p.Models))}}
		for i := r.between(2, 4); i > 0; i-- {
			var ops []Op
			for k := r.between(1, 4); k > 0; k-- {
				op := cut()
				if op.K == "hmmmod" {
					op.K = "hmmcut"
				}
				ops = append(ops, op)
			}
			p.Clients = append(p.Clients, ops)
		}
		p.Sched = newSched(r, histBudget)
		return
	}
	p.Variant = "history"
	var ops []Op
	for n := r.between(2, pickS(r, 6, 20)); len(ops) < n; {
		switch r.n(8) {
		case 0, 1:
			ops = append(ops, Op{K: "loadmodel", N: r.n(len(p.Models))})
		case 2:
			ops = append(ops, pickS(r, Op{K: "loadmodel", N: -1}, Op{K: "loaddict", S: []Str{"/d/0"}}, Op{K: "empty"},
				Op{K: "add", S: []Str{"zz", "n"}, F: 3}, Op{K: "remove", S: []Str{"zz"}}, Op{K: "loadstr", S: []Str{"abc 5 n\n"}}, Op{K: "heal"}))
		default:
			op := cut()
			if op.K == "hmmmod" {
				op.N = r.n(len(p.Models)+1) - 1
			}
			ops = append(ops, op)
		}
	}
	p.Clients = [][]Op{ops}
	p.Sched = rt.Sched{Kind: "seq", Budget: histBudget}
}

func isCut(op Op) bool {
	switch op.K {
	case "hmmcut", "hmmraw", "cuth", "cutdag", "hmmmod":
		return true
	}
	return false
}

// doCut makes a cut, keeping the words.
func doCut(w *World, op Op) (ws []string, err string) {
	defer func() {
		if e := recover(); e != nil {
			if ob, ok := e.(rt.OverBudget); ok {
				panic(ob)
			}
			err = fmt.Sprint(e)
		}
		observe(sl(ws))
	}()
	s := w.inst[0].seg
	x := op.s(0)
	switch op.K {
	case "hmmcut":
		ws = s.HMMCut(x, cutReg(op)...)
	case "hmmraw":
		ws = hmm.Cut(x, cutReg(op)...)
	case "cuth":
		ws = s.Cut(x, true)
	case "cutdag":
		ws = s.CutDAG(x, cutReg(op)...)
	case "hmmmod":
		if m := w.model(op.N); m != nil {
			ws = s.HMMCutMod(x, m...)
		} else {
			ws = s.HMMCutMod(x)
		}
	}
	return
}

func runC16(p *Plan, st *Stats) *Violation {
	freshProcess(p)
	w := newWorld(p)
	if p.Variant == "clients" {
		if v := setupWorld(w, "setup"); v != nil {
			return v
		}
		if n := len(p.Setup); n == 0 || p.Setup[n-1].K != "loadmodel" {
			return nil
		}
		cur := p.Setup[len(p.Setup)-1].N
		if cur < 0 || cur >= len(p.Models) {
			return nil
		}
		type res struct {
			ws  []string
			err string
		}
		out := make([][]res, len(p.Clients))
		var fns []func()
		for i := range p.Clients {
			i := i
			out[i] = make([]res, len(p.Clients[i]))
			fns = append(fns, func() {
				for k, op := range p.Clients[i] {
					out[i][k].ws, out[i][k].err = doCut(w, op)
				}
			})
		}
		o := rt.Run(p.Sched, fns)
		st.run(o)
		st.nontrivial()
		if v := outcomeViol(o, "concurrent cuts"); v != nil {
			return v
		}
		for i := range out {
			for k, op := range p.Clients[i] {
				if out[i][k].err != "" {
					return viol("panic", "client %d %s: panic: %s", i, opStr(op), out[i][k].err)
				}
				if v := opDecoded(&p.Models[cur], op, out[i][k].ws, st); v != nil {
					return v
				}
			}
		}
		return nil
	}
	cur := -1 // the model known to be loaded
	return inRun(st, p.Sched.Budget, "history", func() *Violation {
		for i, op := range p.Clients[0] {
			switch {
			case op.K == "heal":
				vos.Heal()
			case isCut(op):
				if op.K == "hmmmod" {
					cur = op.N
				}
				ws, err := doCut(w, op)
				if err != "" {
					return viol("panic", "operation %d %s: panic: %s", i, opStr(op), err)
				}
				if cur < 0 || cur >= len(p.Models) {
					continue
				}
				st.nontrivial()
				if v := opDecoded(&p.Models[cur], op, ws, st); v != nil {
					v.Msg = fmt.Sprintf("operation %d, model %d: %s", i, cur, v.Msg)
					return v
				}
			default:
				r := w.do(op)
				if r.Panic != "" {
					return viol("panic", "operation %d %s: panic: %s", i, opStr(op), r.Panic)
				}
				switch {
				case op.K == "loadmodel":
					cur = op.N
				case p.Cfgs[0].DefHMM && op.K != "empty" && op.K != "remove":
					cur = -1
				}
			}
		}
		return nil
	})
}
