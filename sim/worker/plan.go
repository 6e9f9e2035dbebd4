package main

import (
	"strings"

	"verif.local/rt"
	"verif.local/rt/vos"
)

// Str is a byte string that survives JSON.
type Str = rt.Str

// Op is one operation of a simulated client.
type Op struct {
	K string  `json:"k"`
	I int     `json:"i,omitempty"` // instance
	S []Str   `json:"s,omitempty"`
	F float64 `json:"f,omitempty"`
	N int     `json:"n,omitempty"`
	B bool    `json:"b,omitempty"`
}

// Cfg are the options a segmenter is created with.
type Cfg struct {
	Sep        Str     `json:"sep,omitempty"`
	AlphaNum   bool    `json:"alphanum,omitempty"`
	Alpha      bool    `json:"alpha,omitempty"`
	Num        bool    `json:"num,omitempty"`
	LoadNoFreq bool    `json:"nofreq,omitempty"`
	DefHMM     bool    `json:"defhmm,omitempty"` // loads the default HMM model
	SkipPos    bool    `json:"skippos,omitempty"`
	NotStop    bool    `json:"notstop,omitempty"`
	MoreLog    bool    `json:"morelog,omitempty"`
	MinFreq    float64 `json:"minfreq,omitempty"`
	TextFreq   Str     `json:"textfreq,omitempty"`
}

// Plan is one simulated execution: everything a run does follows from it.
type Plan struct {
	Prop    string         `json:"prop"`
	Seed    uint64         `json:"seed"`
	Variant string         `json:"variant,omitempty"`
	Cfgs    []Cfg          `json:"cfgs,omitempty"`
	Files   []vos.FileSpec `json:"files,omitempty"`
	Setup   []Op           `json:"setup,omitempty"`
	Clients [][]Op         `json:"clients,omitempty"`
	Texts   []Str          `json:"texts,omitempty"`
	Models  []Model        `json:"models,omitempty"`
	MapSeed uint64         `json:"mapseed,omitempty"`
	// KeepCase turns the package option ToLower off.
	KeepCase bool     `json:"keepcase,omitempty"`
	Sched    rt.Sched `json:"sched"`
}

// Model is an HMM emission model.
type Model struct {
	B map[string]float64 `json:"b"`
	E map[string]float64 `json:"e"`
	M map[string]float64 `json:"m"`
	S map[string]float64 `json:"s"`
}

func runeMap(m map[string]float64) map[rune]float64 {
	r := make(map[rune]float64, len(m))
	for k, v := range m {
		for _, c := range k {
			r[c] = v
		}
	}
	return r
}

// Maps returns the model in the form the code under test takes.
func (m *Model) Maps() []map[rune]float64 {
	return []map[rune]float64{runeMap(m.B), runeMap(m.E), runeMap(m.M), runeMap(m.S)}
}

// Rng is the generator's random source.
type Rng struct{ s uint64 }

func (r *Rng) u() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) n(k int) int {
	if k <= 0 {
		return 0
	}
	return int(r.u() % uint64(k))
}

// between is uniform in [a,b].
func (r *Rng) between(a, b int) int { return a + r.n(b-a+1) }

// p is true one time in k.
func (r *Rng) p(k int) bool { return r.n(k) == 0 }

func pickS[T any](r *Rng, xs ...T) T { return xs[r.n(len(xs))] }

// ---- texts and dictionaries

var (
	hanPool   = []string{"中", "国", "人", "民", "银", "行", "北", "京", "大", "学", "生", "活", "一", "丁", "七", "万", "丈", "三", "上", "下", "世", "界", "长", "江", "桥", "𠮷", "々"}
	kanaPool  = []string{"こ", "れ", "は", "カ", "タ", "ナ", "ン"}
	latinPool = []string{"a", "b", "go", "hi", "word", "x1", "é", "ß", "я", "ж", "λ"}
	upPool    = []string{"A", "Go", "WORLD", "Wi", "É"}
	numPool   = []string{"1", "2", "42", "3.14", "２", "½"}
	punctPool = []string{",", ".", "。", "，", "!", " ", "-", "+", "(", "）", "\t", "\n", "《"}
	emojiPool = []string{"😀", "👍", "♥", "€", "한", "글", "𠮷"}
	combPool  = []string{"e\u0301", "\u200d", "\ufeff", "n\u0303"}
	badPool   = []string{"\xff", "\xe4\xb8", "\x80", "\xf0\x9f", "\xc3"}
	posPool   = []string{"n", "v", "ns", "vn", "a", "m", "x", "nr", "", "eng"}
	freqPool  = []string{"2", "3", "5", "10", "100", "1000", "12345", "1000000", "7.5", "2.25", "64", "3e2", "+40", "2147483649", "1099511627776"}
	lowFreqs  = []string{"1", "0", "0.5", "1.75", "-3", "x", "", "NaN", "1e400"}
)

// theme is the small alphabet a run draws from.
type theme struct {
	units []string // word building units
	sep   []string // separators for texts
	up    bool
	bad   bool
	big   bool // many large frequencies
	long  bool // some very long words
}

func newTheme(r *Rng, latin bool) *theme {
	t := &theme{}
	add := func(pool []string, n int) {
		for i := 0; i < n; i++ {
			t.units = append(t.units, pool[r.n(len(pool))])
		}
	}
	add(hanPool, r.between(2, 5))
	if r.p(4) {
		add(kanaPool, r.between(1, 2))
	}
	if latin || r.p(2) {
		add(latinPool, r.between(1, 3))
	}
	if r.p(3) {
		add(numPool, 1)
	}
	if r.p(5) {
		add(emojiPool, 1)
	}
	if r.p(8) {
		add(combPool, 1)
	}
	for i := 0; i < r.between(1, 4); i++ {
		t.sep = append(t.sep, punctPool[r.n(len(punctPool))])
	}
	t.up = r.p(3)
	t.bad = r.p(5)
	t.big = r.p(10)
	t.long = r.p(20)
	return t
}

// word builds a dictionary word (valid UTF-8, no separators).
func (t *theme) word(r *Rng) string {
	n := 1
	switch r.n(10) {
	case 0, 1:
	case 2, 3, 4, 5:
		n = 2
	case 6, 7:
		n = 3
	case 8:
		n = 4
	default:
		n = r.between(4, 8)
	}
	if r.p(120) {
		n = r.between(9, 40)
	} else if t.long && r.p(10) {
		// of many characters: one that repeats itself makes lookups cubic
		return t.units[r.n(len(t.units))] + hanText(r, r.between(40, pickS(r, 80, 260)))
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(t.units[r.n(len(t.units))])
	}
	return b.String()
}

// text builds an input text from words, units and separators.
func (t *theme) text(r *Rng, words []string, max int) string {
	var b strings.Builder
	n, lim := r.between(1, max), 800
	if r.p(40) {
		n = 0
	} else if r.p(40) {
		lim = pickS(r, 800, 800, 4000)
		n = r.between(max, max*r.between(2, 25))
	}
	if n > 0 && r.p(80) {
		b.WriteString(hanText(r, r.between(20, pickS(r, 40, 60, 120))))
	}
	for i := 0; i < n && b.Len() < lim; i++ {
		switch r.n(12) {
		case 0, 1, 2, 3:
			if len(words) > 0 {
				b.WriteString(words[r.n(len(words))])
				continue
			}
			b.WriteString(t.word(r))
		case 4, 5, 6, 7:
			b.WriteString(t.units[r.n(len(t.units))])
		case 8:
			b.WriteString(t.sep[r.n(len(t.sep))])
		case 9:
			if t.up {
				b.WriteString(upPool[r.n(len(upPool))])
			} else {
				b.WriteString(hanPool[r.n(len(hanPool))])
			}
		case 10:
			if t.bad {
				b.WriteString(badPool[r.n(len(badPool))])
			} else {
				b.WriteString(numPool[r.n(len(numPool))])
			}
		default:
			all := [][]string{latinPool, kanaPool, emojiPool, punctPool, numPool}
			pl := all[r.n(len(all))]
			b.WriteString(pl[r.n(len(pl))])
		}
	}
	return b.String()
}

// Ent is one dictionary entry as written in a source.
type Ent struct {
	W, F, P string
	NF      int // fields: 1 word, 2 word+freq, 3 word+freq+pos
}

func (e Ent) line(sep string) string {
	switch e.NF {
	case 1:
		return e.W
	case 2:
		return e.W + sep + " " + e.F
	}
	return e.W + sep + " " + e.F + sep + " " + e.P
}

// entries draws a dictionary.
func (t *theme) entries(r *Rng, n int, noFreq, low bool) []Ent {
	var es []Ent
	if n > 1 && r.p(60) {
		if n *= r.between(4, 30); n > 160 {
			n = 160
		}
	}
	for i := 0; i < n; i++ {
		e := Ent{W: t.word(r), F: freqPool[r.n(len(freqPool))], P: posPool[r.n(len(posPool))], NF: 3}
		if t.big && !r.p(3) {
			e.F = freqPool[len(freqPool)-1-r.n(2)]
		}
		if len(es) > 0 && r.p(8) {
			e.W = es[r.n(len(es))].W // duplicate
		}
		if low && r.p(6) {
			e.F = pickS(r, "1", "0", "0.5", "1.75", "-3")
		}
		if e.P == "" {
			e.NF = 2
		}
		if noFreq && r.p(4) {
			e.NF = 1
		}
		es = append(es, e)
	}
	return es
}

func wordsOf(es []Ent) []string {
	var w []string
	for _, e := range es {
		w = append(w, e.W)
	}
	return w
}

func render(es []Ent, sep, nl string, finalNL bool) string {
	var b strings.Builder
	for i, e := range es {
		b.WriteString(e.line(sep))
		if i < len(es)-1 || finalNL {
			b.WriteString(nl)
		}
	}
	return b.String()
}

// newModel draws an HMM model over the theme's Han characters.
func newModel(r *Rng) Model {
	m := Model{B: map[string]float64{}, E: map[string]float64{}, M: map[string]float64{}, S: map[string]float64{}}
	for _, h := range hanPool {
		for _, mm := range []map[string]float64{m.B, m.E, m.M, m.S} {
			if !r.p(5) {
				mm[h] = -float64(r.between(1, 1500)) / 100
			}
		}
	}
	if r.p(10) {
		// a model without words of more than two characters, or of one
		*pickS(r, &m.M, &m.S) = map[string]float64{}
	}
	return m
}

// hanText is one uninterrupted run of Han characters.
func hanText(r *Rng, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(hanPool[r.n(len(hanPool))])
	}
	return b.String()
}

// newSched draws a scheduling strategy.
func newSched(r *Rng, budget uint64) rt.Sched {
	s := rt.Sched{Seed: r.u(), Budget: budget}
	switch r.n(10) {
	case 0, 1, 2, 3:
		s.Kind = "gap"
		s.Gap = pickS(r, 1, 2, 3, 5, 8, 15, 30, 60, 150, 400)
	case 4, 5, 6:
		s.Kind = "pct"
		s.Depth = r.between(1, 6)
		s.Est = pickS(r, 30, 100, 300, 1000, 3000, 10000)
	default:
		s.Kind = "hot"
		s.Mod = pickS(r, 3, 8, 20, 50)
		s.Gap = pickS(r, 1, 2, 4, 10)
	}
	return s
}

// newDelivery draws a delivery plan for a file.
func newDelivery(r *Rng, f *vos.FileSpec) {
	switch r.n(5) {
	case 0: // everything at once
	case 1:
		f.Chunks = []int{1}
	case 2:
		f.Chunks = []int{r.between(1, 7)}
	case 3:
		n := r.between(1, 6)
		for i := 0; i < n; i++ {
			f.Chunks = append(f.Chunks, r.between(1, 40))
		}
		if r.p(2) {
			f.Chunks = append(f.Chunks, 0)
		}
	default:
		f.Chunks = []int{-1, r.between(1, 3), 0, r.between(1, 100)}
	}
	f.EOFWithData = r.p(3)
}
