package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/go-ego/gse"

	"verif.local/rt/vos"
)

// ---- reference model of a dictionary: a first-wins word table

type tent struct {
	w string
	f float64
	p string
}

type table struct {
	c    Cfg
	ents []tent
	idx  map[string]int
}

func newTable(c Cfg) *table { return &table{c: c, idx: map[string]int{}} }

// lower is the case words of the dictionary and HMM cuts get.
func lower(s string) string {
	if !gse.ToLower {
		return s
	}
	return strings.ToLower(s)
}

// lowASCII is the case words of the other cuts get.
func lowASCII(s string) string {
	if !gse.ToLower {
		return s
	}
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 'a' - 'A'
		}
	}
	return string(b)
}

// key is the form words are stored in.
func (c Cfg) key(w string) string {
	if c.Alpha {
		return w
	}
	return lowASCII(w)
}

func (t *table) clone() *table {
	n := newTable(t.c)
	n.ents = append(n.ents, t.ents...)
	for k, v := range t.idx {
		n.idx[k] = v
	}
	return n
}

// add inserts an absent word; the result is what the call must report.
func (t *table) add(e tent) string {
	e.w = t.c.key(e.w)
	if strings.IndexByte(e.w, 0) >= 0 {
		return "error"
	}
	if e.w == "" {
		return "ok"
	}
	if _, ok := t.idx[e.w]; !ok {
		t.idx[e.w] = len(t.ents)
		t.ents = append(t.ents, e)
	}
	return "ok"
}

func (t *table) remove(w string) string {
	w = t.c.key(w)
	i, ok := t.idx[w]
	if !ok {
		return "error"
	}
	t.ents = append(t.ents[:i:i], t.ents[i+1:]...)
	delete(t.idx, w)
	for k, v := range t.idx {
		if v > i {
			t.idx[k] = v - 1
		}
	}
	return "ok"
}

func (t *table) get(w string) (tent, bool) {
	i, ok := t.idx[w]
	if !ok {
		return tent{}, false
	}
	return t.ents[i], true
}

func (t *table) total() float64 {
	s := 0.0
	for _, e := range t.ents {
		s += e.f
	}
	return s
}

// units is the number of segmentation units of a word, written independently
// of the code under test: a maximal run of short letters and numbers is one
// unit (each of them one with AlphaNum), everything else is one per rune.
func (c Cfg) units(w string) int {
	n, run := 0, false
	for len(w) > 0 {
		r, k := utf8.DecodeRuneInString(w)
		w = w[k:]
		word := k <= 2 && (unicode.IsLetter(r) && !c.Alpha || unicode.IsNumber(r) && !c.Num)
		if !word || !run || c.AlphaNum {
			n++
		}
		run = word
	}
	return n
}

func (t *table) maxUnits() int {
	m := 0
	for _, e := range t.ents {
		if u := t.c.units(e.w); u > m {
			m = u
		}
	}
	return m
}

// row decides what one source row gives.
func (c Cfg) row(fields []string) (tent, bool) {
	if len(fields) == 0 {
		return tent{}, false
	}
	min, def := c.MinFreq, string(c.TextFreq)
	if min == 0 {
		min = 2
	}
	if def == "" {
		def = "2.0"
	}
	fs := ""
	if len(fields) > 1 {
		fs = fields[1]
	} else {
		if !c.LoadNoFreq {
			return tent{}, false
		}
		fs = def
	}
	f, err := strconv.ParseFloat(fs, 64)
	if err != nil || f < min || f == 0 {
		return tent{}, false
	}
	if utf8.RuneCountInString(fields[0]) < 2 {
		f = 2
	}
	e := tent{w: fields[0], f: f}
	if len(fields) > 2 {
		e.p = fields[2]
	}
	if e.w == "" || strings.IndexByte(e.w, 0) >= 0 {
		return tent{}, false
	}
	return e, true
}

// srow is one row of a source.
type srow struct {
	fields []string
	e      tent
	ok     bool
	end    int  // offset just after the row's newline
	nl     bool // it has one
}

// rows parses well-formed contents; wf is false when they are not.
func (c Cfg) rows(data string) (rs []srow, wf bool) {
	wf = true
	off := 0
	for off < len(data) {
		i := strings.IndexByte(data[off:], '\n')
		line, nl := data[off:], i >= 0
		if nl {
			line = data[off : off+i]
			off += i + 1
		} else {
			off = len(data)
		}
		line = strings.TrimSuffix(line, "\r")
		r := srow{end: off, nl: nl}
		if line != "" {
			r.fields = strings.Split(line, string(c.Sep)+" ")
		}
		if len(r.fields) > 3 || !utf8.ValidString(line) {
			wf = false
		}
		for k, f := range r.fields {
			if f == "" || strings.IndexFunc(f, unicode.IsSpace) >= 0 || c.Sep != "" && strings.Contains(f, string(c.Sep)) || strings.ContainsAny(f, "\x00") {
				wf = false
			}
			if k == 1 {
				if x, err := strconv.ParseFloat(f, 64); err != nil || x != x || x > 1e13 {
					wf = false
				}
			}
		}
		r.e, r.ok = c.row(r.fields)
		rs = append(rs, r)
	}
	return
}

func (t *table) addRows(rs []srow) {
	for _, r := range rs {
		if r.ok {
			t.add(r.e)
		}
	}
}

// ---- observing a dictionary

type dictObs struct {
	find  func(string) (float64, string, bool)
	num   func() int
	total func() float64
	max   func() int
	value func(string) error
}

func segObs(s *gse.Segmenter) dictObs {
	return dictObs{
		find:  s.Find,
		num:   func() int { return s.Dict.NumTokens() },
		total: func() float64 { return s.Dict.TotalFreq() },
		max:   func() int { return s.Dict.MaxTokenLen() },
		value: func(w string) error { _, _, err := s.Value(w); return err },
	}
}

// diff says how what is observed differs from the table, over a universe of
// strings; "" if it does not.
func (t *table) diff(o dictObs, universe []string) string {
	if n := o.num(); n != len(t.ents) {
		return fmt.Sprintf("word count %d, the table has %d entries", n, len(t.ents))
	}
	if x := o.total(); x != t.total() {
		return fmt.Sprintf("total frequency %s, the entries sum to %s", fl(x), fl(t.total()))
	}
	if o.max != nil {
		if m := o.max(); m < t.maxUnits() {
			return fmt.Sprintf("longest word %d, but an entry has %d units", m, t.maxUnits())
		}
	}
	for _, w := range universe {
		f, p, ok := o.find(w)
		e, in := t.get(w)
		if in && (!ok || f != e.f || p != e.p) {
			return fmt.Sprintf("lookup of %q gives %s %q %v, the entry is %s %q", w, fl(f), p, ok, fl(e.f), e.p)
		}
		if !in && (f != 0 || p != "") {
			return fmt.Sprintf("lookup of %q, which is no entry, gives %s %q %v", w, fl(f), p, ok)
		}
		if o.value != nil {
			if err := o.value(w); (err == nil) != in {
				return fmt.Sprintf("value lookup of %q: error %v, entry %v", w, err, in)
			}
		}
	}
	for _, e := range t.ents {
		f, p, ok := o.find(e.w)
		if !ok || f != e.f || p != e.p {
			return fmt.Sprintf("lookup of %q gives %s %q %v, the entry is %s %q", e.w, fl(f), p, ok, fl(e.f), e.p)
		}
	}
	return ""
}

func (t *table) String() string {
	var b strings.Builder
	for _, e := range t.ents {
		fmt.Fprintf(&b, "%q/%s/%q ", e.w, fl(e.f), e.p)
		if b.Len() > 1500 {
			b.WriteString("...")
			break
		}
	}
	return b.String()
}

// universeOf collects every word of a plan, its prefixes and near misses.
func universeOf(p *Plan) []string {
	set := map[string]bool{"": true}
	add := func(w string) {
		if len(w) > 200 {
			w = w[:200]
		}
		set[w] = true
		set[lowASCII(w)] = true
		rs := []rune(w)
		for i := 1; i < len(rs) && i < 9; i++ {
			set[string(rs[:i])] = true
		}
		if len(rs) > 0 && len(rs) < 9 {
			set[w+"\x00"] = true
			set[string(rs[1:])] = true
		}
	}
	file := func(d string) {
		for _, l := range strings.Split(d, "\n") {
			for _, f := range strings.FieldsFunc(l, func(r rune) bool { return r == ' ' || r == ',' || r == ';' || r == '\r' }) {
				add(f)
			}
		}
	}
	for _, f := range p.Files {
		file(string(f.Data))
	}
	op := func(o Op) {
		for _, s := range o.S {
			switch o.K {
			case "loadstr", "loadembed", "extidfstr", "loadstopstr", "embed", "newembed", "stopembed":
				file(string(s))
			default:
				if len(s) < 100 {
					add(string(s))
				}
			}
		}
	}
	for _, o := range p.Setup {
		op(o)
	}
	for _, c := range p.Clients {
		for _, o := range c {
			op(o)
		}
	}
	var u []string
	for w := range set {
		u = append(u, w)
	}
	sort.Strings(u)
	return u
}

// ---- what a load may have done

// source is one file, stream or string a load reads, in order.
type source struct {
	name string
	rows []srow
}

func fileData(p *Plan, name string) (string, bool) {
	for i := range p.Files {
		if p.Files[i].Name == name {
			return string(p.Files[i].Data), true
		}
	}
	return "", false
}

func fileSpec(p *Plan, name string) *vos.FileSpec {
	for i := range p.Files {
		if p.Files[i].Name == name {
			return &p.Files[i]
		}
	}
	return nil
}

// dictNames are the file names of a dictionary argument.
func dictNames(arg string) []string {
	if strings.Contains(arg, ", ") {
		return strings.Split(arg, ", ")
	}
	return strings.Split(arg, ",")
}

// loadRows returns the rows a load of the named sources may accept: all of
// them when no fault was delivered, otherwise those that were complete before
// the fault (of which any prefix is allowed).
func loadRows(p *Plan, c Cfg, names []string, before, after map[string]int) (rs []srow, faulted bool) {
	for _, n := range names {
		sp := fileSpec(p, n)
		if sp == nil {
			return rs, true
		}
		all, _ := c.rows(string(sp.Data))
		if after[n] == before[n] {
			rs = append(rs, all...)
			continue
		}
		for _, r := range all {
			if sp.OpenErr == "" && r.end <= sp.ErrAt && r.nl {
				rs = append(rs, r)
			}
		}
		return rs, true
	}
	return rs, false
}

// adopt finds the prefix of rs that explains what is observed; nil if none.
func (t *table) adopt(rs []srow, o dictObs, universe []string) (*table, string) {
	why := ""
	for k := len(rs); k >= 0; k-- {
		n := t.clone()
		n.addRows(rs[:k])
		d := n.diff(o, universe)
		if d == "" {
			return n, ""
		}
		if why == "" {
			why = d
		}
	}
	return nil, why
}

func dedup(ws []string) []string {
	seen := map[string]bool{}
	var r []string
	for _, w := range ws {
		if !seen[w] {
			seen[w] = true
			r = append(r, w)
		}
	}
	return r
}
