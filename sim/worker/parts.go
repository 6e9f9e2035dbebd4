package main

import (
	"fmt"
	"math"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/go-ego/gse"
)

// C22 (the words listed by search mode), C23 (the part-of-speech tagger) and
// C24 (suggested frequencies), in every state a history reaches.

func init() {
	scenarios["C22"] = Scenario{genC22, runC22}
	scenarios["C23"] = Scenario{genC23, runC23}
	scenarios["C24"] = Scenario{genC24, runC24}
}

// ---- C22

func genC22(r *Rng, p *Plan) { genState(r, p, 10) }

func isKana(s string) bool {
	for _, r := range s {
		if unicode.In(r, unicode.Hiragana, unicode.Katakana) {
			return true
		}
	}
	return false
}

// parted checks the parts of the entry tok, recursively.
func parted(t *table, tok *gse.Token, depth int, st *Stats) *Violation {
	w := tok.Text()
	u := t.c.split(w)
	subs := tok.Segments()
	if len(u) < 2 {
		if len(subs) > 0 {
			return viol("parts", "the single unit %q has the parts %s", w, parts(subs))
		}
		return nil
	}
	weight := func(x string) (float64, bool) {
		if e, ok := t.get(x); ok {
			total := float32(math.Log2(t.total()))
			return float64(total - float32(math.Log2(e.f))), true
		}
		return unknownWeight, len(t.c.split(x)) == 1
	}
	sum, pos, n := 0.0, 0, 0
	left := func(end int) *Violation { // units left out up to end
		for pos < end {
			x := t.c.split(w[pos:])[0]
			if pos+len(x) > end || !isKana(x) {
				return viol("parts", "the parts of %q leave out %q: %s", w, w[pos:end], parts(subs))
			}
			d, _ := weight(x)
			sum += d
			pos += len(x)
			n++
		}
		return nil
	}
	for _, g := range subs {
		x := g.Token().Text()
		if g.Start() < pos || g.End() > len(w) || g.Start() > g.End() || w[g.Start():g.End()] != x {
			return viol("parts", "the part %q of %q is at [%d,%d): %s", x, w, g.Start(), g.End(), parts(subs))
		}
		if v := left(g.Start()); v != nil {
			return v
		}
		d, ok := weight(x)
		if !ok {
			return viol("parts", "the part %q of %q is neither an entry nor a single unit: %s", x, w, parts(subs))
		}
		sum += d
		pos = g.End()
		n++
		e, known := t.get(x)
		if known && (g.Token().Pos() != e.p || g.Token().Freq() != e.f) {
			return viol("parts", "the part %q of %q has tag %q and frequency %s, its entry %q and %s", x, w, g.Token().Pos(), fl(g.Token().Freq()), e.p, fl(e.f))
		}
		if known && depth < 3 {
			if v := parted(t, g.Token(), depth+1, st); v != nil {
				return v
			}
		}
	}
	if v := left(len(w)); v != nil {
		return v
	}
	best := t.minWeight(u, false)
	tol := 0.01 + best*1e-6*float64(len(u)+1)
	if n < 2 || !(sum <= best+tol) {
		return viol("parts", "the parts of %q weigh %s, its lightest split into two or more pieces weighs %s: %s", w, fl(sum), fl(best), parts(subs))
	}
	st.count("divided words compared")
	return nil
}

func parts(subs []*gse.Segment) string {
	var l []string
	for _, g := range subs {
		l = append(l, fmt.Sprintf("%q[%d,%d)", g.Token().Text(), g.Start(), g.End()))
	}
	return strings.Join(l, " ")
}

// listing is what search mode lists for a word.
func listing(tok *gse.Token, out []*gse.Token) []*gse.Token {
	on := false
	for _, g := range tok.Segments() {
		x := g.Token()
		first, _ := utf8.DecodeRuneInString(x.Text())
		on = on || len(x.Segments()) > 1 || isKana(string(first))
		if on {
			out = listing(x, out)
		}
	}
	return append(out, tok)
}

func runC22(p *Plan, st *Stats) *Violation {
	return follow(p, st, func(w *World, t *table, x string, fresh bool, st *Stats) *Violation {
		s := w.inst[0].seg
		for _, mode := range []bool{false, true} {
			segs := s.ModeSegment([]byte(x), mode)
			var toks []*gse.Token
			for i := range segs {
				tok := segs[i].Token()
				if e, ok := t.get(tok.Text()); ok && (tok.Pos() != e.p || tok.Freq() != e.f) {
					return viol("tag", "segment %q of %q has tag %q and frequency %s, its entry %q and %s", tok.Text(), x, tok.Pos(), fl(tok.Freq()), e.p, fl(e.f))
				} else if !ok && len(tok.Segments()) > 0 {
					return viol("tag", "segment %q of %q is no entry but has parts", tok.Text(), x)
				}
				if !mode {
					toks = append(toks, tok)
					continue
				}
				toks = listing(tok, toks)
				if _, ok := t.get(tok.Text()); ok && fresh {
					if v := parted(t, tok, 0, st); v != nil {
						return v
					}
				}
			}
			var words, str, pos []string
			for _, tok := range toks {
				words = append(words, tok.Text())
				str = append(str, tok.Text()+"/"+tok.Pos()+" ")
				pos = append(pos, fmt.Sprintf("%q/%q", tok.Text(), tok.Pos()))
			}
			got := s.Slice(x, mode)
			if sl(got) != sl(words) {
				return viol("list", "Slice(%q, %v) = %q, expected %q", x, mode, got, words)
			}
			if got := s.String(x, mode); got != strings.Join(str, "") {
				return viol("list", "String(%q, %v) = %q, expected %q", x, mode, got, strings.Join(str, ""))
			}
			var gp []string
			tagged := s.Pos(x, mode)
			for _, sp := range tagged {
				gp = append(gp, fmt.Sprintf("%q/%q", sp.Text, sp.Pos))
			}
			with, without := *s, *s
			with.SkipPos, without.SkipPos = false, true
			for _, sep := range []string{" ", "", "|"} {
				a := with.PosStr(tagged, sep)
				if sep == " " && a != with.PosStr(tagged) {
					return viol("list", "PosStr of %s = %q, with a space given %q", pos, with.PosStr(tagged), a)
				}
				b := without.PosStr(tagged, sep)
				var l []string
				for _, y := range str {
					l = append(l, strings.TrimSuffix(y, " "))
				}
				if a != strings.Join(l, sep) || b != strings.Join(words, sep) {
					return viol("list", "PosStr of %s with %q between = %q, without tags %q", pos, sep, a, b)
				}
			}
			if fmt.Sprint(gp) != fmt.Sprint(pos) {
				return viol("list", "Pos(%q, %v) = %s, expected %s", x, mode, gp, pos)
			}
			if a, b := s.Slice(x), s.CutSearch(x); !mode && sl(a) != sl(words) || mode && sl(b) != sl(words) {
				return viol("list", "Slice(%q) = %q, CutSearch = %q, but Slice(%v) = %q", x, a, b, mode, words)
			}
			observe(sl(words))
			st.count("lists compared")
		}
		if !fresh {
			return nil
		}
		for i, e := range t.ents {
			if i > 8 {
				break
			}
			_, id, err := s.Value(e.w)
			if err != nil || id < 0 || id >= len(s.Dict.Tokens) || s.Dict.Tokens[id].Text() != e.w {
				continue // told by C09
			}
			if v := parted(t, &s.Dict.Tokens[id], 0, st); v != nil {
				return v
			}
		}
		return nil
	})
}

// ---- C23

func genC23(r *Rng, p *Plan) { genState(r, p, 8) }

// tagBlock says whether the tagger looks r up in its dictionary.
func tagBlock(r rune) bool {
	return unicode.Is(unicode.Han, r) || r < 0x80 && (unicode.IsLetter(r) || unicode.IsDigit(r)) || strings.ContainsRune("+#&._", r)
}

func asciiWord(s string) bool {
	for _, r := range s {
		if r >= 0x80 || !unicode.IsLetter(r) && !unicode.IsDigit(r) {
			return false
		}
	}
	return s != ""
}

func runC23(p *Plan, st *Stats) *Violation {
	var dict *gse.Dictionary
	return follow(p, st, func(w *World, t *table, x string, fresh bool, st *Stats) *Violation {
		in := w.inst[0]
		// registered once for every dictionary: later edits count
		if st != nil && (in.seg.Dict != dict || p.Seed%3 == 0) {
			dict = in.seg.Dict
			in.tag.WithGse(*in.seg)
		}
		plain := in.tag.Cut(x)
		if a := in.tag.Cut(x, false); posl(a) != posl(plain) {
			return viol("tags", "the tagger's Cut(%q) is %s, with false %s", x, posl(plain), posl(a))
		}
		observe(posl(plain))
		text := ""
		sure := true // the single pieces of plain are known
		type block struct{ ps []gse.SegPos }
		var blocks []block
		in0 := false
		run := false // the piece before is a run of letters and digits
		for _, sp := range plain {
			text += sp.Text
			n := utf8.RuneCountInString(sp.Text)
			if n == 0 {
				return viol("tags", "the tagger's Cut(%q) has an empty piece: %s", x, posl(plain))
			}
			r, _ := utf8.DecodeRuneInString(sp.Text)
			e, ok := t.get(sp.Text)
			before := run
			run = asciiWord(sp.Text) && sp.Pos == "eng" && !(ok && e.p == "eng" && n > 1)
			if before && run {
				return viol("tags", "the tagger's Cut(%q) divides a run of letters and digits before %q: %s", x, sp.Text, posl(plain))
			}
			switch {
			case !tagBlock(r):
				in0 = false
				if n > 1 && sp.Text != "\r\n" || sp.Pos != "x" {
					return viol("tags", "the tagger's Cut(%q) has the piece %q/%q outside of words: %s", x, sp.Text, sp.Pos, posl(plain))
				}
				blocks = append(blocks, block{[]gse.SegPos{sp}})
				continue
			case asciiWord(sp.Text) && sp.Pos == "eng":
				if ok && e.p == "eng" && n > 1 {
					sure = false
				}
			case ok && n == 1 && asciiWord(sp.Text):
				return viol("tags", "the tagger's Cut(%q) tags the single letter %q %q: %s", x, sp.Text, sp.Pos, posl(plain))
			case ok && sp.Pos != e.p || !ok && (n > 1 || sp.Pos != "x"):
				return viol("tags", "the tagger's Cut(%q) tags %q %q, its entry (%v) has tag %q: %s", x, sp.Text, sp.Pos, ok, e.p, posl(plain))
			}
			if !in0 {
				blocks = append(blocks, block{})
				in0 = true
			}
			b := &blocks[len(blocks)-1]
			if asciiWord(sp.Text) && sp.Pos == "eng" {
				for _, c := range sp.Text {
					b.ps = append(b.ps, gse.SegPos{Text: string(c)})
				}
				continue
			}
			b.ps = append(b.ps, sp)
		}
		if text != x {
			return viol("tags", "the tagger's Cut(%q) spells %q: %s", x, text, posl(plain))
		}
		st.count("taggings")
		// with the HMM
		got := in.tag.Cut(x, true)
		observe(posl(got))
		text = ""
		for _, sp := range got {
			text += sp.Text
			if sp.Text == "" {
				return viol("tags", "the tagger's Cut(%q, true) has an empty piece: %s", x, posl(got))
			}
		}
		if text != x {
			return viol("tags", "the tagger's Cut(%q, true) spells %q: %s", x, text, posl(got))
		}
		if !sure {
			return nil
		}
		k := 0
		take := func(text, tag string) *Violation {
			if k >= len(got) || got[k].Text != text || got[k].Pos != tag {
				return viol("hmm", "the tagger's Cut(%q, true) is %s, piece %d is expected to be %q/%q as in the cut without HMM %s", x, posl(got), k, text, tag, posl(plain))
			}
			k++
			return nil
		}
		tagOf := func(s string) string {
			if e, ok := t.get(s); ok {
				return e.p
			}
			return "x"
		}
		for _, b := range blocks {
			var run []string
			flush := func() *Violation {
				defer func() { run = nil }()
				j := strings.Join(run, "")
				_, word := t.get(j)
				if len(run) < 2 || word {
					for _, s := range run {
						if v := take(s, tagOf(s)); v != nil {
							return v
						}
					}
					return nil
				}
				for _, blk := range hanBlocks(j) {
					x0, k0 := blk, k
					for len(blk) > 0 {
						if k >= len(got) || !strings.HasPrefix(blk, got[k].Text) {
							return viol("hmm", "the tagger's Cut(%q, true) is %s, from piece %d the characters %q are expected to be cut, as they are single in %s", x, posl(got), k, blk, posl(plain))
						}
						blk = blk[len(got[k].Text):]
						k++
					}
					if v := tagged(x0, got[k0:k], st); v != nil {
						v.Msg += fmt.Sprintf(" (in %q)", x)
						return v
					}
				}
				return nil
			}
			for _, sp := range b.ps {
				if r, n := utf8.DecodeRuneInString(sp.Text); n == len(sp.Text) && tagBlock(r) {
					run = append(run, sp.Text)
					continue
				}
				if v := flush(); v != nil {
					return v
				}
				if v := take(sp.Text, sp.Pos); v != nil {
					return v
				}
			}
			if v := flush(); v != nil {
				return v
			}
		}
		if k != len(got) {
			return viol("hmm", "the tagger's Cut(%q, true) is %s, expected the pieces of %s", x, posl(got), posl(plain))
		}
		st.count("taggings with the HMM")
		return nil
	})
}

// ---- C24

func genC24(r *Rng, p *Plan) {
	genState(r, p, 6)
	p.Texts = nil
	var ws []string
	for _, op := range p.Clients[0] {
		if (op.K == "add" || op.K == "addforce") && utf8.ValidString(op.s(0)) {
			ws = append(ws, op.s(0))
		}
	}
	if r.p(6) {
		// one character outweighs all others, and many of it are one word
		u := pickS(r, hanPool...)
		x := strings.Repeat(u, r.between(2, 8))
		ops := p.Clients[0]
		for _, o := range []Op{{S: []Str{Str(u), "n"}, F: 1 << 36}, {S: []Str{Str(x), "n"}, F: pickS(r, 1<<20, 1<<26, 3.0)}} {
			a, b := o, o
			a.K, b.K = "add", "readd"
			ops = append(ops, a, b)
		}
		p.Clients[0] = ops
		p.Texts = append(p.Texts, Str(x))
	}
	for i := r.between(1, 5); i > 0; i-- {
		x := ""
		for k := r.between(1, 3); k > 0; k-- {
			if len(ws) > 0 && !r.p(3) {
				x += ws[r.n(len(ws))]
			} else {
				x += hanPool[r.n(len(hanPool))]
			}
		}
		p.Texts = append(p.Texts, Str(x))
	}
}

func runC24(p *Plan, st *Stats) *Violation {
	return follow(p, st, func(w *World, t *table, x string, fresh bool, st *Stats) *Violation {
		if len(t.ents) == 0 || x == "" {
			return nil
		}
		rs := []rune(x)
		for _, r := range rs {
			if r < 0x2e80 {
				return nil // runs of letters are joined in the cut
			}
		}
		s := w.inst[0].seg
		total := t.total()
		known := true
		share := func(ws []string) float64 {
			v := 1.0
			for _, k := range ws {
				if e, ok := t.get(k); ok {
					v *= e.f
				} else {
					for _, o := range t.ents {
						known = known && !strings.HasPrefix(o.w, k)
					}
				}
				v /= total
			}
			return v * total
		}
		// several words: they stay apart
		if n := 1 + int(p.Seed%3); len(rs) > n {
			ws := []string{string(rs[:n]), string(rs[n:])}
			if p.Seed%5 == 0 {
				ws = strings.Split(x, "")
			}
			f := s.SuggestFreq(ws...)
			e, _ := t.get(x)
			v := share(ws)
			lo, hi := math.Min(math.Floor(v*(1-1e-9)), e.f), math.Min(math.Floor(v*(1+1e-9)), e.f)
			if !known { // the beginning of an entry counts as one or nothing
				lo = 0
			}
			if f < lo || f > hi || f != math.Floor(f) && f != e.f {
				return viol("apart", "SuggestFreq(%q) = %s; the word has frequency %s, the parts together amount to %s", ws, fl(f), fl(e.f), fl(v))
			}
			st.count("suggestions for parts")
		}
		f := s.SuggestFreq(x)
		observe(fl(f))
		cut := s.Cut(x, false)
		v := share(cut)
		e, present := t.get(x)
		if present && f < e.f {
			return viol("whole", "SuggestFreq(%q) = %s is less than its frequency %s", x, fl(f), fl(e.f))
		}
		if f > math.Max(math.Floor(v*(1+1e-9))+1, e.f) {
			return viol("whole", "SuggestFreq(%q) = %s, more than needed: the word has frequency %s, the parts %q amount to %s", x, fl(f), fl(e.f), cut, fl(v))
		}
		if v > 1e9 && f < v*(1-1e-6) {
			return viol("whole", "SuggestFreq(%q) = %s is not enough: the pieces %q amount to %s", x, fl(f), cut, fl(v))
		}
		if v > 1e9 || f > 1e12 || math.Abs(v-math.Round(v)) < 1e-9*v && v > 0.5 {
			return nil // too close to tell
		}
		// a twin where the word has that frequency
		tw := newSegmenter(t.c)
		tw.NotLoadHMM = true
		tw.Dict = gse.NewDict()
		for _, o := range t.ents {
			if o.w != e.w {
				tw.AddToken(o.w, o.f, o.p)
			}
		}
		tw.AddToken(x, f, "n")
		if ws := tw.Cut(x, false); len(ws) != 1 {
			return viol("whole", "with the frequency %s that SuggestFreq(%q) gave, the word is cut into %q (before: %q, frequency %s)", fl(f), x, ws, cut, fl(e.f))
		}
		st.count("suggestions followed")
		return nil
	})
}
