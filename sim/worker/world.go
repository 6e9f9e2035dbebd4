package main

import (
	"bufio"
	"fmt"
	"hash/fnv"
	"io"
	"reflect"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm"
	"github.com/go-ego/gse/hmm/idf"
	"github.com/go-ego/gse/hmm/pos"
	"github.com/go-ego/gse/hmm/segment"

	"verif.local/rt"
	"verif.local/rt/vos"
)

// Inst is one independently created set of objects under test.
type Inst struct {
	cfg  Cfg
	seg  *gse.Segmenter
	tag  *pos.Segmenter
	ext  *idf.TagExtracter
	rank *idf.TextRanker
	idf  *idf.Idf
	sw   *idf.StopWord
	held *gse.Segmenter // a copy of seg, as WithGse takes one
}

// World executes operations on instances.
type World struct {
	p    *Plan
	inst []*Inst
	maps [][]map[rune]float64 // the models as passed, the same maps every time
}

func newSegmenter(c Cfg) *gse.Segmenter {
	return &gse.Segmenter{
		SkipLog: true, DictSep: string(c.Sep), AlphaNum: c.AlphaNum, Alpha: c.Alpha, Num: c.Num,
		LoadNoFreq: c.LoadNoFreq, NotLoadHMM: !c.DefHMM, MinTokenFreq: c.MinFreq, TextFreq: string(c.TextFreq),
		SkipPos: c.SkipPos, NotStop: c.NotStop, MoreLog: c.MoreLog, DictPath: "/vfs/gse.go",
	}
}

func newInst(c Cfg) *Inst {
	return &Inst{cfg: c, seg: newSegmenter(c), tag: &pos.Segmenter{}, ext: &idf.TagExtracter{}, rank: &idf.TextRanker{}, idf: idf.NewIdf(), sw: idf.NewStopWord()}
}

func newWorld(p *Plan) *World {
	w := &World{p: p}
	for _, c := range p.Cfgs {
		w.inst = append(w.inst, newInst(c))
	}
	if p.Seed%4 != 0 { // otherwise fresh maps every time
		for i := range p.Models {
			ms := p.Models[i].Maps()
			for k := range ms {
				for _, o := range w.maps {
					if reflect.DeepEqual(ms[k], o[k]) {
						ms[k] = o[k]
					}
				}
			}
			w.maps = append(w.maps, ms)
		}
	}
	return w
}

// Res is the outcome of one operation.
type Res struct {
	Out   string
	Panic string // set when the operation panicked
	Inv   uint64
	Ret   uint64
	Done  bool
}

func (r Res) String() string {
	if r.Panic != "" {
		return "panic: " + firstLine(r.Panic)
	}
	return r.Out
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// do executes one operation, turning a panic into a result.
func (w *World) do(op Op) (r Res) {
	defer func() {
		if x := recover(); x != nil {
			if ob, ok := x.(rt.OverBudget); ok {
				panic(ob)
			}
			r.Panic = fmt.Sprint(x) + "\n" + string(debug.Stack())
			if _, ok := x.(vos.ReaderPanic); ok {
				r.Out, r.Panic = "device-panic", ""
			}
		}
		r.Ret = rt.Step()
		r.Done = true
		observe(op.K)
		observe(r.String())
	}()
	r.Inv = rt.Step()
	r.Out = w.exec(op)
	return r
}

// solo runs f as the only task of a run, bounding its steps.
func solo(budget uint64, f func()) *rt.Outcome {
	return rt.Run(rt.Sched{Kind: "seq", Budget: budget}, []func(){f})
}

func fl(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

func sl(s []string) string { return fmt.Sprintf("%q", s) }

func ss(s []Str) []string {
	r := make([]string, len(s))
	for i := range s {
		r[i] = string(s[i])
	}
	return r
}

func errs(e error) string {
	if e == nil {
		return "ok"
	}
	return "error"
}

func posl(p []gse.SegPos) string {
	var b strings.Builder
	for _, x := range p {
		fmt.Fprintf(&b, "%q/%q ", x.Text, x.Pos)
	}
	return b.String()
}

func segl(s []gse.Segment) string {
	var b strings.Builder
	for i := range s {
		t := s[i].Token()
		fmt.Fprintf(&b, "[%d,%d)%q/%s/%q", s[i].Start(), s[i].End(), t.Text(), fl(t.Freq()), t.Pos())
		for _, u := range t.Segments() {
			fmt.Fprintf(&b, "<%d,%d %q>", u.Start(), u.End(), u.Token().Text())
		}
		b.WriteByte(' ')
	}
	return b.String()
}

func tags(s segment.Segments) string {
	var b strings.Builder
	for _, x := range s {
		fmt.Fprintf(&b, "%q=%s ", x.Text, fl(x.Weight))
	}
	return b.String()
}

var userRegs = []*regexp.Regexp{
	regexp.MustCompile(`(\d+年|\d+月|[a-z]+)`),
	regexp.MustCompile(`([\p{Han}]+)`),
}

// arg helpers
func (op Op) s(i int) string {
	if i < len(op.S) {
		return string(op.S[i])
	}
	return ""
}

// posArgs turns alternating text/tag arguments into tagged words.
func posArgs(s []Str) (p []gse.SegPos) {
	for i := 0; i+1 < len(s); i += 2 {
		p = append(p, gse.SegPos{Text: string(s[i]), Pos: string(s[i+1])})
	}
	return
}

func (w *World) stream(name string) io.Reader { return vos.Reader(name) }

func (w *World) model(i int) []map[rune]float64 {
	if i < 0 || i >= len(w.p.Models) {
		return nil
	}
	if w.maps != nil {
		return w.maps[i]
	}
	return w.p.Models[i].Maps()
}

func mapArgs(s []Str) (d []map[string]string) {
	for i := 0; i+2 < len(s); i += 3 {
		m := map[string]string{"text": string(s[i])}
		if s[i+1] != "" {
			m["freq"] = string(s[i+1])
		}
		if s[i+2] != "" {
			m["pos"] = string(s[i+2])
		}
		d = append(d, m)
	}
	return
}

func (w *World) exec(op Op) string {
	in := w.inst[op.I]
	s := in.seg
	t := op.s(0)
	switch op.K {
	// ---- life cycle of a segmenter
	case "loaddict":
		return errs(s.LoadDict(ss(op.S)...))
	case "new":
		g, err := gse.New(ss(op.S)...)
		g.SkipLog = true
		in.seg = &g
		return errs(err)
	case "read":
		return errs(s.Read(t))
	case "reader":
		return errs(s.Reader(bufio.NewReaderSize(w.stream(t), op.N)))
	case "newdict":
		s.Dict = gse.NewDict()
		s.Load = true
		s.Init()
		return ""
	case "newdict2":
		s.Dict = gse.NewDict()
		return ""
	case "renew":
		*in = *newInst(in.cfg)
		return ""
	case "init":
		s.Init()
		return ""
	case "loadstr":
		return errs(s.LoadDictStr(t))
	case "loadembed":
		return errs(s.LoadDictEmbed(t))
	case "embed":
		return errs(s.LoadDictEmbed(ss(op.S)...))
	case "newembed":
		g, err := gse.NewEmbed(ss(op.S)...)
		g.SkipLog = true
		in.seg = &g
		return errs(err)
	case "stopembed":
		return errs(s.LoadStopEmbed(ss(op.S)...))
	case "loadmap":
		return errs(s.LoadDictMap(mapArgs(op.S)))
	case "add":
		return errs(s.AddToken(t, op.F, op.s(1)))
	case "addforce":
		return errs(s.AddTokenForce(t, op.F, op.s(1)))
	case "readd":
		return errs(s.ReAddToken(t, op.F, op.s(1)))
	case "remove":
		return errs(s.RemoveToken(t))
	case "spin":
		// many calls of one kind, each with another text
		h := fnv.New64a()
		for i := 0; i < int(op.F); i++ {
			sub := Op{K: op.s(0), I: op.I, N: op.N, B: op.B, S: append([]Str(nil), op.S[1:]...)}
			sub.S[0] += Str(rune(0x4e00 + i*37%5000))
			h.Write([]byte(w.exec(sub)))
		}
		return fmt.Sprintf("%x", h.Sum64())
	case "bulk":
		// many single edits, each of which changes something
		x := uint32(op.F)
		for i := 0; i < op.N; i++ {
			x = x*1664525 + 1013904223
			t := op.s(int(x>>8) % len(op.S))
			var err error
			if f, _, ok := s.Find(t); !ok || f == 0 {
				err = s.AddToken(t, bulkFreq(x), "n")
			} else if !op.B && x>>7&7 == 0 {
				err = s.ReAddToken(t, bulkFreq(x), "v")
			} else {
				err = s.RemoveToken(t)
			}
			if err != nil {
				return "error"
			}
		}
		return "ok"
	case "empty":
		return errs(s.Empty())
	case "hold":
		cp := *s
		in.held = &cp
		return ""
	case "held":
		if in.held == nil {
			return ""
		}
		return dump(in.held) + sl(in.held.Slice(t, false)) + sl(in.held.Cut(t, false))
	case "calc":
		s.CalcToken()
		return ""
	case "loadstop":
		return errs(s.LoadStop(ss(op.S)...))
	case "loadstopstr":
		return errs(s.LoadStopStr(t))
	case "loadstopembed":
		return errs(s.LoadStopEmbed(t))
	case "loadstoparr":
		s.LoadStopArr(ss(op.S))
		return ""
	case "addstop":
		s.AddStop(t)
		return ""
	case "addstoparr":
		s.AddStopArr(ss(op.S)...)
		return ""
	case "rmstop":
		s.RemoveStop(t)
		return ""
	case "emptystop":
		return errs(s.EmptyStop())
	case "loadmodel":
		if m := w.model(op.N); m != nil {
			s.LoadModel(m...)
		} else {
			s.LoadModel()
		}
		return ""

	// ---- queries on a segmenter
	case "segment":
		return segl(s.Segment([]byte(t)))
	case "mode":
		return segl(s.ModeSegment([]byte(t), op.B))
	case "cut":
		return sl(s.Cut(t))
	case "cuth":
		return sl(s.Cut(t, op.B))
	case "slice":
		return sl(s.Slice(t, op.B))
	case "string":
		return s.String(t, op.B)
	case "pos":
		return posl(s.Pos(t, op.B))
	case "cutall":
		return sl(s.CutAll(t))
	case "cutsearch":
		if op.N == 0 {
			return sl(s.CutSearch(t))
		}
		return sl(s.CutSearch(t, op.B))
	case "cutdag":
		if op.N == 1 {
			return sl(s.CutDAG(t, userRegs[0]))
		}
		if op.N == 2 {
			return sl(s.CutDAG(t, userRegs[0], userRegs[1]))
		}
		return sl(s.CutDAG(t))
	case "cutdagn":
		return sl(s.CutDAGNoHMM(t))
	case "hmmcut":
		if op.N == 1 {
			return sl(s.HMMCut(t, userRegs[0]))
		}
		return sl(s.HMMCut(t))
	case "hmmraw":
		return sl(hmm.Cut(t))
	case "hmmmod":
		if m := w.model(op.N); m != nil {
			return sl(s.HMMCutMod(t, m...))
		}
		return sl(s.HMMCutMod(t))
	case "find":
		f, p, ok := s.Find(t)
		return fmt.Sprint(fl(f), " ", strconv.Quote(p), " ", ok)
	case "value":
		v, id, err := s.Value(t)
		return fmt.Sprint(v, " ", id, " ", errs(err))
	case "suggest":
		return fl(s.SuggestFreq(ss(op.S)...))
	case "analyze":
		c := s.Cut(t)
		if op.N == 1 {
			return fmt.Sprintf("%+v", s.Analyze(c, t, op.B))
		}
		return fmt.Sprintf("%+v", s.Analyze(c, ""))
	case "isstop":
		return fmt.Sprint(s.IsStop(t))
	case "stop":
		return sl(s.Stop(ss(op.S)))
	case "trim":
		return sl(s.Trim(ss(op.S)))
	case "trimpunct":
		return sl(s.TrimPunct(ss(op.S)))
	case "trimsymbol":
		return sl(s.TrimSymbol(ss(op.S)))
	case "trimpos":
		return posl(s.TrimPos(posArgs(op.S)))
	case "trimpospunct":
		return posl(s.TrimPosPunct(posArgs(op.S)))
	case "trimwithpos":
		return posl(s.TrimWithPos(posArgs(op.S), posPool[op.N%len(posPool)]))
	case "cutstop":
		if op.N == 0 {
			return sl(s.CutStop(t))
		}
		return sl(s.CutStop(t, op.B))
	case "cuttrim":
		if op.N == 0 {
			return sl(s.CutTrim(t))
		}
		return sl(s.CutTrim(t, op.B))
	case "postrim":
		return posl(s.PosTrim(t, op.B, posPool[op.N%len(posPool)]))
	case "postrimarr":
		return sl(s.PosTrimArr(t, op.B, posPool[op.N%len(posPool)]))
	case "postrimstr":
		return s.PosTrimStr(t, op.B, posPool[op.N%len(posPool)])
	case "posstr":
		return s.PosStr(s.Pos(t, op.B))
	case "cutstr":
		return s.CutStr(s.Cut(t), "|")
	case "cuttrimhtml":
		return sl(s.CutTrimHtml(t))
	case "cuttrimhtmls":
		return s.CutTrimHtmls(t)
	case "cuturl":
		return sl(s.CutUrl(t))
	case "cuturls":
		return s.CutUrls(t)
	case "split":
		return fmt.Sprintf("%q", s.SplitTextToWords(gse.Text(t)))
	case "occs":
		o := gse.FindAllOccs([]byte(t), ss(op.S[1:]))
		var ks []string
		for k := range o {
			ks = append(ks, fmt.Sprintf("%q:%v", k, o[k]))
		}
		sort.Strings(ks)
		return strings.Join(ks, ",")
	case "num":
		return fmt.Sprint(s.Dictionary().NumTokens(), " ", fl(s.Dictionary().TotalFreq()), " ", s.Dictionary().MaxTokenLen())

	// ---- tagger
	case "tagload":
		return errs(in.tag.LoadDict(ss(op.S)...))
	case "tagwith":
		in.tag.WithGse(*s)
		return ""
	case "tagcut":
		if op.N == 0 {
			return posl(in.tag.Cut(t))
		}
		return posl(in.tag.Cut(t, op.B))
	case "tagtrim":
		return posl(in.tag.Trim(in.tag.Cut(t, op.B)))
	case "tagpunct":
		return posl(in.tag.TrimPunct(in.tag.Cut(t, op.B)))
	case "tagpos":
		return posl(in.tag.TrimWithPos(in.tag.Cut(t, op.B), posPool[op.N%len(posPool)]))

	// ---- extracter, IDF table, stop list, ranker
	case "extwith":
		in.ext.WithGse(*s)
		return ""
	case "extload":
		return errs(in.ext.LoadDict(ss(op.S)...))
	case "extidf":
		return errs(in.ext.LoadIdf(ss(op.S)...))
	case "extidfstr":
		return errs(in.ext.LoadIdfStr(t))
	case "extstop":
		return errs(in.ext.LoadStopWords(ss(op.S)...))
	case "prepidf": // a minimal IDF table
		return errs(in.ext.LoadIdfStr("中国 3 n\n"))
	case "prepext":
		g := newSegmenter(Cfg{})
		g.LoadDictStr(render([]Ent{{"中国", "5", "n", 3}}, "", "\n", true))
		in.ext.WithGse(*g)
		return errs(in.ext.LoadIdfStr("中国 3 n\n"))
	case "extract":
		return tags(in.ext.ExtractTags(t, op.N))
	case "extfreq":
		f, p, ok := in.ext.Idf.Freq(t)
		return fmt.Sprint(fl(f), " ", strconv.Quote(p), " ", ok)
	case "extadd":
		return errs(in.ext.Idf.AddToken(t, op.F, op.s(1)))
	case "idfload":
		return errs(in.idf.LoadDict(ss(op.S)...))
	case "idfadd":
		return errs(in.idf.AddToken(t, op.F, op.s(1)))
	case "idffreq":
		f, p, ok := in.idf.Freq(t)
		return fmt.Sprint(fl(f), " ", strconv.Quote(p), " ", ok)
	case "idfnum":
		return fmt.Sprint(in.idf.NumTokens(), " ", fl(in.idf.TotalFreq()))
	case "swload":
		return errs(in.sw.LoadDict(ss(op.S)...))
	case "swadd":
		in.sw.AddStop(t)
		return ""
	case "swrm":
		in.sw.RemoveStop(t)
		return ""
	case "swis":
		return fmt.Sprint(in.sw.IsStopWord(t))
	case "rankload":
		return errs(in.rank.LoadDict(ss(op.S)...))
	case "rankwith":
		in.rank.WithGse(*s)
		return ""
	case "rank":
		return tags(in.rank.TextRank(t, op.N))
	case "rankpos":
		return tags(in.rank.TextRankWithPOS(t, op.N, ss(op.S[1:])))
	}
	panic("harness: unknown operation " + op.K)
}

// defaultStops is the extracters' built-in stop list.
func defaultStops() map[string]bool {
	m := map[string]bool{}
	for k := range idf.StopWordMap {
		m[k] = true
	}
	return m
}

// dump renders the observable state of a segmenter.
func dump(s *gse.Segmenter) string {
	var b strings.Builder
	if s.Dict == nil {
		b.WriteString("no dict;")
	} else {
		fmt.Fprintf(&b, "num=%d total=%s max=%d;", s.Dict.NumTokens(), fl(s.Dict.TotalFreq()), s.Dict.MaxTokenLen())
		for i := range s.Dict.Tokens {
			t := &s.Dict.Tokens[i]
			fmt.Fprintf(&b, "%q/%s/%q", t.Text(), fl(t.Freq()), t.Pos())
			f, p, ok := s.Dict.Find([]byte(t.Text()))
			fmt.Fprintf(&b, "(%s %q %v)", fl(f), p, ok)
			for _, u := range t.Segments() {
				fmt.Fprintf(&b, "<%d,%d %q>", u.Start(), u.End(), u.Token().Text())
			}
			b.WriteByte(' ')
		}
	}
	var st []string
	for k, v := range s.StopWordMap {
		st = append(st, fmt.Sprintf("%q:%v", k, v))
	}
	sort.Strings(st)
	fmt.Fprintf(&b, "stop=%v nil=%v;", st, s.StopWordMap == nil)
	fmt.Fprintf(&b, "opts=%v %q %q %v %v %v %v %v %v %q %v %v %v", s.Load, s.DictSep, s.DictPath, s.NotLoadHMM, s.AlphaNum, s.Alpha, s.Num,
		s.LoadNoFreq, s.MinTokenFreq, s.TextFreq, s.SkipLog, s.SkipPos, s.NotStop)
	return b.String()
}

// genQuery draws a read-only operation on a segmenter.
func genQuery(r *Rng, t *theme, words []string, hmmOK bool) Op {
	txt := func() Str { return Str(t.text(r, words, 14)) }
	word := func() Str {
		if len(words) > 0 && !r.p(3) {
			w := words[r.n(len(words))]
			if r.p(4) && len(w) > 1 {
				rs := []rune(w)
				return Str(rs[:1+r.n(len(rs))])
			}
			return Str(w)
		}
		return Str(t.word(r))
	}
	list := func() (l []Str) {
		for i := r.between(0, 6); i >= 0; i-- {
			l = append(l, pickS(r, word(), txt(), " ", "，", ""))
		}
		return
	}
	plist := func() (l []Str) {
		for i := r.between(0, 5); i >= 0; i-- {
			l = append(l, word(), Str(posPool[r.n(len(posPool))]))
		}
		return
	}
	b := r.p(2)
	n := r.n(30)
	switch r.n(44) {
	case 0, 1, 2:
		return Op{K: "segment", S: []Str{txt()}}
	case 3, 4:
		return Op{K: "mode", S: []Str{txt()}, B: b}
	case 5, 6, 7:
		return Op{K: "cut", S: []Str{txt()}}
	case 8, 9, 10:
		return Op{K: "cuth", S: []Str{txt()}, B: b && hmmOK}
	case 11:
		return Op{K: "slice", S: []Str{txt()}, B: b}
	case 12:
		return Op{K: "string", S: []Str{txt()}, B: b}
	case 13, 14:
		return Op{K: "pos", S: []Str{txt()}, B: b}
	case 15, 16:
		return Op{K: "cutall", S: []Str{txt()}}
	case 17, 18:
		return Op{K: "cutsearch", S: []Str{txt()}, B: b && hmmOK, N: r.n(2)}
	case 19:
		if hmmOK {
			return Op{K: "cutdag", S: []Str{txt()}, N: r.n(3)}
		}
		return Op{K: "cutdagn", S: []Str{txt()}}
	case 20:
		return Op{K: "cutdagn", S: []Str{txt()}}
	case 21:
		if hmmOK {
			return Op{K: "hmmcut", S: []Str{txt()}, N: r.n(2)}
		}
		return Op{K: "split", S: []Str{txt()}}
	case 22, 23:
		return Op{K: "find", S: []Str{word()}}
	case 24:
		return Op{K: "value", S: []Str{word()}}
	case 25, 26:
		if r.p(2) {
			return Op{K: "suggest", S: []Str{word(), word()}}
		}
		return Op{K: "suggest", S: []Str{word()}}
	case 27, 28:
		return Op{K: "analyze", S: []Str{txt()}, B: b, N: r.n(2)}
	case 29:
		return Op{K: "isstop", S: []Str{word()}}
	case 30:
		return Op{K: pickS(r, "stop", "trim", "trimpunct", "trimsymbol"), S: list()}
	case 31:
		return Op{K: pickS(r, "trimpos", "trimpospunct", "trimwithpos"), S: plist(), N: n}
	case 32, 33:
		return Op{K: "cutstop", S: []Str{txt()}, B: b && hmmOK, N: r.n(2)}
	case 34:
		return Op{K: "cuttrim", S: []Str{txt()}, B: b && hmmOK, N: r.n(2)}
	case 35:
		return Op{K: "postrim", S: []Str{txt()}, B: b, N: n}
	case 36:
		return Op{K: "postrimarr", S: []Str{txt()}, B: b, N: n}
	case 37:
		return Op{K: "postrimstr", S: []Str{txt()}, B: b, N: n}
	case 38:
		return Op{K: "posstr", S: []Str{txt()}, B: b}
	case 39:
		return Op{K: pickS(r, "cuttrimhtml", "cuttrimhtmls"), S: []Str{"<a href=\"x\">" + txt() + "</a>"}}
	case 40:
		return Op{K: pickS(r, "cuturl", "cuturls"), S: []Str{"http://go1.x/" + txt()}}
	case 41:
		return Op{K: "split", S: []Str{txt()}}
	case 42:
		return Op{K: "occs", S: []Str{txt(), word(), word()}}
	default:
		return Op{K: "num"}
	}
}

// genCfg draws options.
func genCfg(r *Rng, swarm bool) Cfg {
	c := Cfg{}
	if r.p(3) {
		c.Sep = ","
	}
	if !swarm {
		return c
	}
	c.AlphaNum = r.p(4)
	c.Num = r.p(6)
	c.LoadNoFreq = r.p(4)
	c.SkipPos = r.p(6)
	c.NotStop = r.p(6)
	c.MoreLog = r.p(3)
	if r.p(5) {
		c.MinFreq = pickS(r, 1.0, 3.0, 50.0, 0.1)
	}
	if r.p(6) {
		c.TextFreq = pickS[Str](r, "5", "100", "2.5")
	}
	return c
}

// bulkFreq is the frequency a bulk of edits gives.
func bulkFreq(x uint32) float64 { return float64(2 + x>>20%50) }

// spin makes many calls of op.
func spin(r *Rng, op Op) Op {
	if len(op.S) == 0 {
		op = Op{K: "cut", S: []Str{"一"}}
	}
	s := append([]Str{Str(op.K)}, op.S...)
	if rs := []rune(string(s[1])); len(rs) > 12 {
		s[1] = Str(rs[:12])
	}
	return Op{K: "spin", I: op.I, N: op.N, B: op.B, F: float64(pickS(r, 20, 70, 140, 270, 520)), S: s}
}
