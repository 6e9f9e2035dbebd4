package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/url"
	"os"
	"runtime"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/go-ego/gse"
	server "github.com/go-ego/gse/tools/server"

	"verif.local/rt"
	"verif.local/rt/vhttp"
	"verif.local/rt/vos"
)

// C05: the JSON service. One Op is one request: K is add, json or raw; S are
// the arguments; N holds the faults of the connection.

func init() { scenarios["C05"] = Scenario{genC05, runC05} }

const (
	rPost      = 1 << iota // text in the body
	rBodyErr               // the body breaks off
	rBodyStall             // the body stalls
	rGone                  // the client goes away while the response is written
	rSlow                  // the client reads slowly
	rLoose                 // not checked against the reference
	rBoth                  // query and body
)

func genC05(r *Rng, p *Plan) {
	t := newTheme(r, false)
	p.Variant = "plain"
	if r.p(3) {
		p.Variant = "hmm"
		p.Models = []Model{newModel(r)}
	}
	es := t.entries(r, r.between(1, 10), false, false)
	words := wordsOf(es)
	f := vos.FileSpec{Name: "/d/a.txt", Data: Str(render(es, "", "\n", true))}
	newDelivery(r, &f)
	p.Files = []vos.FileSpec{f}
	p.Cfgs = []Cfg{{}}
	var texts []Str
	for i := r.between(1, 3); i > 0; i-- {
		texts = append(texts, Str(t.text(r, words, pickS(r, 4, 10, 20))))
	}
	if x := texts[0]; x != "" && r.p(25) { // beyond the usual buffers
		texts[0] = Str(strings.Repeat(string(x), 1+r.between(1500, 9000)/len(x)))
	}
	hostile := r.p(4)
	if hostile {
		p.Variant += ", hostile"
	}
	nc := r.between(2, 4)
	adds := 0
	maxAdds := 5
	for i := 0; i < nc; i++ {
		var ops []Op
		for k := r.between(1, 4); k > 0; k-- {
			op := Op{K: "json", S: []Str{texts[r.n(len(texts))]}}
			x := r.n(10)
			switch {
			case (x < 4 || i == 0 && adds == 0) && adds < maxAdds:
				adds++
				w := t.word(r)
				if r.p(2) {
					// part of a text, so that it matters
					rs := []rune(string(texts[r.n(len(texts))]))
					if len(rs) > 1 {
						a := r.n(len(rs) - 1)
						b := a + 2 + r.n(4)
						if b > len(rs) {
							b = len(rs)
						}
						w = string(rs[a:b])
					}
				}
				if r.p(6) && len(words) > 0 {
					w = words[r.n(len(words))]
				}
				w = cleanWord(w)
				if w == "" {
					w = "中国"
				}
				fr := pickS[Str](r, "2", "5", "100", "7.5", "100000", "10000000")
				op = Op{K: "add", S: []Str{Str(w), fr, Str(posPool[r.n(len(posPool))])}}
				if r.p(8) {
					op.S[2] = "\x01" // parameter missing
				}
			case x < 5 && hostile:
				// malformed requests; what they name is outside the texts' alphabet
				op = Op{K: "raw", N: rLoose, S: []Str{pickS[Str](r, "GET /add", "GET /json", "POST /json", "POST /add", "PUT /json", "HEAD /json", "DELETE /add"),
					pickS[Str](r, "", "text=", "text=%zz", "text=%", "freq=5", "text=ωψ", "text=ωψ&freq=abc", "text=ωψ&freq=0", "text=ωψ&freq=", "text=ωψ&freq=5&freq=7", "text=ωψ&text=θφ&freq=3", "text=ωψ;freq=3",
						"text=%FFω&freq=3", "text=%FF%FE", "text=%00&freq=2", "text=a%00b", "text=+&freq=2", "&&&", "text=%E2%84%A6&pos=<b>", "text=ωψ&pos=%FF&freq=3", "=", "text[]=x", "TEXT=x"),
					pickS[Str](r, "", "", "text=%zz", "text=%FF", "%", "text=%3Cscript%3E", "garbage", "text=ω\x00")}}
				if r.p(3) {
					// frequencies that spoil the arithmetic
					op.S[0] = "GET /add"
					op.S[1] = pickS[Str](r, "text=ωψ&freq=NaN", "text=ωψ&freq=Inf", "text=ωψ&freq=-Inf", "text=ωψ&freq=-5", "text=ωψ&freq=1e999", "text=ωψ&freq=1e308", "text=ωψ&freq=-1e308")
				}
			}
			if op.K == "json" {
				switch r.n(6) {
				case 0:
					op.N |= rPost
				case 1:
					if r.p(2) {
						op.N |= rBoth
					}
				}
				if hostile && r.p(4) {
					op.N |= rPost | rBodyErr | rLoose
				}
			}
			if op.K != "raw" {
				if hostile && r.p(6) {
					op.N |= rGone
				}
				if r.p(10) {
					op.N |= rSlow
				}
				if op.N&rPost != 0 && r.p(6) {
					op.N |= rBodyStall
				}
			}
			op.F = float64(r.n(64))
			ops = append(ops, op)
		}
		p.Clients = append(p.Clients, ops)
	}
	p.Texts = texts
	p.Sched = newSched(r, 10*defBudget)
}

func cleanWord(w string) string {
	return strings.Map(func(r rune) rune {
		if r == utf8.RuneError || r == 0 || r == ' ' || r == '\t' || r == '\n' {
			return -1
		}
		return r
	}, w)
}

// hostileFreq reports whether a request spoils the sums of the dictionary.
func hostileFreq(op Op) bool {
	if op.K != "raw" || !strings.HasSuffix(op.s(0), "/add") {
		return false
	}
	q, _ := url.ParseQuery(op.s(1))
	f, _ := strconv.ParseFloat(q.Get("freq"), 64)
	return f != f || f < 0 || math.IsInf(f, 0) || f > 1e15
}

type body struct {
	data  string
	off   int
	err   int // -1 none
	stall int // -1 none
	chunk int
}

func (b *body) Read(p []byte) (int, error) {
	rt.Yield()
	if b.stall >= 0 && b.off >= b.stall {
		b.stall = -1
		rt.Stall()
	}
	if b.err >= 0 && b.off >= b.err {
		return 0, errors.New("connection reset by peer")
	}
	if b.off >= len(b.data) {
		return 0, io.EOF
	}
	n := len(p)
	if b.chunk > 0 && n > b.chunk {
		n = b.chunk
	}
	if r := len(b.data) - b.off; n > r {
		n = r
	}
	copy(p, b.data[b.off:b.off+n])
	b.off += n
	return n, nil
}
func (b *body) Close() error { return nil }

func (op Op) request() (*http.Request, *vhttp.Recorder) {
	method, path, query, bd := "GET", "/json", "", ""
	switch op.K {
	case "add":
		path = "/add"
		v := url.Values{"text": {op.s(0)}, "freq": {op.s(1)}}
		if op.s(2) != "\x01" {
			v["pos"] = []string{op.s(2)}
		}
		query = v.Encode()
	case "json":
		v := url.Values{"text": {op.s(0)}}.Encode()
		switch {
		case op.N&rBoth != 0:
			method, query, bd = "POST", v, "text=other"
			if op.s(0) == "" {
				bd = ""
			}
		case op.N&rPost != 0:
			method, bd = "POST", v
		default:
			query = v
		}
	case "raw":
		method, path, _ = strings.Cut(op.s(0), " ")
		query, bd = op.s(1), op.s(2)
	}
	k := int(op.F)
	b := &body{data: bd, err: -1, stall: -1, chunk: k % 7}
	if op.N&rBodyErr != 0 {
		b.err = k % (len(bd) + 1)
	}
	if op.N&rBodyStall != 0 {
		b.stall = k % (len(bd) + 1)
	}
	req := &http.Request{Method: method, URL: &url.URL{Path: path, RawQuery: query}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: b, ContentLength: int64(len(bd)), Host: "sim", RemoteAddr: "10.0.0.1:1", RequestURI: path + "?" + query}
	if method == "POST" || method == "PUT" {
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	} else {
		req.Body, req.ContentLength = http.NoBody, 0
	}
	w := vhttp.NewRecorder()
	if op.N&rGone != 0 {
		w.ErrAt = k
	}
	if op.N&rSlow != 0 {
		w.StallAt = k % 9
	}
	return req, w
}

type jresp struct {
	Segments *[]struct{ Text, Pos string } `json:"segments"`
	Seg      *[]string                     `json:"Seg"`
	Code     *int                          `json:"code"`
	Text     *string                       `json:"text"`
}

// startServer runs the service's main under the run's arguments.
func startServer(p *Plan) http.Handler {
	vhttp.Reset()
	args := os.Args
	os.Args = []string{"server", "-dict", "/d/a.txt"}
	if strings.HasPrefix(p.Variant, "hmm") {
		os.Args = append(os.Args, "-hmm")
	}
	server.Main()
	os.Args = args
	runtime.GOMAXPROCS(2)
	if len(p.Models) > 0 {
		newSegmenter(Cfg{}).LoadModel(p.Models[0].Maps()...)
	}
	return vhttp.Handler()
}

// render gives a response a canonical form; bad says what is wrong with it.
func (op Op) response(w *vhttp.Recorder, useHMM bool) (out, bad string) {
	path := "/" + op.K
	if op.K == "raw" {
		_, path, _ = strings.Cut(op.s(0), " ")
	}
	if w.Code != 200 {
		return "", fmt.Sprintf("status %d, body %q", w.Code, clipS(string(w.Body), 300))
	}
	if ct := w.H.Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
		return "", fmt.Sprintf("content type %q", ct)
	}
	var j jresp
	d := json.NewDecoder(strings.NewReader(string(w.Body)))
	if err := d.Decode(&j); err != nil {
		return "", fmt.Sprintf("no JSON (%v): %q", err, clipS(string(w.Body), 300))
	}
	if _, err := d.Token(); err != io.EOF {
		return "", fmt.Sprintf("more than one JSON value: %q", clipS(string(w.Body), 300))
	}
	if !utf8.Valid(w.Body) {
		return "", fmt.Sprintf("invalid UTF-8: %q", clipS(string(w.Body), 300))
	}
	if path == "/add" {
		if j.Code == nil || *j.Code != 200 || j.Text == nil {
			return "", fmt.Sprintf("answer to add: %q", clipS(string(w.Body), 300))
		}
		return "ok", ""
	}
	text, all := "", ""
	if op.K == "json" {
		text = op.s(0)
	}
	if useHMM {
		if j.Seg == nil && text != "" {
			return "", fmt.Sprintf("no segments: %q", clipS(string(w.Body), 300))
		}
		if j.Seg != nil {
			out = sl(*j.Seg)
			all = strings.Join(*j.Seg, "")
		}
	} else {
		if j.Segments == nil && text != "" {
			return "", fmt.Sprintf("no segments: %q", clipS(string(w.Body), 300))
		}
		if j.Segments != nil {
			for _, s := range *j.Segments {
				out += fmt.Sprintf("%q/%q ", s.Text, s.Pos)
				all += s.Text
			}
		}
	}
	if op.K == "json" && op.N&rBodyErr == 0 && utf8.ValidString(text) && lowASCII(all) != lowASCII(text) && all != strings.ToLower(text) {
		return out, fmt.Sprintf("the segments spell %q, the text is %q", all, text)
	}
	return out, ""
}

// twin evaluates texts in the state after a sequence of additions.
type twin struct {
	p    *Plan
	hmm  bool
	memo map[string]string
	segs map[string]*gse.Segmenter
}

func (t *twin) at(adds []Op, key string) *gse.Segmenter {
	if s := t.segs[key]; s != nil {
		return s
	}
	s := &gse.Segmenter{SkipLog: true, NotLoadHMM: true}
	s.LoadDict("/d/a.txt")
	if len(t.p.Models) > 0 {
		s.LoadModel(t.p.Models[0].Maps()...)
	}
	for _, a := range adds {
		f, _ := strconv.ParseFloat(a.s(1), 64)
		pos := a.s(2)
		if pos == "\x01" {
			pos = ""
		}
		s.AddTokenForce(a.s(0), f, pos)
	}
	t.segs[key] = s
	return s
}

func (t *twin) eval(adds []Op, key, text string) string {
	k := key + "|" + text
	if x, ok := t.memo[k]; ok {
		return x
	}
	s := t.at(adds, key)
	out := ""
	if t.hmm {
		var l []string
		for _, x := range s.Cut(text, true) {
			l = append(l, strings.ToValidUTF8(x, "\ufffd"))
		}
		out = sl(l)
	} else {
		for _, g := range s.Segment([]byte(text)) {
			out += fmt.Sprintf("%q/%q ", jsonStr(g.Token().Text()), g.Token().Pos())
		}
	}
	t.memo[k] = out
	return out
}

// jsonStr is what a string becomes on its way through JSON.
func jsonStr(s string) string {
	b, _ := json.Marshal(s)
	var o string
	json.Unmarshal(b, &o)
	return o
}

type reqEvent struct {
	op       Op
	inv, ret uint64
	out      string
	what     string
}

func runC05(p *Plan, st *Stats) *Violation {
	freshProcess(p)
	rt.Reset("server")
	useHMM := strings.HasPrefix(p.Variant, "hmm")
	var h http.Handler
	var setupPanic any
	oo := solo(defBudget, func() {
		defer func() { setupPanic = recover() }()
		h = startServer(p)
	})
	if setupPanic != nil {
		return viol("panic", "starting the service: %v", setupPanic)
	}
	if v := outcomeViol(oo, "start"); v != nil {
		return v
	}
	if h == nil {
		return viol("start", "the service does not listen")
	}
	nc := len(p.Clients)
	evs := make([][]reqEvent, nc+1)
	recs := make([][]*vhttp.Recorder, nc+1)
	serve := func(c int, op Op) *Violation {
		req, w := op.request()
		e := reqEvent{op: op, inv: rt.Step()}
		var pan any
		func() {
			defer func() {
				pan = recover()
				if ob, ok := pan.(rt.OverBudget); ok {
					panic(ob)
				}
			}()
			h.ServeHTTP(w, req)
		}()
		e.ret = rt.Step()
		if pan != nil {
			return viol("panic", "request %s: panic: %v", opStr(op), pan)
		}
		evs[c] = append(evs[c], e)
		recs[c] = append(recs[c], w)
		return nil
	}
	vs := make([]*Violation, nc+1)
	var fns []func()
	for c := range p.Clients {
		c := c
		evs[c] = make([]reqEvent, 0, len(p.Clients[c]))
		recs[c] = make([]*vhttp.Recorder, 0, len(p.Clients[c]))
		fns = append(fns, func() {
			for _, op := range p.Clients[c] {
				if v := serve(c, op); v != nil && vs[c] == nil {
					vs[c] = v
				}
			}
		})
	}
	o := rt.Run(p.Sched, fns)
	st.run(o)
	for _, v := range vs {
		if v != nil {
			return v
		}
	}
	if v := outcomeViol(o, "concurrent requests"); v != nil {
		return v
	}
	if m := o.StallMask & (1<<uint(nc) - 1); m != 0 {
		return viol("waits", "requests had to wait for a client whose connection stalled (clients %b)", m)
	}
	// afterwards every text once more
	oo = solo(p.Sched.Budget, func() {
		for _, t := range p.Texts {
			if v := serve(nc, Op{K: "json", S: []Str{t}}); v != nil {
				vs[nc] = v
				return
			}
		}
	})
	if vs[nc] != nil {
		return vs[nc]
	}
	if v := outcomeViol(oo, "requests at the end"); v != nil {
		return v
	}
	for i := range evs[nc] {
		evs[nc][i].inv += o.Steps + 10
		evs[nc][i].ret += o.Steps + 10
	}
	spoiled := false
	for _, l := range p.Clients {
		for _, op := range l {
			spoiled = spoiled || hostileFreq(op)
		}
	}
	adds := 0
	for c := range evs {
		for k := range evs[c] {
			e := &evs[c][k]
			if e.op.K == "add" {
				adds++
			}
			if e.op.N&rGone != 0 {
				e.out = "gone"
				continue
			}
			if e.op.K == "raw" && strings.HasPrefix(e.op.s(0), "HEAD") {
				continue
			}
			out, bad := e.op.response(recs[c][k], useHMM)
			observe(out)
			if bad != "" {
				return viol("response", "request %s: %s", opStr(e.op), bad)
			}
			e.out = out
			e.what = fmt.Sprintf("%s = %s", opStr(e.op), clipS(out, 400))
		}
	}
	if spoiled {
		return nil
	}
	return serviceOrder(p, evs, useHMM, st)
}

// serviceOrder searches an order of the requests in which each response is
// what a segmenter in that state gives.
func serviceOrder(p *Plan, evs [][]reqEvent, useHMM bool, st *Stats) *Violation {
	freshProcess(p)
	tw := &twin{p: p, hmm: useHMM, memo: map[string]string{}, segs: map[string]*gse.Segmenter{}}
	pos := make([]byte, len(evs))
	seen := map[string]bool{}
	best, stuck := -1, ""
	var dfs func(adds []Op, key string) bool
	dfs = func(adds []Op, key string) bool {
		k := string(pos) + key
		if seen[k] {
			return false
		}
		seen[k] = true
		done, total := 0, 0
		minRet := ^uint64(0)
		for c := range evs {
			total += len(evs[c])
			done += int(pos[c])
			if int(pos[c]) < len(evs[c]) && evs[c][pos[c]].ret < minRet {
				minRet = evs[c][pos[c]].ret
			}
		}
		if done == total {
			return true
		}
		if done > best {
			best = done
			stuck = "words added so far: "
			for _, a := range adds {
				stuck += fmt.Sprintf("%q ", a.s(0))
			}
			for c := range evs {
				if int(pos[c]) < len(evs[c]) {
					e := evs[c][pos[c]]
					stuck += fmt.Sprintf("\n  client %d %s", c, e.what)
					if e.op.K == "json" && e.op.N&(rLoose|rGone) == 0 {
						stuck += "\n    now it would be " + clipS(tw.eval(adds, key, e.op.s(0)), 400)
					}
				}
			}
		}
		for c := range evs {
			if int(pos[c]) >= len(evs[c]) {
				continue
			}
			e := &evs[c][pos[c]]
			if e.inv > minRet {
				continue
			}
			na, nk := adds, key
			maybe := false
			switch {
			case e.op.K == "add" || e.op.K == "raw" && strings.HasSuffix(e.op.s(0), "/add"):
				a := e.op
				if a.K == "raw" {
					// what becomes of a malformed addition is left open
					q, _ := url.ParseQuery(a.s(1))
					a = Op{K: "add", S: []Str{Str(q.Get("text")), Str(q.Get("freq")), Str(q.Get("pos"))}}
					maybe = true
				}
				dup := false
				for _, b := range adds {
					dup = dup || b.s(0) == a.s(0)
				}
				if !dup {
					na = append(adds[:len(adds):len(adds)], a)
					nk = key + fmt.Sprintf("/%d.%d", c, pos[c])
				}
			case e.op.K == "json" && e.op.N&(rLoose|rGone) == 0:
				if e.out != tw.eval(adds, key, e.op.s(0)) {
					continue
				}
			}
			pos[c]++
			if dfs(na, nk) || maybe && dfs(adds, key) {
				return true
			}
			pos[c]--
		}
		return false
	}
	var found bool
	var pan any
	oo := solo(0, func() {
		defer func() { pan = recover() }()
		found = dfs(nil, "")
	})
	st.Counts["linearization states"] += uint64(len(seen))
	if pan != nil {
		return viol("panic", "segmenting alone: %v", pan)
	}
	if v := outcomeViol(oo, "reference"); v != nil {
		return v
	}
	if !found {
		return viol("order", "no order of the requests explains the responses; stuck with %s", stuck)
	}
	return nil
}
