package main

import (
	_ "embed"
	"encoding/json"
	"math"
	"strconv"
	"sync"
	"unicode"

	gse "github.com/go-ego/gse"
)

// The built-in tagging model, as far as it concerns the characters of
// hanPool: posmodel.json was written from the tables of hmm/pos.

//go:embed posmodel.json
var posModelJSON []byte

type posModel struct {
	tags   []string
	start  map[uint16]float64
	trans  map[uint16]map[uint16]float64
	emit   map[rune]map[uint16]float64
	states map[rune][]uint16
}

const (
	posB = 1
	posE = 2
	posM = 3
	posS = 4
)

var (
	posModelOnce sync.Once
	posModelVal  *posModel
)

func tagModel() *posModel {
	posModelOnce.Do(func() {
		var raw struct {
			Tags   []string                      `json:"tags"`
			Start  map[string]float64            `json:"start"`
			Trans  map[string]map[string]float64 `json:"trans"`
			Emit   map[string]map[string]float64 `json:"emit"`
			States map[string][]uint16           `json:"states"`
		}
		if err := json.Unmarshal(posModelJSON, &raw); err != nil {
			panic(err)
		}
		conv := func(m map[string]float64) map[uint16]float64 {
			out := map[uint16]float64{}
			for k, v := range m {
				n, err := strconv.Atoi(k)
				if err != nil {
					panic(err)
				}
				out[uint16(n)] = v
			}
			return out
		}
		m := &posModel{tags: raw.Tags, start: conv(raw.Start), trans: map[uint16]map[uint16]float64{},
			emit: map[rune]map[uint16]float64{}, states: map[rune][]uint16{}}
		for k, v := range raw.Trans {
			n, _ := strconv.Atoi(k)
			m.trans[uint16(n)] = conv(v)
		}
		for k, v := range raw.Emit {
			m.emit[[]rune(k)[0]] = conv(v)
		}
		for k, v := range raw.States {
			m.states[[]rune(k)[0]] = v
		}
		posModelVal = m
	})
	return posModelVal
}

// best gives the probability of the best sequence of states of obs among
// those that allow accepts, and of the best of all; ok is false where the
// model does not determine them.
func (m *posModel) best(obs []rune, allow func(i int, s uint16) bool) (among, all float64, ok bool) {
	inf := math.Inf(-1)
	type cell struct{ all, among float64 }
	cur := map[uint16]cell{}
	for i, c := range obs {
		states, known := m.states[c]
		if !known {
			return 0, 0, false
		}
		next := map[uint16]cell{}
		for _, y := range states {
			e := m.emit[c][y]
			n := cell{inf, inf}
			if i == 0 {
				n = cell{m.start[y] + e, m.start[y] + e}
			} else {
				for x, p := range cur { // a maximum: the order does not matter
					t, ok := m.trans[x][y]
					if !ok {
						continue
					}
					n.all = math.Max(n.all, p.all+t+e)
					n.among = math.Max(n.among, p.among+t+e)
				}
				if math.IsInf(n.all, -1) {
					continue
				}
			}
			if !allow(i, y) {
				n.among = inf
			}
			next[y] = n
		}
		if len(next) == 0 {
			return 0, 0, false
		}
		cur = next
	}
	among, all = inf, inf
	for _, p := range cur {
		among = math.Max(among, p.among)
		all = math.Max(all, p.all)
	}
	return among, all, all > -1e50
}

// hanBlocks splits s at the borders of runs of Han characters.
func hanBlocks(s string) []string {
	var out []string
	last := false
	for _, r := range s {
		h := unicode.Is(unicode.Han, r)
		if len(out) == 0 || h != last {
			out = append(out, "")
		}
		out[len(out)-1] += string(r)
		last = h
	}
	return out
}

// tagged checks ps, the pieces of the Han characters block, against the
// tagging model.
func tagged(block string, ps []gse.SegPos, st *Stats) *Violation {
	m := tagModel()
	obs := []rune(block)
	type want struct {
		pos int
		tag string
	}
	wants := make([]want, 0, len(obs))
	bound := -1 // where the last piece begins
	for i, sp := range ps {
		n := len([]rune(sp.Text))
		if i == len(ps)-1 {
			bound = len(wants)
		}
		for k := 0; k < n; k++ {
			w := want{posM, sp.Pos}
			switch {
			case n == 1:
				w.pos = posS
			case k == 0:
				w.pos = posB
			case k == n-1:
				w.pos = posE
			}
			wants = append(wants, w)
		}
	}
	tagIs := func(s uint16, tag string) bool {
		return int(s%100) < len(m.tags) && m.tags[s%100] == tag
	}
	full := func(i int, s uint16) bool {
		return int(s/100) == wants[i].pos && tagIs(s, wants[i].tag)
	}
	// a word that the end of the block cuts off
	open := func(i int, s uint16) bool {
		if i < bound {
			return full(i, s)
		}
		p := int(s / 100)
		return tagIs(s, wants[i].tag) && (i == bound && p == posB || i > bound && p == posM)
	}
	among, all, ok := m.best(obs, full)
	if !ok {
		return nil
	}
	if a, _, _ := m.best(obs, open); a > among {
		among = a
	}
	st.count("Han runs judged by the tagging model")
	if among < all-1e-9*math.Abs(all) {
		return viol("hmm", "the tagger cuts %q as %s, of log probability %g; the most probable one has %g", block, posl(ps), among, all)
	}
	return nil
}
