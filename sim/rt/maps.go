package rt

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"strconv"
)

// mapSeed decides map iteration orders: a process-wide value from the
// environment during package initialisation, the run's value afterwards.
var (
	mapSeed  uint64
	mapMode  = 0 // 0 seeded shuffle, 1 ascending, 2 descending
	mapCalls uint64
	// MapRanges counts map iterations whose order the simulator chose, and
	// MapOpaque those over keys without a canonical order.
	MapRanges, MapOpaque uint64
)

func init() {
	if v, err := strconv.ParseUint(os.Getenv("VSIM_MAPSEED"), 10, 64); err == nil {
		SetMapOrder(v)
	}
}

// SetMapOrder fixes the iteration orders from here on.
//
//go:norace
func SetMapOrder(seed uint64) {
	mapSeed = seed
	mapCalls = 0
	switch seed % 8 {
	case 1:
		mapMode = 1
	case 2:
		mapMode = 2
	default:
		mapMode = 0
	}
}

//go:norace
func mapDraw() (uint64, int) {
	mapCalls++
	MapRanges++
	return mix(mapSeed + mapCalls*0x9e3779b97f4a7c15), mapMode
}

//go:norace
func mapOpaque() { MapOpaque++ }

// Ent is one entry of a map being iterated in simulated order.
type Ent[K comparable, V any] struct {
	m map[K]V
	k K
}

// Get returns the entry's key and present value; ok is false when the entry
// has been deleted since the iteration began.
func (e *Ent[K, V]) Get() (K, V, bool) {
	v, ok := e.m[e.k]
	return e.k, v, ok
}

// MapEnts snapshots a map in the simulated iteration order.
func MapEnts[M ~map[K]V, K comparable, V any](m M) []Ent[K, V] {
	if len(m) == 0 {
		return nil
	}
	ents := make([]Ent[K, V], 0, len(m))
	for k := range m {
		ents = append(ents, Ent[K, V]{map[K]V(m), k})
	}
	h, mode := mapDraw()
	if len(ents) == 1 {
		return ents
	}
	sortKeys(ents)
	switch mode {
	case 1:
	case 2:
		for i, j := 0, len(ents)-1; i < j; i, j = i+1, j-1 {
			ents[i], ents[j] = ents[j], ents[i]
		}
	default:
		for i := len(ents) - 1; i > 0; i-- {
			h += 0x9e3779b97f4a7c15
			j := int(mix(h) % uint64(i+1))
			ents[i], ents[j] = ents[j], ents[i]
		}
	}
	return ents
}

func sortKeys[K comparable, V any](ents []Ent[K, V]) {
	switch es := any(ents).(type) {
	case []Ent[string, V]:
		sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
		return
	case []Ent[int, V]:
		sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
		return
	case []Ent[rune, V]:
		sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
		return
	case []Ent[byte, V]:
		sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
		return
	case []Ent[uint16, V]:
		sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
		return
	}
	var k K
	switch reflect.TypeOf(&k).Elem().Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(ents, func(i, j int) bool {
			return reflect.ValueOf(ents[i].k).Int() < reflect.ValueOf(ents[j].k).Int()
		})
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sort.Slice(ents, func(i, j int) bool {
			return reflect.ValueOf(ents[i].k).Uint() < reflect.ValueOf(ents[j].k).Uint()
		})
	case reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
		mapOpaque()
	default:
		strs := make([]string, len(ents))
		idx := make([]int, len(ents))
		for i := range ents {
			strs[i] = fmt.Sprintf("%q", fmt.Sprintf("%#v", ents[i].k))
			idx[i] = i
		}
		sort.Slice(idx, func(i, j int) bool { return strs[idx[i]] < strs[idx[j]] })
		cp := append([]Ent[K, V](nil), ents...)
		for i, x := range idx {
			ents[i] = cp[x]
		}
	}
}

// MapRand draws a value that varies with the map order seed.
//
//go:norace
func MapRand() uint64 {
	mapCalls++
	return mix(mapSeed ^ mapCalls*0xd1342543de82ef95)
}

// MapSeed is the seed of everything a process is free to choose.
//
//go:norace
func MapSeed() uint64 { return mapSeed }
