package simrt

import (
	"cmp"
	"fmt"
	"reflect"
	"slices"
)

// It iterates over a map in an order chosen by the seed.
type It[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// Perm returns a permutation of n chosen by the map seed; with seed 0 it is the
// identity, so that keys come in sorted order.
//
//go:noinline
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	w := W
	if w == nil {
		return p
	}
	w.MapIters++
	if w.Cfg.MapSeed == 0 {
		return p
	}
	if w.Cfg.MapSeed == 1 {
		slices.Reverse(p)
		return p
	}
	for i := n - 1; i > 0; i-- {
		j := w.mapRng.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func canon[K comparable](keys []K) {
	if len(keys) == 0 {
		return
	}
	switch reflect.TypeOf(keys).Elem().Kind() {
	case reflect.String:
		slices.SortFunc(keys, func(a, b K) int {
			return cmp.Compare(reflect.ValueOf(a).String(), reflect.ValueOf(b).String())
		})
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		slices.SortFunc(keys, func(a, b K) int {
			return cmp.Compare(reflect.ValueOf(a).Int(), reflect.ValueOf(b).Int())
		})
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		slices.SortFunc(keys, func(a, b K) int {
			return cmp.Compare(reflect.ValueOf(a).Uint(), reflect.ValueOf(b).Uint())
		})
	default:
		slices.SortFunc(keys, func(a, b K) int { return cmp.Compare(fmt.Sprintf("%+v", a), fmt.Sprintf("%+v", b)) })
	}
}

func Iter[M ~map[K]V, K comparable, V any](m M) *It[K, V] {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	canon(keys)
	out := make([]K, len(keys))
	for i, j := range Perm(len(keys)) {
		out[i] = keys[j]
	}
	return &It[K, V]{m: m, keys: out}
}

func IterK[M ~map[K]V, K comparable, V any](m M) (it *It[K, V], k K) { return Iter(m), k }
func IterV[M ~map[K]V, K comparable, V any](m M) (it *It[K, V], v V) { return Iter(m), v }
func IterKV[M ~map[K]V, K comparable, V any](m M) (it *It[K, V], k K, v V) {
	return Iter(m), k, v
}

// Next moves to the next key that is still in the map.
func (it *It[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}
