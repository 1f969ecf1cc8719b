package main

// Plain JSON values and helpers.

import (
	"bytes"
	"encoding/json"
	"hash/fnv"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
)

type obj = map[string]any
type arr = []any

func clone(v any) any {
	switch x := v.(type) {
	case obj:
		m := make(obj, len(x))
		for k, e := range x {
			m[k] = clone(e)
		}
		return m
	case arr:
		a := make(arr, len(x))
		for i, e := range x {
			a[i] = clone(e)
		}
		return a
	}
	return v
}

// A copy with the numbers as values of the types that a Go program would naturally use: int, uint8, float32, ...
func goNumbers(v any) any {
	switch x := v.(type) {
	case obj:
		m := make(obj, len(x))
		for k, e := range x {
			m[k] = goNumbers(e)
		}
		return m
	case arr:
		a := make(arr, len(x))
		for i, e := range x {
			a[i] = goNumbers(e)
		}
		return a
	case float64:
		h := math.Float64bits(x)
		h ^= h >> 32
		h ^= h >> 16
		h ^= h >> 5
		if x != math.Trunc(x) || math.Abs(x) > 1<<53 || x == 0 && math.Signbit(x) {
			if float64(float32(x)) == x && mustJSON(float32(x)) == mustJSON(x) {
				return float32(x)
			}
			return x
		}
		switch {
		case h%6 == 0 && x >= 0 && x < 256:
			return uint8(x)
		case h%6 == 1 && x >= 0:
			return uint64(x)
		case h%6 == 2 && math.Abs(x) < 1<<15:
			return int16(x)
		case h%6 == 3:
			return int64(x)
		case h%6 == 4 && math.Abs(x) < 1<<31:
			return int32(x)
		}
		return int(x)
	}
	return v
}

// The value of a number of any type.
func asFloat(v any) (float64, bool) {
	switch r := reflect.ValueOf(v); r.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return float64(r.Int()), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return float64(r.Uint()), true
	case reflect.Float32, reflect.Float64:
		return r.Float(), true
	}
	return 0, false
}

func mustJSON(v any) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		return "unmarshalable: " + err.Error()
	}
	return string(bytes.TrimRight(b.Bytes(), "\n"))
}

func fromJSON(b []byte) (v any, err error) {
	err = json.Unmarshal(b, &v)
	return
}

// Normalises a value by a trip through JSON (ints become floats, nil slices and maps stay distinct from empty ones).
func norm(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		return failf("unmarshalable: %v", err)
	}
	out, err := fromJSON(b)
	if err != nil {
		return failf("not JSON: %v", err)
	}
	return out
}

func same(a, b any) bool { return reflect.DeepEqual(a, b) }

func sortedKeys(m obj) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func isContainer(v any) bool {
	switch v.(type) {
	case obj, arr:
		return true
	}
	return false
}

func short(v any) string {
	s := ""
	if b, ok := v.([]byte); ok {
		s = string(b)
	} else if t, ok := v.(string); ok {
		s = t
	} else {
		s = mustJSON(v)
	}
	if len(s) > 600 {
		s = s[:600] + "…"
	}
	return s
}

// A JsonMap holding the given plain document (object or array root): mostly loaded from its JSON text; some documents
// (always the same ones) are put together in other ways instead.
func load(doc any) (*jom.JsonMap, error) {
	b, err := json.Marshal(doc)
	if err != nil {
		return nil, err
	}
	return loadText(b)
}

func loadText(b []byte) (*jom.JsonMap, error) {
	h := fnv.New32a()
	_, _ = h.Write(b)
	how := h.Sum32() / 7 % 12
	if how < 2 {
		if v, err := fromJSON(b); err == nil {
			if m, ok := v.(obj); ok {
				if how == 0 {
					return jom.NewFromMap(m), nil
				}
				j := jom.New()
				for _, k := range sortedKeys(m) {
					if err := j.SetAbsolutePaths(&json_map.AbsolutePaths{{{KeyType: json_map.StringKey, Value: k}}}, m[k]); err != nil {
						return nil, failf("setting %q in a new document: %v", k, err)
					}
					if m[k] == nil { // (set to nil, it is deleted)
						(*j.GetInsides())[k] = nil
					}
				}
				return j, nil
			}
		}
	}
	j := jom.New()
	if err := j.Unmarshal(b); err != nil {
		return nil, failf("document does not load: %v: %s", err, short(b))
	}
	if how == 2 {
		k, ok := j.Clone(false).(*jom.JsonMap)
		if !ok {
			return nil, failf("the clone of a *JsonMap is a %T", j.Clone(false))
		}
		return k, nil
	}
	return j, nil
}

// The plain value of a JsonMap through its own Marshal.
func dump(j interface{ Marshal() ([]byte, error) }) (any, error) {
	b, err := j.Marshal()
	if err != nil {
		return nil, failf("document does not marshal: %v", err)
	}
	v, err := fromJSON(b)
	if err != nil {
		return nil, failf("Marshal gives invalid JSON: %v: %s", err, short(b))
	}
	return v, nil
}

// The root that paths are relative to: array documents are found below the key "array".
func rootOf(doc any) obj {
	switch x := doc.(type) {
	case obj:
		return x
	case arr:
		return obj{"array": x}
	}
	return nil
}

// The inverse of rootOf.
func docOf(root obj, array bool) any {
	if array {
		return root["array"]
	}
	return root
}

func walk(v any, f func(v any)) {
	f(v)
	switch x := v.(type) {
	case obj:
		for _, k := range sortedKeys(x) {
			walk(x[k], f)
		}
	case arr:
		for _, e := range x {
			walk(e, f)
		}
	}
}

func size(v any) int { n := 0; walk(v, func(any) { n++ }); return n }

func depth(v any) int {
	d := 0
	switch x := v.(type) {
	case obj:
		for _, e := range x {
			if k := depth(e); k > d {
				d = k
			}
		}
		return d + 1
	case arr:
		for _, e := range x {
			if k := depth(e); k > d {
				d = k
			}
		}
		return d + 1
	}
	return 0
}

func firstWords(s string, n int) string {
	f := strings.Fields(strings.TrimPrefix(s, "model: "))
	if len(f) > n {
		f = f[:n]
	}
	for i := range f {
		if strings.Trim(f[i], "0123456789\"") != f[i] {
			f[i] = "…"
		}
	}
	return strings.Join(f, " ")
}
