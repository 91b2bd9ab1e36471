package props

// Generators of values, keys and texts, and the native form used by the models.

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"
	"pgregory.net/rapid"
)

// native converts any collection to map[string]any / []any / scalars. It is the
// harness's own walk, independent from the native conversion of the code under test.
func native(v any) any {
	switch x := v.(type) {
	case nil:
		return nil
	case collections.IDictionary:
		r := map[string]any{}
		for k, e := range x.AsMap() {
			r[k] = native(e)
		}
		return r
	case collections.IGenericList:
		r := make([]any, 0, x.Len())
		for _, e := range x.AsArray() {
			r = append(r, native(e))
		}
		return r
	case collections.String:
		return string(x)
	case collections.StringArray:
		r := make([]any, 0, len(x))
		for _, e := range x {
			r = append(r, string(e))
		}
		return r
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Map:
		r := map[string]any{}
		for _, k := range rv.MapKeys() {
			r[fmt.Sprint(k.Interface())] = native(rv.MapIndex(k).Interface())
		}
		return r
	case reflect.Slice, reflect.Array:
		r := make([]any, 0, rv.Len())
		for i := 0; i < rv.Len(); i++ {
			r = append(r, native(rv.Index(i).Interface()))
		}
		return r
	}
	return v
}

func deepCopy(v any) any {
	switch x := v.(type) {
	case map[string]any:
		r := make(map[string]any, len(x))
		for k, e := range x {
			r[k] = deepCopy(e)
		}
		return r
	case []any:
		r := make([]any, 0, len(x))
		for _, e := range x {
			r = append(r, deepCopy(e))
		}
		return r
	}
	return v
}

func same(a, b any) bool { return reflect.DeepEqual(native(a), native(b)) }

// numNorm replaces every number by a canonical form, so that 1, int64(1) and 1.0 are equal.
func numNorm(v any) any {
	switch x := native(v).(type) {
	case map[string]any:
		for k, e := range x {
			x[k] = numNorm(e)
		}
		return x
	case []any:
		for i, e := range x {
			x[i] = numNorm(e)
		}
		return x
	default:
		rv := reflect.ValueOf(x)
		switch rv.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return fmt.Sprintf("#%d", rv.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return fmt.Sprintf("#%d", rv.Uint())
		case reflect.Float32, reflect.Float64:
			f := rv.Float()
			if f == math.Trunc(f) && math.Abs(f) < 1e15 {
				return fmt.Sprintf("#%d", int64(f))
			}
			return fmt.Sprintf("#%v", f)
		}
		return x
	}
}

func sameNum(a, b any) bool { return reflect.DeepEqual(numNorm(a), numNorm(b)) }

// show gives a stable text for native values.
func show(v any) string {
	switch x := native(v).(type) {
	case map[string]any:
		parts := make([]string, 0, len(x))
		for _, k := range sortedKeys(x) {
			parts = append(parts, fmt.Sprintf("%q:%s", k, show(x[k])))
		}
		return "{" + strings.Join(parts, ",") + "}"
	case []any:
		parts := make([]string, 0, len(x))
		for _, e := range x {
			parts = append(parts, show(e))
		}
		return "[" + strings.Join(parts, ",") + "]"
	case string:
		return fmt.Sprintf("%q", x)
	default:
		return fmt.Sprintf("%T(%v)", x, x)
	}
}

type valueOpts struct {
	depth   int
	null    bool
	floats  bool
	big     bool
	strings *rapid.Generator[string]
	keys    *rapid.Generator[string]
	maxLen  int
	dicts   bool // prefer dictionaries to lists
}

var smallKeys = rapid.SampledFrom([]string{"a", "b", "c", "d", "e", "key", "Key", "k1", "k2", "_x"})
var wordGen = rapid.SampledFrom([]string{"", "a", "b", "foo", "Bar", "hello world", "1", "2", "true", "x y", "été", "日本", "-", "a,b", "z"})

// anyText generates texts rich in characters that matter to parsers and shells.
var anyText = rapid.Custom(func(t *rapid.T) string {
	n := rapid.IntRange(0, 6).Draw(t, "parts")
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(rapid.OneOf(
			rapid.SampledFrom([]string{" ", "\t", "\n", "\"", "'", "\\", "$", "{", "}", "[", "]", "(", ")", ":", "=", "#", "&", "*", "!", "|", ">", "%", "@", "`", ",", ";", "-", "~", "<", "?", "/", ".", "é", "漢", "😀", "null", "true", "~", "0x1f", "1e3", "- a", "a: b", "${x}", "  ", "<<", "yes", "no", "12", "1.5", "\\n", "\r\n"}),
			rapid.StringMatching("[a-zA-Z0-9]{1,5}"),
		).Draw(t, "part"))
	}
	return sb.String()
})

func genScalar(o valueOpts) *rapid.Generator[any] {
	str := o.strings
	if str == nil {
		str = wordGen
	}
	gens := []*rapid.Generator[any]{
		rapid.Map(rapid.IntRange(-20, 200), func(i int) any { return i }),
		rapid.Map(rapid.IntRange(0, 3), func(i int) any { return i }),
		rapid.Map(rapid.Bool(), func(b bool) any { return b }),
		rapid.Map(str, func(s string) any { return s }),
		rapid.Map(str, func(s string) any { return s }),
	}
	if o.floats {
		gens = append(gens, rapid.Map(rapid.IntRange(-2000, 2000), func(i int) any { return float64(i)/8 + 0.0625 }))
	}
	if o.big {
		gens = append(gens,
			rapid.Map(rapid.Int(), func(i int) any { return i }),
			rapid.Map(rapid.Float64Range(-1e12, 1e12), func(f float64) any {
				if f == math.Trunc(f) {
					return f + 0.5
				}
				return f
			}))
	}
	if o.null {
		gens = append(gens, rapid.Just[any](nil))
	}
	return rapid.OneOf(gens...)
}

// genValue generates a native value of limited depth.
func genValue(o valueOpts) *rapid.Generator[any] {
	if o.depth <= 0 {
		return genScalar(o)
	}
	return rapid.Custom(func(t *rapid.T) any {
		kind := rapid.IntRange(0, 9).Draw(t, "kind")
		if o.dicts && kind != 3 && kind < 7 {
			kind = 0
		}
		switch kind {
		case 0, 1, 2:
			return genDict(o).Draw(t, "dict")
		case 3, 4, 5:
			return genList(o).Draw(t, "list")
		default:
			return genScalar(o).Draw(t, "scalar")
		}
	})
}

func (o valueOpts) deeper() valueOpts { o.depth--; return o }

func genDict(o valueOpts) *rapid.Generator[any] {
	keys := o.keys
	if keys == nil {
		keys = smallKeys
	}
	max := o.maxLen
	if max == 0 {
		max = 4
	}
	return rapid.Custom(func(t *rapid.T) any {
		n := rapid.IntRange(0, max).Draw(t, "nkeys")
		m := map[string]any{}
		for i := 0; i < n; i++ {
			m[keys.Draw(t, "key")] = genValue(o.deeper()).Draw(t, "val")
		}
		return m
	})
}

func genList(o valueOpts) *rapid.Generator[any] {
	max := o.maxLen
	if max == 0 {
		max = 4
	}
	return rapid.Custom(func(t *rapid.T) any {
		n := rapid.IntRange(0, max).Draw(t, "len")
		l := make([]any, 0, n)
		for i := 0; i < n; i++ {
			l = append(l, genValue(o.deeper()).Draw(t, "elem"))
		}
		return l
	})
}

// dress gives an equivalent of a native value using various Go types for its containers.
func dress(t *rapid.T, v any) any {
	switch x := v.(type) {
	case map[string]any:
		kind := rapid.IntRange(0, 6).Draw(t, "dressMap")
		if kind == 5 {
			// typed map if possible
			r := map[string]int{}
			ok := true
			for k, e := range x {
				i, isInt := e.(int)
				ok = ok && isInt
				r[k] = i
			}
			if ok {
				return r
			}
		}
		if kind == 6 {
			r := map[string]string{}
			ok := true
			for k, e := range x {
				s, isStr := e.(string)
				ok = ok && isStr
				r[k] = s
			}
			if ok {
				return r
			}
		}
		sub := make(map[string]any, len(x))
		for _, k := range sortedKeys(x) {
			sub[k] = dress(t, x[k])
		}
		if kind >= 1 && kind <= 5 {
			f := flavours[kind-1]
			return f.dict.AsDictionary(sub)
		}
		return sub
	case []any:
		kind := rapid.IntRange(0, 7).Draw(t, "dressList")
		if kind == 6 {
			r := make([]int, 0, len(x))
			for _, e := range x {
				if i, ok := e.(int); ok {
					r = append(r, i)
				}
			}
			if len(r) == len(x) {
				return r
			}
		}
		if kind == 7 {
			r := make([]string, 0, len(x))
			for _, e := range x {
				if i, ok := e.(string); ok {
					r = append(r, i)
				}
			}
			if len(r) == len(x) {
				return r
			}
		}
		extra := rapid.IntRange(0, 3).Draw(t, "spareCapacity")
		sub := make([]any, 0, len(x)+extra)
		for _, e := range x {
			sub = append(sub, dress(t, e))
		}
		if kind >= 1 && kind <= 5 {
			return flavours[kind-1].list.AsList(sub)
		}
		return sub
	}
	return v
}

func sortStrings(s []string) []string { sort.Strings(s); return s }

// decodeJSON reads JSON text with the standard decoder, independently from the code under test.
func decodeJSON(c *C, text string) any {
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		c.Fatalf("not JSON (%v): %q", err, text)
	}
	if d.More() {
		c.Fatalf("text after the JSON value: %q", text)
	}
	return jsonNumbers(v)
}

func jsonNumbers(v any) any {
	switch x := v.(type) {
	case map[string]any:
		for k, e := range x {
			x[k] = jsonNumbers(e)
		}
	case []any:
		for i, e := range x {
			x[i] = jsonNumbers(e)
		}
	case json.Number:
		if i, err := x.Int64(); err == nil {
			return int(i)
		}
		f, _ := x.Float64()
		return f
	}
	return v
}
