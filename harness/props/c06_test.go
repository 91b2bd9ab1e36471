package props

import (
	stdjson "encoding/json"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/coveooss/gotemplate/v3/collections"
	"pgregory.net/rapid"
)

// drawType draws a Go type; plain restricts to what encoding/json encodes without special rule.
func drawType(t *rapid.T, depth int, plain bool) reflect.Type {
	scalars := []reflect.Type{
		reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
		reflect.TypeOf(uint(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
		reflect.TypeOf(float64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(true), reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf(collections.String("")),
	}
	if depth <= 0 {
		return rapid.SampledFrom(scalars).Draw(t, "scalar")
	}
	switch rapid.IntRange(0, 8).Draw(t, "type") {
	case 0:
		return reflect.SliceOf(drawType(t, depth-1, plain))
	case 1:
		return reflect.ArrayOf(rapid.IntRange(0, 3).Draw(t, "n"), drawType(t, depth-1, plain))
	case 2:
		keys := []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(collections.String(""))}
		if !plain {
			keys = append(keys, reflect.TypeOf(true), reflect.TypeOf(1.5), reflect.TypeOf(int8(0)), reflect.TypeOf([2]int{}))
		}
		return reflect.MapOf(rapid.SampledFrom(keys).Draw(t, "key"), drawType(t, depth-1, plain))
	case 3, 4:
		return reflect.PointerTo(drawType(t, depth-1, plain))
	case 5:
		return reflect.TypeOf((*any)(nil)).Elem()
	case 6, 7:
		if !plain && rapid.IntRange(0, 4).Draw(t, "embedded") == 0 {
			return rapid.SampledFrom(c06Static).Draw(t, "static")
		}
		return drawStruct(t, depth-1, plain)
	}
	return rapid.SampledFrom(scalars).Draw(t, "scalar")
}

// types with embedded fields, which cannot be made by reflection
type (
	C06Int    int
	C06Map    map[string]int
	C06List   []string
	C06Struct struct{ Inner, Other string }
	c06hidden string
	c06Type1  struct {
		C06Int
		C06Map
		Name string
	}
	c06Type2 struct {
		C06Struct `yaml:",inline"`
		C06List   `json:"list,omitempty"`
		c06hidden
		Z int
	}
	c06Type3 struct {
		*C06Struct
		C06Int `hcl:"number"`
		c06hidden
	}
	c06Type4 struct {
		c06Type1
		*C06Int
		Next *c06Type3
	}
)

var c06Static = []reflect.Type{reflect.TypeOf(c06Type1{}), reflect.TypeOf(c06Type2{}), reflect.TypeOf(c06Type3{}), reflect.TypeOf(c06Type4{})}

var tagNames = []string{"", "", "one", "two", "three", "Four", "snake_case", "with-dash"}

func drawStruct(t *rapid.T, depth int, plain bool) reflect.Type {
	names := rapid.Permutation([]string{"A", "B", "Cc", "Dddd", "Été", "Z9", "hidden", "_private"}).Draw(t, "fields")
	names = names[:rapid.IntRange(0, 6).Draw(t, "nfields")]
	used := map[string]bool{}
	hasKey := false
	var fields []reflect.StructField
	for _, n := range names {
		f := reflect.StructField{Name: n, Type: drawType(t, depth, plain)}
		if n == "hidden" || n == "_private" {
			f.PkgPath = "props"
		}
		tag, options := rapid.SampledFrom(tagNames).Draw(t, "tag"), ""
		if used[tag] {
			tag = ""
		}
		used[tag] = true
		switch rapid.IntRange(0, 9).Draw(t, "option") {
		case 0:
			tag = "-"
		case 1, 2, 3:
			options = ",omitempty"
		case 4:
			k := f.Type.Kind()
			if k == reflect.Pointer {
				k = f.Type.Elem().Kind()
			}
			if !plain && f.PkgPath == "" && (k == reflect.Struct || k == reflect.Map) {
				options = rapid.SampledFrom([]string{",inline", ",squash", ",omitempty,inline"}).Draw(t, "inline")
			}
		case 5:
			if !plain && !hasKey && f.Type.Kind() == reflect.String && f.PkgPath == "" {
				options, hasKey = ",key", true
			}
		}
		category := "json"
		if !plain {
			category = rapid.SampledFrom([]string{"json", "hcl", "yaml", "xml", "toml"}).Draw(t, "category")
		}
		if tag+options != "" {
			f.Tag = reflect.StructTag(fmt.Sprintf(`%s:"%s%s"`, category, tag, options))
			if category == "hcl" && rapid.Bool().Draw(t, "two") {
				f.Tag += ` json:"notused,omitempty"`
			}
		}
		if plain {
			// the standard encoder never omits a structure, while a structure with nothing to show is omitted here
			if k := f.Type.Kind(); (k == reflect.Struct || k == reflect.Pointer || k == reflect.Interface || k == reflect.Map) && strings.Contains(options, "omitempty") {
				f.Tag = reflect.StructTag(fmt.Sprintf(`json:"%s"`, tag))
			}
		}
		fields = append(fields, f)
	}
	return reflect.StructOf(fields)
}

// drawOf draws a value of the given type.
func drawOf(t *rapid.T, typ reflect.Type, depth int, plain bool) reflect.Value {
	v := reflect.New(typ).Elem()
	zero := rapid.IntRange(0, 4).Draw(t, "zero") == 0
	switch typ.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if !zero {
			v.SetInt(int64(rapid.IntRange(-128, 127).Draw(t, "int")))
			if rapid.Bool().Draw(t, "big") {
				v.SetInt(rapid.Int64().Draw(t, "int64"))
			}
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if !zero {
			v.SetUint(uint64(rapid.IntRange(0, 255).Draw(t, "uint")))
			if rapid.Bool().Draw(t, "big") {
				v.SetUint(rapid.Uint64().Draw(t, "uint64"))
			}
		}
	case reflect.Float32, reflect.Float64:
		if !zero {
			v.SetFloat(float64(rapid.IntRange(-1000, 1000).Draw(t, "float")) / 8)
		}
	case reflect.Bool:
		v.SetBool(rapid.Bool().Draw(t, "bool"))
	case reflect.String:
		if !zero {
			v.SetString(rapid.SampledFrom([]string{"", "x", "foo", "été", "1", "a b"}).Draw(t, "string"))
		}
	case reflect.Slice:
		if zero && !plain { // a nil slice is null for the standard encoder
			return v
		}
		n := rapid.IntRange(0, 3).Draw(t, "len")
		v.Set(reflect.MakeSlice(typ, n, n+rapid.IntRange(0, 2).Draw(t, "cap")))
		for i := 0; i < n; i++ {
			v.Index(i).Set(drawOf(t, typ.Elem(), depth-1, plain))
		}
	case reflect.Array:
		for i := 0; i < typ.Len(); i++ {
			v.Index(i).Set(drawOf(t, typ.Elem(), depth-1, plain))
		}
	case reflect.Map:
		if zero && !plain {
			return v
		}
		v.Set(reflect.MakeMap(typ))
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "len"); i < n; i++ {
			v.SetMapIndex(drawOf(t, typ.Key(), depth-1, plain), drawOf(t, typ.Elem(), depth-1, plain))
		}
	case reflect.Pointer:
		if !zero {
			v.Set(reflect.New(typ.Elem()))
			v.Elem().Set(drawOf(t, typ.Elem(), depth-1, plain))
		}
	case reflect.Interface:
		if zero {
			return v
		}
		if depth > 0 && rapid.Bool().Draw(t, "collection") {
			v.Set(reflect.ValueOf(dress(t, genValue(valueOpts{depth: 2}).Draw(t, "value"))))
		} else {
			v.Set(drawOf(t, drawType(t, depth-1, plain), depth-1, plain))
		}
	case reflect.Struct:
		for i := 0; i < typ.NumField(); i++ {
			if typ.Field(i).PkgPath == "" {
				v.Field(i).Set(drawOf(t, typ.Field(i).Type, depth-1, plain))
			}
		}
	}
	return v
}

// emptyField is the notion of empty of the standard encoder.
func emptyField(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Array, reflect.Map, reflect.Slice, reflect.String:
		return v.Len() == 0
	case reflect.Struct:
		return false
	}
	return v.IsZero()
}

// plainModel is the expected native form.
func plainModel(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Invalid:
		return nil
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return plainModel(v.Elem())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return v.Uint()
	case reflect.Float32, reflect.Float64:
		return v.Float()
	case reflect.Bool:
		return v.Bool()
	case reflect.String:
		return v.String()
	case reflect.Slice, reflect.Array:
		r := []any{}
		for i := 0; i < v.Len(); i++ {
			r = append(r, plainModel(v.Index(i)))
		}
		return r
	case reflect.Map:
		r := map[string]any{}
		for _, k := range v.MapKeys() {
			r[fmt.Sprint(k)] = plainModel(v.MapIndex(k))
		}
		return r
	}
	r := map[string]any{}
	key := -1
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.PkgPath != "" {
			continue
		}
		tag := ""
		for _, category := range []string{"toml", "xml", "yaml", "json", "hcl"} {
			if s := f.Tag.Get(category); s != "" {
				tag = s
			}
		}
		parts := strings.Split(tag, ",")
		has := func(o string) bool {
			for _, p := range parts[1:] {
				if p == o {
					return true
				}
			}
			return false
		}
		if parts[0] == "-" {
			continue
		}
		if has("key") {
			key = i
			continue
		}
		if has("omitempty") && emptyField(v.Field(i)) {
			continue
		}
		sub := plainModel(v.Field(i))
		if has("inline") || has("squash") {
			if m, ok := sub.(map[string]any); ok {
				for k, e := range m {
					r[k] = e
				}
			}
			continue
		}
		if m, ok := sub.(map[string]any); ok && len(m) == 0 && has("omitempty") {
			continue
		}
		name := parts[0]
		if name == "" {
			name = f.Name
		}
		r[name] = sub
	}
	if key >= 0 {
		return map[string]any{v.Field(key).String(): r}
	}
	return r
}

// duplicates tells if several map keys have the same text or if inlined names collide (the result depends on the order).
func shapes(v reflect.Value, classes map[string]bool) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			classes["nil"] = true
			return
		}
		if v.Kind() == reflect.Pointer && v.Elem().Kind() == reflect.Pointer {
			classes["pointer to pointer"] = true
		}
		shapes(v.Elem(), classes)
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			shapes(v.Index(i), classes)
		}
	case reflect.Map:
		if v.Type().Key().Kind() != reflect.String {
			classes["non string keys"] = true
		}
		for _, k := range v.MapKeys() {
			shapes(v.MapIndex(k), classes)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				classes["unexported field"] = true
				continue
			}
			if v.Type().Field(i).Tag != "" {
				classes["struct with tags"] = true
			}
			shapes(v.Field(i), classes)
		}
	}
}

// onlyNative checks that a value is made of maps, lists and plain scalars.
func onlyNative(v any) error {
	switch x := v.(type) {
	case nil, string, bool, int, uint, int64, uint64, float64:
		return nil
	case map[string]any:
		for k, e := range x {
			if err := onlyNative(e); err != nil {
				return fmt.Errorf("%s: %w", k, err)
			}
		}
		return nil
	case []any:
		for i, e := range x {
			if err := onlyNative(e); err != nil {
				return fmt.Errorf("%d: %w", i, err)
			}
		}
		return nil
	}
	return fmt.Errorf("%T is not a native type", v)
}

const nativeRule = "values of generated Go types (scalars of every size, pointers, arrays, slices, maps with any key type, structs with generated fields and tags, collections of every flavour); non-trivial when it holds a struct with tags, a nil, a pointer to pointer, non string keys or an unexported field"

func drawAny(c *C, plain bool) any {
	typ := drawType(c.T, rapid.SampledFrom([]int{1, 2, 3, 4}).Draw(c.T, "depth"), plain)
	v := drawOf(c.T, typ, 4, plain)
	c.Case("%s\n%s", typ, showGo(v))
	classes := map[string]bool{}
	shapes(v, classes)
	for _, k := range sortedKeys(classes) {
		c.Class(k)
	}
	c.NontrivialIf(len(classes) > 0)
	return v.Interface()
}

func showGo(v reflect.Value) string { return show(plainModel(v)) }

func TestC06_Native(t *testing.T) {
	check(t, nativeRule, 20000, 400000, func(c *C) {
		drawFlavour(c, "default").use()
		v := drawAny(c, false)
		want := plainModel(reflect.ValueOf(v))
		got, err := collections.MarshalGo(v)
		if err != nil {
			c.Fatalf("%v", err)
		}
		if err := onlyNative(got); err != nil {
			c.Fatalf("not native: %v in %#v", err, got)
		}
		if !sameNum(got, want) {
			c.Fatalf("got %s\nwant %s", show(got), show(want))
		}
		again, err := collections.MarshalGo(got)
		if err != nil || !reflect.DeepEqual(again, got) {
			c.Fatalf("converting again gives %s (%v), first %s", show(again), err, show(got))
		}
	})
}

func TestC06_Collections(t *testing.T) {
	check(t, "collections of the five flavours nested in each other; non-trivial when nested", 6000, 100000, func(c *C) {
		drawFlavour(c, "default").use()
		v := genDict(valueOpts{depth: rapid.IntRange(1, 4).Draw(c.T, "depth"), null: true, floats: true, big: true, strings: anyText, keys: dataKeys}).Draw(c.T, "value")
		c.Case(show(v))
		given := dress(c.T, deepCopy(v))
		if m, ok := given.(map[string]any); ok {
			given = drawFlavour(c, "outer").dict.AsDictionary(m)
		}
		for _, e := range v.(map[string]any) {
			c.NontrivialIf(isContainer(e))
		}
		got, err := collections.MarshalGo(given)
		if err != nil || onlyNative(got) != nil || !sameNum(got, v) {
			c.Fatalf("got %s (%v, %v)", show(got), err, onlyNative(got))
		}
		if d, ok := given.(collections.IDictionary); ok {
			if n := d.Native(); onlyNative(n) != nil || !sameNum(n, v) {
				c.Fatalf("Native gives %s (%v)", show(n), onlyNative(n))
			}
		}
		if !same(given, v) {
			c.Fatalf("the conversion changed its argument into %s", show(given))
		}
	})
}

// The native form of a struct says the same as the standard encoder.
func TestC06_StandardEncoder(t *testing.T) {
	check(t, nativeRule, 15000, 300000, func(c *C) {
		drawFlavour(c, "default").use()
		v := drawAny(c, true)
		got, err := collections.MarshalGo(v)
		if err != nil {
			c.Fatalf("%v", err)
		}
		text, err := stdjson.Marshal(v)
		if err != nil {
			c.Fatalf("harness: %v", err)
		}
		if want := decodeJSON(c, string(text)); !sameNum(jsonNumbers(decodeJSON(c, string(must1(stdjson.Marshal(got))))), want) {
			c.Fatalf("got %s\nwant %s", show(got), text)
		}
	})
}
