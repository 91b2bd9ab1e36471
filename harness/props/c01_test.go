package props

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/coveooss/gotemplate/v3/collections"
	"pgregory.net/rapid"
)

var dictKeys = rapid.OneOf(
	rapid.Map(rapid.SampledFrom([]string{"a", "b", "c", "d", "1", "2", "true", "Key", "é", "", "x y", "a.b"}), func(s string) any { return s }),
	rapid.Map(rapid.IntRange(0, 3), func(i int) any { return i }),
	rapid.SampledFrom([]any{true, 1.5, collections.String("a"), collections.String("k"), int64(2), uint8(3)}),
)

func keyText(k any) string { return fmt.Sprint(k) }

// checkDict compares everything that can be read from d with the model.
func checkDict(c *C, d collections.IDictionary, m map[string]any, extraKeys []any) {
	if d.Len() != len(m) || d.Count() != len(m) {
		c.Fatalf("length: got %d/%d, want %d (%s)", d.Len(), d.Count(), len(m), show(m))
	}
	if !same(d, m) {
		c.Fatalf("content: got %s, want %s", show(d), show(m))
	}
	keys := sortedKeys(m)
	if got := d.KeysAsString().Strings(); !(len(got) == 0 && len(keys) == 0) && !reflect.DeepEqual(got, keys) {
		c.Fatalf("KeysAsString: got %q, want %q", got, keys)
	}
	gk := d.GetKeys()
	gv := d.GetValues()
	if gk.Len() != len(keys) || gv.Len() != len(keys) {
		c.Fatalf("GetKeys/GetValues length: got %d/%d, want %d", gk.Len(), gv.Len(), len(keys))
	}
	kinds := d.GetKinds()
	for i, k := range keys {
		if fmt.Sprint(gk.Get(i)) != k {
			c.Fatalf("GetKeys[%d]: got %v, want %q", i, gk.Get(i), k)
		}
		if !same(gv.Get(i), m[k]) {
			c.Fatalf("GetValues[%d]: got %s, want %s", i, show(gv.Get(i)), show(m[k]))
		}
		if m[k] != nil {
			if want := reflect.TypeOf(m[k]).Kind().String(); fmt.Sprint(kinds.Get(k)) != want {
				c.Fatalf("GetKinds[%q]: got %v, want %q", k, kinds.Get(k), want)
			}
		}
	}
	for _, k := range append([]any{"absent"}, extraKeys...) {
		want, has := m[keyText(k)]
		if d.Has(k) != has {
			c.Fatalf("Has(%v): got %v, want %v", k, d.Has(k), has)
		}
		if got := d.Get(k); !same(got, want) {
			c.Fatalf("Get(%v): got %s, want %s", k, show(got), show(want))
		}
		def := "DEFAULT"
		wantDef := any(def)
		if has {
			wantDef = want
		}
		if got := d.Default(k, def); !same(got, wantDef) {
			c.Fatalf("Default(%v): got %s, want %s", k, show(got), show(wantDef))
		}
	}
	if len(extraKeys) >= 2 {
		want := make([]any, len(extraKeys))
		all := true
		for i, k := range extraKeys {
			v, ok := m[keyText(k)]
			want[i] = v
			all = all && ok
		}
		if got := d.Get(extraKeys...); !same(got, want) {
			c.Fatalf("Get(%v): got %s, want %s", extraKeys, show(got), show(want))
		}
		if d.Has(extraKeys...) != all {
			c.Fatalf("Has(%v): got %v, want %v", extraKeys, d.Has(extraKeys...), all)
		}
	}
}

func keysOf(t *rapid.T, m map[string]any, label string) []any {
	n := rapid.IntRange(1, 3).Draw(t, label+"N")
	r := make([]any, n)
	ks := sortedKeys(m)
	for i := range r {
		if len(ks) > 0 && rapid.IntRange(0, 2).Draw(t, label+"Known") > 0 {
			r[i] = rapid.SampledFrom(ks).Draw(t, label)
		} else {
			r[i] = dictKeys.Draw(t, label)
		}
	}
	return r
}

func isContainer(v any) bool {
	switch v.(type) {
	case map[string]any, []any:
		return true
	}
	return false
}

type dictSnapshot struct {
	what  string
	dict  collections.IDictionary
	model map[string]any
}

func TestC01_DictHistory(t *testing.T) {
	vo := valueOpts{depth: 2, null: true, floats: true}
	check(t, "a history of dictionary operations on one flavour; non-trivial when at least 5 operations ran, including a removal or an accumulation", 2500, 30000, func(c *C) {
		f := drawFlavour(c, "flavour")
		def := drawFlavour(c, "defaultFlavour")
		def.use()
		model := genDict(vo).Draw(c.T, "initial").(map[string]any)
		start := rapid.IntRange(0, 2).Draw(c.T, "start")
		var d collections.IDictionary
		switch start {
		case 0:
			d = f.dict.CreateDictionary()
			model = map[string]any{}
		case 1:
			d = f.dict.AsDictionary(deepCopy(model))
		default:
			d = f.dict.CreateDictionary(5)
			for _, k := range sortedKeys(model) {
				d = d.Set(k, dress(c.T, deepCopy(model[k])))
			}
		}
		c.Step("flavour=%s default=%s start=%s", f.name, def.name, show(model))
		c.Class("flavour " + f.name)
		var snaps []dictSnapshot
		ops, removals := 0, 0
		n := rapid.IntRange(1, 14).Draw(c.T, "ops")
		for ; ops < n; ops++ {
			switch op := rapid.SampledFrom([]string{"set", "set", "add", "add", "delete", "flush", "pop", "omit", "clone", "transpose", "nested", "create"}).Draw(c.T, "op"); op {
			case "set":
				k, v := dictKeys.Draw(c.T, "k"), genValue(vo).Draw(c.T, "v")
				c.Step("set %v=%s", k, show(v))
				d = d.Set(k, dress(c.T, deepCopy(v)))
				model[keyText(k)] = deepCopy(v)
			case "add":
				k, v := keysOf(c.T, model, "addKey")[0], genValue(vo).Draw(c.T, "v")
				cur, exists := model[keyText(k)]
				if exists && cur == nil {
					continue // adding to a key holding null is unspecified
				}
				c.Step("add %v=%s", k, show(v))
				d = d.Add(k, dress(c.T, deepCopy(v)))
				if !exists {
					model[keyText(k)] = deepCopy(v)
				} else if l, isList := cur.([]any); isList {
					model[keyText(k)] = append(append([]any{}, l...), deepCopy(v))
				} else {
					model[keyText(k)] = []any{cur, deepCopy(v)}
				}
				if exists {
					c.Class("accumulation")
					removals++
				}
			case "delete":
				ks := keysOf(c.T, model, "delKey")
				c.Step("delete %v", ks)
				_, err := d.Delete(ks[0], ks[1:]...)
				after := deepCopy(model).(map[string]any)
				missing := false
				for _, k := range ks {
					if _, ok := after[keyText(k)]; !ok {
						missing = true
						break
					}
					delete(after, keyText(k))
				}
				if (err != nil) != missing {
					c.Fatalf("Delete(%v) error: got %v, want error %v", ks, err, missing)
				}
				c.ClassIf(missing, "delete of a missing key")
				if missing {
					// which of the named keys were removed before the error is not specified
					for _, k := range ks {
						if !d.Has(k) {
							delete(model, keyText(k))
						}
					}
				} else {
					model = after
				}
				removals++
			case "flush":
				var ks []any
				if rapid.IntRange(0, 5).Draw(c.T, "flushAll") > 0 {
					ks = keysOf(c.T, model, "flushKey")
				}
				c.Step("flush %v", ks)
				d.Flush(ks...)
				if len(ks) == 0 {
					model = map[string]any{}
				}
				for _, k := range ks {
					delete(model, keyText(k))
				}
				removals++
			case "pop":
				var ks []any
				if rapid.IntRange(0, 5).Draw(c.T, "popNone") > 0 {
					ks = keysOf(c.T, model, "popKey")
				}
				c.Step("pop %v", ks)
				got := d.Pop(ks...)
				var want any
				if len(ks) == 1 {
					want = model[keyText(ks[0])]
				} else if len(ks) > 1 {
					l := make([]any, len(ks))
					for i := range ks {
						l[i] = model[keyText(ks[i])]
					}
					want = l
				}
				if !same(got, want) {
					c.Fatalf("Pop(%v): got %s, want %s", ks, show(got), show(want))
				}
				for _, k := range ks {
					delete(model, keyText(k))
				}
				removals++
			case "omit":
				ks := keysOf(c.T, model, "omitKey")
				c.Step("omit %v", ks)
				want := deepCopy(model).(map[string]any)
				for _, k := range ks {
					delete(want, keyText(k))
				}
				r := d.Omit(ks[0], ks[1:]...)
				if !same(r, want) {
					c.Fatalf("Omit(%v): got %s, want %s", ks, show(r), show(want))
				}
				snaps = append(snaps, dictSnapshot{"omit", r, want})
			case "clone":
				want := deepCopy(model).(map[string]any)
				var ks []any
				if len(model) > 0 && rapid.Bool().Draw(c.T, "cloneKeys") {
					want = map[string]any{}
					for i := 0; i < 2; i++ {
						k := rapid.SampledFrom(sortedKeys(model)).Draw(c.T, "cloneKey")
						ks = append(ks, k)
						want[k] = deepCopy(model[k])
					}
				}
				c.Step("clone %v", ks)
				r := d.Clone(ks...)
				if !same(r, want) {
					c.Fatalf("Clone(%v): got %s, want %s", ks, show(r), show(want))
				}
				if string(r.TypeName()) != f.name {
					c.Fatalf("Clone type: got %v, want %v", r.TypeName(), f.name)
				}
				snaps = append(snaps, dictSnapshot{"clone", r, want})
			case "transpose":
				c.Step("transpose")
				want := map[string][]any{}
				skip := false
				for _, k := range sortedKeys(model) {
					switch v := model[k].(type) {
					case nil:
						skip = true
					case []any:
						for _, e := range v {
							if isContainer(e) {
								skip = true // text form of containers depends on the flavour
							}
							want[fmt.Sprint(e)] = append(want[fmt.Sprint(e)], k)
						}
					case map[string]any:
						skip = true
					default:
						want[fmt.Sprint(v)] = append(want[fmt.Sprint(v)], k)
					}
				}
				r := d.Transpose()
				if skip {
					continue
				}
				c.Class("transposed")
				w := map[string]any{}
				for k, l := range want {
					if len(l) == 1 {
						w[k] = l[0]
					} else {
						w[k] = l
					}
				}
				if !same(r, w) {
					c.Fatalf("Transpose of %s: got %s, want %s", show(model), show(r), show(w))
				}
			case "nested":
				var ks []string
				for _, k := range sortedKeys(model) {
					if _, ok := model[k].(map[string]any); ok {
						ks = append(ks, k)
					}
				}
				if len(ks) == 0 {
					continue
				}
				k := rapid.SampledFrom(ks).Draw(c.T, "nestedKey")
				c.Step("set %s.z=NEW", k)
				sub, ok := d.Get(k).(collections.IDictionary)
				if !ok {
					c.Fatalf("nested value of %q is a %T, not a dictionary", k, d.Get(k))
				}
				sub.Set("z", "NEW")
				model[k].(map[string]any)["z"] = "NEW"
				c.Class("nested mutation")
			case "create":
				if r := d.Create(); r.Len() != 0 || string(r.TypeName()) != f.name {
					c.Fatalf("Create: got %v of type %v", r, r.TypeName())
				}
				if r := d.CreateList(3); r.Len() != 3 || string(r.TypeName()) != f.name {
					c.Fatalf("CreateList: got %v of type %v", r, r.TypeName())
				}
			}
			checkDict(c, d, model, keysOf(c.T, model, "readKey"))
			for _, s := range snaps {
				if !same(s.dict, s.model) {
					c.Fatalf("result of an earlier %s changed: got %s, want %s", s.what, show(s.dict), show(s.model))
				}
			}
		}
		c.ClassIf(len(snaps) > 0, "with earlier copies")
		c.NontrivialIf(ops >= 5 && removals > 0)
	})
}
