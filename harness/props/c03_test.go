package props

import (
	"fmt"
	"strings"
	"testing"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/template"
	"github.com/coveooss/gotemplate/v3/utils"
	"pgregory.net/rapid"
)

// mergeModel gives precedence to a, recursively.
func mergeModel(a, b map[string]any) map[string]any {
	r := deepCopy(a).(map[string]any)
	for k, v := range b {
		old, found := r[k]
		if !found {
			r[k] = deepCopy(v)
			continue
		}
		od, ok1 := old.(map[string]any)
		vd, ok2 := v.(map[string]any)
		if ok1 && ok2 {
			r[k] = mergeModel(od, vd)
		}
	}
	return r
}

func mergeAll(ds []map[string]any) map[string]any {
	r := map[string]any{}
	for _, d := range ds {
		r = mergeModel(r, d)
	}
	return r
}

// collisions tells on how many nested levels dictionaries meet and whether three of them meet below the top level.
func collisions(ds []map[string]any) (nested, triple bool) {
	seen := map[string]int{}
	for _, d := range ds {
		for k, v := range d {
			if _, ok := v.(map[string]any); ok {
				seen[k]++
			}
		}
	}
	for _, n := range seen {
		nested = nested || n >= 2
		triple = triple || n >= 3
	}
	return
}

func drawDicts(c *C, min, max int) []map[string]any {
	o := valueOpts{depth: rapid.SampledFrom([]int{1, 2, 3, 3, 3, 4}).Draw(c.T, "depth"), floats: true, null: true, maxLen: 4, dicts: true,
		keys: rapid.SampledFrom([]string{"a", "b", "c", "d"})}
	n := rapid.IntRange(min, max).Draw(c.T, "dicts")
	r := make([]map[string]any, n)
	for i := range r {
		r[i] = genDict(o).Draw(c.T, "dict").(map[string]any)
	}
	return r
}

func showAll[V any](l []V) string {
	s := []string{}
	for _, e := range l {
		s = append(s, show(e))
	}
	return strings.Join(s, "  +  ")
}

const mergeRule = "two to five nested dictionaries over four keys; non-trivial when at least two of them hold a dictionary under the same key"

func TestC03_DictMerge(t *testing.T) {
	check(t, mergeRule, 2500, 30000, func(c *C) {
		f := drawFlavour(c, "flavour")
		drawFlavour(c, "default").use()
		ds := drawDicts(c, 2, 5)
		c.Case("%s: %s", f.name, showAll(ds))
		nested, triple := collisions(ds)
		c.NontrivialIf(nested)
		c.ClassIf(triple, "three dictionaries under one key")
		c.Class("flavour " + f.name)
		dicts := make([]collections.IDictionary, len(ds))
		for i := range ds {
			g := f
			if rapid.IntRange(0, 3).Draw(c.T, "otherFlavour") == 0 {
				g = drawFlavour(c, "sourceFlavour")
			}
			dicts[i] = g.dict.AsDictionary(dress(c.T, deepCopy(ds[i])))
		}
		target := f.dict.AsDictionary(deepCopy(ds[0]))
		for round := 1; round <= 2; round++ {
			result := target.Merge(dicts[1], dicts[2:]...)
			want := mergeAll(ds)
			if !same(result, want) {
				c.Fatalf("merge %d: got %s, want %s", round, show(result), show(want))
			}
			if !same(target, want) {
				c.Fatalf("merge %d: the destination holds %s, want %s", round, show(target), show(want))
			}
			for i := 1; i < len(dicts); i++ {
				if !same(dicts[i], ds[i]) {
					c.Fatalf("merge %d changed source %d: %s became %s", round, i, show(ds[i]), show(dicts[i]))
				}
			}
		}
		// a nil source is ignored
		if result := f.dict.AsDictionary(deepCopy(ds[0])).Merge(nil, dicts[1:]...); !same(result, mergeAll(ds)) {
			c.Fatalf("merge with nil: got %s, want %s", show(result), show(mergeAll(ds)))
		}
	})
}

func TestC03_MergeMaps(t *testing.T) {
	check(t, mergeRule, 2500, 30000, func(c *C) {
		drawFlavour(c, "default").use()
		ds := drawDicts(c, 0, 5)
		c.Case(showAll(ds))
		nested, triple := collisions(ds)
		c.NontrivialIf(nested)
		c.ClassIf(triple, "three dictionaries under one key")
		args := make([]map[string]any, len(ds))
		for i := range ds {
			args[i] = deepCopy(ds[i]).(map[string]any)
			for _, k := range sortedKeys(args[i]) {
				args[i][k] = dress(c.T, args[i][k])
			}
		}
		got, err := utils.MergeDictionaries(args...)
		if err != nil {
			c.Fatalf("error %v", err)
		}
		if want := mergeAll(ds); !sameNum(got, want) {
			c.Fatalf("got %s, want %s", show(got), show(want))
		}
		for i := range args {
			if !same(args[i], ds[i]) {
				c.Fatalf("argument %d changed: %s became %s", i, show(ds[i]), show(args[i]))
			}
		}
	})
}

func TestC03_TemplateMerge(t *testing.T) {
	check(t, mergeRule, 800, 8000, func(c *C) {
		f := drawFlavour(c, "flavour")
		f.use()
		ds := drawDicts(c, 2, 5)
		notation := rapid.SampledFrom([]string{"razor", "action", "pipe"}).Draw(c.T, "notation")
		names := []string{}
		context := map[string]any{}
		for i := range ds {
			names = append(names, fmt.Sprintf("d%d", i))
			context[names[i]] = deepCopy(ds[i])
		}
		var code string
		switch notation {
		case "razor":
			code = "@{r} := merge(" + strings.Join(names, ", ") + ")"
		case "action":
			code = "{{- $r := merge ." + strings.Join(names, " .") + " }}"
		case "pipe":
			last := len(names) - 1
			code = "{{- $r := ." + names[last] + " | merge ." + strings.Join(names[:last], " .") + " }}"
		}
		code += "\n{{ $r | toJson }}"
		for _, n := range names[1:] {
			code += "\n{{ toJson ." + n + " }}"
		}
		c.Case("%s, %s\n%s", f.name, showAll(ds), code)
		nested, triple := collisions(ds)
		c.NontrivialIf(nested)
		c.ClassIf(triple, "three dictionaries under one key")
		out, err := render(code, context)
		if err != nil {
			c.Fatalf("error %v", err)
		}
		lines := strings.Split(strings.TrimSpace(out), "\n")
		if len(lines) != len(ds) {
			c.Fatalf("unexpected output %q", out)
		}
		for i := range lines {
			want := mergeAll(ds)
			what := "merged value"
			if i > 0 {
				want, what = ds[i], fmt.Sprintf("source %d after the merge", i)
			}
			if got := decodeJSON(c, lines[i]); !sameNum(got, want) {
				c.Fatalf("%s: got %s, want %s", what, show(got), show(want))
			}
		}
	})
}

func TestC03_ContextAdd(t *testing.T) {
	check(t, "a template context completed by library calls (Add and Merge), then read by a template; non-trivial when a value is merged into an existing dictionary or added to an existing key", 800, 8000, func(c *C) {
		f := drawFlavour(c, "flavour")
		f.use()
		initial := drawDicts(c, 1, 1)[0]
		var context any = deepCopy(initial)
		if rapid.Bool().Draw(c.T, "dictionary") {
			context = f.dict.AsDictionary(deepCopy(initial))
		}
		tmpl, err := newTemplate(context, "", strictOptions())
		if err != nil {
			c.Fatalf("newTemplate: %v", err)
		}
		want := deepCopy(initial).(map[string]any)
		c.Step("%s context %s", f.name, show(initial))
		for i, n := 0, rapid.IntRange(1, 4).Draw(c.T, "n"); i < n; i++ {
			if rapid.Bool().Draw(c.T, "merge") {
				d := drawDicts(c, 1, 1)[0]
				given := deepCopy(d)
				var arg any = given
				if rapid.Bool().Draw(c.T, "asDictionary") {
					arg = f.dict.AsDictionary(given)
				}
				c.Step("merge %s", show(d))
				nested, _ := collisions([]map[string]any{want, d})
				c.NontrivialIf(nested)
				tmpl.Merge(arg)
				if !same(arg, d) {
					c.Fatalf("Merge changed its argument %s into %s", show(d), show(arg))
				}
				want = mergeModel(want, d)
			} else {
				k := rapid.SampledFrom([]string{"a", "b", "z"}).Draw(c.T, "key")
				v := genValue(valueOpts{depth: 1}).Draw(c.T, "value")
				old, found := want[k]
				if found && old == nil {
					continue // adding to a key that holds nil is not specified
				}
				c.Step("add %s=%s", k, show(v))
				tmpl.Add(k, dress(c.T, deepCopy(v)))
				if !found {
					want[k] = v
				} else if l, ok := old.([]any); ok {
					want[k] = append(append([]any{}, l...), v)
					c.Nontrivial()
				} else {
					want[k] = []any{old, v}
					c.Nontrivial()
				}
			}
		}
		code := ""
		for _, k := range []string{"a", "b", "c", "d", "z"} {
			code += "{{ if hasKey . `" + k + "` }}{{ get . `" + k + "` | toJson }}{{ else }}absent{{ end }}\n"
		}
		out, err := tmpl.ProcessContent(code, "vp")
		if err != nil {
			c.Fatalf("error %v", err)
		}
		lines := strings.Split(out, "\n")
		for i, k := range []string{"a", "b", "c", "d", "z"} {
			v, found := want[k]
			if !found {
				if lines[i] != "absent" {
					c.Fatalf("key %s: got %s, want it absent", k, lines[i])
				}
				continue
			}
			if got := decodeJSON(c, lines[i]); !sameNum(got, v) {
				c.Fatalf("key %s: got %s, want %s", k, show(got), show(v))
			}
		}
	})
}

var _ = template.DefaultOptions
