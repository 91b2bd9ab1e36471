package props

import (
	"fmt"
	"strings"
	"testing"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/template"
	"pgregory.net/rapid"
)

// a place in the context: a template path giving a container, and its native value
type place struct {
	expr string // go template expression
	val  any
}

func places(root map[string]any) []place {
	var r []place
	var walk func(expr string, v any, depth int)
	walk = func(expr string, v any, depth int) {
		switch x := v.(type) {
		case map[string]any:
			r = append(r, place{expr, v})
			for _, k := range sortedKeys(x) {
				walk(fmt.Sprintf("(get %s `%s`)", expr, k), x[k], depth+1)
			}
		case []any:
			r = append(r, place{expr, v})
			for i := range x {
				walk(fmt.Sprintf("(index %s %d)", expr, i), x[i], depth+1)
			}
		}
	}
	walk("$", root, 0)
	return r
}

// drawContent writes a template that reads and changes the context.
func drawContent(c *C, root map[string]any, label string) (code string, mutates bool, depth int) {
	all := places(root)
	var sb strings.Builder
	n := rapid.IntRange(1, 5).Draw(c.T, label+"n")
	for i := 0; i < n; i++ {
		p := rapid.SampledFrom(all).Draw(c.T, "place")
		if p.expr == "$" && len(all) > 1 && rapid.Bool().Draw(c.T, "deeper") {
			p = rapid.SampledFrom(all[1:]).Draw(c.T, "place")
		}
		v := rapid.SampledFrom([]string{"1", "`new`", "(list 1 2)", "(dict `z` 1)", "(list 7)"}).Draw(c.T, "v")
		d := strings.Count(p.expr, "(")
		note := func(s string) {
			sb.WriteString(s)
			mutates = true
			if d > depth {
				depth = d
			}
		}
		switch x := p.val.(type) {
		case map[string]any:
			k := rapid.SampledFrom([]string{"a", "b", "c", "new"}).Draw(c.T, "k")
			switch rapid.IntRange(0, 9).Draw(c.T, "stmt") {
			case 0, 1:
				note(fmt.Sprintf("{{ set %s `%s` %s }}", p.expr, k, v))
			case 2:
				note(fmt.Sprintf("{{ unset %s `%s` }}", p.expr, k))
			case 3:
				note(fmt.Sprintf("{{ $m := merge %s (dict `%s` (dict `q` 1) `other` %s) }}", p.expr, k, v))
			case 4:
				note(fmt.Sprintf("{{ $m := (%s.Add `%s` %s) }}", p.expr, k, v))
			case 5:
				note(fmt.Sprintf("{{ $m := (%s.Pop `%s`) }}", p.expr, k))
			case 6:
				if p.expr != "$" {
					note(fmt.Sprintf("{{ $m := %s.Flush }}", p.expr))
				}
			case 7:
				// razor assignments
				if p.expr == "$" {
					note(fmt.Sprintf("\n@.%s := %d\n", k, rapid.IntRange(1, 5).Draw(c.T, "num")))
				} else {
					note(fmt.Sprintf("{{ with %s }}\n@.%s := \"zz\"\n{{ end }}", p.expr, k))
				}
			case 8:
				sb.WriteString(fmt.Sprintf("{{ $local%d := (%s.Clone) }}{{ set $local%d `%s` %s }}[{{ toJson $local%d }}]", i, p.expr, i, k, v, i))
			case 9:
				sb.WriteString(fmt.Sprintf("{{ range $k, $v := %s }}{{ if eq $k `a` `b` `c` }}<{{ $k }}>{{ end }}{{ end }}", p.expr))
			}
		case []any:
			switch rapid.IntRange(0, 5).Draw(c.T, "stmt") {
			case 0, 1, 2:
				if len(x) > 0 {
					note(fmt.Sprintf("{{ $m := (%s.Set %d %s) }}", p.expr, rapid.IntRange(0, len(x)-1).Draw(c.T, "i"), v))
				}
			case 3:
				sb.WriteString(fmt.Sprintf("{{ toJson (append %s %s) }}", p.expr, v))
			case 4:
				sb.WriteString(fmt.Sprintf("{{ toJson (reverse %s) }}", p.expr))
			case 5:
				sb.WriteString(fmt.Sprintf("{{ $local%d := (%s.Clone) }}{{ $m := ($local%d.Set 0 %s) }}[{{ toJson $local%d }}]", i, p.expr, i, v, i))
			}
		}
	}
	for _, k := range []string{"a", "b", "c", "new"} {
		sb.WriteString("\n" + k + "={{ if hasKey $ `" + k + "` }}{{ toJson (get $ `" + k + "`) }}{{ end }}")
	}
	return sb.String(), mutates, depth
}

func outcome(r string, err error) string {
	if err != nil {
		return fmt.Sprintf("%q error %v", r, err)
	}
	return fmt.Sprintf("%q", r)
}

func TestC04_RepeatedRendering(t *testing.T) {
	check(t, "up to four generated contents that read and change context values at any depth, rendered in a random order with repetitions by one template object; non-trivial when a content changes a nested value and one content is rendered at least twice", 500, 5000, func(c *C) {
		f := drawFlavour(c, "flavour")
		if f.name == "base" {
			f = flavours[1]
		}
		f.use()
		root := genDict(valueOpts{depth: 4, floats: true, keys: rapid.SampledFrom([]string{"a", "b", "c"}), dicts: rapid.Bool().Draw(c.T, "dicts")}).Draw(c.T, "context").(map[string]any)
		var context any
		form := rapid.IntRange(0, 2).Draw(c.T, "contextForm")
		switch form {
		case 0:
			context = deepCopy(root)
		case 1:
			context = f.dict.AsDictionary(deepCopy(root))
		case 2:
			m := map[string]any{}
			for _, k := range sortedKeys(root) {
				m[k] = dress(c.T, deepCopy(root[k]))
			}
			context = m
		}
		options := template.DefaultOptions()
		if rapid.Bool().Draw(c.T, "strict") {
			options.Set(template.StrictErrorCheck)
		}
		fresh := func() template.OptionsSet { return template.DefaultOptions().Set(template.StrictErrorCheck) }
		if !options[template.StrictErrorCheck] {
			fresh = template.DefaultOptions
		}
		tmpl, err := newTemplate(context, "", options)
		if err != nil {
			c.Fatalf("newTemplate: %v", err)
		}
		after := show(context) // constants are added by the creation of the template
		contents := []string{}
		deep := 0
		for i, n := 0, rapid.IntRange(1, 4).Draw(c.T, "contents"); i < n; i++ {
			code, mutates, depth := drawContent(c, root, "content")
			contents = append(contents, code)
			if mutates && depth > deep {
				deep = depth
			}
		}
		order := rapid.SliceOfN(rapid.IntRange(0, len(contents)-1), len(contents), 8).Draw(c.T, "order")
		c.Case("%s form %d strict %v\ncontext %s\ncontents:\n%s\norder %v", f.name, form, options[template.StrictErrorCheck], show(root), strings.Join(contents, "\n----\n"), order)
		want := map[int]string{}
		count := map[int]int{}
		repeated := false
		for step, i := range order {
			if count[i]++; count[i] > 1 {
				repeated = true
			}
			if _, ok := want[i]; !ok {
				// the reference: a fresh template object with a fresh copy of the context
				other, err := newTemplate(f.dict.AsDictionary(deepCopy(root)), "", fresh())
				if err != nil {
					c.Fatalf("newTemplate: %v", err)
				}
				r, err := other.ProcessContent(contents[i], "vp")
				want[i] = outcome(r, err)
				c.ClassIf(err != nil, "rendering error")
			}
			r, err := tmpl.ProcessContent(contents[i], "vp")
			if got := outcome(r, err); got != want[i] {
				c.Fatalf("rendering %d (content %d): got\n%s\na fresh template gives\n%s", step, i, got, want[i])
			}
			if now := show(context); now != after {
				c.Fatalf("rendering %d (content %d) changed the context:\n%s\nbecame\n%s", step, i, after, now)
			}
		}
		c.ClassIf(deep >= 2, "change two levels deep or more")
		c.NontrivialIf(deep >= 1 && repeated)
	})
}

// The documents with errors leave nothing behind: the next ones give what a fresh template gives.
func TestC04_AfterErrors(t *testing.T) {
	check(t, "a document that fails is followed by one that succeeds and executes code", 700, 30000, func(c *C) {
		useJSON()
		opts := func() template.OptionsSet { return template.DefaultOptions() }
		if rapid.Bool().Draw(c.T, "strict") {
			opts = strictOptions
		}
		tpl, err := newTemplate(c13Context18(), "", opts())
		if err != nil {
			c.Fatalf("%v", err)
		}
		failed := false
		for n := rapid.IntRange(2, 5).Draw(c.T, "documents"); n > 0; n-- {
			src := ""
			for _, f := range c18Doc(c, 1, new(bool), new(bool)) {
				src += f.src
			}
			if rapid.Bool().Draw(c.T, "included") {
				src += rapid.SampledFrom([]string{"{{ include \"<{{ .cfg.key }}>\" }}", "{{ include \"{{ raise .name }}\" }}", "{{ include \"{{ include `{{ index .l 5 }}` }}\" }}", "{{ include \"{{ .n }}-{{ .name }}\" (dict \"n\" .name) }}", "{{ exec \"echo {{ .name }}\" }}", "{{ run \"exit {{ .n }}\" (dict \"n\" 3) }}",
					"{{ include \"{{ set . `name` `changed` }}{{ set . `k` .cfg.key }}{{ raise .name }}\" }}", "{{ include \"{{ toJson (keys .) }}{{ .name }}{{ hasKey . `k` }}\" }}", "{{ include \"{{ toJson (keys ._) }}{{ .name }}\" }}", "{{ include \"{{ set . `l` 3 }}{{ .l }}{{ index .cfg 9 }}\" }}", "{{ include \"{{ .l }}{{ hasKey ._ `_` }}\" }}"}).Draw(c.T, "include")
			}
			if reserved.MatchString(src) || strings.Contains(src, "define") {
				continue
			}
			source := rapid.SampledFrom([]string{"vp", "a.gt", "sub/b.gt"}).Draw(c.T, "source")
			c.Step("%s: %q", source, src)
			other, err := newTemplate(c13Context18(), "", opts())
			if err != nil {
				c.Fatalf("%v", err)
			}
			want, werr := other.ProcessContent(src, source)
			got, gerr := tpl.ProcessContent(src, source)
			if got != want || (gerr == nil) != (werr == nil) || gerr != nil && gerr.Error() != werr.Error() {
				c.Fatalf("got %q (%v)\na fresh template gives %q (%v)", got, gerr, want, werr)
			}
			wrong := werr != nil || want == src
			c.NontrivialIf(failed && !wrong)
			failed = failed || wrong
		}
	})
}

// A context that is a list is not changed either.
func TestC04_ListContext(t *testing.T) {
	check(t, "the content changes an element of the list given as context", 500, 20000, func(c *C) {
		f := drawFlavour(c, "flavour")
		f.use()
		defer useJSON()
		root := genList(valueOpts{depth: 2, floats: true, maxLen: 4, keys: rapid.SampledFrom([]string{"a", "b"})}).Draw(c.T, "list").([]any)
		var context any
		switch form := rapid.IntRange(0, 2).Draw(c.T, "form"); form {
		case 0:
			context = deepCopy(root)
		case 1:
			context = f.list.AsList(deepCopy(root))
		case 2:
			l := make([]any, len(root))
			for i := range l {
				l[i] = dress(c.T, deepCopy(root[i]))
			}
			context = l
		}
		var sb strings.Builder
		changes := false
		for n := rapid.IntRange(1, 4).Draw(c.T, "statements"); n > 0; n-- {
			i := rapid.IntRange(0, 3).Draw(c.T, "index")
			v := rapid.SampledFrom([]string{"1", "`new`", "(list 1 2)"}).Draw(c.T, "value")
			if i < len(root) {
				if d, ok := root[i].(map[string]any); ok && len(d) > 0 {
					sb.WriteString(fmt.Sprintf("{{ set (index $l %d) `%s` %s }}", i, sortedKeys(d)[0], v))
					changes = true
					continue
				}
				sb.WriteString(fmt.Sprintf("{{ $m := ($l.Set %d %s) }}", i, v))
				changes = true
			} else {
				sb.WriteString(fmt.Sprintf("{{ toJson (append $l %s) }}", v))
			}
		}
		code := "{{ $l := . }}" + sb.String() + "{{ range . }}<{{ toJson . }}>{{ end }}"
		tpl, err := newTemplate(context, "", strictOptions())
		if err != nil {
			c.Fatalf("%v", err)
		}
		before := show(context)
		c.Case("%s %s\n%s", f.name, before, code)
		first, err1 := tpl.ProcessContent(code, "vp")
		c.ClassIf(err1 != nil, "error")
		c.NontrivialIf(changes && err1 == nil)
		second, err2 := tpl.ProcessContent(code, "vp")
		if now := show(context); now != before {
			c.Fatalf("the context became %s", now)
		}
		if outcome(first, err1) != outcome(second, err2) {
			c.Fatalf("first %s\nsecond %s", outcome(first, err1), outcome(second, err2))
		}
	})
}

func containersOf(v any) []any {
	var r []any
	var walk func(v any)
	walk = func(v any) {
		switch x := v.(type) {
		case collections.IDictionary:
			r = append(r, x)
			for _, k := range sortedKeys(x.AsMap()) {
				walk(x.AsMap()[k])
			}
		case collections.IGenericList:
			r = append(r, x)
			for _, e := range x.AsArray() {
				walk(e)
			}
		}
	}
	walk(v)
	return r
}

func TestC04_CloneIsDistinct(t *testing.T) {
	check(t, "a nested collection is cloned, then containers at any depth of the copy or of the original are changed in place; non-trivial when a change hits a container at least one level below the top", 2500, 30000, func(c *C) {
		f := drawFlavour(c, "flavour")
		drawFlavour(c, "default").use()
		var root any
		o := valueOpts{depth: 4, null: true, floats: true}
		if rapid.Bool().Draw(c.T, "list") {
			root = genList(o).Draw(c.T, "value")
		} else {
			root = genDict(o).Draw(c.T, "value")
		}
		var original, copied any
		how := "Clone"
		want := root
		switch x := root.(type) {
		case []any:
			l := f.list.AsList(dress(c.T, deepCopy(x)))
			original, copied = l, l.Clone()
		case map[string]any:
			d := f.dict.AsDictionary(dress(c.T, deepCopy(x)))
			original = d
			keys := sortedKeys(x)
			how = rapid.SampledFrom([]string{"Clone", "Clone(keys)", "Omit"}).Draw(c.T, "how")
			if len(keys) == 0 {
				how = "Clone"
			}
			switch how {
			case "Clone":
				copied = d.Clone()
			case "Clone(keys)":
				part := map[string]any{}
				sel := []any{}
				for _, k := range rapid.SliceOfNDistinct(rapid.SampledFrom(keys), 1, len(keys), rapid.ID[string]).Draw(c.T, "keys") {
					part[k] = x[k]
					sel = append(sel, k)
				}
				want = part
				copied = d.Clone(sel...)
			case "Omit":
				k := rapid.SampledFrom(keys).Draw(c.T, "key")
				part := map[string]any{}
				for _, o := range keys {
					if o != k {
						part[o] = x[o]
					}
				}
				want = part
				copied = d.Omit(k)
			}
		}
		c.Step("%s %s of %s", f.name, how, show(root))
		if !same(copied, want) {
			c.Fatalf("the copy %s differs from %s", show(copied), show(want))
		}
		changed, kept, expected := copied, original, root
		if rapid.Bool().Draw(c.T, "changeOriginal") {
			changed, kept, expected = original, copied, want
		}
		for i, n := 0, rapid.IntRange(1, 5).Draw(c.T, "changes"); i < n; i++ {
			all := containersOf(changed)
			k := rapid.IntRange(0, len(all)-1).Draw(c.T, "container")
			c.NontrivialIf(k > 0)
			switch x := all[k].(type) {
			case collections.IDictionary:
				keys := sortedKeys(x.AsMap())
				if len(keys) > 0 && rapid.Bool().Draw(c.T, "existing") {
					key := rapid.SampledFrom(keys).Draw(c.T, "key")
					if rapid.Bool().Draw(c.T, "delete") {
						x.Delete(key)
					} else {
						x.Set(key, "changed")
					}
				} else {
					x.Set("added", []any{1})
				}
			case collections.IGenericList:
				if x.Len() > 0 {
					x.Set(rapid.IntRange(0, x.Len()-1).Draw(c.T, "i"), "changed")
				}
			}
			c.Step("change container %d -> %s", k, show(changed))
			if !same(kept, expected) {
				c.Fatalf("changing one changed the other: %s became %s", show(expected), show(kept))
			}
		}
	})
}
