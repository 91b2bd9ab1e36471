package props

import (
	stdjson "encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/hcl"
	"github.com/coveooss/gotemplate/v3/json"
	"github.com/coveooss/gotemplate/v3/yaml"
	stdhcl "github.com/hashicorp/hcl"
	"github.com/hashicorp/hcl/hcl/ast"
	stdyaml "gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

// data values: every kind of scalar, arbitrary text, arbitrary keys
var dataKeys = rapid.OneOf(smallKeys, smallKeys, anyText, rapid.StringMatching("[a-zA-Z_][a-zA-Z0-9_-]{0,8}"))

func dataOpts(c *C) valueOpts {
	return valueOpts{depth: rapid.SampledFrom([]int{1, 2, 3, 4}).Draw(c.T, "depth"), floats: true, big: true, strings: rapid.OneOf(wordGen, anyText, rapid.String()), keys: dataKeys}
}

// interesting tells if a value holds a string with special characters, a large number or nested containers.
func interesting(v any) (bool, []string) {
	classes := map[string]bool{}
	depth := 0
	var walk func(v any, d int)
	walk = func(v any, d int) {
		if d > depth {
			depth = d
		}
		switch x := v.(type) {
		case map[string]any:
			for k, e := range x {
				if strings.ContainsAny(k, " \t\n\"'\\${}:#=") || k == "" {
					classes["special key"] = true
				}
				walk(e, d+1)
			}
		case []any:
			for _, e := range x {
				walk(e, d+1)
			}
		case string:
			if strings.ContainsAny(x, "\t\n\r\"'\\${}:#=&*|>%@`") {
				classes["special text"] = true
			}
			if _, err := strconv.ParseFloat(x, 64); err == nil || x == "true" || x == "null" || x == "yes" || x == "no" || x == "~" {
				classes["text that looks like another type"] = true
			}
		case int:
			if x > 1<<53 || x < -(1<<53) {
				classes["integer above 2^53"] = true
			}
		case float64:
			classes["float"] = true
		}
	}
	walk(v, 0)
	if depth >= 2 {
		classes["nested"] = true
	}
	return len(classes) > 0, sortedKeys(classes)
}

func noteData(c *C, v any) {
	ok, classes := interesting(v)
	c.NontrivialIf(ok)
	for _, k := range classes {
		c.Class(k)
	}
}

const dataRule = "nested values with arbitrary keys, texts, 64-bit integers and finite floats; non-trivial when nested, or holding special text, text that looks like another type, a float or an integer above 2^53"

// dataText drops the characters that a data text cannot hold (control characters).
func cleanText(v any) any {
	clean := func(s string) string {
		return strings.Map(func(r rune) rune {
			if r == '\t' || r == '\n' || r == '\r' || r >= 0x20 && r < 0x7f || r >= 0xa0 && r != 0xfeff && r < 0xfff0 && !(r >= 0xd800 && r < 0xe000) && r != 0x2028 && r != 0x2029 || r >= 0x10000 && r < 0xe0000 {
				return r
			}
			return -1
		}, s)
	}
	switch x := v.(type) {
	case string:
		return clean(x)
	case map[string]any:
		r := map[string]any{}
		for k, e := range x {
			r[clean(k)] = cleanText(e)
		}
		return r
	case []any:
		r := make([]any, len(x))
		for i := range x {
			r[i] = cleanText(x[i])
		}
		return r
	}
	return v
}

func drawDataValue(c *C) any {
	return cleanText(genValue(dataOpts(c)).Draw(c.T, "value"))
}

func drawMap(c *C) map[string]any {
	return cleanText(genDict(dataOpts(c)).Draw(c.T, "value")).(map[string]any)
}

type marshalForm struct {
	name string
	to   func(any) (string, error)
}

func bytesForm(f func(any) ([]byte, error)) func(any) (string, error) {
	return func(v any) (string, error) { b, err := f(v); return string(b), err }
}

func TestC05_JSON(t *testing.T) {
	check(t, dataRule, 4000, 60000, func(c *C) {
		drawFlavour(c, "default").use()
		v := drawDataValue(c)
		c.Case(show(v))
		noteData(c, v)
		given := dress(c.T, deepCopy(v))
		forms := []marshalForm{
			{"Marshal", bytesForm(json.Marshal)},
			{"MarshalIndent", bytesForm(func(v any) ([]byte, error) { return json.MarshalIndent(v, "", "  ") })},
			{"String", func(v any) (string, error) {
				if d, err := json.DictionaryHelper.TryAsDictionary(v); err == nil {
					return json.DictionaryHelper.AsDictionary(native(d)).String(), nil
				} else if l, err := json.GenericListHelper.TryAsList(v); err == nil {
					return json.GenericListHelper.AsList(native(l)).String(), nil
				}
				return string(must1(json.Marshal(v))), nil
			}},
			{"PrettyPrint", func(v any) (string, error) {
				if d, err := json.DictionaryHelper.TryAsDictionary(v); err == nil {
					return json.DictionaryHelper.AsDictionary(native(d)).PrettyPrint(), nil
				} else if l, err := json.GenericListHelper.TryAsList(v); err == nil {
					return json.GenericListHelper.AsList(native(l)).PrettyPrint(), nil
				}
				return string(must1(json.Marshal(v))), nil
			}},
		}
		form := forms[rapid.IntRange(0, len(forms)-1).Draw(c.T, "form")]
		text, err := form.to(given)
		if err != nil {
			c.Fatalf("%s: %v", form.name, err)
		}
		if std := decodeJSON(c, text); !sameNum(std, v) {
			c.Fatalf("%s gives %s, read as %s by encoding/json", form.name, text, show(std))
		}
		var out any
		if err := json.Unmarshal([]byte(text), &out); err != nil {
			c.Fatalf("Unmarshal(%s): %v", text, err)
		}
		if !sameNum(out, v) {
			c.Fatalf("%s gives %s, read back as %s", form.name, text, show(out))
		}
		if m, ok := v.(map[string]any); ok {
			var asMap map[string]any
			if err := json.Unmarshal([]byte(text), &asMap); err != nil || !sameNum(asMap, m) {
				c.Fatalf("%s read in a map as %s (%v)", text, show(asMap), err)
			}
		}
		var guess any
		if err := collections.ConvertData(text, &guess); err != nil || !sameNum(guess, v) {
			c.Fatalf("ConvertData(%s) gives %s (%v), want %s", text, show(guess), err, show(v))
		}
	})
}

func must1[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

// ambiguous tells if the YAML text of a value could be the text of another value in HCL: true#: 0 is true followed by a comment.
func ambiguous(v any) bool {
	m, _ := v.(map[string]any)
	for k := range m {
		if strings.ContainsAny(k, "#/") {
			return true
		}
	}
	return false
}

func TestC05_YAML(t *testing.T) {
	check(t, dataRule, 3000, 50000, func(c *C) {
		drawFlavour(c, "default").use()
		v := drawDataValue(c)
		c.Case(show(v))
		noteData(c, v)
		given := dress(c.T, deepCopy(v))
		var reference any
		if err := stdyaml.Unmarshal(must1(stdyaml.Marshal(v)), &reference); err != nil || !sameNum(reference, v) {
			// some texts are not encoded properly by the yaml library itself (i.e. a text made of a line feed within a list)
			c.Class("skipped: the yaml library cannot encode it")
			return
		}
		text := string(must1(yaml.Marshal(given)))
		var std any
		if err := stdyaml.Unmarshal([]byte(text), &std); err != nil || !sameNum(std, v) {
			c.Fatalf("Marshal gives %q, read as %s (%v) by yaml.v3", text, show(std), err)
		}
		var out any
		if err := yaml.Unmarshal([]byte(text), &out); err != nil {
			c.Fatalf("Unmarshal(%q): %v", text, err)
		}
		if !sameNum(out, v) {
			c.Fatalf("Marshal gives %q, read back as %s", text, show(out))
		}
		if d, err := yaml.DictionaryHelper.TryAsDictionary(deepCopy(v)); err == nil {
			var again any
			if err := yaml.Unmarshal([]byte(d.String()), &again); err != nil || !sameNum(again, v) {
				c.Fatalf("String gives %q, read back as %s (%v)", d.String(), show(again), err)
			}
			var asMap map[string]any
			if err := yaml.Unmarshal([]byte(text), &asMap); err != nil || !sameNum(asMap, v) {
				c.Fatalf("%q read in a map as %s (%v)", text, show(asMap), err)
			}
		}
		// JSON text is YAML text too
		if err := yaml.Unmarshal(must1(stdjson.Marshal(v)), &out); err != nil || !sameNum(out, v) {
			c.Fatalf("JSON text %s read as YAML gives %s (%v)", must1(stdjson.Marshal(v)), show(out), err)
		}
		if isContainer(v) && !ambiguous(v) {
			var guess any
			if err := collections.ConvertData(text, &guess); err != nil || !sameNum(guess, v) {
				c.Fatalf("ConvertData(%q) gives %s (%v), want %s", text, show(guess), err, show(v))
			}
		}
	})
}

// hclNorm applies to a value what HCL cannot express: a list holding a single map is that map.
func hclNorm(v any) any {
	switch x := v.(type) {
	case map[string]any:
		r := map[string]any{}
		for k, e := range x {
			r[k] = hclNorm(e)
		}
		return r
	case []any:
		r := make([]any, len(x))
		for i := range x {
			r[i] = hclNorm(x[i])
		}
		if len(r) == 1 {
			if _, ok := r[0].(map[string]any); ok {
				return r[0]
			}
		}
		return r
	case []map[string]any:
		l := make([]any, len(x))
		for i := range x {
			l[i] = x[i]
		}
		return hclNorm(l)
	}
	return v
}

// hclDomain drops the interpolation markers, HCL keeps an expression between them.
func hclDomain(v any) any {
	switch x := v.(type) {
	case string:
		return strings.ReplaceAll(x, "${", "$(")
	case map[string]any:
		r, folded := map[string]any{}, map[string]int{}
		for _, k := range sortedKeys(x) {
			folded[strings.ToLower(k)]++
			if folded[strings.ToLower(k)] == 1 { // hashicorp/hcl takes keys that differ only by case as the same key
				r[strings.ReplaceAll(k, "${", "$(")] = hclDomain(x[k])
			}
		}
		return r
	case []any:
		for i := range x {
			x[i] = hclDomain(x[i])
		}
	}
	return v
}

func TestC05_HCL(t *testing.T) {
	check(t, dataRule, 3000, 50000, func(c *C) {
		drawFlavour(c, "default").use()
		v := hclDomain(drawMap(c)).(map[string]any)
		c.Case(show(v))
		noteData(c, v)
		given := dress(c.T, deepCopy(v))
		want := hclNorm(deepCopy(v))
		forms := []marshalForm{
			{"Marshal", bytesForm(hcl.Marshal)},
			{"MarshalIndent", bytesForm(func(v any) ([]byte, error) { return hcl.MarshalIndent(v, "", "  ") })},
			{"MarshalTFVars", bytesForm(hcl.MarshalTFVars)},
			{"MarshalTFVarsIndent", bytesForm(func(v any) ([]byte, error) { return hcl.MarshalTFVarsIndent(v, "", "  ") })},
			{"MarshalInternal", bytesForm(hcl.MarshalInternal)},
		}
		form := forms[rapid.IntRange(0, len(forms)-1).Draw(c.T, "form")]
		text, err := form.to(given)
		if err != nil {
			c.Fatalf("%s: %v", form.name, err)
		}
		if strings.HasPrefix(form.name, "MarshalTFVars") {
			onlyAssignments(c, form.name, text)
		}
		if form.name == "MarshalInternal" {
			text = "internal=" + text
			want = map[string]any{"internal": want}
		}
		var std map[string]any
		if err := stdhcl.Unmarshal([]byte(text), &std); err != nil || !sameNum(hclNorm(native(std)), want) {
			c.Fatalf("%s gives %s, read as %s (%v) by hashicorp/hcl, want %s", form.name, text, show(hclNorm(native(std))), err, show(want))
		}
		var out any
		if err := hcl.Unmarshal([]byte(text), &out); err != nil || !sameNum(hclNorm(native(out)), want) {
			c.Fatalf("%s gives %s, read back as %s (%v), want %s", form.name, text, show(out), err, show(want))
		}
	})
}

// onlyAssignments: the variables of Terraform do not use the declarations of blocks.
func onlyAssignments(c *C, name, text string) {
	file, err := stdhcl.Parse(text)
	if err != nil {
		c.Fatalf("%s gives %s: %v", name, text, err)
	}
	ast.Walk(file.Node, func(n ast.Node) (ast.Node, bool) {
		if item, ok := n.(*ast.ObjectItem); ok && (len(item.Keys) != 1 || !item.Assign.IsValid()) {
			c.Fatalf("%s gives a block in\n%s", name, text)
		}
		return n, true
	})
}

// drawAlias chooses a name of a template function.
func drawAlias(c *C, names ...string) string {
	return rapid.SampledFrom(names).Draw(c.T, "name")
}

const separator = "\n<=<=separator=>=>\n"

// plainText drops what is interpreted as template code (the data functions render their argument).
func plainText(v any) any {
	clean := func(s string) string { return strings.NewReplacer("@", "a", "{{", "{", "}}", "}").Replace(s) }
	switch x := v.(type) {
	case string:
		return clean(x)
	case map[string]any:
		r := map[string]any{}
		for k, e := range x {
			r[clean(k)] = plainText(e)
		}
		return r
	case []any:
		r := make([]any, len(x))
		for i := range x {
			r[i] = plainText(x[i])
		}
		return r
	}
	return v
}

func TestC05_TemplateFunctions(t *testing.T) {
	check(t, dataRule, 500, 10000, func(c *C) {
		useJSON()
		v := drawMap(c)
		c.Case(show(v))
		noteData(c, v)
		w := hclDomain(plainText(deepCopy(v)))
		wNorm := hclNorm(deepCopy(w))
		yamlOK := func(v any) bool {
			var reference any
			return stdyaml.Unmarshal(must1(stdyaml.Marshal(v)), &reference) == nil && sameNum(reference, v)
		}
		asJSON := func(text string) (any, error) { return decodeJSON(c, text), nil }
		asYAML := func(text string) (r any, err error) { err = stdyaml.Unmarshal([]byte(text), &r); return }
		asHCL := func(text string) (any, error) {
			var r map[string]any
			err := stdhcl.Unmarshal([]byte(text), &r)
			return hclNorm(native(r)), err
		}
		unquoted := func(f func(string) (any, error)) func(string) (any, error) {
			return func(text string) (any, error) {
				s, err := strconv.Unquote("\"" + text + "\"")
				if err != nil {
					return nil, fmt.Errorf("%q is not the inside of a quoted text", text)
				}
				return f(s)
			}
		}
		internal := func(text string) (any, error) {
			r, err := asHCL("internal=" + text)
			if err != nil {
				return nil, err
			}
			return r.(map[string]any)["internal"], nil
		}
		normal := func(text string) (any, error) { return hclNorm(decodeJSON(c, text)), nil }
		type probe struct {
			code string
			read func(string) (any, error)
			want any
		}
		toJ := drawAlias(c, "toJson", "toJSON")
		J, H, Y := drawAlias(c, "json", "JSON", "fromJson", "fromJSON"), drawAlias(c, "hcl", "HCL", "fromHcl", "fromHCL", "tfvars", "fromTFVars", "TFVARS", "fromTFVARS"), drawAlias(c, "yaml", "YAML", "fromYaml", "fromYAML")
		D := drawAlias(c, "data", "DATA", "fromData", "fromDATA")
		probes := []probe{
			{toJ + " .v", asJSON, v},
			{drawAlias(c, "toPrettyJson", "toPrettyJSON") + " .v", asJSON, v},
			{drawAlias(c, "toQuotedJson", "toQuotedJSON") + " .v", unquoted(asJSON), v},
			{drawAlias(c, "toHcl", "toHCL") + " .w", asHCL, wNorm},
			{drawAlias(c, "toPrettyHcl", "toPrettyHCL") + " .w", asHCL, wNorm},
			{drawAlias(c, "toQuotedHcl", "toQuotedHCL") + " .w", unquoted(asHCL), wNorm},
			{"toTFVars .w", asHCL, wNorm},
			{"toPrettyTFVars .w", asHCL, wNorm},
			{"toQuotedTFVars .w", unquoted(asHCL), wNorm},
			{drawAlias(c, "toInternalHcl", "toInternalHCL", "toIHCL", "toIHcl") + " .w", internal, wNorm},
			{"toJson (" + J + " (toPrettyJson .v))", asJSON, v},
			{"toJson (" + H + " (toHcl .w))", normal, wNorm},
			{"toJson (" + H + " (toPrettyHcl .w))", normal, wNorm},
			{"toJson (" + D + " (toJson .w))", asJSON, w},
			{"toJson (" + D + " (toPrettyJson .w))", asJSON, w},
			{"toJson (" + D + " (toPrettyTFVars .w))", normal, wNorm},
		}
		if yamlOK(v) {
			probes = append(probes,
				probe{drawAlias(c, "toYaml", "toYAML") + " .v", asYAML, v},
				probe{"toJson (" + Y + " (toYaml .v))", asJSON, v},
				probe{"toJson (" + Y + " (toJson .v))", asJSON, v})
		}
		if yamlOK(w) && !ambiguous(w) {
			probes = append(probes, probe{"toJson (" + D + " (toYaml .w))", asJSON, w})
		}
		code := ""
		for _, p := range probes {
			code += "{{ " + p.code + " }}" + separator
		}
		out, err := render(code, map[string]any{"v": dress(c.T, deepCopy(v)), "w": dress(c.T, deepCopy(w))})
		if err != nil {
			c.Fatalf("%v", err)
		}
		results := strings.Split(out, separator)
		for i, p := range probes {
			switch {
			case strings.HasPrefix(p.code, "toQuotedTFVars"):
				text, _ := strconv.Unquote("\"" + results[i] + "\"")
				onlyAssignments(c, p.code, text)
			case strings.HasPrefix(p.code, "toTFVars"), strings.HasPrefix(p.code, "toPrettyTFVars"):
				onlyAssignments(c, p.code, results[i])
			}
			if got, err := p.read(results[i]); err != nil || !sameNum(got, p.want) {
				c.Fatalf("%s\ngives %s\nread as %s (%v)\nwant %s", p.code, results[i], show(got), err, show(p.want))
			}
		}
	})
}

// dataHCL writes a value as HCL text without using the code under test.
func dataHCL(v any, sep string, nested bool) string {
	switch x := v.(type) {
	case map[string]any:
		parts := []string{}
		for _, k := range sortedKeys(x) {
			parts = append(parts, fmt.Sprintf("%s = %s", k, dataHCL(x[k], sep, true)))
		}
		if !nested {
			return strings.Join(parts, "\n") + "\n"
		}
		return "{" + sep + strings.Join(parts, sep) + sep + "}"
	case []any:
		parts := []string{}
		for _, e := range x {
			parts = append(parts, dataHCL(e, sep, true))
		}
		return "[" + strings.Join(parts, ", ") + "]"
	case string:
		return fmt.Sprintf("%q", x)
	}
	return fmt.Sprint(v)
}

// The guess is checked on text written by the harness, in the three formats.
func TestC05_Guess(t *testing.T) {
	check(t, "maps with ordinary identifiers as keys written in the three formats by the harness; non-trivial when the text has at least two keys or a container", 2500, 30000, func(c *C) {
		drawFlavour(c, "default").use()
		o := valueOpts{depth: rapid.IntRange(1, 3).Draw(c.T, "depth"), floats: true, keys: rapid.SampledFrom([]string{"a", "b", "foo", "bar_1", "x-y"})}
		v := genDict(o).Draw(c.T, "value").(map[string]any)
		if len(v) == 0 {
			return
		}
		c.Case(show(v))
		nested := len(v) > 1
		for _, e := range v {
			nested = nested || isContainer(e)
		}
		c.NontrivialIf(nested)
		var text string
		var reader func([]byte, any) error
		want := any(v)
		format := rapid.SampledFrom([]string{"json", "yaml", "hcl"}).Draw(c.T, "format")
		c.Class(format)
		norm := func(v any) any { return v }
		switch format {
		case "json":
			text, reader = string(must1(stdjson.Marshal(v))), json.Unmarshal
			if rapid.Bool().Draw(c.T, "indent") {
				text = string(must1(stdjson.MarshalIndent(v, "", "\t")))
			}
		case "yaml":
			text, reader = string(must1(stdyaml.Marshal(v))), yaml.Unmarshal
		case "hcl":
			text, reader = dataHCL(v, rapid.SampledFrom([]string{"\n", " \n\t"}).Draw(c.T, "sep"), false), hcl.Unmarshal
			norm = hclNorm
			want = norm(deepCopy(v))
		}
		text = rapid.SampledFrom([]string{"", "\n", "\n\n"}).Draw(c.T, "before") + text + rapid.SampledFrom([]string{"", "\n"}).Draw(c.T, "after")
		c.Step("%s", text)
		var own, guess any
		if err := reader([]byte(text), &own); err != nil || !sameNum(norm(native(own)), want) {
			c.Fatalf("%s reader gives %s (%v), want %s", format, show(own), err, show(want))
		}
		if err := collections.ConvertData(text, &guess); err != nil || !sameNum(norm(native(guess)), want) {
			c.Fatalf("the guess gives %s (%v), want %s", show(guess), err, show(want))
		}
	})
}

var _ = math.Abs
