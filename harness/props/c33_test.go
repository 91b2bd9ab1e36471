package props

// C33: the introspection functions describe the functions, values, templates and context that are there.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/template"
	"pgregory.net/rapid"
)

var c33Types = []reflect.Type{
	reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(true), reflect.TypeOf(1.5), reflect.TypeOf([]string{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf((*any)(nil)).Elem(),
	reflect.TypeOf([]any{}), reflect.TypeOf(collections.String("")), reflect.TypeOf((*collections.IGenericList)(nil)).Elem(), reflect.TypeOf((*collections.IDictionary)(nil)).Elem(), reflect.TypeOf(time.Time{}), reflect.TypeOf(&C29Person{}),
}

func c33TypeName(t reflect.Type) string {
	return strings.ReplaceAll(strings.ReplaceAll(t.String(), "interface {}", "interface{}"), "collections.", "")
}

var errorType = reflect.TypeOf((*error)(nil)).Elem()

// signature is the expected text of parameters and results
func c33Signature(f reflect.Type, names []string, skip int, named bool) (in, out string) {
	var params, results []string
	for i := skip; i < f.NumIn(); i++ {
		name, typ := fmt.Sprint("arg", i+1), c33TypeName(f.In(i))
		if f.IsVariadic() && i == f.NumIn()-1 {
			name, typ = "args", "..."+strings.TrimPrefix(typ, "[]")
		}
		if i < len(names) {
			name = names[i]
		}
		if named {
			typ = name + " " + typ
		}
		params = append(params, typ)
	}
	for i := 0; i < f.NumOut(); i++ {
		if i == f.NumOut()-1 && f.Out(i) == errorType {
			break
		}
		results = append(results, c33TypeName(f.Out(i)))
	}
	if out = strings.Join(results, ", "); len(results) != 1 {
		out = "(" + out + ")"
	}
	return strings.Join(params, ", "), out
}

const c33Show = "{{ .Name }}\x01{{ .RealName }}\x01{{ .IsAlias }}\x01{{ .Description }}\x01{{ .Group }}\x01{{ .Arguments }}\x01{{ .Result }}\x01{{ range .Aliases }}{{ . }},{{ end }}\x01{{ .Signature }}\x01{{ range .Examples }}{{ .Razor }}/{{ .Template }}/{{ .Result }};{{ end }}"

func TestC33_Functions(t *testing.T) {
	check(t, "functions of generated types added by the library with descriptions, argument names, alternate names, groups and examples; a case is non-trivial when a function has an alternate name", 400, 8000, func(c *C) {
		tpl, err := newTemplate(map[string]any{}, "", noRazorOptions())
		if err != nil {
			c.Fatalf("%v", err)
		}
		funcs := map[string]any{}
		help, args, alias, groups, examples := map[string]string{}, map[string][]string{}, map[string][]string{}, map[string]string{}, map[string][]template.Example{}
		text := rapid.SampledFrom([]string{"", "Some text.", "été {x}", "two\nlines", "100% \"quoted\""})
		for i, n := 0, rapid.IntRange(1, 4).Draw(c.T, "functions"); i < n; i++ {
			name := fmt.Sprint("fn", i)
			var in []reflect.Type
			for k := rapid.IntRange(0, 4).Draw(c.T, "params"); k > 0; k-- {
				in = append(in, rapid.SampledFrom(c33Types).Draw(c.T, "param"))
			}
			variadic := rapid.IntRange(0, 2).Draw(c.T, "variadic") == 0
			if variadic {
				in = append(in, reflect.SliceOf(rapid.SampledFrom(c33Types).Draw(c.T, "rest")))
			}
			out := []reflect.Type{rapid.SampledFrom(c33Types).Draw(c.T, "result")}
			if rapid.Bool().Draw(c.T, "error") {
				out = append(out, errorType)
			}
			typ := reflect.FuncOf(in, out, variadic)
			funcs[name] = reflect.MakeFunc(typ, func([]reflect.Value) (result []reflect.Value) {
				for _, o := range out {
					result = append(result, reflect.Zero(o))
				}
				return
			}).Interface()
			if rapid.Bool().Draw(c.T, "described") {
				help[name] = text.Draw(c.T, "description")
			}
			for k := range in {
				if rapid.IntRange(0, 4).Draw(c.T, "named") == 0 {
					break
				}
				args[name] = append(args[name], rapid.SampledFrom([]string{"value", "list", "é"}).Draw(c.T, "argument")+fmt.Sprint(k))
			}
			for k := rapid.IntRange(0, 2).Draw(c.T, "aliases"); k > 0; k-- {
				alias[name] = append(alias[name], fmt.Sprintf("other%d_%d", i, k))
				c.Nontrivial()
			}
			if rapid.Bool().Draw(c.T, "grouped") {
				groups[name] = text.Draw(c.T, "group")
			}
			for k := rapid.IntRange(0, 2).Draw(c.T, "examples"); k > 0; k-- {
				examples[name] = append(examples[name], template.Example{Razor: text.Draw(c.T, "razor"), Template: text.Draw(c.T, "template"), Result: text.Draw(c.T, "result")})
			}
			c.Step("%s %s names=%q aliases=%q", name, typ, args[name], alias[name])
		}
		group := rapid.SampledFrom([]string{"", "The group"}).Draw(c.T, "common group")
		before, err := tpl.ProcessContent("{{ len functions }} {{ len aliases }} {{ len allFunctions }}", "vp")
		if err != nil {
			c.Fatalf("%v", err)
		}
		tpl.AddFunctions(funcs, group, template.FuncOptions{template.FuncHelp: help, template.FuncArgs: args, template.FuncAliases: alias, template.FuncGroup: groups, template.FuncExamples: examples})
		total := 0
		for name, f := range funcs {
			in, out := c33Signature(reflect.TypeOf(f), args[name], 0, true)
			g := group
			if g == "" {
				g = groups[name]
			}
			list := ""
			for _, a := range alias[name] {
				list += a + ","
			}
			total += len(alias[name])
			for i, n := range append([]string{name}, alias[name]...) {
				ex := ""
				for _, e := range examples[name] {
					if i == 0 {
						ex += e.Razor + "/" + e.Template + "/" + e.Result + ";"
					}
				}
				want := strings.Join([]string{n, name, fmt.Sprint(i > 0), help[name], g, in, out, list, n + "(" + in + ") " + out, ex}, "\x01")
				got, err := tpl.ProcessContent(fmt.Sprintf("{{ with function %q }}%s{{ end }}", n, c33Show), fmt.Sprint("vp", i))
				if err != nil || got != want {
					c.Fatalf("function %q: %v\n got %q\nwant %q", n, err, got, want)
				}
			}
		}
		var a, b, d int
		fmt.Sscan(before, &a, &b, &d)
		if got, err := tpl.ProcessContent("{{ len functions }} {{ len aliases }} {{ len allFunctions }}", "dir/vp"); err != nil || got != fmt.Sprint(a+len(funcs), b+total, d+len(funcs)+total) {
			c.Fatalf("there were %s functions, aliases and all, now %s, %d functions and %d aliases have been added", before, got, len(funcs), total)
		}
	})
}

// C33Many has methods of every shape.
type C33Many struct {
	Name   string
	Count  int
	hidden bool
	Any    any
	List   []string
}

// Text of a value
func (m C33Many) Text() string { return m.Name }

// With several results
func (m C33Many) With(a int, b ...string) (string, error) { return "", nil }

// Two results
func (m C33Many) Two(x any, l collections.IGenericList) (int, bool) { return 0, m.hidden }

// Nothing as result
func (m C33Many) Nothing() {}

// Early gives an error before other results
func (m C33Many) Early() (error, int) { return nil, 0 }

// Errors gives only errors
func (m C33Many) Errors(error, ...error) (error, []error, error) { return nil, nil, nil }

// Funcs has functions, channels and maps
func (m C33Many) Funcs(func(any, ...any) error, chan any, map[string]interface{}) (func() any, <-chan error) {
	return nil, nil
}

// Change belongs to the pointers
func (m *C33Many) Change(f func(int) string) *C33Many { return m }

func TestC33_Values(t *testing.T) {
	tpl, err := newTemplate(map[string]any{}, "", noRazorOptions())
	if err != nil {
		t.Fatal(err)
	}
	fixed := []any{C33Many{}, &C33Many{}, C29Person{}, &C29Person{}, time.Time{}, &time.Time{}, collections.String(""), &bytes.Buffer{}, 1, "text", 1.5, nil, true, template.FuncInfo{}, &template.FuncInfo{}, time.Second, reflect.TypeOf(0)}
	check(t, "structures of generated types and values with methods; a case is non-trivial when there is something to list", 3000, 60000, func(c *C) {
		var v any
		if rapid.Bool().Draw(c.T, "generated") {
			typ := drawStruct(c.T, 2, false)
			if rapid.IntRange(0, 3).Draw(c.T, "static") == 0 {
				typ = rapid.SampledFrom(c06Static).Draw(c.T, "type")
			}
			v = reflect.New(typ).Interface()
			if rapid.Bool().Draw(c.T, "pointer") {
				v = reflect.ValueOf(v).Elem().Interface()
			}
		} else {
			v = rapid.SampledFrom(fixed).Draw(c.T, "value")
		}
		c.Case("%T", v)
		var attributes, methods []string
		if v != nil {
			typ := reflect.TypeOf(v)
			elem := typ
			if typ.Kind() == reflect.Pointer {
				elem = typ.Elem()
			}
			if elem.Kind() == reflect.Struct {
				for i := 0; i < elem.NumField(); i++ {
					if first := []rune(elem.Field(i).Name)[0]; strings.ToUpper(string(first)) == string(first) && first != '_' {
						attributes = append(attributes, elem.Field(i).Name+" "+elem.Field(i).Type.String())
					}
				}
			}
			for i := 0; i < typ.NumMethod(); i++ {
				in, out := c33Signature(typ.Method(i).Func.Type(), nil, 1, false)
				methods = append(methods, fmt.Sprintf("%s(%s) %s", typ.Method(i).Name, in, out))
			}
		}
		c.NontrivialIf(len(attributes)+len(methods) > 0)
		a, m := strings.Join(attributes, "\n"), strings.Join(methods, "\n")
		s := a + m
		if a != "" && m != "" {
			s = a + "\n\n" + m
		}
		tpl.Context().Set("v", v)
		tpl.Context().AsMap()["v"] = v
		for f, want := range map[string]string{"getAttributes": a, "attr": a, "getMethods": m, "methods": m, "getSignature": s, "sign": s} {
			got, err := tpl.ProcessContent("{{ "+f+" .v }}", "vp")
			if err != nil || got != want {
				c.Fatalf("%s of %T: %v\n got %q\nwant %q", f, v, err, got, want)
			}
		}
	})
}

func TestC33_Context(t *testing.T) {
	base, _ := filepath.EvalSymlinks(filepath.Dir(emptyDir))
	base = filepath.Join(base, "c33")
	os.MkdirAll(filepath.Join(base, "sub", "deep"), 0755)
	defer os.RemoveAll(base)
	constants := map[string]any{"NL": "\n", "CR": "\n", "NEWLINE": "\n", "true": true, "false": false, "null": nil}
	check(t, "contexts that redefine constants or not, definitions in the content and in extension files, contents of several folders; a case is non-trivial when a constant is redefined and a template is defined", 500, 8000, func(c *C) {
		drawFlavour(c, "flavour").use()
		defer useJSON()
		context := map[string]any{}
		for n := rapid.IntRange(0, 4).Draw(c.T, "keys"); n > 0; n-- {
			context[rapid.SampledFrom([]string{"a", "b", "é", "key", "TRUE"}).Draw(c.T, "key")] = genValue(valueOpts{depth: 2}).Draw(c.T, "value")
		}
		redefined := 0
		for _, k := range []string{"NL", "CR", "NEWLINE", "true", "false", "null", "Math"} {
			if rapid.IntRange(0, 6).Draw(c.T, "redefine") == 0 {
				context[k] = rapid.SampledFrom([]any{"mine", 12}).Draw(c.T, "constant")
				redefined++
			}
		}
		os.Remove(filepath.Join(base, "x.gte"))
		names := map[string]bool{}
		define := func(label string) (code string) {
			for n := rapid.IntRange(0, 3).Draw(c.T, label); n > 0; n-- {
				name := rapid.SampledFrom([]string{"d1", "two words", "é", "a/b", "d2", "x.gt"}).Draw(c.T, "name")
				if !names[name] {
					names[name] = true
					code += fmt.Sprintf("{{ define %q }}<%s>{{ end }}", name, name)
				}
			}
			return
		}
		if code := define("extension"); code != "" {
			os.WriteFile(filepath.Join(base, "x.gte"), []byte(code), 0644)
			c.Class("extension")
		}
		// drawn before because the context is altered by the template
		want := deepCopy(context).(map[string]any)
		o := noRazorOptions()
		tpl, err := template.NewTemplate(base, context, "", o)
		if err != nil {
			c.Fatalf("%v", err)
		}
		for i, n := 0, rapid.IntRange(1, 3).Draw(c.T, "contents"); i < n; i++ {
			folder := rapid.SampledFrom([]string{base, base, base + "/sub", base + "/sub/deep"}).Draw(c.T, "folder")
			source := filepath.Join(folder, fmt.Sprint("content", i))
			expect := folder
			if rapid.IntRange(0, 3).Draw(c.T, "relative") == 0 {
				source, expect = fmt.Sprint("content", i), ""
			}
			var mine []string
			before := len(names)
			code := ""
			if i == 0 {
				code = define("content")
			}
			c.NontrivialIf(redefined > 0 && len(names) > before)
			for k := range names {
				mine = append(mine, strconv.Quote(k))
			}
			mine = append(mine, strconv.Quote(source))
			if i > 0 {
				mine = nil // the definitions of a content belong to its folder
			}
			sort.Slice(mine, func(i, j int) bool {
				a, _ := strconv.Unquote(mine[i])
				b, _ := strconv.Unquote(mine[j])
				return a < b
			})
			c.Step("context=%s source=%s code=%s", show(want), source, code)
			code += "{{ range templateNames }}{{ printf `%q` . }} {{ end }}\x01{{ range templates }}{{ printf `%q` .Name }} {{ end }}\x01{{ current }}\x01{{ toJson userContext }}\x01{{ toJson c }}"
			for _, k := range sortedKeys(constants) {
				code += fmt.Sprintf("\x01{{ toJson (index $ %q) }}", k)
			}
			got, err := tpl.ProcessContent(code, source)
			parts := strings.Split(got, "\x01")
			if err != nil || len(parts) != 5+len(constants) {
				c.Fatalf("%v\n%q", err, got)
			}
			listed := strings.Fields(strings.ReplaceAll(parts[1], "two words", "two_words"))
			for i := range listed {
				listed[i] = strings.ReplaceAll(listed[i], "two_words", "two words")
			}
			sort.Slice(listed, func(i, j int) bool {
				a, _ := strconv.Unquote(listed[i])
				b, _ := strconv.Unquote(listed[j])
				return a < b
			})
			if g := strings.TrimSpace(parts[0]); g != strings.Join(listed, " ") || mine != nil && g != strings.Join(mine, " ") {
				c.Fatalf("templateNames gives %s, templates %v, want %v", g, listed, mine)
			}
			if parts[2] != expect && expect != "" {
				c.Fatalf("current gives %q, want %q", parts[2], expect)
			}
			for _, p := range parts[3:5] {
				if v := decodeJSON(c, p); !sameNum(v, want) {
					c.Fatalf("userContext gives %s\nwant %s", p, show(want))
				}
			}
			for i, k := range sortedKeys(constants) {
				w, mine := want[k]
				if !mine {
					w = constants[k]
				}
				if v := decodeJSON(c, parts[5+i]); !sameNum(v, w) && !(w == nil && strings.TrimSpace(parts[5+i]) == "{}") {
					c.Fatalf("constant %s is %q, want %v", k, parts[5+i], w)
				}
			}
		}
	})
}
