package props

// C29: ordinary Go template code means what the standard engine says.

import (
	"fmt"
	"strings"
	"testing"
	gotmpl "text/template"

	"github.com/coveooss/gotemplate/v3/json"
	"github.com/coveooss/gotemplate/v3/template"
	"pgregory.net/rapid"
)

// goGen writes a random document in the ordinary Go template language.
type goGen struct {
	c    *C
	vars []goVar // variables in scope
	defs []string
	dot  string // "root", "str", "int", "item"
	loop bool
	used map[string]bool
	n    int
	doc  int // number of the document: templates stay defined once rendered
}

type goVar struct{ name, kind string }

func (g *goGen) pick(label string, list ...string) string {
	return rapid.SampledFrom(list).Draw(g.c.T, label)
}
func (g *goGen) intn(label string, n int) int { return rapid.IntRange(0, n-1).Draw(g.c.T, label) }

func (g *goGen) variable(kind string) (list []string) {
	for _, v := range g.vars {
		if v.kind == kind {
			list = append(list, "$"+v.name)
		}
	}
	return
}

var goWords = []string{"a", "Hello", "", "x y", "<b>&\"q\"</b>", "é日", "100%", "10", "it's", "tab\tend", "a\nb", "{ }", "a\\b", "//", "/*c*/", "~", "# !"}

func (g *goGen) str(depth int) string {
	choices := append([]string{"lit", "lit", "field"}, g.variable("str")...)
	if g.dot == "str" || g.dot == "item" {
		choices = append(choices, "dot", "dot")
	}
	if depth > 0 {
		choices = append(choices, "printf", "print", "html", "js", "urlquery", "index", "and", "or", "println", "slice")
	}
	switch k := g.pick("str", choices...); k {
	case "lit":
		w := g.pick("word", goWords...)
		if g.intn("raw", 3) == 0 && !strings.ContainsAny(w, "`\n") {
			return "`" + w + "`"
		}
		return fmt.Sprintf("%q", w)
	case "field":
		return "$" + g.pick("field", ".s1", ".s2", ".d.x", ".d.sub.z", ".empty")
	case "dot":
		if g.dot == "item" {
			return ".name"
		}
		return "."
	case "printf":
		f := g.pick("format", "%v-%v", "[%v|%v]", "%5v%-4v.", "%q%v", "%v%%%v")
		return fmt.Sprintf("(printf %q %s %s)", f, g.str(depth-1), g.any(depth-1))
	case "print":
		return fmt.Sprintf("(print %s %s)", g.any(depth-1), g.any(depth-1))
	case "println":
		return fmt.Sprintf("(println %s)", g.any(depth-1))
	case "html", "js", "urlquery":
		return fmt.Sprintf("(%s %s)", k, g.any(depth-1))
	case "index":
		return g.pick("index", "(index $.l 0)", "(index $.l 1)", "(index $.d `x`)", "(index $.d `sub` `z`)", "(index $.ld 1).name", "(index $.ld 0 `name`)", "(index $.ld 1 `tags` 0)")
	case "slice":
		return fmt.Sprintf("(printf `%%s` (print `abc` %s))", g.str(depth-1))
	case "and", "or":
		return fmt.Sprintf("(%s %s %s)", k, g.str(depth-1), g.str(depth-1))
	default:
		return k
	}
}

func (g *goGen) int(depth int) string {
	choices := append([]string{"lit", "field"}, g.variable("int")...)
	if g.dot == "int" || g.dot == "item" {
		choices = append(choices, "dot", "dot")
	}
	if depth > 0 {
		choices = append(choices, "len", "index", "and")
	}
	switch k := g.pick("int", choices...); k {
	case "lit":
		return g.pick("number", "0", "1", "7", "-3", "100", "0x1F", "1_000", "'a'", "0o17", "0b101")
	case "field":
		return "$" + g.pick("field", ".n1", ".n2", ".d.y", ".m.one")
	case "dot":
		if g.dot == "item" {
			return ".v"
		}
		return "."
	case "len":
		if g.intn("of", 2) == 0 {
			return "(len " + g.pick("list", "$.l", "$.ln", "$.e", "$.d", "$.ld", "$.m") + ")"
		}
		return "(len " + g.str(depth-1) + ")"
	case "index":
		return g.pick("index", "(index $.ln 0)", "(index $.ln 2)", "(index $.m `two`)", "(index $.ld 0).v")
	case "and":
		return fmt.Sprintf("(%s %s %s)", g.pick("op", "and", "or"), g.int(depth-1), g.int(depth-1))
	default:
		return k
	}
}

func (g *goGen) bool(depth int) string {
	choices := append([]string{"lit", "field"}, g.variable("bool")...)
	if depth > 0 {
		choices = append(choices, "not", "eqs", "eqi", "cmp", "cmps", "and", "missing", "multi")
	}
	switch k := g.pick("bool", choices...); k {
	case "lit":
		return g.pick("boolean", "true", "false")
	case "field":
		return "$" + g.pick("field", ".b1", ".b2")
	case "not":
		return "(not " + g.any(depth-1) + ")"
	case "eqs":
		return fmt.Sprintf("(%s %s %s)", g.pick("op", "eq", "ne"), g.str(depth-1), g.str(depth-1))
	case "eqi":
		return fmt.Sprintf("(%s %s %s)", g.pick("op", "eq", "ne"), g.int(depth-1), g.int(depth-1))
	case "multi":
		return fmt.Sprintf("(eq %s %s %s %s)", g.int(depth-1), g.int(depth-1), g.int(depth-1), g.int(depth-1))
	case "cmp":
		return fmt.Sprintf("(%s %s %s)", g.pick("op", "lt", "le", "gt", "ge"), g.int(depth-1), g.int(depth-1))
	case "cmps":
		return fmt.Sprintf("(%s %s %s)", g.pick("op", "lt", "le", "gt", "ge"), g.str(depth-1), g.str(depth-1))
	case "and":
		return fmt.Sprintf("(%s %s %s)", g.pick("op", "and", "or"), g.bool(depth-1), g.bool(depth-1))
	case "missing":
		return "(not $.missing)"
	default:
		return k
	}
}

func (g *goGen) any(depth int) string {
	switch g.intn("any", 3) {
	case 0:
		return g.int(depth)
	case 1:
		return g.bool(depth)
	}
	return g.str(depth)
}

// open and close are the delimiters, with or without the trim markers
func (g *goGen) act(code string) string {
	l, r := "{{", "}}"
	switch g.intn("trim", 10) {
	case 0, 1:
		l = "{{- "
	case 2, 3:
		r = " -}}"
	case 4:
		l, r = "{{- ", " -}}"
	case 5:
		l, r = "{{ ", "  }}"
	}
	if strings.HasPrefix(code, "-") && l == "{{" {
		l = "{{ "
	}
	return l + code + r
}

var goTexts = []string{"a", "text ", " ", "\n", "\n\n", "  \n", "word. ", "é", "\t", "<p>", "{ x }", "$x", "}", "\r\n", "100%\n", "# title\n", "- item", "a@@b"}

func (g *goGen) text() string {
	t := ""
	for i := g.intn("pieces", 4); i >= 0; i-- {
		t += g.pick("text", goTexts...)
	}
	if strings.HasSuffix(t, "{") {
		t += " "
	}
	return t
}

func (g *goGen) pipeline() string {
	e := g.any(2)
	if e == "." || strings.HasPrefix(e, "$") || g.intn("parentheses", 2) == 0 || !strings.HasPrefix(e, "(") || !strings.HasSuffix(e, ")") {
	} else {
		e = e[1 : len(e)-1]
	}
	for i := g.intn("pipes", 6); i > 3; i-- {
		e += " | " + g.pick("pipe", "print", "printf `<%v>`", "html", "printf `%v-%v` 1", "js", "println", "not", "and true", "or 0", "eq 1")
		if strings.HasSuffix(e, "eq 1") {
			e = strings.TrimSuffix(e, "eq 1") + "printf `%v`"
		}
	}
	return e
}

// body writes some nodes; the variables it declares disappear at its end
func (g *goGen) body(depth int) string {
	saved := len(g.vars)
	defer func() { g.vars = g.vars[:saved] }()
	return g.nodes(depth)
}

func (g *goGen) nodes(depth int) (result string) {
	for i := g.intn("nodes", 4); i >= 0; i-- {
		result += g.node(depth)
	}
	return
}

func (g *goGen) with(dot string, depth int, f func()) {
	saved := g.dot
	g.dot = dot
	f()
	g.dot = saved
}

func (g *goGen) node(depth int) (result string) {
	choices := []string{"text", "text", "expr", "expr", "expr", "var", "comment"}
	if len(g.vars) > 0 {
		choices = append(choices, "set")
	}
	if depth > 0 {
		choices = append(choices, "if", "if", "with", "range", "range", "rangev", "rangen", "block", "ifvar")
	}
	if len(g.defs) > 0 {
		choices = append(choices, "template", "template")
	}
	if g.loop {
		choices = append(choices, "break")
	}
	k := g.pick("node", choices...)
	g.c.Class(k)
	switch k {
	case "text":
		return g.text()
	case "comment":
		return g.pick("comment", "{{/* a comment */}}", "{{- /* a\ncomment }} {{ */ -}}", "{{/**/}}")
	case "expr":
		return g.act(g.pipeline())
	case "var":
		kind := g.pick("kind", "str", "int", "bool")
		var value string
		switch kind {
		case "str":
			value = g.str(2)
		case "int":
			value = g.int(2)
		default:
			value = g.bool(2)
		}
		g.n++
		name := fmt.Sprintf("%s%d", g.pick("name", "v", "value", "x_", "é"), g.n)
		g.vars = append(g.vars, goVar{name, kind})
		return g.act("$" + name + " := " + value)
	case "set":
		v := g.vars[g.intn("which", len(g.vars))]
		value := ""
		switch v.kind {
		case "str":
			value = g.str(2)
		case "int":
			value = g.int(2)
		case "bool":
			value = g.bool(2)
		}
		return g.act("$" + v.name + " = " + value)
	case "if":
		result = g.act("if "+g.any(2)) + g.body(depth-1)
		for i := g.intn("else if", 3); i > 1; i-- {
			result += g.act("else if "+g.bool(2)) + g.body(depth-1)
		}
		if g.intn("else", 2) == 0 {
			result += g.act("else") + g.body(depth-1)
		}
		return result + g.act("end")
	case "ifvar":
		g.n++
		name := fmt.Sprintf("w%d", g.n)
		saved := len(g.vars)
		result = g.act("if $" + name + " := " + g.str(1))
		g.vars = append(g.vars, goVar{name, "str"})
		result += g.body(depth-1) + g.act("else") + g.body(depth-1) + g.act("end")
		g.vars = g.vars[:saved]
		return
	case "with":
		dot := g.pick("dot", "str", "int")
		code := g.str(1)
		if dot == "int" {
			code = g.int(1)
		}
		result = g.act("with " + code)
		g.with(dot, depth, func() { result += g.body(depth - 1) })
		if g.intn("else", 2) == 0 {
			result += g.act("else") + g.body(depth-1)
		}
		return result + g.act("end")
	case "range", "rangev", "rangen":
		kinds := map[string]string{"$.l": "str", "$.ln": "int", "$.e": "str", "$.ld": "item", "$.m": "int", "3": "int", "$.l2": "str"}
		over := g.pick("over", "$.l", "$.ln", "$.e", "$.ld", "$.m", "$.l2")
		if k == "rangen" {
			over = "3"
		}
		kind := kinds[over]
		saved := len(g.vars)
		head := "range " + over
		if k == "rangev" {
			g.n++
			head = fmt.Sprintf("range $k%d, $w%d := %s", g.n, g.n, over)
			key := "int"
			if over == "$.m" {
				key = "str"
			}
			g.vars = append(g.vars, goVar{fmt.Sprintf("k%d", g.n), key})
			if kind != "item" {
				g.vars = append(g.vars, goVar{fmt.Sprintf("w%d", g.n), kind})
			}
		}
		result = g.act(head)
		loop := g.loop
		g.loop = true
		g.with(kind, depth, func() { result += g.body(depth - 1) })
		g.loop = loop
		g.vars = g.vars[:saved]
		if g.intn("else", 3) == 0 {
			result += g.act("else") + g.body(depth-1)
		}
		return result + g.act("end")
	case "break":
		return g.act("if "+g.bool(1)) + g.act(g.pick("loop", "break", "continue")) + g.act("end")
	case "template":
		return g.act("template `" + g.pick("template", g.defs...) + "` $")
	case "block":
		g.n++
		name := fmt.Sprintf("block%d_%d", g.doc, g.n)
		vars, dot, loop := g.vars, g.dot, g.loop
		g.vars, g.dot, g.loop = nil, "root", false
		result = g.act("block \""+name+"\" $") + g.body(depth-1) + g.act("end")
		g.vars, g.dot, g.loop = vars, dot, loop
		return
	}
	return
}

func (g *goGen) document() (result string) {
	g.dot = "root"
	var defines []string
	for i := g.intn("defines", 4); i > 1; i-- {
		g.n++
		name := fmt.Sprintf("tpl%d_%d", g.doc, g.n)
		code := g.act("define \""+name+"\"") + g.body(2) + g.act("end")
		g.defs = append(g.defs, name)
		defines = append(defines, code)
	}
	main := g.nodes(3)
	if len(defines) > 0 && rapid.Bool().Draw(g.c.T, "definitions first") {
		return strings.Join(defines, "") + main
	}
	return main + strings.Join(defines, "\n")
}

func (g *goGen) context() map[string]any {
	word := func() string { return g.pick("context word", goWords...) }
	num := func() int { return g.intn("context number", 40) - 5 }
	return map[string]any{
		"s1": word(), "s2": word(), "empty": "", "n1": num(), "n2": 0, "b1": rapid.Bool().Draw(g.c.T, "b1"), "b2": false,
		"l": []string{word(), "second"}, "l2": []any{word(), "", word()}, "ln": []int{num(), 0, num()}, "e": []any{},
		"d":  map[string]any{"x": word(), "y": num(), "sub": map[string]any{"z": word()}},
		"ld": []map[string]any{{"name": word(), "v": num(), "tags": []string{word()}}, {"name": "n2", "v": 0, "tags": []string{"t"}}},
		"m":  map[string]int{"one": num(), "two": 2},
	}
}

func TestC29_Standard(t *testing.T) {
	documents := 0
	shared := map[string]*evaluator{"none": {}, "razor": {}, "norazor": {}}
	check(t, "documents using every construct of the ordinary template language with typed expressions, against the standard engine; a case is non-trivial when the standard engine accepts the document and the result is not the source", 15000, 200000, func(c *C) {
		documents++
		g := &goGen{c: c, doc: documents}
		ctx := g.context()
		src := g.document()
		mode := rapid.SampledFrom([]string{"norazor", "norazor", "razor", "none"}).Draw(c.T, "mode")
		c.Case("%s: %q with %s", mode, src, show(ctx))
		if strings.Contains(src, "\n#!\n") || strings.HasPrefix(src, "#!") {
			c.Skip()
		}
		std, err := gotmpl.New("std").Parse(src)
		var b strings.Builder
		if err == nil {
			err = std.Execute(&b, deepCopy(ctx))
		}
		if err != nil || strings.Contains(b.String(), "<no value>") {
			c.Skip() // the generator is not exact: e.g. comparison of incompatible values
		}
		want := b.String()
		c.NontrivialIf(want != src)
		c.Class(mode)
		if mode == "razor" {
			want = strings.ReplaceAll(want, "@@", "@")
		}
		e := shared[mode]
		if e.tmpl == nil || e.count > 200 || rapid.IntRange(0, 49).Draw(c.T, "fresh") == 0 {
			o := template.DefaultOptions()
			if mode == "none" {
				o = template.OptionsSet{}
			}
			o[template.StrictErrorCheck] = true
			o[template.Razor] = mode == "razor"
			useJSON()
			e.context, e.count = json.DictionaryHelper.AsDictionary(map[string]any{}), 0
			if e.tmpl, err = newTemplate(e.context, "", o); err != nil {
				c.Fatalf("%v", err)
			}
		}
		e.count++
		for k, v := range ctx {
			e.context.Set(k, v)
		}
		got, err := e.tmpl.ProcessContent(src, "vp")
		if err != nil || got != want {
			c.Fatalf("%s: %s\n got %q (%v)\nwant %q", mode, src, got, err, want)
		}
	})
}

// C29Person is a context with fields and methods.
type C29Person struct {
	Name string
	Age  int
	Tags []string
	Next *C29Person
	Map  map[string]int
}

// Hello has arguments
func (p C29Person) Hello(to string, n int) string {
	return fmt.Sprintf("%s says hello %d times to %s", p.Name, n, to)
}

// Older belongs to pointers
func (p *C29Person) Older() int { return p.Age + 1 }

// The data given to a template can be of any type, not only a dictionary.
func TestC29_AnyContext(t *testing.T) {
	check(t, "documents rendered with a scalar, a list, a map or a structure as data, against the standard engine; a case is non-trivial when the standard engine accepts the document", 2500, 40000, func(c *C) {
		word := func() string {
			return rapid.SampledFrom([]string{"", "a", "two words", "é", "x@@y", "<b>", "10%"}).Draw(c.T, "word")
		}
		num := func() int { return rapid.IntRange(-3, 99).Draw(c.T, "number") }
		person := func() *C29Person {
			return &C29Person{Name: word(), Age: num(), Tags: []string{word(), "tag"}, Map: map[string]int{"k": num(), "z": 2}}
		}
		var ctx any
		scalar := []string{"{{ . }}", "{{ printf `%v|%q` . . }}", "{{ if . }}yes{{ else }}no{{ end }}", "{{ with . }}[{{ . }}]{{ else }}none{{ end }}", "{{ define `TPL` }}<{{ . }}>{{ end }}{{ template `TPL` . }}", "{{ $x := . }}{{ $x }} {{ $ }}", "{{ block `TPL` . }}({{ . }}){{ end }}", "{{ eq . $ }}", "{{ print . 1 }}"}
		list := []string{"{{ len . }}", "{{ range . }}{{ . }},{{ end }}", "{{ range $i, $e := . }}{{ $i }}={{ $e }};{{ else }}nothing{{ end }}", "{{ index . 0 }}", "{{ if . }}yes{{ else }}no{{ end }}", "{{ range slice . 1 }}{{ . }}{{ end }}", "{{ with . }}{{ len . }}{{ end }}", "{{ define `TPL` }}{{ len . }}{{ end }}{{ template `TPL` . }}"}
		object := []string{"{{ .Name }}", "{{ $.Age }}", "{{ range .Tags }}{{ . }}/{{ end }}", "{{ index .Tags 1 }}", "{{ with .Next }}{{ .Name }}{{ else }}alone{{ end }}", "{{ range $k, $v := .Map }}{{ $k }}{{ $v }}{{ end }}", "{{ .Map.k }}", "{{ if gt .Age 10 }}old{{ end }}", "{{ define `TPL` }}{{ .Name }}{{ end }}{{ template `TPL` . }}", "{{ .Hello `you` 3 }}", "{{ .Older }}", "{{ `me` | printf `%s-%s` .Name }}"}
		dict := []string{"{{ .Name }}", "{{ $.Age }}", "{{ range .Tags }}{{ . }}/{{ end }}", "{{ index . `Name` }}", "{{ len .Tags }}", "{{ with .Tags }}{{ index . 0 }}{{ end }}"}
		var parts []string
		kind := rapid.SampledFrom([]string{"text", "number", "float", "bool", "list", "texts", "array", "struct", "pointer", "map", "function"}).Draw(c.T, "kind")
		switch kind {
		case "text":
			ctx, parts = word(), scalar
		case "number":
			ctx, parts = rapid.SampledFrom([]any{num(), int8(5), uint64(num() + 3), int64(-1)}).Draw(c.T, "integer"), scalar
		case "float":
			ctx, parts = float64(num())/4, scalar
		case "bool":
			ctx, parts = rapid.Bool().Draw(c.T, "bool"), scalar
		case "list":
			l := []any{}
			for n := rapid.IntRange(0, 4).Draw(c.T, "n"); n > 0; n-- {
				l = append(l, rapid.SampledFrom([]any{num(), word(), true, 1.5}).Draw(c.T, "element"))
			}
			ctx, parts = l, list
		case "texts":
			l := []string{}
			for n := rapid.IntRange(0, 4).Draw(c.T, "n"); n > 0; n-- {
				l = append(l, word())
			}
			ctx, parts = l, list
		case "array":
			ctx, parts = [2]int{num(), num()}, list
		case "struct":
			ctx, parts = *person(), object
		case "pointer":
			p := person()
			if rapid.Bool().Draw(c.T, "next") {
				p.Next = person()
			}
			ctx, parts = p, object
		case "map":
			ctx, parts = map[string]any{"Name": word(), "Age": num(), "Tags": []string{"t", word()}}, dict
		case "function":
			ctx, parts = func(s string) string { return "<" + s + ">" }, []string{"{{ call . `x` }}", "{{ if . }}yes{{ end }}"}
		}
		src := ""
		for i, n := 0, rapid.IntRange(1, 5).Draw(c.T, "parts"); i < n; i++ {
			src += strings.ReplaceAll(rapid.SampledFrom(parts).Draw(c.T, "part"), "TPL", fmt.Sprint("tpl", i)) + rapid.SampledFrom([]string{"", " ", "\n", " text "}).Draw(c.T, "text")
		}
		full := rapid.Bool().Draw(c.T, "addons") && !strings.Contains(src, "slice") // the addons give another meaning to slice with a single position
		c.Case("addons=%v %T %v: %q", full, ctx, ctx, src)
		c.Class(kind)
		var b strings.Builder
		std, err := gotmpl.New("std").Parse(src)
		if err == nil {
			err = std.Execute(&b, ctx)
		}
		if err != nil || strings.Contains(b.String(), "<no value>") {
			c.Skip()
		}
		c.Nontrivial()
		o := template.OptionsSet{template.StrictErrorCheck: true}
		if full {
			o = strictOptions().Unset(template.Razor)
		}
		tpl, err := newTemplate(ctx, "", o)
		if err != nil {
			c.Fatalf("%v", err)
		}
		for i := 0; i < 2; i++ {
			if got, err := tpl.ProcessContent(src, "vp"); err != nil || got != b.String() {
				c.Fatalf("%s\n got %q (%v)\nwant %q", src, got, err, b.String())
			}
		}
	})
}
