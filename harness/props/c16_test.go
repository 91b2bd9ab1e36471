package props

// C16: custom delimiters change the notation only.

import (
	"fmt"
	"regexp"
	"strings"
	"testing"

	"github.com/coveooss/gotemplate/v3/template"
	"pgregory.net/rapid"
)

var c16Lefts = [][2]string{{"[[", "]]"}, {"<%", "%>"}, {"<?", "?>"}, {"⟦", "⟧"}, {"[%", "%]"}, {"#{", "}#"}, {"BEGIN", "END"}, {"{{", "}}"}, {"{%", "%}"}, {"<!--", "-->"}, {"^^", "^.^"}}
var c16Razors = []string{"@", "§", "€", "::", "¤", "@>", "¶¶", "¬", "AT_"}

// drawDelims returns the text given to create the template and the three delimiters it means.
func drawDelims(t *rapid.T) (string, [3]string) {
	lr := rapid.SampledFrom(c16Lefts).Draw(t, "brackets")
	r := rapid.SampledFrom(c16Razors).Draw(t, "razor")
	text := lr[0] + "," + lr[1] + "," + r
	if lr[0] == "{{" {
		text = rapid.SampledFrom([]string{text, ",," + r}).Draw(t, "partial")
	} else if r == "@" {
		text = rapid.SampledFrom([]string{text, lr[0] + "," + lr[1], lr[0] + "," + lr[1] + ","}).Draw(t, "partial")
	}
	return text, [3]string{lr[0], lr[1], r}
}

func writeWith(s string, d [3]string) string {
	return strings.NewReplacer("{{", d[0], "}}", d[1], "@", d[2]).Replace(s)
}

// clashes indicates that a delimiter (or a part making one with a neighbour) already has a meaning in the document.
func clashes(doc string, d [3]string) bool {
	for i := range d {
		for j := range d {
			if i != j && strings.Contains(d[i], d[j]) {
				return true // no notation can tell them apart
			}
		}
	}
	rest := strings.NewReplacer("{{", "", "}}", "").Replace(doc)
	for i, x := range d {
		if i < 2 && (x == "{{" || x == "}}") || x == "@" {
			continue
		}
		if strings.Contains(rest, x) || strings.Contains(doc, x) {
			return true
		}
		// the delimiter must not be prolonged by what precedes or follows it in the document
		written := writeWith(doc, d)
		original := map[int]string{0: "{{", 1: "}}", 2: "@"}[i]
		if strings.Count(written, x) != strings.Count(doc, original) {
			return true
		}
	}
	return false
}

type c16Result struct {
	text string
	err  bool
}

func c16Render(content, delims string, ctx any, opts template.OptionsSet) (c16Result, error) {
	t, err := newTemplate(ctx, delims, opts)
	if err != nil {
		return c16Result{}, fmt.Errorf("creation: %w", err)
	}
	got, err := t.ProcessContent(content, "vp")
	return c16Result{got, err != nil}, err
}

func TestC16_Programs(t *testing.T) {
	check(t, "the program has a block or an assignment", 1500, 40000, func(c *C) {
		g := &sGen{c: c, t: c.T, locals: map[string]byte{}, dot: 'r',
			globals: map[string]byte{"a": 'n', "b": 'n', "zero": 'n', "name": 's', "empty_text": 's', "nums": 'l', "none": 'l', "strs": 't'}}
		g.body(6)
		var src strings.Builder
		for _, i := range g.items {
			src.WriteString(i.src)
		}
		doc := src.String()
		delims, d := drawDelims(c.T)
		if reserved.MatchString(doc) || clashes(doc, d) || reserved.MatchString(writeWith(doc, d)) {
			c.Skip()
		}
		written := writeWith(doc, d)
		c.Case("delims=%q\n%s", delims, written)
		c.NontrivialIf(g.blocks+g.sets > 0)
		c.Class(d[0])
		c.Class(d[2])
		ctx, _ := c15Context()
		want, werr := c16Render(doc, "", ctx, strictOptions())
		ctx, _ = c15Context()
		got, err := c16Render(written, delims, ctx, strictOptions())
		if got.err != want.err || !got.err && got.text != want.text {
			c.Fatalf("delims=%q\n%s\n got %q %v\nwant %q %v", delims, written, got.text, err, want.text, werr)
		}
	})
}

var c16Docs = []frag{
	{"{{ .name }}", "Joe"}, {"{{- .name -}}", "Joe"}, {"{{ upper .name }}", "JOE"}, {"{{/* comment */}}", ""}, {"{{- /* comment */ -}}", ""}, {"{{ if .t }}yes{{ else }}no{{ end }}", "yes"}, {"{{ range $i, $e := .l }}<{{ $i }}:{{ $e }}>{{ end }}", "<0:10><1:20>"},
	{"{{ with .cfg }}{{ .key }}{{ end }}", "val"}, {"{{ define \"d\" }}[d {{ . }}]{{ end }}{{ template \"d\" 3 }}", "[d 3]"}, {"{{ include \"{{ .name }}\" . }}", "Joe"}, {"{{ include `@name;!` . }}", "Joe!"}, {"{{ block \"b\" . }}({{ .name }}){{ end }}", "(Joe)"},
	{"@name;", "Joe"}, {"@(1 + 2)", "3"}, {"@upper(\"abc\")", "ABC"}, {"@if (t) yes @end", ""}, {"@cfg.key;", "val"}, {"@l[1];", "20"}, {"@l[-1:0];", "[20,10]"}, {"@l[0, 1];", "[10,20]"}, {"@(name + \"!\")", "Joe!"}, {"@.name;", "Joe"}, {"@len(l);", "2"}, {"@(cfg).key;", "map[key:val].key"},
	{"@@", "@"}, {"@@name", "@name"}, {"joe@x.com", "joe@x.com"}, {"@{{ .name }}", "{{ .name }}"}, {"`@name\n@(1 + 2)`", "`@name\n@(1 + 2)`"}, {"@(\"a @name @# @if (x)\")", "a @name @# @if (x)"}, {"@print(`x@name;`)", "x@name;"}, {"@{v} := 3;@{v};", "3"}, {"@{v := 4}@($v * 2)", "8"},
	{"@cfg.z := 5;@cfg.z;", "5"}, {"@cfg.z := 5;@cfg.z += 2;@cfg.z;", "7"}, {"@# comment\n", "\n"}, {"@/* comment\n */", ""}, {"## @name\n", "\n"}, {"/*@ @name; @*/", " Joe "}, {"#! @name;", "Joe"}, {"@<;", "\n"}, {"@-;", ""}, {"@<name;", "\nJoe"},
	{"@include(\"d1 {{ .name }}\", .)", "d1 Joe"}, {"@($x := 2)@($x)", "2"}, {"@(cfg.key)", "val"}, {"@upper(name).x", "ERR"}, {"\"@<name>\"", "Joe"}, {"\"<<{{ .name }}\"", "Joe"}, {"@ellipsis(\"add\", l)", "30"}, {"@add(l...)", "30"}, {"${x}", "${x}"}, {"```", "```"}, {"razor-pause!@name razor-resume!", "@name "},
	{"gotemplate-pause!{{ .name }}@name gotemplate-resume!", "{{ .name }}@name "}, {"@for ($e := l) <@($e)>@end", "<10><20>"}, {"@with (cfg)\n@.key;\n@end", "val\n"}, {"  @autoIndent(list(\"a\", \"b\"))", ""}, {"- @awrap(list(\"a\", \"b\")) x\n", ""}, {"@list(1, 2)[1];", "2"}, {"@(l)[0];", "10"}, {"@.l[0];", "10"}, {"@name-x;", ""}, {"@undefined_thing;", "ERR"}, {"{{ bad", "ERR"}, {"@(", ""}, {"{{ raise \"x\" }}", "ERR"},
}

// A block on one line ends at the first semicolon of the line, what follows is then part of another construct.
var c16OneLine = regexp.MustCompile("@(if|for|with)\\b([^\n`]|`[^`]*`|`[^\n`]*)*;")

func TestC16_Documents(t *testing.T) {
	check(t, "the document has several fragments of code", 1500, 40000, func(c *C) {
		doc := ""
		n := rapid.IntRange(1, 6).Draw(c.T, "n")
		for i := 0; i < n; i++ {
			doc += rapid.SampledFrom(c16Docs).Draw(c.T, "code").src + rapid.SampledFrom([]string{" ", "\n", "\ntext\n", ", ", " (text) ", " {x} "}).Draw(c.T, "text")
		}
		delims, d := drawDelims(c.T)
		if reserved.MatchString(doc) || clashes(doc, d) || reserved.MatchString(writeWith(doc, d)) || c16OneLine.MatchString(doc) {
			c.Skip()
		}
		opts := strictOptions()
		mode := rapid.SampledFrom([]string{"strict", "strict", "default", "norazor", "disabled"}).Draw(c.T, "mode")
		switch mode {
		case "default":
			opts = template.DefaultOptions()
		case "norazor":
			opts = noRazorOptions()
		case "disabled":
			opts = opts.Set(template.RenderingDisabled)
		}
		if mode == "disabled" && strings.Contains(doc, "awrap") && strings.Contains(delims, "%") {
			c.Skip() // the text around is written as a format in the converted form
		}
		written := writeWith(doc, d)
		c.Case("mode=%s delims=%q\n%s", mode, delims, written)
		c.NontrivialIf(n > 1)
		c.Class(mode)
		c.Class(d[0])
		c.Class(d[2])
		want, werr := c16Render(doc, "", c13Context(), opts)
		got, err := c16Render(written, delims, c13Context(), opts)
		c.ClassIf(want.err, "error")
		if got.err != want.err || !got.err && got.text != writeWith(want.text, d) {
			c.Fatalf("mode=%s delims=%q\n%s\n got %q %v\nwant %q %v", mode, delims, written, got.text, err, writeWith(want.text, d), werr)
		}
	})
}

func TestC16_Default(t *testing.T) {
	check(t, "the text contains default delimiters together with custom ones", 1500, 40000, func(c *C) {
		delims, d := drawDelims(c.T)
		if d[0] == "{{" || d[2] == "@" {
			c.Skip()
		}
		doc, want := "", ""
		plain, code := 0, 0
		for n := rapid.IntRange(1, 6).Draw(c.T, "n"); n > 0; n-- {
			if rapid.Bool().Draw(c.T, "plain") {
				// default notation, to be left as it is
				s := rapid.SampledFrom(c16Docs).Draw(c.T, "default code").src
				if strings.HasPrefix(s, "`") || strings.Contains(s, "pause!") {
					continue
				}
				if strings.Contains(s, "\"<<") || strings.Contains(s, "\"@<") || strings.Contains(s, "/*") || reserved.MatchString(s) || clashes(s, d) {
					continue
				}
				plain++
				doc, want = doc+s, want+s
			} else {
				f := rapid.SampledFrom([]frag{{"{{ .name }}", "Joe"}, {"@name;", "Joe"}, {"@(1 + 2);", "3"}, {"{{ add 4 5 }}", "9"}, {"@upper(\"abc\");", "ABC"}, {"@l[1];", "20"}}).Draw(c.T, "code")
				code++
				doc, want = doc+writeWith(f.src, d), want+f.want
			}
			sep := rapid.SampledFrom([]string{" ", "\n", ", "}).Draw(c.T, "sep")
			doc, want = doc+sep, want+sep
		}
		if reserved.MatchString(doc) {
			c.Skip()
		}
		c.Case("delims=%q\n%s", delims, doc)
		c.NontrivialIf(plain > 0 && code > 0)
		got, err := c16Render(doc, delims, c13Context(), strictOptions())
		if err != nil || got.text != want {
			c.Fatalf("delims=%q\n%s\n got %q %v\nwant %q", delims, doc, got.text, err, want)
		}
	})
}

func TestC16_Count(t *testing.T) {
	check(t, "more than three delimiters", 300, 3000, func(c *C) {
		part := rapid.SampledFrom([]string{"", "{{", "}}", "@", "[[", "]]", "§", "x"})
		parts := rapid.SliceOfN(part, 0, 6).Draw(c.T, "parts")
		text := strings.Join(parts, ",")
		c.Case("%q", text)
		c.NontrivialIf(len(parts) > 3)
		tpl, err := newTemplate(nil, text, template.DefaultOptions())
		if len(parts) > 3 {
			if err == nil || tpl != nil {
				c.Fatalf("delimiters %q are accepted", text)
			}
			return
		}
		if err != nil {
			c.Fatalf("delimiters %q are refused: %v", text, err)
		}
		want := []string{"{{", "}}", "@"}
		for i, p := range parts {
			if p != "" {
				want[i] = p
			}
		}
		if l, r, z := tpl.LeftDelim(), tpl.RightDelim(), tpl.RazorDelim(); l != want[0] || r != want[1] || z != want[2] {
			c.Fatalf("delimiters %q give %q %q %q", text, l, r, z)
		}
	})
}
