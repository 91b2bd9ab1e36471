package props

// C12: what is not template code passes through byte for byte.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"testing"

	"github.com/coveooss/gotemplate/v3/template"
	"pgregory.net/rapid"
)

// reserved are the documented marks which are processed even when there is no template code.
var reserved = regexp.MustCompile(`(?m)^\s*#!\s*$|"!Q!.*?!Q!"|\A#![^\n]*gotemplate`)

var plainPieces = []string{"a", "Z", " ", "  ", "\t", "\n", "\n", "\n\n", "\r\n", "\r", "é", "日本", "🙂", "\u00a0", "\u2028", "\u0085", "\ufeff", "\x00", "\x01", "\x7f",
	"\xff", "\xc3", "\xed\xa0\x80", "{", "}", "{ {", "} }", "{%", "%}", "<%", "$", "${x}", "$x", "\\", "\\\\", "`", "```", "'", "\"", "\"\"", "<no value>", "<nil>", "!NO_VALUE!",
	"#", "//", "/* x */", "##", "///", "#!/bin/sh\n", "#! x", "<<", "\"<<x\"", ">>", "%s", "%d", "%!", "&", "&amp;", "<b>", "[[x]]", "if (a) {\n}", ":=", "x := 2", "end", "range", "- ", "!Q!", "; ", "\x1b[31m"}

var plainTexts = pieceText(plainPieces, 14)

func rawDelims(t *rapid.T) (string, [3]string) {
	d := rapid.SampledFrom([][3]string{{"{{", "}}", "@"}, {"{{", "}}", "@"}, {"[[", "]]", "§"}, {"<%", "%>", "€"}, {"<<", ">>", "::"}, {"{{", "}}", "$$"}}).Draw(t, "delims")
	if d[0] == "{{" && d[2] == "@" {
		return "", d
	}
	return strings.Join(d[:], ","), d
}

// engine keeps one template per delimiters and options, for speed: rendering must not depend on it.
type engineKey struct {
	delims string
	opts   string
}
type engines map[engineKey]*template.Template

func (e engines) get(c *C, delims, opts string, ctx any) *template.Template {
	k := engineKey{delims, opts}
	if t := e[k]; t != nil {
		return t
	}
	o := template.DefaultOptions()
	for _, s := range strings.Fields(opts) {
		switch s {
		case "strict":
			o[template.StrictErrorCheck] = true
		case "norazor":
			o[template.Razor] = false
		case "disabled":
			o[template.RenderingDisabled] = true
		case "acceptno":
			o[template.AcceptNoValue] = true
		case "stdout":
			o[template.OutputStdout] = true
		}
	}
	t, err := newTemplate(ctx, delims, o)
	if err != nil {
		c.Fatalf("NewTemplate: %v", err)
	}
	e[k] = t
	return t
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	end := func(s string) string {
		if len(s) > i+30 {
			return s[i : i+30]
		}
		return s[i:]
	}
	return fmt.Sprintf("at byte %d: got %q, want %q", i, end(a), end(b))
}

func TestC12_Plain(t *testing.T) {
	eng := engines{}
	check(t, "the text has several lines, or bytes outside printable ASCII, or characters close to delimiters", 20000, 400000, func(c *C) {
		delims, d := rawDelims(c.T)
		opts := rapid.SampledFrom([]string{"", "strict", "acceptno", "norazor", "disabled"}).Draw(c.T, "options")
		s := plainTexts.Draw(c.T, "text")
		if delims != "" && rapid.Bool().Draw(c.T, "default code") {
			// with other delimiters, the default ones are ordinary text
			s += rapid.SampledFrom([]string{"{{ .x }}", "@foo", "@(1+2)", "{{ bad", "}}", "me@x.org", "@if (true)"}).Draw(c.T, "code") + plainTexts.Draw(c.T, "tail")
		}
		for _, x := range d {
			if strings.Contains(s, x) {
				s = strings.ReplaceAll(s, x, "")
			}
		}
		if strings.Contains(s, d[0]) || strings.Contains(s, d[1]) || strings.Contains(s, d[2]) || reserved.MatchString(s) {
			c.Skip()
		}
		c.Case("delims=%q options=%q text=%q", delims, opts, s)
		c.NontrivialIf(strings.Contains(s, "\n") || strings.ContainsAny(s, "{}$\\`\r"))
		c.ClassIf(delims != "", "custom delimiters")
		c.ClassIf(strings.Contains(s, "\r"), "carriage return")
		tpl := eng.get(c, delims, opts, map[string]any{"x": 1})
		got, err := tpl.ProcessContent(s, rapid.SampledFrom([]string{"vp", "vp.gt", "x.template", ""}).Draw(c.T, "source"))
		if err != nil || got != s {
			c.Fatalf("%v %s", err, firstDiff(got, s))
		}
	})
}

var codePieces = []string{"{{", "}}", "@", "{{ .x }}", "{{- .y -}}", "{{ bad", "@foo", "@foo(", "@(1+2)", "@{v} := 3", "@@", "@{{", "@if (x)", "@end", "a@b.org", "{{ if }}", "{{ raise \"x\" }}",
	"{{/* c */}}", "@# c", "@/* c */", "## @x", "/*@ x @*/", "\"@<x>\"", "@<x", "@-x", "@;", "@x := 4\n", "{{ define \"d\" }}x{{ end }}", "`@a`", "@(", "{{ undefinedFunc }}"}

func TestC12_Marker(t *testing.T) {
	eng := engines{}
	pieces := append(append([]string{}, plainPieces...), codePieces...)
	pieces = append(pieces, codePieces...)
	check(t, "the text contains template code", 20000, 400000, func(c *C) {
		opts := rapid.SampledFrom([]string{"", "strict", "acceptno", "norazor", "disabled"}).Draw(c.T, "options")
		s := pieceText(pieces, 8).Draw(c.T, "before") + rapid.SampledFrom([]string{"", "# ", "// ", "\n"}).Draw(c.T, "comment") + "no-gotemplate!" + pieceText(pieces, 8).Draw(c.T, "after")
		if reserved.MatchString(s) {
			c.Skip()
		}
		c.Case("options=%q text=%q", opts, s)
		c.NontrivialIf(strings.Contains(s, "{{") || strings.Contains(s, "@"))
		c.ClassIf(strings.Contains(s, "@"), "razor")
		c.ClassIf(strings.Contains(s, "{{"), "actions")
		tpl := eng.get(c, "", opts, map[string]any{"x": 1})
		got, err := tpl.ProcessContent(s, rapid.SampledFrom([]string{"vp", "vp.gt"}).Draw(c.T, "source"))
		if err != nil || got != s {
			c.Fatalf("%v %s", err, firstDiff(got, s))
		}
	})
}

// actions with the text they give
var goActions = [][2]string{{"{{ add 4 5 }}", "9"}, {"{{ .name }}", "Joe"}, {"{{ $.name }}", "Joe"}, {"{{ \"é\" }}", "é"}, {"{{ if .t }}yes{{ else }}no{{ end }}", "yes"}, {"{{ upper \"abc\" }}", "ABC"},
	{"{{ range .l }}<{{ . }}>{{ end }}", "<1><2>"}, {"{{/* comment */}}", ""}, {"{{ len .l }}", "2"}, {"{{ with .name }}({{ . }}){{ end }}", "(Joe)"}, {"{{ `@name` }}", "@name"}, {"{{ \"@(1)\" }}", "@(1)"}}
var razorActions = [][2]string{{"@(4+5);", "9"}, {"@name;", "Joe"}, {"@(\"é\");", "é"}, {"@upper(\"abc\");", "ABC"}, {"@(name);", "Joe"}, {"@.name;", "Joe"}, {"@l[0];", "1"}, {"@@", "@"}}

var razorLike = []string{"@", "@foo", "@foo(", "@(1+2)", "@name", "@name;", "@{v} := 3", "@@", "@if (x)", "@end", "a@b.org", "@# c", "@/* c */", "## @x", "/*@ x @*/", "@-x", "@;", "@x := 4", "@foo.bar", "@l[0]", "@(", "@<;", "@--x", "#! @x", "//! @x", "@upper(\"a\")", "@autoIndent(1)", "@$", "@.x", "`@a`", "}}@ "}

func actionContext() map[string]any {
	return map[string]any{"name": "Joe", "t": true, "l": []any{1, 2}}
}

// TestC12_NoRazor: with razor disabled, razor-like text is kept while ordinary actions are evaluated.
func TestC12_NoRazor(t *testing.T) {
	eng := engines{}
	check(t, "the text has razor-like text and at least one ordinary action", 20000, 400000, func(c *C) {
		how := rapid.SampledFrom([]string{"marker", "option", "pause"}).Draw(c.T, "how")
		var doc, want strings.Builder
		put := func(src, out string) { doc.WriteString(src); want.WriteString(out) }
		opts := "strict"
		if rapid.Bool().Draw(c.T, "lenient") {
			opts = ""
		}
		switch how {
		case "option":
			opts += " norazor"
		case "marker":
			if rapid.Bool().Draw(c.T, "first") {
				put("# no-razor!\n", "# no-razor!\n")
			}
		case "pause":
			put("# razor-pause!\n", "# razor-pause!\n")
		}
		n := rapid.IntRange(1, 12).Draw(c.T, "n")
		razors, actions := 0, 0
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 4).Draw(c.T, "kind") {
			case 0:
				a := rapid.SampledFrom(goActions).Draw(c.T, "action")
				if strings.HasPrefix(a[0], "{{ `") || strings.Contains(a[0], "\"@") {
					razors++
				}
				put(a[0], a[1])
				actions++
			case 1, 2:
				s := rapid.SampledFrom(razorLike).Draw(c.T, "razor")
				put(s, s)
				razors++
			case 3:
				s := rapid.SampledFrom([]string{" ", "\n", "\n\n", "\t", "\r\n", " \n"}).Draw(c.T, "space")
				put(s, s)
			default:
				s := rapid.SampledFrom([]string{"text", "é", ", ", "()", "${x}", "'", "\\", "[1]", "{ ", " }", "<b>", "<no value>", "日本"}).Draw(c.T, "text")
				put(s, s)
			}
		}
		if how == "marker" && !strings.Contains(doc.String(), "no-razor!") {
			put("\n// no-razor!", "\n// no-razor!")
		}
		s := doc.String()
		if strings.Contains(s, "@{{") && how == "pause" {
			c.Class("delimiters in contact")
		}
		c.Case("%s options=%q text=%q", how, opts, s)
		if strings.Contains(s, "{{{") || reserved.MatchString(s) {
			c.Skip() // an opening brace in contact with an action is not the action
		}
		c.NontrivialIf(razors > 0 && actions > 0)
		c.Class(how)
		got, err := eng.get(c, "", opts, actionContext()).ProcessContent(s, "vp")
		if err != nil || got != want.String() {
			c.Fatalf("%v %s", err, firstDiff(got, want.String()))
		}
	})
}

// TestC12_Pause: documents with live lines and lines between pause and resume markers.
func TestC12_Pause(t *testing.T) {
	eng := engines{}
	check(t, "a line with template code is paused and another one is evaluated", 20000, 400000, func(c *C) {
		delims, d := "", [3]string{"{{", "}}", "@"}
		if rapid.IntRange(0, 3).Draw(c.T, "custom") == 0 {
			d = rapid.SampledFrom([][3]string{{"[[", "]]", "§"}, {"<%", "%>", "€"}}).Draw(c.T, "delims")
			delims = strings.Join(d[:], ",")
		}
		trans := strings.NewReplacer("{{", d[0], "}}", d[1], "@", d[2])
		goPaused, razorPaused := false, false
		pausedCode, live := 0, 0
		var doc, want []string
		n := rapid.IntRange(2, 14).Draw(c.T, "lines")
		simple := func() string {
			return rapid.SampledFrom([]string{"", "text ", "é ", "- ", "x = ", "日本", "\t", "${a} ", "{ ", "# "}).Draw(c.T, "text")
		}
		for i := 0; i < n; i++ {
			k := rapid.IntRange(0, 9).Draw(c.T, "kind")
			comment := rapid.SampledFrom([]string{"# ", "// ", "", "<!-- ", "é "}).Draw(c.T, "comment")
			tail := rapid.SampledFrom([]string{"", "", " -->", " \r"}).Draw(c.T, "tail")
			var line string
			switch {
			case k == 0:
				line, goPaused = comment+"gotemplate-pause!"+tail, true
			case k == 1:
				line, razorPaused = comment+"razor-pause!"+tail, true
			case k == 2 && goPaused:
				line, goPaused = comment+"gotemplate-resume!"+tail, false
			case k == 3 && razorPaused:
				line, razorPaused = comment+"razor-resume!"+tail, false
			case goPaused:
				for j := rapid.IntRange(0, 3).Draw(c.T, "pieces"); j >= 0; j-- {
					line += trans.Replace(rapid.SampledFrom(append(codePieces, razorLike...)).Draw(c.T, "code")) + simple()
				}
				line = strings.ReplaceAll(line, "\n", " ")
				if delims != "" && rapid.Bool().Draw(c.T, "default") {
					line += " {{ x }} @y"
				}
				pausedCode++
			case razorPaused:
				out := ""
				for j := rapid.IntRange(0, 3).Draw(c.T, "pieces"); j >= 0; j-- {
					if rapid.Bool().Draw(c.T, "go") {
						a := rapid.SampledFrom(goActions).Draw(c.T, "action")
						// spaces so that the action is not in contact with an opening brace
						line += " " + trans.Replace(a[0])
						out += " " + trans.Replace(a[1])
						live++
					} else {
						s := trans.Replace(rapid.SampledFrom(razorLike).Draw(c.T, "razor")) + simple()
						line += s
						out += s
						pausedCode++
					}
				}
				doc = append(doc, line)
				want = append(want, out)
				continue
			default:
				l := simple()
				a := [2]string{}
				switch rapid.IntRange(0, 2).Draw(c.T, "live") {
				case 1:
					a = rapid.SampledFrom(goActions[:10]).Draw(c.T, "action")
				case 2:
					a = rapid.SampledFrom(razorActions).Draw(c.T, "razor")
				}
				if a[0] != "" {
					live++
					l += " "
				}
				r := rapid.SampledFrom([]string{"", " end", " é", ","}).Draw(c.T, "right")
				if strings.HasPrefix(l, "# ") && strings.HasPrefix(a[0], "@") {
					l = "- "
				}
				doc = append(doc, l+trans.Replace(a[0])+r)
				want = append(want, l+trans.Replace(a[1])+r)
				continue
			}
			doc = append(doc, line)
			want = append(want, line)
		}
		s, w := strings.Join(doc, "\n"), strings.Join(want, "\n")
		c.Case("delims=%q text=%q", delims, s)
		if reserved.MatchString(s) {
			c.Skip()
		}
		c.NontrivialIf(pausedCode > 0 && live > 0)
		c.ClassIf(goPaused || razorPaused, "not resumed")
		c.ClassIf(delims != "", "custom delimiters")
		c.ClassIf(pausedCode > 0, "paused code")
		got, err := eng.get(c, delims, "strict", actionContext()).ProcessContent(s, "vp")
		if err != nil || got != w {
			c.Fatalf("%v %s", err, firstDiff(got, w))
		}
	})
}

// TestC12_Files: the same through files, which are left alone when nothing changes.
func TestC12_Files(t *testing.T) {
	dir, err := os.MkdirTemp("", "vp-c12-")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	src, dst := filepath.Join(dir, "src"), filepath.Join(dir, "dst")
	os.MkdirAll(src, 0755)
	check(t, "the text has several lines, or bytes outside printable ASCII, or characters close to delimiters", 600, 6000, func(c *C) {
		s := plainTexts.Draw(c.T, "text")
		if rapid.IntRange(0, 2).Draw(c.T, "marker") == 0 {
			s += "no-gotemplate!" + pieceText(codePieces, 4).Draw(c.T, "code")
		} else {
			s = strings.NewReplacer("@", "", "{{", "", "}}", "").Replace(s)
		}
		if (strings.ContainsAny(s, "@") || strings.Contains(s, "{{") || strings.Contains(s, "}}")) && !strings.Contains(s, "no-gotemplate!") || reserved.MatchString(s) {
			c.Skip()
		}
		name := rapid.SampledFrom([]string{"a.txt", "a.txt.gt", "b.template", "c"}).Draw(c.T, "name")
		c.Case("file %s: %q", name, s)
		c.NontrivialIf(strings.Contains(s, "\n") || strings.ContainsAny(s, "{}$\\`\r"))
		os.RemoveAll(dst)
		f := filepath.Join(src, name)
		if err := os.WriteFile(f, []byte(s), 0644); err != nil {
			c.Fatalf("%v", err)
		}
		defer os.Remove(f)
		tpl, err := template.NewTemplate(src, nil, "", strictOptions().Set(template.Overwrite))
		if err != nil {
			c.Fatalf("%v", err)
		}
		res, err := tpl.ProcessTemplate(f, src, dst)
		if err != nil {
			c.Fatalf("%v", err)
		}
		if res == "" {
			if strings.TrimSpace(s) != "" {
				c.Fatalf("no file for a text which is not empty")
			}
			c.Class("empty")
			return
		}
		b, err := os.ReadFile(res)
		if err != nil || string(b) != s {
			c.Fatalf("%v %s", err, firstDiff(string(b), s))
		}
	})
}
