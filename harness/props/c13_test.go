package props

// C13: razor-like literals survive in text mixed with live code.

import (
	"fmt"
	"os"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// frag is a piece of document: its source and the text it must give.
type frag struct{ src, want string }

func join(frags []frag) (src, want string) {
	for _, f := range frags {
		src += f.src
		want += f.want
	}
	return
}

var c13Words = []string{"word", "x", "a.b", "été", "日本", "(", ")", "{", "}", "[", "]", "'", "\"", ".", ",", "!", "?", "-", "*", "/", "=", "%", "$", "$x", "1.5", "a=b", "<b>", "|", "\\", "\t", "é", "end", "if", "func(x)", "{ x }"}

var emailLocal = []string{"joe", "a", "x1", "first.last", "a+b", "o'neil", "a_b", "a-b", "j%d", "joe!", "r=1", "A.B.C", "{x}", "q|r", "~t", "^u", "a*b", "1"}
var emailLabels = []string{"x", "example", "a-b", "coveo", "sub", "x1", "CO", "a_b"}
var emailTops = []string{"com", "org", "io", "ca", "museum", "x"}

func genEmail(t *rapid.T) string {
	s := rapid.SampledFrom(emailLocal).Draw(t, "local") + "@"
	for n := rapid.IntRange(1, 3).Draw(t, "labels"); n > 0; n-- {
		s += rapid.SampledFrom(emailLabels).Draw(t, "label") + "."
	}
	return s + rapid.SampledFrom(emailTops).Draw(t, "top")
}

// live razor and go template code with the text it gives with c13Context
var c13Live = []frag{{"@name;", "Joe"}, {"@(1 + 2)", "3"}, {"@upper(\"abc\")", "ABC"}, {"{{ .name }}", "Joe"}, {"@{v};", "local"}, {"@iif(t, \"y\", \"n\");", "y"}, {"@cfg.key;", "val"},
	{"@l[1];", "20"}, {"@(name + \"!\")", "Joe!"}, {"{{ add 4 5 }}", "9"}, {"@# a comment @name\n", "\n"}, {"@.name;", "Joe"}, {"@len(l);", "2"}}

func c13Context() map[string]any {
	return map[string]any{"name": "Joe", "t": true, "cfg": map[string]any{"key": "val"}, "l": []any{10, 20}, "media": "LIVE-media", "import": "LIVE-import", "param1": "LIVE-p1", "Id": "LIVE-Id"}
}

// the fragments which must stay, whatever is around them
func genLiteral(c *C, ignored []string) frag {
	kind := rapid.SampledFrom([]string{"email", "email", "double", "action", "triple", "dollar", "ignored"}).Draw(c.T, "kind")
	c.Class(kind)
	switch kind {
	case "email":
		e := rapid.SampledFrom([]string{"", "", "", "(", "<", "[", ",", ":", "mailto:", "\"", "* "}).Draw(c.T, "before email") + genEmail(c.T)
		if e[0] == '"' {
			e += `"`
		}
		return frag{e, e}
	case "double":
		next := rapid.SampledFrom([]string{"", " ", "name", "(1 + 2)", "{x}", "if (true)", "x := 3", "# comment", ".name", "upper(\"a\")", "1", "-"}).Draw(c.T, "after double")
		return frag{"@@" + next, "@" + next}
	case "action":
		next := rapid.SampledFrom([]string{" .name }}", "", "x", " if }}", " }}", "name", "- x"}).Draw(c.T, "after open")
		return frag{"@{{" + next, "{{" + next}
	case "triple":
		return frag{"```", "```"}
	case "dollar":
		return frag{"${x}", "${x}"}
	}
	if len(ignored) == 0 {
		return frag{"@@", "@"}
	}
	s := "@" + rapid.SampledFrom(ignored).Draw(c.T, "ignored name") + rapid.SampledFrom([]string{"", "(1 + 2)", " (max: 3)", ".x", ";", "[0]", " := 3", " { }", " text"}).Draw(c.T, "ignored tail")
	return frag{s, s}
}

func TestC13_Literals(t *testing.T) {
	eng := engines{}
	check(t, "the document mixes at least two literals with live code", 6000, 150000, func(c *C) {
		ignored := rapid.SampledFrom([][]string{nil, {"media"}, {"media", "import"}, {"param1", "Id"}, {"media"}}).Draw(c.T, "ignored")
		patterns := ignored
		if len(ignored) > 0 {
			patterns = rapid.SampledFrom([][]string{ignored, ignored, nil}).Draw(c.T, "patterns")
			if patterns == nil {
				// the same names, given as regular expressions
				for _, i := range ignored {
					patterns = append(patterns, rapid.SampledFrom([]string{i, i[:1] + "[" + i[1:2] + "]" + i[2:], " " + i + " ", "(?:" + i + "|zz)"}).Draw(c.T, "pattern"))
				}
			}
		}
		var frags []frag
		literals, lives := 0, 0
		frags = append(frags, frag{"@{v} := \"local\"\n", "\n"})
		ticks := 0
		for n := rapid.IntRange(1, 9).Draw(c.T, "n"); n > 0; n-- {
			switch rapid.IntRange(0, 3).Draw(c.T, "what") {
			case 0, 1:
				l := genLiteral(c, ignored)
				if l.src == "```" {
					ticks++
				}
				literals++
				frags = append(frags, l)
			case 2:
				frags = append(frags, rapid.SampledFrom(c13Live).Draw(c.T, "live"))
				lives++
			default:
				w := rapid.SampledFrom(c13Words).Draw(c.T, "word")
				frags = append(frags, frag{" ", " "}, frag{w, w})
			}
			// e-mails are separated from what precedes, and names from what follows
			sep := rapid.SampledFrom([]string{" ", " ", "\n", "\n\n", ", "}).Draw(c.T, "sep")
			frags = append(frags, frag{sep, sep})
		}
		src, want := join(frags)
		if reserved.MatchString(src) || c13Ambiguous.MatchString(src) {
			c.Skip()
		}
		if strings.Count(src, "\"")%2 != 0 || strings.Contains(src, "\"<") {
			c.Skip()
		}
		// In one of the cases, a live use of a name which is not ignored
		delim := rapid.SampledFrom([]string{"", "", "", "{{,}},§", "[[,]],€"}).Draw(c.T, "delims")
		if delim != "" {
			src, want = translateRazor(src, want, delim)
		}
		c.Case("ignored=%q delims=%q src=%q want=%q", patterns, delim, src, want)
		c.NontrivialIf(literals >= 2 && lives > 0)
		tpl := eng.get(c, delim, "strict", c13Context())
		tpl.IgnoreRazorExpression(patterns...)
		got, err := tpl.ProcessContent(src, "vp")
		if err != nil || got != want {
			c.Fatalf("ignored=%q delims=%q src=%q: error %v\n got %q\nwant %q", patterns, delim, src, err, got, want)
		}
	})
}

// A name followed by an assignment operator on the same line is an assignment, comments take the whole line
var c13Ambiguous = regexp.MustCompile(`(?m)@[\w.]+;?\s*(=|:=|[-+*/%|^]=)|#.*@|//.*@|/\*@|@-`)

// translateRazor writes the document with other delimiters; the delimiters of the expected text are those of the e-mails,
// double and ignored ones which change as well.
func translateRazor(src, want, delims string) (string, string) {
	d := strings.Split(delims, ",")
	r := strings.NewReplacer("{{", d[0], "}}", d[1], "@", d[2])
	return r.Replace(src), r.Replace(want)
}

var stringPieces = []string{"@name", "@", "@(1 + 2)", "@if (x)", "@end", "@{v}", "@# c", "@// c", "/*@ x @*/", "## @name", "@/* c */", "@.name", "@l[0]", "@upper(", "@{{", "@x := 3", "@-", "@;", "@else", "@foreach(",
	"joe@x.com", "${x}", "$", "$name", "$.name", "$1", "{{ .name }}", "{{", "}}", "a", " ", "é", "(", ")", "))", "((", "[", "]", "[:", "[]", "{", "}", ",", ";", ".", ".x", " add ", " or ", " sub 1", "&&", "||", "<>", "÷", "≦", "«", "!=", "range", "func", "map", "...", "#", "//", ":=", "=", "'", "%d", "1 + 2", "@media", "-"}

func TestC13_Strings(t *testing.T) {
	eng := engines{}
	check(t, "the string contains the razor delimiter", 8000, 200000, func(c *C) {
		content := pieceText(stringPieces, 6).Draw(c.T, "content")
		if rapid.IntRange(0, 3).Draw(c.T, "escapes") == 0 {
			content += rapid.SampledFrom([]string{"\\", "\"", "\t", "\n", "\u0007", "\\n", "\" + \"", "\\\""}).Draw(c.T, "escape") + pieceText(stringPieces, 3).Draw(c.T, "rest")
		}
		raw := rapid.Bool().Draw(c.T, "backquoted")
		lit := strconv.Quote(content)
		if raw {
			lit = "`" + content + "`"
			if rapid.IntRange(0, 2).Draw(c.T, "multiline") == 0 {
				content += "\n" + pieceText(stringPieces, 4).Draw(c.T, "line 2")
				lit = "`" + content + "`"
			}
		}
		form := rapid.SampledFrom([]string{"@(%s)", "@print(%s)", "@print(%s);", "@upper(%s)", "@(%s + \"\")", "@if (%s) yes @end", "@if (t) @print(%s) @end", "@print(%s, %s)", "@if (%s == name) a @else if (%s) b @end", "@list(%s)[0]", "@cat(name, %s, name)", "@with (%s) @(.)@end", "@range (list(%s, %s)) <@(.)> @end", "@default(name, (%s))"}).Draw(c.T, "form")
		up := strings.ToUpper(content)
		want := map[string]string{"@(%s)": content, "@print(%s)": content, "@print(%s);": content, "@upper(%s)": up, "@(%s + \"\")": content, "@if (%s) yes @end": "yes ", "@if (t) @print(%s) @end": content + " ", "@print(%s, %s)": content + content,
			"@if (%s == name) a @else if (%s) b @end": "b ", "@list(%s)[0]": content, "@cat(name, %s, name)": "Joe " + content + " Joe", "@with (%s) @(.)@end": content, "@range (list(%s, %s)) <@(.)> @end": "<" + content + "> <" + content + "> ", "@default(name, (%s))": content}[form]
		if content == "" && strings.Contains(form, "(%s)") {
			c.Skip()
		}
		if strings.ContainsAny(content, "") || strings.Contains(lit, "@@") || strings.Contains(lit, "@<") || c13Strings.MatchString(lit) {
			c.Skip()
		}
		if strings.HasPrefix(form, "@(%s + ") && c13Number(content) {
			c.Skip()
		}
		if raw && strings.Contains(content, "@media") {
			c.Class("ignored name")
		}
		src := strings.ReplaceAll(form, "%s", lit)
		before := rapid.SampledFrom([]frag{{"", ""}, {"text ", "text "}, {"@name; ", "Joe "}, {"a\n", "a\n"}, {"joe@x.com\n", "joe@x.com\n"}}).Draw(c.T, "before")
		after := rapid.SampledFrom([]frag{{"", ""}, {" text", " text"}, {"\n@name;", "\nJoe"}, {" joe@x.com", " joe@x.com"}, {"\n@(1 + 2)", "\n3"}}).Draw(c.T, "after")
		if strings.HasSuffix(form, ";") || strings.HasSuffix(form, "@end") {
			after.want = strings.TrimLeft(after.want, "\n")
			after.src = strings.TrimLeft(after.src, "\n")
			after.want, after.src = strings.TrimLeft(after.want, " "), strings.TrimLeft(after.src, " ")
			if after.src != "" {
				after.src, after.want = "\n"+after.src, "\n"+after.want
			}
		}
		c.Case("src=%q", before.src+src+after.src)
		c.NontrivialIf(strings.Contains(content, "@"))
		c.ClassIf(raw, "backquoted")
		c.ClassIf(raw && strings.Contains(content, "\n"), "several lines")
		c.Class(form)
		tpl := eng.get(c, "", "strict", c13Context())
		tpl.IgnoreRazorExpression("media")
		got, err := tpl.ProcessContent(before.src+src+after.src, "vp")
		if w := before.want + want + after.want; err != nil || got != w {
			c.Fatalf("src=%q: error %v\n got %q\nwant %q", before.src+src+after.src, err, got, w)
		}
	})
}

// The strings assigned to a variable keep their razor delimiters as well, provided they do not look like statements.
func TestC13_AssignedStrings(t *testing.T) {
	eng := engines{}
	check(t, "the string contains the razor delimiter twice", 1500, 30000, func(c *C) {
		content := pieceText([]string{"@name", "@", "@.name", " ", "a", "é", "joe@x.com", "@media", "@x y", "1", ",", ".", "@name,"}, 7).Draw(c.T, "content")
		if strings.Contains(content, "@@") || c13Strings.MatchString(content) {
			c.Skip()
		}
		form := rapid.SampledFrom([]string{"@{s} := %q\n@{s};", "@$s := %q\n@{s};", "@glob := %q\n@glob;", "@glob := upper(%q)\n@glob;", "@{s} := list(%q)\n@(join(\"\", $s))"}).Draw(c.T, "form")
		src := fmt.Sprintf(form, content)
		want := content
		if strings.Contains(form, "upper") {
			want = strings.ToUpper(content)
		}
		want = "\n" + want
		c.Case("src=%q", src)
		c.NontrivialIf(strings.Count(content, "@") > 1)
		tpl := eng.get(c, "", "strict", c13Context())
		tpl.IgnoreRazorExpression("media")
		got, err := tpl.ProcessContent(src, "vp")
		if err != nil || got != want {
			c.Fatalf("src=%q: error %v\n got %q\nwant %q", src, err, got, want)
		}
	})
}

// marks with a meaning of their own: inline content, end of template comments
var c13Strings = regexp.MustCompile(`"<<|\*/ \}\}|\{\{ /\*|"[@§]?-?<`)

func c13Number(s string) bool {
	_, err := strconv.ParseFloat(strings.TrimSpace(s), 64)
	return err == nil
}

var blockPieces = append(append([]string{}, stringPieces...), "\n", "\n", "\n\n", "@@", "@@name", "\"", "'", "\\", "@<", "\"<<x", "```", "@(\"x\")", "*/ }}", "`_=LONG_STRING=0", "{{/* x */}}"[:4])

func TestC13_Blocks(t *testing.T) {
	eng := engines{}
	check(t, "the block contains the razor delimiter", 5000, 120000, func(c *C) {
		var frags []frag
		razor := false
		for n := rapid.IntRange(1, 3).Draw(c.T, "blocks"); n > 0; n-- {
			content := pieceText(blockPieces, 5).Draw(c.T, "first") + "\n" + pieceText(blockPieces, 5).Draw(c.T, "rest")
			content = strings.NewReplacer("{{", "", "}}", "").Replace(content)
			content = c13Ticks.ReplaceAllString(content, "```")
			b := "`" + content + "`"
			if strings.Contains(content, "{{") || strings.Contains(content, "}}") || reserved.MatchString(content) || strings.HasPrefix(content, "`") || strings.HasSuffix(content, "`") {
				c.Skip()
			}
			razor = razor || strings.Contains(content, "@")
			frags = append(frags, rapid.SampledFrom([]frag{{"", ""}, {"text ", "text "}, {"@name; ", "Joe "}, {"joe@x.com ", "joe@x.com "}}).Draw(c.T, "before"))
			frags = append(frags, frag{b, b})
			frags = append(frags, rapid.SampledFrom([]frag{{" ", " "}, {"\n", "\n"}, {" @(1 + 2)", " 3"}, {"\n@@ @name\n", "\n@ Joe\n"}, {" {{ .name }} ", " Joe "}}).Draw(c.T, "after"))
		}
		src, want := join(frags)
		if !strings.Contains(src, "{{") && !strings.Contains(src, "@") {
			c.Class("no code")
		}
		c.Case("src=%q", src)
		c.NontrivialIf(razor)
		c.ClassIf(strings.Contains(src, "```"), "triple")
		tpl := eng.get(c, "", "strict", c13Context())
		tpl.IgnoreRazorExpression("media")
		got, err := tpl.ProcessContent(src, "vp")
		if err != nil || got != want {
			c.Fatalf("src=%q: error %v\n got %q\nwant %q", src, err, got, want)
		}
	})
}

// single or double backquotes would end the block
var c13Ticks = regexp.MustCompile("`+")

var _ = fmt.Sprint

// The names to ignore can be regular expressions and come from the environment (any list notation) or from the library.
func TestC13_IgnoredExpressions(t *testing.T) {
	names := []string{"media", "med", "mediaX", "import", "imp", "imp2", "name", "a_b", "value9", "value"}
	context := map[string]any{}
	for _, n := range names {
		context[n] = "<" + n + ">"
	}
	expressions := []string{"media", "import", "imp", "name", "a_b", `med\w*`, `imp\w+`, `imp\d*`, `value\d`, `v.*`, `(media|name)`, `[a-i]\w*`, `me?d\w*?`, `\w+`, `nothing`, `imp[a-z]+`}
	check(t, "ignored expressions given by the environment and the library, names used alone; a case is non-trivial when a name is ignored and another is not", 1500, 20000, func(c *C) {
		draw := func(label string, valid func(string) bool) (result []string) {
			for n := rapid.IntRange(0, 3).Draw(c.T, label); n > 0; n-- {
				if e := rapid.SampledFrom(expressions).Draw(c.T, "expression"); valid(e) {
					result = append(result, e)
				}
			}
			return
		}
		fromEnv := draw("env", func(string) bool { return true })
		env, format := "", rapid.SampledFrom([]string{"comma", "space", "line", "crlf", "json", "yaml", "flow", "hcl"}).Draw(c.T, "format")
		if len(fromEnv) > 0 {
			quoted := make([]string, len(fromEnv))
			for i := range fromEnv {
				quoted[i] = strconv.Quote(fromEnv[i])
			}
			first := fromEnv[0][0]
			letter := first >= 'a' && first <= 'z'
			if !letter && (format == "comma" || format == "space" || format == "line" || format == "crlf") {
				format = "json"
			}
			switch format {
			case "comma":
				env = strings.Join(fromEnv, ",")
			case "space":
				env = strings.Join(fromEnv, " ")
			case "line":
				env = strings.Join(fromEnv, "\n")
			case "crlf":
				env = strings.Join(fromEnv, "\r\n")
			case "json", "hcl":
				env = "[" + strings.Join(quoted, ", ") + "]"
			case "yaml":
				for _, q := range quoted {
					env += "- " + q + "\n"
				}
			case "flow":
				env = "[ '" + strings.Join(fromEnv, "', '") + "' ]"
			}
			c.Class("env " + format)
		}
		os.Setenv("GOTEMPLATE_IGNORE_RAZOR", env)
		defer os.Unsetenv("GOTEMPLATE_IGNORE_RAZOR")
		tpl, err := newTemplate(context, "", strictOptions())
		if err != nil {
			c.Fatalf("env %q: %v", env, err)
		}
		active := fromEnv
		added := draw("added", func(string) bool { return true })
		tpl.AppendIgnoreRazorExpression(append([]string{}, added...)...)
		active = append(added, active...)
		if rapid.IntRange(0, 4).Draw(c.T, "replace") == 0 {
			active = draw("replacing", func(string) bool { return true })
			tpl.IgnoreRazorExpression(append([]string{}, active...)...)
		}
		src, want, ignored, live := "", "", 0, 0
		for n := rapid.IntRange(1, 8).Draw(c.T, "uses"); n > 0; n-- {
			name := rapid.SampledFrom(names).Draw(c.T, "name")
			text := "@" + name
			skip := false
			for _, e := range active {
				skip = skip || regexp.MustCompile("^(?:"+e+")$").MatchString(name)
			}
			if src += text; skip {
				want += text
				ignored++
			} else {
				want += context[name].(string)
				live++
			}
			sep := rapid.SampledFrom([]string{" ", "\n", " text ", " é "}).Draw(c.T, "sep")
			src += sep
			want += sep
		}
		c.Case("env=%q active=%q src=%q want=%q", env, active, src, want)
		c.NontrivialIf(ignored > 0 && live > 0)
		if got := tpl.GetIgnoredRazorExpressions(); strings.Join(got, "\x00") != strings.Join(active, "\x00") {
			c.Fatalf("the ignored expressions are %q, want %q (env %q)", got, active, env)
		}
		got, err := tpl.ProcessContent(src, "vp")
		if err != nil || got != want {
			c.Fatalf("env=%q active=%q src=%q: error %v\n got %q\nwant %q", env, active, src, err, got, want)
		}
	})
}
