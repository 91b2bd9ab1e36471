package props

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"unicode"

	"pgregory.net/rapid"
)

// C26: layout helpers.

var c26Line = rapid.SampledFrom([]string{"", "line", "two words", "  spaced", "trailing  ", "été 日本", "\ttab", "a\"b", "c\\d", "100%v", "$x", "don't", "-", "{}", "x: y", "`q`", "12"})

var c26Text = rapid.Custom(func(t *rapid.T) string {
	return strings.Join(rapid.SliceOfN(c26Line, 1, 4).Draw(t, "lines"), "\n")
})

// c26Items gives the elements to lay out: one text, several arguments or a list
func c26Items(t *rapid.T, nulls bool) (items []any, single bool) {
	item := rapid.OneOf(rapid.Map(c26Text, func(s string) any { return s }), rapid.Map(rapid.IntRange(-5, 99), func(i int) any { return i }))
	if nulls {
		item = rapid.OneOf(item, item, item, rapid.Just[any](nil))
	}
	items = rapid.SliceOfN(item, 0, 4).Draw(t, "items")
	return items, rapid.Bool().Draw(t, "list")
}

// c26Call gives the arguments, as a list or written one by one
func c26Call(t *rapid.T, items []any, list bool, ctx map[string]any, sep string) string {
	if list && len(items) != 1 {
		switch rapid.IntRange(0, 2).Draw(t, "kind") {
		case 0:
			ctx["items"] = items
			return ".items"
		case 1:
			ctx["items"] = dress(t, items)
			return ".items"
		}
		for _, e := range items {
			if _, ok := e.(string); !ok {
				ctx["items"] = items
				return ".items"
			}
		}
		l := make([]string, len(items))
		for i := range items {
			l[i] = items[i].(string)
		}
		ctx["items"] = l
		return ".items"
	}
	var args []string
	for i, e := range items {
		switch x := e.(type) {
		case string:
			if rapid.Bool().Draw(t, "literal") {
				args = append(args, strconv.Quote(x))
				continue
			}
		case int:
			args = append(args, strconv.Itoa(x))
			continue
		}
		name := fmt.Sprintf("i%d", i)
		ctx[name] = e
		args = append(args, "."+name)
	}
	return strings.Join(args, sep)
}

// c26Prefixed puts the prefix before each line of the items
func c26Prefixed(prefix string, items []any) string {
	var lines []string
	for _, e := range items {
		if e != nil {
			lines = append(lines, strings.Split(fmt.Sprint(e), "\n")...)
		}
	}
	if lines == nil {
		lines = []string{""}
	}
	for i := range lines {
		lines[i] = prefix + lines[i]
	}
	return strings.Join(lines, "\n")
}

func TestC26_Indent(t *testing.T) {
	check(t, "the content has several lines", 2000, 60000, func(c *C) {
		fl := drawFlavour(c, "flavour")
		fl.use()
		defer useJSON()
		items, list := c26Items(c.T, true)
		ctx := map[string]any{}
		args := c26Call(c.T, items, list, ctx, " ")
		var code, want string
		switch rapid.IntRange(0, 2).Draw(c.T, "function") {
		case 0:
			n := rapid.IntRange(0, 9).Draw(c.T, "n")
			code, want = fmt.Sprintf("indent %d", n), c26Prefixed(strings.Repeat(" ", n), items)
		case 1:
			n := rapid.IntRange(0, 9).Draw(c.T, "n")
			code, want = fmt.Sprintf("%s %d", rapid.SampledFrom([]string{"nIndent", "nindent"}).Draw(c.T, "name"), n), "\n"+c26Prefixed(strings.Repeat(" ", n), items)
		default:
			spacer := rapid.SampledFrom([]string{"", "  ", "# ", "- ", "\t", "%d", "$1", "\"", "é", "\\", "`", "> x\ny"}).Draw(c.T, "spacer")
			code, want = fmt.Sprintf("%s %q", rapid.SampledFrom([]string{"sIndent", "spaceIndent", "autoIndent", "aindent"}).Draw(c.T, "name"), spacer), c26Prefixed(spacer, items)
		}
		src := "[{{ " + code + " " + args + " }}]"
		if args != "" && !strings.Contains(args, " ") && rapid.Bool().Draw(c.T, "pipe") {
			src = "[{{ " + args + " | " + code + " }}]"
		}
		c.Case("%s %s with %s", fl.name, src, show(ctx))
		c.NontrivialIf(strings.Count(want, "\n") > 1)
		tpl, err := newTemplate(ctx, "", noRazorOptions())
		if err != nil {
			c.Fatalf("%v", err)
		}
		if got, err := tpl.ProcessContent(src, "vp"); err != nil || got != "["+want+"]" {
			c.Fatalf("error %v, %s", err, firstDiff(got, "["+want+"]"))
		}
	})
}

var c26Around = rapid.Custom(func(t *rapid.T) string {
	return strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{" ", "  ", "-", "x", "été", "\"", "'", "`", "a: ", "# ", "\\", "\\n", "100%", "%v", "%%", "$1", "${x}", "(", ")", "[", "]", "{", "}", ",", ";", "|", "<", ">", "&", "!", "word", "\t", "日本", "{ }", "\"q\"", "`r`", "@@ "}), 0, 4).Draw(t, "around"), "")
})

var c26Raw = regexp.MustCompile("(?s)`.*?`")

func TestC26_Auto(t *testing.T) {
	check(t, "there is text around and several elements", 3000, 100000, func(c *C) {
		before := c26Around.Draw(c.T, "before")
		if strings.Contains(before, "{{") || strings.Contains(before, "}}") {
			c.Skip()
		}
		items, list := c26Items(c.T, false)
		if len(items) == 0 {
			c.Skip()
		}
		ctx := map[string]any{}
		args := c26Call(c.T, items, list, ctx, ", ")
		previous := rapid.SampledFrom([]string{"", "first line\n", "a\nb\n", "x:\n\n", "  y \n", "`z`\n", "\"t\n"}).Draw(c.T, "previous")
		next := rapid.SampledFrom([]string{"", "\n", "\nnext", "\n  next line\n", "\n\nlast `u`\n"}).Draw(c.T, "next")
		var src, want string
		if rapid.Bool().Draw(c.T, "indent") {
			name := rapid.SampledFrom([]string{"autoIndent", "aindent", "aIndent"}).Draw(c.T, "name")
			if rapid.IntRange(0, 4).Draw(c.T, "reduce") == 0 {
				name = "-" + name
			}
			tail := ""
			if rapid.Bool().Draw(c.T, "tail") {
				tail = rapid.SampledFrom([]string{"tail", " tail", ".", ", x", " `q`", "\"", ")"}).Draw(c.T, "tail")
			}
			src = previous + before + "@" + name + "(" + args + ");" + tail + next
			want = strings.TrimRightFunc(previous, unicode.IsSpace) + "\n" + c26Prefixed(strings.ReplaceAll(before, "@@", "@"), items) + tail + next
		} else {
			after := c26Around.Draw(c.T, "after")
			name := rapid.SampledFrom([]string{"autoWrap", "awrap", "aWrap"}).Draw(c.T, "name")
			sep := ""
			newline := rapid.Bool().Draw(c.T, "newline")
			if newline {
				name, sep = "<"+name, "\n"
			}
			src = previous + before + "@" + name + "(" + args + ")" + after + next
			var parts []string
			for _, e := range items {
				parts = append(parts, strings.ReplaceAll(before, "@@", "@")+fmt.Sprint(e)+strings.ReplaceAll(after, "@@", "@"))
			}
			if want = previous + strings.Join(parts, sep) + next; newline {
				want = strings.TrimRightFunc(previous, unicode.IsSpace) + "\n" + strings.Join(parts, sep) + next
			}
		}
		c.Case("%q with %s", src, show(ctx))
		if reserved.MatchString(src) {
			c.Skip()
		}
		for _, span := range c26Raw.FindAllString(src, -1) {
			// A raw string on several lines is literal and is a part of its first line
			if strings.Contains(span, "\n") && (len(items) > 1 || strings.Contains(span, "@") || strings.Contains(args, "`")) {
				c.Skip()
			}
		}
		c.NontrivialIf(before != "" && len(items) > 1)
		got, err := render(src, ctx)
		if err != nil || got != want {
			c.Fatalf("error %v, %s", err, firstDiff(got, want))
		}
	})
}

func c26Identifier(s, replacement string) string {
	var out []string
	word := ""
	for _, r := range s + "\x00" {
		if unicode.IsLetter(r) || r >= '0' && r <= '9' || r == '_' && replacement != "_" {
			word += string(r)
			continue
		}
		if len(out) == 0 || word != "" {
			out = append(out, word)
		}
		word = ""
	}
	// The end of the text is not a character to replace
	result := strings.Join(out, replacement)
	if s != "" {
		if last := []rune(s)[len([]rune(s))-1]; !(unicode.IsLetter(last) || last >= '0' && last <= '9' || last == '_' && replacement != "_") {
			result += replacement
		}
	}
	return result
}

func TestC26_Lists(t *testing.T) {
	check(t, "there are at least two elements", 3000, 100000, func(c *C) {
		fl := drawFlavour(c, "flavour")
		fl.use()
		defer useJSON()
		ctx := map[string]any{}
		var code string
		var want any
		wrapped := false
		texts := func(l []any, f func(any) string) []any {
			r := []any{}
			for _, e := range l {
				r = append(r, f(e))
			}
			return r
		}
		switch f := rapid.SampledFrom([]string{"formatList", "mergeList", "joinLines", "splitLines", "concat", "repeat", "id", "id", "center", "wrap", "stripColor"}).Draw(c.T, "function"); f {
		case "formatList":
			items, list := c26Items(c.T, false)
			format := rapid.SampledFrom([]string{"%v", "<%v>", "%%%v%%", "é %v\n", "\"%v\"", "$1 %v", "%[1]v %[1]v", "%5v|"}).Draw(c.T, "format")
			code = fmt.Sprintf("formatList %q %s", format, c26Call(c.T, items, list, ctx, " "))
			want = texts(items, func(e any) string { return fmt.Sprintf(format, e) })
			c.NontrivialIf(len(items) > 1)
		case "mergeList":
			code = f
			all := []any{}
			for i, n := 0, rapid.IntRange(1, 4).Draw(c.T, "lists"); i < n; i++ {
				l := genList(valueOpts{depth: 1, null: true}).Draw(c.T, "list").([]any)
				ctx[fmt.Sprintf("l%d", i)] = deepCopy(l)
				code += fmt.Sprintf(" .l%d", i)
				all = append(all, l...)
			}
			want = all
			c.NontrivialIf(len(all) > 1)
		case "joinLines", "concat":
			items, _ := c26Items(c.T, false)
			code = f + " " + c26Call(c.T, items, false, ctx, " ")
			var parts []string
			for _, e := range items {
				parts = append(parts, fmt.Sprint(e))
			}
			if want = strings.Join(parts, ""); f == "joinLines" {
				want = strings.Join(parts, "\n")
			}
			c.NontrivialIf(len(items) > 1)
		case "splitLines":
			lines := rapid.SliceOfN(c26Line, 1, 5).Draw(c.T, "lines")
			if lines[len(lines)-1] == "" {
				lines[len(lines)-1] = "end"
			}
			text := strings.Join(lines, "\n")
			if rapid.Bool().Draw(c.T, "newline") {
				text += "\n"
			}
			code, want = "splitLines "+strconv.Quote(text), stringsToAny(lines)
			c.NontrivialIf(len(lines) > 1)
		case "repeat":
			n := rapid.IntRange(-1, 5).Draw(c.T, "n")
			v := genValue(valueOpts{depth: 1}).Draw(c.T, "value")
			ctx["v"] = deepCopy(v)
			code = fmt.Sprintf("repeat %d .v", n)
			l := []any{}
			for i := 0; i < n; i++ {
				l = append(l, v)
			}
			if want = l; n < 0 {
				want = nil
			}
			c.NontrivialIf(n > 1)
		case "id":
			s := rapid.OneOf(anyText, c26Text).Draw(c.T, "text")
			replacement := rapid.SampledFrom([]string{"", "_", "-", ".", "*", "|", "^", "$", "+", "?", "(", ")", "[", "{", "\\", "--", "$1", "${x}", "*+", " ", "/", "::", "\\d", "[a-z]"}).Draw(c.T, "replacement")
			code = "id " + strconv.Quote(s)
			if replacement != "" || rapid.Bool().Draw(c.T, "given") {
				code += " " + strconv.Quote(replacement)
			}
			if replacement == "" {
				replacement = "_"
			}
			want = c26Identifier(s, replacement)
			if strings.ContainsFunc(replacement, func(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) }) && strings.Contains(s, replacement) {
				c.Skip() // the replacement itself could be in the text
			}
			c.NontrivialIf(want != s)
		case "center":
			s := strings.TrimSpace(c26Line.Draw(c.T, "text"))
			if strings.Contains(s, "%") {
				c.Skip() // the text is a format
			}
			w := rapid.IntRange(0, 30).Draw(c.T, "width")
			code, want = fmt.Sprintf("center %d %q", w, s), s
			if extra := w - len([]rune(s)); extra > 0 {
				want = strings.Repeat(" ", extra/2) + s + strings.Repeat(" ", extra-extra/2)
			}
			c.Nontrivial()
		case "wrap":
			words := rapid.SliceOfN(rapid.SampledFrom([]string{"a", "bb", "word", "longword", "été", "日本", "x,y"}), 1, 12).Draw(c.T, "words")
			w := rapid.IntRange(8, 30).Draw(c.T, "width")
			code = fmt.Sprintf("wrap %d %q", w, strings.Join(words, " "))
			want = strings.Join(words, " ")
			wrapped = true // the width of the lines is verified for C11
			c.NontrivialIf(len(words) > 3)
		case "stripColor":
			colored := ""
			text := ""
			for n := rapid.IntRange(1, 4).Draw(c.T, "parts"); n > 0; n-- {
				l := rapid.SampledFrom([]string{"", "line", "two words", "été 日本", "[31m", "12", "x\ny"}).Draw(c.T, "text")
				text += l
				colored += rapid.SampledFrom([]string{"", "\x1b[31m", "\x1b[1;32m", "\x1b[0m", "\x1b[38;5;12m"}).Draw(c.T, "color") + l
			}
			code, want = "stripColor "+strconv.Quote(colored+"\x1b[0m"), text
			c.Nontrivial()
		}
		src := "{{ toJson (" + code + ") }}"
		c.Case("%s %s with %s", fl.name, src, show(ctx))
		tpl, err := newTemplate(ctx, "", noRazorOptions())
		if err != nil {
			c.Fatalf("%v", err)
		}
		out, err := tpl.ProcessContent(src, "vp")
		if want == nil {
			if err == nil {
				c.Fatalf("no error")
			}
			return
		}
		var got any
		if err == nil {
			err = json.Unmarshal([]byte(out), &got)
		}
		if text, ok := got.(string); ok && wrapped {
			got = strings.Join(strings.Fields(text), " ")
		}
		if err != nil || !sameNum(got, want) {
			c.Fatalf("error %v, got %s, want %s", err, out, show(want))
		}
	})
}

func TestC26_Raw(t *testing.T) {
	eng := engines{}
	check(t, "several texts, one with a blank", 600, 10000, func(c *C) {
		fl := drawFlavour(c, "flavour")
		word := rapid.SampledFrom([]string{"a", "var.name", "${x}", "é", "a b", "x  y", "f(1,2)", "[1]", "{}", "1", "0.5", "true", "日本", "a=b", "$1", "${content}", "=", ""})
		words := rapid.SliceOfN(word, 0, 4).Draw(c.T, "words")
		var literals []string
		var items []string
		blank := false
		for _, w := range words {
			literals = append(literals, strconv.Quote(w))
			if w == "" || strings.ContainsAny(w, " \t") {
				w = strconv.Quote(w)
				blank = true
			}
			items = append(items, w)
		}
		var code, want string
		switch rapid.IntRange(0, 3).Draw(c.T, "form") {
		case 0:
			code = "{{ toJson (rawList (list " + strings.Join(literals, " ") + ")) }}"
			want = "[" + strings.Join(items, ",") + "]"
		case 1:
			// a single argument that is not a list gives a list
			if len(words) == 1 || rapid.Bool().Draw(c.T, "separate") && len(words) > 0 {
				code = "{{ toJson (rawList " + strings.Join(literals, " ") + ") }}"
				want = "[" + strings.Join(items, ",") + "]"
			} else {
				code, want = "{{ toJson (rawList) }}", "[]"
			}
		case 2:
			// raw with several arguments
			if len(words) < 2 {
				c.Skip("one text")
			}
			code = "{{ toJson (raw " + strings.Join(literals, " ") + ") }}"
			want = "[" + strings.Join(items, ",") + "]"
		default:
			key := rapid.SampledFrom([]string{"k", "key"}).Draw(c.T, "key")
			code = "{{ toJson (dict " + strconv.Quote(key) + " (rawList (list " + strings.Join(literals, " ") + ")) \"z\" \"quoted\") }}"
			want = "{\"" + key + "\":[" + strings.Join(items, ",") + "],\"z\":\"quoted\"}"
		}
		c.Case("%s %s", fl.name, code)
		c.NontrivialIf(len(words) > 1 && blank)
		fl.use()
		defer useJSON()
		got, err := eng.get(c, "", "norazor", nil).ProcessContent(code, "vp")
		if err != nil || got != want {
			c.Fatalf("error %v\ngot  %s\nwant %s", err, got, want)
		}
	})
}
