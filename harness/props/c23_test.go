package props

import (
	"os"
	"regexp"
	"strings"
	"testing"

	"github.com/coveooss/gotemplate/v3/utils"
	"pgregory.net/rapid"
)

// C23: substitutions. The model of an expression is either a literal replacement, a deletion of lines or the
// standard regular expressions.

type c23Sub struct {
	text  string // with / as separator
	apply func(string) string
	wrong bool
}

// what can be replaced: only these characters are used by the expressions, so code is never altered by them
const c23Letters = "ABC"

var c23Lines = rapid.Custom(func(t *rapid.T) string {
	return strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"A", "B", "C", "AB", "BA", "AAA", "1", "12", " ", "A1", "x", "é", "-", "$", "\\", "AB CA", "\t", "(", "$1"}), 0, 5).Draw(t, "parts"), rapid.SampledFrom([]string{"", "", " "}).Draw(t, "glue"))
})

func c23Text(t *rapid.T) string {
	s := strings.Join(rapid.SliceOfN(c23Lines, 0, 7).Draw(t, "lines"), "\n")
	if rapid.Bool().Draw(t, "newline") {
		s += "\n"
	}
	return s
}

// deleteLines removes the lines accepted by the test, with their newline
func deleteLines(s string, match func(line string) bool) string {
	var sb strings.Builder
	for _, line := range strings.SplitAfter(s, "\n") {
		if !match(strings.TrimSuffix(line, "\n")) {
			sb.WriteString(line)
		}
	}
	return sb.String()
}

func hasPrefix(p string) func(string) bool {
	return func(s string) bool { return strings.HasPrefix(s, p) }
}

func drawC23(t *rapid.T, withCode bool) c23Sub {
	letter := func() string { return rapid.SampledFrom(strings.Split(c23Letters, "")).Draw(t, "letter") }
	word := func() string {
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom(strings.Split(c23Letters, "")), 1, 3).Draw(t, "word"), "")
	}
	replacement := rapid.SampledFrom([]string{"", "X", "AB", "é", "-d", "dd", " d", "D d", "\\", "\\n", "\\1", "B A", "$$", "=", "(x)"}).Draw(t, "replacement")
	actual := strings.ReplaceAll(replacement, "$$", "$")
	sub := func(exp, replace string) c23Sub {
		re := regexp.MustCompile(exp)
		return c23Sub{text: "/" + exp + "/" + replace, apply: func(s string) string { return re.ReplaceAllString(s, replace) }}
	}
	switch rapid.IntRange(0, 13).Draw(t, "kind") {
	case 0, 1, 2:
		w := word()
		return c23Sub{text: "/" + w + "/" + replacement, apply: func(s string) string { return strings.ReplaceAll(s, w, actual) }}
	case 3:
		// a class
		return c23Sub{text: "/[" + c23Letters + "]/" + replacement, apply: func(s string) string {
			var sb strings.Builder
			for _, r := range s {
				if strings.ContainsRune(c23Letters, r) {
					sb.WriteString(actual)
				} else {
					sb.WriteRune(r)
				}
			}
			return sb.String()
		}}
	case 4:
		// groups
		a, b := letter(), letter()
		return c23Sub{text: "/(" + a + ")(" + b + ")/$2$1", apply: func(s string) string { return strings.ReplaceAll(s, a+b, b+a) }}
	case 5:
		a := letter()
		return c23Sub{text: "/(?P<name>" + a + "+)([BC]?)/<${name}>$2", apply: sub("("+a+"+)([BC]?)", "<${1}>${2}").apply}
	case 6:
		// deletion of the matches only
		w := word()
		return c23Sub{text: "/" + w + "/d", apply: func(s string) string { return strings.ReplaceAll(s, w, "") }}
	case 7:
		w := word()
		return c23Sub{text: rapid.SampledFrom([]string{"/^" + w + "$/d", "/(?m)^" + w + "$/d", "/^(?:" + w + ")$/d"}).Draw(t, "form"), apply: func(s string) string {
			return deleteLines(s, func(l string) bool { return l == w })
		}}
	case 8:
		w1, w2 := word(), word()
		return c23Sub{text: "/^" + w1 + "$|^" + w2 + "$/d", apply: func(s string) string {
			return deleteLines(s, func(l string) bool { return l == w1 || l == w2 })
		}}
	case 9:
		a := letter()
		return c23Sub{text: "/^" + a + "[^\\n{]*$/d", apply: func(s string) string {
			return deleteLines(s, func(l string) bool { return strings.HasPrefix(l, a) && !strings.Contains(l, "{") })
		}}
	case 10:
		// from a text up to the end of the line, with it
		a := letter()
		return c23Sub{text: "/" + a + "$/d", apply: func(s string) string {
			end := ""
			if strings.HasSuffix(s, a) {
				end = a
			}
			return strings.TrimSuffix(strings.ReplaceAll(s, a+"\n", ""), end)
		}}
	case 11:
		// the dollar is a character
		a := letter()
		return c23Sub{text: "/" + a + `\$/d`, apply: func(s string) string { return strings.ReplaceAll(s, a+"$", "") }}
	case 12:
		if withCode {
			return sub("(?i)(a)b", "<$1>")
		}
		return rapid.SampledFrom([]c23Sub{sub(`\b(\w)\b`, "-$1-"), sub(`(?m)^`, ">"), sub(`(?s)A.*B`, "Z"), sub(`\s+`, "_"), sub(`[^A-Z]+`, ""), sub(`(.)(.)`, "$2$1"), sub(`x*`, "-"), sub(`(?m)(\d+)$`, "${1}0"), sub(`^A`, "start")}).Draw(t, "general")
	default:
		if withCode {
			return sub("A{2,}", "a")
		}
		// lines which are blank
		return c23Sub{text: `/^[ \t]*$/d`, apply: func(s string) string {
			return deleteLines(s, func(l string) bool { return strings.Trim(l, " \t") == "" })
		}}
	}
}

// separate replaces the separator of an expression
func (s c23Sub) separate(t *rapid.T) string {
	sep := rapid.SampledFrom([]string{"/", "/", "@", "#", "|", "!", ",", ";", "%", "~", "s", "d", "9", "é", "§", "漢", "😀", "\\", "A", "(", ".", "^", "$", "\"", "'", "`", "&", "="}).Draw(t, "separator")
	body := s.text[1:]
	i := strings.LastIndex(body, "/")
	parts := []string{"", body[:i], body[i+1:]}
	for _, p := range parts {
		if strings.Contains(p, sep) {
			sep = "/"
		}
	}
	// Blanks around are not significant
	pad := rapid.SampledFrom([]string{"", "", "", " ", "\t"}).Draw(t, "pad")
	text := pad + strings.Join(parts, sep)
	if pad != "" && strings.TrimSpace(text) == strings.TrimLeft(text, " \t") {
		text += pad
	}
	return text
}

var c23Wrong = []string{"", "   ", "/", "//", "///", "/a", "/a/b/c", "/a/b/", "//b", "abc", "/(/b", "/[a/b", "/a**/b", "/(?P<n>a/b", "@a@b@", "x", "/a\\/b", "/a{2,1}/x", "//d", "aa", "/\\/b"}

func TestC23_Substitutions(t *testing.T) {
	check(t, "two substitutions or more change the text, or an invalid expression is given", 4000, 100000, func(c *C) {
		withCode := rapid.Bool().Draw(c.T, "code")
		way := rapid.SampledFrom([]string{"content", "content", "function", "library"}).Draw(c.T, "way")
		withCode = withCode || way == "function"
		n := rapid.IntRange(1, 5).Draw(c.T, "n")
		var subs []c23Sub
		var given []string
		for i := 0; i < n; i++ {
			s := drawC23(c.T, withCode)
			subs = append(subs, s)
			given = append(given, s.separate(c.T))
		}
		wrong := rapid.IntRange(0, 9).Draw(c.T, "wrong") == 0
		if wrong {
			i := rapid.IntRange(0, n-1).Draw(c.T, "where")
			given[i] = rapid.SampledFrom(c23Wrong).Draw(c.T, "invalid")
		}
		// Some may come from the environment
		fromEnv := 0
		if rapid.IntRange(0, 3).Draw(c.T, "env") == 0 {
			fromEnv = rapid.IntRange(1, n).Draw(c.T, "from env")
			env := strings.Join(given[:fromEnv], "\n")
			if env == "" || strings.Contains(env, "\x00") {
				c.Skip()
			}
			os.Setenv("GOTEMPLATE_SUBSTITUTES", env)
			defer os.Unsetenv("GOTEMPLATE_SUBSTITUTES")
			c.Class("environment")
		}
		apply := func(s string) string {
			for _, sub := range subs {
				s = sub.apply(s)
			}
			return s
		}
		text := c23Text(c.T)
		data := c23Text(c.T)
		if way == "library" && fromEnv > 0 {
			c.Skip()
		}
		var src, want string
		switch {
		case way == "function":
			src, want = "{{ substitute .v }}", apply(data)
			want = apply(want)
		case way == "library":
			want = apply(text)
		case withCode:
			tail := c23Text(c.T)
			src = text + "{{ .v }}" + tail
			want = apply(strings.Replace(apply(src), "{{ .v }}", data, 1))
		default:
			src, want = text, apply(text)
		}
		c.Case("given=%q (%d from the environment) way=%s\ncontent=%q text=%q v=%q", given, fromEnv, way, src, text, data)
		changing := 0
		for _, s := range subs {
			if s.apply(text) != text || s.apply(data) != data {
				changing++
			}
		}
		c.NontrivialIf(wrong || changing > 1)
		c.ClassIf(wrong, "refused")
		c.ClassIf(way == "content" && withCode, "code")
		if strings.Contains(want, "#!") || strings.Contains(want, "{{") {
			c.Skip()
		}
		copied := append([]string{}, given...)
		if way == "library" {
			refused := false
			got := func() string {
				defer func() {
					if recover() != nil {
						refused = true
					}
				}()
				return utils.Substitute(text, utils.InitReplacers(copied...)...)
			}()
			if refused != wrong || !wrong && got != want {
				c.Fatalf("refused=%v %s", refused, firstDiff(got, want))
			}
			return
		}
		tpl, err := newTemplate(map[string]any{"v": data}, "", strictOptions(), copied[fromEnv:]...)
		if wrong != (err != nil) {
			c.Fatalf("error at creation: %v", err)
		}
		if wrong {
			return
		}
		got, err := tpl.ProcessContent(src, "vp")
		if err != nil || got != want {
			c.Fatalf("error %v, %s", err, firstDiff(got, want))
		}
	})
}

// The marks put in place of what must not be interpreted are never seen by the substitutions.
func TestC23_Protected(t *testing.T) {
	patterns := []string{"left", "right", "&", `\$`, "paused", "_", "[A-Z]", "O_V", "NIL", `[&$]+`, `\$&`, "d-", "L_", "a", "e[df]", "Q"}
	pieces := []string{"left", "right ", "&", "$", "$&", " paused", "<no value>", "<nil>", "_", "O", "NIL ", "NO VALUE", "Q", " ", "é", "A", "x"}
	check(t, "a substitution changes a text with paused code or texts of undefined values", 2500, 20000, func(c *C) {
		var subs []*regexp.Regexp
		var given []string
		for n := rapid.IntRange(1, 3).Draw(c.T, "n"); n > 0; n-- {
			p := rapid.SampledFrom(patterns).Draw(c.T, "pattern")
			subs = append(subs, regexp.MustCompile(p))
			given = append(given, "/"+p+"/"+rapid.SampledFrom([]string{"", "X", "<>", "é"}).Draw(c.T, "replacement"))
		}
		apply := func(s string) string {
			for i, re := range subs {
				s = re.ReplaceAllString(s, given[i][strings.LastIndex(given[i], "/")+1:])
			}
			return s
		}
		text := func() string {
			return strings.Join(rapid.SliceOfN(rapid.SampledFrom(pieces), 0, 5).Draw(c.T, "text"), "")
		}
		type line struct {
			text string
			code bool
		}
		var lines []line
		paused, protected, mark := false, false, rapid.SampledFrom([]string{"gotemplate", "razor"}).Draw(c.T, "mark")
		for n := rapid.IntRange(1, 8).Draw(c.T, "lines"); n > 0; n-- {
			switch k := rapid.IntRange(0, 5).Draw(c.T, "kind"); {
			case k == 0:
				paused = !paused
				lines = append(lines, line{"# " + mark + map[bool]string{true: "-pause!", false: "-resume!"}[paused], false})
			case k < 3 && paused && mark == "gotemplate":
				lines = append(lines, line{text() + rapid.SampledFrom([]string{"{{ b }}", "@b ", "{{ if", "}}", "@{b}", "{{"}).Draw(c.T, "code") + text(), false})
				protected = true
			case k < 3 && paused:
				lines = append(lines, line{text() + rapid.SampledFrom([]string{"@b ", "@(1)", "@@", "@{b}"}).Draw(c.T, "code") + text(), false})
				protected = true
			case k < 4 && !paused:
				lines = append(lines, line{text() + " {{ .v }}" + text(), true})
			default:
				lines = append(lines, line{text(), false})
			}
		}
		lines = append(lines, line{"# " + mark + "-resume!", false}, line{"{{ .v }}", true})
		data := rapid.SampledFrom([]string{"x", "left_&", "O", "é"}).Draw(c.T, "v")
		var src []string
		var want []string
		for _, l := range lines {
			if strings.Contains(mark, "o") && strings.HasPrefix(l.text, "# ") && apply(l.text) != l.text {
				c.Skip() // the mark itself would be changed
			}
			first := apply(l.text)
			if l.code {
				if strings.Count(first, "{{ .v }}") != 1 {
					c.Skip()
				}
				first = strings.Replace(first, "{{ .v }}", data, 1)
			}
			src, want = append(src, l.text), append(want, apply(first))
		}
		s, w := strings.Join(src, "\n"), strings.Join(want, "\n")
		c.Case("given=%q content=%q v=%q", given, s, data)
		c.NontrivialIf((protected || strings.Contains(s, "<n")) && apply(s) != s)
		c.ClassIf(protected, "paused")
		c.ClassIf(strings.Contains(s, "<n"), "undefined value text")
		if strings.Contains(w, "#!") || strings.Contains(s, "!Q!") {
			c.Skip()
		}
		tpl, err := newTemplate(map[string]any{"v": data}, "", strictOptions(), given...)
		if err != nil {
			c.Fatalf("%v", err)
		}
		got, err := tpl.ProcessContent(s, "vp")
		if err != nil || got != w {
			c.Fatalf("error %v, %s", err, firstDiff(got, w))
		}
	})
}
