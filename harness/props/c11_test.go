package props

// C11: text functions and string methods against reference semantics.

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"

	"github.com/coveooss/gotemplate/v3/collections"
	"golang.org/x/text/cases"
	"golang.org/x/text/language"
	"pgregory.net/rapid"
)

type cString = collections.String

// pieceText assembles texts from pieces that exercise every method.
func pieceText(pieces []string, max int) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		n := rapid.IntRange(0, max).Draw(t, "n")
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(rapid.SampledFrom(pieces).Draw(t, "p"))
		}
		return b.String()
	})
}

var richPieces = []string{"a", "b", "ab", "A", "Foo", "été", "É", "ß", "ǆ", "日本", "ﬁ", "𝒳", "e\u0301", "İ", "ſ", "K",
	" ", "  ", "\t", "\n", "\n\n", "\r\n", "\u00a0", "\u2003", "\u200b", "\u0085", ",", ".", "-", "_", "'", "\"", "`", "\\", "/", "1", "42", "½", "٣", "%", "%s", "$", "(", ")", "…", "«", "🙂", "xX", "abab", "aaa"}
var rich = pieceText(richPieces, 10)
var shortRich = pieceText(richPieces, 2)

func strs(a collections.StringArray) []string {
	r := []string{}
	for _, s := range a {
		r = append(r, string(s))
	}
	return r
}

func list(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

func TestC11_Mirror(t *testing.T) {
	check(t, "the text is not empty and has a multi-byte character or a white space, or the argument occurs in it", 30000, 600000, func(c *C) {
		s := rich.Draw(c.T, "s")
		arg := shortRich.Draw(c.T, "arg")
		if rapid.IntRange(0, 2).Draw(c.T, "sub") == 0 && s != "" {
			// an argument found in the text
			r := []rune(s)
			i := rapid.IntRange(0, len(r)-1).Draw(c.T, "i")
			j := rapid.IntRange(i, len(r)).Draw(c.T, "j")
			arg = string(r[i:j])
		}
		other := shortRich.Draw(c.T, "other")
		n := rapid.SampledFrom([]int{-1, 0, 1, 2, 3, 7}).Draw(c.T, "n")
		char := []rune(rapid.SampledFrom(richPieces).Draw(c.T, "char"))[0]
		by := rapid.SampledFrom([]byte{'a', ' ', '\n', 0xc3, 0x97, 'A'}).Draw(c.T, "byte")
		special := rapid.SampledFrom([]unicode.SpecialCase{unicode.TurkishCase, unicode.AzeriCase, {}}).Draw(c.T, "special")
		pred := rapid.SampledFrom([]func(rune) bool{unicode.IsSpace, unicode.IsUpper, unicode.IsLetter, unicode.IsPunct, func(r rune) bool { return r == char }, func(r rune) bool { return r > 127 }}).Draw(c.T, "pred")
		mapping := func(r rune) rune {
			if pred(r) {
				return -1
			}
			return unicode.ToUpper(r)
		}
		c.Case("s=%q arg=%q other=%q n=%d char=%q byte=%x", s, arg, other, n, char, by)
		c.NontrivialIf(s != "" && (len(s) != utf8.RuneCountInString(s) || strings.IndexFunc(s, unicode.IsSpace) >= 0 || strings.Contains(s, arg)))
		c.ClassIf(arg != "" && strings.Contains(s, arg), "argument found")
		c.ClassIf(len(s) != utf8.RuneCountInString(s), "multi-byte")
		x := cString(s)
		eq := func(name string, got, want any) {
			switch g := got.(type) {
			case collections.String:
				got = string(g)
			case collections.StringArray:
				got = strs(g)
			}
			if w, ok := want.([]string); ok {
				want = list(w)
			}
			if !reflect.DeepEqual(got, want) {
				c.Fatalf("%s: got %#v, want %#v", name, got, want)
			}
		}
		eq("Compare", x.Compare(arg), strings.Compare(s, arg))
		eq("Contains", x.Contains(arg), strings.Contains(s, arg))
		eq("ContainsAny", x.ContainsAny(arg), strings.ContainsAny(s, arg))
		eq("ContainsRune", x.ContainsRune(char), strings.ContainsRune(s, char))
		eq("Count", x.Count(arg), strings.Count(s, arg))
		eq("EqualFold", x.EqualFold(strings.ToUpper(s)), strings.EqualFold(s, strings.ToUpper(s)))
		eq("EqualFold arg", x.EqualFold(arg), strings.EqualFold(s, arg))
		eq("Fields", x.Fields(), strings.Fields(s))
		eq("FieldsFunc", x.FieldsFunc(pred), strings.FieldsFunc(s, pred))
		eq("HasPrefix", x.HasPrefix(arg), strings.HasPrefix(s, arg))
		eq("HasSuffix", x.HasSuffix(arg), strings.HasSuffix(s, arg))
		eq("Index", x.Index(arg), strings.Index(s, arg))
		eq("IndexAny", x.IndexAny(arg), strings.IndexAny(s, arg))
		eq("IndexByte", x.IndexByte(by), strings.IndexByte(s, by))
		eq("IndexFunc", x.IndexFunc(pred), strings.IndexFunc(s, pred))
		eq("IndexRune", x.IndexRune(char), strings.IndexRune(s, char))
		eq("LastIndex", x.LastIndex(arg), strings.LastIndex(s, arg))
		eq("LastIndexAny", x.LastIndexAny(arg), strings.LastIndexAny(s, arg))
		eq("LastIndexByte", x.LastIndexByte(by), strings.LastIndexByte(s, by))
		eq("LastIndexFunc", x.LastIndexFunc(pred), strings.LastIndexFunc(s, pred))
		eq("Lines", x.Lines(), strings.Split(s, "\n"))
		eq("Map", x.Map(mapping), strings.Map(mapping, s))
		if n >= 0 {
			eq("Repeat", x.Repeat(n), strings.Repeat(s, n))
		}
		eq("Split", x.Split(arg), strings.Split(s, arg))
		eq("SplitAfter", x.SplitAfter(arg), strings.SplitAfter(s, arg))
		eq("SplitAfterN", x.SplitAfterN(arg, n), strings.SplitAfterN(s, arg, n))
		eq("SplitN", x.SplitN(arg, n), strings.SplitN(s, arg, n))
		eq("Title", x.Title(), cases.Title(language.English).String(s))
		eq("ToLower", x.ToLower(), strings.ToLower(s))
		eq("ToTitle", x.ToTitle(), strings.ToTitle(s))
		eq("ToUpper", x.ToUpper(), strings.ToUpper(s))
		eq("Trim", x.Trim(arg), strings.Trim(s, arg))
		eq("TrimFunc", x.TrimFunc(pred), strings.TrimFunc(s, pred))
		eq("TrimLeft", x.TrimLeft(arg), strings.TrimLeft(s, arg))
		eq("TrimLeftFunc", x.TrimLeftFunc(pred), strings.TrimLeftFunc(s, pred))
		eq("TrimPrefix", x.TrimPrefix(arg), strings.TrimPrefix(s, arg))
		eq("TrimRight", x.TrimRight(arg), strings.TrimRight(s, arg))
		eq("TrimRightFunc", x.TrimRightFunc(pred), strings.TrimRightFunc(s, pred))
		eq("TrimSpace", x.TrimSpace(), strings.TrimSpace(s))
		eq("TrimSuffix", x.TrimSuffix(arg), strings.TrimSuffix(s, arg))
		eq("ToLowerSpecial", x.ToLowerSpecial(special), strings.ToLowerSpecial(special, s))
		eq("ToTitleSpecial", x.ToTitleSpecial(special), strings.ToTitleSpecial(special, s))
		eq("ToUpperSpecial", x.ToUpperSpecial(special), strings.ToUpperSpecial(special, s))
		eq("String", x.String(), s)
		eq("Str", x.Str(), s)
		eq("Len", x.Len(), len(s))
		eq("Quote", x.Quote(), strconv.Quote(s))
		q := strconv.Quote(s)
		eq("Escape", x.Escape(), q[1:len(q)-1])
		eq("Replace", x.Replace(arg, other), strings.ReplaceAll(s, arg, other))
		eq("ReplaceN", x.ReplaceN(arg, other, n), strings.Replace(s, arg, other, n))
		eq("FieldsID", x.FieldsID(), refFieldsID(s))
		eq("Join", x.Join(arg, other, n, true), strings.Join([]string{arg, other, strconv.Itoa(n), "true"}, s))
		var all []int
		if s != "" && arg != "" {
			for i := 0; i+len(arg) <= len(s); {
				if s[i:i+len(arg)] == arg {
					all = append(all, i)
					i += len(arg)
				} else {
					i++
				}
			}
		}
		eq("IndexAll", x.IndexAll(arg), all)
		eq("ParseBool", x.ParseBool(), refBool(s))
		if string(x) != s {
			c.Fatalf("receiver changed")
		}
	})
}

func refBool(s string) bool {
	switch strings.ToLower(strings.TrimSpace(s)) {
	case "", "0", "f", "false", "n", "no", "off":
		return false
	}
	return true
}

func refFieldsID(s string) []string {
	res := []string{}
	cur := ""
	for _, r := range s {
		if unicode.IsLetter(r) || unicode.IsNumber(r) || r == '_' {
			cur += string(r)
			continue
		}
		if cur != "" {
			res = append(res, cur)
		}
		cur = ""
	}
	if cur != "" {
		res = append(res, cur)
	}
	return res
}

func TestC11_Bool(t *testing.T) {
	words := []string{"", "0", "1", "f", "t", "false", "true", "no", "yes", "n", "y", "on", "off", "of", "non", "2", "00", "10", "nope", "whatever", "été"}
	check(t, "the text is one of the clearly false words or close to one", 15000, 200000, func(c *C) {
		w := rapid.SampledFrom(words).Draw(c.T, "word")
		out := ""
		for _, r := range w {
			if rapid.Bool().Draw(c.T, "upper") {
				r = unicode.ToUpper(r)
			}
			out += string(r)
		}
		sp := rapid.SampledFrom([]string{"", " ", "\t", "\n"})
		s := sp.Draw(c.T, "l") + out + sp.Draw(c.T, "r")
		c.Case("%q", s)
		c.NontrivialIf(len(w) <= 5)
		c.ClassIf(refBool(s), "true")
		c.ClassIf(!refBool(s), "false")
		if got := cString(s).ParseBool(); got != refBool(s) {
			c.Fatalf("ParseBool: got %v", got)
		}
	})
}

func TestC11_Arrays(t *testing.T) {
	check(t, "at least two elements, one with a multi-byte character or a white space", 15000, 300000, func(c *C) {
		src := rapid.SliceOfN(rich, 0, 5).Draw(c.T, "array")
		arg := shortRich.Draw(c.T, "arg")
		n := rapid.SampledFrom([]int{0, 1, 2, 5, 12}).Draw(c.T, "n")
		pred := rapid.SampledFrom([]func(rune) bool{unicode.IsSpace, unicode.IsUpper, unicode.IsLetter}).Draw(c.T, "pred")
		special := rapid.SampledFrom([]unicode.SpecialCase{unicode.TurkishCase, {}}).Draw(c.T, "special")
		c.Case("array=%q arg=%q n=%d", src, arg, n)
		joined := strings.Join(src, "")
		c.NontrivialIf(len(src) > 1 && (len(joined) != utf8.RuneCountInString(joined) || strings.IndexFunc(joined, unicode.IsSpace) >= 0))
		as := make(collections.StringArray, len(src))
		for i := range src {
			as[i] = cString(src[i])
		}
		eq := func(name string, got any, f func(s string) string) {
			want := make([]string, len(src))
			for i := range src {
				want[i] = f(src[i])
			}
			g := []string{}
			switch x := got.(type) {
			case collections.StringArray:
				g = strs(x)
			case []string:
				g = list(x)
			}
			if !reflect.DeepEqual(g, want) {
				c.Fatalf("%s: got %q, want %q", name, g, want)
			}
		}
		id := func(s string) string { return s }
		eq("Strings", as.Strings(), id)
		eq("Str", as.Str(), id)
		eq("Title", as.Title(), func(s string) string { return cases.Title(language.English).String(s) })
		eq("ToTitle", as.ToTitle(), strings.ToTitle)
		eq("ToLower", as.ToLower(), strings.ToLower)
		eq("ToUpper", as.ToUpper(), strings.ToUpper)
		eq("Trim", as.Trim(arg), func(s string) string { return strings.Trim(s, arg) })
		eq("TrimFunc", as.TrimFunc(pred), func(s string) string { return strings.TrimFunc(s, pred) })
		eq("TrimLeft", as.TrimLeft(arg), func(s string) string { return strings.TrimLeft(s, arg) })
		eq("TrimLeftFunc", as.TrimLeftFunc(pred), func(s string) string { return strings.TrimLeftFunc(s, pred) })
		eq("TrimPrefix", as.TrimPrefix(arg), func(s string) string { return strings.TrimPrefix(s, arg) })
		eq("TrimRight", as.TrimRight(arg), func(s string) string { return strings.TrimRight(s, arg) })
		eq("TrimRightFunc", as.TrimRightFunc(pred), func(s string) string { return strings.TrimRightFunc(s, pred) })
		eq("TrimSpace", as.TrimSpace(), strings.TrimSpace)
		eq("TrimSuffix", as.TrimSuffix(arg), func(s string) string { return strings.TrimSuffix(s, arg) })
		eq("ToLowerSpecial", as.ToLowerSpecial(special), func(s string) string { return strings.ToLowerSpecial(special, s) })
		eq("ToTitleSpecial", as.ToTitleSpecial(special), func(s string) string { return strings.ToTitleSpecial(special, s) })
		eq("ToUpperSpecial", as.ToUpperSpecial(special), func(s string) string { return strings.ToUpperSpecial(special, s) })
		eq("Center", as.Center(n), func(s string) string { return cString(s).Center(n).Str() })
		eq("Wrap", as.Wrap(n+1), func(s string) string { return cString(s).Wrap(n + 1).Str() })
		eq("Indent", as.Indent(arg), func(s string) string { return refIndent(s, arg) })
		eq("IndentN", as.IndentN(n), func(s string) string { return refIndent(s, strings.Repeat(" ", n)) })
		eq("UnIndent", as.UnIndent(), refUnIndent)
		if got, want := string(as.Join(arg)), strings.Join(src, arg); got != want {
			c.Fatalf("Join: got %q, want %q", got, want)
		}
		if got, want := string(as.Join(n)), strings.Join(src, strconv.Itoa(n)); got != want {
			c.Fatalf("Join(int): got %q, want %q", got, want)
		}
		want := append([]string{}, src...)
		sort.Strings(want)
		if got := strs(as.Sorted()); !reflect.DeepEqual(got, want) {
			c.Fatalf("Sorted: got %q, want %q", got, want)
		}
		eq("array afterwards", as, id)
	})
}

func refIndent(s, indent string) string { return indent + strings.ReplaceAll(s, "\n", "\n"+indent) }

// refUnIndent: the leading white space of the first line which is not blank is removed from
// every line, provided that every line which is not blank has it.
func refUnIndent(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) == 1 {
		return s
	}
	first := -1
	for i, l := range lines {
		if strings.TrimSpace(l) != "" {
			first = i
			break
		}
	}
	if first < 0 {
		return s
	}
	prefix := lines[first][:strings.IndexFunc(lines[first], func(r rune) bool { return !unicode.IsSpace(r) })]
	for i, l := range lines {
		if i < first {
			continue
		}
		if strings.HasPrefix(l, prefix) {
			lines[i] = l[len(prefix):]
		} else if strings.TrimSpace(l) != "" {
			return s
		}
	}
	return strings.Join(lines, "\n")
}

func TestC11_Lines(t *testing.T) {
	pieces := []string{"\n", "\n", "\n", "  ", "    ", "\t", " \t", "a", "foo bar", "été", "日本 x", "\r", "%d", "{}", "\u00a0"}
	text := rapid.Custom(func(t *rapid.T) string {
		if rapid.Bool().Draw(t, "free") {
			return pieceText(pieces, 12).Draw(t, "text")
		}
		// indented text
		prefix := rapid.SampledFrom([]string{"  ", "\t", " \t ", "    ", "\u00a0", ""}).Draw(t, "prefix")
		n := rapid.IntRange(1, 14).Draw(t, "lines")
		lines := make([]string, n)
		for i := range lines {
			switch rapid.IntRange(0, 6).Draw(t, "kind") {
			case 0:
			case 1:
				lines[i] = prefix
			case 2:
				lines[i] = prefix + rapid.SampledFrom([]string{"  ", "\t"}).Draw(t, "more") + "more"
			case 3:
				lines[i] = strings.Repeat(" ", rapid.IntRange(0, 4).Draw(t, "sp")) + rapid.SampledFrom([]string{"", "x"}).Draw(t, "x")
			default:
				lines[i] = prefix + rapid.SampledFrom([]string{"line", "été ", "a b", "日"}).Draw(t, "word")
			}
		}
		return strings.Join(lines, "\n")
	})
	check(t, "several lines, one of which is not blank", 25000, 500000, func(c *C) {
		s := text.Draw(c.T, "s")
		indent := rapid.SampledFrom([]string{"", " ", "  ", "\t", "> ", "→", "%s", "# "}).Draw(c.T, "indent")
		n := rapid.SampledFrom([]int{0, 1, 2, 4, 7}).Draw(c.T, "n")
		many := 0
		if rapid.IntRange(0, 9).Draw(c.T, "long") == 9 {
			many = rapid.SampledFrom([]int{9, 10, 11, 99, 100, 101, 999, 1000, 1001}).Draw(c.T, "many") - strings.Count(s, "\n") - 1
		}
		if many > 0 {
			s += strings.Repeat("\nl", many)
		}
		shown := s
		if len(s) > 300 {
			shown = s[:300] + "…"
		}
		c.Case("s=%q (%d lines) indent=%q n=%d", shown, strings.Count(s, "\n")+1, indent, n)
		c.NontrivialIf(strings.Contains(s, "\n") && strings.TrimSpace(s) != "")
		x := cString(s)
		fail := func(name string, got, want string) {
			if got != want {
				c.Fatalf("%s: got %q, want %q", name, got, want)
			}
		}
		fail("Lines joined", string(x.Lines().Join("\n")), s)
		fail("Indent", string(x.Indent(indent)), refIndent(s, indent))
		fail("collections.Indent", collections.Indent(s, indent), refIndent(s, indent))
		fail("IndentN", string(x.IndentN(n)), refIndent(s, strings.Repeat(" ", n)))
		fail("collections.IndentN", collections.IndentN(s, n), refIndent(s, strings.Repeat(" ", n)))
		un := refUnIndent(s)
		c.ClassIf(un != s, "unindented")
		fail("UnIndent", string(x.UnIndent()), un)
		fail("collections.UnIndent", collections.UnIndent(s), un)
		if un == s && strings.Contains(s, "\n") && !strings.HasPrefix(strings.TrimLeft(s, "\n"), " ") && n > 0 && strings.TrimSpace(strings.SplitN(s, "\n", 2)[0]) != "" && !unicode.IsSpace([]rune(s)[0]) {
			fail("Indent then UnIndent", string(x.IndentN(n).UnIndent()), s)
			c.Class("indent undone")
		}
		// numbering
		lines := strings.Split(s, "\n")
		width := len(fmt.Sprint(len(lines)))
		for _, space := range []int{0, -1, n} {
			w := space
			if w <= 0 {
				w = width
			}
			numbered := make([]string, len(lines))
			for i, l := range lines {
				num := strconv.Itoa(i + 1)
				for len(num) < w {
					num = " " + num
				}
				numbered[i] = num + " " + l
			}
			fail(fmt.Sprintf("AddLineNumber(%d)", space), string(x.AddLineNumber(space)), strings.Join(numbered, "\n"))
		}
		c.ClassIf(many > 0, "9 lines and more")
		// SplitLines and JoinLines
		split := collections.SplitLines(s)
		want := strings.TrimSuffix(s, "\n")
		fail("SplitLines then JoinLines", collections.JoinLines(split...), want)
		if len(split) != strings.Count(want, "\n")+1 {
			c.Fatalf("SplitLines gave %d elements: %q", len(split), split)
		}
		fail("Concat", collections.Concat(s, n, indent), s+strconv.Itoa(n)+indent)
		l, r := collections.Split2(s, "\n")
		if strings.Contains(s, "\n") {
			fail("Split2", l+"\n"+r, s)
			if strings.Contains(l, "\n") {
				c.Fatalf("Split2 left part has the separator")
			}
		} else if l != s || r != "" {
			c.Fatalf("Split2: %q %q", l, r)
		}
	})
}

func TestC11_Words(t *testing.T) {
	pieces := []string{"a", "foo", "été", "à", "ÅB", "日本", "$x", "v1", " ", "\t", ".", "_", "[", "]", "-", "…", "«", "\u00a0", "🙂", "+", "\n", "\u0085", "xà"}
	check(t, "the position is in a word with a multi-byte character or beside an accepted punctuation", 30000, 600000, func(c *C) {
		s := pieceText(pieces, 9).Draw(c.T, "s")
		accept := rapid.SampledFrom([][]string{nil, {"."}, {".", "_"}, {"[]"}, {".", "[]", "-"}, {"…"}, {" "}}).Draw(c.T, "accept")
		pos := rapid.IntRange(-1, len(s)+1).Draw(c.T, "pos")
		c.Case("s=%q pos=%d accept=%q", s, pos, accept)
		got, at := cString(s).GetWordAtPosition(pos, accept...)
		if sel := cString(s).SelectWord(pos, accept...); sel != got {
			c.Fatalf("SelectWord %q and GetWordAtPosition %q differ", sel, got)
		}
		want, wantAt := "", -1
		if pos >= 0 && pos < len(s) {
			// words found from the start of the text
			ok := strings.Join(accept, "")
			start := 0
			i := 0
			for i < len(s) {
				r, size := utf8.DecodeRuneInString(s[i:])
				if unicode.IsSpace(r) || unicode.IsPunct(r) && !strings.ContainsRune(ok, r) {
					if pos >= start && pos < i {
						break
					}
					if pos >= i && pos < i+size {
						start = i
						break
					}
					start = i + size
				}
				i += size
			}
			want, wantAt = s[start:i], start
		}
		c.NontrivialIf(len(want) != utf8.RuneCountInString(want) || strings.IndexFunc(want, unicode.IsPunct) >= 0)
		c.ClassIf(want == "" && wantAt >= 0, "not in a word")
		c.ClassIf(wantAt < 0, "outside")
		if string(got) != want || at != wantAt {
			c.Fatalf("got %q at %d, want %q at %d", got, at, want, wantAt)
		}
	})
}

func TestC11_Context(t *testing.T) {
	pairs := [][2]string{{"(", ")"}, {"[[", "]]"}, {"{{", "}}"}, {"<", ">"}, {"«", "»"}, {"|", "|"}, {"begin ", " end"}, {"(", ""}, {"", ")"}, {"", ""}}
	check(t, "the position is inside delimiters, with other contexts in the text", 30000, 600000, func(c *C) {
		pair := rapid.SampledFrom(pairs).Draw(c.T, "pair")
		left, right := pair[0], pair[1]
		// tokens: delimiters and separate pieces of text, with the position of each
		type token struct {
			text string
			kind int // -1 left, 1 right
			at   int
		}
		var tokens []token
		s := ""
		n := rapid.IntRange(1, 12).Draw(c.T, "n")
		add := func(text string, kind int) {
			tokens = append(tokens, token{text, kind, len(s)})
			s += text
		}
		for i := 0; i < n; i++ {
			switch k := rapid.SampledFrom([]int{-1, -1, 0, 1, 1}).Draw(c.T, "kind"); {
			case k < 0 && left != "":
				add(left, -1)
			case k > 0 && right != "" && right != left:
				add(right, 1)
			}
			add(rapid.SampledFrom([]string{"x", "é", " ", "日"}).Draw(c.T, "text"), 0)
		}
		// the position is in a piece of text, or anywhere when out of bounds
		var texts []token
		for _, tk := range tokens {
			if tk.kind == 0 {
				texts = append(texts, tk)
			}
		}
		tk := rapid.SampledFrom(texts).Draw(c.T, "at")
		pos := tk.at
		if rapid.IntRange(0, 15).Draw(c.T, "out") == 0 {
			pos = rapid.SampledFrom([]int{-1, len(s), len(s) + 3}).Draw(c.T, "outside")
		}
		c.Case("s=%q pos=%d left=%q right=%q", s, pos, left, right)
		want, wantAt := "", -1
		if pos >= 0 && pos < len(s) {
			begin, end := -1, -1
			if left == "" {
				begin = pos
			} else {
				depth := 0
				for i := len(tokens) - 1; i >= 0; i-- {
					if tokens[i].at >= pos || tokens[i].kind == 0 {
						continue
					}
					if tokens[i].kind > 0 {
						depth++
					} else if depth > 0 {
						depth--
					} else {
						begin = tokens[i].at
						break
					}
				}
			}
			if right == "" {
				end = pos + 1
			} else {
				depth := 0
				for _, tk := range tokens {
					if tk.at < pos || tk.kind == 0 {
						continue
					}
					if left == right && tk.kind < 0 || tk.kind > 0 && (depth == 0 || left == "") {
						end = tk.at + len(right)
						break
					}
					if tk.kind > 0 {
						depth--
					} else {
						depth++
					}
				}
			}
			if begin >= 0 && end >= 0 {
				want, wantAt = s[begin:end], begin
				c.NontrivialIf(left != "" && strings.Count(s, left) > 1)
				c.ClassIf(strings.Count(want, left) > 1 && left != "" && left != right, "nested")
			}
		}
		c.ClassIf(wantAt < 0, "no context")
		got, at := cString(s).GetContextAtPosition(pos, left, right)
		if string(got) != want || at != wantAt {
			c.Fatalf("got %q at %d, want %q at %d", got, at, want, wantAt)
		}
		if sel := cString(s).SelectContext(pos, left, right); sel != got {
			c.Fatalf("SelectContext %q and GetContextAtPosition %q differ", sel, got)
		}
	})
}

func TestC11_Protect(t *testing.T) {
	pieces := []string{"a", " ", "été", "\"", "\"", "`", "\\", "\\\\", "\\\"", "\"x\"", "`y\"`", "\"a b\"", "♠", "0", "1", "\"♠0\"", "\"♠1\"", "\"♠7\"", "\n", "`\n`", "\"`\"", "\"\""}
	check(t, "at least one string is protected", 40000, 1000000, func(c *C) {
		s := pieceText(pieces, 10).Draw(c.T, "s")
		c.Case("%q", s)
		protected, array := cString(s).Protect()
		c.NontrivialIf(len(array) > 0)
		c.ClassIf(len(array) > 1, "several strings")
		if got := protected.RestoreProtected(array); string(got) != s {
			c.Fatalf("restored %q from %q %q", got, protected, array)
		}
		// what is protected is what a left to right scan finds
		var want []string
		for i := 0; i < len(s); {
			if s[i] != '"' && s[i] != '`' {
				i++
				continue
			}
			j := i + 1
			for j < len(s) && s[j] != s[i] {
				if s[i] == '"' && s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				if s[i] == '"' {
					break
				}
				i++
				continue
			}
			want = append(want, s[i:j+1])
			i = j + 1
		}
		if !reflect.DeepEqual(list(want), strs(array)) {
			c.Fatalf("protected strings %q, want %q", array, want)
		}
		rest := string(protected)
		for i := range want {
			rest = strings.Replace(rest, fmt.Sprintf("\"♠%d\"", i), "", 1)
		}
		for _, w := range want {
			if p := strings.Index(s, w); p < 0 {
				c.Fatalf("protected string %q is not in the text", w)
			}
		}
		// transformations of the unprotected text leave the strings alone
		upper := protected.ToUpper().RestoreProtected(array)
		if strings.ToLower(string(upper)) != strings.ToLower(s) {
			c.Fatalf("upper case of the unprotected part: %q", upper)
		}
		for _, w := range want {
			if !strings.Contains(string(upper), w) {
				c.Fatalf("string %q lost in %q", w, upper)
			}
		}
	})
}

func TestC11_Layout(t *testing.T) {
	words := []string{"a", "bc", "lorem", "ipsum,", "consectetur", "été", "日本語", "x", "adipiscing", "elit."}
	spaces := []string{" ", " ", " ", "  ", "\t", "\n", "\n  ", "\n\t", "\n\n", "   ", "\u00a0", "\u2003"}
	check(t, "the text has several words and at least one line is broken or the width exceeds the text", 30000, 600000, func(c *C) {
		width := rapid.SampledFrom([]int{1, 2, 3, 5, 8, 10, 12, 16, 20, 30, 50}).Draw(c.T, "width")
		n := rapid.IntRange(0, 16).Draw(c.T, "n")
		s := rapid.SampledFrom([]string{"", "", " ", "   ", "\t", "\n"}).Draw(c.T, "start")
		for i := 0; i < n; i++ {
			s += rapid.SampledFrom(words).Draw(c.T, "word") + rapid.SampledFrom(spaces).Draw(c.T, "space")
		}
		c.Case("s=%q width=%d", s, width)
		// centring
		centred := string(cString(s).Center(width))
		l := utf8.RuneCountInString(s)
		if collections.CenterString(s, width) != centred {
			c.Fatalf("Center and CenterString differ")
		}
		if l >= width {
			if centred != s {
				c.Fatalf("Center changed a text of %d characters: %q", l, centred)
			}
		} else {
			pad := width - l
			want := strings.Repeat(" ", pad/2) + s + strings.Repeat(" ", pad-pad/2)
			if centred != want {
				c.Fatalf("Center: got %q, want %q", centred, want)
			}
		}
		// wrapping
		wrapped := string(cString(s).Wrap(width))
		if collections.WrapString(s, width) != wrapped {
			c.Fatalf("Wrap and WrapString differ")
		}
		c.NontrivialIf(n > 1 && (strings.Count(wrapped, "\n") != strings.Count(s, "\n") || l < width))
		c.ClassIf(strings.Count(wrapped, "\n") > strings.Count(s, "\n"), "broken lines")
		if got, want := strings.Fields(wrapped), strings.Fields(s); !reflect.DeepEqual(got, want) {
			c.Fatalf("Wrap changed the words: got %q, want %q", got, want)
		}
		for _, line := range strings.Split(wrapped, "\n") {
			f := strings.Fields(line)
			if joined := utf8.RuneCountInString(strings.Join(f, " ")); joined > width+1 && len(f) > 1 {
				c.Fatalf("Wrap: line %q is wider than %d", line, width)
			}
			if trimmed := strings.TrimSpace(line); trimmed != strings.Join(f, " ") {
				c.Fatalf("Wrap: spaces of line %q", line)
			}
		}
		// lines are broken only when the next word does not fit, and every line break is kept
		out := strings.Split(wrapped, "\n")
		pos := 0
		for i, line := range strings.Split(s, "\n") {
			ws := strings.Fields(line)
			if len(ws) == 0 {
				if pos >= len(out) || out[pos] != "" {
					c.Fatalf("Wrap: blank line %d is not kept in %q", i, wrapped)
				}
				pos++
				continue
			}
			indent := line[:strings.Index(line, ws[0])]
			first := true
			for len(ws) > 0 {
				if pos >= len(out) {
					c.Fatalf("Wrap: missing lines for %d in %q", i, wrapped)
				}
				f := strings.Fields(out[pos])
				if len(f) == 0 && !(first && indent != "" && len(indent)+len(ws[0]) > width) {
					c.Fatalf("Wrap: unexpected blank line %d in %q", pos, wrapped)
				}
				ws = ws[len(f):]
				if len(ws) > 0 {
					used := len(strings.Join(f, " ")) + 1 + len(ws[0])
					if first {
						used += len(indent)
					}
					if used <= width {
						c.Fatalf("Wrap: %q would fit on line %q", ws[0], out[pos])
					}
				} else if !strings.HasPrefix(out[pos], indent) {
					c.Fatalf("Wrap: the indentation %q is not in %q", indent, out[pos])
				}
				first = false
				pos++
			}
		}
		if pos != len(out) {
			c.Fatalf("Wrap: additional lines in %q", wrapped)
		}
	})
}

// TestC11_Diff applies the unified diff given by Diff: it must turn the first text into the second.
func TestC11_Diff(t *testing.T) {
	check(t, "the texts differ and share lines", 15000, 300000, func(c *C) {
		gen := rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", "c", "été", "", "-x", "+y", "@@ z", " w", "日本"}), 0, 14)
		a := gen.Draw(c.T, "a")
		b := append([]string{}, a...)
		for i := rapid.IntRange(0, 3).Draw(c.T, "edits"); i > 0; i-- {
			k := rapid.IntRange(0, len(b)).Draw(c.T, "k")
			if k < len(b) && rapid.Bool().Draw(c.T, "remove") {
				b = append(b[:k:k], b[k+1:]...)
			} else {
				b = append(b[:k:k], append([]string{rapid.SampledFrom([]string{"new", "a", ""}).Draw(c.T, "line")}, b[k:]...)...)
			}
		}
		s1, s2 := strings.Join(a, "\n"), strings.Join(b, "\n")
		c.Case("%q -> %q", s1, s2)
		diff := string(cString(s1).Diff(s2))
		if s1 == s2 {
			if diff != "" {
				c.Fatalf("diff of equal texts: %q", diff)
			}
			return
		}
		c.NontrivialIf(len(a) > 1 && len(b) > 1)
		got, err := patch(s1, diff)
		if err != nil || got != s2 {
			c.Fatalf("applying the diff %q gives %q %v", diff, got, err)
		}
	})
}

func patch(text, diff string) (string, error) {
	// the library adds a line break to the last line of both texts
	src := strings.SplitAfter(text+"\n", "\n")
	src = src[:len(src)-1]
	lines := strings.SplitAfter(diff, "\n")
	var out []string
	at := 0
	for _, l := range lines {
		if strings.HasPrefix(l, "@@ -") && len(strings.Fields(l)) == 4 {
			r := strings.Split(strings.TrimPrefix(strings.Fields(l)[1], "-"), ",")
			start, err := strconv.Atoi(r[0])
			if err != nil {
				return "", err
			}
			if len(r) == 1 || r[1] != "0" {
				start--
			}
			if start < at || start > len(src) {
				return "", fmt.Errorf("hunk out of order")
			}
			out = append(out, src[at:start]...)
			at = start
			continue
		}
		switch {
		case strings.HasPrefix(l, " ") || strings.HasPrefix(l, "-"):
			if strings.HasPrefix(l, "--- ") && at == 0 && len(out) == 0 {
				continue
			}
			if at >= len(src) || src[at] != l[1:] {
				return "", fmt.Errorf("line %q not found at %d", l, at)
			}
			if l[0] == ' ' {
				out = append(out, src[at])
			}
			at++
		case strings.HasPrefix(l, "+"):
			if strings.HasPrefix(l, "+++ ") && at == 0 && len(out) == 0 {
				continue
			}
			out = append(out, l[1:])
		}
	}
	out = append(out, src[at:]...)
	return strings.TrimSuffix(strings.Join(out, ""), "\n"), nil
}
