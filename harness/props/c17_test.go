package props

// C17: any input is rendered or refused, never crashes or hangs.
//
// The searches run in the process of the check: a panic is reported by the search itself, while a
// fatal error (stack exhausted...), an exit of the process, a case using too much CPU or memory or
// never ending is reported by check.py from the case recorded before it was run.

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/hcl"
	"github.com/coveooss/gotemplate/v3/json"
	"github.com/coveooss/gotemplate/v3/template"
	"github.com/coveooss/gotemplate/v3/utils"
	"github.com/coveooss/gotemplate/v3/xml"
	"github.com/coveooss/gotemplate/v3/yaml"
	"pgregory.net/rapid"
)

// survive runs f, which must return by itself.
func survive(c *C, what string, f func()) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				buf := make([]byte, 4096)
				done <- fmt.Sprintf("panic: %v\n%s", r, buf[:runtime.Stack(buf, false)])
				return
			}
			done <- ""
		}()
		f()
	}()
	select {
	case problem := <-done:
		if problem != "" {
			c.Fatalf("%s\n%s\n%s", what, c.text, problem)
		}
	case <-time.After(5 * time.Minute):
		fmt.Printf("VP-RUNAWAY: no answer\n%s\ncase:\n%s\n", what, c.text)
		buf := make([]byte, 1<<16)
		os.Stdout.Write(buf[:runtime.Stack(buf, true)])
		os.Exit(97)
	}
}

var c17Tokens = []string{
	"{{", "}}", "{{-", "-}}", "{{ ", " }}", "{{/*", "*/}}", "{", "}", "(", ")", "[", "]", "\"", "'", "`", "\"\"", "``", "``` ", ";", ":", ",", ".", "..", "...", "$", "$.", "_", "|", "||", "&&", "!", "=", ":=", "+=", "-=", "~=", "==", "!=", "<", ">", "<<", ">>", "«", "÷", "&^", "^", "**", "+", "-", "*", "/", "%", "\\", "\n", "\n\n", "\r\n", "\t", " ", "  ", "\x00", "\xff", "\xc3", "é", "日本", "🙂", "#", "##", "//", "/*", "*/", "#!", "#!\n", "#! /usr/bin/env gotemplate\n",
	"@", "@@", "@@@", "@{", "@}", "@(", "@)", "@-", "@--", "@<", "@_", "@.", "@$", "@#", "@//", "@/*", "/*@", "@*/", "## @", "@;", "@=", "@1", "@\"", "@`", "@[",
	"@name", "@name;", "@{name}", "@(name)", "@-name-;", "@<name", "@cfg.key", "@l[0]", "@l[-1:1]", "@l[", "@.name", "@$.name", "@$x", "@{x} := 1", "@$x := 2;", "@x += 1", "@{x := 3}", "@cfg.z = 1\n", "@name.Title()", "@(1 + 2)", "@(1 +)", "@((1 + 2) * 3)", "@upper(\"a\")", "@upper(", "@upper()", "@f(x)(y)", "@iif(true, 1, 2)", "@list(1, 2)[0]", "@add(l...)",
	"@if (t)", "@if (", "@if(1 > 2)", "@-if (t)", "@if (t) x;", "@else", "@else if (t)", "@elseif (t)", "@end", "@end;", "@-end-", "@end if", "@for (l)", "@for ($i, $e := l)", "@for (;;)", "@with (cfg)", "@range (l)", "@define (\"d\")", "@define(\"d\"", "@block (\"b\")", "@template (\"d\")", "@include(\"d\")", "@include(`@name`)", "@raw(\"x\")", "@autoIndent(l)", "- @awrap(l) +", "@awrap(", "@autoIndent(", "joe@x.com", "a@b", "@x.y@z",
	"{{ if .t }}", "{{ else }}", "{{ end }}", "{{ range .l }}", "{{ with .cfg }}", "{{ define \"d\" }}", "{{ template \"d\" . }}", "{{ block \"b\" . }}", "{{ break }}", "{{ .name }}", "{{ .undefined }}", "{{ .undefined.x.y }}", "{{ $x }}", "{{ $x := 1 }}", "{{ $.name }}", "{{ nofunc }}", "{{ upper }}", "{{ upper nil }}", "{{ add 1 \"x\" }}", "{{ div 1 0 }}", "{{ index .l 9 }}", "{{ .name.x }}", "{{ raise \"boom\" }}", "{{ raise `template: vp:77:8: x` }}", "{{ raise `template: /dev/null:77:8: x` }}", "{{ raise `template: /etc/passwd:9999999:8: x` }}", "{{ assert false }}", "{{ panic \"p\" }}", "{{ include \"d\" }}", "{{ include \"d\" . }}", "{{ include `{{ .name }}@name` }}", "{{ include . }}", "{{ data `{ a:` }}", "{{ json \"{\" }}", "{{ set . \"a\" . }}", "{{ unset . \"l\" }}", "{{ . }}", "{{ $ }}", "{{ ellipsis \"add\" .l }}", "{{ alias \"al\" \"include\" \"d\" }}", "{{ al 1 }}", "{{ func \"fn\" \"include\" \"{{ .x }}\" `{args: [x]}` }}", "{{ fn 1 }}", "{{ localAlias \"d\" \"template\" \"d\" }}", "{{ regexMatch \"(\" \"a\" }}", "{{ substitute .name }}", "{{ id .name }}", "{{ indent 3 .name }}", "{{ wrap 3 .name }}", "{{ get $ \"name\" }}", "{{ merge . . }}", "{{ toYaml . }}", "{{ toHcl . }}", "{{ toBash . }}",
	"no-gotemplate!", "no-razor!", "force-gotemplate!", "gotemplate-pause!", "gotemplate-resume!", "razor-pause!", "razor-resume!", "<no value>", "<nil>", "\"<no value>\"", "\"<RUN_ERROR>\"", "\"<UNDEF $x>\"", "ERROR ", "!NO_VALUE!", "\"!Q!x y!Q!\"", "$&paused-left&$", "template: vp:1:2: x", "text", "word", "12", "0", "-1", "1e400", "0x", "9999999999999999999999", "true", "nil", "null", "if", "else", "end", "range",
}

var c17Delims = []string{"", "", "", "", "[[,]],§", "<%,%>", ",,§", "{,}", "{,},$", "a,b,c", "(,)", "\",\"", ".,.,.", "*,+,?", "[,],^", "\\,/,|", "%%,%%,%%", "{{,}},{{", "ERROR,x,e", " , , ", "\n,\t,\r", "é,à,日", "@,@,@", "/*,*/,//", "-,-,-"}

var c17Opts = []func(template.OptionsSet) template.OptionsSet{
	func(o template.OptionsSet) template.OptionsSet { return o },
	func(o template.OptionsSet) template.OptionsSet { return o.Set(template.StrictErrorCheck) },
	func(o template.OptionsSet) template.OptionsSet { return o.Set(template.StrictErrorCheck) },
	func(o template.OptionsSet) template.OptionsSet {
		return o.Set(template.StrictErrorCheck, template.AcceptNoValue)
	},
	func(o template.OptionsSet) template.OptionsSet { return o.Set(template.AcceptNoValue) },
	func(o template.OptionsSet) template.OptionsSet { return o.Set(template.RenderingDisabled) },
	func(o template.OptionsSet) template.OptionsSet { return o.Unset(template.Razor) },
	func(o template.OptionsSet) template.OptionsSet { return template.OptionsSet{} },
	func(o template.OptionsSet) template.OptionsSet {
		return template.OptionsSet{template.Razor: true, template.Runtime: true, template.StrictErrorCheck: true}
	},
}

var c17Subs = [][]string{nil, nil, nil, {"/a/b"}, {"/x/\n"}, {"/\n/"}, {"/./{{"}, {"/e/@"}, {"/(?m)^.*name.*$/d"}, {"|n|{{ .name }}|"}}

var c17Files = []string{"vp", "vp", "vp.gt", "dir/file.template", "", ".", "a:3", "vp:1:1: x", "é"}

func c17Context(t *rapid.T) any {
	switch rapid.IntRange(0, 7).Draw(t, "context") {
	case 0:
		return nil
	case 1:
		return rapid.SampledFrom([]any{"text", 12, 1.5, true, []any{1, "a"}, map[string]string{"name": "x"}, map[int]any{1: 2}, struct{ Name string }{"x"}, &struct{ A int }{1}}).Draw(t, "odd context")
	}
	return c13Context()
}

func c17Render(c *C, content string) {
	delims := rapid.SampledFrom(c17Delims).Draw(c.T, "delims")
	mode := rapid.IntRange(0, len(c17Opts)-1).Draw(c.T, "mode")
	subs := rapid.SampledFrom(c17Subs).Draw(c.T, "substitutions")
	file := rapid.SampledFrom(c17Files).Draw(c.T, "file")
	ctx := c17Context(c.T)
	c.Case("delims=%q mode=%d substitutions=%q file=%q context=%T\n%q", delims, mode, subs, file, ctx, content)
	c.ClassIf(delims != "", "delimiters")
	c.ClassIf(len(subs) > 0, "substitutions")
	survive(c, "rendering", func() {
		tpl, err := newTemplate(ctx, delims, c17Opts[mode](template.DefaultOptions()), subs...)
		if err != nil {
			return
		}
		text, err := tpl.ProcessContent(content, file)
		if err != nil {
			c.Class("refused")
			_ = err.Error()
		} else if text != content {
			c.Class("rendered")
		} else {
			c.Class("unchanged")
		}
	})
}

func TestC17_Tokens(t *testing.T) {
	check(t, "the content has at least three fragments", 4000, 150000, func(c *C) {
		parts := rapid.SliceOfN(rapid.SampledFrom(c17Tokens), 1, 14).Draw(c.T, "tokens")
		sep := rapid.SampledFrom([]string{"", "", " "}).Draw(c.T, "sep")
		c.NontrivialIf(len(parts) > 2)
		c17Render(c, strings.Join(parts, sep))
	})
}

// mutate alters a text: parts are removed, repeated, moved, or replaced by tokens and bytes
func mutate(t *rapid.T, s string, tokens []string) string {
	b := s
	for n := rapid.IntRange(1, 6).Draw(t, "mutations"); n > 0; n-- {
		i := rapid.IntRange(0, 1<<20).Draw(t, "from") % (len(b) + 1)
		j := i + rapid.IntRange(0, 1<<20).Draw(t, "length")%min(len(b)-i+1, 12)
		switch rapid.IntRange(0, 5).Draw(t, "mutation") {
		case 0:
			b = b[:i] + b[j:]
		case 1:
			b = b[:j] + b[i:j] + b[j:]
		case 2:
			b = b[:i] + rapid.SampledFrom(tokens).Draw(t, "token") + b[i:]
		case 3:
			b = b[:i] + rapid.SampledFrom(tokens).Draw(t, "token") + b[j:]
		case 4:
			k := rapid.IntRange(0, 1<<20).Draw(t, "to") % (len(b) + 1)
			b = b[:k] + b[i:j] + b[k:]
		case 5:
			b = b[:i] + string([]byte{rapid.Byte().Draw(t, "byte")}) + b[j:]
		}
	}
	return b
}

func TestC17_Documents(t *testing.T) {
	check(t, "the document has been altered", 3000, 100000, func(c *C) {
		doc := ""
		if rapid.Bool().Draw(c.T, "program") {
			g := &sGen{c: c, t: c.T, locals: map[string]byte{}, dot: 'r',
				globals: map[string]byte{"a": 'n', "b": 'n', "zero": 'n', "name": 's', "empty_text": 's', "nums": 'l', "none": 'l', "strs": 't'}}
			g.body(4)
			for _, i := range g.items {
				doc += i.src
			}
		} else {
			for n := rapid.IntRange(1, 5).Draw(c.T, "n"); n > 0; n-- {
				doc += rapid.SampledFrom(c16Docs).Draw(c.T, "code").src + rapid.SampledFrom([]string{" ", "\n", "\ntext\n", ", "}).Draw(c.T, "text")
			}
		}
		c.Nontrivial()
		c17Render(c, mutate(c.T, doc, c17Tokens))
	})
}

func TestC17_Bytes(t *testing.T) {
	alphabet := []byte("{}@@@()[]\"`'.$;:=+-*/|&<>!,#~ \n\\ax1")
	check(t, "the content has a delimiter", 3000, 150000, func(c *C) {
		content := string(rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom(alphabet), rapid.SampledFrom(alphabet), rapid.SampledFrom(alphabet), rapid.Byte()), 0, 40).Draw(c.T, "bytes"))
		c.NontrivialIf(strings.Contains(content, "@") || strings.Contains(content, "{{"))
		c17Render(c, content)
	})
}

// Size and shape of large documents: the time must stay proportionate.
func TestC17_Large(t *testing.T) {
	check(t, "the content is larger than 2000 bytes", 60, 400, func(c *C) {
		unit := strings.Join(rapid.SliceOfN(rapid.SampledFrom(c17Tokens), 1, 3).Draw(c.T, "tokens"), "")
		n := rapid.IntRange(100, 400).Draw(c.T, "times")
		tail := strings.Join(rapid.SliceOfN(rapid.SampledFrom(c17Tokens), 0, 3).Draw(c.T, "tail"), "")
		content := strings.Repeat(unit, n) + tail
		c.NontrivialIf(len(content) > 2000)
		mode := rapid.IntRange(0, 2).Draw(c.T, "mode")
		c.Case("mode=%d %q * %d + %q", mode, unit, n, tail)
		survive(c, "rendering", func() {
			tpl, err := newTemplate(c13Context(), "", c17Opts[mode](template.DefaultOptions()))
			if err == nil {
				tpl.ProcessContent(content, "vp")
			}
		})
	})
}

// Definitions calling each other, possibly without end.
func TestC17_Recursion(t *testing.T) {
	check(t, "at least two definitions call each other", 60, 1500, func(c *C) {
		names := []string{"d1", "d2", "d3"}[:rapid.IntRange(1, 3).Draw(c.T, "definitions")]
		doc, calls := "", 0
		for _, n := range names {
			body := ""
			for k := rapid.IntRange(1, 2).Draw(c.T, "parts"); k > 0; k-- {
				target := rapid.SampledFrom(names).Draw(c.T, "target")
				f := rapid.SampledFrom([]string{"{{ include %q }}", "{{ include %q . }}", "{{ include %q .n }}", "{{ template %q . }}", "@include(%q);", "{{ eval %q $ }}", "text", "{{ .undefined }}", "{{ raise %q }}"}).Draw(c.T, "call")
				if strings.Contains(f, "%q") {
					f = fmt.Sprintf(f, target)
					calls++
				}
				body += f
				if strings.Contains(f, "{{ in") || strings.Contains(f, "te %") {
					break // a second call would double the work at each level
				}
			}
			doc += fmt.Sprintf("{{ define %q }}%s{{ end }}", n, body)
		}
		doc += fmt.Sprintf("{{ include %q . }}", names[0])
		c.Case("%s", doc)
		c.NontrivialIf(calls > 1)
		survive(c, "rendering", func() {
			tpl, err := newTemplate(map[string]any{"n": 1}, "", strictOptions())
			if err == nil {
				tpl.ProcessContent(doc, "vp")
			}
		})
	})
}

// Functions that reach the outside of the process or stop it, and slow cryptography
var c17Excluded = map[string]bool{}

func init() {
	for _, n := range strings.Fields("exit exec execute run fatal fatalf getHostByName bcrypt derivePassword htpasswd genCA genCAWithKey genPrivateKey genSelfSignedCert genSelfSignedCertWithKey genSignedCert genSignedCertWithKey completeExamples alias localAlias func") {
		c17Excluded[n] = true
	}
}

// Functions whose result has the size given in argument
var c17Sized = map[string]bool{}

func init() {
	for _, n := range strings.Fields("repeat to until untilStep seq center centered indent nIndent nindent sIndent indentSprig nindentSprig wrap wrapped wrapSprig wrapWith repeatSprig randAlpha randAlphaNum randAscii randNumeric randBytes lorem loremIpsum lenc array mul multiply product prod mulSprig pow power lshift leftShift pow10 power10 exp2 exponent2 ldexp jn yn firstBesselN secondBesselN printf concat join mulf") {
		c17Sized[n] = true
	}
}

var c17Functions []string

func c17Args(t *rapid.T, sized bool) (text []string, ctx map[string]any) {
	ctx = map[string]any{}
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "args"); i < n; i++ {
		var v any
		switch rapid.IntRange(0, 9).Draw(t, "kind") {
		case 0, 1:
			v = rapid.SampledFrom([]int{0, 1, 2, -1, 3, 7, -3, 50, 100}).Draw(t, "int")
		case 2:
			if sized {
				v = 12
			} else {
				v = rapid.SampledFrom([]any{1 << 40, -1 << 63, uint64(1<<64 - 1), 1e300, -1e-300, 9007199254740993}).Draw(t, "huge")
			}
		case 3:
			v = rapid.SampledFrom([]float64{0, 0.5, -1.5, 3.25}).Draw(t, "float")
		case 4:
			v = rapid.SampledFrom([]any{nil, true, false, []byte("x"), time.Unix(0, 0).UTC(), struct{ A, b int }{1, 2}, &struct{ S string }{"s"}, (*int)(nil), map[string]any(nil), []any(nil), map[int]string{1: "a"}, [2]int{1, 2}, []string{"a", "b"}, 'x', collections.String("cs"), error(nil), fmt.Errorf("e"), func() int { return 1 }}).Draw(t, "odd")
		case 5:
			v = dress(t, genValue(valueOpts{depth: 2, null: true, floats: true}).Draw(t, "value"))
		default:
			v = rapid.OneOf(wordGen, rapid.SampledFrom([]string{"(", "[a-", "a: b", "{\"a\": 1}", "a = 1", "<x>", "%s %d", "%", "1-2-3", "2020-01-01", "http://x/y?z", "é\xff", "vp", "x=1,y", "a.b.c", "1.2.3", ">= 1", "2h", "word", "host", "add", "upper", "$1", "\\", "\x00"})).Draw(t, "text")
		}
		if s, ok := v.(string); ok && rapid.Bool().Draw(t, "literal") {
			text = append(text, fmt.Sprintf("%q", s))
			continue
		}
		if f, ok := v.(int); ok && rapid.Bool().Draw(t, "literal") {
			text = append(text, fmt.Sprint(f))
			continue
		}
		name := fmt.Sprintf("p%d", i)
		ctx[name] = v
		text = append(text, "."+name)
	}
	return
}

func TestC17_Functions(t *testing.T) {
	tpl, err := newTemplate(nil, "", template.DefaultOptions().Unset(template.Net, template.OS, template.Git))
	if err != nil {
		t.Fatal(err)
	}
	all, err := tpl.ProcessContent("{{ range allFunctions }}{{ . }} {{ end }}", "vp")
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range sortStrings(strings.Fields(all)) {
		if !c17Excluded[n] {
			c17Functions = append(c17Functions, n)
		}
	}
	if len(c17Functions) < 300 {
		t.Fatalf("only %d functions", len(c17Functions))
	}
	check(t, "the function receives at least one argument", 8000, 300000, func(c *C) {
		f := rapid.SampledFrom(c17Functions).Draw(c.T, "function")
		args, ctx := c17Args(c.T, c17Sized[f])
		code := fmt.Sprintf("{{ %s }}", strings.Join(append([]string{f}, args...), " "))
		if len(args) > 0 && rapid.IntRange(0, 4).Draw(c.T, "pipe") == 0 {
			code = fmt.Sprintf("{{ %s | %s }}", args[len(args)-1], strings.Join(append([]string{f}, args[:len(args)-1]...), " "))
		}
		c.Case("%s\n%s", code, fmt.Sprintf("%#v", ctx))
		c.NontrivialIf(len(args) > 0)
		survive(c, "calling", func() {
			tpl, err := newTemplate(ctx, "", strictOptions())
			if err == nil {
				if _, err = tpl.ProcessContent(code, "vp"); err == nil {
					c.Class("result")
				} else {
					c.Class("error")
				}
			}
		})
	})
}

var c17Data = []string{"{", "}", "[", "]", "\"", "'", ":", ",", "=", "-", "- ", "? ", "|", ">", "|+\n", "#", "//", "/*", "*/", "&a", "*a", "<<", "<<: *a", "<<EOF\n", "EOF\n", "<<-EOF\n", "!!", "!!binary", "!!int x", "---\n", "...\n", "%YAML", "%TAG", "\t", "\n", "\n  ", " ", "  ", "a", "b", "key", "1", "-1", "1e999", "0x1f", "1_000", ".5", "1.", "null", "~", "true", "false", "yes", "\\", "\\u12", "\\x", "\x00", "\xff", "é", "🙂", "${", "${a}", "${\"", "}", "$", "a: 1\n", "a = 1\n", "a \"b\" { c = 1 }\n", "[1, 2]", "{\"a\": 1}", "{a: 1}", "a: [b, c]\n", "a: &a\n  b: 1\nc: *a\n", "a = [\n", "a {\n", "}\n", "a=1 b=2", "<a>", "</a>", "<a b=\"c\">", "<!--", "<?xml?>", "@name", "{{ .x }}", "resource", ".", ";", "a: &x [*x]", "&a [*a, *a]", "&x {a: *x}"}

func TestC17_Data(t *testing.T) {
	readers := map[string]func([]byte, any) error{"json": json.Unmarshal, "yaml": yaml.Unmarshal, "hcl": hcl.Unmarshal, "xml": xml.Unmarshal, "any": func(b []byte, out any) error { return collections.ConvertData(string(b), out) }}
	names := sortedKeys(readers)
	check(t, "the text has at least two fragments", 10000, 500000, func(c *C) {
		var text string
		if rapid.IntRange(0, 3).Draw(c.T, "source") == 0 {
			v := genDict(valueOpts{depth: 3}).Draw(c.T, "value")
			switch rapid.IntRange(0, 2).Draw(c.T, "format") {
			case 0:
				text = fmt.Sprint(json.DictionaryHelper.AsDictionary(v))
			case 1:
				text = fmt.Sprint(yaml.DictionaryHelper.AsDictionary(v))
			case 2:
				text = fmt.Sprint(hcl.DictionaryHelper.AsDictionary(v))
			}
			text = mutate(c.T, text, c17Data)
			c.Nontrivial()
		} else {
			parts := rapid.SliceOfN(rapid.SampledFrom(c17Data), 0, 12).Draw(c.T, "parts")
			text = strings.Join(parts, "")
			c.NontrivialIf(len(parts) > 1)
		}
		name := rapid.SampledFrom(names).Draw(c.T, "reader")
		target := rapid.SampledFrom([]int{0, 1, 2, 3, 5}).Draw(c.T, "target")
		flavour := drawFlavour(c, "flavour")
		c.Case("%s target=%d flavour=%s\n%q", name, target, flavour.name, text)
		flavour.use()
		defer useJSON()
		survive(c, "reading", func() {
			var err error
			read := readers[name]
			var out any
			switch target {
			case 0, 1:
				err = read([]byte(text), &out)
			case 2:
				var m map[string]any
				err = read([]byte(text), &m)
				out = m
			case 3:
				var l []any
				err = read([]byte(text), &l)
				out = l
			case 5:
				var s struct {
					A   any
					B   []int
					Key map[string]any
				}
				err = read([]byte(text), &s)
				out = s
			}
			c.ClassIf(err == nil, "read")
			if err == nil && target < 4 && !reflect.DeepEqual(out, nil) {
				_ = fmt.Sprint(out)
				_, _ = collections.MarshalGo(out)
				if d, err := collections.TryAsDictionary(out); err == nil {
					_ = d.String()
					_ = d.PrettyPrint()
					_ = d.Clone().String()
					_ = collections.ToBash(d)
				} else if l, err := collections.TryAsList(out); err == nil {
					_ = l.String()
					_ = l.PrettyPrint()
					_ = l.Clone().Unique()
				}
			}
		})
	})
}

func TestC17_Text(t *testing.T) {
	texts := rapid.OneOf(rich, anyText, rapid.Map(rapid.SliceOfN(rapid.SampledFrom(c17Tokens), 0, 6), func(p []string) string { return strings.Join(p, "") }), rapid.Map(rapid.SliceOfN(rapid.Byte(), 0, 20), func(b []byte) string { return string(b) }))
	ints := rapid.OneOf(rapid.IntRange(-3, 40), rapid.SampledFrom([]int{0, -1, 1000, -1000, 1 << 31, -1 << 63, 1<<63 - 1}))
	small := rapid.IntRange(-5, 200)
	calls := []struct {
		name string
		f    func(s cString, t *rapid.T)
	}{
		{"GetWordAtPosition", func(s cString, t *rapid.T) {
			s.GetWordAtPosition(ints.Draw(t, "pos"), rapid.SliceOfN(shortRich, 0, 2).Draw(t, "accept")...)
		}},
		{"SelectWord", func(s cString, t *rapid.T) {
			s.SelectWord(ints.Draw(t, "pos"), rapid.SliceOfN(shortRich, 0, 2).Draw(t, "accept")...)
		}},
		{"GetContextAtPosition", func(s cString, t *rapid.T) {
			s.GetContextAtPosition(ints.Draw(t, "pos"), shortRich.Draw(t, "left"), shortRich.Draw(t, "right"))
		}},
		{"SelectContext", func(s cString, t *rapid.T) {
			s.SelectContext(ints.Draw(t, "pos"), shortRich.Draw(t, "left"), shortRich.Draw(t, "right"))
		}},
		{"SelectContext()", func(s cString, t *rapid.T) { s.SelectContext(ints.Draw(t, "pos"), "(", ")") }},
		{"IndexAll", func(s cString, t *rapid.T) { s.IndexAll(shortRich.Draw(t, "sub")) }},
		{"Wrap", func(s cString, t *rapid.T) { s.Wrap(ints.Draw(t, "width")) }},
		{"Center", func(s cString, t *rapid.T) { s.Center(small.Draw(t, "width")) }},
		{"UnIndent", func(s cString, t *rapid.T) { s.UnIndent() }},
		{"Indent", func(s cString, t *rapid.T) { s.Indent(shortRich.Draw(t, "indent")) }},
		{"AddLineNumber", func(s cString, t *rapid.T) { s.AddLineNumber(small.Draw(t, "space")) }},
		{"Protect", func(s cString, t *rapid.T) { p, a := s.Protect(); p.RestoreProtected(a) }},
		{"Escape", func(s cString, t *rapid.T) { s.Escape() }},
		{"FieldsID", func(s cString, t *rapid.T) { s.FieldsID() }},
		{"Title", func(s cString, t *rapid.T) { s.Title() }},
		{"ParseBool", func(s cString, t *rapid.T) { s.ParseBool() }},
		{"Diff", func(s cString, t *rapid.T) { s.Diff(texts.Draw(t, "other")) }},
		{"Lines", func(s cString, t *rapid.T) { s.Lines().Sorted().Join("\n") }},
		{"RestoreProtected", func(s cString, t *rapid.T) {
			s.RestoreProtected(cString(texts.Draw(t, "other")).Lines())
		}},
		{"Split2", func(s cString, t *rapid.T) { collections.Split2(string(s), shortRich.Draw(t, "sep")) }},
		{"ScriptParts", func(s cString, t *rapid.T) { utils.ScriptParts(string(s)); utils.IsShebangScript(string(s)) }},
		{"Substitute", func(s cString, t *rapid.T) {
			utils.Substitute(string(s), utils.InitReplacers("/(a)(b)?/$2$1", "/(?m)^x.*$/d")...)
		}},
		{"IsExported", func(s cString, t *rapid.T) { collections.IsExported(string(s)) }},
		{"FormatList", func(s cString, t *rapid.T) { utils.FormatList(string(s), 1, "a", nil) }},
		{"GetLoremKind", func(s cString, t *rapid.T) { utils.GetLoremKind(string(s)) }},
		{"IsTerraformFile", func(s cString, t *rapid.T) { utils.IsTerraformFile(string(s)) }},
		{"JoinLines", func(s cString, t *rapid.T) { collections.JoinLines(collections.SplitLines(s)...) }},
		{"PrettyPrintStruct", func(s cString, t *rapid.T) { collections.PrettyPrintStruct(struct{ S string }{string(s)}) }},
	}
	check(t, "the text is not empty", 100000, 2000000, func(c *C) {
		s := cString(texts.Draw(c.T, "text"))
		call := calls[rapid.IntRange(0, 1<<20).Draw(c.T, "call")%len(calls)]
		c.NontrivialIf(s != "")
		c.Class(call.name)
		c.Case("%s %q", call.name, string(s))
		call.f(s, c.T)
	})
}
