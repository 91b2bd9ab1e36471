package props

import (
	"fmt"

	"strings"
	"testing"

	"github.com/coveooss/gotemplate/v3/template"
	"pgregory.net/rapid"
)

// C18: errors are all or nothing. A document is generated from fragments whose rendering is known, in which faults
// are injected: some are active, others are not reached.

type c18Frag struct {
	src, want string
	fault     string // "", parse, exec or undef
	balance   bool   // the fault changes the balance of the blocks
}

var c18Good = []c18Frag{
	{src: "word", want: "word"}, {src: "aa joe-text bb", want: "aa joe-text bb"}, {src: "été 100% done", want: "été 100% done"}, {src: "", want: ""}, {src: "    indented", want: "    indented"},
	{src: "{{ .name }}", want: "Joe"}, {src: "@name", want: "Joe"}, {src: "@(1 + 2)", want: "3"}, {src: "<{{ upper .name }}>", want: "<JOE>"}, {src: "@cfg.key;", want: "val"},
	{src: "{{ $x := 3 }}{{ $x }}", want: "3"}, {src: "{{ range .l }}[{{ . }}]{{ end }}", want: "[10][20]"}, {src: "@foreach($v := l)<@{v}>@end", want: "<10><20>"},
	{src: "{{/* {{ raise }} */}}", want: ""}, {src: "{{ include \"a{{ .name }}\" }}", want: "aJoe"}, {src: "{{ include \"<{{ .z }}>\" (dict \"z\" 5) }}", want: "<5>"}, {src: "@@name", want: "@name"}, {src: "joe@x.com", want: "joe@x.com"},
	{src: "{{ `a\nb` }}", want: "a\nb"}, {src: "{{ nindent 2 \"x\" }}", want: "\n  x"},
	{src: "{{ printf \"%s\"\n   \"xyz\" }}", want: "xyz"},
}

// fragments close to an error, but which are not
var c18Dormant = []c18Frag{
	{src: "{{ if .f }}{{ raise \"never\" }}{{ end }}x", want: "x"}, {src: "{{ if not .f }}y{{ else }}{{ .missing }}{{ end }}", want: "y"}, {src: "{{ range .empty }}{{ index . 9 }}{{ else }}none{{ end }}", want: "none"},
	{src: "@if (f) @raise(\"never\") @end x", want: "x"}, {src: "{{ default \"dft\" .missing }}", want: "dft"}, {src: "{{ ifUndef \"dft\" .missing }}", want: "dft"}, {src: "@default(\"dft\", missing);", want: "dft"},
	{src: "{{ if .missing }}a{{ else }}b{{ end }}", want: "b"}, {src: "{{ with .missing.sub }}a{{ else }}b{{ end }}", want: "b"}, {src: "{{ coalesce .missing .name }}", want: "Joe"}, {src: "{{ isNil .missing }}", want: "true"}, {src: "{{ isEmpty .missing }}", want: "true"},
	{src: "<no value>", want: "<no value>"}, {src: "x <nil> y", want: "x <nil> y"}, {src: "{{ \"<no value>\" }}", want: "<no value>"}, {src: "{{ upper \"a\" }} <no value> <nil>", want: "A <no value> <nil>"}, {src: "\"<RUN_ERROR>\"", want: "\"<RUN_ERROR>\""},
	{src: "<nil> <no value> {{ .name }}<nil><no value>", want: "<nil> <no value> Joe<nil><no value>"}, {src: "{{ print \"<nil>\" `<nil>` }}", want: "<nil><nil>"}, {src: "<nil>,<nil>,<nil>", want: "<nil>,<nil>,<nil>"},
	{src: "{{ \"<RUN_ERROR>\" }}", want: "<RUN_ERROR>"}, {src: "ERROR contains undefined value(s)", want: "ERROR contains undefined value(s)"}, {src: "{{ \"template: vp:1:2: executing\" }}", want: "template: vp:1:2: executing"},
	{src: "{{ define \"dormant\" }}{{ raise \"never\" }}{{ end }}d", want: "d"}, {src: "{{ $u := .missing }}u", want: "u"}, {src: "{{ and .f (raise \"never\") }}", want: "false"}, {src: "{{ or .t (raise \"never\") }}", want: "true"},
	{src: "# gotemplate-pause!\n{{ raise \"never\" }} {{ bad @x }}\n{{ end }}\n# gotemplate-resume!", want: "# gotemplate-pause!\n{{ raise \"never\" }} {{ bad @x }}\n{{ end }}\n# gotemplate-resume!"},
	{src: "{{ assert true \"ok\" }}", want: ""}, {src: "{{ print .cfg.key | eq \"val\" }}", want: "true"}, {src: "@# @raise(\"never\")", want: ""},
}

var c18Messages = []string{"oops", "contains undefined value(s)", "template: vp:1:2: executing \"vp\" at <x>: y", "<no value>", "a\nb", "map has no entry for key \"x\"", "100% of %s", "template: other:99999: x", "été", "<RUN_ERROR>", "", "template: vp:1: unclosed action started at vp:1"}

func c18Faults(t *rapid.T) c18Frag {
	msg := fmt.Sprintf("%q", rapid.SampledFrom(c18Messages).Draw(t, "message"))
	return rapid.SampledFrom([]c18Frag{
		{src: "{{ }}", fault: "parse"}, {src: "{{ if }}x{{ end }}", fault: "parse"}, {src: "{{ end }}", fault: "parse", balance: true}, {src: "{{ else }}", fault: "parse", balance: true}, {src: "{{ if .t }}", fault: "parse", balance: true},
		{src: "{{ range .l }}", fault: "parse", balance: true}, {src: "@end", fault: "parse", balance: true}, {src: "@if (t) x", fault: "parse", balance: true}, {src: "{{ unknownFunction 1 }}", fault: "parse"}, {src: "@unknownFunction(1);", fault: "parse"},
		{src: "{{ $undefined }}", fault: "parse"}, {src: "{{ \"not closed }}", fault: "parse"}, {src: "{{ 1 2 ) }}", fault: "parse"}, {src: "{{ ( 1 }}", fault: "parse"}, {src: "{{ .name | | upper }}", fault: "parse"},
		{src: "{{ 'ab' }}", fault: "parse"}, {src: "{{ 0x }}", fault: "parse"}, {src: "{{ template }}", fault: "parse"}, {src: "{{ \"<RUN_ERROR>\" }} {{ unknownFunction }}", fault: "parse"}, {src: "@(1 +)", fault: "parse"},
		{src: "{{ raise " + msg + " }}", fault: "exec"}, {src: "@raise(" + msg + ");", fault: "exec"}, {src: "before {{ assert false " + msg + " }} after", fault: "exec"}, {src: "{{ index .l 9 }}", fault: "exec"}, {src: "@(1 / 0)", fault: "exec"},
		{src: "{{ template \"unknown\" }}", fault: "exec"}, {src: "{{ .name.sub }}", fault: "exec"}, {src: "{{ sub \"a\" 1 }}", fault: "exec"}, {src: "{{ include \"{{ raise \\\"in\\\" }}\" }}", fault: "exec"}, {src: "{{ include \"{{ bad\" }}", fault: "exec"},
		{src: "{{ upper 1 2 3 }}", fault: "exec"}, {src: "{{ range .l }}{{ raise " + msg + " }}{{ end }}", fault: "exec"}, {src: "{{ define \"bad\" }}{{ raise " + msg + " }}{{ end }}{{ template \"bad\" }}", fault: "exec"}, {src: "{{ call .name }}", fault: "exec"},
		{src: "\"<RUN_ERROR>\" {{ raise " + msg + " }}", fault: "exec"}, {src: "{{ raise \"<RUN_ERROR>\" | print \"<no value>\" }}", fault: "exec"}, {src: "{{ range .l }}\n{{ if eq . 20 }}\n{{ index .l 3 }}\n{{ end }}\n{{ end }}", fault: "exec"}, {src: "{{ ERROR }}", fault: "parse"},
		{src: "{{ fail " + msg + " }}", fault: "exec"}, {src: "{{ (index .l 7) | print \"<no value>\" }}", fault: "exec"}, {src: "{{ with .cfg }}{{ .key.other }}{{ end }}", fault: "exec"}, {src: "{{ slice .name 10 }}{{ raise \"\" }}", fault: "exec"}, {src: "{{ and .t (raise " + msg + ") }}", fault: "exec"},
		{src: "{{ .missing }}", want: "<no value>", fault: "undef"}, {src: "@missing;", want: "<no value>", fault: "undef"}, {src: "{{ .cfg.missing }}", want: "<no value>", fault: "undef"}, {src: "a @(.cfg.missing) b", want: "a <no value> b", fault: "undef"}, {src: "{{ print .missing }}", want: "<nil>", fault: "undef"},
		{src: "{{ list .missing }}", want: "[<nil>]", fault: "undef"}, {src: "{{ with .cfg }}{{ .nothing }}{{ end }}", want: "<no value>", fault: "undef"}, {src: "{{ range .l }}{{ $.missing }}{{ end }}", want: "<no value><no value>", fault: "undef"}, {src: "{{ printf \"%v\" .missing }}", want: "<nil>", fault: "undef"},
		{src: "<no value> {{ .missing }} <nil>", want: "<no value> <no value> <nil>", fault: "undef"}, {src: "{{ get .cfg \"missing\" }}", want: "<no value>", fault: "undef"}, {src: "{{ print .l nil .missing }}", want: "[10 20] <nil> <nil>", fault: "undef"},
	}).Draw(t, "fault")
}

var c18Sources = []struct {
	name   string
	strict bool
}{{"vp", false}, {"", false}, {"vp", false}, {"a.gt", true}, {"dir.x/b.template", true}, {"c.gte", true}, {"a.g", false}, {"a.t", false}, {"a.temp", false}, {"a.late", false}, {"a.te", false}, {"x.gt.txt", false}, {"a.template.yml", false}, {"dot.", false}, {"gt", false}, {"template", false}, {"x.gtx", false}, {"x.tgt", false}, {"x.yaml", false}, {"a,.gt", true}, {"inline", false}, {"x.GT", false}}

func TestC18_Documents(t *testing.T) {
	eng := engines{}
	subst := engines{}
	check(t, "the document has an active fault, or a fragment close to an error", 6000, 200000, func(c *C) {
		frags := c18Doc(c, 0, new(bool), new(bool))
		opts := rapid.SampledFrom([]string{"", "", "strict", "strict", "acceptno", "strict acceptno"}).Draw(c.T, "options")
		source := rapid.SampledFrom(c18Sources).Draw(c.T, "source")
		marker := rapid.IntRange(0, 5).Draw(c.T, "marker") == 0
		if marker {
			line := rapid.SampledFrom([]string{"# force-gotemplate!", "{{/* force-gotemplate! */}}", "x force-gotemplate! {{ 1 }}", "@# force-gotemplate!"}).Draw(c.T, "marker line")
			f := c18Frag{src: line + "\n", want: line + "\n"}
			switch line[0] {
			case '{', '@':
				f.want = "\n"
			case 'x':
				f.want = "x force-gotemplate! 1\n"
			}
			if rapid.Bool().Draw(c.T, "marker first") {
				frags = append([]c18Frag{f}, frags...)
			} else {
				frags = append(frags, f)
			}
		}
		var src, want string
		count := map[string]int{}
		for _, f := range frags {
			src += f.src
			want += f.want
			if f.fault != "" {
				count[f.fault]++
			}
		}
		if reserved.MatchString(src) {
			c.Skip()
		}
		strict := marker || source.strict || strings.Contains(opts, "strict")
		accept := strings.Contains(opts, "acceptno")
		failed := count["parse"]+count["exec"] > 0 || count["undef"] > 0 && !accept
		c.Case("options=%q source=%q\n%s", opts, source.name, src)
		c.ClassIf(failed && strict, "error expected")
		c.ClassIf(failed && !strict, "left unchanged")
		c.ClassIf(!failed && count["undef"] > 0, "undefined accepted")
		c.ClassIf(count["parse"] > 0, "parse")
		c.ClassIf(count["exec"] > 0 && count["parse"] == 0, "execution")
		c.NontrivialIf(failed || count["dormant"] > 0 || count["undef"] > 0)
		var tpl *template.Template
		withSubst := rapid.IntRange(0, 3).Draw(c.T, "substitution") == 0
		if withSubst {
			o := template.DefaultOptions()
			o[template.StrictErrorCheck], o[template.AcceptNoValue] = strings.Contains(opts, "strict"), accept
			if subst[engineKey{"", opts}] == nil {
				subst[engineKey{"", opts}], _ = newTemplate(c13Context18(), "", o, "/joe-text/sub", "/(wo)rd/<$1>")
			}
			tpl = subst[engineKey{"", opts}]
			want = strings.ReplaceAll(strings.ReplaceAll(want, "joe-text", "sub"), "word", "<wo>")
		} else {
			tpl = eng.get(c, "", opts, c13Context18())
		}
		got, err := tpl.ProcessContent(src, source.name)
		switch {
		case failed && strict:
			if err == nil {
				c.Fatalf("no error in strict mode, got %q", got)
			}
			if strings.TrimSpace(err.Error()) == "" {
				c.Fatalf("error without text")
			}
		case failed:
			if err != nil || got != src {
				c.Fatalf("the content is not left unchanged: error %v, %s", err, firstDiff(got, src))
			}
		case err != nil || got != want:
			c.Fatalf("error %v, %s", err, firstDiff(got, want))
		}
	})
}

func c13Context18() map[string]any {
	return map[string]any{"name": "Joe", "t": true, "f": false, "cfg": map[string]any{"key": "val"}, "l": []any{10, 20}, "empty": []any{}}
}

// c18Doc generates a document, faults are active
func c18Doc(c *C, depth int, balance, defined *bool) (result []c18Frag) {
	for n := rapid.IntRange(1, 5-depth).Draw(c.T, "fragments"); n > 0; n-- {
		var f c18Frag
		switch k := rapid.IntRange(0, 9).Draw(c.T, "kind"); {
		case k < 4:
			f = rapid.SampledFrom(c18Good).Draw(c.T, "good")
		case k < 6:
			f = rapid.SampledFrom(c18Dormant).Draw(c.T, "dormant")
			f.fault = "dormant"
		case k < 8 && depth < 2:
			// a block
			on := rapid.Bool().Draw(c.T, "reached")
			inner := c18Doc(c, depth+1, balance, defined)
			open, end := map[bool]string{true: "{{ if .t }}", false: "{{ if .f }}"}[on], "{{ end }}"
			if rapid.IntRange(0, 3).Draw(c.T, "range") == 0 {
				open = map[bool]string{true: "{{ range $i, $v := until 1 }}{{ with $ }}", false: "{{ range $.empty }}{{ with $ }}"}[on]
				end = "{{ end }}{{ end }}"
			}
			result = append(result, c18Frag{src: open + "\n", want: map[bool]string{true: "\n"}[on]})
			for _, f := range inner {
				if !on {
					f.want = ""
					if f.fault != "" && f.fault != "parse" {
						f.fault = "dormant"
					}
				}
				result = append(result, f)
			}
			result = append(result, c18Frag{src: end + "\n", want: "\n"})
			continue
		default:
			f = c18Faults(c.T)
			if f.balance && *balance || f.balance && depth > 0 && strings.Contains(f.src, "else") {
				continue
			}
			*balance = *balance || f.balance
		}
		if strings.Contains(f.src, "define") {
			if depth > 0 || *defined {
				continue // only accepted at the top level, once
			}
			*defined = true
		}
		result = append(result, c18Frag{src: f.src + "\n", want: f.want + "\n", fault: f.fault, balance: f.balance})
	}
	return
}

// Many errors in the same content
func TestC18_Many(t *testing.T) {
	check(t, "the content has more than ten errors", 12, 60, func(c *C) {
		n := rapid.IntRange(1, 60).Draw(c.T, "faults")
		if rapid.IntRange(0, 11).Draw(c.T, "huge") == 0 {
			n = 1100
		}
		line := c18Faults(c.T)
		strict := rapid.Bool().Draw(c.T, "strict")
		src := strings.Repeat(line.src+"\nword\n", n)
		c.Case("%d times %q strict=%v", n, line.src, strict)
		c.NontrivialIf(n > 10)
		o := template.DefaultOptions()
		o[template.StrictErrorCheck] = strict
		tpl, _ := newTemplate(c13Context18(), "", o)
		got, err := tpl.ProcessContent(src, "vp")
		if strict && err == nil {
			c.Fatalf("no error in strict mode")
		}
		if !strict && (err != nil || got != src) {
			c.Fatalf("content not left unchanged: %v", err)
		}
	})
}
