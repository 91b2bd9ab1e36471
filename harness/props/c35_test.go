package props

// C35: what is set on a template object applies to every later rendering, as if it had been set from the start.

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/coveooss/gotemplate/v3/template"
	"pgregory.net/rapid"
)

var c35Frags = []string{"{{ .a }}", "@a;", "{{ .b }}", "@b;", "@(a)", "{{ .c.x }}", "@c.x;", "{{ .missing }}", "{{ include \"{{ .a }}-@b;\" }}", "{{ include \"{{ .missing }}\" }}", "{{ f1 1 }}", "@f1(2);", "{{ f2 }}", "{{ include \"{{ f1 3 }}\" }}",
	"{{ if .t }}yes{{ else }}no{{ end }}", "{{ toJson . }}", "text", "joe@x.com", "@media x", "@@", "{{ $x := .a }}{{ $x }}", "{{ set . \"a\" \"changed\" }}", "@a = \"other\"", "{{ with .c }}{{ if isDict . }}{{ set . \"x\" \"deep\" }}{{ end }}{{ end }}", "{{ len .l }}", "@l[0];",
	"{{ range .l }}<{{ . }}>{{ end }}", "{{ ellipsis \"f1\" (list 4) }}", "{{ exec \"echo x\" }}", "{{ alias \"al\" \"f1\" }}", "{{ (userContext | toJson) }}", "{{ undef 1 .b }}", "{{ include \"{{ include `{{ f1 5 }} @b; {{ .missing }}` }}\" }}", "{{ include \"lib/inner\" }}", "{{ include \"lib/inner\" }}", "{{ include \"inner\" }}", "{{ typeOf .c }}"}

// faulty are the ones that always fail
var c35Faulty = []string{"{{ if }}", "{{ div 1 0 }}", "{{ raise \"bad\" }}", "{{ unknown 1 }}"}

type c35Settings struct {
	ctx     map[string]any
	options map[template.Options]bool
	ignored []string
	f1, f2  int
}

func (s *c35Settings) functions(t *template.Template, n int) {
	funcs := map[string]any{}
	if n == 1 {
		v := s.f1
		funcs["f1"] = func(x any) string { return fmt.Sprintf("f1.%d(%v)", v, x) }
	} else {
		v := s.f2
		funcs["f2"] = func() string { return fmt.Sprintf("f2.%d", v) }
	}
	t.AddFunctions(funcs, "User", template.FuncOptions{template.FuncAliases: map[string][]string{"f1": {"f1alias"}}})
}

func TestC35_Settings(t *testing.T) {
	// folders with templates including each other
	for name, content := range map[string]string{"c35/inner": "outer {{ .a }} {{ f2 }}", "c35/lib/inner": "inner {{ .a }} @b; {{ f1 6 }} {{ include \"lib/deep/inner\" }}", "c35/lib/deep/inner": "deep {{ .b }} @media {{ f1 7 }}{{ f2 }} {{ .missing }}"} {
		file := filepath.Join(filepath.Dir(emptyDir), name)
		os.MkdirAll(filepath.Dir(file), 0o755)
		if err := os.WriteFile(file, []byte(content), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	folders := filepath.Join(filepath.Dir(emptyDir), "c35")
	check(t, "a setting is changed between two renderings", 1200, 12000, func(c *C) {
		fl := drawFlavour(c, "flavour")
		fl.use()
		defer useJSON()
		s := &c35Settings{ctx: map[string]any{}, options: map[template.Options]bool{}}
		value := func() any {
			return rapid.SampledFrom([]any{1, "text", true, "é", 2.5, []any{1, "x"}, map[string]any{"x": 1}, map[string]any{"y": []any{}}, "", 0}).Draw(c.T, "value")
		}
		key := func() string { return rapid.SampledFrom([]string{"a", "b", "c", "t", "l", "missing"}).Draw(c.T, "key") }
		for n := rapid.IntRange(0, 4).Draw(c.T, "keys"); n > 0; n-- {
			s.ctx[key()] = value()
		}
		create := func() *template.Template {
			o := template.DefaultOptions()
			for k, v := range s.options {
				o[k] = v
			}
			tpl, err := newTemplate(fl.dict.AsDictionary(deepCopy(s.ctx)), "", o)
			if err != nil {
				c.Fatalf("%v", err)
			}
			tpl.IgnoreRazorExpression(append([]string{}, s.ignored...)...)
			if s.f1 > 0 {
				s.functions(tpl, 1)
			}
			if s.f2 > 0 {
				s.functions(tpl, 2)
			}
			return tpl
		}
		c.Case("%s context %s", fl.name, show(s.ctx))
		tpl := create()
		rendered, changed := false, false
		for n := rapid.IntRange(2, 9).Draw(c.T, "steps"); n > 0; n-- {
			op := rapid.SampledFrom([]string{"render", "render", "render", "render", "add", "merge", "set", "option", "option", "ignore", "append", "f1", "f2", "child"}).Draw(c.T, "op")
			if op != "render" && rendered {
				changed = true
			}
			switch op {
			case "add":
				k, v := key(), value()
				c.Step("Add(%q, %s)", k, show(v))
				tpl.Add(k, deepCopy(v))
				switch current, ok := s.ctx[k]; {
				case !ok:
					s.ctx[k] = v
				default:
					if l, ok := current.([]any); ok {
						s.ctx[k] = append(append([]any{}, l...), v)
					} else {
						s.ctx[k] = []any{current, v}
					}
				}
			case "merge":
				m := map[string]any{}
				for n := rapid.IntRange(0, 2).Draw(c.T, "merged"); n >= 0; n-- {
					m[key()] = value()
				}
				c.Step("Merge(%s)", show(m))
				tpl.Merge(deepCopy(m))
				s.ctx = mergeModel(s.ctx, m)
			case "set":
				k, v := key(), value()
				c.Step("Context().Set(%q, %s)", k, show(v))
				tpl.Context().Set(k, deepCopy(v))
				s.ctx[k] = v
			case "option":
				o := rapid.SampledFrom([]template.Options{template.StrictErrorCheck, template.AcceptNoValue, template.Razor, template.RenderingDisabled}).Draw(c.T, "option")
				v := rapid.Bool().Draw(c.T, "on")
				if o == template.RenderingDisabled && v {
					v = rapid.IntRange(0, 3).Draw(c.T, "really") == 0
				}
				c.Step("SetOption(%v, %v)", o, v)
				tpl.SetOption(o, v)
				s.options[o] = v
			case "ignore", "append":
				names := rapid.SliceOfN(rapid.SampledFrom([]string{"media", "a", "b", "x.*", "l"}), 0, 2).Draw(c.T, "names")
				c.Step("%s(%q)", op, names)
				if op == "ignore" {
					tpl.IgnoreRazorExpression(append([]string{}, names...)...)
					s.ignored = names
				} else {
					tpl.AppendIgnoreRazorExpression(append([]string{}, names...)...)
					s.ignored = append(append([]string{}, names...), s.ignored...)
				}
				if got := tpl.GetIgnoredRazorExpressions(); strings.Join(got, ",") != strings.Join(s.ignored, ",") {
					c.Fatalf("ignored %q instead of %q", got, s.ignored)
				}
			case "f1":
				s.f1++
				c.Step("AddFunctions(f1) version %d", s.f1)
				s.functions(tpl, 1)
			case "f2":
				s.f2++
				c.Step("AddFunctions(f2) version %d", s.f2)
				s.functions(tpl, 2)
			case "child":
				// what is done with another context does not matter
				c.Step("other context")
				child := tpl.GetNewContext("", false)
				child.SetOption(template.StrictErrorCheck, true)
				child.SetOption(template.Razor, !s.options[template.Razor])
				child.AppendIgnoreRazorExpression("a")
				child.ProcessContent("{{ .a }}{{ $.b }}", "vp")
			case "render":
				src := strings.Join(rapid.SliceOfN(rapid.SampledFrom(c35Frags), 1, 4).Draw(c.T, "content"), rapid.SampledFrom([]string{"\n", " "}).Draw(c.T, "separator"))
				if rapid.IntRange(0, 9).Draw(c.T, "faulty") == 9 {
					src += "\n" + rapid.SampledFrom(c35Faulty).Draw(c.T, "fault")
				}
				source := rapid.SampledFrom([]string{"vp", "vp.gt", "sub/vp", filepath.Join(emptyDir, "vp"), ".", filepath.Join(folders, "vp"), filepath.Join(folders, "vp"), filepath.Join(folders, "lib", "vp")}).Draw(c.T, "source")
				c.Step("render %q as %s", src, source)
				want, wantErr := create().ProcessContent(src, source)
				got, err := tpl.ProcessContent(src, source)
				if err == nil && got != want || fmt.Sprint(err) != fmt.Sprint(wantErr) {
					c.Fatalf("error %v, expected %v\n%s", err, wantErr, firstDiff(got, want))
				}
				if a, b := tpl.IsCode(src), create().IsCode(src); a != b {
					c.Fatalf("IsCode %v instead of %v", a, b)
				}
				rendered = true
				c.ClassIf(err != nil, "error")
			}
		}
		c.NontrivialIf(changed)
	})
}
