package props

// C30: the function reference tells the truth.

import (
	"fmt"
	"io"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"testing"
	gotmpl "text/template"

	"github.com/Masterminds/sprig/v3"
	"github.com/coveooss/gotemplate/v3/template"
	"github.com/fatih/color"
	"pgregory.net/rapid"
)

// impure functions of the Sprig library: random, dependent of the time, of the environment, or slow
var sprigImpure = map[string]bool{"now": true, "ago": true, "uuidv4": true, "shuffle": true, "env": true, "expandenv": true, "getHostByName": true, "bcrypt": true, "htpasswd": true,
	"derivePassword": true, "encryptAES": true, "randInt": true, "randBytes": true, "date": true, "htmlDate": true, "dateInZone": true, "date_in_zone": true, "htmlDateInZone": true, "hello": true, "keys": true, "values": true}

func isImpure(name string) bool {
	return sprigImpure[name] || strings.HasPrefix(name, "rand") || strings.HasPrefix(name, "gen") || strings.HasPrefix(name, "build") || strings.HasPrefix(name, "must")
}

var sprigWords = []string{"", "a", "Hello World", "foo bar baz", "é日本", "10", "-3", "3.7", "0x1f", "a,b,c", "snake_case_word", "CamelCaseWord", "  padded  ", "a-b-c", "YWJj", "MFRGG===", "true", "1.2.3", "^1.2", ">=1.0.0, <2", "[a-z]+", "(o+)", "$1x", "http://user@host:80/p/q?x=1#f", "a/b/../c.txt", "2h45m", "2006-01-02", "2024-02-29", "{\"a\": [1, 2.5, null]}", "[1", "string", "int", "<b>&\"'", "line1\nline2"}

// sprigArg writes an argument for a parameter of the given type.
func sprigArg(c *C, p reflect.Type, containers bool) string {
	pick := func(list ...string) string { return rapid.SampledFrom(list).Draw(c.T, "argument") }
	text := func() string { return fmt.Sprintf("%q", pick(sprigWords...)) }
	number := func() string {
		return pick("0", "1", "2", "3", "-1", "7", "12", "100", "2.5", "-0.5", "\"4\"")
	}
	switch p.Kind() {
	case reflect.String:
		return text()
	case reflect.Int, reflect.Int64, reflect.Int32:
		return fmt.Sprint(rapid.IntRange(-3, 12).Draw(c.T, "int"))
	case reflect.Float64:
		return pick("0.5", "1.0", "2.25", "-3.5", "10.0")
	case reflect.Bool:
		return pick("true", "false")
	case reflect.Slice:
		if !containers {
			return ""
		}
		return "(list " + text() + " " + text() + " " + text() + ")"
	case reflect.Map:
		if !containers {
			return ""
		}
		return fmt.Sprintf("(dict %q %s %q %s)", "a", text(), pick("a", "b", "c"), number())
	case reflect.Interface:
		kinds := []string{"text", "text", "number", "bool", "nil"}
		if containers {
			kinds = append(kinds, "list", "list", "numbers", "dict", "dict")
		}
		switch pick(kinds...) {
		case "number":
			return number()
		case "bool":
			return pick("true", "false")
		case "nil":
			return "nil"
		case "list":
			return pick("(list)", "(list "+text()+")", "(list "+text()+" "+text()+" "+text()+")")
		case "numbers":
			return "(list " + number() + " " + number() + " " + number() + ")"
		case "dict":
			return pick("(dict)", fmt.Sprintf("(dict `a` %s)", text()), fmt.Sprintf("(dict `a` %s `b` (dict `a` %s))", number(), text()))
		}
		return text()
	}
	return ""
}

// With the Sprig functions alone, or in the full set for the names that are not redefined, a call gives what the library gives.
func TestC30_Sprig(t *testing.T) {
	functions := sprig.GenericFuncMap()
	var names []string
	for name := range functions {
		if !isImpure(name) {
			names = append(names, name)
		}
	}
	sort.Strings(names)
	std := gotmpl.New("std").Funcs(functions)
	groups := map[string]string{}
	var alone, full *template.Template
	check(t, "calls of every pure Sprig function with arguments drawn from its parameter types; a case is non-trivial when the library gives a value", 12000, 200000, func(c *C) {
		if alone == nil {
			useJSON()
			alone, _ = newTemplate(map[string]any{}, "", template.OptionsSet{template.Sprig: true, template.StrictErrorCheck: true, template.AcceptNoValue: true})
			o := template.DefaultOptions()
			o[template.StrictErrorCheck], o[template.AcceptNoValue], o[template.Razor] = true, true, false
			full, _ = newTemplate(map[string]any{}, "", o)
			for _, name := range names {
				groups[name], _ = full.ProcessContent(fmt.Sprintf("{{ (function %q).Group }}", name), "vp")
			}
		}
		name := rapid.SampledFrom(names).Draw(c.T, "name")
		f := reflect.TypeOf(functions[name])
		tpl := alone
		onlyScalars := strings.HasPrefix(groups[name], "Sprig ") && rapid.Bool().Draw(c.T, "full")
		if onlyScalars {
			switch f.Out(0).Kind() {
			case reflect.String, reflect.Int, reflect.Int64, reflect.Float64, reflect.Bool:
				tpl = full
			default:
				c.Skip()
			}
		}
		code := name
		for i := 0; i < f.NumIn(); i++ {
			p, count := f.In(i), 1
			if f.IsVariadic() && i == f.NumIn()-1 {
				p, count = p.Elem(), rapid.IntRange(0, 4).Draw(c.T, "more")
			}
			for ; count > 0; count-- {
				arg := sprigArg(c, p, !onlyScalars)
				if arg == "" {
					c.Skip() // no literal of that type (time, regular expression...)
				}
				code += " " + arg
			}
		}
		src := "{{ printf `%v|%T` (" + code + ") nil }}"
		c.Case("full=%v %s", onlyScalars, src)
		if strings.HasPrefix(code, "repeat 1") || strings.Contains(code, "until") && false {
			c.Skip()
		}
		var b strings.Builder
		wantErr := ""
		std2, err := std.Clone()
		if err == nil {
			if std2, err = std2.Parse(src); err == nil {
				err = std2.Execute(&b, map[string]any{})
			}
		}
		if err != nil {
			wantErr = err.Error()
		}
		c.NontrivialIf(wantErr == "")
		got, err := tpl.ProcessContent(src, "vp")
		if (err != nil) != (wantErr != "") || err == nil && got != b.String() {
			c.Fatalf("%s gives %q (%v), the library gives %q (%s)", src, got, err, b.String(), wantErr)
		}
		if tpl == full {
			c.Class("with the other functions")
		}
	})
}

type funcDoc struct {
	Name, RealName, Group, Description, Arguments, Signature string
	Aliases                                                  []string
	IsAlias                                                  bool
}

func lines(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool { return r == '\n' })
}

// reference asks the template for everything it says about its functions.
func reference(c *C, tpl *template.Template) (all []string, docs map[string]funcDoc) {
	render := func(code string) string {
		out, err := tpl.ProcessContent(code, "vp")
		if err != nil {
			c.Fatalf("%s: %v", code, err)
		}
		return out
	}
	all = lines(render("{{ range allFunctions }}{{ . }}\n{{ end }}"))
	docs = map[string]funcDoc{}
	for _, entry := range strings.Split(render("{{ range allFunctions }}{{ $f := function . }}{{ . }}\x01{{ $f.Name }}\x01{{ $f.RealName }}\x01{{ $f.Group }}\x01{{ $f.Description }}\x01{{ $f.Arguments }}\x01{{ $f.IsAlias }}\x01{{ $f.Signature }}\x01{{ range $f.Aliases }}{{ . }} {{ end }}\x02{{ end }}"), "\x02") {
		f := strings.Split(entry, "\x01")
		if len(f) < 9 {
			continue
		}
		docs[f[0]] = funcDoc{Name: f[1], RealName: f[2], Group: f[3], Description: f[4], Arguments: f[5], IsAlias: f[6] == "true", Signature: f[7], Aliases: strings.Fields(f[8])}
	}
	return
}

// addons that contain functions
var addons = []template.Options{template.Math, template.Sprig, template.Data, template.Logging, template.Utils, template.Net, template.OS, template.Git}

func withAddons(list ...template.Options) template.OptionsSet {
	o := template.OptionsSet{template.Runtime: true, template.StrictErrorCheck: true}
	for _, a := range list {
		o[a] = true
	}
	return o
}

var wrongNumber = regexp.MustCompile(`wrong number of args for \S+: want`)

// drawFunctions adds functions through the library.
func drawFunctions(c *C, tpl *template.Template) (docs map[string]funcDoc) {
	docs = map[string]funcDoc{}
	for i, n := 0, rapid.IntRange(1, 4).Draw(c.T, "added"); i < n; i++ {
		name := fmt.Sprintf("added%d", i)
		doc := funcDoc{Name: name, RealName: name, Group: rapid.SampledFrom([]string{"My group", "Other, http://x.y/z", "Mathematic"}).Draw(c.T, "group"), Description: rapid.SampledFrom([]string{"Does something Unheard.", "Returns xyzzy", ""}).Draw(c.T, "description")}
		for j := rapid.IntRange(0, 2).Draw(c.T, "aliases"); j > 0; j-- {
			doc.Aliases = append(doc.Aliases, fmt.Sprintf("%sAlias%d", name, j))
		}
		var f any
		switch rapid.IntRange(0, 3).Draw(c.T, "parameters") {
		case 0:
			f, doc.Arguments = func() string { return name }, ""
		case 1:
			f, doc.Arguments = func(a string, b ...int) string { return name }, "a string, b ...int"
		case 2:
			f, doc.Arguments = func(a any, b map[string]any) (string, error) { return name, nil }, "a interface{}, b map[string]interface{}"
		case 3:
			f, doc.Arguments = func(a ...any) string { return name }, "args ...interface{}"
		}
		o := template.FuncOptions{template.FuncHelp: map[string]string{name: doc.Description}, template.FuncAliases: map[string][]string{name: append([]string{}, doc.Aliases...)}}
		if strings.HasPrefix(doc.Arguments, "a ") {
			o[template.FuncArgs] = map[string][]string{name: {"a", "b"}}
		}
		tpl.AddFunctions(map[string]any{name: f}, doc.Group, o)
		docs[name] = doc
		for _, a := range doc.Aliases {
			d := doc
			d.Name, d.IsAlias = a, true
			docs[a] = d
		}
	}
	return
}

func TestC30_Names(t *testing.T) {
	single := map[template.Options][]string{}
	check(t, "random sets of addons, with functions added by the library; every case is non-trivial", 60, 1200, func(c *C) {
		color.NoColor = true
		useJSON()
		mask := rapid.IntRange(0, 1<<len(addons)-1).Draw(c.T, "addons")
		var chosen []template.Options
		for i, a := range addons {
			if mask>>i&1 == 1 {
				chosen = append(chosen, a)
			}
		}
		c.Nontrivial()
		tpl, err := newTemplate(map[string]any{}, "", withAddons(chosen...))
		if err != nil {
			c.Fatalf("%v", err)
		}
		added := drawFunctions(c, tpl)
		c.Case("%v %v", chosen, added)
		all, docs := reference(c, tpl)
		// The set of names is what each addon brings
		want := map[string]bool{}
		for name := range added {
			want[name] = true
		}
		for _, a := range append(chosen, template.Runtime) {
			if single[a] == nil {
				o, err := newTemplate(map[string]any{}, "", withAddons(a))
				if err != nil {
					c.Fatalf("%v", err)
				}
				out, err := o.ProcessContent("{{ range allFunctions }}{{ . }}\n{{ end }}", "vp")
				if err != nil {
					c.Fatalf("%v", err)
				}
				single[a] = lines(out)
			}
			for _, name := range single[a] {
				want[name] = true
			}
		}
		if !sort.StringsAreSorted(all) {
			c.Fatalf("the names are not sorted: %v", all)
		}
		if got := strings.Join(all, " "); got != strings.Join(sortedKeys(want), " ") {
			c.Fatalf("with %v: %s", chosen, firstDiff(got, strings.Join(sortedKeys(want), " ")))
		}
		out, err := tpl.ProcessContent("{{ range functions }}{{ . }}\n{{ end }}#{{ range aliases }}{{ . }}\n{{ end }}#{{ range categories }}{{ range .Functions }}{{ . }}\n{{ end }}{{ end }}", "vp")
		if err != nil {
			c.Fatalf("%v", err)
		}
		parts := strings.Split(out, "#")
		functions, aliases := lines(parts[0]), lines(parts[1])
		for i, list := range [][]string{append(append([]string{}, functions...), aliases...), lines(parts[2])} {
			sort.Strings(list)
			if got := strings.Join(list, " "); got != strings.Join(all, " ") {
				c.Fatalf("%s: %s", []string{"functions and aliases", "categories"}[i], firstDiff(got, strings.Join(all, " ")))
			}
		}
		isAlias := map[string]bool{}
		for _, a := range aliases {
			isAlias[a] = true
		}
		for _, name := range all {
			d := docs[name]
			if d.Name != name || d.IsAlias != isAlias[name] || d.IsAlias == (d.RealName == name) {
				c.Fatalf("%s is described by %+v", name, d)
			}
			if d.IsAlias {
				found := false
				for _, a := range d.Aliases {
					found = found || a == name
				}
				if !found {
					c.Fatalf("the alias %s is not in the aliases of %s: %v", name, d.RealName, d.Aliases)
				}
			}
			if !strings.HasPrefix(d.Signature, name+"("+d.Arguments+")") {
				c.Fatalf("the signature of %s is %q, its arguments %q", name, d.Signature, d.Arguments)
			}
		}
		for name, want := range added {
			got := docs[name]
			want.Signature = got.Signature
			if fmt.Sprint(got) != fmt.Sprint(want) {
				c.Fatalf("%s is described by %+v, not %+v", name, got, want)
			}
		}
		// Names listed are known by the parser, other names are not
		code := ""
		for _, name := range all {
			code += "{{ if false }}{{ $_ := " + name + " }}{{ end }}"
		}
		if out, err := tpl.ProcessContent(code, "vp"); err != nil || out != "" {
			c.Fatalf("not all the names are callable: %v", err)
		}
		for _, name := range []string{"unknownFunction", "Abs", all[rapid.IntRange(0, len(all)-1).Draw(c.T, "near")] + "_", "x"} {
			if want[name] {
				continue
			}
			if out, err := tpl.ProcessContent("{{ if false }}{{ "+name+" }}{{ end }}", "vp"); err == nil {
				c.Fatalf("%s is accepted (%q) but not listed", name, out)
			}
		}
		for _, a := range addons {
			if single[a] == nil {
				continue
			}
			for _, name := range single[a] {
				if want[name] {
					continue
				}
				if out, err := tpl.ProcessContent("{{ if false }}{{ "+name+" }}{{ end }}", "vp"); err == nil {
					c.Fatalf("%s of a disabled addon is accepted (%q)", name, out)
				}
				c.Class("refused name of another addon")
				break
			}
		}
	})
}

// The number of arguments that is documented is the one that is accepted.
func TestC30_Arguments(t *testing.T) {
	var tpl *template.Template
	var all []string
	var docs map[string]funcDoc
	check(t, "calls of any function or alias with 0 to 8 arguments, the first one stopping the execution; every case is non-trivial", 3000, 40000, func(c *C) {
		color.NoColor = true
		if tpl == nil {
			useJSON()
			tpl, _ = newTemplate(map[string]any{}, "", noRazorOptions())
			drawn := drawFunctions(c, tpl)
			_ = drawn
			all, docs = reference(c, tpl)
		}
		name := rapid.SampledFrom(all).Draw(c.T, "name")
		min, variadic := 0, false
		if args := docs[name].Arguments; args != "" {
			min = strings.Count(args, ",") + 1
			if variadic = strings.Contains(args, "..."); variadic {
				min--
			}
		}
		n := rapid.IntRange(0, 8).Draw(c.T, "n")
		if rapid.Bool().Draw(c.T, "near") {
			n = min + rapid.IntRange(-1, 1).Draw(c.T, "around")
		}
		accepted := n == min || variadic && n >= min
		if n < 0 || n == 0 && accepted {
			c.Skip() // nothing prevents the execution
		}
		if name == "and" || name == "or" {
			c.Skip() // evaluated by the engine itself
		}
		code := "{{ " + name
		for i := 0; i < n; i++ {
			code += ` (raise "stopped")`
		}
		code += " }}"
		c.Case("%s (%s)", code, docs[name].Arguments)
		c.Nontrivial()
		out, err := tpl.ProcessContent(code, "vp")
		if err == nil {
			c.Fatalf("%s gives %q", code, out)
		}
		wrong := wrongNumber.MatchString(err.Error())
		if !wrong && !strings.Contains(err.Error(), "stopped") {
			c.Fatalf("%s: %v", code, err)
		}
		if wrong == accepted {
			c.Fatalf("%s is documented as %s(%s): %v", code, name, docs[name].Arguments, err)
		}
		if accepted {
			c.Class("accepted")
		} else {
			c.Class("refused")
		}
	})
}

// The list of functions, with or without filters, shows what is documented.
func TestC30_List(t *testing.T) {
	check(t, "listings in the short or long form, by category or not, with or without aliases, with any number of filters; a case is non-trivial when something is listed", 250, 4000, func(c *C) {
		color.NoColor = true
		useJSON()
		tpl, err := newTemplate(map[string]any{}, "", noRazorOptions())
		if err != nil {
			c.Fatalf("%v", err)
		}
		drawFunctions(c, tpl)
		all, docs := reference(c, tpl)
		withAliases, long, byGroup := rapid.Bool().Draw(c.T, "all"), rapid.Bool().Draw(c.T, "long"), rapid.Bool().Draw(c.T, "category")
		var filters []string
		for i := rapid.IntRange(0, 3).Draw(c.T, "filters"); i > 0; i-- {
			name := rapid.SampledFrom(all).Draw(c.T, "name")
			filter := name
			switch rapid.IntRange(0, 5).Draw(c.T, "filter") {
			case 0:
				filter = strings.ToUpper(name)
			case 1:
				filter = name[:(len(name)+1)/2]
			case 2:
				filter = docs[name].Group
			case 3:
				if words := strings.Fields(docs[name].Description); len(words) > 0 {
					filter = rapid.SampledFrom(words).Draw(c.T, "word")
				}
			case 4:
				filter = "no such thing"
			}
			filters = append(filters, filter)
		}
		c.Case("all=%v long=%v category=%v %q", withAliases, long, byGroup, filters)

		want := map[string]string{} // name -> group
		for _, name := range all {
			d := docs[name]
			if d.IsAlias && !withAliases {
				continue
			}
			texts := append([]string{name}, d.Aliases...)
			if byGroup {
				texts = append(texts, d.Group)
			}
			if long {
				texts = append(texts, d.Description)
			}
			selected := len(filters) == 0
			for _, f := range filters {
				for _, text := range texts {
					selected = selected || strings.Contains(strings.ToLower(text), strings.ToLower(f))
				}
				// Filters are searched in the texts put one after the other
				selected = selected || strings.Contains(strings.ToLower(strings.Join(texts, " ")), strings.ToLower(f))
			}
			if selected {
				want[name] = ""
				if byGroup {
					want[name] = d.Group
				}
			}
		}
		c.NontrivialIf(len(want) > 0)

		var out strings.Builder
		defer setPrinters(printers())
		setPrinters(capture(&out))
		tpl.PrintFunctions(withAliases, long, byGroup, append([]string{}, filters...)...)

		titles := map[string]string{}
		if byGroup {
			for _, d := range docs {
				titles[strings.Join(strings.Fields(strings.Replace(d.Group, ",", " ", 1)), " ")] = d.Group
			}
		}
		got, group := map[string]string{}, ""
		var groups []string
		for _, line := range strings.Split(out.String(), "\n") {
			trimmed := strings.TrimSpace(line)
			if g, isTitle := titles[strings.Join(strings.Fields(strings.Replace(trimmed, ",", " ", 1)), " ")]; isTitle && trimmed != "" {
				group = g
				groups = append(groups, g)
				continue
			}
			if long {
				if open := strings.Index(line, "("); open > 0 && line[0] != ' ' && !strings.HasPrefix(line, "//") {
					name := line[:open]
					if d := docs[name]; strings.TrimSpace(line) != strings.TrimSpace(d.Signature) {
						c.Fatalf("line %q, the signature is %q", line, d.Signature)
					}
					if old, twice := got[name]; twice && old == group {
						c.Fatalf("%s is listed twice", name)
					}
					got[name] = group
				}
				continue
			}
			for _, name := range strings.Fields(line) {
				if old, twice := got[name]; twice {
					c.Fatalf("%s is listed twice (%s, %s)", name, old, group)
				}
				got[name] = group
			}
		}
		if long {
			// The detailed list shows the functions once, followed by their aliases
			expanded := map[string]string{}
			for name, group := range want {
				d := docs[name]
				expanded[d.RealName] = group
				if withAliases {
					for _, a := range docs[d.RealName].Aliases {
						if docs[a].IsAlias && docs[a].RealName == d.RealName {
							expanded[a] = group
						}
					}
				}
			}
			want = expanded
		}
		if !sort.StringsAreSorted(groups) {
			c.Fatalf("groups out of order: %q", groups)
		}
		for _, name := range sortedKeys(want) {
			if g, listed := got[name]; !listed || g != want[name] {
				c.Fatalf("%s is not listed in %q (but in %q: %v)\n%s", name, want[name], g, listed, out.String())
			}
		}
		for _, name := range sortedKeys(got) {
			if _, wanted := want[name]; !wanted {
				c.Fatalf("%s should not be listed", name)
			}
		}
	})
}

type printer = func(...any) (int, error)

func printers() [3]printer {
	return [3]printer{template.Print, template.Printf, template.Println}
}

func setPrinters(p [3]printer) { template.Print, template.Printf, template.Println = p[0], p[1], p[2] }

func capture(out io.Writer) [3]printer {
	return [3]printer{
		func(args ...any) (int, error) { return fmt.Fprint(out, args...) },
		func(args ...any) (int, error) { return fmt.Fprintf(out, fmt.Sprint(args[0]), args[1:]...) },
		func(args ...any) (int, error) { return fmt.Fprintln(out, args...) },
	}
}
