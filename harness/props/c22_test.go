package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/template"
	"pgregory.net/rapid"
)

// C22: the executable compared with the library.

var c22Frags = []string{"{{ add 4 5 }}", "@(1 + 2)", "{{ trim \"  a \" }}", "{{ toJson .l }}", "{{ toPrettyYaml .cfg }}", "{{ id \"a b-c\" }}", "{{ include \"x{{ .name }}\" }}", "@include(\"y\");",
	"@name", "{{ .name }}", "@cfg.key;", "joe@x.com", "@@x", "   ", "", "\t", "word", "aa bb", "[[ .name ]]", "§name", "@media (max: 3)", "@import x", "{{ .missing }}", "@missing;", "{{ autoWrap }}",
	"{{ $x := 1 }}{{ $x = 2 }}{{ $x }}", "@v := 3\n@{v}", "{{ set . \"z\" 1 }}{{ .z }}", "@z = 2\n@z", "{{ list 1 \"a\" | join \"-\" }}", "{{ data \"a: 1\" }}", "{{ .cfg }} {{ .l }}", "{{ cfg }}", "{{ typeOf .cfg }}", "{{ debug \"x\" }}", "{{ isFile \"none\" }}", "{{ lookPath \"nonexistent-xyz\" }}",
	"{{ color \"green\" \"x\" }}", "{{ splitLines \"a\\nb\" }}", "{{ upper (printf \"%s!\" .name) }}", "{{ raise \"oops\" }}", "{{ fail \"oops\" }}", "{{ if .t }}yes{{ end }}", "{{ if }}", "# force-gotemplate!", "{{ sqrt 16 }}", "{{ `\"!Q!12!Q!\"` }}", "\"!Q!x y!Q!\"", "#!", "{{ ternary 1 2 .t }}", "{{ func \"f\" \"exec\" \"echo\" (dict) }}"}

type c22Item struct {
	kind, name, content string
}

var c22Addons = []string{"razor", "extension", "math", "sprig", "data", "logging", "runtime", "utils", "net", "os", "git"}

func TestC22_Differential(t *testing.T) {
	base, _ := filepath.EvalSymlinks(filepath.Dir(emptyDir))
	base = filepath.Join(base, "c22")
	os.MkdirAll(base, 0755)
	defer os.RemoveAll(base)
	check(t, "options other than the default or several contents", 1200, 30000, func(c *C) {
		emptyFolder(base)
		context := c13Context18()
		os.WriteFile(filepath.Join(base, "context.json"), []byte(jsonText(context)), 0644)
		os.Mkdir(filepath.Join(base, "out"), 0755)
		c.Case("")
		// Options
		args := []string{rapid.SampledFrom([]string{"--import=context.json", "--import-if-exist=context.json"}).Draw(c.T, "import")}
		var env, substitutes, ignored []string
		options := template.DefaultOptions()
		delims := ""
		on := func(label string, n int) bool { return rapid.IntRange(0, n).Draw(c.T, label) == 0 }
		if on("base", 5) {
			args = append(args, "--base")
			options = template.OptionsSet{}
		}
		if on("addons", 2) {
			for _, i := range rapid.SliceOfNDistinct(rapid.IntRange(0, len(c22Addons)-1), 1, 4, rapid.ID[int]).Draw(c.T, "which") {
				value := rapid.IntRange(0, 2).Draw(c.T, "on") == 0
				options[template.Options(i)] = value
				args = append(args, map[bool]string{true: "--", false: "--no-"}[value]+c22Addons[i])
			}
		}
		if on("delimiters", 4) {
			delims = rapid.SampledFrom([]string{"[[,]]", "[[,]],§", ",,§", "<%,%>,€", "{{,}},@", "@{,}@,§"}).Draw(c.T, "delims")
			if rapid.Bool().Draw(c.T, "separate") {
				args = append(args, "--delimiters", delims)
			} else {
				args = append(args, rapid.SampledFrom([]string{"--del=", "--delimiters="}).Draw(c.T, "option")+delims)
			}
		}
		if on("substitutes", 3) {
			for _, s := range rapid.SliceOfN(rapid.SampledFrom([]string{"/word/text", "@(a+)@<$1>", "!^\\s*x!y", "/Joe/Jack/", "/[0-9]+/d", "/^word$/d", "/name/cfg", " /a/b/ ", "/^word$/ ", "/word/", "@word@", "/Joe/", "/^Joe$/ "}), 1, 3).Draw(c.T, "substitutions") {
				if on("wrong", 30) {
					s = rapid.SampledFrom([]string{"", "abc", "/a", "/(/b", "//b"}).Draw(c.T, "bad")
				}
				substitutes = append(substitutes, s)
				if rapid.Bool().Draw(c.T, "short") {
					args = append(args, "-s", s)
				} else {
					args = append(args, "--substitute="+s)
				}
			}
		}
		if on("empty lines", 3) {
			args = append(args, rapid.SampledFrom([]string{"-E", "--remove-empty-lines", "--remove-empty"}).Draw(c.T, "option"))
			substitutes = append(substitutes, `/^\s*$/d`)
		}
		if on("disable", 6) {
			args = append(args, rapid.SampledFrom([]string{"-d", "--disable"}).Draw(c.T, "option"))
			options[template.RenderingDisabled] = true
		}
		if on("no value", 3) {
			switch rapid.IntRange(0, 2).Draw(c.T, "how") {
			case 0:
				args = append(args, "--no-value")
			case 1:
				args = append(args, "--accept-no-value")
			default:
				env = append(env, "GOTEMPLATE_NO_VALUE=1")
			}
			options[template.AcceptNoValue] = true
		}
		if on("strict", 3) {
			switch rapid.IntRange(0, 2).Draw(c.T, "how") {
			case 0:
				args = append(args, "-S")
			case 1:
				args = append(args, "--strict")
			default:
				env = append(env, "GOTEMPLATE_STRICT_ERROR=1")
			}
			options[template.StrictErrorCheck] = true
		}
		if on("ignored", 4) {
			ignored = rapid.SliceOfN(rapid.SampledFrom([]string{"media", "import", "na.*", "cfg.key"}), 1, 2).Draw(c.T, "names")
			for _, s := range ignored {
				args = append(args, "--ignore-razor="+s)
			}
		}
		mode := template.AssignationValidationWarning
		if on("assignations", 3) {
			switch v := rapid.SampledFrom([]string{"on", "off", "warning"}).Draw(c.T, "assign"); v {
			case "on":
				mode = template.AssignationValidationStrict
				fallthrough
			default:
				if v == "off" {
					mode = template.AssignationValidationDisabled
				}
				args = append(args, "--strict-assignations-validation="+v)
			}
		}
		flavour := flavours[1]
		if on("typed", 4) {
			v := rapid.SampledFrom([]string{"json", "yaml", "hcl"}).Draw(c.T, "type")
			flavour = flavours[map[string]int{"json": 1, "yaml": 2, "hcl": 3}[v]]
			args = append(args, "-t", v)
		}
		if on("log", 4) {
			args = append(args, rapid.SampledFrom([]string{"--color", "-L", "--template-log-level=error", "--no-color"}).Draw(c.T, "log"))
			switch args[len(args)-1] {
			case "-L":
				args = append(args, rapid.SampledFrom([]string{"debug", "error", "trace"}).Draw(c.T, "level"))
			case "--color":
				args[len(args)-1] = "--no-color" // the text would have colors
			}
		}
		target := on("target", 2)
		if target {
			args = append(args, "--target=out", "-o")
		} else {
			args = append(args, rapid.SampledFrom([]string{"-P", "--print"}).Draw(c.T, "option"))
			options[template.OutputStdout] = true
		}
		options[template.Overwrite] = target
		// Contents
		replace := strings.NewReplacer()
		if d := strings.Split(delims+",,", ","); delims != "" {
			pairs := []string{}
			for i, old := range []string{"{{", "}}", "@"} {
				if d[i] != "" {
					pairs = append(pairs, old, d[i])
				}
			}
			replace = strings.NewReplacer(pairs...)
		}
		var items []c22Item
		stdin := ""
		for n := rapid.IntRange(1, 3).Draw(c.T, "contents"); n > 0; n-- {
			var content string
			if rapid.Bool().Draw(c.T, "free") {
				content = strings.Join(rapid.SliceOfN(rapid.SampledFrom(c22Frags), 1, 5).Draw(c.T, "lines"), rapid.SampledFrom([]string{"\n", "\n", " "}).Draw(c.T, "separator"))
				content += rapid.SampledFrom([]string{"", "\n", "\n\n", "  "}).Draw(c.T, "tail")
			} else {
				balance, defined := false, false
				for _, f := range c18Doc(c, 1, &balance, &defined) {
					content += f.src
				}
			}
			if !on("not replaced", 9) {
				content = replace.Replace(content)
			}
			if on("plain", 7) {
				content = strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"word", "a b", "", "  ", "é", "x: 1"}), 1, 4).Draw(c.T, "plain lines"), "\n") + rapid.SampledFrom([]string{"", "\n", "\n\n", "  ", "\n \n"}).Draw(c.T, "tail")
			}
			item := c22Item{"argument", "", content}
			switch k := rapid.IntRange(0, 4).Draw(c.T, "source"); {
			case k == 0 && stdin == "" && content != "":
				item.kind = "stdin"
				stdin = content
			case k < 3:
				item.kind = "file"
				item.name = rapid.SampledFrom([]string{"f.txt", "f.gt", "f.txt.gt", "g.template", "sub/f.json.gt", "noext", "a b.gte", "script.sh", "a,b.gt"}).Draw(c.T, "name")
				for _, other := range items {
					if strings.Contains(item.name, "f.txt") && strings.Contains(other.name, "f.txt") {
						item.name = other.name // would give the same result
					}
					if other.name == item.name {
						item.kind = ""
					}
				}
				if item.kind == "" {
					continue
				}
				os.Mkdir(filepath.Join(base, "sub"), 0755)
				os.WriteFile(filepath.Join(base, item.name), []byte(content), 0644)
			}
			items = append(items, item)
		}
		for _, item := range items {
			if reserved.MatchString(item.content) || strings.HasPrefix(item.content, "-") {
				c.Skip()
			}
		}
		arguments := []string{}
		for _, item := range items {
			switch item.kind {
			case "argument":
				arguments = append(arguments, item.content)
			case "file":
				arguments = append(arguments, item.name)
			}
		}
		args = append(append(append([]string{"run"}, args...), "--"), arguments...)
		c.Step("%q %q\nstdin: %q", env, args, stdin)
		for _, item := range items {
			c.Step("%s %s: %q", item.kind, item.name, item.content)
		}
		c.NontrivialIf(len(args) > 5 || len(items) > 1)
		// The library
		flavour.use()
		defer useJSON()
		defer func(m template.AssignationValidationType) { template.StrictAssignationMode = m }(template.StrictAssignationMode)
		template.StrictAssignationMode = mode
		var out, after string
		files := map[string]string{}
		code := 0
		refused := false
		for _, item := range items {
			data := collections.CreateDictionary()
			var plain map[string]any
			json.Unmarshal([]byte(jsonText(context)), &plain)
			for k, v := range plain {
				data.Set(k, v)
			}
			set := template.OptionsSet{}
			for k, v := range options {
				set[k] = v
			}
			tpl, err := template.NewTemplate(base, data, delims, set, substitutes...)
			if err != nil {
				refused = true
				break
			}
			tpl.AppendIgnoreRazorExpression(ignored...)
			name := item.name
			if item.kind != "file" {
				name = "."
			}
			code1 := tpl.IsCode(item.content)
			if item.kind == "argument" && !code1 {
				// A missing file
				code = 1
				continue
			}
			result, err := tpl.ProcessContent(item.content, name)
			c.ClassIf(err != nil, "error")
			if err != nil {
				code = 1
				continue
			}
			resultName := strings.TrimSuffix(strings.TrimSuffix(item.name, ".gt"), ".template")
			switch {
			case item.kind == "file" && resultName != item.name && strings.TrimSpace(result) == "" && filepath.Ext(resultName) == "":
				// A template giving nothing for a file without extension
			case item.kind == "file" && target:
				files[resultName] = result
			case item.kind == "file":
				out += result
			default:
				if strings.TrimRight(result, " \t") == "" {
					if !code1 {
						c.Skip() // blank text
					}
					continue
				}
				if !strings.HasSuffix(result, "\n") {
					result += "\n"
				}
				if item.kind == "stdin" {
					after += result
				} else {
					out += result
				}
			}
		}
		out += after
		if refused {
			code = 3
			out, files = "", nil
			c.Class("refused")
		}
		stdout, stderr, exit := cli(base, env, stdin, args...)
		if exit != code || stdout != out {
			c.Fatalf("exit code %d instead of %d, %s\nstderr: %s", exit, code, firstDiff(stdout, out), stderr)
		}
		if code != 0 && stderr == "" {
			c.Fatalf("exit code %d without message", exit)
		}
		for f, v := range scan(filepath.Join(base, "out")) {
			rel, _ := filepath.Rel(filepath.Join(base, "out"), f)
			if v.dir {
				continue
			}
			content, _ := os.ReadFile(filepath.Join(base, "out", rel))
			if want, ok := files[rel]; !ok || want != string(content) {
				c.Fatalf("%s (expected %v): %s\nstderr: %s", rel, ok, firstDiff(string(content), want), stderr)
			}
			delete(files, rel)
		}
		if len(files) > 0 {
			c.Fatalf("not written: %s\nstderr: %s", fmt.Sprint(sortedKeys(files)), stderr)
		}
	})
}
