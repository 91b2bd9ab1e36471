package props

import (
	"encoding/json"
	"fmt"
	"os"
	stdpath "path"
	"path/filepath"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// C21: context of the command line.

var c21Words = []string{"foo", "Bar", "x-y", "v1.2.3", "été", "a/b", "hello_world", "user_host", "50%", "日本", "a.b", "f(x)", "x+y", "none.json", "(a)", "a|b", "z;", "$x", "@at", "@x y"}

func jsonText(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func drawDict(c *C, label string, o valueOpts, min int) map[string]any {
	d := genDict(o).Draw(c.T, label).(map[string]any)
	if len(d) < min {
		d["a"] = rapid.IntRange(0, 9).Draw(c.T, label+" default")
	}
	return d
}

func yamlText(c *C, d map[string]any, indent string) string {
	s := ""
	for _, k := range sortedKeys(d) {
		sub, ok := d[k].(map[string]any)
		list, isList := d[k].([]any)
		switch {
		case ok && len(sub) > 0 && rapid.Bool().Draw(c.T, "block"):
			s += indent + k + ":\n" + yamlText(c, sub, indent+"  ")
		case isList && len(list) > 0 && rapid.Bool().Draw(c.T, "block"):
			s += indent + k + ":\n"
			for _, e := range list {
				s += indent + "  - " + jsonText(e) + "\n"
			}
		default:
			s += indent + k + ": " + jsonText(d[k]) + "\n"
		}
	}
	return s
}

func hclText(d map[string]any, indent string) string {
	s := ""
	for _, k := range sortedKeys(d) {
		if sub, ok := d[k].(map[string]any); ok {
			s += indent + k + " = {\n" + hclText(sub, indent+"  ") + indent + "}\n"
		} else {
			s += indent + k + " = " + jsonText(d[k]) + "\n"
		}
	}
	return s
}

// c21File is a file with the value it holds
type c21File struct {
	name  string
	value any
}

func (f c21File) base() string {
	return strings.TrimSuffix(stdpath.Base(f.name), stdpath.Ext(f.name))
}

func drawDataFile(c *C, root string, i int) (f c21File) {
	text := rapid.OneOf(wordGen, anyText, rapid.Just(""))
	o := valueOpts{depth: 3, floats: true, big: true, strings: text}
	content := ""
	ext := ""
	switch rapid.IntRange(0, 8).Draw(c.T, "content") {
	case 0, 1, 2:
		d := drawDict(c, "json", o, 0)
		f.value, content, ext = d, jsonText(d), ".json"
		if rapid.Bool().Draw(c.T, "pretty") {
			b, _ := json.MarshalIndent(d, "", "  ")
			content = string(b) + "\n"
		}
	case 3, 4:
		d := drawDict(c, "yaml", o, 1)
		f.value, content, ext = d, yamlText(c, d, ""), ".yml"
	case 5, 6:
		o := valueOpts{depth: 1, strings: wordGen}
		d := drawDict(c, "hcl", o, 1)
		for k, v := range d {
			if l, ok := v.([]any); ok && len(l) == 0 {
				d[k] = 1
			}
			if m, ok := v.(map[string]any); ok && len(m) == 0 {
				d[k] = 2
			}
		}
		f.value, content, ext = d, hclText(d, ""), ".hcl"
	case 7:
		l := genList(o).Draw(c.T, "list").([]any)
		f.value, content, ext = l, jsonText(l), ".json"
	case 8:
		v := rapid.SampledFrom([]any{"hello world", "word", 12, true, 1.5, "a\nb"}).Draw(c.T, "scalar")
		f.value, content, ext = v, jsonText(v), ".txt"
	}
	if rapid.IntRange(0, 4).Draw(c.T, "other extension") == 0 {
		ext = rapid.SampledFrom([]string{"", ".txt", ".data", ".json", ".yml", ".hcl", ".tf"}).Draw(c.T, "ext")
	}
	name := rapid.SampledFrom([]string{"vars", "data", "a", "my file", "é", "vars-x", "vars.b", "F", "@data"}).Draw(c.T, "name")
	if i > 0 {
		name = fmt.Sprint(name, i)
	}
	f.name = rapid.SampledFrom([]string{"", "", "sub/", "./", "sub/../"}).Draw(c.T, "dir") + name + ext
	if rapid.IntRange(0, 5).Draw(c.T, "absolute") == 0 {
		f.name = filepath.Join(root, f.name)
	}
	path := f.name
	if !filepath.IsAbs(path) {
		path = filepath.Join(root, path)
	}
	os.MkdirAll(filepath.Join(root, "sub"), 0755)
	if err := os.WriteFile(path, []byte(content), 0644); err != nil {
		c.Fatalf("preparation: %v", err)
	}
	c.Step("file %s: %q", f.name, content)
	return
}

func TestC21_Context(t *testing.T) {
	base, _ := filepath.EvalSymlinks(filepath.Dir(emptyDir))
	base = filepath.Join(base, "c21")
	os.MkdirAll(base, 0755)
	defer os.RemoveAll(base)
	check(t, "at least two sources, or a failing one", 1500, 40000, func(c *C) {
		emptyFolder(base)
		c.Case("")
		var files []c21File
		for i := rapid.IntRange(0, 3).Draw(c.T, "files"); i > 0; i-- {
			files = append(files, drawDataFile(c, base, len(files)))
		}
		want := map[string]any{}
		var unnamed []any
		stdin, stdinValue := "", any(nil)
		var args, optional, imports, vars []string
		ignore := rapid.IntRange(0, 3).Draw(c.T, "ignore missing") == 0
		fail := ""
		merge := func(f c21File, unnamedVar bool) {
			if d, ok := f.value.(map[string]any); ok && !unnamedVar {
				for k, v := range d {
					want[k] = v
				}
			} else {
				want[f.base()] = f.value
			}
		}
		useStdin := func() any {
			if stdin == "" {
				stdinValue = genValue(valueOpts{depth: 2, strings: rapid.SampledFrom(c21Words)}).Draw(c.T, "stdin")
				stdin = jsonText(stdinValue) + "\n"
			}
			return stdinValue
		}
		malformed := func() string {
			text := rapid.SampledFrom([]string{`["a"`, "a: b: c", `{"a" 1}`, "a = {", "a: [1, 2\nb: 3", "- a\nb"}).Draw(c.T, "malformed")
			os.WriteFile(filepath.Join(base, "malformed.json"), []byte(text), 0644)
			c.Step("file malformed.json: %q", text)
			return "malformed.json"
		}
		for i := rapid.IntRange(0, 2).Draw(c.T, "optional imports"); i > 0; i-- {
			switch k := rapid.IntRange(0, 9).Draw(c.T, "optional"); {
			case k < 5 && len(files) > 0:
				f := rapid.SampledFrom(files).Draw(c.T, "file")
				optional = append(optional, f.name)
				merge(f, false)
			case k == 9 && fail == "" && rapid.Bool().Draw(c.T, "wrong"):
				optional = append(optional, malformed())
				fail = "malformed optional import"
			default:
				optional = append(optional, rapid.SampledFrom([]string{"none.json", "no/such/file.yml", "none"}).Draw(c.T, "missing"))
				c.Class("missing optional import")
			}
		}
		for i := rapid.IntRange(0, 2).Draw(c.T, "imports"); i > 0; i-- {
			switch k := rapid.IntRange(0, 19).Draw(c.T, "import"); {
			case k == 0:
				imports = append(imports, "none.json")
				if !ignore {
					fail = "missing import"
				}
				c.Class("missing import")
			case k == 1:
				imports = append(imports, malformed())
				fail = "malformed import"
			case k == 2:
				imports = append(imports, "-")
				v := useStdin()
				if d, ok := v.(map[string]any); ok {
					for k, v := range d {
						want[k] = v
					}
				} else {
					want["STDIN"] = v
				}
				c.Class("stdin")
			case len(files) > 0:
				f := rapid.SampledFrom(files).Draw(c.T, "file")
				imports = append(imports, f.name)
				merge(f, false)
			}
		}
		key := func() string { return smallKeys.Draw(c.T, "name") }
		// a colon could be taken as the end of a key by the YAML reader
		nested := valueOpts{depth: 2, floats: true, strings: rapid.OneOf(wordGen, rapid.Map(anyText, func(s string) string { return strings.ReplaceAll(s, ":", ";") }))}
		var define func(inArgs bool) (string, any)
		define = func(inArgs bool) (string, any) {
			switch rapid.IntRange(0, 6).Draw(c.T, "value") {
			case 0:
				n := rapid.OneOf(rapid.IntRange(-50, 50), rapid.Int()).Draw(c.T, "int")
				return fmt.Sprint(n), n
			case 1:
				f := float64(rapid.IntRange(-2000, 2000).Draw(c.T, "float"))/8 + 0.0625
				return fmt.Sprint(f), f
			case 2:
				b := rapid.Bool().Draw(c.T, "bool")
				return fmt.Sprint(b), b
			case 3:
				if inArgs {
					l := genList(nested).Draw(c.T, "list").([]any)
					return jsonText(l), l
				}
				v := rapid.OneOf(genDict(nested), genList(nested)).Draw(c.T, "collection")
				return jsonText(v), v
			case 4:
				words := rapid.SliceOfN(rapid.SampledFrom(c21Words), 2, 3).Draw(c.T, "words")
				return strings.Join(words, " "), strings.Join(words, " ")
			default:
				w := rapid.SampledFrom(c21Words).Draw(c.T, "word")
				return w, w
			}
		}
		for i := rapid.IntRange(0, 4).Draw(c.T, "vars"); i > 0; i-- {
			switch k := rapid.IntRange(0, 15).Draw(c.T, "var"); k {
			case 0:
				name := key()
				vars = append(vars, name+"=")
				want[name] = ""
			case 1:
				// several values
				count := rapid.IntRange(2, 3).Draw(c.T, "count")
				var parts []string
				seen := map[string]bool{}
				for i := 0; i < count; i++ {
					name := key()
					if seen[name] {
						continue
					}
					seen[name] = true
					text, v := define(false)
					if s, ok := v.(string); ok {
						text = jsonText(s)
					} else if strings.ContainsAny(text, "[{") {
						text, v = "12", 12
					}
					parts = append(parts, name+rapid.SampledFrom([]string{"=", " = "}).Draw(c.T, "equal")+text)
					want[name] = v
				}
				vars = append(vars, strings.Join(parts, " "))
			case 2:
				d := map[string]any{}
				for n := rapid.IntRange(1, 3).Draw(c.T, "keys"); n > 0; n-- {
					_, v := define(false)
					d[key()] = v
				}
				for k, v := range d {
					want[k] = v
				}
				vars = append(vars, jsonText(d))
			case 3:
				name := key()
				w := strings.Join(rapid.SliceOfN(rapid.SampledFrom(c21Words), 1, 3).Draw(c.T, "words"), " ")
				vars = append(vars, name+"="+jsonText(w))
				want[name] = w
			case 4:
				text, v := define(true)
				if strings.HasPrefix(text, "-") || strings.Contains(text, "=") {
					text, v = "0", 0 // it would be an option or a named value
				}
				vars = append(vars, text)
				unnamed = append(unnamed, v)
				c.Class("unnamed")
			case 5, 6:
				if len(files) > 0 {
					f := rapid.SampledFrom(files).Draw(c.T, "file")
					name := key()
					vars = append(vars, name+"="+f.name)
					want[name] = f.value
					c.Class("named file")
				}
			case 7:
				if len(files) > 0 {
					f := rapid.SampledFrom(files).Draw(c.T, "file")
					vars = append(vars, f.name)
					merge(f, true)
					c.Class("unnamed file")
				}
			case 8:
				name := key()
				vars = append(vars, name+"=-")
				want[name] = useStdin()
				c.Class("stdin")
			case 9:
				if rapid.IntRange(0, 3).Draw(c.T, "wrong") == 0 {
					vars = append(vars, key()+"="+malformed())
					fail = "malformed file"
				}
			default:
				name := key()
				text, v := define(false)
				vars = append(vars, name+"="+text)
				want[name] = v
			}
		}
		if len(unnamed) > 0 {
			want["ARGS"] = unnamed
		}
		// The options of the different kinds may be in any order
		queues := [][]string{}
		add := func(long, short string, values []string) {
			for _, v := range values {
				if short == "" || v == "-" || rapid.Bool().Draw(c.T, "long") {
					queues = append(queues, []string{long, long + "=" + v})
				} else {
					queues = append(queues, []string{long, short, v})
				}
			}
		}
		add("--import-if-exist", "", optional)
		add("--import", "-i", imports)
		add("--var", "-V", vars)
		for len(queues) > 0 {
			first := map[string]int{}
			var names []string
			for i, q := range queues {
				if _, ok := first[q[0]]; !ok {
					first[q[0]] = i
					names = append(names, q[0])
				}
			}
			i := first[rapid.SampledFrom(names).Draw(c.T, "next")]
			args = append(args, queues[i][1:]...)
			queues = append(append([][]string{}, queues[:i]...), queues[i+1:]...)
		}
		if ignore {
			args = append(args, rapid.SampledFrom([]string{"--ignore-missing-import", "--ignore-missing-paths"}).Draw(c.T, "ignore"))
		} else if rapid.IntRange(0, 5).Draw(c.T, "ignore source") == 0 {
			args = append(args, "--ignore-missing-source")
		}
		if rapid.IntRange(0, 2).Draw(c.T, "typed") == 0 {
			args = append(args, rapid.SampledFrom([]string{"--type=", "-t"}).Draw(c.T, "option")+rapid.SampledFrom([]string{"Hcl", "h", "hcl", "H", "HCL", "Json", "j", "json", "J", "JSON", "Yaml", "Yml", "y", "yml", "yaml", "Y", "YML", "YAML"}).Draw(c.T, "type"))
			c.Class("typed")
		}
		args = append(append([]string{"run"}, args...), "{{ userContext | toJson }}")
		c.Step("%q\nstdin: %q", args, stdin)
		c.NontrivialIf(len(optional)+len(imports)+len(vars) > 1 || fail != "")
		c.ClassIf(fail != "", fail)
		stdout, stderr, code := cli(base, nil, stdin, args...)
		if fail != "" {
			if code == 0 || stderr == "" || stdout != "" {
				c.Fatalf("%s: exit code %d\nstdout: %s\nstderr: %s", fail, code, stdout, stderr)
			}
			return
		}
		if code != 0 || stderr != "" {
			c.Fatalf("exit code %d\nstdout: %s\nstderr: %s", code, stdout, stderr)
		}
		if got := decodeJSON(c, stdout); !sameNum(got, want) {
			c.Fatalf("\n got %s\nwant %s\n%s", show(got), show(want), stdout)
		}
	})
}

// The source folder
func TestC21_Source(t *testing.T) {
	base, _ := filepath.EvalSymlinks(filepath.Dir(emptyDir))
	base = filepath.Join(base, "c21s")
	os.MkdirAll(base, 0755)
	defer os.RemoveAll(base)
	check(t, "the source folder is missing", 120, 1000, func(c *C) {
		emptyFolder(base)
		os.Mkdir(filepath.Join(base, "src"), 0755)
		os.WriteFile(filepath.Join(base, "src", "f.txt.gt"), []byte("{{ add 1 2 }}"), 0644)
		source := rapid.SampledFrom([]string{"src", "none", "src/none/x", "./src", base + "/src", base + "/none"}).Draw(c.T, "source")
		missing := strings.Contains(source, "none")
		option := rapid.SampledFrom([]string{"", "", "--ignore-missing-source", "--ignore-missing-paths", "--ignore-missing-import"}).Draw(c.T, "option")
		noImport := rapid.IntRange(0, 2).Draw(c.T, "import") == 0
		args := []string{"--source=" + source}
		if option != "" {
			args = append(args, option)
		}
		if noImport {
			args = append(args, "-i", "no.json")
		}
		if rapid.Bool().Draw(c.T, "template") {
			args = append(append([]string{"run"}, args...), "{{ add 4 5 }}")
		}
		c.Case("%q", args)
		c.NontrivialIf(missing)
		c.ClassIf(missing, "missing")
		ignoreSource := option == "--ignore-missing-source" || option == "--ignore-missing-paths"
		ignoreImport := option == "--ignore-missing-import" || option == "--ignore-missing-paths"
		code, out, file := 0, "", ""
		switch {
		case missing && !ignoreSource:
			code = 1
		case missing:
		case noImport && !ignoreImport:
			code = 1
		case args[0] == "run":
			out = "9\n"
		default:
			file = "generated"
		}
		stdout, stderr, exit := cli(base, nil, "", args...)
		if exit != code || stdout != out || code != 0 && stderr == "" {
			c.Fatalf("exit code %d instead of %d, stdout: %q instead of %q, stderr: %s", exit, code, stdout, out, stderr)
		}
		generated, _ := filepath.Glob(filepath.Join(base, "src", "*generated*"))
		if (file != "") != (len(generated) == 1) {
			c.Fatalf("files: %q", generated)
		}
	})
}
