package props

// C27: independent templates rendered concurrently give what they give alone.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/coveooss/gotemplate/v3/template"
	"pgregory.net/rapid"
)

// c27Job is the work of one goroutine: a template of its own and the documents it renders.
type c27Job struct {
	Delims    string
	Options   string
	Ignored   []string
	Subst     []string
	Functions bool   // functions and aliases added by the user
	Extension string // content of an extension file of the folder of the template
	Files     bool   // the documents are files
	Docs      []string
}

var c27Lefts = []string{"{{", "[[", "<<", "<%", "{%", "{{{", "<:", "[%", "~[", "{|"}
var c27Rights = []string{"}}", "]]", ">>", "%>", "%}", "}}}", ":>", "%]", "]~", "|}"}
var c27Razors = []string{"@", "§", "€", "£", "¤", "µ", "¶", "::", "°", "¦"}

var c27Frags = []string{
	"{{ toJson . }}", "@toYaml(cfg);", "{{ toHcl .cfg }}", "{{ toPrettyJson .l }}", "@(1 + 2 * len(l))", "{{ $x := data \"a: [1, 2, {b: c}]\" }}{{ toJson $x }}", "{{ yaml \"a: 1\" | toQuotedJson }}", "{{ hcl \"a = 1\" }}", "{{ json \"[1,2]\" }}",
	"@x := data(\"a=1 b=[1,2]\")\n@x.b;", "@foreach($i, $v := l)\n@{i}:@{v}\n@end", "@if (t && !f) yes @else no @end", "@if (name == \"Joe\") { a }", "{{ merge (dict \"a\" 1) .cfg | toJson }}", "@(l[0]);", "@l[0:1];", "@{z} := upper(name)\n@{z};",
	"{{ include \"<{{ .z }}@(1+1);>\" (dict \"z\" 5) }}", "{{ define \"d@n\" }}in {{ . }}{{ end }}{{ template \"d@n\" .name }}", "@alias(\"al@n\", \"include\", \"<v>\")@alias(\"al2\", \"include\", \"{{ .name }}\")", "{{ func \"fn@n\" \"include\" \"{{ .name }}\" (dict \"args\" (list \"a\")) }}",
	"@indent(4, \"a\\nb\");", "  @autoIndent(\"a\\nb\");", "x @autoWrap(to(3)) y", "@(sqrt(16));", "@sum(1, 2, 3);", "@max(l); @min(l); @join(\",\", l);", "{{ functions | len }}", "{{ getSignature \"add\" }}", "{{ len (categories) }}", "{{ len allFunctions }}", "{{ len aliases }}",
	"{{ id \"a b c\" }}", "@wrap(10, \"aaa bbb ccc ddd\");", "@center(9, \"x\");", "{{ color \"red\" \"x\" }}", "@splitLines(\"a\\nb\");", "{{ formatList \"<%s>\" (list 1 2) }}", "{{ regexReplaceAll \"a+\" \"caat\" \"b\" }}", "{{ sha256sum .name }}", "{{ semver \"1.2.3\" }}", "{{ true | ternary 1 2 }}", "@snakecase(\"AbcDef\");", "{{ camelcase \"a_b\" }}",
	"@{cfg2} := dict(\"a\", 1, \"b\", list(1, 2))\n@set($cfg2, \"c\", 3)\n@{cfg2};", "@cfg.newKey := 3\n@cfg.newKey;", "@.counter := 1\n@.counter += 4\n@.counter;", "{{ set . \"k\" 1 }}{{ .k }}", "@<name", "\"@<upper(name)\"", "@-name", "@# comment", "## @name", "@@x joe@x.com ${y} ``` @{{", "`raw @name\nmore`",
	"{{ title \"x y\" }}", "{{ substitute .name }}", "@lenc(name);", "{{ toString .l | quote }}", "{{ array .l }}", "{{ pick . \"name\" \"t\" | toJson }}", "{{ keys .cfg }}", "{{ hex 255 }}", "@(5 << 2 | 1)", "@(7 % 4 ^ 1)", "{{ deepCopy .cfg | toJson }}", "{{ get .cfg \"key\" }}", "{{ extract . \"cfg\" }}", "{{ contains \"o\" .name }}", "{{ templateNames }}", "{{ templates | len }}",
	"@all(1, 2);", "{{ any 0 1 }}", "{{ without (list 1 2 3) 2 }}", "{{ until 3 }}", "@uniq(list(1, 1, 2));", "{{ has 2 (list 1 2) }}", "{{ getSignature \"userAdd\" }}", "{{ getSignature \"until\" }}", "@x := 3\n@(x)[0:1];", "@l[-1];",
	"{{ run \"echo a; echo b\" }}", "{{ exec \"printf '[1,2]'; true\" | toJson }}", "@run(\"#! /bin/sh\\necho x\\n\");", "@expand(\"nothing*\");", "{{ lookPath \"sh\" }}", "@joinPath(\"a\", \"..\", \"b\");",
	"word", "text with some words", "", "été 日本",
}

// Features that initialize something the first time they are used
var c27Hot = []string{"{{ run \"echo a; echo b\" }}", "{{ color \"red\" \"x\" }}", "{{ hcl \"a = 1\" | toHcl }}", "{{ functions | len }}", "{{ getSignature \"substitute\" }}", "@if (t) { a } @else { b }", "{{ functionsGroup \"add\" }}", "{{ include \"{{ .name }}\" }}"}

var c27Errors = []string{"{{ raise \"oops\" }}", "{{ .missing }}", "@missing;", "{{ bad", "@(1 +)", "{{ index .l 9 }}", "{{ assert false \"no\" }}", "{{ unknownFn }}", "{{ template \"none\" }}", "{{ include \"{{ raise `in` }}\" }}"}
var c27User = []string{"@userAdd(1, 2);", "{{ userAdd 3 4 }}", "@userAlias(5, 6);", "{{ getSignature \"userAlias\" }}"}
var c27Ext = []string{"{{ extFn 2 }}", "@extAlias(\"q\");", "{{ template \"ext\" 1 }}"}

const c27Extension = "{{ define \"ext\" }}ext{{ . }}{{ end }}\n@func(\"extFn\", \"include\", \"[{{ .a }}]\", dict(\"args\", list(\"a\")))\n{{ alias \"extAlias\" \"include\" \"<{{ upper .name }}>\" }}\n"

func genC27(t *rapid.T, n int) (jobs []c27Job) {
	same := rapid.IntRange(0, 2).Draw(t, "same delimiters") == 0
	shared := ""
	draw := func() string {
		if rapid.IntRange(0, 3).Draw(t, "default") == 0 {
			return ""
		}
		i := rapid.IntRange(0, len(c27Lefts)-1).Draw(t, "delims")
		return c27Lefts[i] + "," + c27Rights[i] + "," + rapid.SampledFrom(c27Razors).Draw(t, "razor")
	}
	if same {
		shared = draw()
	}
	// A fragment may be the first of all jobs, so all use the same feature at the same time
	topic := ""
	switch rapid.IntRange(0, 3).Draw(t, "topic") {
	case 0:
		topic = rapid.SampledFrom(c27Frags).Draw(t, "first")
	case 1:
		topic = rapid.SampledFrom(c27Hot).Draw(t, "first")
	}
	for i := 0; i < n; i++ {
		j := c27Job{Delims: shared}
		if !same {
			j.Delims = draw()
		}
		j.Options = rapid.SampledFrom([]string{"", "", "strict", "norazor", "acceptno", "nolib", "few"}).Draw(t, "options")
		if rapid.IntRange(0, 3).Draw(t, "ignored") == 0 {
			j.Ignored = []string{"media", "na.e"}
		}
		if rapid.IntRange(0, 3).Draw(t, "subst") == 0 {
			j.Subst = []string{"/word/term", "/o(.)/<$1>/p", "/Joe/Jim/e"}[:rapid.IntRange(1, 3).Draw(t, "n")]
		}
		j.Functions = rapid.IntRange(0, 3).Draw(t, "functions") == 0
		j.Files = rapid.IntRange(0, 3).Draw(t, "files") == 0
		if rapid.IntRange(0, 2).Draw(t, "ext") == 0 {
			j.Extension = c27Extension
		}
		r := strings.NewReplacer()
		if j.Delims != "" {
			d := strings.Split(j.Delims, ",")
			r = strings.NewReplacer("{{", d[0], "}}", d[1], "@", d[2])
		}
		for d := rapid.IntRange(1, 3).Draw(t, "documents"); d > 0; d-- {
			doc := ""
			if len(j.Docs) == 0 && topic != "" {
				doc = strings.ReplaceAll(topic, "@n", "first") + "\n"
			}
			for f := rapid.IntRange(1, 7).Draw(t, "fragments"); f > 0; f-- {
				from := c27Frags
				switch k := rapid.IntRange(0, 19).Draw(t, "kind"); {
				case k == 0:
					from = c27Errors
				case k < 4 && j.Functions:
					from = c27User
				case k < 8 && j.Extension != "":
					from = c27Ext
				}
				s := strings.ReplaceAll(rapid.SampledFrom(from).Draw(t, "fragment"), "@n", fmt.Sprintf("%dx%d", d, f))
				doc += s + rapid.SampledFrom([]string{"\n", " ", "\n\n"}).Draw(t, "sep")
			}
			j.Docs = append(j.Docs, r.Replace(doc))
		}
		jobs = append(jobs, j)
	}
	return
}

// run does the job in the given folder and reports everything it gives.
func (j c27Job) run(folder string) (result []string) {
	defer func() {
		if r := recover(); r != nil {
			result = append(result, fmt.Sprintf("panic: %v", r))
		}
	}()
	o := template.DefaultOptions()
	switch j.Options {
	case "strict":
		o[template.StrictErrorCheck] = true
	case "norazor":
		o[template.Razor] = false
	case "acceptno":
		o[template.AcceptNoValue] = true
	case "nolib":
		o[template.Sprig], o[template.Math] = false, false
	case "few":
		o[template.Math], o[template.Git], o[template.OS], o[template.Net] = false, false, false, false
	}
	ctx := map[string]any{"name": "Joe", "t": true, "f": false, "cfg": map[string]any{"key": "val"}, "l": []any{10, 20}, "empty": []any{}, "media": "m"}
	t, err := template.NewTemplate(folder, ctx, j.Delims, o, j.Subst...)
	if err != nil {
		return []string{"error " + err.Error()}
	}
	t.IgnoreRazorExpression(j.Ignored...)
	if j.Functions {
		t.AddFunctions(map[string]any{"userAdd": func(a, b int) int { return a + b }}, "User defined", template.FuncOptions{
			template.FuncHelp: map[string]string{"userAdd": "Adds"}, template.FuncArgs: map[string][]string{"userAdd": {"a", "b"}}, template.FuncAliases: map[string][]string{"userAdd": {"userAlias"}},
		})
	}
	for i, doc := range j.Docs {
		if j.Files {
			name := filepath.Join(folder, fmt.Sprintf("doc%d.txt", i))
			if err := os.WriteFile(name, []byte(doc), 0644); err != nil {
				panic(err)
			}
			_, err := t.ProcessTemplates(folder, filepath.Join(folder, "out"), name)
			content, _ := os.ReadFile(filepath.Join(folder, "out", fmt.Sprintf("doc%d.generated.txt", i)))
			plain, _ := os.ReadFile(filepath.Join(folder, "out", fmt.Sprintf("doc%d.txt", i)))
			result = append(result, fmt.Sprintf("%q %q error=%v", content, plain, err))
			continue
		}
		out, err := t.ProcessContent(doc, "vp")
		result = append(result, fmt.Sprintf("%q error=%v", out, err))
	}
	return
}

// c27Run does all the jobs, each in its own folder, and gives what each one reports.
func c27Run(jobs []c27Job, parallel bool) ([][]string, error) {
	root, err := os.MkdirTemp("", "c27-")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(root)
	results := make([][]string, len(jobs))
	folders := make([]string, len(jobs))
	for i, j := range jobs {
		folders[i] = filepath.Join(root, fmt.Sprintf("job%d", i))
		if err := os.MkdirAll(filepath.Join(folders[i], "out"), 0755); err != nil {
			return nil, err
		}
		if j.Extension != "" {
			if err := os.WriteFile(filepath.Join(folders[i], "ext.gte"), []byte(j.Extension), 0644); err != nil {
				return nil, err
			}
		}
	}
	clean := func(i int) {
		for k := range results[i] {
			results[i][k] = strings.ReplaceAll(results[i][k], folders[i], "FOLDER")
		}
	}
	if !parallel {
		for i, j := range jobs {
			results[i] = j.run(folders[i])
			clean(i)
		}
		return results, nil
	}
	var group sync.WaitGroup
	start := make(chan bool)
	for i, j := range jobs {
		group.Add(1)
		go func() {
			defer group.Done()
			<-start
			results[i] = j.run(folders[i])
			clean(i)
		}()
	}
	done := make(chan bool)
	go func() { group.Wait(); close(done) }()
	close(start)
	select {
	case <-done:
	case <-time.After(200 * time.Second):
		return nil, fmt.Errorf("the concurrent rendering is not finished after 200 s")
	}
	return results, nil
}

func c27Compare(c *C, jobs []c27Job, got, want [][]string) {
	rendered := strings.Count(fmt.Sprint(want), "error=<nil>")
	c.ClassIf(rendered > 2, "several documents without error")
	for i := range jobs {
		if fmt.Sprint(got[i]) != fmt.Sprint(want[i]) {
			c.Fatalf("goroutine %d of %d, %s: %+v\nconcurrently %q\n       alone %q", i+1, len(jobs), firstDiff(fmt.Sprint(got[i]), fmt.Sprint(want[i])), jobs[i], got[i], want[i])
		}
	}
}

func c27Account(c *C, jobs []c27Job) {
	delims := map[string]bool{}
	for _, j := range jobs {
		delims[j.Delims] = true
		c.ClassIf(j.Files, "files")
		c.ClassIf(j.Extension != "", "extension")
		c.ClassIf(j.Functions, "user functions")
		c.ClassIf(j.Options == "norazor", "without razor")
		c.ClassIf(len(j.Subst) > 0, "substitutions")
	}
	c.ClassIf(len(delims) > 1, "several delimiters")
	c.ClassIf(len(jobs) > 8, "more than 8 goroutines")
	c.NontrivialIf(len(jobs) > 1)
}

const c27Rule = "at least two goroutines create templates and render documents at the same time, under the race detector"

func TestC27_Render(t *testing.T) {
	check(t, c27Rule, 90, 3000, func(c *C) {
		useJSON()
		jobs := genC27(c.T, rapid.IntRange(2, 16).Draw(c.T, "goroutines"))
		text, _ := json.MarshalIndent(jobs, "", " ")
		c.Case("%s", string(text))
		c27Account(c, jobs)
		// The concurrent run is first, so what is initialised on the first use is initialised concurrently
		got, err := c27Run(jobs, true)
		if err != nil {
			c.Fatalf("%v", err)
		}
		want, err := c27Run(jobs, false)
		if err != nil {
			c.Fatalf("%v", err)
		}
		c27Compare(c, jobs, got, want)
	})
}

// The first use of the library by a process is concurrent
func TestC27_Cold(t *testing.T) {
	check(t, c27Rule+", as the first thing done by a process", 20, 600, func(c *C) {
		useJSON()
		jobs := genC27(c.T, rapid.IntRange(2, 16).Draw(c.T, "goroutines"))
		text, _ := json.MarshalIndent(jobs, "", " ")
		c.Case("%s", string(text))
		c27Account(c, jobs)
		dir, err := os.MkdirTemp("", "c27cold-")
		if err != nil {
			c.Fatalf("%v", err)
		}
		defer os.RemoveAll(dir)
		if err := os.WriteFile(filepath.Join(dir, "plan"), text, 0644); err != nil {
			c.Fatalf("%v", err)
		}
		self, err := os.Executable()
		if err != nil {
			c.Fatalf("%v", err)
		}
		cmd := exec.Command(self, "-test.run", "^TestColdChild$", "-test.timeout", "0")
		cmd.Env = append(os.Environ(), "VP_COLD="+dir, "VP_OUT=", "TMPDIR="+dir)
		out, err := cmd.CombinedOutput()
		if err != nil {
			c.Fatalf("the process failed: %v\n%s", err, cut(string(out), 6000))
		}
		var got [][]string
		b, err := os.ReadFile(filepath.Join(dir, "result"))
		if err == nil {
			err = json.Unmarshal(b, &got)
		}
		if err != nil || len(got) != len(jobs) {
			c.Fatalf("no result from the process: %v\n%s", err, cut(string(out), 6000))
		}
		want, err := c27Run(jobs, false)
		if err != nil {
			c.Fatalf("%v", err)
		}
		c27Compare(c, jobs, got, want)
	})
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// TestColdChild is the process started by TestC27_Cold.
func TestColdChild(t *testing.T) {
	dir := os.Getenv("VP_COLD")
	if dir == "" {
		t.Skip("only used by TestC27_Cold")
	}
	useJSON()
	var jobs []c27Job
	b, err := os.ReadFile(filepath.Join(dir, "plan"))
	if err == nil {
		err = json.Unmarshal(b, &jobs)
	}
	if err != nil {
		t.Fatal(err)
	}
	results, err := c27Run(jobs, true)
	if err != nil {
		t.Fatal(err)
	}
	// the invalid parts of the texts are replaced the same way on both sides
	for i := range results {
		for k := range results[i] {
			results[i][k] = strings.ToValidUTF8(results[i][k], "?")
		}
	}
	b, _ = json.Marshal(results)
	if err := os.WriteFile(filepath.Join(dir, "result"), b, 0644); err != nil {
		t.Fatal(err)
	}
}
