package props

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"

	"github.com/coveooss/gotemplate/v3/collections"
	"pgregory.net/rapid"
)

var shellText = rapid.Custom(func(t *rapid.T) string {
	n := rapid.IntRange(0, 5).Draw(t, "parts")
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(rapid.OneOf(
			rapid.SampledFrom([]string{" ", "\t", "\n", "\"", "'", "\\", "$", "`", "$HOME", "${x}", "$(echo x >>ran)", "`echo x >>ran`", ";echo x >>ran;", "\necho x >>ran\n", "|", "&", "<", ">", "*", "?", "~", "!", "#", "(", ")", "[", "]", "{a,b}", "=", ",", ":", "%", "^", "-", "--", "$'", "\\n", "\\$", "é", "漢", "\r", "\x02", "\x1b", "[0]=", "$((1+1))", "EOF", "[@]"}),
			rapid.StringMatching("[a-zA-Z0-9_]{1,4}"),
		).Draw(t, "part"))
	}
	return sb.String()
})

// keys of the dictionaries within the exported one may be any text but an empty one
var shellKey = rapid.Custom(func(t *rapid.T) string { return "k" + shellText.Draw(t, "text") })

var shellNames = rapid.SampledFrom([]string{"a", "b", "c", "d", "e", "Key", "k_1", "_x1", "LONG_NAME"})

// evalBash evaluates text and then prints the named variables.
func evalBash(c *C, dir, text string, value map[string]any) map[string]any {
	script := text + "\n"
	for _, k := range sortedKeys(value) {
		switch value[k].(type) {
		case []any:
			script += fmt.Sprintf(`printf '%%s\0' %[1]s list "${#%[1]s[@]}"; for i in "${!%[1]s[@]}"; do printf '%%s\0' "$i" "${%[1]s[$i]}"; done`+"\n", k)
		case map[string]any:
			script += fmt.Sprintf(`printf '%%s\0' %[1]s map "${#%[1]s[@]}"; for i in "${!%[1]s[@]}"; do printf '%%s\0' "$i" "${%[1]s[$i]}"; done`+"\n", k)
		default:
			script += fmt.Sprintf(`printf '%%s\0' %[1]s scalar "${%[1]s+set}" "$%[1]s"`+"\n", k)
		}
	}
	file := filepath.Join(dir, "..", "script.sh")
	if err := os.WriteFile(file, []byte(script), 0644); err != nil {
		c.Fatalf("harness: %v", err)
	}
	cmd := exec.Command("bash", "--norc", "--noprofile", file)
	cmd.Dir = dir
	cmd.Env = []string{"HOME=/nowhere", "x=expanded", "PATH=/usr/bin:/bin", "LC_ALL=C.UTF-8"}
	var out, errOut bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errOut
	err := cmd.Run()
	if err != nil || errOut.Len() > 0 {
		c.Fatalf("bash reports %v %s on\n%s", err, errOut.String(), text)
	}
	fields := strings.Split(out.String(), "\x00")
	result := map[string]any{}
	next := func() string {
		if len(fields) == 0 {
			c.Fatalf("unexpected output %q of\n%s", out.String(), text)
		}
		s := fields[0]
		fields = fields[1:]
		return s
	}
	for len(fields) > 1 {
		name, kind := next(), next()
		switch kind {
		case "scalar":
			if next() == "set" {
				result[name] = next()
			} else {
				next()
			}
		case "list", "map":
			var n int
			fmt.Sscan(next(), &n)
			list, m := []any{}, map[string]any{}
			for i := 0; i < n; i++ {
				k, v := next(), next()
				if kind == "list" && k != fmt.Sprint(i) {
					c.Fatalf("element %s found at position %d of %s", k, i, name)
				}
				list, m[k] = append(list, v), v
			}
			if kind == "list" {
				result[name] = list
			} else {
				result[name] = m
			}
		default:
			c.Fatalf("unexpected output %q of\n%s", out.String(), text)
		}
	}
	return result
}

func drawBash(c *C) (value, want map[string]any) {
	scalar := func(label string) any {
		if rapid.IntRange(0, 3).Draw(c.T, "text") > 0 {
			return shellText.Draw(c.T, label)
		}
		return genScalar(valueOpts{floats: true, big: true, strings: shellText}).Draw(c.T, label)
	}
	value, want = map[string]any{}, map[string]any{}
	for i, n := 0, rapid.SampledFrom([]int{1, 3, 5}).Draw(c.T, "n"); i < n; i++ {
		k := shellNames.Draw(c.T, "key")
		switch rapid.IntRange(0, 2).Draw(c.T, "kind") {
		case 0:
			v := scalar("scalar")
			value[k], want[k] = v, fmt.Sprint(v)
			c.ClassIf(strings.ContainsAny(fmt.Sprint(v), "$`\"'\\\n;|&*~"), "scalar with shell characters")
		case 1:
			l, w := []any{}, []any{}
			for j, m := 0, rapid.IntRange(0, 4).Draw(c.T, "len"); j < m; j++ {
				v := scalar("element")
				l, w = append(l, v), append(w, fmt.Sprint(v))
				c.ClassIf(strings.ContainsAny(fmt.Sprint(v), "$`\"'\\\n;|&*~"), "list element with shell characters")
			}
			value[k], want[k] = l, w
		case 2:
			d, w := map[string]any{}, map[string]any{}
			for j, m := 0, rapid.IntRange(0, 4).Draw(c.T, "len"); j < m; j++ {
				v, dk := scalar("element"), rapid.OneOf(shellNames, rapid.SampledFrom([]string{"a b", "x.y", "é", "1", "a-b"}), shellKey).Draw(c.T, "dkey")
				d[dk], w[dk] = v, fmt.Sprint(v)
				c.ClassIf(strings.ContainsAny(fmt.Sprint(v), "$`\"'\\\n;|&*~"), "dictionary element with shell characters")
			}
			value[k], want[k] = d, w
		}
	}
	return
}

func bashDir(c *C) string {
	base, err := os.MkdirTemp("", "bash")
	if err != nil {
		c.Fatalf("harness: %v", err)
	}
	dir := filepath.Join(base, "cwd")
	if err := os.Mkdir(dir, 0755); err != nil {
		c.Fatalf("harness: %v", err)
	}
	return dir
}

func checkBash(c *C, text string, value, want map[string]any) {
	dir := bashDir(c)
	defer os.RemoveAll(filepath.Dir(dir))
	got := evalBash(c, dir, text, value)
	if !same(got, want) {
		c.Fatalf("%s\nevaluates to %s\nwant %s", text, show(got), show(want))
	}
	if files, _ := os.ReadDir(dir); len(files) > 0 {
		c.Fatalf("evaluating\n%s\nexecuted something", text)
	}
}

const bashRule = "dictionaries of scalars, lists and dictionaries holding texts rich in shell syntax, evaluated by bash in an empty folder; non-trivial when a text holds a character special to the shell"

func TestC07_Bash(t *testing.T) {
	check(t, bashRule, 1500, 20000, func(c *C) {
		drawFlavour(c, "default").use()
		value, want := drawBash(c)
		c.Case(show(value))
		c.NontrivialIf(strings.ContainsAny(fmt.Sprint(want), "$`\"'\\\n;|&*~()<>#"))
		given := dress(c.T, deepCopy(value))
		checkBash(c, collections.ToBash(given), value, want)
		if !same(given, value) {
			c.Fatalf("the value was modified into %s", show(given))
		}
	})
}

func TestC07_Template(t *testing.T) {
	check(t, bashRule, 300, 4000, func(c *C) {
		useJSON()
		value, want := drawBash(c)
		c.Case(show(value))
		c.NontrivialIf(strings.ContainsAny(fmt.Sprint(want), "$`\"'\\\n;|&*~()<>#"))
		code := rapid.SampledFrom([]string{"{{ toBash .v }}", "{{ .v | toBash }}", "@toBash(.v)"}).Draw(c.T, "code")
		text, err := render(code, map[string]any{"v": dress(c.T, deepCopy(value))})
		if err != nil {
			c.Fatalf("%v", err)
		}
		checkBash(c, text, value, want)
	})
}

// Deeper values have no shell equivalent, but nothing may be expanded, executed or reported.
func TestC07_Nested(t *testing.T) {
	check(t, bashRule+"; deeper values are only required to be taken literally", 600, 8000, func(c *C) {
		drawFlavour(c, "default").use()
		value := genDict(valueOpts{depth: 4, strings: shellText, keys: shellNames, dicts: true}).Draw(c.T, "value").(map[string]any)
		c.Case(show(value))
		c.NontrivialIf(strings.ContainsAny(show(value), "$`'\\\n;|&*~()<>#"))
		dir := bashDir(c)
		defer os.RemoveAll(filepath.Dir(dir))
		text := collections.ToBash(dress(c.T, deepCopy(value)))
		got := evalBash(c, dir, text, value)
		if files, _ := os.ReadDir(dir); len(files) > 0 {
			c.Fatalf("evaluating\n%s\nexecuted something", text)
		}
		// every text of the value is found literally in what was evaluated
		all := fmt.Sprint(got)
		var walk func(v any, depth int)
		walk = func(v any, depth int) {
			switch x := v.(type) {
			case map[string]any:
				for _, e := range x {
					walk(e, depth+1)
				}
			case []any:
				for _, e := range x {
					if !isContainer(e) {
						walk(e, depth+1)
					}
				}
			case string:
				if depth <= 4 && !strings.Contains(all, x) {
					c.Fatalf("%q is lost in\n%s\nwhich evaluates to %s", x, text, show(got))
				}
			}
		}
		for _, e := range value {
			if m, ok := e.(map[string]any); ok {
				for _, e := range m {
					if m, ok := e.(map[string]any); ok {
						for _, e := range m {
							if !isContainer(e) {
								walk(e, 3)
							}
						}
					} else {
						walk(e, 2)
					}
				}
			} else {
				walk(e, 1)
			}
		}
		if len(got) != len(value) {
			c.Fatalf("%s\nevaluates to %s", text, show(got))
		}
	})
}
