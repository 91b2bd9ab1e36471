package props

// C28: files saved and loaded, file predicates, commands and scripts.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"testing"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/template"
	"pgregory.net/rapid"
)

// c28Eval evaluates a go template expression and gives its value, without any formatting.
type c28Eval struct {
	c      *C
	folder string
	ctx    map[string]any
	n      int
	keep   bool // keeps the same template for all evaluations
	t      *template.Template
	result any
	count  int
}

func newC28(c *C) *c28Eval {
	dir, err := os.MkdirTemp("", "c28-")
	if err != nil {
		c.Fatalf("%v", err)
	}
	dir, _ = filepath.EvalSymlinks(dir)
	return &c28Eval{c: c, folder: dir, ctx: map[string]any{}}
}

func (e *c28Eval) close() { os.RemoveAll(e.folder) }

func (e *c28Eval) path(name string) string { return filepath.Join(e.folder, name) }

func (e *c28Eval) write(name string, content []byte, mode os.FileMode) {
	if err := os.MkdirAll(filepath.Dir(e.path(name)), 0755); err != nil {
		e.c.Fatalf("%v", err)
	}
	if err := os.WriteFile(e.path(name), content, 0644); err != nil {
		e.c.Fatalf("%v", err)
	}
	os.Chmod(e.path(name), mode)
}

// arg gives the notation of a value: a literal or a variable of the context
func (e *c28Eval) arg(v any) string {
	if s, ok := v.(string); ok && rapid.Bool().Draw(e.c.T, "literal") && !reserved.MatchString(s) && !strings.ContainsAny(s, "@{}!") && len(s) < 200 {
		return strconv.Quote(s)
	}
	e.n++
	name := fmt.Sprintf("v%d", e.n)
	e.ctx[name] = v
	return "." + name
}

// eval evaluates a pipeline, with a fresh template unless it must be kept.
func (e *c28Eval) eval(pipeline string) (any, error) {
	if e.t == nil || !e.keep {
		var err error
		if e.t, err = template.NewTemplate(e.folder, deepCopy(e.ctx), "", strictOptions().Set(template.AcceptNoValue)); err != nil {
			e.c.Fatalf("NewTemplate: %v", err)
		}
		e.t.AddFunctions(map[string]any{"vpCapture": func(v any) string { e.result = v; e.count++; return "" }}, "", nil)
	}
	if e.keep {
		e.t.Merge(deepCopy(e.ctx))
	}
	e.count, e.result = 0, nil
	_, err := e.t.ProcessContent("{{ vpCapture ("+pipeline+") }}", filepath.Join(e.folder, "vp"))
	if err == nil && e.count != 1 {
		e.c.Fatalf("%s: evaluated %d times without error", pipeline, e.count)
	}
	return e.result, err
}

// texts that are not modified by razor nor template
var c28Text = rapid.Custom(func(t *rapid.T) string {
	pieces := rapid.SliceOfN(rapid.SampledFrom([]string{"word", " ", "  ", "\n", "\n\n", "é", "日本", "a: 1", "\"", "'", "\\", "%s", "$x", "${y}", "$(z)", "#", "#!", "#!/bin/sh", "`", "{", "}", "[", "]", "|", "&", ";", "\t", "\r\n", "!Q!x!Q!", "<no value>", "<nil>", "@", "@@", "@name", "{{ . }}", "\x00", "\x7f", "\xff", "0", "*", "~"}), 0, 8).Draw(t, "pieces")
	s := strings.Join(pieces, "")
	if rapid.IntRange(0, 30).Draw(t, "long") == 0 {
		s = strings.Repeat(s+"x", 20000)
	}
	return s
})

func c28Bytes(v any) (string, bool) {
	b, ok := v.([]byte)
	return string(b), ok
}

// A history of saves and loads over a few files
func TestC28_Files(t *testing.T) {
	check(t, "a file is saved at least twice and loaded", 1500, 40000, func(c *C) {
		useJSON()
		e := newC28(c)
		e.keep = true
		defer e.close()
		names := []string{"a", "b.txt", "my file.json", "sub/x", "sub/é", "deep/sub/y", "c.template"}
		model := map[string]string{}
		folders := map[string]bool{"": true}
		saves, loads := 0, 0
		for n := rapid.IntRange(2, 12).Draw(c.T, "operations"); n > 0; n-- {
			name := rapid.SampledFrom(names).Draw(c.T, "file")
			dir := parentOf(name)
			ref := e.arg(e.path(name))
			content, exist := model[name]
			op := rapid.SampledFrom([]string{"save", "save", "save", "saveValue", "copy", "load", "load", "binary", "size", "exists", "isFile", "remove", "include"}).Draw(c.T, "operation")
			switch op {
			case "save", "saveValue", "copy":
				var text, code string
				switch op {
				case "save":
					text = c28Text.Draw(c.T, "text")
					code = fmt.Sprintf("%s %s %s", rapid.SampledFrom([]string{"save", "write", "writeTo"}).Draw(c.T, "name"), ref, e.arg(text))
					if rapid.IntRange(0, 3).Draw(c.T, "pipe") == 0 {
						code = fmt.Sprintf("%s | save %s", e.arg(text), ref)
					}
				case "saveValue":
					v := rapid.SampledFrom([]any{1, 2.5, true, []any{1, 2}, map[string]any{"a": 1}, map[string]any{}, []any{true}, "x"}).Draw(c.T, "value")
					text = map[string]string{"int": fmt.Sprint(v), "float64": fmt.Sprint(v), "bool": fmt.Sprint(v), "string": fmt.Sprint(v)}[fmt.Sprintf("%T", v)]
					switch v.(type) {
					case []any, map[string]any:
						text = jsonText(v)
					}
					code = fmt.Sprintf("save %s %s", ref, e.arg(v))
				default:
					from := rapid.SampledFrom(names).Draw(c.T, "from")
					if _, exist := model[from]; !exist {
						continue
					}
					text = model[from]
					code = fmt.Sprintf("load %s %s | save %s", e.arg(e.path(from)), rapid.SampledFrom([]string{"", "true", "false"}).Draw(c.T, "binary"), ref)
				}
				c.Step("%s", code)
				got, err := e.eval(code)
				if parent := parentOf(dir); dir != "" && !folders[dir] && parent != "" && !folders[parent] {
					if err == nil {
						c.Fatalf("no error when the folder containing the folder does not exist")
					}
					continue
				}
				if err != nil || got != "" {
					c.Fatalf("got %#v, error %v", got, err)
				}
				folders[dir] = true
				model[name] = text
				saves++
			case "load", "binary":
				loads++
				code := fmt.Sprintf("%s %s", rapid.SampledFrom([]string{"load", "read", "readFrom"}).Draw(c.T, "name"), ref)
				if op == "binary" {
					code += " true"
				} else if rapid.Bool().Draw(c.T, "explicit") {
					code += " false"
				}
				c.Step("%s", code)
				got, err := e.eval(code)
				if !exist {
					if err == nil {
						c.Fatalf("no error for a missing file, got %#v", got)
					}
					continue
				}
				text, ok := got.(string)
				if op == "binary" {
					text, ok = c28Bytes(got)
				}
				if err != nil || !ok || text != content {
					c.Fatalf("got %T %q, error %v, want %q", got, text, err, content)
				}
			case "size", "exists", "isFile":
				code := op + " " + ref
				c.Step("%s", code)
				got, err := e.eval(code)
				want := map[string]any{"size": int64(len(content)), "exists": exist, "isFile": true}[op]
				if !exist && op != "exists" {
					if err == nil {
						c.Fatalf("no error for a missing file, got %#v", got)
					}
				} else if err != nil || got != want {
					c.Fatalf("got %#v, error %v, want %v", got, err, want)
				}
			case "remove":
				c.Step("remove %s", name)
				os.Remove(e.path(name))
				delete(model, name)
			case "include":
				// The content of a file without code is included as it is
				if !exist || content == "" || strings.ContainsAny(content, "@{") || strings.Contains(content, "<n") || strings.Contains(content, "}") {
					continue
				}
				code := "include " + e.arg(name)
				c.Step("%s", code)
				if content == name {
					continue
				}
				got, err := e.eval(code)
				if strings.HasPrefix(content, "\ufeff") {
					continue
				}
				if err != nil || got != content {
					c.Fatalf("got %q, error %v, want %q", got, err, content)
				}
			}
		}
		// At the end, the files are exactly those of the model
		count := 0
		filepath.Walk(e.folder, func(p string, info os.FileInfo, err error) error {
			if err == nil && !info.IsDir() {
				count++
			}
			return err
		})
		for name, content := range model {
			if b, err := os.ReadFile(e.path(name)); err != nil || string(b) != content {
				c.Fatalf("file %s: %q, error %v, want %q", name, b, err, content)
			}
		}
		if count != len(model) {
			c.Fatalf("there are %d files, want %d", count, len(model))
		}
		c.NontrivialIf(saves > 1 && loads > 0)
	})
}

func TestC28_Predicates(t *testing.T) {
	check(t, "there are at least three entries", 1500, 40000, func(c *C) {
		e := newC28(c)
		e.keep = true
		defer e.close()
		defer filepath.Walk(e.folder, func(p string, info os.FileInfo, err error) error { os.Chmod(p, 0755); return nil })
		type entry struct {
			dir, file, exist bool
			mode             os.FileMode
			size             int64
		}
		model := map[string]entry{}
		names := []string{"a", "b.sh", "dir", "dir/x", "dir/y y", "link", "link2", "broken", "dir/up", "été"}
		for _, name := range names {
			kind := rapid.SampledFrom([]string{"none", "file", "file", "dir", "link", "loop"}).Draw(c.T, "kind of "+name)
			if parent := parentOf(name); parent != "" && !model[parent].dir {
				kind = "none"
			}
			mode := os.FileMode(rapid.SampledFrom([]int{0644, 0755, 0600, 0400, 0200, 0100, 0000, 0777, 0444, 0111, 0222, 0055, 0700}).Draw(c.T, "mode"))
			switch kind {
			case "file":
				size := rapid.IntRange(0, 5000).Draw(c.T, "size")
				e.write(name, bytes.Repeat([]byte("x"), size), mode)
				model[name] = entry{file: true, exist: true, mode: mode, size: int64(size)}
			case "dir":
				if strings.Contains(name, "/") {
					continue
				}
				mode |= 0700
				os.Mkdir(e.path(name), 0755)
				os.Chmod(e.path(name), mode)
				model[name] = entry{dir: true, exist: true, mode: mode | os.ModeDir}
			case "link":
				to := rapid.SampledFrom([]string{"a", "b.sh", "dir", "missing"}).Draw(c.T, "to")
				if to == name || parentOf(name) != "" {
					continue
				}
				if _, err := os.Lstat(e.path(to)); err != nil && to != "missing" {
					continue // the target must be already there
				}
				os.Symlink(to, e.path(name))
				model[name] = model[to]
			case "loop":
				if name == "broken" {
					os.Symlink("broken", e.path(name))
				}
			}
			c.Step("%s: %s %v", name, kind, model[name])
		}
		c.NontrivialIf(len(model) > 2)
		for i := 0; i < 8; i++ {
			name := rapid.SampledFrom(append(names, "missing", "a/under", ".", "dir/..")).Draw(c.T, "name")
			m := model[name]
			unsure := false
			switch name {
			case ".", "dir/..":
				if name == "." || model["dir"].dir {
					info, _ := os.Stat(e.folder)
					m = entry{dir: true, exist: true, mode: info.Mode()}
				}
				unsure = name != "." && !model["dir"].dir
			case "a/under", "broken":
				unsure = true
			}
			if parent := parentOf(name); parent != "" && !model[parent].dir {
				unsure = true // false or an error
			}
			f := rapid.SampledFrom([]string{"exists", "fileExists", "isExist", "isDir", "isDirectory", "isFolder", "isFile", "isReadable", "isWriteable", "isExecutable", "size", "fileSize", "mode", "fileMode", "lastMod"}).Draw(c.T, "function")
			code := f + " " + e.arg(e.folder+"/"+name)
			c.Step("%s", code)
			got, err := e.eval(code)
			var want any
			switch f {
			case "exists", "fileExists", "isExist":
				if !m.exist && unsure {
					if err == nil && got != false {
						c.Fatalf("got %v", got)
					}
					continue
				}
				if err != nil || got != m.exist {
					c.Fatalf("got %v, error %v, want %v", got, err, m.exist)
				}
				continue
			case "isDir", "isDirectory", "isFolder":
				want = m.dir
			case "isFile":
				want = !m.dir
			case "isReadable":
				want = m.mode&0400 != 0
			case "isWriteable":
				want = m.mode&0200 != 0
			case "isExecutable":
				want = m.mode&0100 != 0 && !m.dir
			case "size", "fileSize":
				want = m.size
			case "mode", "fileMode":
				want = m.mode
			}
			if !m.exist {
				if err == nil {
					c.Fatalf("no error for a missing file, got %v", got)
				}
				continue
			}
			if m.dir && strings.Contains(strings.ToLower(f), "size") {
				continue
			}
			if f == "lastMod" {
				info, _ := os.Stat(e.path(name))
				want = info.ModTime()
			}
			if err != nil || fmt.Sprint(got) != fmt.Sprint(want) || fmt.Sprintf("%T", got) != fmt.Sprintf("%T", want) {
				c.Fatalf("got %T %v, error %v, want %v", got, got, err, want)
			}
		}
	})
}

// A program receives exactly the arguments and its output is the result
func TestC28_Commands(t *testing.T) {
	check(t, "there are at least two arguments", 700, 20000, func(c *C) {
		useJSON()
		e := newC28(c)
		defer e.close()
		var args []string
		values := ""
		simple := true
		for n := rapid.IntRange(0, 5).Draw(c.T, "arguments"); n > 0; n-- {
			var v any = rapid.SampledFrom([]string{"a", "b c", "", "é", "\"q\"", "'", "$HOME", "`id`", "$(id)", "a\nb", "\t", "-x", "--", "nomatch*", "[a]nomatch", "no?x", "[a", "~", ";", "|", "&", "\\", "%s", "x=y", "@name", "{{ .x }}", "#", "<no value>"}).Draw(c.T, "argument")
			if rapid.IntRange(0, 4).Draw(c.T, "other") == 0 {
				v = rapid.SampledFrom([]any{1, true, 2.5, -3}).Draw(c.T, "value")
			}
			if rapid.IntRange(0, 9).Draw(c.T, "pattern") == 0 {
				// A pattern is replaced by the files found
				c.Class("pattern")
				e.write("g2", nil, 0644)
				e.write("g1 x", nil, 0644)
				e.write("h", nil, 0644)
				pattern := rapid.SampledFrom([]string{"g*", "g[12]*", "?[0-9]*"}).Draw(c.T, "pattern")
				args = append(args, e.path("g1 x"), e.path("g2"))
				values += " " + e.arg(e.path(pattern))
				simple = false
				continue
			}
			args = append(args, fmt.Sprint(v))
			simple = simple && regexp.MustCompile(`^[\w.=-]+$`).MatchString(fmt.Sprint(v))
			values += " " + e.arg(v)
		}
		c.NontrivialIf(len(args) > 1)
		call := rapid.SampledFrom([]string{"run", "run", "exec", "execute"}).Draw(c.T, "call")
		var code, want string
		fail := rapid.IntRange(0, 9).Draw(c.T, "fail") == 0
		status := rapid.IntRange(1, 255).Draw(c.T, "status")
		script := "for i in \"$@\"; do printf '<%s>' \"$i\"; done; printf '|%s' \"$#\""
		if fail {
			script += fmt.Sprintf("; printf 'message %%s' failure >&2; exit %d", status)
		}
		want = "<" + strings.Join(args, "><") + ">"
		if len(args) == 0 {
			want = ""
		}
		want += fmt.Sprintf("|%d", len(args))
		kind := rapid.SampledFrom([]string{"program", "file", "file", "path", "string", "command file"}).Draw(c.T, "kind")
		if kind == "string" && (!simple || fail) {
			kind = "program"
		}
		c.Class(kind)
		switch kind {
		case "program":
			code = fmt.Sprintf("%s \"sh\" \"-c\" %s \"sh\"%s", call, e.arg(script), values)
			if strings.Contains(script, "\"") {
				e.ctx["script"] = script
				code = fmt.Sprintf("%s \"sh\" \"-c\" .script \"sh\"%s", call, values)
			}
		case "file", "path":
			name := rapid.SampledFrom([]string{"vpscript", "my script.sh", "sub/s.sh", "été.bash", "s.template"}).Draw(c.T, "name")
			line := rapid.SampledFrom([]string{"#!/bin/sh", "#! /bin/sh", "#!/usr/bin/env sh", "#! /usr/bin/env bash", "#!  /bin/bash  ", "\n#!/bin/sh", "#! sh", "#!/bin/sh -u", "#! bash -e"}).Draw(c.T, "interpreter")
			e.write(name, []byte(line+"\n"+script+"\n"), os.FileMode(rapid.SampledFrom([]int{0644, 0755}).Draw(c.T, "mode")))
			if kind == "path" {
				name = e.path(name)
			}
			code = fmt.Sprintf("%s %s%s", call, e.arg(name), values)
		case "command file":
			// The file has a command with its first arguments
			e.write("printargs", []byte(script+"\n"), 0644)
			first := rapid.SliceOfN(rapid.SampledFrom([]string{"one", "-x", "é", "3", "$HOME", "'q'"}), 0, 3).Draw(c.T, "first")
			e.write("vpcmd", []byte(strings.Join(append([]string{"sh", "printargs"}, first...), " ")+rapid.SampledFrom([]string{"", "\n", " \n\n"}).Draw(c.T, "newline")), 0644)
			all := append(append([]string{}, first...), args...)
			want = fmt.Sprintf("<%s>|%d", strings.Join(all, "><"), len(all))
			if len(all) == 0 {
				want = "|0"
			}
			code = fmt.Sprintf("%s \"vpcmd\"%s", call, values)
		default:
			// Simple words are added to the command
			want = strings.Join(append([]string{"begin"}, args...), " ") + "\n"
			code = fmt.Sprintf("%s %s%s", call, e.arg("echo begin"), values)
		}
		c.Step("%s with %s", code, show(e.ctx))
		got, err := e.eval(code)
		c28Output(c, e, call, got, err, want, fail, status, "message failure")
	})
}

func c28Output(c *C, e *c28Eval, call string, got any, err error, want string, fail bool, status int, message string) {
	if fail {
		c.Class("failure")
		if err == nil {
			c.Fatalf("no error, got %q", got)
		}
		if !strings.Contains(err.Error(), fmt.Sprintf("exit status %d", status)) || !strings.Contains(err.Error(), message) {
			c.Fatalf("the error does not have the status %d and the message %q: %v", status, message, err)
		}
		return
	}
	if err != nil {
		c.Fatalf("error %v, want %q", err, want)
	}
	if call == "run" {
		if got != want {
			c.Fatalf("%s, got %q", firstDiff(fmt.Sprint(got), want), got)
		}
		return
	}
	var data any
	if collections.ConvertData(want, &data) != nil {
		data = want
	} else {
		c.Class("data")
	}
	if show(native(got)) != show(native(data)) {
		c.Fatalf("got %s, want %s", show(got), show(data))
	}
}

// A script, inline or in a file
func TestC28_Scripts(t *testing.T) {
	check(t, "the script has at least two statements with an output", 900, 25000, func(c *C) {
		useJSON()
		e := newC28(c)
		defer e.close()
		e.ctx["name"] = "Joe"
		var lines []string
		want, message := "", ""
		outputs := 0
		code := false
		for n := rapid.IntRange(1, 6).Draw(c.T, "statements"); n > 0; n-- {
			text := strings.NewReplacer("'", "", "\x00", "", "@", "", "{", "", "}", "", "!Q!", "", "\r", "").Replace(c28Text.Draw(c.T, "text"))
			text = regexp.MustCompile(`<n[^>]*>`).ReplaceAllString(text, "")
			if len(text) > 2000 {
				text = text[:2000]
			}
			switch rapid.IntRange(0, 9).Draw(c.T, "statement") {
			case 0, 1:
				lines = append(lines, "printf '%s' '"+text+"'")
				want += text
				outputs++
			case 2:
				lines = append(lines, "echo word")
				want += "word\n"
				outputs++
			case 3:
				lines = append(lines, "printf '%s' '"+text+"' >&2")
				message += text
			case 4:
				lines = append(lines, "X=1", "for i in 1 2 3; do X=\"$X$i\"; done", "echo $X")
				want += "1123\n"
				outputs++
			case 5:
				name := fmt.Sprintf("data%d", n)
				content := c28Text.Draw(c.T, "content")
				e.write(name, []byte(content), 0644)
				lines = append(lines, "cat "+name) // in the folder of the template
				want += content
				outputs++
			case 6:
				lines = append(lines, "false || true", "if [ -d . ]; then pwd; fi")
				want += e.folder + "\n"
				outputs++
			case 7:
				f := rapid.SampledFrom([]frag{{"{{ .name }}", "Joe"}, {"@name;", "Joe"}, {"@(1 + 2)", "3"}, {"{{ range $i := until 3 }}{{ $i }}{{ end }}", "012"}, {"{{ upper \"x\" }}", "X"}}).Draw(c.T, "code")
				lines = append(lines, "echo '"+f.src+"'")
				want += f.want + "\n"
				outputs++
				code = true
			case 8:
				lines = append(lines, "echo '{\"a\": [1, 2.5, \"x\"]}'")
				want += "{\"a\": [1, 2.5, \"x\"]}\n"
				outputs++
			default:
				lines = append(lines, "# comment", "true")
			}
		}
		fail := rapid.IntRange(0, 4).Draw(c.T, "fail") == 0
		status := rapid.IntRange(1, 255).Draw(c.T, "status")
		if fail {
			lines = append(lines, fmt.Sprintf("exit %d", status), "echo never")
		}
		call := rapid.SampledFrom([]string{"run", "run", "exec", "execute"}).Draw(c.T, "call")
		kind := rapid.SampledFrom([]string{"inline", "inline", "file", "alias", "func"}).Draw(c.T, "kind")
		line := rapid.SampledFrom([]string{"", "#!/bin/sh\n", "#! /bin/bash\n", "#! /usr/bin/env bash\n", "#!bash\n", "\n\n#! /bin/sh\n", "#!/bin/bash -u\n"}).Draw(c.T, "interpreter")
		if line == "" && (kind == "file" || strings.HasPrefix(lines[0], "#")) {
			line = "#! /bin/bash\n"
		}
		// A simple word is a command by itself
		lines = append(lines, rapid.SampledFrom([]string{"", ":", "true ", "echo -n", "(true)"}).Draw(c.T, "last"))
		script := line + strings.Join(lines, rapid.SampledFrom([]string{"\n", "\n", "\n\n", "\n  "}).Draw(c.T, "separator"))
		c.Class(kind)
		c.ClassIf(code, "with template code")
		c.NontrivialIf(outputs > 1)
		e.ctx["script"] = script
		var pipeline string
		switch kind {
		case "inline":
			pipeline = call + " .script"
			if rapid.Bool().Draw(c.T, "pipe") {
				pipeline = ".script | " + call
			}
		case "file":
			name := rapid.SampledFrom([]string{"s cript.sh", "sub/script", "sub/a/é.sh"}).Draw(c.T, "file")
			e.write(name, []byte(script), 0644)
			if rapid.Bool().Draw(c.T, "absolute") {
				name = e.path(name)
			}
			pipeline = fmt.Sprintf("%s %s", call, e.arg(name))
		case "alias", "func":
			if call == "execute" {
				call = "exec"
			}
			definition := fmt.Sprintf("{{ alias \"vpScript\" %q .script }}", call)
			if kind == "func" {
				definition = fmt.Sprintf("{{ func \"vpScript\" %q .script (dict \"args\" (list \"first\" \"second\")) }}", call)
			}
			e.write("ext.gte", []byte(definition), 0644)
			pipeline = "vpScript"
			if kind == "func" {
				pipeline += " 1 2"
			}
		}
		c.Step("%s with %q", pipeline, script)
		got, err := e.eval(pipeline)
		c28Output(c, e, call, got, err, want, fail, status, message)
	})
}

// Commands that do not exist and interpreters that fail
func TestC28_Failures(t *testing.T) {
	check(t, "always", 300, 6000, func(c *C) {
		e := newC28(c)
		defer e.close()
		call := rapid.SampledFrom([]string{"run", "exec", "execute"}).Draw(c.T, "call")
		bad := rapid.SampledFrom([]string{"thiscommanddoesnotexist", "no-such-command", "./missing", "/no/such/program", "missing.sh", "été", "noSuch with arguments", "noSuch; noSuch2", "false", "sh -c 'exit 3'", "#! /no/such/interpreter\necho x", "#!noSuchInterpreter\necho x", "#! /bin/sh\nkill -9 $$", "#! /bin/bash\nif then", "exit 1", "echo x; false", "set -e; false; true", "cat /no/such/file"}).Draw(c.T, "command")
		code := call + " " + e.arg(bad)
		if rapid.Bool().Draw(c.T, "file") {
			if !strings.HasPrefix(bad, "#") && strings.ContainsAny(bad, ";'\n") || bad == "exit 1" {
				bad = "#! /bin/sh\n" + bad
			}
			name := rapid.SampledFrom([]string{"s.sh", "vpscript"}).Draw(c.T, "name")
			e.write(name, []byte(bad+rapid.SampledFrom([]string{"", "\n"}).Draw(c.T, "newline")), 0755)
			code = call + " " + e.arg(name)
		}
		c.Nontrivial()
		c.Step("%s with %q %s", code, bad, show(e.ctx))
		if got, err := e.eval(code); err == nil {
			c.Fatalf("no error, got %#v", got)
		}
	})
}

// A data file gives the value that the conversion of its content gives
func TestC28_Data(t *testing.T) {
	check(t, "the data has at least two keys", 900, 25000, func(c *C) {
		e := newC28(c)
		defer e.close()
		fl := drawFlavour(c, "flavour")
		fl.use()
		defer useJSON()
		value := drawDict(c, "value", valueOpts{depth: 2}, 1)
		kind := rapid.SampledFrom([]string{"json", "yaml", "hcl"}).Draw(c.T, "kind")
		text := map[string]func() string{"json": func() string { return jsonText(value) }, "yaml": func() string { return yamlText(c, value, "") }, "hcl": func() string { return hclText(value, "") }}[kind]()
		if strings.Contains(text, "@") || strings.Contains(text, "{{") || strings.Contains(text, "}}") && kind != "json" {
			c.Skip()
		}
		text = strings.ReplaceAll(text, "}}", "} }")
		if reserved.MatchString(text) {
			c.Skip()
		}
		name := rapid.SampledFrom([]string{"f", "data." + kind, "my data." + kind, "sub/d.x"}).Draw(c.T, "name")
		e.write(name, []byte(text), 0644)
		f := rapid.SampledFrom([]string{kind, kind, "data", "DATA", "from" + strings.ToUpper(kind[:1]) + kind[1:], strings.ToUpper(kind)}).Draw(c.T, "function")
		var code string
		form := rapid.IntRange(0, 3).Draw(c.T, "form")
		if !strings.EqualFold(f, "data") {
			form |= 2
		}
		switch form {
		case 0:
			code = fmt.Sprintf("%s %s", f, e.arg(name))
		case 1:
			code = fmt.Sprintf("%s %s", f, e.arg(e.path(name)))
		case 2:
			code = fmt.Sprintf("%s (load %s)", f, e.arg(e.path(name)))
		default:
			code = fmt.Sprintf("load %s | %s", e.arg(e.path(name)), f)
		}
		c.Step("%s %s with %s: %q", fl.name, code, show(e.ctx), text)
		c.NontrivialIf(len(value) > 1)
		e.ctx["text"] = text
		want, err := e.eval(f + " .text")
		if err != nil {
			c.Fatalf("the conversion of the text fails: %v", err)
		}
		got, err := e.eval(code)
		if err != nil || show(native(got)) != show(native(want)) {
			c.Fatalf("got %s, error %v, want %s", show(got), err, show(want))
		}
		if !sameNum(got, value) {
			c.Fatalf("got %s, want %s", show(got), show(value))
		}
	})
}

// glob gives the files matching its arguments, joinPath the cleaned path and lookPath the program found in PATH
func TestC28_Glob(t *testing.T) {
	check(t, "a pattern matches at least two files", 700, 20000, func(c *C) {
		e := newC28(c)
		defer e.close()
		e.keep = true
		names := []string{"a", "ab", "b.c", "B.c", "x1", "x2", "x10", "y z", ".hidden", "é1", "d/a", "d/b.c", "d/x1", "e/x1", "e/é"}
		var files []string
		for _, name := range names {
			if rapid.Bool().Draw(c.T, name) {
				e.write(name, nil, 0644)
				files = append(files, name)
				if dir := parentOf(name); dir != "" && !slices.Contains(files, dir) {
					files = append(files, dir)
				}
			}
		}
		c.Step("files: %q", files)
		args, want, matched := "", []string{}, 0
		for n := rapid.IntRange(0, 4).Draw(c.T, "arguments"); n > 0; n-- {
			pattern := rapid.SampledFrom([]string{"*", "a*", "*.c", "x?", "x[12]", "[^x]*", "d/*", "*/x1", "*/*", "[a-b]", "missing*", "missing", "d/miss?", "a", "e/?", "?1", "d*"}).Draw(c.T, "pattern")
			args += " " + e.arg(e.path(pattern))
			if !strings.ContainsAny(pattern, "*?[]") {
				want = append(want, e.path(pattern))
				continue
			}
			var found []string
			for _, name := range files {
				if matchPath(strings.Split(pattern, "/"), strings.Split(name, "/")) {
					found = append(found, e.path(name))
				}
			}
			if len(found) > 1 {
				matched++
			}
			// The folders are in order, and the files in each of them
			for _, name := range sortStrings(found) {
				want = append(want, name)
			}
		}
		c.NontrivialIf(matched > 0)
		code := rapid.SampledFrom([]string{"glob", "expand"}).Draw(c.T, "function") + args
		c.Step("%s with %s", code, show(e.ctx))
		got, err := e.eval(code)
		if err != nil || show(native(got)) != show(native(stringsToAny(want))) {
			c.Fatalf("got %s, error %v, want %s", show(got), err, show(stringsToAny(want)))
		}

		var parts []string
		args = ""
		for n := rapid.IntRange(0, 5).Draw(c.T, "parts"); n > 0; n-- {
			part := rapid.SampledFrom([]string{"a", "b c", "", ".", "..", "/", "a/b", "/x/", "é", "../..", "//", "./q"}).Draw(c.T, "part")
			parts = append(parts, part)
			args += " " + e.arg(part)
		}
		c.Step("joinPath%s", args)
		if got, err := e.eval("joinPath" + args); err != nil || got != c28Join(parts) {
			c.Fatalf("got %q, error %v, want %q for %q", got, err, c28Join(parts), parts)
		}

		program := rapid.SampledFrom([]string{"p1", "p2", "p3", "p4", "no"}).Draw(c.T, "program")
		var path []string
		expected := ""
		for _, dir := range []string{"bin1", "bin2", "bin3"} {
			kind := rapid.SampledFrom([]string{"none", "program", "text", "dir"}).Draw(c.T, dir)
			path = append(path, e.path(dir))
			switch kind {
			case "program":
				e.write(dir+"/"+program, nil, 0755)
				if expected == "" {
					expected = e.path(dir + "/" + program)
				}
			case "text":
				e.write(dir+"/"+program, nil, 0644)
			case "dir":
				os.MkdirAll(e.path(dir+"/"+program), 0755)
			}
		}
		old := os.Getenv("PATH")
		os.Setenv("PATH", strings.Join(path, ":"))
		code = rapid.SampledFrom([]string{"lookPath", "whereIs", "look", "which", "type"}).Draw(c.T, "which") + " " + e.arg(program)
		c.Step("%s with PATH=%q", code, path)
		got, err = e.eval(code)
		os.Setenv("PATH", old)
		if err != nil || got != expected {
			c.Fatalf("got %q, error %v, want %q", got, err, expected)
		}
	})
}

// c28Join joins and cleans the elements of a path
func c28Join(parts []string) string {
	var result []string
	text := ""
	for _, part := range parts {
		if part != "" && text != "" {
			text += "/"
		}
		text += part
	}
	if text == "" {
		return ""
	}
	rooted := text[0] == '/'
	for _, name := range strings.Split(text, "/") {
		switch {
		case name == "" || name == ".":
		case name == "..":
			if len(result) > 0 && result[len(result)-1] != ".." {
				result = result[:len(result)-1]
			} else if !rooted {
				result = append(result, name)
			}
		default:
			result = append(result, name)
		}
	}
	joined := strings.Join(result, "/")
	if rooted {
		return "/" + joined
	}
	if joined == "" {
		return "."
	}
	return joined
}
