package props

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"syscall"
	"testing"

	"github.com/coveooss/gotemplate/v3/template"
	"github.com/coveooss/multilogger/errors"
	"pgregory.net/rapid"
)

// C19: processing of files, compared with a model of the file system.

type vfile struct {
	content string
	mode    os.FileMode
	dir     bool
}

type vfs map[string]vfile

// scan reads the whole content of a folder.
func scan(root string) vfs {
	result := vfs{}
	filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err != nil || path == root {
			return nil
		}
		switch {
		case info.IsDir():
			result[path] = vfile{dir: true}
		case info.Mode()&os.ModeSymlink != 0:
			link, _ := os.Readlink(path)
			result[path] = vfile{content: "=> " + link}
		default:
			content, _ := os.ReadFile(path)
			result[path] = vfile{content: string(content), mode: info.Mode().Perm()}
		}
		return nil
	})
	return result
}

// write creates the files in the actual file system.
func (fs vfs) write(c *C) {
	for _, path := range sortedKeys(fs) {
		f := fs[path]
		var err error
		if f.dir {
			err = os.MkdirAll(path, 0755)
		} else {
			os.MkdirAll(filepath.Dir(path), 0755)
			if err = os.WriteFile(path, []byte(f.content), f.mode); err == nil {
				err = os.Chmod(path, f.mode)
			}
		}
		if err != nil {
			c.Fatalf("unable to prepare %s: %v", path, err)
		}
	}
}

// mkdirs adds the parents, it returns false if one of them is a file
func (fs vfs) mkdirs(dir, root string) bool {
	for d := dir; len(d) > len(root); d = filepath.Dir(d) {
		if f, exist := fs[d]; exist && !f.dir {
			return false
		}
	}
	for d := dir; len(d) > len(root); d = filepath.Dir(d) {
		fs[d] = vfile{dir: true}
	}
	return true
}

func (fs vfs) String() string {
	var lines []string
	for _, k := range sortedKeys(fs) {
		if fs[k].dir {
			lines = append(lines, k+"/")
		} else {
			lines = append(lines, fmt.Sprintf("%s %o %q", k, fs[k].mode, fs[k].content))
		}
	}
	return strings.Join(lines, "\n")
}

func (fs vfs) diff(want vfs) string {
	var result []string
	for _, k := range sortedKeys(fs) {
		if w, ok := want[k]; !ok {
			result = append(result, fmt.Sprintf("unexpected %s %+v", k, fs[k]))
		} else if w != fs[k] {
			result = append(result, fmt.Sprintf("%s: got mode=%o dir=%v %q, want mode=%o dir=%v %q", k, fs[k].mode, fs[k].dir, fs[k].content, w.mode, w.dir, w.content))
		}
	}
	for _, k := range sortedKeys(want) {
		if _, ok := fs[k]; !ok {
			result = append(result, fmt.Sprintf("missing %s %+v", k, want[k]))
		}
	}
	return strings.Join(result, "\n")
}

func emptyFolder(dir string) {
	entries, _ := os.ReadDir(dir)
	for _, e := range entries {
		if strings.HasPrefix(dir, filepath.Dir(emptyDir)) {
			os.RemoveAll(filepath.Join(dir, e.Name()))
		}
	}
}

var c19Lines = []frag{
	{"word", "word"}, {"key: value", "key: value"}, {"", ""}, {"  x = 1", "  x = 1"}, {"été", "été"}, {"joe@x.com", "joe@x.com"}, {"@@name", "@name"}, {"{{ .name }}", "Joe"}, {"@name", "Joe"}, {"@(1 + 2)", "3"}, {"{{ \"same\" }}", "same"},
	{"{{ if .t }}yes{{ end }}", "yes"}, {"{{- /* eat */ -}}", "\x01"}, {"a\tb ", "a\tb "}, {"{{ \"\" }}", ""}, {"{{ .cfg.key }}\r", "val\r"}, {"#! not a script", "#! not a script"}, {"x}}", "x}}"},
}

type c19Content struct {
	text, want string
	known      bool
}

func c19Text(c *C) (result c19Content) {
	kind := rapid.SampledFrom([]string{"text", "text", "text", "text", "plain", "blank", "error", "strict error", "script", "script", "gotemplate", "disabled", "binary", "empty", "undefined"}).Draw(c.T, "content")
	var frags []frag
	for n := rapid.IntRange(0, 4).Draw(c.T, "lines"); n > 0; n-- {
		f := rapid.SampledFrom(c19Lines).Draw(c.T, "line")
		frags = append(frags, frag{f.src + "\n", f.want + "\n"})
	}
	src, want := join(frags)
	result = c19Content{text: src, want: want, known: !strings.Contains(want, "\x01") && !strings.Contains(src, "x}}")}
	switch kind {
	case "plain":
		text := rapid.SampledFrom([]string{"plain", "plain text\n", "a\r\nb\r\n", "no newline at end", "\n\n", "x\n#!/bin/sh\n"}).Draw(c.T, "plain")
		return c19Content{text, text, true}
	case "blank":
		return c19Content{text: rapid.SampledFrom([]string{"{{ \"\" }}", "  \n", "{{ if .f }}x{{ end }}\n", "@# only a comment\n", "{{ \" \" }}\n\n"}).Draw(c.T, "blank")}
	case "error":
		result.text, result.known = src+rapid.SampledFrom([]string{"{{ raise \"oops\" }}\n", "{{ bad\n", "@(1 / 0)\n", "{{ index .l 9 }}"}).Draw(c.T, "error"), false
	case "strict error":
		result.text, result.known = "# force-gotemplate!\n"+src+"{{ raise \"oops\" }}\n", false
	case "undefined":
		result.text, result.known = src+"{{ .missing }}\n", false
	case "script":
		line := rapid.SampledFrom([]string{"#!/bin/sh\n", "#! /usr/bin/env bash\n", "#!/usr/bin/python\r\n", "\n#!/bin/sh\n"}).Draw(c.T, "shebang")
		result.text, result.want = line+src, line+want
	case "gotemplate":
		line := rapid.SampledFrom([]string{"#!/usr/bin/env gotemplate\n", "#! gotemplate run\n"}).Draw(c.T, "shebang")
		result.text = line + src
	case "disabled":
		result.text = "# no-gotemplate!\n" + src + "{{ bad @x\n"
		result.want, result.known = result.text, true
	case "binary":
		result.text = "\x00\xff\xfe binary \x80\n"
		result.want, result.known = result.text, true
	case "empty":
		result = c19Content{"", "", true}
	}
	return
}

var c19Bases = []string{"a", "b", "main", "file.x", ".hidden", "a b", "é"}
var c19Exts = []string{"", ".yml", ".txt", ".sh", ".tf", ".json", ".gtx", ".generated"}
var c19Dirs = []string{"", "", "sub", "sub/deep", "dir.x", "other dir"}

var c19Umask = func() os.FileMode {
	m := syscall.Umask(0022)
	syscall.Umask(m)
	return os.FileMode(m)
}()

// c19Stdout records what is sent to the standard output by the library
type c19Stdout struct{ text string }

func (r *c19Stdout) install() func() {
	oldPrint, oldPrintln := template.Print, template.Println
	template.Print = func(args ...interface{}) (int, error) { r.text += fmt.Sprint(args...); return 0, nil }
	template.Println = func(args ...interface{}) (int, error) { r.text += fmt.Sprintln(args...); return 0, nil }
	return func() { template.Print, template.Println = oldPrint, oldPrintln }
}

type c19Outcome struct {
	result  string
	changed bool
	printed bool
	err     bool
}

func TestC19_Files(t *testing.T) {
	eng := map[string]*template.Template{}
	oracle := map[string]*template.Template{}
	root := filepath.Join(filepath.Dir(emptyDir), "c19")
	os.MkdirAll(root, 0755)
	defer os.RemoveAll(root)
	check(t, "at least two files are given, one of which is written", 2500, 60000, func(c *C) {
		emptyFolder(root)
		defer os.Chdir(emptyDir)
		src := filepath.Join(root, "src")
		// The initial tree
		fs := vfs{src: {dir: true}}
		contents := map[string]c19Content{}
		var names []string
		for n := rapid.IntRange(1, 5).Draw(c.T, "files"); n > 0; n-- {
			name := filepath.Join(src, rapid.SampledFrom(c19Dirs).Draw(c.T, "dir"), rapid.SampledFrom(c19Bases).Draw(c.T, "base")+rapid.SampledFrom(c19Exts).Draw(c.T, "ext")+rapid.SampledFrom([]string{"", ".gt", ".template"}).Draw(c.T, "template"))
			content := c19Text(c)
			mode := rapid.SampledFrom([]os.FileMode{0644, 0644, 0755, 0600, 0700}).Draw(c.T, "mode")
			if _, exist := fs[name]; exist || !fs.mkdirs(filepath.Dir(name), root) {
				continue
			}
			fs[name] = vfile{content: content.text, mode: mode}
			contents[content.text] = content
			names = append(names, name)
		}
		opts := template.DefaultOptions()
		optText := ""
		flag := func(o template.Options, label string, one int) bool {
			if rapid.IntRange(0, one).Draw(c.T, label) == 0 {
				opts[o] = true
				optText += label + " "
				return true
			}
			return false
		}
		overwrite := flag(template.Overwrite, "overwrite", 1)
		strict := flag(template.StrictErrorCheck, "strict", 2)
		stdout := flag(template.OutputStdout, "stdout", 4)
		target := rapid.SampledFrom([]string{src, src, src, filepath.Join(root, "out"), filepath.Join(root, "out"), filepath.Join(root, "new", "out"), filepath.Join(src, "sub")}).Draw(c.T, "target")
		// Obstacles
		switch rapid.IntRange(0, 9).Draw(c.T, "obstacle") {
		case 0:
			// a folder exists at the place of the result or of the backup
			name := names[rapid.IntRange(0, len(names)-1).Draw(c.T, "of")]
			name = rapid.SampledFrom([]string{name + ".original", strings.TrimSuffix(strings.TrimSuffix(name, ".gt"), ".template")}).Draw(c.T, "place")
			name = filepath.Join(target, strings.TrimPrefix(name, src))
			if _, exist := fs[name]; !exist && fs.mkdirs(filepath.Dir(name), root) {
				fs[name] = vfile{dir: true}
				fs[filepath.Join(name, "keep")] = vfile{content: "keep", mode: 0644}
				c.Class("obstacle")
			}
		case 1:
			// a file exists instead of a folder of the target
			if target != src && target != filepath.Join(src, "sub") {
				if fs.mkdirs(target, root) {
					fs[filepath.Join(target, "sub")] = vfile{content: "file", mode: 0644}
					c.Class("obstacle")
				}
			}
		case 2:
			// the results already exist
			for _, name := range names {
				name = filepath.Join(target, strings.TrimPrefix(strings.TrimSuffix(strings.TrimSuffix(name, ".gt"), ".template"), src))
				if _, exist := fs[name]; !exist && fs.mkdirs(filepath.Dir(name), root) {
					fs[name] = vfile{content: "previous", mode: 0640}
				}
			}
		}
		// What is processed
		relative := rapid.Bool().Draw(c.T, "relative")
		var args, paths []string
		for n := rapid.IntRange(1, 6).Draw(c.T, "args"); n > 0; n-- {
			path := rapid.SampledFrom(names).Draw(c.T, "arg")
			switch rapid.IntRange(0, 15).Draw(c.T, "special") {
			case 0:
				path = filepath.Join(src, "missing.yml.gt")
			case 1:
				path = filepath.Dir(path)
			}
			arg := path
			if relative {
				arg, _ = filepath.Rel(src, path)
			}
			args, paths = append(args, arg), append(paths, path)
		}
		c.Case("options=%s\ntarget=%s args=%q relative=%v\n%s", optText, target, args, relative, fs)
		fs.write(c)
		os.Chdir(src)

		key := optText
		if eng[key] == nil {
			var err error
			if eng[key], err = newTemplate(c13Context18(), "", opts); err != nil {
				c.Fatalf("newTemplate: %v", err)
			}
			strictOpts := template.DefaultOptions()
			strictOpts[template.StrictErrorCheck] = strict
			oracle[key], _ = newTemplate(c13Context18(), "", strictOpts)
		}

		// What a handler called after each template does
		policy := ""
		if rapid.IntRange(0, 2).Draw(c.T, "handler") == 0 {
			policy = rapid.SampledFrom([]string{"observe", "observe", "alter", "empty", "alter silently", "refuse", "rescue"}).Draw(c.T, "policy")
			c.Step("handler: %s", policy)
			c.Class("handler")
		}
		handle := func(text string, changed bool, status error) (string, bool, error) {
			switch policy {
			case "alter":
				if status == nil {
					return "#!/bin/sh\n" + strings.ToUpper(text) + "\nend\n", true, nil
				}
			case "alter silently":
				if status == nil {
					return text + "\nsilent\n", false, nil
				}
			case "empty":
				if status == nil {
					return "", true, nil
				}
			case "refuse":
				if strings.Contains(text, "o") {
					return text, false, fmt.Errorf("refused")
				}
			case "rescue":
				if status != nil {
					return "rescued\n", true, nil
				}
			}
			return text, false, status
		}
		type call struct {
			name, original, result string
			changed, failed        bool
		}
		var wantCalls, calls []call

		// The model
		want := vfs{}
		for k, v := range fs {
			want[k] = v
		}
		var results []string
		printed, failures, written := "", 0, 0
		for i, path := range paths {
			file, exist := want[path]
			if !exist || file.dir {
				failures++
				continue
			}
			content := file.content
			text, err := oracle[key].ProcessContent(content, args[i])
			if err != nil && policy == "" {
				failures++
				continue
			}
			if known, ok := contents[content]; ok && known.known && err == nil && text != known.want {
				c.Fatalf("the oracle gives %q for %q, expected %q", text, content, known.want)
			}
			changed := text != content
			if policy != "" {
				observed := call{args[i], content, text, changed, err != nil}
				if err != nil {
					observed.result, observed.changed, changed = "", false, false
				}
				wantCalls = append(wantCalls, observed)
				var byHandler bool
				if text, byHandler, err = handle(text, changed, err); err != nil {
					failures++
					continue
				}
				changed = changed || byHandler
			}
			isTemplate := strings.HasSuffix(path, ".gt") || strings.HasSuffix(path, ".template")
			result := filepath.Join(target, strings.TrimPrefix(strings.TrimSuffix(strings.TrimSuffix(path, ".gt"), ".template"), src))
			ext := filepath.Ext(result)
			toStdout := stdout || strings.HasPrefix(content, "#!") && strings.Contains(strings.SplitN(content, "\n", 2)[0], "gotemplate")
			if isTemplate {
				if strings.TrimSpace(text) == "" && ext == "" {
					continue
				}
				if !overwrite {
					result = strings.TrimSuffix(result, ext) + ".generated" + ext
				}
			}
			if toStdout {
				printed += text
				continue
			}
			if target == src && !changed && !isTemplate {
				continue
			}
			if target != src {
				if !want.mkdirs(filepath.Dir(result), root) {
					failures++
					continue
				}
			} else if !isTemplate && !overwrite {
				if want[path+".original"].dir {
					failures++
					continue
				}
				want[path+".original"] = want[path]
				delete(want, path)
			}
			if want[result].dir {
				failures++
				continue
			}
			mode := file.mode
			first := strings.SplitN(strings.TrimSpace(text), "\n", 2)[0]
			if words := len(strings.Fields(strings.TrimPrefix(first, "#!"))); strings.HasPrefix(first, "#!") && words > 0 && words < 3 {
				mode = 0755
			}
			if previous, exist := want[result]; exist {
				mode = previous.mode
			} else {
				mode &^= c19Umask
			}
			want[result] = vfile{content: text, mode: mode}
			if isTemplate && overwrite && target == src {
				delete(want, path)
			}
			results = append(results, result)
			written++
			c.ClassIf(changed, "changed")
			c.ClassIf(isTemplate, "template")
			c.ClassIf(mode&0100 != 0, "executable")
		}
		c.ClassIf(failures > 0, "failures")
		c.ClassIf(failures > 0 && written > 0, "failures and successes")
		c.ClassIf(printed != "", "printed")
		c.NontrivialIf(len(args) > 1 && written > 0)

		var out c19Stdout
		restore := out.install()
		var got []string
		var err error
		if policy == "" {
			got, err = eng[key].ProcessTemplates(src, target, append([]string{}, args...)...)
		} else {
			got, err = eng[key].ProcessTemplatesWithHandler(src, target, func(name, original string, result *string, changed bool, status error) (bool, error) {
				observed := call{name, original, *result, changed, status != nil}
				if strings.HasPrefix(original, "#!") && strings.Contains(original, "gotemplate") {
					observed.changed = true // removing the first line of a text without code is not seen as a change
				}
				if status != nil {
					observed.result, observed.changed = "", false
				}
				calls = append(calls, observed)
				var byHandler bool
				*result, byHandler, status = handle(*result, changed, status)
				return byHandler, status
			}, append([]string{}, args...)...)
		}
		restore()
		if len(got) != len(results) || len(got) > 0 && !reflect.DeepEqual(got, results) {
			c.Fatalf("error %v\nresult files %q, want %q", err, got, results)
		}
		if (err != nil) != (failures > 0) {
			c.Fatalf("%d failures expected, error %v", failures, err)
		}
		if list, ok := err.(errors.Array); ok && len(list) != failures {
			c.Fatalf("%d failures expected, error %v", failures, err)
		}
		if !reflect.DeepEqual(calls, wantCalls) {
			c.Fatalf("error %v\nthe handler was called with\n%q\nexpected\n%q", err, calls, wantCalls)
		}
		if out.text != printed {
			c.Fatalf("printed %q, want %q", out.text, printed)
		}
		if diff := scan(root).diff(want); diff != "" {
			c.Fatalf("error %v\n%s", err, diff)
		}
	})
}
