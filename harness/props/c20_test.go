package props

import (
	"fmt"
	"os"
	"os/exec"
	stdpath "path"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/utils"
	"pgregory.net/rapid"
)

// C20: search of files, compared with a model of the tree.

// c20Tree is a folder tree, the paths are relative to its root.
type c20Tree struct {
	dirs  []string // "" is the root
	files []string
	links map[string]string // link => target (relative to the root)
}

var c20Names = []string{"a", "b", "x", "sub", "a b", "..hidden", ".dot", "a..b", "é", "[x]", "a*", "b?", "\\y", "{z}", "link"}
var c20Files = []string{"a.gt", "b.gt", "a.template", "x.txt", "y.txt", "main.tf", "a", "A.GT", ".gt", "x.gt.bak", "a b.gt", "[a].gt", "é.gt", "*.gt", "x.gte.no"}

func drawTree(c *C, links bool) (tree c20Tree) {
	tree.dirs = []string{""}
	tree.links = map[string]string{}
	used := map[string]bool{"": true}
	for n := rapid.IntRange(0, 7).Draw(c.T, "dirs"); n > 0; n-- {
		parent := rapid.SampledFrom(tree.dirs).Draw(c.T, "parent")
		name := rapid.SampledFrom(c20Names).Draw(c.T, "dir")
		if rapid.IntRange(0, 9).Draw(c.T, "like a file") == 0 {
			name = rapid.SampledFrom(c20Files).Draw(c.T, "dir name")
		}
		d := stdpath.Join(parent, name)
		if !used[d] {
			used[d] = true
			tree.dirs = append(tree.dirs, d)
		}
	}
	for n := rapid.IntRange(1, 10).Draw(c.T, "files"); n > 0; n-- {
		f := stdpath.Join(rapid.SampledFrom(tree.dirs).Draw(c.T, "folder"), rapid.SampledFrom(c20Files).Draw(c.T, "file"))
		if !used[f] {
			used[f] = true
			tree.files = append(tree.files, f)
		}
	}
	if links {
		for n := rapid.IntRange(0, 4).Draw(c.T, "links"); n > 0; n-- {
			l := stdpath.Join(rapid.SampledFrom(tree.dirs).Draw(c.T, "link folder"), rapid.SampledFrom([]string{"l1", "0link", "z.gt", "link"}).Draw(c.T, "link"))
			if used[l] {
				continue
			}
			used[l] = true
			if len(tree.files) > 0 && rapid.IntRange(0, 4).Draw(c.T, "to file") == 0 {
				tree.links[l] = rapid.SampledFrom(tree.files).Draw(c.T, "target file")
			} else {
				tree.links[l] = rapid.SampledFrom(tree.dirs).Draw(c.T, "target folder")
			}
		}
	}
	return
}

func (tree c20Tree) create(c *C, root string, absolute bool) {
	for _, d := range tree.dirs {
		os.MkdirAll(filepath.Join(root, d), 0755)
	}
	for _, f := range tree.files {
		if err := os.WriteFile(filepath.Join(root, f), []byte("{{ 1 }}"), 0644); err != nil {
			c.Fatalf("preparation: %v", err)
		}
	}
	for l, target := range tree.links {
		target = filepath.Join(root, target)
		if !absolute {
			target, _ = filepath.Rel(filepath.Dir(filepath.Join(root, l)), target)
		}
		if err := os.Symlink(target, filepath.Join(root, l)); err != nil {
			c.Fatalf("preparation: %v", err)
		}
	}
}

func (tree c20Tree) isDir(p string) bool {
	for _, d := range tree.dirs {
		if d == p {
			return true
		}
	}
	return false
}

// folders returns the folders at the requested depth or less below a folder
func (tree c20Tree) folders(from string, depth int, follow bool) []string {
	seen := map[string]bool{from: true}
	result := []string{from}
	for level := result; depth > 0 && len(level) > 0; depth-- {
		var next []string
		visit := func(d string) {
			if !seen[d] {
				seen[d] = true
				next = append(next, d)
			}
		}
		for _, parent := range level {
			for _, d := range tree.dirs {
				if d != "" && parentOf(d) == parent {
					visit(d)
				}
			}
			for l, target := range tree.links {
				if follow && parentOf(l) == parent && tree.isDir(target) {
					visit(target)
				}
			}
		}
		result = append(result, next...)
		level = next
	}
	return result
}

func parentOf(p string) string {
	if p = stdpath.Dir(p); p == "." {
		return ""
	}
	return p
}

// find returns the files matching the patterns
func (tree c20Tree) find(from string, depth int, follow bool, patterns []string) []string {
	set := map[string]bool{}
	for _, d := range tree.folders(from, depth, follow) {
		all := append([]string{}, tree.files...)
		for l, target := range tree.links {
			if !tree.isDir(target) {
				all = append(all, l)
			}
		}
		for _, f := range all {
			if parentOf(f) == d {
				for _, p := range patterns {
					if ok, _ := stdpath.Match(p, stdpath.Base(f)); ok {
						set[f] = true
					}
				}
			}
		}
	}
	return sortedKeys(set)
}

func (tree c20Tree) String() string {
	s := "folders: " + strings.Join(tree.dirs, ", ") + "\nfiles: " + strings.Join(tree.files, ", ")
	for _, l := range sortedKeys(tree.links) {
		s += "\nlink: " + l + " => " + tree.links[l]
	}
	return s
}

var c20Patterns = []string{"*.gt", "*.template", "*", "*.txt", "a*", "?.gt", "[ab].*", "[^a].gt", "a.gt", "main.tf", "*.none", ".*", "a b.*", "\\[a\\].gt", "\\*.gt", "*[!]x", "é*"}

func drawPatterns(c *C, label string, max int) []string {
	return rapid.SliceOfN(rapid.SampledFrom(c20Patterns), 0, max).Draw(c.T, label)
}

func TestC20_Search(t *testing.T) {
	base, _ := filepath.EvalSymlinks(filepath.Dir(emptyDir))
	base = filepath.Join(base, "c20")
	os.MkdirAll(base, 0755)
	defer os.RemoveAll(base)
	check(t, "the tree has links or at least two levels and a file is found", 4000, 100000, func(c *C) {
		emptyFolder(base)
		tree := drawTree(c, rapid.Bool().Draw(c.T, "with links"))
		root := filepath.Join(base, rapid.SampledFrom([]string{"root", "root", "[r]", "a*", "x y", "r\\t", "{a,b}", "?"}).Draw(c.T, "root"))
		tree.create(c, root, rapid.Bool().Draw(c.T, "absolute links"))
		os.MkdirAll(filepath.Join(base, "r"), 0755) // could match the name of the root if it were a pattern
		os.WriteFile(filepath.Join(base, "r", "wrong.gt"), nil, 0644)
		depth := rapid.SampledFrom([]int{0, 1, 2, 3, 1 << 16}).Draw(c.T, "depth")
		follow := rapid.Bool().Draw(c.T, "follow")
		patterns := drawPatterns(c, "patterns", 4)
		from := rapid.SampledFrom(tree.dirs).Draw(c.T, "from")
		access := filepath.Join(root, from)
		way := rapid.SampledFrom([]string{"absolute", "absolute", "relative", "current", "link", "not clean"}).Draw(c.T, "way")
		defer os.Chdir(emptyDir)
		switch way {
		case "relative":
			os.Chdir(root)
			if from == "" {
				access = "."
			} else {
				access = from
			}
		case "current":
			os.Chdir(access)
			access = "."
		case "link":
			os.Symlink(access, filepath.Join(base, "access"))
			access = filepath.Join(base, "access")
		case "not clean":
			access += "/./"
		}
		c.Case("%s\nroot=%s from=%q (%s) depth=%d follow=%v patterns=%q", tree, root, from, way, depth, follow, patterns)
		want := tree.find(from, depth, follow, patterns)
		c.NontrivialIf(len(want) > 0 && (len(tree.links) > 0 || len(tree.dirs) > 2))
		c.ClassIf(follow && len(tree.links) > 0, "links followed")
		c.ClassIf(len(want) > 0, "found")
		files, err := utils.FindFilesMaxDepth(access, depth, follow, patterns...)
		if err != nil {
			c.Fatalf("error %v", err)
		}
		got := make([]string, len(files))
		for i, f := range files {
			abs, _ := filepath.Abs(f)
			dir, err := filepath.EvalSymlinks(filepath.Dir(abs))
			if err != nil {
				c.Fatalf("%s: %v", f, err)
			}
			got[i], _ = filepath.Rel(root, filepath.Join(dir, filepath.Base(abs)))
		}
		sort.Strings(got)
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			c.Fatalf("\n got %q\nwant %q\nraw %q", got, want, files)
		}
		if depth == 0 || depth == 1<<16 {
			// The other function
			other, err := utils.FindFiles(access, depth != 0, follow, patterns...)
			if err != nil || strings.Join(other, "\n") != strings.Join(files, "\n") {
				c.Fatalf("FindFiles: %v %q instead of %q", err, other, files)
			}
		}
	})
}

// matchPath is a matcher of patterns with ** on whole paths
func matchPath(pattern, name []string) bool {
	if len(pattern) == 0 {
		return len(name) == 0
	}
	if pattern[0] == "**" {
		for i := 0; i <= len(name); i++ {
			if matchPath(pattern[1:], name[i:]) {
				return true
			}
		}
		return false
	}
	if len(name) == 0 {
		return false
	}
	ok, _ := stdpath.Match(pattern[0], name[0])
	return ok && matchPath(pattern[1:], name[1:])
}

func cli(dir string, env []string, stdin string, args ...string) (stdout, stderr string, code int) {
	if cliPath == "" {
		panic("VP_CLI is not set")
	}
	cmd := exec.Command(cliPath, args...)
	cmd.Dir = dir
	cmd.Env = append([]string{"PATH=/usr/local/bin:/usr/bin:/bin", "HOME=" + emptyDir, "TMPDIR=" + filepath.Dir(emptyDir), "LANG=C.UTF-8"}, env...)
	if stdin != "" {
		cmd.Stdin = strings.NewReader(stdin)
	} else {
		cmd.Env = append(cmd.Env, "GOTEMPLATE_NO_STDIN=1")
	}
	var out, errOut strings.Builder
	cmd.Stdout, cmd.Stderr = &out, &errOut
	err := cmd.Run()
	code = cmd.ProcessState.ExitCode()
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		panic(err)
	}
	return out.String(), errOut.String(), code
}

func TestC20_CommandLine(t *testing.T) {
	base, _ := filepath.EvalSymlinks(filepath.Dir(emptyDir))
	base = filepath.Join(base, "c20cli")
	os.MkdirAll(base, 0755)
	defer os.RemoveAll(base)
	check(t, "files are selected in a folder and others are not", 1000, 30000, func(c *C) {
		emptyFolder(base)
		tree := drawTree(c, rapid.IntRange(0, 2).Draw(c.T, "with links") == 0)
		root := filepath.Join(base, rapid.SampledFrom([]string{"root", "root", "[r]", "x y"}).Draw(c.T, "root"))
		tree.create(c, root, rapid.Bool().Draw(c.T, "absolute links"))
		out := filepath.Join(base, "out")
		os.Mkdir(out, 0755)
		args := []string{"--target", out, "--overwrite"}
		dir := root
		if rapid.Bool().Draw(c.T, "source") {
			dir = base
			args = append(args, "--source", root)
		}
		depth := 0
		switch rapid.IntRange(0, 4).Draw(c.T, "recursion") {
		case 0:
		case 1, 2:
			args = append(args, rapid.SampledFrom([]string{"-r", "--recursive"}).Draw(c.T, "option"))
			depth = 1 << 16
		case 3:
			depth = rapid.IntRange(1, 3).Draw(c.T, "depth")
			args = append(args, fmt.Sprintf("--recursion-depth=%d", depth))
		case 4:
			depth = rapid.IntRange(1, 2).Draw(c.T, "depth")
			args = append(args, "-r", "-R", fmt.Sprint(depth))
		}
		follow := rapid.IntRange(0, 2).Draw(c.T, "follow") == 0
		if follow {
			args = append(args, rapid.SampledFrom([]string{"-f", "--follow-symlinks"}).Draw(c.T, "option"))
		}
		list := func(option, short string, values []string) {
			if len(values) > 1 && rapid.Bool().Draw(c.T, "joined") {
				args = append(args, option+"="+strings.Join(values, rapid.SampledFrom([]string{",", ", ", " ,"}).Draw(c.T, "comma")))
				return
			}
			for _, v := range values {
				if rapid.Bool().Draw(c.T, "short") {
					args = append(args, short, v)
				} else {
					args = append(args, option+"="+v)
				}
			}
		}
		patterns := drawPatterns(c, "patterns", 4)
		list("--patterns", "-p", patterns)
		excluded := rapid.SliceOfN(rapid.SampledFrom([]string{"*.txt", "a/*", "sub/**", "**/a.gt", "**/*.txt", "a.gt", "./*.gt", "*/*.gt", "**", "a b/*.gt", "nothing", "**/[ab].*", "sub/../a.gt", "ABS/a.gt", "ABS/*/a.gt", "b", "**/x/**", "?.gt", ".*"}), 0, 5).Draw(c.T, "excluded")
		if strings.ContainsAny(filepath.Base(root), "[]") {
			for i := range excluded {
				excluded[i] = strings.Replace(excluded[i], "ABS", ".", 1) // an absolute pattern would have to be escaped
			}
		}
		actual := make([]string, len(excluded))
		for i := range excluded {
			actual[i] = strings.Replace(excluded[i], "ABS", root, 1)
		}
		list("--exclude", "-e", actual)
		all := append(append([]string{}, patterns...), "*.gt", "*.template")
		var explicit []string
		if len(tree.files) > 0 && rapid.IntRange(0, 4).Draw(c.T, "explicit") == 0 {
			// with explicit files, the default patterns are not searched
			all = patterns
			explicit = []string{rapid.SampledFrom(tree.files).Draw(c.T, "file")}
			args = append(append([]string{"run"}, args...), "--", explicit[0])
		}
		c.Case("%s\nin %s: %q\n", tree, strings.TrimPrefix(dir, base), args)
		selected := tree.find("", depth, follow, all)
		for _, f := range explicit {
			selected = append(selected, f)
		}
		want := map[string]bool{}
		count := 0
		for _, f := range selected {
			exclude := false
			for _, p := range excluded {
				p = stdpath.Clean(strings.TrimPrefix(p, "ABS/"))
				exclude = exclude || matchPath(strings.Split(p, "/"), strings.Split(f, "/"))
			}
			if !exclude {
				count++
				result := strings.TrimSuffix(strings.TrimSuffix(f, ".gt"), ".template")
				if stdpath.Base(f) == ".gt" {
					c.Skip() // has no name at all
				}
				want[result] = true
			}
		}
		for f := range want {
			for d := parentOf(f); d != ""; d = parentOf(d) {
				if want[d] {
					c.Skip() // the result of a file is the folder of another one
				}
			}
		}
		if len(selected) > 0 && rapid.IntRange(0, 15).Draw(c.T, "malformed") == 0 {
			// the first exclusion pattern cannot be understood
			at := 0
			if args[0] == "run" {
				at = 1
			}
			args = append(append(append([]string{}, args[:at]...), rapid.SampledFrom([]string{"--exclude=[", "--exclude=[a-", "--exclude={"}).Draw(c.T, "pattern")), args[at:]...)
			c.Class("malformed pattern")
			before := scan(root)
			if stdout, stderr, code := cli(dir, nil, "", args...); code == 0 || scan(root).diff(before) != "" {
				c.Fatalf("malformed pattern %q: exit code %d\nstdout: %s\nstderr: %s", args, code, stdout, stderr)
			}
			return
		}
		c.NontrivialIf(count > 0 && count < len(tree.files))
		c.ClassIf(len(excluded) > 0 && count < len(selected), "excluded")
		c.ClassIf(follow && len(tree.links) > 0, "links followed")
		before := scan(root)
		stdout, stderr, code := cli(dir, nil, "", args...)
		got := map[string]bool{}
		for f, v := range scan(out) {
			rel, _ := filepath.Rel(out, f)
			if !v.dir {
				got[rel] = true
			}
		}
		if g, w := sortedKeys(got), sortedKeys(want); code != 0 || fmt.Sprintf("%q", g) != fmt.Sprintf("%q", w) {
			// two files may give the same result, one being a folder for the other
			c.Fatalf("exit code %d\nstdout: %s\nstderr: %s\n got %q\nwant %q", code, stdout, stderr, g, w)
		}
		if diff := scan(root).diff(before); diff != "" {
			c.Fatalf("the source has changed: %s", diff)
		}
	})
}

func TestC20_Glob(t *testing.T) {
	base := filepath.Join(filepath.Dir(emptyDir), "c20glob")
	os.MkdirAll(base, 0755)
	defer os.RemoveAll(base)
	eng := engines{}
	check(t, "an argument is expanded to at least one path", 3000, 80000, func(c *C) {
		emptyFolder(base)
		tree := drawTree(c, false)
		tree.create(c, base, true)
		os.Chdir(base)
		defer os.Chdir(emptyDir)
		args := rapid.SliceOfN(rapid.SampledFrom([]string{"*", "*.gt", "a*", "*/*.gt", "sub/*", "?.gt", "[ab]*", "*/*/*", "none*", "a.gt", "plain", "sub", "sub/x.txt", "a b/*", "*.none", "\\[x\\]/*", "x/?.*", "ABS/*.gt", "ABS/a*", "[^a]*", "", " ", "{a,b}.gt", "$HOME", "~"}), 0, 4).Draw(c.T, "args")
		var want, actual []string
		expanded := false
		all := append(append([]string{}, tree.dirs[1:]...), tree.files...)
		sort.Slice(all, func(i, j int) bool { return c20Less(all[i], all[j]) })
		for _, a := range args {
			actual = append(actual, strings.Replace(a, "ABS", base, 1))
			if !strings.ContainsAny(a, "*?[]") {
				want = append(want, a)
				continue
			}
			for _, p := range all {
				if matchPath(strings.Split(strings.TrimPrefix(a, "ABS/"), "/"), strings.Split(p, "/")) {
					expanded = true
					if strings.HasPrefix(a, "ABS/") {
						p = base + "/" + p
					}
					want = append(want, p)
				}
			}
		}
		c.Case("%s\nglob %q", tree, args)
		c.NontrivialIf(expanded)
		ctx := collections.CreateDictionary()
		_ = ctx
		src := "{{ range (" + rapid.SampledFrom([]string{"glob", "expand"}).Draw(c.T, "name")
		for _, a := range actual {
			src += fmt.Sprintf(" %q", a)
		}
		src += ") }}{{ quote . }}\n{{ end }}"
		got, err := eng.get(c, "", "strict", nil).ProcessContent(src, "vp")
		var text string
		for _, w := range want {
			text += fmt.Sprintf("%q\n", w)
		}
		if err != nil || got != text {
			c.Fatalf("error %v\n got %s\nwant %s", err, got, text)
		}
		direct := utils.GlobFuncTrim(stringsToAny(actual)...)
		if fmt.Sprintf("%q", direct) != fmt.Sprintf("%q", want) {
			c.Fatalf("GlobFuncTrim: got %q, want %q", direct, want)
		}
	})
}

func stringsToAny(list []string) (result []any) {
	for _, s := range list {
		result = append(result, s)
	}
	return
}

// c20Less compares paths folder by folder
func c20Less(a, b string) bool {
	x, y := strings.Split(a, "/"), strings.Split(b, "/")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	return len(x) < len(y)
}
