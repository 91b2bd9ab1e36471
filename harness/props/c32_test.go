package props

// C32: the git and network functions report what the repository and the server hold.

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/coveooss/gotemplate/v3/template"
	git "github.com/go-git/go-git/v5"
	gitconfig "github.com/go-git/go-git/v5/config"
	"github.com/go-git/go-git/v5/plumbing"
	"github.com/go-git/go-git/v5/plumbing/object"
	"pgregory.net/rapid"
)

func TestC32_Git(t *testing.T) {
	base, _ := filepath.EvalSymlinks(filepath.Dir(emptyDir))
	base = filepath.Join(base, "c32")
	os.MkdirAll(base, 0755)
	defer os.RemoveAll(base)
	var tpl *template.Template
	check(t, "repositories built by generated histories (commits, branches, detached heads, remotes), queried after each step; a case is non-trivial when it has two commits at least", 150, 2500, func(c *C) {
		emptyFolder(base)
		if tpl == nil {
			tpl, _ = newTemplate(map[string]any{}, "", noRazorOptions())
		}
		dir := filepath.Join(base, rapid.SampledFrom([]string{"repo", "a b", "é"}).Draw(c.T, "folder"))
		repo, err := git.PlainInit(dir, false)
		if err != nil {
			t.Fatal(err)
		}
		tree, _ := repo.Worktree()
		branches := map[string]string{} // branch -> commit
		var commits []string
		head, detached, branch := "", false, "master"
		origin := ""
		query := func(f, path string) (string, error) {
			return tpl.ProcessContent(fmt.Sprintf("{{ %s %q }}", f, path), "vp")
		}
		expect := func(f, want string) {
			got, err := query(f, dir)
			if want == "" && err == nil {
				c.Fatalf("%s gives %q, want an error", f, got)
			}
			if want != "" && (err != nil || got != want) {
				c.Fatalf("%s gives %q (%v), want %q", f, got, err, want)
			}
		}
		must := func(err error) {
			if err != nil {
				t.Fatal(err)
			}
		}
		n := rapid.IntRange(1, 8).Draw(c.T, "steps")
		steps := ""
		for i := 0; i <= n; i++ {
			if i > 0 {
				switch k := rapid.SampledFrom([]string{"commit", "commit", "branch", "checkout", "detach", "origin", "remote"}).Draw(c.T, "step"); k {
				case "commit":
					os.WriteFile(filepath.Join(dir, "file"), []byte(fmt.Sprint(i, rapid.IntRange(0, 5).Draw(c.T, "content"))), 0644)
					_, err := tree.Add("file")
					must(err)
					hash, err := tree.Commit(fmt.Sprint("step ", i), &git.CommitOptions{AllowEmptyCommits: true, Author: &object.Signature{Name: "n", Email: "e@x.y", When: time.Unix(int64(1e9+i), 0)}})
					must(err)
					head = hash.String()
					commits = append(commits, head)
					if !detached {
						branches[branch] = head
					}
					steps += "commit "
				case "branch":
					if head == "" {
						continue
					}
					name := rapid.SampledFrom([]string{"dev", "feature/x", "feature/x-y", "v1.0", "HEAD2", "é"}).Draw(c.T, "branch")
					if _, exist := branches[name]; exist {
						continue
					}
					must(tree.Checkout(&git.CheckoutOptions{Branch: plumbing.NewBranchReferenceName(name), Create: true}))
					branch, detached = name, false
					branches[name] = head
					steps += "branch:" + name + " "
				case "checkout":
					if len(branches) == 0 {
						continue
					}
					branch = rapid.SampledFrom(sortedKeys(branches)).Draw(c.T, "branch")
					must(tree.Checkout(&git.CheckoutOptions{Branch: plumbing.NewBranchReferenceName(branch), Force: true}))
					head, detached = branches[branch], false
					steps += "checkout:" + branch + " "
				case "detach":
					if len(commits) == 0 {
						continue
					}
					head = rapid.SampledFrom(commits).Draw(c.T, "commit")
					must(tree.Checkout(&git.CheckoutOptions{Hash: plumbing.NewHash(head), Force: true}))
					detached = true
					steps += "detach "
				case "origin", "remote":
					name := "upstream"
					if k == "origin" {
						name = "origin"
					}
					url := rapid.SampledFrom([]string{"https://x.y/z.git", "git@github.com:a/b.git", "/some/path", "ssh://h:22/r"}).Draw(c.T, "url")
					urls := []string{url}
					if rapid.Bool().Draw(c.T, "several") {
						urls = append(urls, "https://other/url")
					}
					repo.DeleteRemote(name)
					_, err := repo.CreateRemote(&gitconfig.RemoteConfig{Name: name, URLs: urls})
					must(err)
					if k == "origin" {
						origin = url
					}
					steps += k + " "
				}
			}
			current := branch
			if detached || head == "" {
				current = ""
				if detached {
					c.Class("detached head")
				}
			}
			c.Step("%s", steps)
			expect("currentCommit", head)
			expect("currentBranch", current)
			expect("origin", origin)
		}
		c.Case("%s", steps)
		c.NontrivialIf(len(commits) > 1)
		for _, f := range []string{"currentCommit", "currentBranch", "origin"} {
			if got, err := query(f, filepath.Join(base, "nothing here")); err == nil {
				c.Fatalf("%s gives %q on a folder that does not exist", f, got)
			}
		}
	})
}

func TestC32_Http(t *testing.T) {
	var mutex sync.Mutex
	var status int
	var body, header, method string
	var requested []string
	server := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mutex.Lock()
		defer mutex.Unlock()
		requested = append(requested, r.URL.RequestURI())
		method = r.Method
		if strings.HasPrefix(r.URL.Path, "/redirect/") {
			http.Redirect(w, r, "/target"+strings.TrimPrefix(r.URL.Path, "/redirect"), http.StatusFound)
			return
		}
		w.Header().Set("X-Header", header)
		w.Header().Set("Content-Type", "text/html; charset=utf-8")
		w.WriteHeader(status)
		fmt.Fprint(w, body)
	}))
	defer server.Close()
	var tpl *template.Template
	check(t, "requests to a local server with generated paths, statuses, headers and documents; every case is non-trivial", 400, 6000, func(c *C) {
		if tpl == nil {
			tpl, _ = newTemplate(map[string]any{}, "", noRazorOptions())
		}
		c.Nontrivial()
		texts := rapid.SliceOfN(rapid.SampledFrom([]string{"one", "two words", "é日本", "a &amp; b", "1 &lt; 2", "", "x"}), 0, 4).Draw(c.T, "texts")
		plain := strings.NewReplacer("&amp;", "&", "&lt;", "<")
		doc, wantText := "", ""
		for i, s := range texts {
			doc += fmt.Sprintf("<p class=\"c%d\" id=\"i%d\">%s</p>", i%2, i, s)
			wantText += plain.Replace(s)
		}
		path := rapid.SampledFrom([]string{"/", "/a/b", "/a%20b?x=1&y=2", "/redirect/z", "/%C3%A9?q=a%26b"}).Draw(c.T, "path")
		mutex.Lock()
		body = "<html><head></head><body>" + doc + "</body></html>"
		header = rapid.SampledFrom([]string{"v", "some value", "1"}).Draw(c.T, "header")
		status = rapid.SampledFrom([]int{200, 200, 201, 404, 418, 500, 503}).Draw(c.T, "status")
		requested = nil
		wantStatus, wantHeader := status, header
		mutex.Unlock()
		url := server.URL + path
		c.Case("%s %d %q %q", path, wantStatus, wantHeader, texts)
		code := fmt.Sprintf("{{ $r := httpGet %q }}{{ $r.StatusCode }}|{{ $r.Header.Get `X-Header` }}|{{ $r.Body.Close }}", url)
		got, err := tpl.ProcessContent(strings.Replace(code, "{{ $r.Body.Close }}", "", 1), "vp")
		if want := fmt.Sprintf("%d|%s|", wantStatus, wantHeader); err != nil || got != want {
			c.Fatalf("httpGet %s gives %q (%v), want %q", url, got, err, want)
		}
		name := rapid.SampledFrom([]string{"httpDoc", "httpDocument", "curl"}).Draw(c.T, "name")
		pos := rapid.IntRange(0, 4).Draw(c.T, "pos")
		code = fmt.Sprintf("{{ $d := %s %q }}{{ ($d.Find \"body\").Text }}|{{ ($d.Find \"p\").Length }}|{{ ($d.Find \"#i%d\").Text }}", name, url, pos)
		one := ""
		if pos < len(texts) {
			one = plain.Replace(texts[pos])
		}
		got, err = tpl.ProcessContent(code, "vp")
		if want := fmt.Sprintf("%s|%d|%s", wantText, len(texts), one); err != nil || got != want {
			c.Fatalf("%s %s gives %q (%v), want %q", name, url, got, err, want)
		}
		mutex.Lock()
		defer mutex.Unlock()
		want := []string{path, path}
		if strings.HasPrefix(path, "/redirect/") {
			want = []string{path, "/target/z", path, "/target/z"}
		}
		if fmt.Sprint(requested) != fmt.Sprint(want) || method != "GET" {
			c.Fatalf("the requests are %s %v, want %v", method, requested, want)
		}
		if rapid.IntRange(0, 9).Draw(c.T, "refused") == 0 {
			if got, err := tpl.ProcessContent("{{ httpDoc \"http://127.0.0.1:1/x\" }}", "vp"); err == nil {
				c.Fatalf("a refused connection gives %q", got)
			}
		}
	})
}
