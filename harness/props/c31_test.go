package props

// C31: messages go to the logs and never to the result; assertions stop exactly when they fail.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"testing"

	"github.com/coveooss/gotemplate/v3/template"
	"github.com/fatih/color"
	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
)

type c31Message struct {
	level logrus.Level
	text  string
}

// c31Hook keeps what it receives
type c31Hook struct{ got *[]c31Message }

func (h c31Hook) Levels() []logrus.Level { return logrus.AllLevels }
func (h c31Hook) Fire(e *logrus.Entry) error {
	*h.got = append(*h.got, c31Message{e.Level, e.Message})
	return nil
}

type c31Doc struct {
	c     *C
	n     int
	sent  []c31Message
	fails string // message of the first assertion that fails
	razor bool
}

var c31Levels = map[string]logrus.Level{
	"trace": logrus.TraceLevel, "tracef": logrus.TraceLevel, "debug": logrus.DebugLevel, "debugf": logrus.DebugLevel, "info": logrus.InfoLevel, "infof": logrus.InfoLevel,
	"notice": logrus.InfoLevel, "noticef": logrus.InfoLevel, "warning": logrus.WarnLevel, "warn": logrus.WarnLevel, "warnf": logrus.WarnLevel, "warningf": logrus.WarnLevel,
	"error": logrus.ErrorLevel, "errorf": logrus.ErrorLevel, "critical": logrus.ErrorLevel, "criticalf": logrus.ErrorLevel,
}

// message draws the arguments of a message: their code and the text they make. The text of item (range variable) is substituted.
func (d *c31Doc) message(item string) (code []string, text string) {
	d.n++
	id := fmt.Sprintf("message-%d", d.n)
	word := rapid.SampledFrom([]string{"word", "two words", "é", "a<b>&c", "tab\there", "{}", "[x]"}).Draw(d.c.T, "word")
	number := rapid.IntRange(-5, 1000).Draw(d.c.T, "number")
	v, vcode := word, fmt.Sprintf("%q", word)
	if item != "" && rapid.Bool().Draw(d.c.T, "item") {
		v, vcode = item, "$item"
	}
	switch rapid.IntRange(0, 4).Draw(d.c.T, "message") {
	case 0:
		return []string{fmt.Sprintf("%q", id)}, id
	case 1:
		return []string{fmt.Sprintf("%q", id), vcode, fmt.Sprint(number)}, fmt.Sprintf("%s %s %d", id, v, number)
	case 2:
		return []string{fmt.Sprintf("%q", id+" %s and %d"), vcode, fmt.Sprint(number)}, fmt.Sprintf("%s %s and %d", id, v, number)
	case 3:
		return []string{fmt.Sprintf("%q", id+" %v%%"), vcode}, fmt.Sprintf("%s %v%%", id, v)
	default:
		return []string{vcode, fmt.Sprintf("%q", id)}, v + " " + id
	}
}

func (d *c31Doc) call(f string, args []string) string {
	if d.razor && rapid.Bool().Draw(d.c.T, "razor") {
		return "@" + f + "(" + strings.Join(args, ", ") + ");"
	}
	return "{{ " + f + " " + strings.Join(args, " ") + " }}"
}

var c31Zero = []string{"false", "0", `""`, "0.0", "nil", "(list)", "(dict)", "(eq 1 2)", "$.empty", "$.nothing", "(and 1 0)", "(list | len)", "``"}
var c31NonZero = []string{"true", "1", `"x"`, "0.5", "(list 0)", "(dict `a` 0)", "(eq 1 1)", "$.full", "-1", `"false"`, `"0"`, "(not 0)", `" "`}

// body writes code and returns what it renders; dead tells that this part is not evaluated
func (d *c31Doc) body(depth int, dead bool, item string) (code, text string) {
	for i := rapid.IntRange(0, 4).Draw(d.c.T, "nodes"); i >= 0; i-- {
		live := !dead && d.fails == ""
		send := func(level logrus.Level, text string) {
			if live {
				d.sent = append(d.sent, c31Message{level, text})
			}
		}
		switch k := rapid.IntRange(0, 9).Draw(d.c.T, "node"); {
		case k == 0 && depth > 0:
			cond := rapid.Bool().Draw(d.c.T, "cond")
			c1, t1 := d.body(depth-1, dead || !cond, item)
			c2, t2 := d.body(depth-1, dead || cond, item)
			code += fmt.Sprintf("{{ if %v }}", cond) + c1 + "{{ else }}" + c2 + "{{ end }}"
			if cond {
				text += t1
			} else {
				text += t2
			}
		case k == 1 && depth > 0 && item == "":
			// the same body is evaluated for each item: it is drawn once, with one item
			c1, t1 := d.body(0, dead, "one")
			code += "{{ range $item := list `one` }}" + c1 + "{{ end }}"
			text += t1
		case k <= 2:
			w := rapid.SampledFrom([]string{"text", " ", "\n", "line\n", "é", "a b "}).Draw(d.c.T, "text")
			code += w
			text += w
		case k == 3:
			args, message := d.message(item)
			test := rapid.SampledFrom(c31NonZero).Draw(d.c.T, "test")
			code += "{{ " + rapid.SampledFrom([]string{"assert", "assertion", "assertWarning", "assertw"}).Draw(d.c.T, "assert") + " " + test
			if rapid.Bool().Draw(d.c.T, "explained") {
				code += " " + strings.Join(args, " ")
			}
			code += " }}"
			_ = message
			d.c.Class("passed assertion")
		case k == 4:
			args, message := d.message(item)
			test := rapid.SampledFrom(c31Zero).Draw(d.c.T, "test")
			code += "{{ " + rapid.SampledFrom([]string{"assertWarning", "assertw"}).Draw(d.c.T, "assert") + " " + test
			if rapid.Bool().Draw(d.c.T, "explained") {
				code += " " + strings.Join(args, " ")
			} else {
				message = "Assertion failed"
			}
			code += " }}"
			send(logrus.WarnLevel, message)
			d.c.Class("warning assertion")
		case k == 5 && rapid.IntRange(0, 5).Draw(d.c.T, "fail") == 0:
			args, message := d.message(item)
			if rapid.Bool().Draw(d.c.T, "raise") {
				code += "{{ " + rapid.SampledFrom([]string{"raise", "raise"}).Draw(d.c.T, "raise name") + " " + strings.Join(args, " ") + " }}"
			} else {
				test := rapid.SampledFrom(c31Zero).Draw(d.c.T, "test")
				code += "{{ " + rapid.SampledFrom([]string{"assert", "assertion"}).Draw(d.c.T, "assert") + " " + test
				if rapid.Bool().Draw(d.c.T, "explained") {
					code += " " + strings.Join(args, " ")
				} else {
					message = "Assertion failed"
				}
				code += " }}"
			}
			if live {
				d.fails = message
			}
		default:
			args, message := d.message(item)
			f := rapid.SampledFrom(sortedKeys(c31Levels)).Draw(d.c.T, "function")
			code += d.call(f, args)
			send(c31Levels[f], message)
		}
	}
	return
}

var c31LevelNames = []string{"panic", "fatal", "error", "warning", "info", "debug", "trace"}

func TestC31_Messages(t *testing.T) {
	check(t, "documents with messages of every level, assertions and raised errors, at generated log levels; a case is non-trivial when a message is sent or an assertion fails", 3000, 50000, func(c *C) {
		color.NoColor = true
		useJSON()
		d := &c31Doc{c: c, razor: rapid.Bool().Draw(c.T, "razor")}
		src, want := d.body(2, false, "")
		level := rapid.IntRange(0, 6).Draw(c.T, "level")
		internal := rapid.SampledFrom(c31LevelNames).Draw(c.T, "internal")
		strict := rapid.Bool().Draw(c.T, "strict")
		c.Case("level %d, internal %s, strict %v: %q", level, internal, strict, src)
		c.NontrivialIf(len(d.sent) > 0 || d.fails != "")
		o := template.DefaultOptions()
		o[template.Razor] = d.razor
		o[template.StrictErrorCheck] = strict
		o[template.AcceptNoValue] = false
		tpl, err := newTemplate(map[string]any{"empty": []any{}, "full": []any{0}}, "", o)
		if err != nil {
			c.Fatalf("%v", err)
		}
		var got []c31Message
		// Logging options are global: they are restored after the case
		oldT, oldI := template.TemplateLog, template.InternalLog
		template.TemplateLog, template.InternalLog = oldT.Copy(), oldI.Copy()
		defer func() { template.TemplateLog, template.InternalLog = oldT, oldI }()
		template.TemplateLog.RemoveHook("")
		template.InternalLog.RemoveHook("")
		if _, err := template.TemplateLog.TryAddHook("vp", level, c31Hook{&got}); err != nil {
			c.Fatalf("%v", err)
		}
		var ignored []c31Message
		if _, err := template.InternalLog.TryAddHook("vp", internal, c31Hook{&ignored}); err != nil {
			c.Fatalf("%v", err)
		}
		result, err := tpl.ProcessContent(src, "vp")
		if d.fails != "" {
			c.Class("failed assertion")
			if strict && (err == nil || !strings.Contains(err.Error(), d.fails)) {
				c.Fatalf("%q: the error is %v, want %s", src, err, d.fails)
			}
			if !strict && (err != nil || result != src) {
				c.Fatalf("%q gives %q (%v)", src, result, err)
			}
			return
		}
		if err != nil || result != want {
			c.Fatalf("%q gives %q (%v), want %q", src, result, err, want)
		}
		var expected []c31Message
		for _, m := range d.sent {
			if int(m.level) <= level {
				expected = append(expected, m)
			} else {
				c.Class("message below the level")
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(expected) {
			c.Fatalf("%q at level %d sends %v, want %v", src, level, got, expected)
		}
	})
}

// The level of internal logs has no influence on the conversion of razor programs.
func TestC31_Internal(t *testing.T) {
	check(t, "razor programs rendered at every internal log level; a case is non-trivial when the program has a block or an assignment", 300, 5000, func(c *C) {
		g := &sGen{c: c, t: c.T, locals: map[string]byte{}, dot: 'r',
			globals: map[string]byte{"a": 'n', "b": 'n', "zero": 'n', "name": 's', "empty_text": 's', "nums": 'l', "none": 'l', "strs": 't'}}
		g.body(6)
		var b strings.Builder
		for _, i := range g.items {
			b.WriteString(i.src)
		}
		src := b.String()
		if rapid.Bool().Draw(c.T, "long strings") {
			src += "\n@a;@print(`several\nlines @a {{ }}`)\n@print(\"text @b\")\n@(a+1)*2 @a@b.com\n"
		}
		c.Case("%s", src)
		c.NontrivialIf(g.blocks > 0 || g.sets > 0)
		ctx, _ := c15Context()
		want, wantErr := render(src, ctx)
		old := template.InternalLog
		defer func() { template.InternalLog = old }()
		for _, level := range []string{"info", "debug", "trace"} {
			template.InternalLog = old.Copy()
			template.InternalLog.RemoveHook("")
			var ignored []c31Message
			if _, err := template.InternalLog.TryAddHook("vp", level, c31Hook{&ignored}); err != nil {
				c.Fatalf("%v", err)
			}
			ctx, _ = c15Context()
			got, err := render(src, ctx)
			if got != want || (err == nil) != (wantErr == nil) {
				c.Fatalf("at level %s, %s\n got %q (%v)\nwant %q (%v)", level, src, got, err, want, wantErr)
			}
		}
	})
}

var c31Line = regexp.MustCompile(`(?m)^\[gotemplate\] \S+ \S+ ([A-Z]+) +(.*)$`)

// The command line: standard output has only the result, the error output and the log file have the messages of their level, exit codes are those asked for.
func TestC31_CommandLine(t *testing.T) {
	base, _ := filepath.EvalSymlinks(filepath.Dir(emptyDir))
	base = filepath.Join(base, "c31cli")
	os.MkdirAll(base, 0755)
	defer os.RemoveAll(base)
	check(t, "contents with messages, ended or not by exit or fatal, with levels for the console and for the file; a case is non-trivial when a message is sent or the process is ended", 300, 6000, func(c *C) {
		emptyFolder(base)
		d := &c31Doc{c: c, razor: true}
		src, want := d.body(2, false, "")
		src = "start\n" + src + "\nx{{ 1 }}\n"
		want = "start\n" + want + "\nx1\n"
		if strings.Contains(src, "\\t") {
			c.Skip() // a tabulation is not kept by the console
		}
		code, sent := 0, d.sent
		if d.fails != "" {
			code = 1
		} else {
			switch rapid.IntRange(0, 3).Draw(c.T, "end") {
			case 0:
				code = rapid.IntRange(0, 100).Draw(c.T, "code")
				src += fmt.Sprintf("{{ exit %d }}{{ info `never` }}", code)
				want = ""
				c.Class("exit")
			case 1:
				src += "{{ fatal `the end %d` 5 }}{{ info `never` }}"
				sent = append(sent, c31Message{logrus.FatalLevel, "the end 5"})
				code, want = 1, ""
				c.Class("fatal")
			}
		}
		level, fileLevel := rapid.IntRange(1, 6).Draw(c.T, "level"), rapid.IntRange(1, 6).Draw(c.T, "file level")
		args := []string{"--no-color", "--var", "full=1", "--var", "empty=0", "--template-log-level", c31LevelNames[level], "--source", base}
		file := filepath.Join(filepath.Dir(base), "c31.log")
		os.RemoveAll(file)
		if rapid.Bool().Draw(c.T, "file") {
			args = append(args, "--internal-log-file-path", file, "--template-log-file-level", c31LevelNames[fileLevel])
		} else {
			fileLevel = -1
		}
		c.Case("%q %v", src, args)
		c.NontrivialIf(len(sent) > 0 || code != 0)
		out, errOut, rc := cli(base, nil, src, args...)
		if rc != code {
			c.Fatalf("%q: the exit code is %d (%s), want %d", src, rc, errOut, code)
		}
		if d.fails != "" {
			if !strings.Contains(errOut, d.fails) {
				c.Fatalf("%q: %q does not contain %q", src, errOut, d.fails)
			}
			return
		}
		if out != want {
			c.Fatalf("%q prints %q, want %q", src, out, want)
		}
		messages := func(limit int) (list []string) {
			for _, m := range sent {
				if int(m.level) <= limit {
					list = append(list, fmt.Sprintf("%s %s", strings.ToUpper(c31LevelNames[m.level]), m.text))
				}
			}
			return
		}
		read := func(text string) (list []string) {
			for _, m := range c31Line.FindAllStringSubmatch(text, -1) {
				list = append(list, m[1]+" "+m[2])
			}
			return
		}
		if got, want := read(errOut), messages(level); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			c.Fatalf("%q at level %s prints %q\n%q, want %q", src, c31LevelNames[level], errOut, got, want)
		}
		if fileLevel >= 0 {
			content, _ := os.ReadFile(file)
			if got, want := read(string(content)), messages(fileLevel); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
				c.Fatalf("%q at level %s writes %q\n%q, want %q", src, c31LevelNames[fileLevel], content, got, want)
			}
			c.Class("log file")
		}
	})
}
