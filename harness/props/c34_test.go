package props

// C34: every error of a content is reported with its place.

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

type c34Fault struct {
	class string
	src   string // %d is replaced by a distinct number
	says  string // what the error must mention
}

var c34Faults = []c34Fault{
	{"variable", "{{ $undef%d }}", "$undef%d"}, {"variable", "@{undef%d}", "$undef%d"}, {"variable", "@($undef%d + 1)", "$undef%d"}, {"variable", "{{ add $undef%d 1 }}", "$undef%d"},
	{"function", "{{ noFunc%d 1 }}", "noFunc%d"}, {"function", "@noFunc%d(1)", "noFunc%d"}, {"function", "{{ 1 | noFunc%d }}", "noFunc%d"},
	{"raise", "{{ raise \"message %d\" }}", "message %d"}, {"raise", "@raise(\"message %d\")", "message %d"}, {"raise", "{{ assert false \"message %d\" }}", "message %d"}, {"raise", "@assert(1 > 2, \"message %d\")", "message %d"},
	{"raise", "{{ raise \"first\\nmessage %d\" }}", "message %d"}, {"raise", "{{ assert false \"%d\\n\\nlast\" }}", "last"}, {"raise", "{{ raise \"100%% of {%d} <$1> ${x}\" }}", "of {%d} <$1> ${x}"}, {"raise", "{{ raise (print \"{\" \"{ if }\" \"} %d\") }}", "if }} %d"},
	{"call", "{{ div %d 0 }}", "division by 0"}, {"call", "@(%d / 0)", "division by 0"}, {"call", "{{ index (list %d) 9 }}", "out of range"}, {"call", "{{ toInt%d }}", "toInt%d"}, {"call", "{{ fromJson \"{%d\" }}", "fromJson"},
	{"syntax", "{{ if }}%d", "missing value for if"}, {"syntax", "{{ end }}%d", "unexpected {{end}}"}, {"syntax", "{{ add ( %d }}", "unclosed left paren"}, {"syntax", "{{ \"abc%d }}", "unterminated quoted string"}, {"syntax", "{{ # %d }}", "unexpected"}, {"syntax", "{{ add %d ) }}", "right paren"},
}

var c34Fine = []string{"text", "", "  ", "é 日本", "{{ .name }}", "@name;", "@(1 + 2) tail", "{{ range .list }}{{ . }}{{ end }}", "@if (true) yes @end", "{{/* comment */}}", "joe@x.com", "@# comment", "{{ $x := 3 }}{{ $x }}", "#! line", "a: b", "{{ add 1 2 }} {{ upper \"x\" }}"}

func TestC34_AllReported(t *testing.T) {
	eng := engines{}
	place := regexp.MustCompile(`(?m)^(?:[a-z /]*/)?vp(?:\.gt)?:(\d+)`)
	check(t, "at least two lines are faulty", 8000, 60000, func(c *C) {
		var lines []string
		faulty := map[int]c34Fault{}
		classes := map[string]bool{}
		for n := rapid.IntRange(1, 12).Draw(c.T, "lines"); n > 0; n-- {
			if rapid.IntRange(0, 2).Draw(c.T, "what") > 0 {
				lines = append(lines, rapid.SampledFrom(c34Fine).Draw(c.T, "fine"))
				continue
			}
			f := rapid.SampledFrom(c34Faults).Draw(c.T, "fault")
			id := fmt.Sprint(len(lines) + 100)
			if rapid.IntRange(0, 4).Draw(c.T, "same") == 0 {
				id = "7" // the same fault on several lines
			}
			f.src, f.says = strings.ReplaceAll(f.src, "%d", id), strings.ReplaceAll(f.says, "%d", id)
			before, after := rapid.SampledFrom([]string{"", "", "text ", "a: ", "{{ .name }} "}).Draw(c.T, "before"), rapid.SampledFrom([]string{"", "", " text", " {{ .name }}"}).Draw(c.T, "after")
			if f.class == "syntax" {
				after = ""
			}
			classes[f.class] = true
			if f.class != "syntax" && rapid.IntRange(0, 3).Draw(c.T, "block") == 0 {
				// executed once or several times in a block
				block := rapid.SampledFrom([]string{"{{ if true }}|{{ end }}", "{{ range .list }}|{{ end }}", "@if (true)|@end", "@foreach (list)|@end", "{{ with .list }}|{{ end }}", "{{ if not .name }}never{{ else }}|{{ end }}", "@with (name)|@end"}).Draw(c.T, "which block")
				first, last, _ := strings.Cut(block, "|")
				lines = append(lines, first, rapid.SampledFrom(c34Fine).Draw(c.T, "inside"), before+f.src+after, last)
				for i := len(lines) - 3; i < len(lines)-1; i++ {
					lines[i] = strings.NewReplacer(".name", "$.name", ".list", "$.list").Replace(lines[i])
				}
				faulty[len(lines)-1] = f
				classes["block"] = true
				continue
			}
			lines = append(lines, before+f.src+after)
			faulty[len(lines)] = f
		}
		source := rapid.SampledFrom([]string{"vp", "vp.gt", "folder/vp", "a b/vp.gt", "/vp/vp"}).Draw(c.T, "source")
		delims := rapid.SampledFrom([]string{"", "", "", "[[,]],€", "<%,%>,§"}).Draw(c.T, "delims")
		if delims != "" {
			d := strings.Split(delims, ",")
			r := strings.NewReplacer("{{", d[0], "}}", d[1], "@", d[2])
			for i := range lines {
				lines[i] = r.Replace(lines[i])
			}
			classes["delimiters"] = true
		}
		src := strings.Join(lines, "\n")
		c.Case("source=%q delims=%q %q", source, delims, src)
		c.NontrivialIf(len(faulty) > 1)
		for k := range classes {
			c.Class(k)
		}
		tpl := eng.get(c, delims, "strict", map[string]any{"name": "Joe", "list": []any{1, 2}})
		_, err := tpl.ProcessContent(src, source)
		if len(faulty) == 0 {
			if err != nil {
				c.Fatalf("%v", err)
			}
			return
		}
		if err == nil {
			c.Fatalf("no error")
		}
		text := err.Error()
		got := map[int]string{}
		places := place.FindAllStringSubmatchIndex(text, -1)
		for i, m := range places {
			end := len(text)
			if i+1 < len(places) {
				end = places[i+1][0]
			}
			n, _ := strconv.Atoi(text[m[2]:m[3]])
			got[n] += text[m[0]:end]
		}
		stray := 0 // an unmatched end is reported in place of what follows it and of the execution errors
		for n, f := range faulty {
			if strings.Contains(f.src, "end") && f.class == "syntax" && (stray == 0 || n < stray) {
				stray = n
			}
		}
		stopped := strings.Contains(text, "Unable to continue processing to check for further errors")
		if stopped && stray == 0 {
			c.Fatalf("the search of errors has stopped:\n%s", text)
		}
		c.ClassIf(stopped, "stopped")
		for n, f := range faulty {
			if stopped && n != stray && (n > stray || f.class != "syntax" && f.class != "function" && f.class != "variable") {
				continue
			}
			if got[n] == "" {
				c.Fatalf("the error of line %d is not reported:\n%s", n, text)
			}
			if !strings.Contains(got[n], f.says) || !strings.Contains(got[n], "in: "+lines[n-1]) {
				c.Fatalf("the error of line %d does not have %q and %q:\n%s", n, f.says, lines[n-1], text)
			}
		}
		for n := range got {
			if _, ok := faulty[n]; !ok {
				c.Fatalf("line %d is reported:\n%s", n, text)
			}
		}
	})
}
