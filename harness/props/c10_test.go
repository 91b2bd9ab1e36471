package props

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// refSlice is the reference rule for slices: a negative bound counts from the end (-1 is the end itself),
// bounds are clamped, and the section is reversed when the end precedes the start.
func refSlice(length, begin, end int) (lo, hi int, reversed bool) {
	if begin < 0 {
		begin += length + 1
	}
	if end < 0 {
		end += length + 1
	}
	if end < begin {
		begin, end, reversed = end, begin, true
	}
	clamp := func(i int) int {
		if i < 0 {
			return 0
		}
		if i > length {
			return length
		}
		return i
	}
	return clamp(begin), clamp(end), reversed
}

func refSliceList(l []any, begin, end int) []any {
	lo, hi, rev := refSlice(len(l), begin, end)
	result := append([]any{}, l[lo:hi]...)
	if rev {
		for i, j := 0, len(result)-1; i < j; i, j = i+1, j-1 {
			result[i], result[j] = result[j], result[i]
		}
	}
	return result
}

// drawIndex draws a position, its notation, and keeps in ctx what the notation needs.
func drawIndex(c *C, name string, length int, inside bool, ctx map[string]any, literalOnly bool) (int, string) {
	var i int
	if inside {
		i = rapid.IntRange(-length, length-1).Draw(c.T, name)
	} else {
		i = rapid.OneOf(rapid.IntRange(-length-3, length+3), rapid.IntRange(-length, length), rapid.SampledFrom([]int{0, -1, 1, -2, length, -length, length + 20, -length - 20})).Draw(c.T, name)
	}
	kind := rapid.IntRange(0, 5).Draw(c.T, name+"Notation")
	if literalOnly && kind > 0 {
		kind = 5 // within brackets
	}
	switch kind {
	case 0:
		ctx[name] = i
		return i, "." + name
	case 1:
		return i, fmt.Sprintf("%q", fmt.Sprint(i))
	case 2:
		ctx[name] = fmt.Sprint(i)
		return i, "." + name
	case 3:
		return i, fmt.Sprintf("(add 0 %d)", i)
	}
	return i, fmt.Sprint(i)
}

// seqValue draws a list, in the Go types that a context may hold.
func drawSequence(c *C) ([]any, any) {
	n := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6, 7}).Draw(c.T, "len")
	kind := rapid.IntRange(0, 5).Draw(c.T, "listKind")
	items := make([]any, 0, n)
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			items = append(items, rapid.IntRange(-5, 99).Draw(c.T, "item"))
		case 1:
			items = append(items, rapid.StringMatching("[a-z]{1,4}").Draw(c.T, "item"))
		default:
			items = append(items, genValue(valueOpts{depth: 1, floats: true, strings: wordGen}).Draw(c.T, "item"))
		}
	}
	var value any = deepCopy(items)
	switch kind {
	case 0:
		typed := make([]int, n)
		for i := range items {
			typed[i] = items[i].(int)
		}
		value = typed
	case 1:
		typed := make([]string, n)
		for i := range items {
			typed[i] = items[i].(string)
		}
		value = typed
	case 2:
		value = dress(c.T, value)
	}
	return items, value
}

// sliceForm writes an access to .x (rendered as JSON): the result, and how it is written.
type sliceForm struct {
	code string // what gives the value, as an argument in prefix notation
	raw  string // a complete razor expression rendering the value
}

func jsonOf(c *C, e *evaluator, code string, ctx map[string]any) any {
	text, err := e.eval(c, code, ctx)
	if err != nil {
		c.Fatalf("error: %v", err)
	}
	return decodeJSON(c, text)
}

// sameJSON compares a decoded value with a native one, through its JSON text.
func sameJSON(a, b any) bool { return sameNum(a, b) }

// drawAccess gives the code of an access to .x with the given bounds/indexes.
func drawAccess(c *C, fn string, sep string, args []string, literal bool) string {
	sub := "x"
	if rapid.IntRange(0, 3).Draw(c.T, "nested") == 0 {
		sub = "d.x"
	}
	max := 9
	if !literal {
		max = 3
	}
	picky := sep == "," && len(args) > 1 // several elements: not available within an expression
	brackets := "[" + strings.Join(args, sep) + "]"
	switch form := rapid.IntRange(0, max).Draw(c.T, "form"); {
	case form == 1:
		return "{{ " + fn + " ." + sub + " " + strings.Join(args, " ") + " | toJson }}"
	case form == 2:
		return "{{ $v := ." + sub + " }}{{ toJson (" + fn + " $v " + strings.Join(args, " ") + ") }}"
	case form == 4 && !picky:
		return "@toJson(" + rapid.SampledFrom([]string{"", ".", "$."}).Draw(c.T, "prefix") + sub + brackets + ")"
	case form == 5 && (!picky || sub == "x"):
		return "@" + sub + brackets + ";"
	case form == 6 && !picky:
		return "{{ $v := ." + sub + " }}@$v" + brackets + ";"
	case form == 7:
		return "@(." + sub + ")" + brackets + ";"
	case form == 8:
		return "@get(d, `x`)" + brackets + ";"
	case form == 9 && sub == "x":
		return "@.x" + brackets + ";"
	default:
		return "{{ toJson (" + fn + " ." + sub + " " + strings.Join(args, " ") + ") }}"
	}
}

// evalAccess renders an access and checks that the source is left as it was.
func evalAccess(c *C, e *evaluator, access string, ctx map[string]any) (string, error) {
	const mark = "\x01\n"
	text, err := e.eval(c, "{{ toJson .x }}"+mark+access+mark+"{{ toJson .x }}", ctx)
	if err != nil {
		return "", err
	}
	parts := strings.Split(text, mark)
	if len(parts) != 3 {
		c.Fatalf("unexpected rendering %q", text)
	}
	if parts[0] != parts[2] {
		c.Fatalf("the source was modified\nbefore: %s\nafter:  %s", parts[0], parts[2])
	}
	return parts[1], nil
}

func isText(v any) bool { _, ok := v.(string); return ok }

// expectAccess compares the rendering of an access with the expected value.
func expectAccess(c *C, e *evaluator, access string, ctx map[string]any, want any) {
	got, err := evalAccess(c, e, access, ctx)
	if err != nil {
		c.Fatalf("error: %v", err)
	}
	if !strings.Contains(access, "toJson") && !isContainer(want) {
		if w := fmt.Sprint(want); got != w {
			c.Fatalf("got %q, want %q", got, w)
		}
		return
	}
	if v := decodeJSON(c, got); !sameJSON(v, want) {
		c.Fatalf("got %s\nwant %s", show(v), show(want))
	}
}

func withNested(ctx map[string]any, v any) map[string]any {
	ctx["x"] = v
	ctx["d"] = map[string]any{"x": v}
	return ctx
}

func TestC10_Lists(t *testing.T) {
	e := &evaluator{}
	check(t, "the list has at least two elements", 4000, 60000, func(c *C) {
		items, value := drawSequence(c)
		ctx := withNested(map[string]any{}, value)
		n := len(items)
		literal := rapid.Bool().Draw(c.T, "literal")
		var access string
		var want any
		kind := rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(c.T, "operation")
		if n == 0 && kind > 0 {
			kind = 0
		}
		switch kind {
		case 0: // slice
			b, bt := drawIndex(c, "b", n, false, ctx, literal)
			f, ft := drawIndex(c, "f", n, false, ctx, literal)
			if literal {
				switch rapid.IntRange(0, 5).Draw(c.T, "omitted") {
				case 0:
					access, f = "@x["+bt+":];", -1
					if b < 0 && bt[0] == '-' {
						f = 0 // a negative start without end goes back to the beginning
					}
				case 1:
					access, b = "@x[:"+ft+"];", 0
				case 2:
					access, b, f = rapid.SampledFrom([]string{"@x[:];", "@toJson(.x[]);", "@toJson(.x[:]);"}).Draw(c.T, "all"), 0, -1
				}
				if access != "" && access[1] == 'x' && rapid.Bool().Draw(c.T, "wrapped") {
					access = "@toJson(." + strings.TrimSuffix(access[1:], ";") + ")"
				}
			}
			if access == "" {
				access = drawAccess(c, "slice", ":", []string{bt, ft}, literal)
			}
			want = refSliceList(items, b, f)
			lo, hi, rev := refSlice(n, b, f)
			c.ClassIf(rev && hi-lo > 1, "reversed")
			c.ClassIf(b > n || f > n || b < -n-1 || f < -n-1, "clamped")
		case 1: // single element
			i, it := drawIndex(c, "b", n, true, ctx, literal)
			access = drawAccess(c, rapid.SampledFrom([]string{"slice", "extract"}).Draw(c.T, "fn"), ",", []string{it}, literal)
			if i < 0 {
				i += n
			}
			want = items[i]
			c.Class("index")
		case 2: // extraction
			count := rapid.IntRange(2, 4).Draw(c.T, "count")
			var list []any
			var args []string
			for k := 0; k < count; k++ {
				i, it := drawIndex(c, fmt.Sprintf("i%d", k), n, true, ctx, literal)
				args = append(args, it)
				if i < 0 {
					i += n
				}
				list = append(list, items[i])
			}
			access = drawAccess(c, "extract", ",", args, literal)
			if !literal && rapid.IntRange(0, 3).Draw(c.T, "asList") == 0 {
				access = "{{ toJson (extract .x (list " + strings.Join(args, " ") + ")) }}"
			}
			want = list
			c.Class("extract")
		default: // outside
			i := rapid.SampledFrom([]int{n, n + 1, n + 9, -n - 1, -n - 7}).Draw(c.T, "outside")
			access = rapid.SampledFrom([]string{"{{ extract .x %d }}", "{{ slice .x %d }}", "@x[%d];", "{{ extract .x 0 %d }}"}).Draw(c.T, "outsideForm")
			access = fmt.Sprintf(access, i)
			c.Case("%s\nx: %s", access, show(items))
			c.Class("outside")
			if got, err := evalAccess(c, e, access, ctx); err == nil {
				c.Fatalf("no error for a position outside of the list: %q", got)
			}
			return
		}
		c.Case("%s\nx: %s\ncontext: %v", access, show(items), ctx)
		c.NontrivialIf(n >= 2)
		expectAccess(c, e, access, ctx, want)
	})
}

func TestC10_Strings(t *testing.T) {
	e := &evaluator{}
	check(t, "the text has at least two characters", 1500, 40000, func(c *C) {
		text := rapid.StringMatching(`[a-zA-Z0-9 ,.é日"'\\:]{0,10}`).Draw(c.T, "text")
		n := len(text)
		boundary := func(i int) bool { return i == 0 || i == n || text[i]&0xC0 != 0x80 }
		ctx := withNested(map[string]any{}, text)
		if rapid.IntRange(0, 3).Draw(c.T, "class") == 0 {
			ctx["x"] = text
		}
		literal := rapid.Bool().Draw(c.T, "literal")
		var access string
		var want string
		switch kind := rapid.IntRange(0, 2).Draw(c.T, "operation"); {
		case kind == 0 || n == 0:
			b, bt := drawIndex(c, "b", n, false, ctx, literal)
			f, ft := drawIndex(c, "f", n, false, ctx, literal)
			lo, hi, rev := refSlice(n, b, f)
			if !boundary(lo) || !boundary(hi) {
				c.Skip("cuts a character")
			}
			runes := []rune(text[lo:hi])
			if rev {
				for i, j := 0, len(runes)-1; i < j; i, j = i+1, j-1 {
					runes[i], runes[j] = runes[j], runes[i]
				}
			}
			want = string(runes)
			access = drawAccess(c, "slice", ":", []string{bt, ft}, literal)
			c.ClassIf(rev && hi-lo > 1, "reversed")
			c.ClassIf(b > n || f > n || b < -n-1 || f < -n-1, "clamped")
		default:
			count := rapid.IntRange(1, 4).Draw(c.T, "count")
			var args []string
			for k := 0; k < count; k++ {
				i, it := drawIndex(c, fmt.Sprintf("i%d", k), n, true, ctx, literal)
				args = append(args, it)
				if i < 0 {
					i += n
				}
				if text[i] >= 0x80 {
					c.Skip("cuts a character")
				}
				want += text[i : i+1]
			}
			access = drawAccess(c, "extract", ",", args, literal)
			c.Class("extract")
		}
		c.Case("%s\nx: %q\ncontext: %v", access, text, ctx)
		c.NontrivialIf(n >= 2)
		expectAccess(c, e, access, ctx, want)
	})
}

func TestC10_Maps(t *testing.T) {
	e := &evaluator{}
	check(t, "the map has at least two entries", 1500, 40000, func(c *C) {
		m := genDict(valueOpts{depth: 2, floats: true, strings: wordGen, maxLen: 6, keys: rapid.SampledFrom([]string{"a", "b", "c", "d", "aa", "ab", "B", "k1", "k10", "k2", "x y", "é", "10", "9"})}).Draw(c.T, "map").(map[string]any)
		ctx := withNested(map[string]any{}, dress(c.T, deepCopy(m)))
		keyGen := rapid.SampledFrom([]string{"a", "b", "c", "d", "aa", "ab", "B", "k1", "k10", "k2", "x y", "é", "", "zz", "A", "b5", "10", "9", "95"})
		literal := rapid.Bool().Draw(c.T, "literal")
		key := func(name string) (string, string) {
			k := keyGen.Draw(c.T, name)
			if !literal && rapid.IntRange(0, 2).Draw(c.T, name+"Notation") == 0 {
				ctx[name] = k
				return k, "." + name
			}
			return k, fmt.Sprintf("%q", k)
		}
		var access string
		var want any
		switch rapid.IntRange(0, 2).Draw(c.T, "operation") {
		case 0:
			k1, t1 := key("k1")
			k2, t2 := key("k2")
			access = drawAccess(c, "slice", ":", []string{t1, t2}, literal)
			lo, hi := k1, k2
			if lo > hi {
				lo, hi = hi, lo
			}
			keys := sortedKeys(m)
			list := []any{}
			for _, k := range keys {
				if k >= lo && k <= hi {
					list = append(list, m[k])
				}
			}
			if k1 > k2 {
				for i, j := 0, len(list)-1; i < j; i, j = i+1, j-1 {
					list[i], list[j] = list[j], list[i]
				}
				c.ClassIf(len(list) > 1, "reversed")
			}
			want = list
			c.ClassIf(len(list) > 1, "range")
		case 1:
			keys := sortedKeys(m)
			if len(keys) == 0 {
				c.Skip("empty")
			}
			k := rapid.SampledFrom(keys).Draw(c.T, "key")
			access = drawAccess(c, rapid.SampledFrom([]string{"slice", "extract"}).Draw(c.T, "fn"), ",", []string{fmt.Sprintf("%q", k)}, literal)
			want = m[k]
			c.Class("index")
		default:
			count := rapid.IntRange(2, 4).Draw(c.T, "count")
			var list []any
			var args []string
			for i := 0; i < count; i++ {
				k, kt := key(fmt.Sprintf("k%d", i))
				args = append(args, kt)
				list = append(list, m[k])
			}
			access = drawAccess(c, "extract", ",", args, literal)
			want = list
			c.Class("extract")
		}
		c.Case("%s\nx: %s\ncontext: %v", access, show(m), ctx)
		c.NontrivialIf(len(m) >= 2)
		expectAccess(c, e, access, ctx, want)
	})
}

func TestC10_Parts(t *testing.T) {
	e := &evaluator{}
	check(t, "the list has at least two elements", 1500, 30000, func(c *C) {
		items, value := drawSequence(c)
		n := len(items)
		ctx := withNested(map[string]any{}, value)
		var want any
		fn := rapid.SampledFrom([]string{"first", "last", "rest", "initial", "safeIndex", "safeIndex"}).Draw(c.T, "function")
		args := ""
		switch fn {
		case "first", "last":
			if n == 0 {
				c.Skip("empty")
			}
			want = items[0]
			if fn == "last" {
				want = items[n-1]
			}
		case "rest":
			want = refSliceList(items, 1, n)
			if n == 0 {
				want = []any{}
			}
		case "initial":
			want = []any{}
			if n > 0 {
				want = refSliceList(items, 0, n-1)
			}
		default:
			i := rapid.IntRange(-2, n+2).Draw(c.T, "position")
			args = fmt.Sprintf(" %d \"none\"", i)
			want = "none"
			if i >= 0 && i < n {
				want = items[i]
			}
		}
		access := "{{ toJson (" + fn + " .x" + args + ") }}"
		switch rapid.IntRange(0, 2).Draw(c.T, "form") {
		case 0:
			access = "@toJson(" + fn + "(.x" + strings.ReplaceAll(args, " ", ",") + "))"
		case 1:
			if args == "" {
				access = "{{ .x | " + fn + " | toJson }}"
			}
		}
		c.Case("%s\nx: %s", access, show(items))
		c.NontrivialIf(n >= 2)
		c.Class(fn)
		expectAccess(c, e, access, ctx, want)
	})
}

var _ = sort.Strings

// The list obtained by a slice or an extraction is another list: altering it spares the source, and conversely.
func TestC10_Copies(t *testing.T) {
	e := &evaluator{}
	check(t, "the result has at least one element", 600, 15000, func(c *C) {
		items, value := drawSequence(c)
		n := len(items)
		if n == 0 {
			c.Skip("empty")
		}
		ctx := withNested(map[string]any{}, value)
		bounds := rapid.IntRange(-n-2, n+2)
		b, f := bounds.Draw(c.T, "b"), bounds.Draw(c.T, "f")
		if rapid.Bool().Draw(c.T, "whole") {
			b, f = 0, rapid.SampledFrom([]int{n, -1, n + 3}).Draw(c.T, "end")
		}
		access := fmt.Sprintf("slice .x %d %d", b, f)
		want := refSliceList(items, b, f)
		if rapid.IntRange(0, 2).Draw(c.T, "extract") == 0 {
			index := rapid.IntRange(-n, n-1)
			access, want = "extract .x", nil
			for k := rapid.IntRange(2, 4).Draw(c.T, "count"); k > 0; k-- {
				i := index.Draw(c.T, "i")
				access += fmt.Sprintf(" %d", i)
				want = append(want, items[(i+n)%n])
			}
		}
		c.NontrivialIf(len(want) > 0)
		change, other := "", "x"
		if rapid.Bool().Draw(c.T, "change the source") {
			change, other = "{{ $y := .x.Set 0 `changed` }}", "r"
		} else if len(want) == 0 {
			change = "{{ $y := $r.Append `changed` }}"
		} else {
			change = fmt.Sprintf("{{ $y := $r.Set %d `changed` }}", rapid.IntRange(0, len(want)-1).Draw(c.T, "changed"))
		}
		result, expected := "{{ toJson $r }}", want
		if other == "x" {
			result, expected = "{{ toJson .x }}", items
		}
		code := "{{ $r := " + access + " }}" + change + result
		c.Case("%s\nx: %s", code, show(items))
		got, err := e.eval(c, code, ctx)
		if err != nil {
			c.Fatalf("error: %v", err)
		}
		if v := decodeJSON(c, got); !sameJSON(v, expected) {
			c.Fatalf("got %s\nwant %s", show(v), show(expected))
		}
	})
}
