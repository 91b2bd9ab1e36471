package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// C25: functions over collections in templates, against a model over plain maps and slices.

type c25 struct {
	*C
	ctx map[string]any // plain model of the context
	n   int
}

func (g *c25) label(s string) string { g.n++; return s }

func (g *c25) pick(options ...string) string {
	return rapid.SampledFrom(options).Draw(g.T, g.label("choice"))
}

// scalar gives the code and the value of a scalar
func (g *c25) scalar() (string, any) {
	switch rapid.IntRange(0, 9).Draw(g.T, "scalar") {
	case 0, 1, 2:
		n := rapid.IntRange(-3, 6).Draw(g.T, "int")
		return strconv.Itoa(n), n
	case 3:
		b := rapid.Bool().Draw(g.T, "bool")
		return fmt.Sprint(b), b
	case 4:
		return "1.5", 1.5
	}
	s := wordGen.Draw(g.T, "word")
	return strconv.Quote(s), s
}

// container refers to a dictionary or a list of the context
func (g *c25) container(prefix string) (string, any) {
	name := fmt.Sprintf("%s%d", prefix, rapid.IntRange(0, 2).Draw(g.T, "container"))
	return "." + name, g.ctx[name]
}

func (g *c25) dict() (string, map[string]any) {
	code, v := g.container("d")
	return code, v.(map[string]any)
}

// list gives a list of the context, or a list written in the code
func (g *c25) list() (string, []any) {
	if rapid.IntRange(0, 5).Draw(g.T, "literal list") == 0 {
		code, l := "(list", []any{}
		for n := rapid.IntRange(2, 4).Draw(g.T, "n"); n > 0; n-- {
			s, v := g.scalar()
			code += " " + s
			l = append(l, v)
		}
		return code + ")", l
	}
	code, v := g.container("l")
	return code, v.([]any)
}

// key gives a key of the dictionary when possible
func (g *c25) key(d map[string]any) (string, string) {
	k := smallKeys.Draw(g.T, "key")
	if keys := sortedKeys(d); len(keys) > 0 && rapid.IntRange(0, 3).Draw(g.T, "existing key") > 0 {
		k = rapid.SampledFrom(keys).Draw(g.T, "key")
	}
	return strconv.Quote(k), k
}

func (g *c25) keys(d map[string]any, existing bool) (code string, keys []string) {
	all := sortedKeys(d)
	for n := rapid.IntRange(1, 3).Draw(g.T, "keys"); n > 0; n-- {
		if existing {
			if len(all) == 0 {
				return
			}
			keys = append(keys, rapid.SampledFrom(all).Draw(g.T, "key"))
		} else {
			_, k := g.key(d)
			keys = append(keys, k)
		}
		code += " " + strconv.Quote(keys[len(keys)-1])
	}
	return
}

// element gives a scalar, often one of the list
func (g *c25) element(l []any) (string, any) {
	if len(l) > 0 && rapid.IntRange(0, 2).Draw(g.T, "member") > 0 {
		v := rapid.SampledFrom(l).Draw(g.T, "member")
		switch x := v.(type) {
		case string:
			return strconv.Quote(x), x
		case int, bool, float64:
			return fmt.Sprint(x), x
		}
	}
	return g.scalar()
}

func (g *c25) elements(l []any) (code string, values []any) {
	values = []any{}
	for n := rapid.IntRange(1, 3).Draw(g.T, "elements"); n > 0; n-- {
		s, v := g.element(l)
		code += " " + s
		values = append(values, v)
	}
	return
}

// order gives a call with the two arguments in any order, possibly with a pipe
func (g *c25) order(f, a, b string) string {
	switch g.pick("ab", "ba", "a|b", "b|a") {
	case "ab":
		return f + " " + a + " " + b
	case "ba":
		return f + " " + b + " " + a
	case "a|b":
		return a + " | " + f + " " + b
	}
	return b + " | " + f + " " + a
}

func c25Zero(v any) bool {
	switch x := v.(type) {
	case nil:
		return true
	case []any:
		return len(x) == 0
	case map[string]any:
		return len(x) == 0
	}
	return reflect.ValueOf(v).IsZero()
}

func c25Unique(l []any) []any {
	return uniqueText(l)
}

// op generates a call, with its result or the fact that it is an error
func (g *c25) op() (code string, want any, failure string) {
	t := g.T
	const anyError = "error"
	switch f := g.pick("get", "get", "hasKey", "keys", "values", "pick", "omit", "pickv", "pluck", "key", "contains", "contains", "containsStrict", "find", "findStrict", "unique", "union", "intersect", "without", "removeNil", "removeEmpty",
		"append", "prepend", "reverse", "rest", "initial", "first", "last", "slice", "extract", "safeIndex", "default", "undef", "coalesce", "isZero", "isNil", "isSet", "array", "set", "set", "unset", "unset", "dict", "lenc", "char", "text contains", "text find", "entries", "wrong", "index", "len"); f {
	case "get":
		cd, d := g.dict()
		ck, k := g.key(d)
		want = d[k]
		switch g.pick("none", "none", "one", "two") {
		case "none":
			return g.order("get", cd, ck), want, ""
		case "one":
			s, v := g.scalar()
			if want == nil {
				want = v
			}
			return g.pick("get "+cd+" "+ck+" "+s, "get "+ck+" "+cd+" "+s), want, ""
		default:
			if want == nil {
				want = []any{1, "x"}
			}
			return "get " + cd + " " + ck + " 1 \"x\"", want, ""
		}
	case "hasKey":
		cd, d := g.dict()
		ck, k := g.key(d)
		_, want := d[k]
		return g.order("hasKey", cd, ck), want, ""
	case "keys":
		cd, d := g.dict()
		l := []any{}
		for _, k := range sortedKeys(d) {
			l = append(l, k)
		}
		return g.pick("keys "+cd, cd+" | keys"), l, ""
	case "values":
		cd, d := g.dict()
		l := []any{}
		for _, k := range sortedKeys(d) {
			l = append(l, d[k])
		}
		return g.pick("values "+cd, cd+" | values"), l, ""
	case "pick":
		cd, d := g.dict()
		ck, ks := g.keys(d, true)
		if len(ks) == 0 {
			return "pick " + cd, d, ""
		}
		r := map[string]any{}
		for _, k := range ks {
			r[k] = d[k]
		}
		return "pick " + cd + ck, r, ""
	case "omit":
		cd, d := g.dict()
		ck, ks := g.keys(d, false)
		r := map[string]any{}
		for k, v := range d {
			r[k] = v
		}
		for _, k := range ks {
			delete(r, k)
		}
		return "omit " + cd + ck, r, ""
	case "pickv":
		cd, d := g.dict()
		ck, ks := g.keys(d, true)
		if rapid.Bool().Draw(t, "all keys") {
			ks, ck = sortedKeys(d), ""
			for _, k := range ks {
				ck += " " + strconv.Quote(k)
			}
		}
		if len(ks) == 0 {
			return "keys " + cd, []any{}, ""
		}
		r, over := map[string]any{}, []string{}
		for k, v := range d {
			r[k] = v
		}
		for _, k := range ks {
			delete(r, k)
		}
		over = sortedKeys(r)
		if len(over) == 0 {
			return "pickv " + cd + " \"message\"" + ck, d, ""
		}
		switch g.pick("message", "default", "format") {
		case "message":
			return "pickv " + cd + " \"my message\"" + ck, nil, "my message " + strings.Join(over, ", ")
		case "format":
			return "pickv " + cd + " \"got %v there\"" + ck, nil, "got " + strings.Join(over, ", ") + " there"
		}
		return "pickv " + cd + " \"\"" + ck, nil, "Unwanted values " + strings.Join(over, ", ")
	case "pluck":
		k := smallKeys.Draw(t, "key")
		code, l := "pluck "+strconv.Quote(k), []any{}
		for n := rapid.IntRange(1, 3).Draw(t, "n"); n > 0; n-- {
			cd, d := g.dict()
			code += " " + cd
			if v, ok := d[k]; ok {
				l = append(l, v)
			}
		}
		return code, l, ""
	case "key":
		k := smallKeys.Draw(t, "key")
		s, v := g.scalar()
		if rapid.Bool().Draw(t, "content") {
			return fmt.Sprintf("content (dict %q %s)", k, s), v, ""
		}
		return fmt.Sprintf("dict %q %s | key", k, s), k, ""
	case "entries":
		cd, d := g.dict()
		f := g.pick("key", "content")
		if len(d) != 1 {
			return f + " " + cd, nil, anyError
		}
		for k, v := range d {
			if want = k; f == "content" {
				want = v
			}
		}
		return f + " " + cd, want, ""
	case "contains":
		cl, l := g.list()
		if rapid.Bool().Draw(t, "single") {
			s, v := g.element(l)
			return g.order(g.pick("contains", "has"), cl, s), containsText(l, v), ""
		}
		s, values := g.elements(l)
		for _, v := range values {
			if !containsText(l, v) {
				return "has " + cl + s, false, ""
			}
		}
		return "contains " + cl + s, true, ""
	case "containsStrict":
		cl, l := g.list()
		s, v := g.element(l)
		found := false
		for _, e := range l {
			found = found || reflect.DeepEqual(e, v)
		}
		return g.order("containsStrict", cl, s), found, ""
	case "find", "findStrict":
		cl, l := g.list()
		s, v := g.element(l)
		r := []any{}
		for i, e := range l {
			if f == "find" && textEq(e, v) || reflect.DeepEqual(e, v) {
				r = append(r, i)
			}
		}
		return f + " " + cl + " " + s, r, ""
	case "unique":
		cl, l := g.list()
		return g.pick("unique "+cl, cl+" | uniq"), c25Unique(l), ""
	case "union":
		cl, l := g.list()
		s, values := g.elements(l)
		return "union " + cl + s, c25Unique(append(append([]any{}, l...), values...)), ""
	case "intersect":
		cl, l := g.list()
		s, values := g.elements(l)
		r := []any{}
		for _, e := range c25Unique(l) {
			if containsText(values, e) {
				r = append(r, e)
			}
		}
		return "intersect " + cl + s, r, ""
	case "without":
		cl, l := g.list()
		s, values := g.elements(l)
		r := []any{}
		for _, e := range l {
			if !containsText(values, e) {
				r = append(r, e)
			}
		}
		return "without " + cl + s, r, ""
	case "removeEmpty":
		cl, l := g.list()
		r := []any{}
		for _, e := range l {
			switch e := e.(type) {
			case nil:
				continue
			case string:
				if e == "" {
					continue
				}
			case []any:
				if len(e) == 0 {
					continue
				}
			case map[string]any:
				if len(e) == 0 {
					return "removeNil (list)", []any{}, "" // Whether a dictionary without key is removed is not specified
				}
			}
			r = append(r, e)
		}
		return "removeEmpty " + cl, r, ""
	case "removeNil":
		cl, l := g.list()
		r := []any{}
		for _, e := range l {
			if e != nil {
				r = append(r, e)
			}
		}
		return "removeNil " + cl, r, ""
	case "append":
		cl, l := g.list()
		s, values := g.elements(l)
		return g.pick("append ", "push ") + cl + s, append(append([]any{}, l...), values...), ""
	case "prepend":
		cl, l := g.list()
		s, values := g.elements(l)
		return "prepend " + cl + s, append(append([]any{}, values...), l...), ""
	case "reverse":
		cl, l := g.list()
		r := []any{}
		for i := range l {
			r = append(r, l[len(l)-1-i])
		}
		return "reverse " + cl, r, ""
	case "rest":
		cl, l := g.list()
		if len(l) == 0 {
			return "rest " + cl, []any{}, ""
		}
		return cl + " | rest", l[1:], ""
	case "initial":
		cl, l := g.list()
		if len(l) == 0 {
			return "initial " + cl, []any{}, ""
		}
		return cl + " | initial", l[:len(l)-1], ""
	case "first":
		cl, l := g.list()
		if len(l) > 0 {
			want = l[0]
		}
		return "first " + cl, want, ""
	case "last":
		cl, l := g.list()
		if len(l) > 0 {
			want = l[len(l)-1]
		}
		return "last " + cl, want, ""
	case "slice":
		cl, l := g.list()
		from := rapid.IntRange(0, len(l)).Draw(t, "from")
		to := rapid.IntRange(from, len(l)).Draw(t, "to")
		want = append([]any{}, l[from:to]...)
		if to > 0 && from < to && rapid.Bool().Draw(t, "negative") {
			to -= len(l) + 1 // -1 is the end of the list
		}
		return fmt.Sprintf("slice %s %d %d", cl, from, to), want, ""
	case "extract":
		if rapid.Bool().Draw(t, "dictionary") {
			cd, d := g.dict()
			ck, ks := g.keys(d, false)
			if len(ks) == 1 {
				return "extract " + cd + ck, d[ks[0]], ""
			}
			r := []any{}
			for _, k := range ks {
				r = append(r, d[k])
			}
			return "extract " + cd + ck, r, ""
		}
		cl, l := g.list()
		if len(l) == 0 {
			return "extract " + cl + " 0", nil, anyError
		}
		r, code := []any{}, "extract "+cl
		for n := rapid.IntRange(1, 3).Draw(t, "n"); n > 0; n-- {
			i := rapid.IntRange(-len(l), len(l)-1).Draw(t, "index")
			code += fmt.Sprintf(" %d", i)
			r = append(r, at(l, (i+len(l))%len(l)))
		}
		if len(r) == 1 {
			return code, r[0], ""
		}
		return code, r, ""
	case "safeIndex":
		cl, l := g.list()
		i := rapid.IntRange(-1, len(l)+1).Draw(t, "index")
		s, v := g.scalar()
		if i >= 0 && i < len(l) {
			v = l[i]
		}
		return fmt.Sprintf("safeIndex %s %d %s", cl, i, s), v, ""
	case "index":
		cl, l := g.list()
		i := rapid.IntRange(0, len(l)).Draw(t, "index")
		if i == len(l) {
			return fmt.Sprintf("index %s %d", cl, i), nil, anyError
		}
		return fmt.Sprintf("index %s %d", cl, i), l[i], ""
	case "len":
		cl, l := g.list()
		return "len " + cl, len(l), ""
	case "default", "undef", "coalesce", "isZero", "isNil", "isSet", "array":
		var s string
		var v any
		switch g.pick("scalar", "dict", "list", "nil", "zero", "missing") {
		case "scalar":
			s, v = g.scalar()
		case "dict":
			s, v = g.container("d")
		case "list":
			s, v = g.container("l")
		case "nil":
			s, v = "nil", nil
		case "missing":
			s, v = ".d0.missing", nil
		case "zero":
			s = g.pick("0", `""`, "false", "0.0", "(list)", "(dict)")
			v = map[string]any{"0": 0, `""`: "", "false": false, "0.0": 0.0, "(list)": []any{}, "(dict)": map[string]any{}}[s]
		}
		ds, dv := g.scalar()
		switch f {
		case "default":
			if c25Zero(v) {
				v = dv
			}
			if s == "nil" {
				return "default " + ds + " nil", v, ""
			}
			return g.pick("default "+ds+" "+s, s+" | default "+ds), v, ""
		case "undef":
			if v == nil {
				v = dv
			}
			return g.pick("undef ", "ifUndef ") + ds + " " + s, v, ""
		case "coalesce":
			if c25Zero(v) {
				if v = dv; c25Zero(dv) {
					v = 7
				}
			}
			return "coalesce " + s + " " + ds + " 7", v, ""
		case "isZero":
			return g.pick("isZero ", "isEmpty ", "empty ") + s, c25Zero(v), ""
		case "isNil":
			return g.pick("isNil ", "isNull ") + s, v == nil, ""
		case "isSet":
			return "isSet " + s, v != nil, ""
		}
		if _, ok := v.([]any); !ok && v != nil {
			v = []any{v}
		}
		return "array " + s, v, ""
	case "set":
		cd, d := g.dict()
		ck, k := g.key(d)
		s, v := g.scalar()
		d[k] = v
		return g.pick("set "+cd+" "+ck+" "+s, "set "+ck+" "+s+" "+cd, cd+" | set "+ck+" "+s), "", ""
	case "unset":
		cd, d := g.dict()
		ck, k := g.key(d)
		delete(d, k)
		return g.order(g.pick("unset", "delete", "remove"), cd, ck), "", ""
	case "dict":
		code, r := "dict", map[string]any{}
		for n := rapid.IntRange(0, 4).Draw(t, "pairs"); n > 0; n-- {
			s, v := g.scalar()
			k := smallKeys.Draw(t, "key")
			code += fmt.Sprintf(" %q %s", k, s)
			r[k] = v
		}
		if rapid.IntRange(0, 5).Draw(t, "odd") == 0 {
			return code + ` "odd"`, nil, anyError
		}
		return code, r, ""
	case "lenc":
		s := anyText.Draw(t, "text")
		return "lenc " + strconv.Quote(s), len([]rune(s)), ""
	case "char":
		r := rapid.OneOf(rapid.IntRange(1, 300), rapid.SampledFrom([]int{0x20AC, 0x65E5, 0x1F600, 65, 255, 256})).Draw(t, "character")
		return fmt.Sprintf("char %d", r), string(rune(r)), ""
	case "text contains":
		s := rapid.SampledFrom([]string{"hello world", "été", "", "a,b", "12"}).Draw(t, "text")
		sub := rapid.SampledFrom([]string{"", "l", "world", "t", "12", "x", ","}).Draw(t, "searched")
		return g.pick(fmt.Sprintf("contains %q %q", sub, s), fmt.Sprintf("%q | contains %q", s, sub)), strings.Contains(s, sub), ""
	case "text find":
		s := rapid.SampledFrom([]string{"hello world", "abcabc", "a,b", "1212", "aAbBaA", "HeLlo L"}).Draw(t, "text")
		sub := rapid.SampledFrom([]string{"l", "world", "abc", "12", "x", ",", "A", "L"}).Draw(t, "searched")
		r := []any{}
		for i := 0; i+len(sub) <= len(s); {
			if s[i:i+len(sub)] == sub {
				r = append(r, i)
				i += len(sub)
			} else {
				i++
			}
		}
		return g.pick(fmt.Sprintf("find %q %q", s, sub), fmt.Sprintf("find (String %q) %q", s, sub), fmt.Sprintf("findStrict %q (String %q)", s, sub)), r, ""
	}
	// No collection at all
	return g.pick(`get "a" "b"`, `hasKey 1 "b"`, `set "a" "b" "c"`, `unset "a" 1`, `keys "a"`, `pick 1 "a"`, `key 1`, `content "x"`, `pluck "a" 1`), nil, anyError
}

func TestC25_Functions(t *testing.T) {
	check(t, "a function received a collection that is not empty", 5000, 300000, func(c *C) {
		fl := drawFlavour(c, "flavour")
		fl.use()
		defer useJSON()
		g := &c25{C: c, ctx: map[string]any{}}
		deep := valueOpts{depth: 1, null: true, floats: true, maxLen: 3}
		for i := 0; i < 3; i++ {
			g.ctx[fmt.Sprintf("d%d", i)] = genDict(deep).Draw(c.T, "dict")
			l := genList(valueOpts{depth: 0, null: true, floats: false, maxLen: 5}).Draw(c.T, "list").([]any)
			g.ctx[fmt.Sprintf("l%d", i)] = l
		}
		given := map[string]any{}
		for k, v := range g.ctx {
			if given[k] = deepCopy(v); rapid.Bool().Draw(c.T, "converted") {
				given[k] = dress(c.T, deepCopy(v))
			}
		}
		c.Step("%s %s", fl.name, show(g.ctx))
		var sb strings.Builder
		var wants []any
		failure := ""
		names := []string{"d0", "d1", "d2", "l0", "l1", "l2"}
		for n := rapid.IntRange(1, 5).Draw(c.T, "calls"); n > 0 && failure == ""; n-- {
			var code string
			var want any
			code, want, failure = g.op()
			c.Step("%s -> %s %s", code, show(want), failure)
			sb.WriteString("{{ toJson (" + code + ") }}\n")
			wants = append(wants, deepCopy(want))
			if rapid.Bool().Draw(c.T, "verify") {
				name := rapid.SampledFrom(names).Draw(c.T, "name")
				sb.WriteString("{{ toJson ." + name + " }}\n")
				wants = append(wants, deepCopy(g.ctx[name]))
			}
			for _, n := range names {
				if strings.Contains(code, "."+n) && !c25Zero(g.ctx[n]) {
					c.Nontrivial()
				}
			}
		}
		for _, n := range names {
			sb.WriteString("{{ toJson ." + n + " }}\n")
			wants = append(wants, g.ctx[n])
		}
		c.ClassIf(failure != "", "error")
		tpl, err := newTemplate(given, "", noRazorOptions())
		if err != nil {
			c.Fatalf("%v", err)
		}
		out, err := tpl.ProcessContent(sb.String(), "vp")
		if failure != "" {
			if err == nil {
				c.Fatalf("no error for the last call, got %q", out)
			}
			if failure != "error" && !strings.Contains(err.Error(), failure) {
				c.Fatalf("error %q does not contain %q", err, failure)
			}
			return
		}
		if err != nil {
			c.Fatalf("error %v", err)
		}
		lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
		if len(lines) != len(wants) {
			c.Fatalf("%d results instead of %d: %q", len(lines), len(wants), out)
		}
		for i, line := range lines {
			var got any
			if err := json.Unmarshal([]byte(line), &got); err != nil {
				c.Fatalf("result %d: %q: %v", i, line, err)
			}
			if !sameNum(got, wants[i]) {
				c.Fatalf("result %d (code %q): got %s, want %s", i, strings.Split(sb.String(), "\n")[i], line, show(wants[i]))
			}
		}
	})
}
