package props

// C15: razor statements mean what an interpreter of these constructs produces.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/coveooss/gotemplate/v3/template"
	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
)

type sEnv struct {
	frames []map[string]any // local variables
	dots   []any
	root   map[string]any
	out    strings.Builder
	steps  int
}

type sSkip struct{ why string }

func (e *sEnv) dot() any { return e.dots[len(e.dots)-1] }
func (e *sEnv) push()    { e.frames = append(e.frames, map[string]any{}) }
func (e *sEnv) pop()     { e.frames = e.frames[:len(e.frames)-1] }
func (e *sEnv) local(name string) map[string]any {
	for i := len(e.frames) - 1; i >= 0; i-- {
		if _, ok := e.frames[i][name]; ok {
			return e.frames[i]
		}
	}
	panic(sSkip{"no variable " + name})
}

type sExpr struct {
	src  string
	kind byte // n, s, b, m (map), l (list of ints), t (list of texts)
	eval func(e *sEnv) any
}

func sText(v any) string {
	switch v := v.(type) {
	case *big.Int:
		return v.String()
	case string:
		return v
	case bool:
		return fmt.Sprint(v)
	}
	panic(sSkip{fmt.Sprintf("no text for %T", v)})
}

func sTruth(v any) bool {
	switch v := v.(type) {
	case *big.Int:
		return v.Sign() != 0
	case string:
		return v != ""
	case bool:
		return v
	case []any:
		return len(v) > 0
	case map[string]any:
		return len(v) > 0
	}
	panic(sSkip{"truth"})
}

type sItem struct {
	op   string // text, out, set, if, elseif, else, for, with, end, none
	src  string
	text string
	l, r bool // eats the spaces on its left, on its right
	expr sExpr
	set  func(e *sEnv, v any)
	key  string // variables of a loop
	name string
}

type sGen struct {
	c       *C
	t       *rapid.T
	items   []sItem
	locals  map[string]byte
	globals map[string]byte
	dot     byte // r root, m sub map, n, s
	level   int
	count   int
	blocks  int
	sets    int
}

func (g *sGen) n(max int) int { return rapid.IntRange(0, 1<<20).Draw(g.t, "n") % max }
func (g *sGen) pick(s ...string) string {
	return s[g.n(len(s))]
}

func (g *sGen) text(s string) { g.items = append(g.items, sItem{op: "text", src: s, text: s}) }

var sWords = []string{"word", "some text", "x", "été", "a.b", "(y)", "[z]", "1 < 2", "$", "#", "key: value", "\"quoted\"", "end", "if", "{ }", "a = b", "- item", "100%", "a, b"}

// words writes ordinary text, which ends with a space or a new line
func (g *sGen) words() {
	g.text(g.pick(sWords...) + g.pick("\n", "\n", "\n\n", " ", "  ", "\n  ", "\t"))
}

func path(m any, keys ...string) any {
	for _, k := range keys {
		mm, ok := m.(map[string]any)
		if !ok {
			panic(sSkip{"not a map"})
		}
		if m, ok = mm[k]; !ok {
			panic(sSkip{"undefined " + k})
		}
	}
	return m
}

// variable gives the expressions reading a value of the given kind.
func (g *sGen) variables(kind byte) (r []sExpr) {
	add := func(src string, f func(e *sEnv) any) { r = append(r, sExpr{src, kind, f}) }
	for _, name := range sortedKeys(g.locals) {
		name := name
		switch g.locals[name] {
		case kind:
			add("$"+name, func(e *sEnv) any { return e.local(name)[name] })
		case 'm':
			if kind == 'n' || kind == 's' {
				k := map[byte]string{'n': "n", 's': "s"}[kind]
				add("$"+name+"."+k, func(e *sEnv) any { return path(e.local(name)[name], k) })
			}
		}
	}
	for _, name := range sortedKeys(g.globals) {
		name := name
		switch g.globals[name] {
		case kind:
			add(name, func(e *sEnv) any { return path(e.root, name) })
			add("$."+name, func(e *sEnv) any { return path(e.root, name) })
			if g.dot == 'r' {
				add("."+name, func(e *sEnv) any { return path(e.root, name) })
			}
		}
	}
	for _, p := range []string{"cfg.n", "cfg.sub.n", "cfg.s", "cfg.sub.s"} {
		if p[len(p)-1] == kind {
			keys := strings.Split(p, ".")
			add(p, func(e *sEnv) any { return path(e.root, keys...) })
			add("$."+p, func(e *sEnv) any { return path(e.root, keys...) })
		}
	}
	switch {
	case g.dot == kind && kind != 'm':
		add(".", func(e *sEnv) any { return e.dot() })
	case g.dot == 'm' && (kind == 'n' || kind == 's'):
		add("."+string(rune(kind)), func(e *sEnv) any { return path(e.dot(), string(rune(kind))) })
	}
	return
}

func (g *sGen) expr(kind byte) sExpr {
	vars := g.variables(kind)
	if len(vars) > 0 && g.n(3) > 0 {
		return vars[g.n(len(vars))]
	}
	switch kind {
	case 'n':
		if g.n(2) == 0 && len(vars) > 0 {
			x, i := vars[g.n(len(vars))], g.n(10)
			if g.n(2) == 0 {
				return sExpr{fmt.Sprintf("%s + %d", x.src, i), kind, func(e *sEnv) any { return new(big.Int).Add(x.eval(e).(*big.Int), big.NewInt(int64(i))) }}
			}
			return sExpr{fmt.Sprintf("sub(%s, %d)", x.src, i), kind, func(e *sEnv) any { return new(big.Int).Sub(x.eval(e).(*big.Int), big.NewInt(int64(i))) }}
		}
		i := g.n(20)
		return sExpr{strconv.Itoa(i), kind, func(e *sEnv) any { return big.NewInt(int64(i)) }}
	case 's':
		if g.n(3) == 0 && len(vars) > 0 {
			x := vars[g.n(len(vars))]
			return sExpr{fmt.Sprintf("upper(%s)", x.src), kind, func(e *sEnv) any { return strings.ToUpper(x.eval(e).(string)) }}
		}
		s := g.pick("", "str", "a b", "é", "x: y", "(", "=", "$a")
		return sExpr{strconv.Quote(s), kind, func(e *sEnv) any { return s }}
	case 'b':
		switch g.n(5) {
		case 0:
			x, s := g.expr('s'), g.pick("str", "Joe", "")
			return sExpr{fmt.Sprintf("%s == %q", x.src, s), kind, func(e *sEnv) any { return x.eval(e) == s }}
		case 1:
			x := g.expr('n')
			return sExpr{x.src, kind, x.eval}
		case 2:
			x := g.expr('s')
			return sExpr{x.src, kind, x.eval}
		case 3:
			x, y := g.expr('n'), g.expr('n')
			return sExpr{fmt.Sprintf("(%s) < 10 && %s != 3", x.src, y.src), kind, func(e *sEnv) any {
				return x.eval(e).(*big.Int).Cmp(big.NewInt(10)) < 0 && y.eval(e).(*big.Int).Cmp(big.NewInt(3)) != 0
			}}
		}
		x, i := g.expr('n'), g.n(20)
		op := g.pick(">", "<=", "==", "!=", "<>", "≦")
		return sExpr{fmt.Sprintf("%s %s %d", x.src, op, i), kind, func(e *sEnv) any {
			c := x.eval(e).(*big.Int).Cmp(big.NewInt(int64(i)))
			return map[string]bool{">": c > 0, "<=": c <= 0, "≦": c <= 0, "==": c == 0, "!=": c != 0, "<>": c != 0}[op]
		}}
	case 'l':
		n := g.n(4)
		return sExpr{strings.Replace(fmt.Sprintf("list(%s)", strings.Trim(strings.ReplaceAll(fmt.Sprint([]int{7, 0, 12}[:min(n, 3)]), " ", ", "), "[]")), "()", "()", 1), kind, func(e *sEnv) any {
			r := []any{}
			for _, i := range []int64{7, 0, 12}[:min(n, 3)] {
				r = append(r, big.NewInt(i))
			}
			return r
		}}
	case 't':
		return sExpr{`list("p", "q")`, kind, func(e *sEnv) any { return []any{"p", "q"} }}
	case 'm':
		i := g.n(9)
		return sExpr{fmt.Sprintf(`dict("n", %d, "s", "in")`, i), kind, func(e *sEnv) any { return map[string]any{"n": big.NewInt(int64(i)), "s": "in"} }}
	}
	panic("kind")
}

func (g *sGen) reduce() (s string, l, r bool) {
	switch g.n(7) {
	case 0:
		return "-", true, false
	case 1:
		return "--", true, true
	case 2:
		return "_-", false, true
	case 3:
		return "_", false, false
	}
	return "", false, false
}

// output writes a value
func (g *sGen) output() {
	kind := g.pick("n", "s")[0]
	vars := g.variables(kind)
	item := sItem{op: "out"}
	red, l, r := g.reduce()
	if strings.HasPrefix(red, "_") {
		red, l, r = "", false, false // _ would be a part of the name
	}
	item.l, item.r = l, r
	if len(vars) == 0 || g.n(4) == 0 {
		x := g.expr(kind)
		item.src, item.expr = "@"+red+"("+x.src+")"+g.pick("", ";", " ;"), x
	} else {
		x := vars[g.n(len(vars))]
		item.expr = x
		switch {
		case strings.HasPrefix(x.src, "$") && !strings.HasPrefix(x.src, "$.") && g.n(2) == 0:
			item.src = "@" + red + "{" + x.src[1:] + "}" + g.pick("", ";")
		case x.src == ".":
			item.src = "@" + red + "(.)"
		case g.n(3) == 0:
			item.src = "@" + red + "(" + g.pick("", " ") + x.src + g.pick("", " ") + ")" + g.pick("", ";")
		default:
			item.src = "@" + red + x.src + g.pick(";", ";", "")
		}
	}
	if g.n(8) == 0 {
		// on a new line
		item.src = "@<" + item.src[1:]
		g.items = append(g.items, sItem{op: "out", l: true, expr: sExpr{eval: func(*sEnv) any { return "\n" }}})
	}
	g.items = append(g.items, item)
	if strings.HasSuffix(item.src, ";") {
		g.text(g.pick("", "", " ", "\n", ",", " (x)", "\n\n"))
	} else {
		g.text(g.pick(" ", "\n", ",", " x ", "\n\n", ": ", " - 3 ", "/x ", " (a) ", ".\n", ". ", ", [z]", " | ", "? ", " + ", "\"", ")"))
	}
}

func (g *sGen) end() string {
	return g.pick(";", "\n", "\n", " ;", "\n\n")
}

// addEnd ends a statement either with a semicolon (eaten) or with a new line (kept as text)
func (g *sGen) statement(item sItem) {
	e := g.end()
	if strings.HasSuffix(e, ";") {
		item.src += e
		e = ""
	}
	g.items = append(g.items, item)
	if e != "" {
		g.text(e)
	}
}

type sOp struct {
	op string
	f  func(a, b *big.Int) *big.Int
}

func sShift(left bool) func(a, b *big.Int) *big.Int {
	return func(a, b *big.Int) *big.Int {
		if a.Sign() < 0 || b.Sign() < 0 || b.Cmp(big.NewInt(8)) > 0 {
			panic(sSkip{"shift"})
		}
		if left {
			return new(big.Int).Lsh(a, uint(b.Int64()))
		}
		return new(big.Int).Rsh(a, uint(b.Int64()))
	}
}

func sDiv(a, b *big.Int) *big.Int {
	if b.Sign() == 0 {
		panic(sSkip{"division"})
	}
	q, r := new(big.Int).QuoRem(a, b, new(big.Int))
	if r.Sign() != 0 {
		panic(sSkip{"fraction"})
	}
	return q
}

var sOps = []sOp{
	{"+=", func(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }}, {"-=", func(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }},
	{"*=", func(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }}, {"/=", sDiv}, {"÷=", sDiv},
	{"%=", func(a, b *big.Int) *big.Int {
		if b.Sign() == 0 {
			panic(sSkip{"division"})
		}
		return new(big.Int).Rem(a, b)
	}},
	{"&=", func(a, b *big.Int) *big.Int { return new(big.Int).And(a, b) }}, {"|=", func(a, b *big.Int) *big.Int { return new(big.Int).Or(a, b) }}, {"^=", func(a, b *big.Int) *big.Int { return new(big.Int).Xor(a, b) }},
	{"&^=", func(a, b *big.Int) *big.Int { return new(big.Int).AndNot(a, b) }}, {"<<=", sShift(true)}, {"«=", sShift(true)}, {">>=", sShift(false)}, {"»=", sShift(false)},
}

// assign writes a declaration, an assignment or a compound assignment
func (g *sGen) assign() {
	g.sets++
	type target struct {
		src  []string
		kind byte
		get  func(e *sEnv) any
		set  func(e *sEnv, v any)
	}
	var targets []target
	for _, name := range sortedKeys(g.locals) {
		name := name
		switch k := g.locals[name]; k {
		case 'n', 's':
			targets = append(targets, target{[]string{"@{" + name + "}", "@$" + name, "@{" + name + " = }"}, k, func(e *sEnv) any { return e.local(name)[name] }, func(e *sEnv, v any) { e.local(name)[name] = v }})
		case 'm':
			targets = append(targets, target{[]string{"@{" + name + ".n}", "@$" + name + ".n"}, 'n', func(e *sEnv) any { return path(e.local(name)[name], "n") }, func(e *sEnv, v any) { e.local(name)[name].(map[string]any)["n"] = v }})
		}
	}
	for _, name := range sortedKeys(g.globals) {
		name := name
		if k := g.globals[name]; k == 'n' || k == 's' {
			src := []string{"@" + name, "@$." + name}
			if g.dot == 'r' {
				src = append(src, "@."+name)
			}
			targets = append(targets, target{src, k, func(e *sEnv) any { return path(e.root, name) }, func(e *sEnv, v any) { e.root[name] = v }})
		}
	}
	for _, p := range []string{"cfg.n", "cfg.sub.n", "cfg.s"} {
		keys := strings.Split(p, ".")
		targets = append(targets, target{[]string{"@" + p, "@$." + p}, p[len(p)-1], func(e *sEnv) any { return path(e.root, keys...) },
			func(e *sEnv, v any) { path(e.root, keys[:len(keys)-1]...).(map[string]any)[keys[len(keys)-1]] = v }})
	}
	if g.dot == 'm' {
		targets = append(targets, target{[]string{"@.n"}, 'n', func(e *sEnv) any { return path(e.dot(), "n") }, func(e *sEnv, v any) { e.dot().(map[string]any)["n"] = v }})
	}
	blank := func() string { return g.pick(" ", " ", "", "  ") }
	finish := func(src, op string, x sExpr, set func(e *sEnv, v any)) {
		b := blank()
		item := sItem{op: "set", l: true, expr: x, set: set}
		if strings.HasSuffix(src, " = }") {
			// @{name := value}
			item.src = strings.TrimSuffix(src, " = }") + b + op + blank() + x.src + "}"
		} else {
			if strings.HasPrefix(op, "%") || strings.HasPrefix(op, "*") || strings.HasPrefix(op, "+") || strings.HasPrefix(op, "-") {
				b = " " // these characters are accepted in names
			}
			item.src = src + b + op + blank() + x.src
		}
		g.statement(item)
	}
	switch g.n(4) {
	case 0: // declaration of a local variable
		name, kind := g.pick("u", "v", "été", "my_var", "w2"), g.pick("n", "n", "s", "m")[0]
		x := g.expr(kind)
		if kind == 'm' {
			// maps are not shared: variables do not give access to the map of another one
			i := g.n(9)
			x = sExpr{fmt.Sprintf(`dict("n", %d, "s", "in")`, i), kind, func(e *sEnv) any { return map[string]any{"n": big.NewInt(int64(i)), "s": "in"} }}
		}
		finish(g.pick("@{"+name+"}", "@$"+name, "@{"+name+" = }"), ":=", x, func(e *sEnv, v any) { e.frames[len(e.frames)-1][name] = v })
		g.locals[name] = kind
	case 1: // declaration of a global variable
		name, kind := g.pick("g1", "g2", "été2", "my_global"), g.pick("n", "s")[0]
		x := g.expr(kind)
		src := []string{"@" + name, "@$." + name}
		if g.dot == 'r' {
			src = append(src, "@."+name)
		}
		finish(src[g.n(len(src))], ":=", x, func(e *sEnv, v any) { e.root[name] = v })
		g.globals[name] = kind
	case 2: // assignment
		if len(targets) == 0 {
			return
		}
		t := targets[g.n(len(targets))]
		finish(t.src[g.n(len(t.src))], "=", g.expr(t.kind), t.set)
	default: // compound assignment
		if len(targets) == 0 {
			return
		}
		t := targets[g.n(len(targets))]
		if t.kind == 's' {
			x := g.expr('s')
			lit := g.pick("+", "-suffix", "é")
			x = sExpr{strconv.Quote(lit), 's', func(e *sEnv) any { return lit }}
			finish(t.src[g.n(len(t.src))], "+=", x, func(e *sEnv, v any) { t.set(e, t.get(e).(string)+v.(string)) })
			return
		}
		op := sOps[g.n(len(sOps))]
		x := g.expr('n')
		if strings.ContainsAny(op.op, "*<>«»/÷%") {
			i := 1 + g.n(4)
			x = sExpr{strconv.Itoa(i), 'n', func(e *sEnv) any { return big.NewInt(int64(i)) }}
		}
		finish(t.src[g.n(len(t.src))], op.op, x, func(e *sEnv, v any) {
			r := op.f(t.get(e).(*big.Int), v.(*big.Int))
			if r.BitLen() > 50 {
				panic(sSkip{"large"})
			}
			t.set(e, r)
		})
	}
}

func (g *sGen) comment() {
	red, l, r := g.reduce()
	text := g.pick("a comment", "see name", "TODO: x = 3", "été", "", "a // b", "\"x\"")
	switch g.n(6) {
	case 0:
		g.items = append(g.items, sItem{op: "none", src: "@" + red + g.pick("#", "//") + " " + text, l: l, r: r})
		g.text("\n")
	case 1:
		g.items = append(g.items, sItem{op: "none", src: "@" + red + "/* " + text + " */", l: l, r: r})
		g.text(g.pick("\n", " "))
	case 2:
		g.items = append(g.items, sItem{op: "none", src: "@" + red + "/* " + text + "\n second line\n*/", l: l, r: r})
		g.text(g.pick("\n", " "))
	case 3:
		g.items = append(g.items, sItem{op: "none", src: g.pick("##", "///") + g.pick(" ", "") + "@" + g.pick("name", "(1 + 2)", "if (x)", "x := 3") + text, l: true})
		g.text("\n")
	case 4:
		g.items = append(g.items, sItem{op: "none", src: "@-" + g.pick(";", "", " ;"), l: true, r: true})
		g.text(g.pick("\n", " \n "))
	default:
		g.items = append(g.items, sItem{op: "out", src: "@<;", l: true, expr: sExpr{eval: func(*sEnv) any { return "\n" }}})
	}
}

func cloneKinds(m map[string]byte) map[string]byte {
	r := map[string]byte{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (g *sGen) scoped(f func()) {
	locals, globals, dot := cloneKinds(g.locals), cloneKinds(g.globals), g.dot
	g.level++
	f()
	g.level--
	// a name declared again inside with another type must not be read as the previous one
	g.locals, g.dot = locals, dot
	for name, kind := range g.globals {
		if k, ok := globals[name]; ok && k != kind {
			globals[name] = '?'
		}
	}
	g.globals = globals
}

func (g *sGen) block() {
	if g.level >= 3 {
		g.words()
		return
	}
	g.blocks++
	open := func(op, name, args string, item sItem) {
		red, l, r := g.reduce()
		item.op, item.l, item.r = op, l, r
		item.src = "@" + red + name + g.pick("", " ") + "(" + g.pick("", " ") + args + g.pick("", " ") + ")"
		g.items = append(g.items, item)
		g.text("\n")
	}
	finish := func(names ...string) {
		red, l, r := g.reduce()
		g.statement(sItem{op: "end", src: "@" + red + "end" + g.pick(names...), l: l, r: r})
	}
	elseBranch := func() {
		red, l, r := g.reduce()
		g.items = append(g.items, sItem{op: "else", src: "@" + red + "else", l: l, r: r})
		g.text("\n")
	}
	switch g.n(4) {
	case 0, 1:
		g.scoped(func() {
			x := g.expr('b')
			item := sItem{expr: x}
			src := x.src
			if g.n(4) == 0 {
				y := g.expr('n')
				src, item.expr, item.name = "$cond := "+y.src, y, "cond"
				g.locals["cond"] = 'n'
			}
			open("if", "if", src, item)
			g.scoped(func() { g.body(3) })
			for g.n(3) == 0 {
				x := g.expr('b')
				open("elseif", g.pick("else if", "elseif"), x.src, sItem{expr: x})
				g.scoped(func() { g.body(2) })
			}
			if g.n(2) == 0 {
				elseBranch()
				g.scoped(func() { g.body(2) })
			}
			finish("", " if", "if")
		})
	case 2:
		g.scoped(func() {
			kind := g.pick("l", "l", "t", "c")[0]
			item := sItem{}
			elem := byte('n')
			if kind == 'c' {
				item.expr = sExpr{"cfg.sub", 'm', func(e *sEnv) any { return path(e.root, "cfg", "sub") }}
				elem = '?'
			} else {
				item.expr = g.expr(kind)
				if kind == 't' {
					elem = 's'
				}
			}
			src := item.expr.src
			vars := g.n(3)
			if kind == 'c' {
				vars = 1 + g.n(2)
			}
			switch vars {
			case 1:
				item.name = g.pick("e", "item")
				src = "$" + item.name + " := " + src
			case 2:
				item.key, item.name = g.pick("i", "key"), g.pick("e", "item")
				src = "$" + item.key + g.pick(", ", ",", " , ") + "$" + item.name + " := " + src
			}
			open("for", g.pick("for", "foreach", "range", "for each"), src, item)
			g.scoped(func() {
				g.dot = elem
				if item.name != "" {
					g.locals[item.name] = elem
				}
				if item.key != "" {
					g.locals[item.key] = 'n'
					if kind == 'c' {
						g.locals[item.key] = 's'
					}
				}
				g.body(3)
			})
			if g.n(4) == 0 {
				elseBranch()
				g.scoped(func() { g.body(2) })
			}
			finish("", " for", "for", " foreach", " for each", " range", "foreach")
		})
	default:
		g.scoped(func() {
			item := sItem{}
			dot := byte('m')
			src := ""
			switch g.n(3) {
			case 0:
				item.expr = sExpr{"cfg", 'm', func(e *sEnv) any { return path(e.root, "cfg") }}
			case 1:
				item.expr = sExpr{"cfg.sub", 'm', func(e *sEnv) any { return path(e.root, "cfg", "sub") }}
			default:
				dot = g.pick("n", "s")[0]
				item.expr = g.expr(dot)
			}
			src = item.expr.src
			if g.n(3) == 0 {
				item.name = "ctx"
				src = "$ctx := " + src
				g.locals["ctx"] = dot
			}
			open("with", "with", src, item)
			g.scoped(func() {
				g.dot = dot
				g.body(3)
			})
			if g.n(3) == 0 {
				elseBranch()
				g.scoped(func() { g.body(2) })
			}
			finish("", " with", "with")
		})
	}
}

// single writes a command on one line
func (g *sGen) single() {
	red, l, r := g.reduce()
	item := sItem{op: "if", l: l, r: r}
	name := "if"
	var args string
	var inner []sItem
	g.scoped(func() {
		switch g.n(4) {
		case 0:
			item.op, name = "for", g.pick("for", "foreach", "range", "for each")
			kind := g.pick("l", "t")[0]
			item.expr = g.expr(kind)
			args = item.expr.src
			g.dot = map[byte]byte{'l': 'n', 't': 's'}[kind]
			if g.n(2) == 0 {
				item.name = "e"
				args = "$e := " + args
				g.locals["e"] = g.dot
			}
		case 1:
			item.op, name = "with", "with"
			g.dot = g.pick("n", "s")[0]
			dot := g.dot
			item.expr = g.expr(dot)
			args = item.expr.src
		default:
			item.expr = g.expr('b')
			args = item.expr.src
		}
		vars := append(g.variables('n'), g.variables('s')...)
		inner = []sItem{{op: "text", src: "some text", text: "some text"}}
		if g.n(2) == 0 || item.op != "if" {
			v := vars[g.n(len(vars))]
			inner = []sItem{{op: "text", src: "val ", text: "val "}, {op: "out", src: "@(" + v.src + ")", expr: v}, {op: "text", src: " end", text: " end"}}
		}
	})
	item.src = "@" + red + name + " (" + args + ") "
	g.items = append(g.items, item)
	if g.n(3) == 0 {
		g.items[len(g.items)-1].src += "{ "
		g.items = append(g.items, inner...)
		g.items = append(g.items, sItem{op: "text", text: " ", src: " "}, sItem{op: "end", src: "}", l: l, r: r})
		g.text("\n" + g.pick("", "", "  ", "\n"))
		return
	}
	g.items = append(g.items, inner...)
	g.items = append(g.items, sItem{op: "end", src: ";", l: l, r: r})
	g.text(g.pick("", " ", " tail ", "\n", "  tail\n"))
}

func (g *sGen) body(max int) {
	for n := 1 + g.n(max); n > 0; n-- {
		if g.count++; g.count > 22 {
			return
		}
		switch g.n(9) {
		case 0, 1:
			g.words()
		case 2, 3:
			g.output()
		case 4, 5:
			g.assign()
		case 6:
			g.comment()
		case 7:
			if g.n(2) == 0 {
				g.single()
				break
			}
			fallthrough
		default:
			g.block()
		}
	}
}

// trim applies the spaces eaters to the surrounding text.
func trimItems(items []sItem) []sItem {
	var merged []sItem
	for _, i := range items {
		if i.op == "text" && len(merged) > 0 && merged[len(merged)-1].op == "text" {
			merged[len(merged)-1].text += i.text
			continue
		}
		merged = append(merged, i)
	}
	const spaces = " \t\r\n"
	for n := range merged {
		if merged[n].op != "text" {
			continue
		}
		if n+1 < len(merged) && merged[n+1].l {
			merged[n].text = strings.TrimRight(merged[n].text, spaces)
		}
		if n > 0 && merged[n-1].r {
			merged[n].text = strings.TrimLeft(merged[n].text, spaces)
		}
	}
	return merged
}

// run interprets items[i:] until the end of the block and returns the position of the item that ended it.
func (e *sEnv) run(items []sItem, i int, active bool) int {
	for i < len(items) {
		if e.steps++; e.steps > 5000 {
			panic(sSkip{"long"})
		}
		it := items[i]
		switch it.op {
		case "text":
			if active {
				e.out.WriteString(it.text)
			}
		case "out":
			if active {
				e.out.WriteString(sText(it.expr.eval(e)))
			}
		case "set":
			if active {
				it.set(e, it.expr.eval(e))
			}
		case "else", "elseif", "end":
			return i
		case "if", "with", "for":
			i = e.block(items, i, active)
		}
		i++
	}
	return i
}

func (e *sEnv) block(items []sItem, i int, active bool) int {
	it := items[i]
	e.push()
	defer e.pop()
	branch := func(from int, on bool) int {
		e.push()
		defer e.pop()
		return e.run(items, from, on)
	}
	var v any
	done := !active
	if active {
		v = it.expr.eval(e)
		if it.name != "" && it.op != "for" {
			e.frames[len(e.frames)-1][it.name] = v
		}
	}
	switch it.op {
	case "for":
		if !active {
			i = branch(i+1, false)
			break
		}
		var keys, values []any
		switch v := v.(type) {
		case []any:
			for n := range v {
				keys, values = append(keys, big.NewInt(int64(n))), append(values, v[n])
			}
		case map[string]any:
			names := []string{}
			for k := range v {
				names = append(names, k)
			}
			sort.Strings(names)
			for _, k := range names {
				keys, values = append(keys, k), append(values, v[k])
			}
		}
		start := i + 1
		i = -1
		for n := range keys {
			done = true
			e.push()
			if it.name != "" {
				e.frames[len(e.frames)-1][it.name] = values[n]
			}
			if it.key != "" {
				e.frames[len(e.frames)-1][it.key] = keys[n]
			}
			e.dots = append(e.dots, values[n])
			i = branch(start, true)
			e.dots = e.dots[:len(e.dots)-1]
			e.pop()
		}
		if i < 0 {
			i = branch(start, false)
		}
	default:
		on := active && sTruth(v)
		if on {
			done = true
			if it.op == "with" {
				e.dots = append(e.dots, v)
			}
		}
		i = branch(i+1, on)
		if on && it.op == "with" {
			e.dots = e.dots[:len(e.dots)-1]
		}
	}
	for items[i].op != "end" {
		on := !done
		if items[i].op == "elseif" && on {
			on = sTruth(items[i].expr.eval(e))
		}
		done = done || on
		i = branch(i+1, on)
	}
	return i
}

func c15Context() (tpl, model map[string]any) {
	build := func(n func(int64) any) map[string]any {
		return map[string]any{
			"a": n(5), "b": n(12), "zero": n(0), "name": "Joe", "empty_text": "", "nums": []any{n(3), n(9)}, "none": []any{}, "strs": []any{"x", "y", "z"},
			"cfg": map[string]any{"n": n(4), "s": "conf", "sub": map[string]any{"n": n(6), "s": "inner"}},
		}
	}
	return build(func(i int64) any { return int(i) }), build(func(i int64) any { return big.NewInt(i) })
}

func TestC15_Programs(t *testing.T) {
	converter := engines{}
	check(t, "the program has at least one block and one assignment", 3000, 60000, func(c *C) {
		g := &sGen{c: c, t: c.T, locals: map[string]byte{}, dot: 'r',
			globals: map[string]byte{"a": 'n', "b": 'n', "zero": 'n', "name": 's', "empty_text": 's', "nums": 'l', "none": 'l', "strs": 't'}}
		g.body(8)
		var src strings.Builder
		for _, i := range g.items {
			src.WriteString(i.src)
		}
		s := src.String()
		if reserved.MatchString(s) {
			c.Skip()
		}
		c.Case("%s", s)
		ctx, model := c15Context()
		e := &sEnv{root: model, dots: []any{model}}
		e.push()
		skipped := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					if s, ok := r.(sSkip); ok {
						skipped = s.why
						return
					}
					panic(r)
				}
			}()
			e.run(trimItems(g.items), 0, true)
		}()
		if skipped != "" {
			c.Class("skipped " + strings.Fields(skipped)[0])
			c.Skip()
		}
		want := e.out.String()
		c.NontrivialIf(g.blocks > 0 && g.sets > 0)
		c.ClassIf(g.blocks > 1, "several blocks")
		c.ClassIf(g.sets > 2, "several assignments")
		c.ClassIf(strings.Contains(s, "@-") || strings.Contains(s, "@_-"), "space eaters")
		got, err := render(s, ctx)
		if err != nil || got != want {
			c.Fatalf("program:\n%s\nerror %v\n got %q\nwant %q", s, err, got, want)
		}
		code, err := converter.get(c, "", "strict disabled", nil).ProcessContent(s, "vp")
		if err != nil {
			c.Fatalf("conversion of\n%s\n%v", s, err)
		}
		ctx, _ = c15Context()
		tpl, err := newTemplate(ctx, "", noRazorOptions())
		if err != nil {
			c.Fatalf("%v", err)
		}
		if got, err = tpl.ProcessContent(code, "vp"); err != nil || got != want {
			c.Fatalf("program:\n%s\nconverted to\n%s\nerror %v\n got %q\nwant %q", s, code, err, got, want)
		}
	})
}

func noRazorOptions() template.OptionsSet {
	o := strictOptions()
	o[template.Razor] = false
	return o
}

// The assignment of a global value which does not exist is accepted, reported or refused, according to the validation mode.
func TestC15_Validation(t *testing.T) {
	check(t, "an assignment with = of a value which does not exist", 1500, 20000, func(c *C) {
		mode := rapid.SampledFrom([]template.AssignationValidationType{template.AssignationValidationDisabled, template.AssignationValidationWarning, template.AssignationValidationStrict}).Draw(c.T, "mode")
		old, oldLog := template.StrictAssignationMode, template.TemplateLog
		template.StrictAssignationMode, template.TemplateLog = mode, oldLog.Copy()
		defer func() { template.StrictAssignationMode, template.TemplateLog = old, oldLog }()
		var got []c31Message
		template.TemplateLog.RemoveHook("")
		if _, err := template.TemplateLog.TryAddHook("vp", logrus.WarnLevel, c31Hook{&got}); err != nil {
			c.Fatalf("%v", err)
		}
		values := map[string]any{"one": 1, "zero": 0, "no": false, "text": "", "list": []any{}, "none": nil}
		sub := map[string]any{"in": "x", "off": false}
		ctx := map[string]any{"sub": sub}
		for k, v := range values {
			if rapid.Bool().Draw(c.T, "has "+k) {
				ctx[k] = v
			}
		}
		var src, want strings.Builder
		missing, stops := []string{}, false
		known := map[string]bool{}
		for k, v := range ctx {
			known[k] = v != nil
		}
		for k := range sub {
			known["sub."+k] = true
		}
		for n := rapid.IntRange(1, 5).Draw(c.T, "n"); n > 0; n-- {
			key := rapid.SampledFrom([]string{"one", "zero", "no", "text", "list", "none", "new", "été", "sub.in", "sub.off", "sub.new"}).Draw(c.T, "key")
			prefix := rapid.SampledFrom([]string{"@", "@.", "@$."}).Draw(c.T, "prefix")
			op := rapid.SampledFrom([]string{" = ", "=", " := ", " = "}).Draw(c.T, "op")
			v := rapid.IntRange(0, 99).Draw(c.T, "v")
			fmt.Fprintf(&src, "%s%s%s%d\n", prefix, key, op, v)
			if !known[key] && !strings.Contains(op, ":") {
				missing = append(missing, map[string]string{"@": "$.", "@.": ".", "@$.": "$."}[prefix]+key)
				if mode == template.AssignationValidationStrict {
					stops = true
					break
				}
			}
			known[key] = true
			fmt.Fprintf(&src, "[@(%s)]", key)
			fmt.Fprintf(&want, "\n[%d]", v)
		}
		c.Case("mode=%d context=%v src=%q", mode, ctx, src.String())
		c.Class(fmt.Sprintf("mode %d", mode))
		c.NontrivialIf(len(missing) > 0)
		out, err := render(src.String(), ctx)
		if stops != (err != nil) {
			c.Fatalf("mode=%d context=%v src=%q missing=%q: error %v", mode, ctx, src.String(), missing, err)
		}
		if stops {
			if !strings.Contains(err.Error(), "does not exist") || !strings.Contains(err.Error(), missing[0]) {
				c.Fatalf("mode=%d context=%v src=%q: the error does not report %s: %v", mode, ctx, src.String(), missing[0], err)
			}
			return
		}
		if out != want.String() {
			c.Fatalf("mode=%d context=%v src=%q\n got %q\nwant %q", mode, ctx, src.String(), out, want.String())
		}
		reported := []string{}
		if mode == template.AssignationValidationWarning {
			reported = missing
		}
		if len(got) != len(reported) {
			c.Fatalf("mode=%d context=%v src=%q: reported %v, expected %q", mode, ctx, src.String(), got, reported)
		}
		for i := range got {
			if got[i].level != logrus.WarnLevel || !strings.HasPrefix(got[i].text, strings.TrimSuffix(reported[i], ".")+" ") {
				c.Fatalf("mode=%d context=%v src=%q: reported %v, expected %q", mode, ctx, src.String(), got, reported)
			}
		}
	})
}
