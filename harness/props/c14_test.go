package props

// C14: razor expressions evaluate with Go operator precedence.

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// xnode is an expression built with its value, its infix notation and its equivalent prefix action.
type xnode struct {
	infix  string
	prefix string
	prec   int // 6: operand, 5: unary, then as in Go shifted by one
	num    *big.Rat
	truth  bool
	text   string
	kind   byte // n, b, s
	ops    int
	depth  int
}

const (
	precOr = iota + 1
	precAnd
	precCompare
	precAdd
	precMul
	precUnary
	precOperand
)

type xgen struct {
	t     *rapid.T
	c     *C
	words bool
	ops   int
	mixed map[int]bool
}

func (g *xgen) pick(label string, s ...string) string {
	return s[rapid.IntRange(0, 1<<20).Draw(g.t, label)%len(s)]
}

func (g *xgen) n(label string, max int) int {
	return rapid.IntRange(0, 1<<20).Draw(g.t, label) % max
}

func ratInt(i int64) *big.Rat { return new(big.Rat).SetInt64(i) }

func num(infix, prefix string, v int64) xnode {
	return xnode{infix: infix, prefix: prefix, prec: precOperand, num: ratInt(v), kind: 'n'}
}

func c14Context() map[string]any {
	return map[string]any{
		"a": 5, "b": 3, "c": 12, "zero": 0, "neg": -7, "n1": 1, "_x": 9, "été": 11,
		"mapping": 7, "typed": 8, "default_value": 4, "functions": 6, "arranged": 2, "structure": 10, "addition": 13, "order": 14, "mode": 15, "not_a": 16,
		"t": true, "f": false, "str": "text", "star": "*", "other": "xyz",
		"l": []any{1, 2, 3, 40}, "words": []any{"one", "two", "text"},
		"cfg": map[string]any{"key": map[string]any{"n": 21, "s": "deep", "l": []any{5, 6}}, "t": true},
	}
}

var c14Vars = []xnode{
	num("a", "$.a", 5), num("b", "$.b", 3), num("c", "$.c", 12), num("zero", "$.zero", 0), num("neg", "$.neg", -7), num("n1", "$.n1", 1), num("_x", "$._x", 9), num("été", "$.été", 11),
	num("mapping", "$.mapping", 7), num("typed", "$.typed", 8), num("default_value", "$.default_value", 4), num("functions", "$.functions", 6), num("arranged", "$.arranged", 2), num("structure", "$.structure", 10),
	num("addition", "$.addition", 13), num("order", "$.order", 14), num("mode", "$.mode", 15), num("not_a", "$.not_a", 16),
	num("$v", "$v", 17), num("$.a", "$.a", 5), num(".b", ".b", 3), num(".cfg.key.n", ".cfg.key.n", 21), num("cfg.key.n", "$.cfg.key.n", 21), num("$.cfg.key.n", "$.cfg.key.n", 21), num("$w.key.n", "$w.key.n", 21),
	num("l[0]", "(index $.l 0)", 1), num("l[3]", "(index $.l 3)", 40), num("l[-1]", "(index $.l 3)", 40), num("$.l[1]", "(index $.l 1)", 2), num("cfg.key.l[1]", "(index $.cfg.key.l 1)", 6), num("$s[2]", "(index $.l 2)", 3),
	num("l[1:][0]", "(index $.l 1)", 2), num("len(l[:2])", "2", 2), num("len(l[1:3])", "2", 2), num("len(l)", "(len $.l)", 4), num("len(\"*+-\")", "(len \"*+-\")", 3), num("len(str)", "(len $.str)", 4), num("max(l...)", "40", 40),
	num("0x1F", "0x1F", 31), num("0b101", "0b101", 5), num("017", "017", 15), num("1_000", "1_000", 1000), num("'a'", "97", 97),
}

func (g *xgen) number(depth int) xnode {
	if depth <= 0 {
		switch g.n("leaf", 3) {
		case 0:
			v := []int{0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 33, 100}[g.n("lit", 12)]
			return num(strconv.Itoa(v), strconv.Itoa(v), int64(v))
		default:
			return c14Vars[g.n("var", len(c14Vars))]
		}
	}
	switch g.n("number", 12) {
	case 0:
		x := g.number(depth - 1)
		g.ops++
		in := x.infix
		if x.prec < precUnary || in[0] == '-' || in[0] == '+' {
			in = g.paren(in)
		}
		return xnode{infix: "-" + in, prefix: "(sub 0 " + x.prefix + ")", prec: precUnary, num: new(big.Rat).Neg(x.num), kind: 'n', depth: x.depth + 1}
	case 1:
		x := g.number(depth - 1)
		if !x.num.IsInt() {
			return x
		}
		g.ops++
		in := x.infix
		if x.prec < precUnary {
			in = g.paren(in)
		}
		v := new(big.Int).Not(x.num.Num())
		return xnode{infix: "^" + in, prefix: "(bxor -1 " + x.prefix + ")", prec: precUnary, num: new(big.Rat).SetInt(v), kind: 'n', depth: x.depth + 1}
	case 2:
		x, y := g.number(depth-1), g.number(depth-1)
		g.ops++
		f := g.pick("func", "max", "min", "add", "sub", "mul")
		v := new(big.Rat)
		switch f {
		case "max", "min":
			if !x.num.IsInt() || !y.num.IsInt() {
				f = "add"
				v.Add(x.num, y.num)
			} else if (x.num.Cmp(y.num) > 0) == (f == "max") {
				v = x.num
			} else {
				v = y.num
			}
		case "add":
			v.Add(x.num, y.num)
		case "sub":
			v.Sub(x.num, y.num)
		case "mul":
			v.Mul(x.num, y.num)
		}
		return g.bounded(xnode{infix: f + "(" + g.blank() + x.infix + g.blank() + "," + g.blank() + y.infix + g.blank() + ")", prefix: "(" + f + " " + x.prefix + " " + y.prefix + ")", prec: precOperand, num: v, kind: 'n', depth: x.depth + y.depth + 1}, x)
	case 3:
		x := g.boolean(depth - 1)
		y, z := g.number(depth-1), g.number(depth-1)
		g.ops++
		v := z.num
		if x.truth {
			v = y.num
		}
		return xnode{infix: "iif(" + x.infix + ", " + y.infix + ", " + z.infix + ")", prefix: "(iif " + x.prefix + " " + y.prefix + " " + z.prefix + ")", prec: precOperand, num: v, kind: 'n', depth: x.depth + y.depth + z.depth + 1}
	case 4:
		x := g.number(depth - 1)
		x.infix, x.prec = g.paren(x.infix), precOperand
		return x
	}
	x, y := g.number(depth-1), g.number(depth-1)
	op := g.pick("op", "+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^", "&^")
	v := new(big.Rat)
	ints := x.num.IsInt() && y.num.IsInt()
	switch op {
	case "%", "<<", ">>", "&", "|", "^", "&^":
		if !ints {
			op = "+"
		}
	}
	name, prec := "", precMul
	var words []string
	xi, yi := x.num.Num(), y.num.Num()
	switch op {
	case "+":
		name, prec = "add", precAdd
		v.Add(x.num, y.num)
	case "-":
		name, prec = "sub", precAdd
		v.Sub(x.num, y.num)
	case "*":
		name = "mul"
		v.Mul(x.num, y.num)
	case "/":
		name, words = "div", []string{"÷"}
		if y.num.Sign() == 0 {
			return x
		}
		v.Quo(x.num, y.num)
	case "%":
		name = "mod"
		if y.num.Sign() == 0 {
			return x
		}
		v.SetInt(new(big.Int).Rem(xi, yi))
	case "**":
		name = "power"
		if !ints || !yi.IsInt64() || yi.Int64() < 0 || yi.Int64() > 5 {
			return x
		}
		v.SetInt(new(big.Int).Exp(xi, yi, nil))
	case "<<", ">>":
		if !yi.IsInt64() || yi.Int64() < 0 || yi.Int64() > 12 {
			return x
		}
		if op == "<<" {
			name, words = "lshift", []string{"«"}
			v.SetInt(new(big.Int).Lsh(xi, uint(yi.Int64())))
		} else {
			name, words = "rshift", []string{"»"}
			v.SetInt(new(big.Int).Rsh(xi, uint(yi.Int64())))
		}
		if xi.Sign() < 0 {
			return x
		}
	case "&":
		name = "band"
		v.SetInt(new(big.Int).And(xi, yi))
	case "|":
		name, prec = "bor", precAdd
		v.SetInt(new(big.Int).Or(xi, yi))
	case "^":
		name, prec = "bxor", precAdd
		v.SetInt(new(big.Int).Xor(xi, yi))
	case "&^":
		name = "bclear"
		v.SetInt(new(big.Int).AndNot(xi, yi))
	}
	return g.bounded(g.binary(op, name, prec, words, x, y, xnode{num: v, kind: 'n'}), x)
}

// bounded keeps the values small enough to be exact.
func (g *xgen) bounded(r, fallback xnode) xnode {
	d := r.num.Denom() // a power of two: the value is exact in floating point
	if r.num.Num().BitLen() > 30 || d.BitLen() > 20 || int(d.TrailingZeroBits()) != d.BitLen()-1 {
		return fallback
	}
	return r
}

func (g *xgen) blank() string { return g.pick("blank", "", "", "", " ", "  ") }

func (g *xgen) paren(s string) string { return "(" + g.blank() + s + g.blank() + ")" }

// binary writes a binary operation, with only the parentheses which are required by Go precedence or, sometimes, extra ones.
func (g *xgen) binary(op, word string, prec int, alternates []string, x, y xnode, r xnode) xnode {
	g.ops++
	left, right := x.infix, y.infix
	if x.prec < prec || g.n("extra", 8) == 0 {
		left = g.paren(left)
	}
	if y.prec <= prec || g.n("extra", 8) == 0 {
		right = g.paren(right)
	}
	sign := op
	if len(alternates) > 0 && g.n("alternate", 3) == 0 {
		sign = alternates[g.n("which", len(alternates))]
		g.c.Class("alternate spelling")
	}
	if op != "**" && word != "" && g.n("word", 4) == 0 {
		sign = " " + word + " "
		g.c.Class("word operator")
	} else {
		before, after := g.pick("before", "", " ", " "), g.pick("after", "", " ", " ")
		if strings.ContainsRune("-^!*&<+", rune(right[0])) {
			after = " "
		}
		sign = before + sign + after
	}
	g.mixed[prec] = true
	r.infix, r.prec = left+sign+right, prec
	r.prefix = "(" + word + " " + x.prefix + " " + y.prefix + ")"
	r.depth = x.depth + y.depth + 1
	return r
}

var c14Bools = []xnode{
	{infix: "t", prefix: "$.t", truth: true}, {infix: "f", prefix: "$.f"}, {infix: "true", prefix: "true", truth: true}, {infix: "false", prefix: "false"}, {infix: "cfg.t", prefix: "$.cfg.t", truth: true}, {infix: "$.f", prefix: "$.f"}, {infix: ".t", prefix: ".t", truth: true},
	{infix: "has(words, \"one\")", prefix: "(has $.words \"one\")", truth: true}, {infix: "contains(words, \" or \")", prefix: "(contains $.words \" or \")"}, {infix: "words.Contains(\"two\")", prefix: "($.words.Contains \"two\")", truth: true}, {infix: "hasPrefix(\"te\", str)", prefix: "(hasPrefix \"te\" $.str)", truth: true},
	{infix: "isNil(zzz)", prefix: "true", truth: true}, {infix: "empty(list())", prefix: "true", truth: true},
}

func (g *xgen) boolean(depth int) xnode {
	if depth <= 0 {
		r := c14Bools[g.n("bool", len(c14Bools))]
		r.kind, r.prec = 'b', precOperand
		return r
	}
	switch g.n("boolean", 6) {
	case 0:
		x := g.boolean(depth - 1)
		g.ops++
		in := x.infix
		if x.prec < precUnary {
			in = g.paren(in)
		}
		return xnode{infix: "!" + in, prefix: "(not " + x.prefix + ")", prec: precUnary, truth: !x.truth, kind: 'b', depth: x.depth + 1}
	case 1:
		x := g.boolean(depth - 1)
		x.infix, x.prec = g.paren(x.infix), precOperand
		return x
	case 2, 3:
		x, y := g.boolean(depth-1), g.boolean(depth-1)
		if g.n("and", 2) == 0 {
			return g.binary("&&", "and", precAnd, nil, x, y, xnode{truth: x.truth && y.truth, kind: 'b'})
		}
		return g.binary("||", "or", precOr, nil, x, y, xnode{truth: x.truth || y.truth, kind: 'b'})
	case 4:
		x, y := g.str(depth-1), g.str(depth-1)
		if g.n("equal", 2) == 0 {
			return g.binary("==", "eq", precCompare, nil, x, y, xnode{truth: x.text == y.text, kind: 'b'})
		}
		return g.binary("!=", "ne", precCompare, []string{"<>", "≠"}, x, y, xnode{truth: x.text != y.text, kind: 'b'})
	}
	x, y := g.number(depth-1), g.number(depth-1)
	if !x.num.IsInt() || !y.num.IsInt() {
		return g.boolean(0)
	}
	cmp := x.num.Cmp(y.num)
	r := xnode{kind: 'b'}
	op := g.pick("compare", "==", "!=", "<", "<=", ">", ">=")
	word := map[string]string{"==": "eq", "!=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}[op]
	alternates := map[string][]string{"!=": {"<>", "≠"}, "<=": {"≦"}, ">=": {"≧"}}[op]
	switch op {
	case "==":
		r.truth = cmp == 0
	case "!=":
		r.truth = cmp != 0
	case "<":
		r.truth = cmp < 0
	case "<=":
		r.truth = cmp <= 0
	case ">":
		r.truth = cmp > 0
	case ">=":
		r.truth = cmp >= 0
	}
	return g.binary(op, word, precCompare, alternates, x, y, r)
}

func (g *xgen) str(depth int) xnode {
	if depth > 0 && g.n("concat", 3) == 0 {
		x, y := g.str(depth-1), g.str(depth-1)
		return g.binary("+", "add", precAdd, nil, x, y, xnode{text: x.text + y.text, kind: 's'})
	}
	leaf := func(in, pre, v string) xnode {
		return xnode{infix: in, prefix: pre, text: v, prec: precOperand, kind: 's'}
	}
	switch g.n("string", 8) {
	case 0:
		return leaf("str", "$.str", "text")
	case 1:
		return leaf("cfg.key.s", "$.cfg.key.s", "deep")
	case 2:
		return leaf("upper(other)", "(upper $.other)", "XYZ")
	case 3:
		return leaf("words[1]", "(index $.words 1)", "two")
	case 4:
		return leaf("cfg[\"key\"][\"s\"]", "$.cfg.key.s", "deep")
	}
	s := g.pick("literal", "a", "a + b", " or ", " sub ", "&&", "<>", "÷", "(", "\"", "$x", ".x", "range", "func", "**", "é", "x  y", "[:]", "'", "%d")
	q := strconv.Quote(s)
	return leaf(q, q, s)
}

func (x xnode) want() string {
	switch x.kind {
	case 'b':
		return fmt.Sprint(x.truth)
	case 's':
		return x.text
	}
	if x.num.IsInt() {
		return x.num.Num().String()
	}
	f, _ := x.num.Float64()
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func sameNumber(got, want string) bool {
	if got == want {
		return true
	}
	g, e1 := strconv.ParseFloat(got, 64)
	w, e2 := strconv.ParseFloat(want, 64)
	if e1 != nil || e2 != nil {
		return false
	}
	d := g - w
	return d < 1e-9*(1+w*w) && d > -1e-9*(1+w*w)
}

// nesting returns the depth of parentheses: an expression can be delimited in its line when it is not too deep.
func nesting(s string) (max int) {
	level := 0
	for _, r := range s {
		switch r {
		case '(', '[':
			if level++; level > max {
				max = level
			}
		case ')', ']':
			level--
		}
	}
	return
}

const c14Head = "{{- $v := 17 }}{{- $w := .cfg }}{{- $s := .l }}"

func TestC14_Value(t *testing.T) {
	eng := engines{}
	check(t, "the expression has at least two operators of different precedence", 12000, 300000, func(c *C) {
		g := &xgen{t: c.T, c: c, mixed: map[int]bool{}}
		depth := 1 + g.n("depth", 4)
		var x xnode
		switch g.n("kind", 5) {
		case 0, 1:
			x = g.boolean(depth)
		case 2:
			x = g.str(depth)
		default:
			x = g.number(depth)
		}
		want := x.want()
		in := g.blank() + x.infix + g.blank()
		if nesting(in) > 8 {
			c.Skip()
		}
		// the expression in one of the places where one is accepted
		yes := ""
		if x.kind == 'b' && x.truth || x.kind == 'n' && x.num.Sign() != 0 || x.kind == 's' && x.text != "" {
			yes = "yes"
		}
		forms := [][2]string{{"<@(%s)>", "<%w>"}, {"<@(%s);>", "<%w>"}, {"(@(%s)) [x]", "(%w) [x]"}, {"<@print(%s)>", "<%w>"}, {"@{r} := %s\n<@{r}>", "\n<%w>"}, {"@r := %s\n<@r;>", "\n<%w>"}, {"@{r := %s}<@{r};>", "<%w>"},
			{"<@if (%s)yes@end>", "<%y>"}, {"<@if (f)bad@else if (%s)yes@end>", "<%y>"}, {"<@list(1, %s, 3)[1]>", "<%w>"}, {"@($r := %s)<@($r)>", "<%w>"}, {"<@with (list(%s)) @(.[0]) @end>", "<%w >"}, {"<@(iif(true, %s, 0))>", "<%w>"},
			{"<@for ($e := list(%s, %s)) @(print($e)); @end>", ""}}
		form := forms[g.n("form", len(forms)-1)]
		src := c14Head + strings.ReplaceAll(form[0], "%s", in)
		c.Case("%s", src)
		c.NontrivialIf(len(g.mixed) >= 2 || g.ops >= 3)
		c.Class(string(rune(x.kind)))
		c.Class(form[0])
		if strings.Contains(form[0], "with (list") && (x.kind == 'n' && x.num.Sign() == 0 || x.kind == 'b' && !x.truth) {
			c.Skip()
		}
		tpl := eng.get(c, "", "strict", c14Context())
		got, err := tpl.ProcessContent(src, "vp")
		w := strings.NewReplacer("%w", want, "%y", yes).Replace(form[1])
		ok := err == nil && got == w
		if !ok && err == nil && x.kind == 'n' && !x.num.IsInt() {
			i := strings.Index(form[1], "%w")
			if i < 0 {
				ok = got == w
			} else {
				head, tail := form[1][:i], form[1][i+2:]
				ok = len(got) >= len(head)+len(tail) && strings.HasPrefix(got, head) && strings.HasSuffix(got, tail) && sameNumber(got[i:len(got)-len(tail)], want)
			}
		}
		if !ok {
			c.Fatalf("%s: error %v\n got %q\nwant %q\nprefix notation %s", src, err, got, w, x.prefix)
		}
		// the equivalent prefix notation renders the same
		pre, err := tpl.ProcessContent(c14Head+"{{ "+x.prefix+" }}", "vp")
		if err != nil {
			c.Fatalf("prefix %s: %v", x.prefix, err)
		}
		inf, err := tpl.ProcessContent(c14Head+"@("+in+")", "vp")
		if err != nil || inf != pre {
			c.Fatalf("%s renders %q (%v) but %s renders %q", in, inf, err, x.prefix, pre)
		}
	})
}
