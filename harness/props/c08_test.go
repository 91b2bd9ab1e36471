package props

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/json"
	"github.com/coveooss/gotemplate/v3/template"
	"pgregory.net/rapid"
)

// evaluator renders expressions with a single template whose context is modified between the renderings.
type evaluator struct {
	context collections.IDictionary
	tmpl    *template.Template
	count   int
}

func (e *evaluator) eval(c *C, code string, context map[string]any) (string, error) {
	if e.tmpl == nil || e.count > 400 {
		useJSON()
		e.context = json.DictionaryHelper.AsDictionary(map[string]any{})
		var err error
		if e.tmpl, err = newTemplate(e.context, "", strictOptions()); err != nil {
			c.Fatalf("newTemplate: %v", err)
		}
		e.count = 0
	}
	e.count++
	for k, v := range context {
		e.context.Set(k, v)
	}
	return e.tmpl.ProcessContent(code, "vp")
}

// number is an argument: its exact value, and how it is written in the template.
type number struct {
	f    float64
	code string
	ctx  any // value in the context if code refers to it
}

type numKind int

const (
	anyNum   numKind = iota // integers, fractions, numeric strings
	smallNum                // integers and eighths of limited size
	intNum                  // integer, also written as a string
	shiftNum
	unitNum
	posNum
	bigNum
)

// drawNumber draws a number and its notation.
func drawNumber(c *C, kind numKind, name string) number {
	var f float64
	switch kind {
	case unitNum:
		f = float64(rapid.IntRange(-16, 16).Draw(c.T, name)) / 16
	case posNum:
		f = float64(rapid.IntRange(0, 400).Draw(c.T, name)) / 16
	case shiftNum:
		f = float64(rapid.IntRange(0, 20).Draw(c.T, name))
	case intNum:
		f = float64(rapid.OneOf(rapid.IntRange(-20, 20), rapid.IntRange(-1<<31, 1<<31), rapid.IntRange(-1<<53, 1<<53)).Draw(c.T, name))
	case smallNum:
		f = float64(rapid.OneOf(rapid.IntRange(-40, 40), rapid.IntRange(-8000, 8000)).Draw(c.T, name)) / 8
	case bigNum:
		f = rapid.SampledFrom([]float64{1e10, -1e10, 1e15, 3e18, 1e19, -1e19, 9.3e18, -9.3e18, 1e25, 12345678901, 1e100, 2, -3}).Draw(c.T, name)
	default:
		f = rapid.OneOf(
			rapid.Map(rapid.IntRange(-20, 20), func(i int) float64 { return float64(i) }),
			rapid.Map(rapid.OneOf(rapid.IntRange(-1<<40, 1<<40), rapid.IntRange(-1<<45, 1<<45)), func(i int) float64 { return float64(i) }),
			rapid.Map(rapid.IntRange(-80000, 80000), func(i int) float64 { return float64(i) / 16 }),
		).Draw(c.T, name)
	}
	n := notation(c, f, name)
	if _, isFloat := n.ctx.(float64); kind == intNum && (isFloat || strings.HasSuffix(n.code, ".0)")) {
		n = number{f: f, code: literal(f)} // a large float does not print as an integer
	}
	return n
}

func literal(f float64) string {
	s := strconv.FormatFloat(f, 'f', -1, 64)
	if math.Abs(f) >= 1<<63 {
		s = strconv.FormatFloat(f, 'e', -1, 64)
	}
	return s
}

func notation(c *C, f float64, name string) number {
	n := number{f: f}
	switch k := rapid.IntRange(0, 5).Draw(c.T, name+" notation"); {
	case k == 0:
		n.code = `"` + literal(f) + `"`
	case k == 1 && f == math.Trunc(f) && math.Abs(f) < 1<<31:
		n.code = rapid.SampledFrom([]string{"(int %s)", "(%s.0)", "(int64 %s)"}).Draw(c.T, "form")
		n.code = fmt.Sprintf(n.code, literal(f))
	case k == 2:
		n.code = "." + name
		n.ctx = f
		if f == math.Trunc(f) && math.Abs(f) < 1<<62 {
			n.ctx = rapid.SampledFrom([]any{f, int(f), int64(f), fmt.Sprintf("%d", int64(f))}).Draw(c.T, "type")
		}
		if f == math.Trunc(f) && f >= 0 && f < 256 {
			n.ctx = rapid.SampledFrom([]any{uint8(f), uint(f), float32(f), collections.String(fmt.Sprint(f))}).Draw(c.T, "type")
		}
	default:
		n.code = literal(f)
	}
	return n
}

// accept is what a result must satisfy.
type expected struct {
	f     float64
	exact bool // the result must be this number, otherwise a relative error of 1e-11 is tolerated
	raw   bool // the result may be printed as a float even if it is integral
}

var integerText = regexp.MustCompile(`^-?\d+$`)

func (e expected) check(text string) error {
	got, err := strconv.ParseFloat(text, 64)
	if err != nil {
		return fmt.Errorf("%q is not a number", text)
	}
	if math.IsNaN(e.f) || math.IsNaN(got) {
		if math.IsNaN(e.f) && math.IsNaN(got) {
			return nil
		}
		return fmt.Errorf("got %s, want %v", text, e.f)
	}
	if e.exact && got != e.f || got != e.f && !(math.Abs(got-e.f) <= 1e-11*math.Abs(e.f)+1e-13) {
		return fmt.Errorf("got %s, want %v", text, e.f)
	}
	if !e.raw && e.exact && e.f == math.Trunc(e.f) && math.Abs(e.f) < 1<<63 && !integerText.MatchString(text) {
		return fmt.Errorf("got %s, which does not print as an integer", text)
	}
	return nil
}

type mathFunc struct {
	names  []string
	kinds  []numKind
	want   func(a []float64) []expected
	lists  bool // the first argument may be a list
	repeat bool // accepts more arguments of the last kind
}

func ex(f float64) []expected  { return []expected{{f: f, exact: true}} }
func apx(f float64) []expected { return []expected{{f: f}} }

func rat(f float64) *big.Rat { return new(big.Rat).SetFloat64(f) }
func ratF(r *big.Rat) float64 {
	f, _ := r.Float64()
	return f
}

func ratFloor(r *big.Rat) *big.Int {
	q := new(big.Int)
	m := new(big.Int)
	return firstOf(q.DivMod(r.Num(), r.Denom(), m))
}

func firstOf[T, U any](a T, b U) T { return a }

func intF(i *big.Int) float64 { return ratF(new(big.Rat).SetInt(i)) }

func fn1(f func(float64) float64) func(a []float64) []expected {
	return func(a []float64) []expected { return apx(f(a[0])) }
}
func ex1(f func(float64) float64) func(a []float64) []expected {
	return func(a []float64) []expected { return ex(f(a[0])) }
}

func sum(a []float64) *big.Rat {
	r := new(big.Rat)
	for _, f := range a {
		r.Add(r, rat(f))
	}
	return r
}

func i64s(a []float64) []int64 {
	r := make([]int64, len(a))
	for i := range a {
		r[i] = int64(a[i])
	}
	return r
}

// foldBits is written on the binary digits, independently from the operators of Go.
func foldBits(f func(a, b bool) bool) func(a []float64) []expected {
	return func(a []float64) []expected {
		v := i64s(a)
		var r uint64
		for bit := 0; bit < 64; bit++ {
			x := uint64(v[0])/pow2(bit)%2 == 1
			for _, o := range v[1:] {
				x = f(x, uint64(o)/pow2(bit)%2 == 1)
			}
			if x {
				r += pow2(bit)
			}
		}
		return ex(float64(int64(r)))
	}
}

func pow2(n int) uint64 {
	r := uint64(1)
	for i := 0; i < n; i++ {
		r *= 2
	}
	return r
}

// exact arithmetic: rational numbers
var arithmetic = []mathFunc{
	{[]string{"add", "sum"}, []numKind{anyNum, anyNum}, func(a []float64) []expected { return ex(ratF(sum(a))) }, false, true},
	{[]string{"sub", "subtract"}, []numKind{anyNum, anyNum}, func(a []float64) []expected { return ex(ratF(new(big.Rat).Sub(rat(a[0]), rat(a[1])))) }, true, false},
	{[]string{"mul", "multiply", "prod", "product"}, []numKind{smallNum, smallNum}, func(a []float64) []expected {
		r := big.NewRat(1, 1)
		for _, f := range a {
			r.Mul(r, rat(f))
		}
		return []expected{{f: ratF(r), exact: len(a) <= 3}}
	}, false, true},
	{[]string{"div", "divide", "quotient"}, []numKind{anyNum, smallNum}, func(a []float64) []expected {
		if a[1] == 0 {
			return nil
		}
		return ex(ratF(new(big.Rat).Quo(rat(a[0]), rat(a[1]))))
	}, true, false},
	{[]string{"mod", "modulo"}, []numKind{smallNum, smallNum}, func(a []float64) []expected {
		if a[1] == 0 {
			return ex(math.NaN())
		}
		// a - b * trunc(a/b)
		q := new(big.Rat).Quo(rat(a[0]), rat(a[1]))
		t := new(big.Int).Quo(q.Num(), q.Denom())
		return ex(ratF(new(big.Rat).Sub(rat(a[0]), new(big.Rat).Mul(rat(a[1]), new(big.Rat).SetInt(t)))))
	}, true, false},
	{[]string{"rem", "remainder"}, []numKind{smallNum, smallNum}, func(a []float64) []expected {
		if a[1] == 0 {
			return ex(math.NaN())
		}
		// a - b * n, n being the nearest integer, even in case of tie
		q := new(big.Rat).Quo(rat(a[0]), rat(a[1]))
		n := ratFloor(new(big.Rat).Add(q, big.NewRat(1, 2)))
		if d := new(big.Rat).Sub(new(big.Rat).SetInt(n), q); d.Cmp(big.NewRat(1, 2)) == 0 && n.Bit(0) == 1 {
			n.Sub(n, big.NewInt(1))
		}
		return ex(ratF(new(big.Rat).Sub(rat(a[0]), new(big.Rat).Mul(rat(a[1]), new(big.Rat).SetInt(n)))))
	}, false, false},
	{[]string{"avg", "average"}, []numKind{anyNum, anyNum}, func(a []float64) []expected {
		return ex(ratF(new(big.Rat).Quo(sum(a), big.NewRat(int64(len(a)), 1))))
	}, false, true},
	{[]string{"max", "maximum", "biggest"}, []numKind{anyNum, anyNum}, func(a []float64) []expected {
		r := a[0]
		for _, f := range a {
			if rat(f).Cmp(rat(r)) > 0 {
				r = f
			}
		}
		return ex(r)
	}, false, true},
	{[]string{"min", "minimum", "smallest"}, []numKind{anyNum, anyNum}, func(a []float64) []expected {
		r := a[0]
		for _, f := range a {
			if rat(f).Cmp(rat(r)) < 0 {
				r = f
			}
		}
		return ex(r)
	}, false, true},
	{[]string{"dim"}, []numKind{anyNum, anyNum}, func(a []float64) []expected {
		r := new(big.Rat).Sub(rat(a[0]), rat(a[1]))
		if r.Sign() < 0 {
			return ex(0)
		}
		return ex(ratF(r))
	}, true, false},
	{[]string{"abs", "absolute"}, []numKind{anyNum}, func(a []float64) []expected { return ex(ratF(new(big.Rat).Abs(rat(a[0])))) }, true, false},
	{[]string{"floor", "roundDown", "rounddown", "int64", "integer64"}, []numKind{anyNum}, func(a []float64) []expected { return ex(intF(ratFloor(rat(a[0])))) }, true, false},
	{[]string{"int", "integer"}, []numKind{anyNum}, func(a []float64) []expected { return ex(intF(ratFloor(rat(a[0])))) }, false, false},
	{[]string{"ceil", "roundUp", "roundup"}, []numKind{anyNum}, func(a []float64) []expected {
		return ex(-intF(ratFloor(new(big.Rat).Neg(rat(a[0])))))
	}, true, false},
	{[]string{"trunc", "truncate"}, []numKind{anyNum}, func(a []float64) []expected {
		return ex(intF(new(big.Int).Quo(rat(a[0]).Num(), rat(a[0]).Denom())))
	}, true, false},
	{[]string{"modf"}, []numKind{anyNum}, func(a []float64) []expected {
		i := intF(new(big.Int).Quo(rat(a[0]).Num(), rat(a[0]).Denom()))
		return []expected{{f: i, exact: true, raw: true}, {f: ratF(new(big.Rat).Sub(rat(a[0]), rat(i))), exact: true, raw: true}}
	}, false, false},
	{[]string{"pow", "power"}, []numKind{smallNum, shiftNum}, func(a []float64) []expected {
		r := big.NewRat(1, 1)
		for i := 0; i < int(a[1]); i++ {
			r.Mul(r, rat(a[0]))
		}
		f := ratF(r)
		return []expected{{f: f, exact: a[0] == math.Trunc(a[0]) && math.Abs(f) < 1<<53}}
	}, true, false},
	{[]string{"pow10", "power10"}, []numKind{shiftNum}, func(a []float64) []expected {
		f, _ := strconv.ParseFloat(fmt.Sprintf("1e%d", int(a[0])), 64)
		return ex(f)
	}, true, false},
	{[]string{"exp2", "exponent2"}, []numKind{shiftNum}, func(a []float64) []expected { return ex(float64(pow2(int(a[0])))) }, true, false},
	{[]string{"sqrt", "squareRoot"}, []numKind{posNum}, func(a []float64) []expected {
		f, _ := new(big.Float).SetPrec(200).Sqrt(new(big.Float).SetPrec(200).SetFloat64(a[0])).Float64()
		return ex(f)
	}, true, false},
	{[]string{"ldexp"}, []numKind{smallNum, shiftNum}, func(a []float64) []expected { return ex(a[0] * float64(pow2(int(a[1])))) }, false, false},
	{[]string{"frexp"}, []numKind{anyNum}, func(a []float64) []expected {
		f, e := a[0], 0
		for ; math.Abs(f) >= 1; e++ {
			f /= 2
		}
		for ; f != 0 && math.Abs(f) < 0.5; e-- {
			f *= 2
		}
		return append(ex(f), ex(float64(e))...)
	}, false, false},
	{[]string{"logb"}, []numKind{anyNum}, func(a []float64) []expected {
		if a[0] == 0 {
			return ex(math.Inf(-1))
		}
		return ex(binaryExponent(a[0]))
	}, true, false},
	{[]string{"ilogb"}, []numKind{anyNum}, func(a []float64) []expected {
		if a[0] == 0 {
			return ex(math.MinInt32)
		}
		return ex(binaryExponent(a[0]))
	}, false, false},
	{[]string{"nextAfter"}, []numKind{smallNum, smallNum}, func(a []float64) []expected { return ex(math.Nextafter(a[0], a[1])) }, false, false},
}

func binaryExponent(f float64) float64 {
	e := 0
	for f = math.Abs(f); f >= 2; e++ {
		f /= 2
	}
	for ; f < 1; e-- {
		f *= 2
	}
	return float64(e)
}

var bits = []mathFunc{
	{[]string{"band", "bitwiseAND"}, []numKind{intNum, intNum}, foldBits(func(a, b bool) bool { return a && b }), false, true},
	{[]string{"bor", "bitwiseOR"}, []numKind{intNum, intNum}, foldBits(func(a, b bool) bool { return a || b }), false, true},
	{[]string{"bxor", "bitwiseXOR"}, []numKind{intNum, intNum}, foldBits(func(a, b bool) bool { return a != b }), false, true},
	{[]string{"bclear", "bitwiseClear"}, []numKind{intNum, intNum}, foldBits(func(a, b bool) bool { return a && !b }), false, true},
	{[]string{"lshift", "leftShift"}, []numKind{intNum, shiftNum}, func(a []float64) []expected {
		return ex(float64(int64(uint64(int64(a[0])) * pow2(int(a[1])))))
	}, true, false},
	{[]string{"rshift", "rightShift"}, []numKind{intNum, shiftNum}, func(a []float64) []expected {
		return ex(intF(ratFloor(new(big.Rat).Quo(rat(a[0]), rat(float64(pow2(int(a[1]))))))))
	}, true, false},
}

// the reference of the transcendental functions is the mathematical library of Go, and identities
var transcendental = []mathFunc{
	{[]string{"exp", "exponent"}, []numKind{smallNum}, fn1(math.Exp), true, false},
	{[]string{"exp2", "exponent2"}, []numKind{unitNum}, fn1(func(f float64) float64 { return math.Pow(2, f) }), true, false},
	{[]string{"expm1"}, []numKind{unitNum}, fn1(math.Expm1), true, false},
	{[]string{"cbrt"}, []numKind{anyNum}, fn1(math.Cbrt), true, false},
	{[]string{"pow", "power"}, []numKind{smallNum, unitNum}, func(a []float64) []expected { return apx(math.Pow(a[0], a[1])) }, true, false},
	{[]string{"hypot", "hypotenuse"}, []numKind{smallNum, smallNum}, func(a []float64) []expected { return apx(math.Sqrt(a[0]*a[0] + a[1]*a[1])) }, true, false},
	{[]string{"gamma"}, []numKind{posNum}, fn1(math.Gamma), true, false},
	{[]string{"lgamma"}, []numKind{smallNum}, func(a []float64) []expected {
		f, s := math.Lgamma(a[0])
		return append(apx(f), ex(float64(s))...)
	}, false, false},
	{[]string{"rad", "radian"}, []numKind{smallNum}, fn1(func(f float64) float64 { return math.Pi * f / 180 }), true, false},
	{[]string{"deg", "degree"}, []numKind{smallNum}, fn1(func(f float64) float64 { return f / math.Pi * 180 }), true, false},
	{[]string{"acos", "arcCosine", "arcCosinus"}, []numKind{unitNum}, fn1(math.Acos), true, false},
	{[]string{"asin", "arcSine", "arcSinus"}, []numKind{unitNum}, fn1(math.Asin), true, false},
	{[]string{"atan", "arcTangent"}, []numKind{smallNum}, fn1(math.Atan), true, false},
	{[]string{"atan2", "arcTangent2"}, []numKind{smallNum, smallNum}, func(a []float64) []expected { return apx(math.Atan2(a[0], a[1])) }, true, false},
	{[]string{"acosh", "arcHyperbolicCosine", "arcHyperbolicCosinus"}, []numKind{posNum}, fn1(math.Acosh), true, false},
	{[]string{"asinh", "arcHyperbolicSine", "arcHyperbolicSinus"}, []numKind{smallNum}, fn1(math.Asinh), true, false},
	{[]string{"atanh", "arcHyperbolicTangent"}, []numKind{unitNum}, fn1(math.Atanh), true, false},
	{[]string{"cos", "cosine", "cosinus"}, []numKind{smallNum}, fn1(math.Cos), true, false},
	{[]string{"sin", "sine", "sinus"}, []numKind{smallNum}, fn1(math.Sin), true, false},
	{[]string{"tan", "tangent"}, []numKind{smallNum}, fn1(math.Tan), true, false},
	{[]string{"sincos", "sineCosine", "sinusCosinus"}, []numKind{smallNum}, func(a []float64) []expected {
		return append(apx(math.Sin(a[0])), apx(math.Cos(a[0]))...)
	}, false, false},
	{[]string{"cosh", "hyperbolicCosine", "hyperbolicCosinus"}, []numKind{unitNum}, fn1(math.Cosh), true, false},
	{[]string{"sinh", "hyperbolicSine", "hyperbolicSinus"}, []numKind{unitNum}, fn1(math.Sinh), true, false},
	{[]string{"tanh", "hyperbolicTangent"}, []numKind{smallNum}, fn1(math.Tanh), true, false},
	{[]string{"log"}, []numKind{posNum}, fn1(math.Log), true, false},
	{[]string{"log10"}, []numKind{smallNum}, fn1(math.Log10), true, false},
	{[]string{"log1p"}, []numKind{posNum}, fn1(math.Log1p), true, false},
	{[]string{"log2"}, []numKind{posNum}, fn1(math.Log2), true, false},
	{[]string{"j0", "firstBessel0"}, []numKind{smallNum}, fn1(math.J0), true, false},
	{[]string{"j1", "firstBessel1"}, []numKind{smallNum}, fn1(math.J1), true, false},
	{[]string{"y0", "secondBessel0"}, []numKind{posNum}, fn1(math.Y0), true, false},
	{[]string{"y1", "secondBessel1"}, []numKind{posNum}, fn1(math.Y1), true, false},
	{[]string{"jn", "firstBesselN"}, []numKind{shiftNum, smallNum}, func(a []float64) []expected { return apx(math.Jn(int(a[0]), a[1])) }, false, false},
	{[]string{"yn", "secondBesselN"}, []numKind{shiftNum, posNum}, func(a []float64) []expected { return apx(math.Yn(int(a[0]), a[1])) }, false, false},
}

// results beyond the integer range
var overflowing = []mathFunc{
	{[]string{"mul"}, []numKind{bigNum, bigNum}, func(a []float64) []expected {
		f := 1.0
		for _, x := range a {
			f *= x
		}
		return apx(f)
	}, false, true},
	{[]string{"add"}, []numKind{bigNum, bigNum}, func(a []float64) []expected { return apx(ratF(sum(a))) }, false, false},
	{[]string{"sub"}, []numKind{bigNum, bigNum}, func(a []float64) []expected { return apx(a[0] - a[1]) }, true, false},
	{[]string{"div"}, []numKind{bigNum, bigNum}, func(a []float64) []expected { return apx(a[0] / a[1]) }, true, false},
	{[]string{"pow"}, []numKind{bigNum, shiftNum}, func(a []float64) []expected { return apx(math.Pow(a[0], a[1])) }, true, false},
	{[]string{"pow"}, []numKind{shiftNum, shiftNum}, func(a []float64) []expected { return apx(math.Pow(a[0], a[1])) }, true, false},
	{[]string{"max", "biggest"}, []numKind{bigNum, bigNum}, func(a []float64) []expected { return ex(math.Max(a[0], a[1])) }, false, false},
	{[]string{"min"}, []numKind{bigNum, bigNum}, func(a []float64) []expected { return ex(math.Min(a[0], a[1])) }, false, false},
	{[]string{"floor"}, []numKind{bigNum}, func(a []float64) []expected { return ex(math.Floor(a[0])) }, true, false},
	{[]string{"abs"}, []numKind{bigNum}, func(a []float64) []expected { return ex(math.Abs(a[0])) }, true, false},
	{[]string{"exp"}, []numKind{intNum}, fn1(math.Exp), true, false},
	{[]string{"log"}, []numKind{posNum}, fn1(math.Log), true, false},
	{[]string{"gamma"}, []numKind{shiftNum}, fn1(math.Gamma), true, false},
	{[]string{"avg"}, []numKind{bigNum, bigNum}, func(a []float64) []expected { return apx((a[0] + a[1]) / 2) }, false, false},
	{[]string{"exp2"}, []numKind{intNum}, fn1(math.Exp2), true, false},
	{[]string{"pow10"}, []numKind{shiftNum}, fn1(func(f float64) float64 { return math.Pow(10, f) }), true, false},
}

type mathCall struct {
	code string
	want []expected
}

// drawCall draws a call with scalar arguments or with a list as first argument.
func drawCall(c *C, functions []mathFunc, context map[string]any) *mathCall {
	f := functions[rapid.IntRange(0, len(functions)-1).Draw(c.T, "function")]
	name := rapid.SampledFrom(f.names).Draw(c.T, "name")
	kinds := f.kinds
	if f.repeat {
		for i := rapid.IntRange(0, 3).Draw(c.T, "more"); i > 0; i-- {
			kinds = append(kinds[:len(kinds):len(kinds)], kinds[len(kinds)-1])
		}
	}
	id := func(i int) string { return fmt.Sprintf("a%d", len(context)*10+i) }
	add := func(n number, i int) {
		if n.ctx != nil {
			context[strings.TrimPrefix(n.code, ".")] = n.ctx
		}
	}
	if f.lists && rapid.IntRange(0, 2).Draw(c.T, "list") == 0 {
		var items, args []number
		for i, n := 0, rapid.IntRange(2, 4).Draw(c.T, "len"); i < n; i++ {
			items = append(items, drawNumber(c, kinds[0], id(100+i)))
			add(items[i], i)
		}
		code := "list"
		for _, n := range items {
			code += " " + n.code
		}
		code = name + " (" + code + ")"
		for i, k := range kinds[1:] {
			args = append(args, drawNumber(c, k, id(i)))
			add(args[i], i)
			code += " " + args[i].code
		}
		call := mathCall{code: code}
		for _, item := range items {
			values := []float64{item.f}
			for _, a := range args {
				values = append(values, a.f)
			}
			w := f.want(values)
			if w == nil {
				return nil
			}
			call.want = append(call.want, w...)
		}
		c.Class("list argument")
		return &call
	}
	code := name
	var values []float64
	var codes []string
	for i, k := range kinds {
		n := drawNumber(c, k, id(i))
		add(n, i)
		codes = append(codes, n.code)
		values = append(values, n.f)
	}
	if f.repeat && !strings.HasPrefix(f.names[0], "b") && rapid.IntRange(0, 3).Draw(c.T, "grouped") == 0 {
		code += " (list " + strings.Join(codes, " ") + ")"
		c.Class("arguments given as a list")
	} else {
		code += " " + strings.Join(codes, " ")
	}
	w := f.want(values)
	if w == nil {
		return nil
	}
	return &mathCall{code, w}
}

func checkMath(t *testing.T, rule string, quick, deep int, functions []mathFunc) {
	var e evaluator
	check(t, rule, quick, deep, func(c *C) {
		context := map[string]any{}
		var calls []*mathCall
		code := ""
		for i, n := 0, rapid.IntRange(1, 6).Draw(c.T, "calls"); i < n; i++ {
			if call := drawCall(c, functions, context); call != nil {
				calls = append(calls, call)
				if len(call.want) > 1 {
					code += "{{ join ` ` (" + call.code + ") }}\n"
				} else {
					code += "{{ " + call.code + " }}\n"
				}
			}
		}
		c.Case("%s%s", code, show(context))
		c.NontrivialIf(len(calls) > 0)
		if len(calls) == 0 {
			return
		}
		out, err := e.eval(c, code, context)
		if err != nil {
			c.Fatalf("%s\n%v", code, err)
		}
		lines := strings.Split(out, "\n")
		for i, call := range calls {
			fields := strings.FieldsFunc(lines[i], func(r rune) bool { return strings.ContainsRune("[] ,\"", r) })
			if len(fields) != len(call.want) {
				c.Fatalf("%s gives %s, want %d values", call.code, lines[i], len(call.want))
			}
			for j, w := range call.want {
				if err := w.check(fields[j]); err != nil {
					c.Fatalf("%s: %v (in %s)", call.code, err, lines[i])
				}
			}
		}
	})
}

const mathRule = "calls of generated functions (any alias) with integers, dyadic fractions, numeric strings and context values of several Go types, alone or in lists; every rendered call is non-trivial"

func TestC08_Arithmetic(t *testing.T) {
	checkMath(t, mathRule+"; exact rational arithmetic is the reference", 3000, 60000, arithmetic)
}

func TestC08_Bits(t *testing.T) {
	checkMath(t, mathRule+"; a bit by bit computation is the reference", 1500, 30000, bits)
}

// Shifts of any length: on the left, the bits beyond the 64th are lost, on the right, the sign is kept
func TestC08_Shifts(t *testing.T) {
	var e evaluator
	mask := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(1))
	check(t, "integers of any size shifted by 0 to 200 positions; non-trivial when shifted by more than 31 positions", 1200, 20000, func(c *C) {
		v := rapid.OneOf(rapid.Int64Range(-9, 9), rapid.Int64Range(-1<<53, 1<<53)).Draw(c.T, "value")
		n := rapid.OneOf(rapid.IntRange(0, 31), rapid.IntRange(32, 63), rapid.IntRange(60, 70), rapid.IntRange(64, 200)).Draw(c.T, "positions")
		code := fmt.Sprintf("{{ %s %d %d }} {{ %s %d %d }}", drawAlias(c, "lshift", "leftShift"), v, n, drawAlias(c, "rshift", "rightShift"), v, n)
		c.Case("%s", code)
		c.NontrivialIf(n > 31)
		left := new(big.Int).And(new(big.Int).Lsh(big.NewInt(v), uint(n)), mask)
		want := fmt.Sprintf("%d %d", int64(left.Uint64()), new(big.Int).Rsh(big.NewInt(v), uint(n)))
		if out, err := e.eval(c, code, nil); err != nil || out != want {
			c.Fatalf("got %s (%v), want %s", out, err, want)
		}
	})
}

func TestC08_Transcendental(t *testing.T) {
	checkMath(t, mathRule+"; the mathematical library is the reference", 2000, 40000, transcendental)
}

func TestC08_Overflow(t *testing.T) {
	checkMath(t, mathRule+"; results beyond the integer range", 1500, 30000, overflowing)
}

// bases: hexadecimal and back
func TestC08_Bases(t *testing.T) {
	var e evaluator
	check(t, "integers converted to hexadecimal and back; every case is non-trivial", 1000, 20000, func(c *C) {
		var items []string
		var values []int64
		for i, n := 0, rapid.IntRange(2, 4).Draw(c.T, "len"); i < n; i++ {
			v := rapid.OneOf(rapid.Int64Range(0, 300), rapid.Int64Range(0, math.MaxInt64)).Draw(c.T, "value")
			values = append(values, v)
			items = append(items, fmt.Sprint(v))
		}
		hex, dec := drawAlias(c, "hex", "hexa", "hexaDecimal"), drawAlias(c, "dec", "decimal")
		code := fmt.Sprintf("{{ %s %d }}\n{{ %s (%s %d) }}\n{{ %s \"%X\" }}\n{{ join `,` (%s (list %s)) }}\n{{ join `,` (%s (%s (list %s))) }}\n", hex, values[0], dec, hex, values[0], dec, values[0],
			hex, strings.Join(items, " "), dec, hex, strings.Join(items, " "))
		c.Case("%s", code)
		c.Nontrivial()
		var hexes []string
		for _, v := range values {
			hexes = append(hexes, "0x"+strings.ToUpper(big.NewInt(v).Text(16)))
		}
		want := fmt.Sprintf("%s\n%d\n%d\n%s\n%s\n", hexes[0], values[0], values[0], strings.Join(hexes, ","), strings.Join(items, ","))
		if out, err := e.eval(c, code, nil); err != nil || out != want {
			c.Fatalf("got %s (%v)\nwant %s", out, err, want)
		}
	})
}

// predicates and misuses
func TestC08_Errors(t *testing.T) {
	var e evaluator
	check(t, "division by zero, non numeric text, lists with a non numeric element; every case is non-trivial", 1200, 20000, func(c *C) {
		bad := rapid.SampledFrom([]string{`"abc"`, `"1x"`, `""`, `"--1"`, `"1 2"`, "true", `"1e"`, "(dict `a` 1)"}).Draw(c.T, "bad")
		good := literal(float64(rapid.IntRange(-100, 100).Draw(c.T, "good")) / 4)
		whole := fmt.Sprint(rapid.IntRange(0, 30).Draw(c.T, "whole"))
		unary := append([]string{}, "abs", "ceil", "floor", "trunc", "int", "sqrt", "exp", "log", "sin", "cos", "tan", "rad", "deg", "hex", "frexp", "modf", "cbrt", "pow10", "sincos", "log2", "log10", "acos", "isNaN", "ilogb", "signBit", "lgamma", "gamma", "avg")
		binary := []string{"sub", "div", "mod", "pow", "rem", "dim", "hypot", "atan2", "nextAfter"}
		bitwise := []string{"band", "bor", "bxor", "bclear", "lshift", "rshift"}
		var code string
		switch rapid.IntRange(0, 6).Draw(c.T, "kind") {
		case 0:
			code = fmt.Sprintf("%s %s %s", drawAlias(c, "div", "divide", "quotient"), good, drawAlias(c, "0", `"0"`, "0.0", "(sub 1 1)", "-0.0"))
			c.Class("division by zero")
		case 1:
			code = fmt.Sprintf("div (list %s %s) 0", good, whole)
			c.Class("division by zero")
		case 2:
			code = fmt.Sprintf("%s %s", rapid.SampledFrom(unary).Draw(c.T, "f"), bad)
			c.Class("bad argument")
		case 3:
			f := rapid.SampledFrom(binary).Draw(c.T, "f")
			code = fmt.Sprintf("%s %s %s", f, good, bad)
			if rapid.Bool().Draw(c.T, "first") {
				code = fmt.Sprintf("%s %s %s", f, bad, good)
			}
			c.Class("bad argument")
		case 4:
			f := rapid.SampledFrom(bitwise).Draw(c.T, "f")
			b := drawAlias(c, bad, "1.5")
			code = fmt.Sprintf("%s %s %s", f, whole, b)
			if rapid.Bool().Draw(c.T, "first") {
				code = fmt.Sprintf("%s %s %s", f, b, whole)
			}
			c.Class("bad argument")
		case 5:
			code = fmt.Sprintf("%s (list %s %s)", rapid.SampledFrom([]string{"floor", "abs", "sqrt", "avg", "hex"}).Draw(c.T, "f"), whole, bad)
			c.Class("bad element")
		case 6:
			code = fmt.Sprintf("avg %s %s %s", good, bad, whole)
			c.Class("bad element")
		}
		c.Case("%s", code)
		c.Nontrivial()
		if out, err := e.eval(c, "{{ "+code+" }}", nil); err == nil {
			c.Fatalf("%s gives %q instead of an error", code, out)
		}
	})
}

func TestC08_Predicates(t *testing.T) {
	var e evaluator
	check(t, "numbers, infinities and NaN given to isInf, isNaN and signBit; every case is non-trivial", 800, 10000, func(c *C) {
		v := rapid.SampledFrom([]float64{0, 1, -1, 2.5, -2.5, math.Inf(1), math.Inf(-1), math.NaN(), 1e300, -1e300}).Draw(c.T, "value")
		sign := rapid.SampledFrom([]int{-1, 0, 1, 5, -7}).Draw(c.T, "sign")
		code := fmt.Sprintf("{{ %s .x %d }} {{ isNaN .x }} {{ signBit .x }}", drawAlias(c, "isInf", "isInfinity"), sign)
		c.Case("%s %v", code, v)
		c.Nontrivial()
		inf := v > 1e308 && sign >= 0 || v < -1e308 && sign <= 0
		want := fmt.Sprintf("%v %v %v", inf, v != v, v < 0)
		if out, err := e.eval(c, code, map[string]any{"x": v}); err != nil || out != want {
			c.Fatalf("%v: got %s (%v), want %s", v, out, err, want)
		}
	})
}

// Lists combined with scalars, with other lists, and texts: what the arithmetic operators mean for them.
func TestC08_Lists(t *testing.T) {
	var e evaluator
	check(t, "lists combined element by element with a number, lists multiplied together, lists and texts added, texts and values repeated, texts compared; every case is non-trivial", 1500, 30000, func(c *C) {
		c.Nontrivial()
		numbers := func(label string, min int) (code string, values []float64) {
			code = "(list"
			for i, n := 0, rapid.IntRange(min, 5).Draw(c.T, label+" length"); i < n; i++ {
				f := float64(rapid.IntRange(-40, 40).Draw(c.T, label)) / float64(rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(c.T, label+" divisor"))
				values = append(values, f)
				code += " " + literal(f)
			}
			return code + ")", values
		}
		words := rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", "abc", "Ab", "zz", "é", "10x", "x 1", "-", "_1"}), 2, 5).Draw(c.T, "words")
		quote := func(list []string) (result string) {
			for _, w := range list {
				result += fmt.Sprintf(" %q", w)
			}
			return
		}
		anys := func(values []float64) (result []any) {
			result = []any{}
			for _, f := range values {
				result = append(result, f)
			}
			return
		}
		var code string
		var want any
		switch rapid.IntRange(0, 8).Draw(c.T, "kind") {
		case 0, 1:
			list, values := numbers("items", 2)
			b := float64(rapid.IntRange(-40, 40).Draw(c.T, "b")) / 4
			bcode := literal(b)
			if rapid.Bool().Draw(c.T, "text") {
				bcode = fmt.Sprintf("%q", bcode)
			}
			var result []any
			add := rapid.Bool().Draw(c.T, "add")
			for _, f := range values {
				if add {
					result = append(result, f+b)
				} else {
					result = append(result, f*b)
				}
			}
			want = result
			code = fmt.Sprintf("%s %s %s", iifs(add, drawAlias(c, "add", "sum"), drawAlias(c, "mul", "multiply", "product")), list, bcode)
			c.Class("list and number")
		case 2:
			l1, v1 := numbers("first", 2)
			l2, v2 := numbers("second", 2)
			var result []any
			for _, b := range v2 {
				var row []any
				for _, a := range v1 {
					row = append(row, a*b)
				}
				result = append(result, row)
			}
			want, code = result, fmt.Sprintf("%s %s %s", drawAlias(c, "mul", "prod"), l1, l2)
			c.Class("product of lists")
		case 3:
			l1, v1 := numbers("first", 2)
			l2, v2 := numbers("second", 1)
			want, code = append(anys(v1), anys(v2)...), fmt.Sprintf("add %s %s", l1, l2)
			c.Class("sum of lists")
		case 4:
			l1, v1 := numbers("first", 1)
			w := words[0]
			want, code = append(anys(v1), w), fmt.Sprintf("add %s %q", l1, w)
			if rapid.Bool().Draw(c.T, "other") {
				// any other value is added as it is
				i := rapid.IntRange(0, 3).Draw(c.T, "other value")
				want = append(anys(v1), []any{true, false, map[string]any{"k": w}, map[string]any{}}[i])
				code = fmt.Sprintf("add %s %s", l1, []string{"true", "false", fmt.Sprintf("(dict `k` %q)", w), "(dict)"}[i])
			}
			c.Class("text added to a list")
		case 5:
			n := rapid.IntRange(0, 5).Draw(c.T, "times")
			want, code = strings.Repeat(words[0], n), fmt.Sprintf("%s %q %d", drawAlias(c, "mul", "multiply"), words[0], n)
			c.Class("repeated text")
		case 6:
			text, args := "", ""
			for i, w := range words {
				text += w
				args += fmt.Sprintf(" %q", w)
				if i == 0 {
					text += "7"
					args += " 7"
				}
			}
			want, code = text, "add"+args
			c.Class("added texts")
		case 7:
			n := rapid.IntRange(0, 4).Draw(c.T, "times")
			result := []any{}
			for i := 0; i < n; i++ {
				result = append(result, true)
			}
			want, code = result, fmt.Sprintf("mul true %d", n)
			c.Class("repeated value")
		case 8:
			sorted := append([]string{}, words...)
			sort.Strings(sorted)
			if rapid.Bool().Draw(c.T, "min") {
				want, code = sorted[0], drawAlias(c, "min", "minimum", "smallest")+quote(words)
			} else {
				want, code = sorted[len(sorted)-1], drawAlias(c, "max", "maximum", "biggest")+quote(words)
			}
			c.Class("compared texts")
		}
		c.Case("%s", code)
		out, err := e.eval(c, "{{ toJson ("+code+") }}", nil)
		if err != nil {
			c.Fatalf("%s: %v", code, err)
		}
		if got := decodeJSON(c, out); !sameNum(got, want) {
			c.Fatalf("%s gives %s, want %s", code, out, show(want))
		}
	})
}

func iifs(test bool, a, b string) string {
	if test {
		return a
	}
	return b
}
