package props

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// scaled writes n / 10^digits as the shortest decimal.
func scaled(n int64, digits int) string {
	r := new(big.Rat).SetFrac(big.NewInt(n), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(digits)), nil))
	s := r.FloatString(digits)
	if strings.Contains(s, ".") {
		s = strings.TrimRight(strings.TrimRight(s, "0"), ".")
	}
	if s == "-0" {
		s = "0"
	}
	return s
}

// rangeNotation writes a number as an argument: literal, quoted or taken from the context.
func rangeNotation(c *C, n int64, digits int, name string, context map[string]any) string {
	text := scaled(n, digits)
	switch rapid.IntRange(0, 4).Draw(c.T, "notation") {
	case 0:
		return `"` + text + `"`
	case 1:
		if f, err := strconv.ParseFloat(text, 64); err == nil && strings.Contains(text, ".") {
			context[name] = f
		} else {
			i, _ := strconv.Atoi(text)
			context[name] = i
		}
		return "." + name
	case 2:
		context[name] = text
		return "." + name
	case 3:
		if digits <= 6 {
			if f, err := strconv.ParseFloat(text, 64); err == nil {
				context[name] = f
				return "." + name
			}
		}
	}
	return text
}

// expectedRange is the reference: integers scaled by a power of ten.
func expectedRange(start, stop, step int64, inclusive bool, digits int) []string {
	if step < 0 {
		step = -step
	}
	result := []string{}
	if start < stop {
		for v := start; v < stop || inclusive && v == stop; v += step {
			result = append(result, scaled(v, digits))
		}
	} else {
		for v := start; v > stop || inclusive && v == stop; v -= step {
			result = append(result, scaled(v, digits))
		}
	}
	return result
}

// goNotation turns an argument into prefix notation (negative numbers are valid as is).
func callCode(c *C, name string, args []string) string {
	switch rapid.IntRange(0, 2).Draw(c.T, "call") {
	case 0:
		return "@join(`,`, " + name + "(" + strings.Join(args, ", ") + "))"
	case 1:
		return "{{ join `,` (" + name + " " + strings.Join(args, " ") + ") }}"
	default:
		return "{{ range $i := " + name + " " + strings.Join(args, " ") + " }}{{ $i }},{{ end }}"
	}
}

func checkRange(c *C, e *evaluator, code string, context map[string]any, want []string) {
	got, err := e.eval(c, code, context)
	if err != nil {
		c.Fatalf("error: %v", err)
	}
	got = strings.TrimSuffix(got, ",")
	elements := strings.Split(got, ",")
	if got == "" {
		elements = nil
	}
	equal := len(elements) == len(want)
	for i := 0; equal && i < len(want); i++ {
		// integers are written as such, other numbers in any notation
		if elements[i] != want[i] {
			g, err := strconv.ParseFloat(elements[i], 64)
			w, _ := strconv.ParseFloat(want[i], 64)
			equal = err == nil && g == w && strings.Contains(want[i], ".")
		}
	}
	if !equal {
		c.Fatalf("wrong sequence\n got: %s\nwant: %s", got, strings.Join(want, ","))
	}
}

func TestC09_Ranges(t *testing.T) {
	e := &evaluator{}
	check(t, "the sequence has at least two elements", 2500, 60000, func(c *C) {
		inclusive := rapid.Bool().Draw(c.T, "inclusive")
		name := "until"
		if inclusive {
			name = "to"
		}
		digits := rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 3, 5, 7, 9}).Draw(c.T, "digits")
		n := rapid.IntRange(0, 40).Draw(c.T, "count")
		step := int64(rapid.OneOf(rapid.IntRange(1, 12), rapid.IntRange(1, 5000)).Draw(c.T, "step"))
		if rapid.IntRange(0, 4).Draw(c.T, "round") == 0 {
			for i := 0; i < digits; i++ {
				step *= 10 // integer step with fractional bounds
			}
		}
		start := int64(rapid.OneOf(rapid.IntRange(-20, 20), rapid.IntRange(-100000, 100000)).Draw(c.T, "start"))
		if rapid.IntRange(0, 2).Draw(c.T, "zero") == 0 {
			start = 0
		}
		stop := start + int64(n)*step
		if rapid.Bool().Draw(c.T, "descending") {
			stop = start - int64(n)*step
		}
		if rapid.IntRange(0, 2).Draw(c.T, "unreachable") == 0 {
			stop += int64(rapid.IntRange(-int(step), int(step)).Draw(c.T, "offset"))
		}
		context := map[string]any{}
		var args []string
		unit := int64(1)
		for i := 0; i < digits; i++ {
			unit *= 10
		}
		form := rapid.IntRange(0, 5).Draw(c.T, "form")
		switch {
		case form == 0: // stop only
			start, step = 0, unit
			if inclusive {
				start = unit
			}
			if stop/unit > 200 || stop/unit < -200 {
				stop %= 100 * unit
			}
			args = []string{rangeNotation(c, stop, digits, "p1", context)}
		case form == 1: // default step
			step = unit
			if d := (stop - start) / unit; d > 200 || d < -200 {
				stop = start + (stop-start)%(100*unit)
			}
			args = []string{rangeNotation(c, start, digits, "p1", context), rangeNotation(c, stop, digits, "p2", context)}
		default:
			written := step
			if rapid.IntRange(0, 2).Draw(c.T, "sign") == 0 {
				written = -written
			}
			args = []string{rangeNotation(c, start, digits, "p1", context), rangeNotation(c, stop, digits, "p2", context), rangeNotation(c, written, digits, "p3", context)}
			c.ClassIf((written > 0) != (stop >= start), "wrong sign")
		}
		want := expectedRange(start, stop, step, inclusive, digits)
		code := callCode(c, name, args)
		c.Case("%s\ncontext: %v", code, context)
		c.NontrivialIf(len(want) >= 2)
		c.ClassIf(stop < start, "descending")
		c.ClassIf(digits > 0, "fractional")
		c.ClassIf(inclusive && len(want) > 0 && want[len(want)-1] == scaled(stop, digits), "reached")
		checkRange(c, e, code, context, want)
	})
}

// large bounds: few elements, far from zero.
func TestC09_LargeBounds(t *testing.T) {
	e := &evaluator{}
	check(t, "the sequence has at least two elements", 600, 20000, func(c *C) {
		start := int64(rapid.IntRange(-1<<50, 1<<50).Draw(c.T, "start"))
		step := int64(rapid.OneOf(rapid.IntRange(1, 100), rapid.IntRange(1, 1<<44)).Draw(c.T, "step"))
		stop := start + step*int64(rapid.IntRange(-12, 12).Draw(c.T, "count")) + int64(rapid.IntRange(-1, 1).Draw(c.T, "offset"))
		inclusive := rapid.Bool().Draw(c.T, "inclusive")
		name := "until"
		if inclusive {
			name = "to"
		}
		context := map[string]any{"p1": int(start), "p2": int(stop), "p3": int(step)}
		want := expectedRange(start, stop, step, inclusive, 0)
		code := callCode(c, name, []string{".p1", ".p2", ".p3"})
		if rapid.Bool().Draw(c.T, "literal") {
			code = callCode(c, name, []string{fmt.Sprint(start), fmt.Sprint(stop), fmt.Sprint(step)})
		}
		c.Case("%s\ncontext: %v", code, context)
		c.NontrivialIf(len(want) >= 2)
		checkRange(c, e, code, context, want)
	})
}

// what is refused: zero step, arguments that are not numbers, wrong number of arguments, endless ranges.
func TestC09_Refused(t *testing.T) {
	e := &evaluator{}
	check(t, "every case", 800, 20000, func(c *C) {
		name := rapid.SampledFrom([]string{"to", "until"}).Draw(c.T, "name")
		num := func(label string) string { return fmt.Sprint(rapid.IntRange(-30, 30).Draw(c.T, label)) }
		var args []string
		kind := rapid.IntRange(0, 3).Draw(c.T, "kind")
		switch kind {
		case 0:
			args = []string{num("a"), num("b"), rapid.SampledFrom([]string{"0", "0.0", `"0"`, "-0.0", `"0.00"`}).Draw(c.T, "zero")}
			c.Class("zero step")
		case 1:
			args = []string{num("a"), num("b"), num("c")}[:rapid.IntRange(1, 3).Draw(c.T, "n")]
			args[rapid.IntRange(0, len(args)-1).Draw(c.T, "which")] = rapid.SampledFrom([]string{`"a"`, `""`, `"1x"`, "true", `"NaN"`}).Draw(c.T, "bad")
			c.Class("not a number")
		case 2:
			if rapid.Bool().Draw(c.T, "many") {
				args = []string{num("a"), num("b"), "1", "2"}
			}
			c.Class("wrong count")
		default:
			args = []string{num("a"), rapid.SampledFrom([]string{`"Inf"`, `"-Inf"`, `"+Inf"`}).Draw(c.T, "bad")}
			c.Class("endless")
		}
		code := "{{ " + name + " " + strings.Join(args, " ") + " }}"
		c.Case(code)
		c.Nontrivial()
		got, err := e.eval(c, code, nil)
		if err == nil {
			c.Fatalf("no error, rendered %q", got)
		}
	})
}

// Long sequences: their size, their sum and their ends.
func TestC09_Long(t *testing.T) {
	e := &evaluator{}
	check(t, "the sequence has at least 65536 elements", 12, 300, func(c *C) {
		start, step := int64(rapid.IntRange(-1000, 1000).Draw(c.T, "start")), int64(rapid.IntRange(1, 9).Draw(c.T, "step"))
		n := int64(rapid.OneOf(rapid.IntRange(65530, 65540), rapid.IntRange(65537, 200000), rapid.IntRange(140000, 400000)).Draw(c.T, "count"))
		last := start + step*n
		if rapid.Bool().Draw(c.T, "descending") {
			step = -step
			last = start + step*n
		}
		inclusive := rapid.Bool().Draw(c.T, "inclusive")
		name := "until"
		if inclusive {
			name = "to"
			n++
		} else {
			last -= step
		}
		sum := n * (start + last) / 2
		code := fmt.Sprintf("{{ $r := %s %d %d %d }}{{ len $r }} {{ first $r }} {{ last $r }} {{ (add $r) | int64 }}", name, start, start+step*map[bool]int64{true: n - 1, false: n}[inclusive], step)
		want := fmt.Sprintf("%d %d %d %d", n, start, last, sum)
		c.Case("%s", code)
		c.NontrivialIf(n >= 65536)
		if got, err := e.eval(c, code, nil); err != nil || got != want {
			c.Fatalf("%s: error %v\n got %q\nwant %q", code, err, got, want)
		}
	})
}
