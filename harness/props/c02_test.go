package props

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/coveooss/gotemplate/v3/collections"
	"pgregory.net/rapid"
)

func scalarsOnly(l []any) bool {
	for _, e := range l {
		if isContainer(e) {
			return false
		}
	}
	return true
}

func textEq(a, b any) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

func containsText(l []any, v any) bool {
	for _, e := range l {
		if textEq(e, v) {
			return true
		}
	}
	return false
}

func uniqueText(l []any) []any {
	r := []any{}
	for _, e := range l {
		if !containsText(r, e) {
			r = append(r, e)
		}
	}
	return r
}

func at(l []any, i int) any {
	if i < 0 {
		i += len(l)
	}
	if i < 0 || i >= len(l) {
		return nil
	}
	return l[i]
}

func without(l []any, idx []int) []any {
	drop := map[int]bool{}
	for _, i := range idx {
		if i < 0 {
			i += len(l)
		}
		drop[i] = true
	}
	r := []any{}
	for i, e := range l {
		if !drop[i] {
			r = append(r, e)
		}
	}
	return r
}

type listSnapshot struct {
	what  string
	list  collections.IGenericList
	model []any
}

func checkList(c *C, what string, l collections.IGenericList, m []any) {
	if l == nil {
		c.Fatalf("%s: nil list", what)
	}
	if l.Len() != len(m) || l.Count() != len(m) {
		c.Fatalf("%s: length got %d, want %d: got %s, want %s", what, l.Len(), len(m), show(l), show(m))
	}
	if !same(l, m) {
		c.Fatalf("%s: got %s, want %s", what, show(l), show(m))
	}
	if l.Cap() < l.Len() || l.Capacity() != l.Cap() {
		c.Fatalf("%s: capacity %d/%d below length %d", what, l.Cap(), l.Capacity(), l.Len())
	}
}

func TestC02_ListHistory(t *testing.T) {
	check(t, "a history of list operations on one flavour, every earlier result is re-read after each operation; non-trivial when at least 5 operations ran and two lists derived from a common one are alive", 2500, 30000, func(c *C) {
		f := drawFlavour(c, "flavour")
		def := drawFlavour(c, "default")
		def.use()
		withContainers := rapid.IntRange(0, 2).Draw(c.T, "containers") == 0
		vo := valueOpts{depth: 0, null: true, floats: true}
		if withContainers {
			vo.depth = 2
		}
		elem := genValue(vo)
		values := func(label string, max int) []any {
			n := rapid.IntRange(0, max).Draw(c.T, label+"N")
			r := make([]any, 0, n+rapid.IntRange(0, 2).Draw(c.T, label+"Cap"))
			for i := 0; i < n; i++ {
				r = append(r, elem.Draw(c.T, label))
			}
			return r
		}
		model := values("init", 5)
		var l collections.IGenericList
		switch rapid.IntRange(0, 2).Draw(c.T, "start") {
		case 0:
			l = f.list.CreateList(0, rapid.IntRange(0, 8).Draw(c.T, "capacity"))
			model = []any{}
		case 1:
			l = f.list.AsList(deepCopy(model))
		default:
			l = f.list.CreateList(0, 10)
			for _, v := range model {
				l = l.Append(dress(c.T, deepCopy(v)))
			}
		}
		fname := string(l.TypeName())
		if fname != f.name {
			c.Fatalf("flavour: got %s, want %s", fname, f.name)
		}
		c.Class("flavour " + f.name)
		c.ClassIf(withContainers, "nested elements")
		c.Step("flavour=%s default=%s start=%s", f.name, def.name, show(model))
		var snaps []listSnapshot
		ops := 0
		next := func(what string, r collections.IGenericList, m []any) {
			checkList(c, what, r, m)
			if string(r.TypeName()) != fname {
				c.Fatalf("%s: result is a %s list instead of %s", what, r.TypeName(), fname)
			}
			if rapid.Bool().Draw(c.T, "continueWithResult") {
				snaps = append(snaps, listSnapshot{"list before " + what, l, model})
				l, model = r, m
			} else {
				snaps = append(snaps, listSnapshot{"result of " + what, r, m})
			}
		}
		n := rapid.IntRange(1, 14).Draw(c.T, "ops")
		for ; ops < n; ops++ {
			scalar := scalarsOnly(model)
			op := rapid.SampledFrom([]string{"append", "append", "append", "prepend", "set", "set", "get", "remove", "pop", "reverse", "clone", "unique", "union", "intersect", "without", "contains", "find", "removeNil", "removeEmpty", "strings", "create", "new"}).Draw(c.T, "op")
			c.Step("%s", op)
			switch op {
			case "append", "prepend":
				v := values("v", 3)
				args := make([]any, len(v), len(v)+2)
				for i := range v {
					args[i] = dress(c.T, deepCopy(v[i]))
				}
				before := deepCopy(native(args)).([]any)
				types := fmt.Sprintf("%T", args) + typesOf(args)
				c.Step("  %s", show(v))
				var r collections.IGenericList
				var m []any
				if op == "append" {
					r, m = l.Append(args...), append(append([]any{}, model...), v...)
				} else {
					r, m = l.Prepend(args...), append(append([]any{}, v...), model...)
				}
				if !same(args, before) || fmt.Sprintf("%T", args)+typesOf(args) != types {
					c.Fatalf("%s changed its arguments: %s became %s", op, show(before), show(args))
				}
				next(op, r, m)
			case "set":
				i, v := rapid.IntRange(-2, len(model)+2).Draw(c.T, "i"), elem.Draw(c.T, "v")
				c.Step("  [%d]=%s", i, show(v))
				r, err := l.Set(i, dress(c.T, deepCopy(v)))
				if i < 0 {
					if err == nil {
						c.Fatalf("Set(%d) accepted a negative index", i)
					}
					break
				}
				if err != nil {
					c.Fatalf("Set(%d): %v", i, err)
				}
				if i < len(model) {
					model[i] = v // in place
					checkList(c, "receiver of set", l, model)
					checkList(c, "result of set", r, model)
				} else {
					c.Class("set beyond the end")
					m := append([]any{}, model...)
					for len(m) <= i {
						m = append(m, nil)
					}
					m[i] = v
					next("set", r, m)
				}
			case "get":
				idx := rapid.SliceOfN(rapid.IntRange(-len(model)-2, len(model)+2), 0, 3).Draw(c.T, "idx")
				got := l.Get(idx...)
				var want any
				if len(idx) == 1 {
					want = at(model, idx[0])
				} else if len(idx) > 1 {
					w := []any{}
					for _, i := range idx {
						w = append(w, at(model, i))
					}
					want = w
				}
				if !same(got, want) {
					c.Fatalf("Get(%v): got %s, want %s", idx, show(got), show(want))
				}
				var first, last any
				if len(model) > 0 {
					first, last = model[0], model[len(model)-1]
				}
				if !same(l.First(), first) || !same(l.Last(), last) {
					c.Fatalf("First/Last: got %s/%s, want %s/%s", show(l.First()), show(l.Last()), show(first), show(last))
				}
			case "remove", "pop":
				idx := rapid.SliceOfN(rapid.IntRange(-len(model)-2, len(model)+2), 0, 3).Draw(c.T, "idx")
				given := append(make([]int, 0, len(idx)+1), idx...)
				c.Step("  %v", idx)
				if op == "remove" {
					r := l.Remove(given...)
					next(op, r, without(model, idx))
				} else {
					got, r := l.Pop(given...)
					use := idx
					if len(use) == 0 {
						use = []int{len(model) - 1}
						if len(model) == 0 {
							use = []int{0}
						}
					}
					var want any
					if len(use) == 1 {
						want = at(model, use[0])
					} else {
						w := []any{}
						for _, i := range use {
							w = append(w, at(model, i))
						}
						want = w
					}
					if !same(got, want) {
						c.Fatalf("Pop(%v) of %s: got %s, want %s", idx, show(model), show(got), show(want))
					}
					next(op, r, without(model, use))
				}
				if !reflect.DeepEqual(given, append(make([]int, 0, 1), idx...)) && len(idx) > 0 {
					c.Fatalf("%s changed its arguments %v into %v", op, idx, given)
				}
			case "reverse":
				m := []any{}
				for i := range model {
					m = append(m, model[len(model)-1-i])
				}
				next(op, l.Reverse(), m)
			case "clone":
				next(op, l.Clone(), deepCopy(model).([]any))
			case "unique":
				if scalar {
					next(op, l.Unique(), uniqueText(model))
				}
			case "union", "intersect", "without":
				if !scalar {
					break
				}
				o := valueOpts{depth: 0, null: true, floats: true}
				v := make([]any, rapid.IntRange(0, 4).Draw(c.T, "nv"))
				for i := range v {
					if len(model) > 0 && rapid.Bool().Draw(c.T, "known") {
						v[i] = rapid.SampledFrom(model).Draw(c.T, "knownValue")
					} else {
						v[i] = genScalar(o).Draw(c.T, "value")
					}
				}
				c.Step("  %s", show(v))
				args := append([]any{}, v...)
				switch op {
				case "union":
					next(op, l.Union(args...), uniqueText(append(append([]any{}, model...), v...)))
				case "intersect":
					m := []any{}
					for _, e := range uniqueText(model) {
						if containsText(v, e) {
							m = append(m, e)
						}
					}
					next(op, l.Intersect(args...), m)
				case "without":
					m := []any{}
					for _, e := range model {
						if !containsText(v, e) {
							m = append(m, e)
						}
					}
					next(op, l.Without(args...), m)
				}
				if !reflect.DeepEqual(args, v) && len(v) > 0 {
					c.Fatalf("%s changed its arguments", op)
				}
			case "contains", "find":
				v := make([]any, rapid.IntRange(1, 3).Draw(c.T, "nv"))
				for i := range v {
					v[i] = genScalar(valueOpts{null: true, floats: true}).Draw(c.T, "value")
					if len(model) > 0 && rapid.IntRange(0, 3).Draw(c.T, "known") > 0 {
						e := rapid.SampledFrom(model).Draw(c.T, "knownValue")
						if !isContainer(e) {
							v[i] = e
							if rapid.IntRange(0, 3).Draw(c.T, "asText") == 0 {
								v[i] = fmt.Sprint(e)
							}
						}
					}
				}
				if !scalar {
					// an empty text may also be the text of an empty container
					for i := range v {
						if v[i] == "" {
							v[i] = "x"
						}
					}
				}
				loose, strict := true, true
				for _, x := range v {
					fl, fs := false, false
					for _, e := range model {
						fl = fl || (!isContainer(e) && textEq(e, x))
						fs = fs || (!isContainer(e) && e == x)
					}
					loose, strict = loose && fl, strict && fs
				}
				c.ClassIf(loose && !strict, "loose match only")
				if l.Contains(v...) != loose || l.Has(v...) != loose {
					c.Fatalf("Contains(%s) in %s: got %v, want %v", show(v), show(model), l.Contains(v...), loose)
				}
				if l.ContainsStrict(v...) != strict || l.HasStrict(v...) != strict {
					c.Fatalf("ContainsStrict(%s) in %s: got %v, want %v", show(v), show(model), l.ContainsStrict(v...), strict)
				}
				wl, ws := []any{}, []any{}
				for i, e := range model {
					if !isContainer(e) && textEq(e, v[0]) {
						wl = append(wl, i)
					}
					if !isContainer(e) && e == v[0] {
						ws = append(ws, i)
					}
				}
				if got := l.Find(v[0]); !same(got, wl) {
					c.Fatalf("Find(%s) in %s: got %s, want %s", show(v[0]), show(model), show(got), show(wl))
				}
				if got := l.FindStrict(v[0]); !same(got, ws) {
					c.Fatalf("FindStrict(%s) in %s: got %s, want %s", show(v[0]), show(model), show(got), show(ws))
				}
				if len(model) > 0 {
					// searching an element for itself always succeeds, containers included
					i := rapid.IntRange(0, len(model)-1).Draw(c.T, "own")
					if e := l.Get(i); !(f.name == "xml" && isContainer(model[i])) && (!l.Contains(e) || !l.ContainsStrict(e)) {
						c.Fatalf("list %s does not contain its own element %d %s", show(model), i, show(e))
					}
					// a container that only looks like an element is not this element
					if near, ok := looksLike(c, model[i]); ok && f.name != "xml" {
						positions := []any{}
						for k, e := range model {
							if same(e, near) {
								positions = append(positions, k)
							}
						}
						value := f.list.AsList([]any{deepCopy(near)}).Get(0)
						c.Class("container that looks like an element")
						if got := l.FindStrict(value); !same(got, positions) {
							c.Fatalf("FindStrict(%s) in %s: got %s, want %s", show(near), show(model), show(got), show(positions))
						}
						if got := l.ContainsStrict(value); got != (len(positions) > 0) {
							c.Fatalf("ContainsStrict(%s) in %s: got %v", show(near), show(model), got)
						}
					}
				}
			case "removeNil":
				m := []any{}
				for _, e := range model {
					if e != nil {
						m = append(m, e)
					}
				}
				next(op, l.RemoveNil(), m)
			case "removeEmpty":
				m := []any{}
				unsure := false
				for _, e := range model {
					switch x := e.(type) {
					case nil:
						continue
					case string:
						if x == "" {
							continue
						}
					case []any:
						if len(x) == 0 {
							continue
						}
					case map[string]any:
						unsure = true
					default:
						// whether zero and false are empty is not settled by the documentation
						unsure = unsure || reflect.ValueOf(x).IsZero()
					}
					m = append(m, e)
				}
				r := l.RemoveEmpty()
				if !unsure {
					next(op, r, m)
				}
			case "strings":
				hasNil := false // how nil is shown as text is not specified
				for _, e := range model {
					hasNil = hasNil || e == nil
				}
				if !scalar || hasNil {
					break
				}
				var w []string
				for _, e := range model {
					w = append(w, fmt.Sprint(e))
				}
				sep := rapid.SampledFrom([]any{",", "", "--", 1}).Draw(c.T, "sep")
				if got := l.Strings(); strings.Join(got, "\x00") != strings.Join(w, "\x00") || len(got) != len(w) {
					c.Fatalf("Strings: got %q, want %q", got, w)
				}
				if got := l.StringArray().Strings(); strings.Join(got, "\x00") != strings.Join(w, "\x00") || len(got) != len(w) {
					c.Fatalf("StringArray: got %q, want %q", got, w)
				}
				if got, want := string(l.Join(sep)), strings.Join(w, fmt.Sprint(sep)); got != want {
					c.Fatalf("Join(%v): got %q, want %q", sep, got, want)
				}
			case "create":
				size := rapid.IntRange(0, 4).Draw(c.T, "size")
				r := l.Create(size, size+3)
				checkList(c, "create", r, make([]any, size))
				if d := l.CreateDict(2); d.Len() != 0 || string(d.TypeName()) != fname {
					c.Fatalf("CreateDict: %v of type %v", d, d.TypeName())
				}
			case "new":
				v := values("v", 3)
				if len(v) == 1 && isContainer(v[0]) {
					break
				}
				next(op, l.New(deepCopy(v).([]any)...), v)
			}
			checkList(c, "current list", l, model)
			for _, s := range snaps {
				if !same(s.list, s.model) {
					c.Fatalf("%s changed afterwards: got %s, want %s", s.what, show(s.list), show(s.model))
				}
			}
		}
		c.NontrivialIf(ops >= 5 && len(snaps) >= 2)
	})
}

func typesOf(l []any) string {
	s := ""
	for _, e := range l {
		s += fmt.Sprintf(" %T", e)
	}
	return s
}

// looksLike gives a copy of a container of which a scalar is replaced by its text, or the reverse.
func looksLike(c *C, v any) (any, bool) {
	switch x := deepCopy(v).(type) {
	case []any:
		for i, e := range x {
			if near, ok := looksLike(c, e); ok {
				x[i] = near
				return x, true
			}
		}
		if len(x) > 1 && rapid.Bool().Draw(c.T, "joined") {
			return []any{strings.Trim(fmt.Sprint(x), "[]")}, true
		}
	case map[string]any:
		for _, k := range sortedKeys(x) {
			if near, ok := looksLike(c, x[k]); ok {
				x[k] = near
				return x, true
			}
		}
	case int, float64, bool:
		return fmt.Sprint(x), true
	case string:
		if n, err := strconv.Atoi(x); err == nil {
			return n, true
		}
	}
	return v, false
}
