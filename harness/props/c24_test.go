package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"github.com/coveooss/gotemplate/v3/template"
	"pgregory.net/rapid"
)

// C24: composition of templates, files, inline contents, functions and aliases, evaluated by a reference interpreter.

// c24Node is a piece of a body
type c24Node struct {
	kind string // text, ref, range, if, args, call
	text string // text or name
	call *c24Call
}

type c24Arg struct {
	src string // as written in go template
	ref string // name in the scope of the caller, if any
	val any
}

type c24Call struct {
	unit   *c24Unit
	form   string // include, eval, template, name
	names  []string
	args   []c24Arg
	dict   bool
	filter bool // the result is converted to upper case
	alt    string
}

type c24Unit struct {
	kind    string // template, file, inline, local, func, alias
	name    string
	source  string // what is given to include
	style   string // dict or args
	params  []string
	leaf    bool
	useRoot bool
	extra   bool
	named   bool // calls functions or aliases, directly or not
	nodes   []c24Node
	body    string
	// func and alias
	target   *c24Unit
	defaults map[string]any
	prefix   []any
	alts     []string
	declared []string
}

var c24Root = map[string]any{"r1": "root", "r2": 42, "r3": "été", "rl": []any{"u", "v", 3}, "p0": "root p0", "p2": 77}

var c24WordGen = rapid.SampledFrom([]string{"foo", "Bar", "x y", "été", "a/b", "", "z.w", "<b>", "100%", "don't", "$x", "日本", "#fff", "~", "null"})

func c24Value(t *rapid.T) (string, any) {
	if rapid.IntRange(0, 2).Draw(t, "int") == 0 {
		n := rapid.IntRange(-5, 50).Draw(t, "n")
		return fmt.Sprint(n), n
	}
	w := c24WordGen.Draw(t, "word")
	return strconv.Quote(w), w
}

type c24 struct {
	*C
	units []*c24Unit
	razor bool
	local bool // templates defined in the main content can be used
	early bool // the text is parsed before the functions and aliases exist
	bound bool // the unit is executed in the context of its definition, which only knows the built-in functions
}

// body generates the nodes of a unit
func (g *c24) nodes(u *c24Unit, depth int, main bool) {
	t := g.C.T
	min := 1
	for n := rapid.IntRange(min, 4).Draw(t, "nodes"); n > 0; n-- {
		switch k := rapid.IntRange(0, 9).Draw(t, "node"); {
		case k < 2:
			u.nodes = append(u.nodes, c24Node{kind: "text", text: rapid.SampledFrom([]string{"word", "a b", " ", "\n", "-", "été", "x\ny", ","}).Draw(t, "text")})
		case k < 4 && len(u.params) > 0:
			u.nodes = append(u.nodes, c24Node{kind: rapid.SampledFrom([]string{"ref", "ref", "if"}).Draw(t, "use"), text: rapid.SampledFrom(u.params).Draw(t, "param")})
		case k == 4 && u.style == "args":
			u.nodes = append(u.nodes, c24Node{kind: "args"})
		case k < 6 && !main || k < 5:
			u.useRoot = true
			if rapid.IntRange(0, 3).Draw(t, "list") == 0 {
				u.nodes = append(u.nodes, c24Node{kind: "range", text: "rl"})
			} else {
				u.nodes = append(u.nodes, c24Node{kind: "ref", text: rapid.SampledFrom([]string{"r1", "r2", "r3"}).Draw(t, "root")})
			}
		case !u.leaf && len(g.units) > 0:
			if call := g.call(u, depth, main); call != nil {
				u.nodes = append(u.nodes, c24Node{kind: "call", call: call})
			}
		}
	}
}

func (g *c24) arg(u *c24Unit) c24Arg {
	if len(u.params) > 0 && rapid.IntRange(0, 2).Draw(g.C.T, "reference") == 0 {
		p := rapid.SampledFrom(u.params).Draw(g.C.T, "param")
		return c24Arg{src: "." + p, ref: p}
	}
	if rapid.IntRange(0, 4).Draw(g.C.T, "root") == 0 && u.name != "" && u.style != "template" {
		u.useRoot = true
		return c24Arg{src: ".r2", ref: "r2"}
	}
	src, v := c24Value(g.C.T)
	return c24Arg{src: src, val: v}
}

// call generates a call of one of the units already defined
func (g *c24) call(from *c24Unit, depth int, main bool) *c24Call {
	t := g.C.T
	target := rapid.SampledFrom(g.units).Draw(t, "unit")
	if target.kind == "inline" && (g.razor && main || depth > 2) {
		return nil
	}
	if target.kind == "local" && !g.local {
		return nil
	}
	if named := target.kind == "func" || target.kind == "alias"; g.early && named || g.bound && (named || target.named) {
		return nil
	} else if named || target.named {
		from.named = true
	}
	call := &c24Call{unit: target, form: rapid.SampledFrom([]string{"include", "include", "eval"}).Draw(t, "form")}
	switch target.kind {
	case "func", "alias":
		call.form = "name"
		if len(target.alts) > 0 && rapid.Bool().Draw(t, "alternate") {
			call.alt = rapid.SampledFrom(target.alts).Draw(t, "alt")
		}
	case "template", "local":
		if target.style == "dict" && !target.useRoot && rapid.IntRange(0, 2).Draw(t, "action") == 0 && !(g.razor && main) {
			call.form = "template"
		}
	}
	base := target
	if target.kind == "alias" {
		base = target.target
	}
	positional := func(n int) {
		for i := 0; i < n; i++ {
			call.args = append(call.args, g.arg(from))
		}
	}
	switch {
	case target.kind == "func" && (target.extra || rapid.Bool().Draw(t, "positional")):
		// Only the last ones with default values can be omitted
		required := 0
		for i, p := range target.declared {
			if _, ok := target.defaults[p]; !ok {
				required = i + 1
			}
		}
		n := rapid.IntRange(required, len(target.declared)).Draw(t, "given")
		if target.extra {
			n = len(target.declared) + rapid.IntRange(1, 2).Draw(t, "extra")
		}
		positional(n)
	case target.kind == "func" && len(target.declared) == 1:
		// A dictionary would be the value of the argument
		positional(1)
	case base.style == "args":
		positional(rapid.IntRange(0, 3).Draw(t, "positional"))
	case target.kind == "alias" && target.defaults != nil:
		// everything is in the default argument
	default:
		call.dict = true
		for _, p := range base.params {
			if _, ok := target.defaults[p]; ok && rapid.Bool().Draw(t, "omitted") {
				continue
			}
			call.names = append(call.names, p)
			call.args = append(call.args, g.arg(from))
		}
		if base.leaf && call.form != "template" && rapid.IntRange(0, 3).Draw(t, "shadow") == 0 {
			call.names = append(call.names, "r1")
			call.args = append(call.args, c24Arg{src: "\"shadow\"", val: "shadow"})
		}
		if len(call.names) == 0 {
			call.names = append(call.names, "unused")
			call.args = append(call.args, c24Arg{src: "1", val: 1})
		}
	}
	call.filter = call.form != "template" && rapid.IntRange(0, 5).Draw(t, "filter") == 0
	return call
}

func (call *c24Call) text(razor bool) string {
	fn := call.form
	if fn == "name" {
		if fn = call.unit.name; call.alt != "" {
			fn = call.alt
		}
	}
	var params []string
	if call.form != "name" {
		params = append(params, strconv.Quote(call.unit.source))
	}
	if call.dict {
		var pairs []string
		for i, n := range call.names {
			pairs = append(pairs, strconv.Quote(n), call.args[i].src)
		}
		if razor {
			params = append(params, "dict("+strings.Join(pairs, ", ")+")")
		} else {
			params = append(params, "(dict "+strings.Join(pairs, " ")+")")
		}
	} else {
		for _, a := range call.args {
			params = append(params, a.src)
		}
	}
	if razor {
		s := fn + "(" + strings.Join(params, ", ") + ")"
		if call.filter {
			s = "upper(" + s + ")"
		}
		return "@" + s + ";"
	}
	s := fn + " " + strings.Join(params, " ")
	if call.filter {
		s += " | upper"
	}
	return "{{ " + s + " }}"
}

func (g *c24) source(u *c24Unit, razor bool) string {
	var sb strings.Builder
	for _, n := range u.nodes {
		switch n.kind {
		case "text":
			sb.WriteString(n.text)
		case "ref":
			sb.WriteString("{{ ." + n.text + " }}")
		case "if":
			sb.WriteString("{{ if ." + n.text + " }}yes{{ else }}no{{ end }}")
		case "range":
			sb.WriteString("{{ range ." + n.text + " }}[{{ . }}]{{ end }}")
		case "args":
			sb.WriteString("{{ range $i, $a := .ARGS }}{{ $i }}={{ $a }};{{ end }}")
		case "call":
			sb.WriteString(n.call.text(razor))
		}
	}
	return sb.String()
}

// eval renders a unit
func (u *c24Unit) eval(scope map[string]any, args []any) string {
	var sb strings.Builder
	get := func(name string) any {
		if v, ok := scope[name]; ok {
			return v
		}
		return c24Root[name]
	}
	for _, n := range u.nodes {
		switch n.kind {
		case "text":
			sb.WriteString(n.text)
		case "ref":
			sb.WriteString(fmt.Sprint(get(n.text)))
		case "if":
			if v := get(n.text); v != "" && v != 0 {
				sb.WriteString("yes")
			} else {
				sb.WriteString("no")
			}
		case "range":
			for _, e := range get(n.text).([]any) {
				sb.WriteString(fmt.Sprintf("[%v]", e))
			}
		case "args":
			for i, a := range args {
				sb.WriteString(fmt.Sprintf("%d=%v;", i, a))
			}
		case "call":
			s := n.call.eval(get)
			if n.call.filter {
				s = strings.ToUpper(s)
			}
			sb.WriteString(s)
		}
	}
	return sb.String()
}

func (call *c24Call) eval(get func(string) any) string {
	values := make([]any, len(call.args))
	for i, a := range call.args {
		if values[i] = a.val; a.ref != "" {
			values[i] = get(a.ref)
		}
	}
	u := call.unit
	scope := map[string]any{}
	for k, v := range u.defaults {
		scope[k] = v
	}
	if call.dict {
		for i, n := range call.names {
			scope[n] = values[i]
		}
		values = nil
	}
	switch u.kind {
	case "func":
		var rest []any
		for i, v := range values {
			if i < len(u.declared) {
				scope[u.declared[i]] = v
			} else {
				rest = append(rest, v)
			}
		}
		return u.target.eval(scope, rest)
	case "alias":
		return u.target.eval(scope, append(append([]any{}, u.prefix...), values...))
	}
	return u.eval(scope, values)
}

func TestC24_Compose(t *testing.T) {
	base, _ := filepath.EvalSymlinks(filepath.Dir(emptyDir))
	base = filepath.Join(base, "c24")
	os.MkdirAll(base, 0755)
	defer os.RemoveAll(base)
	check(t, "the content calls at least two units and one of them calls another", 1800, 60000, func(c *C) {
		emptyFolder(base)
		os.Mkdir(filepath.Join(base, "sub"), 0755)
		g := &c24{C: c}
		extName := rapid.SampledFrom([]string{"ext.gte", "sub/ext.gte", "!x.gte"}).Draw(c.T, "extension")
		extBase, shared := base, rapid.IntRange(0, 2).Draw(c.T, "shared extension") == 0
		if shared {
			// the extension is in a folder given by the environment
			extBase = base + "-path"
			defer os.RemoveAll(extBase)
			os.MkdirAll(filepath.Join(extBase, "sub"), 0755)
			os.Setenv("GOTEMPLATE_PATH", rapid.SampledFrom([]string{"%s", "/nothing/there:%s", ":%s:", "%s:/nothing", " %s", "%s/sub:%[1]s"}).Draw(c.T, "path"))
			os.Setenv("GOTEMPLATE_PATH", fmt.Sprintf(os.Getenv("GOTEMPLATE_PATH"), extBase))
			defer os.Unsetenv("GOTEMPLATE_PATH")
			c.Step("GOTEMPLATE_PATH=%s", os.Getenv("GOTEMPLATE_PATH"))
			c.Class("extension in the path")
		}
		var ext, local strings.Builder
		nested := false
		ext.WriteString("Plain text {{ add 1 2 }}\n")
		for i, n := 0, rapid.IntRange(1, 6).Draw(c.T, "units"); i < n; i++ {
			u := &c24Unit{kind: rapid.SampledFrom([]string{"template", "template", "file", "inline", "local", "func", "func", "alias"}).Draw(c.T, "kind"), style: rapid.SampledFrom([]string{"dict", "dict", "args"}).Draw(c.T, "style")}
			u.name = fmt.Sprintf("u%d", i)
			u.leaf = rapid.Bool().Draw(c.T, "leaf")
			if u.style == "dict" {
				u.params = []string{"p0", "p1", "p2"}[:rapid.IntRange(0, 3).Draw(c.T, "params")]
			}
			if u.kind == "local" {
				g.local = true
			}
			inner := u
			if u.kind == "func" || u.kind == "alias" {
				inner = &c24Unit{name: u.name, style: u.style, params: u.params, leaf: u.leaf, kind: rapid.SampledFrom([]string{"template", "file", "inline"}).Draw(c.T, "target")}
				if u.kind == "func" {
					inner.style = "dict"
					if inner.params == nil {
						inner.params = []string{"p0", "p1"}
					}
					u.extra = rapid.IntRange(0, 3).Draw(c.T, "extra") == 0
				}
				u.target = inner
			}
			wasLocal := g.local
			if u.kind != "local" {
				g.local = false // they are only known in the main content
			}
			g.early, g.bound = inner.kind == "template", inner != u
			g.nodes(inner, 1, false)
			g.local, g.early, g.bound = wasLocal, false, false
			if u.extra {
				inner.nodes = append(inner.nodes, c24Node{kind: "args"})
			}
			hasCall, hasCode := false, false
			for _, n := range inner.nodes {
				hasCall = hasCall || n.kind == "call"
				hasCode = hasCode || n.kind != "text"
			}
			if hasCall {
				inner.leaf = false
				nested = true
			}
			if !hasCode {
				inner.nodes = append(inner.nodes, c24Node{kind: "ref", text: "r1"})
				inner.useRoot = true
			}
			inner.body = g.source(inner, false)
			if len(inner.body) > 3000 {
				continue
			}
			switch inner.kind {
			case "template":
				inner.source = "t" + u.name
				ext.WriteString(fmt.Sprintf("{{ define %q }}%s{{ end }}\n", inner.source, inner.body))
			case "local":
				inner.source = "l" + u.name
				local.WriteString(fmt.Sprintf("{{ define %q }}%s{{ end }}", inner.source, inner.body))
			case "file":
				file := rapid.SampledFrom([]string{"%s.txt", "sub/%s.txt", "%s", "./%s.gt", "sub/../%s.inc"}).Draw(c.T, "file")
				file = fmt.Sprintf(file, "f"+u.name)
				os.WriteFile(filepath.Join(base, file), []byte(inner.body), 0644)
				if inner.source = file; shared || strings.HasPrefix(extName, "sub") || rapid.IntRange(0, 3).Draw(c.T, "absolute") == 0 {
					// files are relative to the folder of the content
					inner.source = filepath.Join(base, file)
				}
				c.Step("file %s: %q", file, inner.body)
			case "inline":
				inner.source = inner.body
			}
			switch u.kind {
			case "func":
				u.declared = inner.params
				u.style, u.leaf, u.params = "dict", inner.leaf, inner.params
				config := []string{}
				asText := map[string]any{}
				names := []any{}
				var list []string
				for _, p := range u.declared {
					list = append(list, strconv.Quote(p+rapid.SampledFrom([]string{"", " string", " int"}).Draw(c.T, "type")))
					names = append(names, p)
				}
				key := rapid.SampledFrom([]string{"args", "arguments", "a", "Args", "ARGUMENTS"}).Draw(c.T, "arguments")
				asText[key] = names
				config = append(config, strconv.Quote(key), "(list "+strings.Join(list, " ")+")")
				if rapid.Bool().Draw(c.T, "defaults") {
					u.defaults = map[string]any{}
					def := ""
					for _, p := range u.declared {
						if rapid.Bool().Draw(c.T, "default") {
							src, v := c24Value(c.T)
							u.defaults[p] = v
							def += fmt.Sprintf(" %q %s", p, src)
						}
					}
					key := rapid.SampledFrom([]string{"def", "default", "defaults", "Default", "DEF"}).Draw(c.T, "key")
					asText[key] = u.defaults
					config = append(config, strconv.Quote(key), "(dict"+def+")")
				}
				if rapid.Bool().Draw(c.T, "aliases") {
					u.alts = []string{u.name + "x", "Alt" + u.name}
					asText["aliases"] = u.alts
					config = append(config, rapid.SampledFrom([]string{`"aliases"`, `"Aliases"`}).Draw(c.T, "aliases key"), fmt.Sprintf("(list %q %q)", u.alts[0], u.alts[1]))
				}
				if rapid.Bool().Draw(c.T, "description") {
					config = append(config, strconv.Quote(rapid.SampledFrom([]string{"d", "desc", "description", "Description", "DESC"}).Draw(c.T, "description key")), `"text"`, strconv.Quote(rapid.SampledFrom([]string{"g", "group", "Group"}).Draw(c.T, "group key")), `"g"`)
				}
				function := rapid.SampledFrom([]string{"include", "template"}).Draw(c.T, "function")
				if rapid.IntRange(0, 2).Draw(c.T, "configuration as text") == 0 {
					text, _ := json.Marshal(asText)
					if rapid.Bool().Draw(c.T, "on several lines") {
						text, _ = json.MarshalIndent(asText, "", "  ")
					}
					c.Class("configuration as text")
					ext.WriteString(fmt.Sprintf("{{ func %q %q %q %q }}\n", u.name, function, inner.source, text))
				} else {
					ext.WriteString(fmt.Sprintf("{{ func %q %q %q (dict %s) }}\n", u.name, function, inner.source, strings.Join(config, " ")))
				}
			case "alias":
				params := ""
				if inner.style == "args" {
					for n := rapid.IntRange(0, 2).Draw(c.T, "prefix"); n > 0; n-- {
						src, v := c24Value(c.T)
						params += " " + src
						u.prefix = append(u.prefix, v)
					}
				} else if len(inner.params) > 0 && rapid.Bool().Draw(c.T, "default dict") {
					u.defaults = map[string]any{}
					params = " (dict"
					for _, p := range inner.params {
						src, v := c24Value(c.T)
						params += fmt.Sprintf(" %q %s", p, src)
						u.defaults[p] = v
					}
					params += ")"
				}
				ext.WriteString(fmt.Sprintf("{{ %s %q %q %q%s }}\n", rapid.SampledFrom([]string{"alias", "localAlias"}).Draw(c.T, "function"), u.name, rapid.SampledFrom([]string{"include", "template"}).Draw(c.T, "function"), inner.source, params))
			}
			u.useRoot = inner.useRoot
			g.units = append(g.units, u)
		}
		main := &c24Unit{name: "main", kind: "main"}
		g.razor = rapid.IntRange(0, 3).Draw(c.T, "razor") == 0
		calls := 0
		for i := rapid.IntRange(1, 4).Draw(c.T, "calls"); i > 0; i-- {
			main.nodes = append(main.nodes, c24Node{kind: "text", text: rapid.SampledFrom([]string{" ", "\n", "|", " x "}).Draw(c.T, "between")})
			if len(g.units) > 0 {
				if call := g.call(&c24Unit{}, 0, true); call != nil {
					main.nodes = append(main.nodes, c24Node{kind: "call", call: call})
					calls++
				}
			}
		}
		main.nodes = append(main.nodes, c24Node{kind: "ref", text: "r1"})
		src := local.String() + g.source(main, g.razor)
		os.WriteFile(filepath.Join(extBase, extName), []byte(ext.String()), 0644)
		want := main.eval(map[string]any{}, nil)
		c.Step("%s:\n%scontent: %q", extName, ext.String(), src)
		c.NontrivialIf(calls > 1 && nested)
		c.ClassIf(nested, "nested")
		c.ClassIf(g.razor, "razor")
		tpl, err := template.NewTemplate(base, deepCopy(c24Root), "", strictOptions())
		if err != nil {
			c.Fatalf("%v", err)
		}
		for i := 0; i < 2; i++ {
			got, err := tpl.ProcessContent(src, filepath.Join(base, "vp"))
			if err != nil || got != want {
				c.Fatalf("render %d: error %v, %s", i, err, firstDiff(got, want))
			}
		}
	})
}

// The documented alternate names and the functions they stand for.
const c24Aliases = `
DATA=data GUID=uuidv4 HCL=hcl JSON=json TFVARS=hcl YAML=yaml aIndent=sIndent aWrap=formatList absolute=abs aindent=sIndent arcCosine=acos arcCosinus=acos arcHyperbolicCosine=acosh 
arcHyperbolicCosinus=acosh arcHyperbolicSine=asinh arcHyperbolicSinus=asinh arcHyperbolicTangent=atanh arcSine=asin arcSinus=asin arcTangent=atan arcTangent2=atan2 assertion=assert 
assertw=assertWarning attr=getAttributes attributes=getAttributes autoIndent=sIndent autoWrap=formatList average=avg awrap=formatList biggest=max biggestSprig=maxSprig bitwiseAND=band 
bitwiseClear=bclear bitwiseOR=bor bitwiseXOR=bxor c=userContext centered=center colored=color context=userContext cosine=cos cosinus=cos criticalf=critical curl=httpDoc currentDir=pwd 
currentUser=user date_in_zone=dateInZone debugf=debug decimal=dec degree=deg delete=unset dictionary=dict difference=diff divide=div enhanced=color errorf=error eval=include execute=exec expand=glob 
exponent=exp exponent2=exp2 fatalf=fatal fileExists=exists fileMode=mode fileSize=size fileStat=stat firstBessel0=j0 firstBessel1=j1 firstBesselN=jn fromDATA=data fromData=data fromHCL=hcl 
fromHcl=hcl fromJSON=json fromJson=json fromTFVARS=hcl fromTFVars=hcl fromYAML=yaml fromYaml=yaml guid=uuidv4 has=contains hasStrict=containsStrict hexa=hex hexaDecimal=hex homeDir=home 
homeFolder=home httpDocument=httpDoc hyperbolicCosine=cosh hyperbolicCosinus=cosh hyperbolicSine=sinh hyperbolicSinus=sinh hyperbolicTangent=tanh hypotenuse=hypot identifier=id ifUndef=undef 
infof=info int64=floor integer=int integer64=floor isDirectory=isDir isEmpty=isZero isExist=exists isFolder=isDir isInfinity=isInf isNull=isNil kindis=kindIs kindof=kindOf lastModification=lastMod 
lastModificationTime=lastMod leftShift=lshift look=lookPath loremIpsum=lorem maximum=max methods=getMethods minimum=min modulo=mod multiply=mul nbChars=lenc nindent=nIndent noticef=notice 
panicf=panic power=pow power10=pow10 printRaw=raw prod=mul product=mul push=append quotient=div radian=rad raiseError=raise read=load readFrom=load remainder=rem remove=unset rightShift=rshift 
roundDown=floor roundUp=ceil rounddown=floor roundup=ceil secondBessel0=y0 secondBessel1=y1 secondBesselN=yn sign=getSignature signature=getSignature sindent=sIndent sine=sin sineCosine=sincos 
sinus=sin sinusCosinus=sincos smallest=min spaceIndent=sIndent squareRoot=sqrt stripANSI=stripColor stripansi=stripColor striptcolor=stripColor subtract=sub sum=add tangent=tan ternary=iif tfvars=hcl 
toHCL=toHcl toIHCL=toInternalHcl toIHcl=toInternalHcl toInternalHCL=toInternalHcl toJSON=toJson toPrettyHCL=toPrettyHcl toPrettyJSON=toPrettyJson toQuotedHCL=toQuotedHcl toQuotedJSON=toQuotedJson 
toYAML=toYaml tracef=trace trimall=trimAll truncate=trunc tuple=list tupleSprig=listSprig type=lookPath typeis=typeIs typeisLike=typeIsLike typeof=typeOf uniq=unique userGroup=group uuid=uuidv4 
warn=warning warnf=warning warningf=warning whereIs=lookPath which=lookPath wrapped=wrap write=save writeTo=save 
`

// Alternate names of functions whose result differs at each call, that stop the process or use the network
const c24Random = " GUID guid uuid lorem loremIpsum loremipsum fatalf curl httpDocument "

const c24OSNames = " currentDir currentUser difference expand fileExists fileMode fileSize fileStat homeDir homeFolder isDirectory isExist isFolder lastModification lastModificationTime look read readFrom type userGroup whereIs which write writeTo execute "

func TestC24_AltNames(t *testing.T) {
	base, _ := filepath.EvalSymlinks(filepath.Dir(emptyDir))
	base = filepath.Join(base, "c24n")
	os.MkdirAll(base, 0755)
	defer os.RemoveAll(base)
	type pair struct{ alt, name string }
	var pairs, osPairs []pair
	for _, w := range strings.Fields(c24Aliases) {
		alt, name, _ := strings.Cut(w, "=")
		switch {
		case strings.Contains(c24Random, " "+alt+" "):
		case strings.Contains(c24OSNames, " "+alt+" "):
			osPairs = append(osPairs, pair{alt, name})
		default:
			pairs = append(pairs, pair{alt, name})
		}
	}
	type outcome struct {
		text   string
		failed bool
		ctx    any
		files  vfs
	}
	check(t, "the functions accept the arguments", 2000, 200000, func(c *C) {
		var p pair
		var args []string
		var ctx map[string]any
		onDisk := rapid.IntRange(0, 9).Draw(c.T, "os") == 0
		if onDisk {
			p = rapid.SampledFrom(osPairs).Draw(c.T, "function")
			ctx = map[string]any{}
			for n := rapid.IntRange(0, 2).Draw(c.T, "args"); n > 0; n-- {
				a := rapid.SampledFrom([]string{"a.txt", "sub", "missing", "*", "sh", "new.txt"}).Draw(c.T, "arg")
				if a != "sh" {
					a = filepath.Join(base, a)
				}
				if p.alt == "execute" {
					a = rapid.SampledFrom([]string{"echo 1", "exit 3", "echo '{\"a\": 1}'"}).Draw(c.T, "command")
				}
				args = append(args, strconv.Quote(a))
			}
		} else {
			p = rapid.SampledFrom(pairs).Draw(c.T, "function")
			args, ctx = c17Args(c.T, c17Sized[p.name])
		}
		before := deepCopy(ctx)
		pipe := len(args) > 0 && rapid.IntRange(0, 3).Draw(c.T, "pipe") == 0
		dump := rapid.Bool().Draw(c.T, "type")
		c.Case("%s for %s: %q with %#v", p.alt, p.name, args, ctx)
		run := func(f string) (r outcome) {
			if onDisk {
				emptyFolder(base)
				os.WriteFile(filepath.Join(base, "a.txt"), []byte("text\nof file"), 0644)
				os.Mkdir(filepath.Join(base, "sub"), 0755)
			}
			code := strings.Join(append([]string{f}, args...), " ")
			if pipe {
				code = args[len(args)-1] + " | " + strings.Join(append([]string{f}, args[:len(args)-1]...), " ")
			}
			r.ctx = deepCopy(before)
			tpl, err := newTemplate(r.ctx, "", strictOptions())
			if err != nil {
				c.Fatalf("%v", err)
			}
			src := "{{ $r := " + code + " }}{{ printf \"%v\" $r }}"
			if dump {
				src += "{{ typeOf $r }}"
			}
			r.text, err = tpl.ProcessContent(src, "vp")
			if r.failed = err != nil; r.failed {
				r.text = ""
			}
			if onDisk {
				r.files = scan(base)
			}
			return
		}
		a, b := run(p.alt), run(p.name)
		c.NontrivialIf(!b.failed)
		c.ClassIf(b.failed, "error")
		if p.name == "stat" && !b.failed || p.name == "lastMod" {
			a.text, b.text = "", "" // modification times
		}
		if a.failed != b.failed || a.text != b.text && !strings.Contains(b.text, "0xc") {
			c.Fatalf("%s: error %v, %q; %s: error %v, %q", p.alt, a.failed, a.text, p.name, b.failed, b.text)
		}
		if show(a.ctx) != show(b.ctx) {
			c.Fatalf("%s leaves %s; %s leaves %s", p.alt, show(a.ctx), p.name, show(b.ctx))
		}
		if onDisk && fmt.Sprint(a.files) != fmt.Sprint(b.files) {
			c.Fatalf("%s leaves %v; %s leaves %v", p.alt, a.files, p.name, b.files)
		}
	})
}

// The functions called by ellipsis, the number of leading arguments and the kind of elements
var c24Spread = []struct {
	name  string
	lead  int
	kind  string
	least int
}{
	{"add", 0, "int", 1}, {"add", 2, "int", 0}, {"mul", 1, "int", 1}, {"max", 1, "int", 0}, {"min", 0, "int", 1}, {"print", 0, "any", 0}, {"print", 2, "any", 0},
	{"list", 1, "any", 1}, {"list", 0, "any", 2}, {"printf", 0, "format", 0}, {"join", 1, "word", 0}, {"cat", 0, "word", 0}, {"upper", 0, "word", 1}, {"contains", 0, "two", 2}, {"hasPrefix", 0, "two", 2},
	{"append", 0, "list", 0}, {"index", 0, "index", 0}, {"without", 0, "list", 0}, {"and", 1, "any", 0}, {"or", 0, "any", 1}, {"eq", 1, "int", 1}, {"sub", 0, "too many", 0}, {"upper", 1, "word", 1}, {"avg", 0, "int", 1},
}

func TestC24_Ellipsis(t *testing.T) {
	check(t, "the list has at least two elements", 1200, 60000, func(c *C) {
		f := rapid.SampledFrom(c24Spread).Draw(c.T, "function")
		word := rapid.SampledFrom([]string{"foo", "Bar baz", "été", "q\"uote", "a\\b", "{{x", "日本", "don't", "@foo"})
		structured := strings.Contains("list append without", f.name)
		if structured {
			word = rapid.SampledFrom([]string{"foo", "Bar", "été", "日本", "x"})
		}
		element := func() any {
			switch f.kind {
			case "int", "too many":
				return rapid.IntRange(-9, 99).Draw(c.T, "int")
			case "any":
				if f.name != "print" && rapid.IntRange(0, 7).Draw(c.T, "nil") == 0 {
					return nil
				}
				return rapid.OneOf(rapid.Just[any](7), rapid.Map(word, func(s string) any { return s }), rapid.Map(word, func(s string) any { return s })).Draw(c.T, "any")
			}
			return word.Draw(c.T, "word")
		}
		var lead, list []any
		for i := 0; i < f.lead; i++ {
			lead = append(lead, element())
		}
		n := f.least + rapid.IntRange(0, 5).Draw(c.T, "n")
		switch f.kind {
		case "format":
			lead = []any{strings.Repeat("<%v>", n)}
		case "list", "index":
			var l []any
			for i := 0; i < 12; i++ {
				l = append(l, fmt.Sprintf("e%d", i))
			}
			lead = []any{l}
			if f.kind == "index" {
				n = 1
			}
		case "two":
			n = 2
		case "too many":
			n = rapid.IntRange(0, 4).Draw(c.T, "n")
		}
		for i := 0; i < n; i++ {
			if f.kind == "index" {
				list = append(list, rapid.IntRange(0, 13).Draw(c.T, "index"))
			} else if f.kind == "list" && rapid.Bool().Draw(c.T, "present") {
				list = append(list, fmt.Sprintf("e%d", rapid.IntRange(0, 11).Draw(c.T, "element")))
			} else {
				list = append(list, element())
			}
		}
		ctx := map[string]any{"rest": list}
		args, call := "", f.name
		for i, a := range lead {
			name := fmt.Sprintf("lead%d", i)
			ctx[name] = a
			args += " ." + name
			call += " ." + name
		}
		for i, a := range list {
			name := fmt.Sprintf("e%d", i)
			ctx[name] = a
			call += " ." + name
		}
		last := ".rest"
		kind := rapid.IntRange(0, 4).Draw(c.T, "list")
		switch {
		case kind == 0 && len(list) != 1:
			last = "(list"
			for i := range list {
				last += fmt.Sprintf(" .e%d", i)
			}
			last += ")"
		case kind == 1 && (f.kind == "word" || f.kind == "two"):
			l := make([]string, len(list))
			for i := range list {
				l[i] = list[i].(string)
			}
			ctx["rest"] = l
		case kind == 2 && f.kind == "int":
			l := make([]int, len(list))
			for i := range list {
				l[i] = list[i].(int)
			}
			ctx["rest"] = l
		case kind == 3 && n == 0:
			last = "nil"
		}
		// The result of ellipsis is the data found in the text rendered by the call
		spread, direct := fmt.Sprintf("{{ ellipsis %q%s %s }}", f.name, args, last), "{{ "+call+" }}"
		if structured {
			direct = "{{ data (print (" + call + ")) }}"
		}
		if rapid.Bool().Draw(c.T, "twice") {
			spread += " / " + spread
			direct += " / " + direct
		}
		c.Case("%s with %v\nlike %s", spread, ctx, direct)
		c.NontrivialIf(n > 1)
		ctx2 := deepCopy(ctx)
		render := func(src string, ctx any) (string, error) {
			tpl, err := newTemplate(ctx, "", strictOptions())
			if err != nil {
				c.Fatalf("%v", err)
			}
			return tpl.ProcessContent(src, "vp")
		}
		got, err := render(spread, ctx)
		want, err2 := render(direct, ctx2)
		c.ClassIf(err2 != nil, "error")
		if (err != nil) != (err2 != nil) || err == nil && got != want {
			c.Fatalf("got %q (error %v), want %q (error %v)", got, err, want, err2)
		}
	})
}
