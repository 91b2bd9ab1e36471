package props

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/collections/implementation"
	"github.com/coveooss/gotemplate/v3/hcl"
	"github.com/coveooss/gotemplate/v3/json"
	"github.com/coveooss/gotemplate/v3/template"
	"github.com/coveooss/gotemplate/v3/xml"
	"github.com/coveooss/gotemplate/v3/yaml"
	"github.com/fatih/color"
	"pgregory.net/rapid"
)

var _ = io.Discard

// emptyDir is an empty folder used as the folder of in-memory templates.
var emptyDir string

func setupProcess() {
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOTEMPLATE_") {
			os.Unsetenv(strings.SplitN(e, "=", 2)[0])
		}
	}
	color.NoColor = true
	template.InternalLog.SetHookLevel("", "panic")
	template.TemplateLog.SetHookLevel("", "panic")
	dir, err := os.MkdirTemp("", "vp-props-")
	if err != nil {
		panic(err)
	}
	emptyDir = filepath.Join(dir, "empty")
	if err := os.MkdirAll(emptyDir, 0755); err != nil {
		panic(err)
	}
	os.Chdir(emptyDir)
}

type flavour struct {
	name string
	dict collections.IDictionaryHelper
	list collections.IListHelper
}

var flavours = []flavour{
	{"base", implementation.DictionaryHelper, implementation.GenericListHelper},
	{"json", json.DictionaryHelper, json.GenericListHelper},
	{"yaml", yaml.DictionaryHelper, yaml.GenericListHelper},
	{"hcl", hcl.DictionaryHelper, hcl.GenericListHelper},
	{"xml", xml.DictionaryHelper, xml.GenericListHelper},
}

func (f flavour) use() {
	collections.SetDictionaryHelper(f.dict)
	collections.SetListHelper(f.list)
}

func useJSON() { flavours[1].use() }

// newTemplate creates a template in an empty folder with the given context.
func newTemplate(context any, delimiters string, options template.OptionsSet, substitutes ...string) (*template.Template, error) {
	return template.NewTemplate(emptyDir, context, delimiters, options, substitutes...)
}

func strictOptions() template.OptionsSet {
	return template.DefaultOptions().Set(template.StrictErrorCheck)
}

// render renders content in strict mode with a fresh template.
func render(content string, context any) (string, error) {
	t, err := newTemplate(context, "", strictOptions())
	if err != nil {
		return "", fmt.Errorf("newTemplate: %w", err)
	}
	return t.ProcessContent(content, "vp")
}

// convert returns the go template code generated for razor content (rendering disabled).
func convert(content string, context any) (string, error) {
	t, err := newTemplate(context, "", strictOptions().Set(template.RenderingDisabled))
	if err != nil {
		return "", err
	}
	return t.ProcessContent(content, "vp")
}

func drawFlavour(c *C, label string) flavour {
	return flavours[rapid.IntRange(0, len(flavours)-1).Draw(c.T, label)]
}
