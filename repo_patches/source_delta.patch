From fd0273c1edcd7a064e8c6960674a4dcccac3dfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:47 +0000
Subject: [PATCH 01/65] fix: types and kinds of collections holding nil no
 longer panic

---
 collections/implementation/base_helper.go | 18 ++++++++++++------
 collections/implementation/dict_helper.go |  2 +-
 collections/implementation/list_helper.go |  2 +-
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/collections/implementation/base_helper.go b/collections/implementation/base_helper.go
index 9d1a02c..37bde44 100644
--- a/collections/implementation/base_helper.go
+++ b/collections/implementation/base_helper.go
@@ -3,8 +3,6 @@ package implementation
 import (
 	"fmt"
 	"reflect"
-
-	"github.com/coveooss/gotemplate/v3/collections"
 )
 
 type helperBase = BaseHelper
@@ -253,7 +251,15 @@ func NeedConversion(object interface{}, strict bool, typeName string) bool {
 	return false
 }
 
-var (
-	needConversionImpl = NeedConversion
-	iif                = collections.IIf
-)
+// typeOrKind returns the type name (or the kind) of the value, nil has no type.
+func typeOrKind(value interface{}, kind bool) string {
+	if value == nil {
+		return "nil"
+	}
+	if kind {
+		return reflect.TypeOf(value).Kind().String()
+	}
+	return reflect.TypeOf(value).Name()
+}
+
+var needConversionImpl = NeedConversion
diff --git a/collections/implementation/dict_helper.go b/collections/implementation/dict_helper.go
index e2dfc6a..7aeec3e 100644
--- a/collections/implementation/dict_helper.go
+++ b/collections/implementation/dict_helper.go
@@ -111,7 +111,7 @@ func (dh DictHelper) GetTypes(dict baseIDict, kind bool) baseIDict {
 	result := dh.CreateDictionary(dict.Len())
 
 	for key, value := range dict.AsMap() {
-		result.Set(key, iif(kind, reflect.TypeOf(value).Kind().String(), reflect.TypeOf(value).Name()))
+		result.Set(key, typeOrKind(value, kind))
 	}
 	return result
 }
diff --git a/collections/implementation/list_helper.go b/collections/implementation/list_helper.go
index abac497..7f3f935 100644
--- a/collections/implementation/list_helper.go
+++ b/collections/implementation/list_helper.go
@@ -107,7 +107,7 @@ func (lh ListHelper) GetTypes(list baseIList, kind bool) baseIList {
 	result := lh.CreateList(list.Len())
 	for i := range list.AsArray() {
 		value := list.Get(i)
-		result.Set(i, iif(kind, reflect.TypeOf(value).Kind().String(), reflect.TypeOf(value).Name()))
+		result.Set(i, typeOrKind(value, kind))
 	}
 	return result
 }
-- 
2.43.0


From cecd8202ab9a1be86fc22363c614afe0ba53462f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 02/65] fix: cloning a list preserves its structure and clones
 its elements

---
 collections/implementation/base_helper.go | 12 ++++++++++++
 collections/implementation/dict_helper.go | 10 +---------
 collections/implementation/list_helper.go |  8 ++++++--
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/collections/implementation/base_helper.go b/collections/implementation/base_helper.go
index 37bde44..c75e00f 100644
--- a/collections/implementation/base_helper.go
+++ b/collections/implementation/base_helper.go
@@ -215,6 +215,18 @@ func (bh BaseHelper) TryConvert(object interface{}) (interface{}, bool) {
 	return object, false
 }
 
+// cloneValue returns a distinct copy of the value if it is a dictionary or a list, otherwise, the value itself.
+func (bh BaseHelper) cloneValue(value interface{}) interface{} {
+	if value != nil {
+		if dict, err := bh.TryAsDictionary(value); err == nil {
+			return DictHelper{bh}.Clone(dict, nil)
+		} else if list, err := bh.TryAsList(value); err == nil {
+			return ListHelper{bh}.Clone(list)
+		}
+	}
+	return value
+}
+
 // NeedConversion determine if the object need deep conversion.
 //
 //	strict indicates that the type must be converted to the desired type
diff --git a/collections/implementation/dict_helper.go b/collections/implementation/dict_helper.go
index 7aeec3e..37d557b 100644
--- a/collections/implementation/dict_helper.go
+++ b/collections/implementation/dict_helper.go
@@ -35,15 +35,7 @@ func (dh DictHelper) Clone(dict baseIDict, keys []interface{}) baseIDict {
 	}
 	newDict := dh.CreateDictionary(dict.Len())
 	for i := range keys {
-		value := dict.Get(keys[i])
-		if value != nil {
-			if v, err := dh.TryAsDictionary(value); err == nil {
-				value = dh.Clone(v, nil)
-			} else if v, err := dh.TryAsList(value); err == nil {
-				value = dh.ConvertList(v.Clone())
-			}
-		}
-		newDict.Set(keys[i], value)
+		newDict.Set(keys[i], dh.cloneValue(dict.Get(keys[i])))
 	}
 	return newDict
 }
diff --git a/collections/implementation/list_helper.go b/collections/implementation/list_helper.go
index 7f3f935..5db7bf3 100644
--- a/collections/implementation/list_helper.go
+++ b/collections/implementation/list_helper.go
@@ -27,9 +27,13 @@ func (lh ListHelper) Add(list baseIList, prepend bool, objects ...interface{}) b
 	return lh.AsList(append(array, objects...))
 }
 
-// Clone returns a copy of the supplied list.
+// Clone returns a distinct copy of the supplied list, contained lists and dictionaries are also cloned.
 func (lh ListHelper) Clone(list baseIList) baseIList {
-	return lh.NewList(list.AsArray()...)
+	newList := lh.CreateList(list.Len())
+	for i, value := range list.AsArray() {
+		newList.Set(i, lh.cloneValue(value))
+	}
+	return newList
 }
 
 // Contains indicates if the list contains all specified elements
-- 
2.43.0


From 8d6ba19e43da87a9fb96ddc3510cbfe3396c8d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 03/65] fix: lists derived from the same list no longer
 overwrite each other

---
 collections/implementation/list_helper.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/collections/implementation/list_helper.go b/collections/implementation/list_helper.go
index 5db7bf3..71bb350 100644
--- a/collections/implementation/list_helper.go
+++ b/collections/implementation/list_helper.go
@@ -18,13 +18,17 @@ type ListHelper struct {
 // Add adds elements at the end of the supplied list.
 func (lh ListHelper) Add(list baseIList, prepend bool, objects ...interface{}) baseIList {
 	array := list.AsArray()
+	added := make([]interface{}, len(objects))
 	for i := range objects {
-		objects[i] = lh.Convert(objects[i])
+		added[i] = lh.Convert(objects[i])
 	}
 	if prepend {
-		array, objects = objects, array
+		array, added = added, array
 	}
-	return lh.AsList(append(array, objects...))
+	// The result must not share its storage with the original list (nor with the supplied arguments), otherwise, two
+	// lists derived from the same list could overwrite each other.
+	result := make([]interface{}, 0, len(array)+len(added))
+	return lh.AsList(append(append(result, array...), added...))
 }
 
 // Clone returns a distinct copy of the supplied list, contained lists and dictionaries are also cloned.
@@ -42,7 +46,7 @@ func (lh ListHelper) Contains(list baseIList, strict bool, values ...interface{}
 	for _, value := range values {
 		match := false
 		for _, item := range source {
-			if strict && value == item || !strict && fmt.Sprint(value) == fmt.Sprint(item) {
+			if strict && reflect.DeepEqual(value, item) || !strict && fmt.Sprint(value) == fmt.Sprint(item) {
 				match = true
 				break
 			}
@@ -62,7 +66,7 @@ func (lh ListHelper) Find(list baseIList, element interface{}, strict bool) base
 		element = fmt.Sprint(element)
 	}
 	for i, value := range list.AsArray() {
-		if strict && element == value || !strict && element == fmt.Sprint(value) {
+		if strict && reflect.DeepEqual(element, value) || !strict && element == fmt.Sprint(value) {
 			result = result.Append(i)
 		}
 	}
@@ -170,15 +174,16 @@ func (lh ListHelper) Intersect(list baseIList, values ...interface{}) baseIList
 
 // Remove returns a new list without the element specified.
 func (lh ListHelper) Remove(list baseIList, indexes ...int) baseIList {
-	for i, index := range indexes {
+	discard := make(map[int]bool, len(indexes))
+	for _, index := range indexes {
 		if index < 0 {
-			indexes[i] += list.Len()
+			index += list.Len()
 		}
+		discard[index] = true
 	}
-	discard := collections.AsList(indexes)
 	target := list.Create(0, list.Len())
 	for i := range list.AsArray() {
-		if !discard.Contains(i) {
+		if !discard[i] {
 			target = target.Append(list.Get(i))
 		}
 	}
-- 
2.43.0


From 9685af563a384d218dba1e87ca7808b3a0b81261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:46 +0000
Subject: [PATCH 04/65] fix: merging dictionaries leaves the sources unchanged

---
 collections/implementation/dict_helper.go | 7 ++++++-
 template/template.go                      | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/collections/implementation/dict_helper.go b/collections/implementation/dict_helper.go
index 37d557b..b34cd2a 100644
--- a/collections/implementation/dict_helper.go
+++ b/collections/implementation/dict_helper.go
@@ -144,7 +144,12 @@ func (dh DictHelper) deepMerge(target baseIDict, source baseIDict) baseIDict {
 		sourceValueDict, sourceValueIsDict := sourceValue.(baseIDict)
 
 		if sourceValueIsDict && targetValueIsDict {
-			targetMap[key] = dh.deepMerge(targetValueDict, sourceValueDict)
+			// The target value may belong to a dictionary previously merged, so we complete a copy of it
+			merged := targetValueDict.Create(targetValueDict.Len())
+			for k, v := range targetValueDict.AsMap() {
+				merged.AsMap()[k] = v
+			}
+			targetMap[key] = dh.deepMerge(merged, sourceValueDict)
 		}
 	}
 
diff --git a/template/template.go b/template/template.go
index 070ebb8..6784787 100644
--- a/template/template.go
+++ b/template/template.go
@@ -346,7 +346,7 @@ func (t *Template) Add(key string, value interface{}) {
 // Merge allows adding multiple values to the template context.
 // The context and values must both be dictionary to use that function, otherwise, it will panic.
 func (t *Template) Merge(values interface{}) {
-	collections.AsDictionary(t.context).Add(key, collections.AsDictionary(values))
+	collections.AsDictionary(t.context).Merge(collections.AsDictionary(values))
 }
 
 // Context returns the context of the Template as a collections.IDictionary.
-- 
2.43.0


From f798e719fc78d0cde9cfdb90afa0af2013bcdc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 05/65] fix: values added to the context of a template are kept
 when it is a standard map

---
 template/template.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/template/template.go b/template/template.go
index 6784787..ab490df 100644
--- a/template/template.go
+++ b/template/template.go
@@ -126,6 +126,10 @@ func NewTemplate(folder string, context interface{}, delimiters string, options
 	t.optionsEnabled = make(OptionsSet)
 	t.folder, _ = filepath.Abs(iif(folder != "", folder, utils.Pwd()).(string))
 	t.context = iif(context != nil, context, collections.CreateDictionary())
+	if dict, err := collections.TryAsDictionary(t.context); err == nil {
+		// Standard maps are converted once, otherwise, the values added to the context would be lost
+		t.context = dict
+	}
 	t.aliases = make(funcTableMap)
 	t.delimiters = []string{"{{", "}}", "@"}
 
-- 
2.43.0


From 3d15c897cc80b41b5a34f626cd3feb321cc8e319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:46 +0000
Subject: [PATCH 06/65] fix: a rendering error no longer alters the context

---
 template/template_error_handler.go | 3 ++-
 template/template_handler.go       | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/template/template_error_handler.go b/template/template_error_handler.go
index 67241fc..baaacba 100644
--- a/template/template_error_handler.go
+++ b/template/template_error_handler.go
@@ -19,6 +19,7 @@ type errorHandler struct {
 	Code     string   // Modified code
 	Lines    []string // Original source code as an array of string (one per line)
 	Try      int      // The current evaluation try
+	Clone    bool     // Indicates if the evaluation must be done on a copy of the context
 }
 
 func (t errorHandler) Handler(err error) (string, bool, error) {
@@ -163,7 +164,7 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 			if err != nil {
 				InternalLog.Infof("Retrying %d with:\n%s", t.Try, color.HiBlackString(String(newCode).AddLineNumber(0).Str()))
 			}
-			result, changed, err2 := t.processContentInternal(newCode, t.Filename, t.Lines, t.Try+1, false, nil)
+			result, changed, err2 := t.processContentInternal(newCode, t.Filename, t.Lines, t.Try+1, t.Clone, nil)
 			if err2 != nil {
 				if err != nil {
 					if err.Error() == err2.Error() {
diff --git a/template/template_handler.go b/template/template_handler.go
index 44e1b68..a67062c 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -141,6 +141,7 @@ func (t *Template) processContentInternal(originalContent, source string, origin
 		Code:     originalContent,
 		Lines:    originalSourceLines,
 		Try:      retryCount,
+		Clone:    cloneContext,
 	}
 
 	topCall := th.Lines == nil
-- 
2.43.0


From e8fe1287f564c2682aeee205e89d48d6214463e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:44 +0000
Subject: [PATCH 07/65] fix: json and yaml conversions keep large integers and
 tabs

---
 json/json.go | 19 ++++++++++++++++++-
 yaml/yaml.go |  9 ++++++---
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/json/json.go b/json/json.go
index 6ebaa08..30a6b43 100644
--- a/json/json.go
+++ b/json/json.go
@@ -1,9 +1,11 @@
 package json
 
 import (
+	"bytes"
 	"encoding/json"
 	"math"
 	"reflect"
+	"strconv"
 
 	"github.com/coveooss/gotemplate/v3/collections"
 	"github.com/coveooss/gotemplate/v3/collections/implementation"
@@ -42,6 +44,15 @@ func Unmarshal(data []byte, out interface{}) (err error) {
 	if err = NativeUnmarshal(data, out); err != nil {
 		return
 	}
+	switch out.(type) {
+	case *interface{}, *map[string]interface{}, *jsonDict, *jsonList:
+		// We read the numbers as text to not lose precision on large integers
+		decoder := NewDecoder(bytes.NewReader(data))
+		decoder.UseNumber()
+		if err = decoder.Decode(out); err != nil {
+			return
+		}
+	}
 	transform(out)
 	return
 }
@@ -66,9 +77,15 @@ func transformElement(source interface{}) interface{} {
 			value.Set(i, transformElement(sub))
 		}
 		source = value
+	} else if number, ok := source.(json.Number); ok {
+		if integer, err := strconv.Atoi(number.String()); err == nil {
+			source = integer
+		} else if value, err := number.Float64(); err == nil {
+			source = transformElement(value)
+		}
 	} else if value, ok := source.(float64); ok {
 		// json.Unmarshal returns all int values as float64
-		if math.Floor(value) == value {
+		if math.Floor(value) == value && math.Abs(value) < 1<<63 {
 			source = int(value)
 		}
 	}
diff --git a/yaml/yaml.go b/yaml/yaml.go
index 63e5149..8a3d94c 100644
--- a/yaml/yaml.go
+++ b/yaml/yaml.go
@@ -28,9 +28,12 @@ func init() { collections.TypeConverters["yaml"] = Unmarshal }
 // Unmarshal calls the native Unmarshal but transform the results
 // to returns Dictionary and GenericList instead of go native collections.
 func Unmarshal(data []byte, out interface{}) (err error) {
-	// Yaml does not support tab, so we replace tabs by spaces if there are
-	data = bytes.Replace(data, []byte("\t"), []byte("    "), -1)
-	if err = NativeUnmarshal(data, out); err != nil {
+	if err = NativeUnmarshal(data, out); err != nil && bytes.Contains(data, []byte("\t")) {
+		// Yaml does not support tab (except within values), so we replace tabs by spaces if there are
+		data = bytes.Replace(data, []byte("\t"), []byte("    "), -1)
+		err = NativeUnmarshal(data, out)
+	}
+	if err != nil {
 		return
 	}
 	transform(out)
-- 
2.43.0


From 1ef37b4c98b3525048732ab7ea3782b478ab38f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:11 +0000
Subject: [PATCH 08/65] fix: HCL marshalling produces text that reads back as
 the same value

---
 hcl/utilities.go | 68 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 21 deletions(-)

diff --git a/hcl/utilities.go b/hcl/utilities.go
index 0b8c851..8ec33b6 100644
--- a/hcl/utilities.go
+++ b/hcl/utilities.go
@@ -7,6 +7,7 @@ import (
 	"runtime/debug"
 	"sort"
 	"strings"
+	"unicode"
 
 	"github.com/coveooss/gotemplate/v3/collections"
 )
@@ -82,20 +83,11 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 	case int, uint, int64, uint64, float64, bool:
 		result = fmt.Sprint(value)
 	case string:
-		value = fmt.Sprintf("%q", value)
-		if indent != "" && strings.Contains(value, "\\n") {
-			// We unquote the value
-			unIndented := value[1 : len(value)-1]
-			// Then replace escaped characters, other escape chars are \a, \b, \f and \v are not managed
-			unIndented = strings.Replace(unIndented, `\n`, "\n", -1)
-			unIndented = strings.Replace(unIndented, `\\`, "\\", -1)
-			unIndented = strings.Replace(unIndented, `\"`, "\"", -1)
-			unIndented = strings.Replace(unIndented, `\r`, "\r", -1)
-			unIndented = strings.Replace(unIndented, `\t`, "\t", -1)
-			unIndented = collections.UnIndent(unIndented)
-			if strings.HasSuffix(unIndented, "\n") {
-				value = fmt.Sprintf("<<HCLVALUE\n%sHCLVALUE", unIndented)
-			}
+		if indent != "" && canBeHeredoc(value) {
+			// Nested values are indented, so the end marker gives the indentation to remove
+			value = fmt.Sprintf("<<%sHCLVALUE\n%sHCLVALUE", collections.IIf(head, "", "-"), value)
+		} else {
+			value = fmt.Sprintf("%q", value)
 		}
 		result = value
 
@@ -121,7 +113,14 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 		var totalLength int
 		var newLine bool
 		for i := range value {
-			if results[i], err = marshalHCL(value[i], fullHcl, false, "", indent); err != nil {
+			elementHcl, elementIndent := fullHcl, indent
+			switch element := value[i].(type) {
+			case string:
+				elementIndent = "" // There is no multi lines string in a list since the end marker must be alone on its line
+			case map[string]interface{}:
+				elementHcl = fullHcl && singleMap(element) == "" // There is no label in a list
+			}
+			if results[i], err = marshalHCL(value[i], elementHcl, false, "", elementIndent); err != nil {
 				return
 			}
 			totalLength += len(results[i])
@@ -152,7 +151,8 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 		keyLen := 0
 
 		for key, val := range value {
-			if rendered[key], err = marshalHCL(val, fullHcl, false, "", indent); err != nil {
+			_, isString := val.(string)
+			if rendered[key], err = marshalHCL(val, fullHcl, head && isString, "", indent); err != nil {
 				return
 			}
 			if strings.Contains(rendered[key], "\n") {
@@ -181,8 +181,13 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 				}
 
 				equal := ifIndent(" = ", "=").(string)
-				if _, err := hclHelper.TryAsDictionary(value[key]); err == nil && fullHcl {
-					if multiline {
+				element := value[key]
+				if list, isList := element.([]interface{}); isList && len(list) == 1 && !strings.HasPrefix(rendered, `[`) {
+					// An array of one map is rendered as the map
+					element = list[0]
+				}
+				if _, err := hclHelper.TryAsDictionary(element); err == nil && fullHcl {
+					if multiline || indent != "" && !strings.HasPrefix(rendered, `{`) {
 						equal = " "
 					} else if indent == "" {
 						equal = ""
@@ -206,6 +211,9 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 
 		if head {
 			result = strings.Join(items, ifIndent("\n", " ").(string))
+			if indent != "" && strings.HasSuffix(result, "\nHCLVALUE") {
+				result += "\n" // The end marker must be followed by a line feed
+			}
 			break
 		}
 
@@ -223,6 +231,24 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 	return
 }
 
+// canBeHeredoc indicates if the string is made of complete lines that can be written without any escaping.
+func canBeHeredoc(s string) bool {
+	if !strings.HasSuffix(s, "\n") {
+		return false
+	}
+	for _, char := range s {
+		if char != '\n' && char != '\t' && !unicode.IsPrint(char) || char == unicode.ReplacementChar {
+			return false
+		}
+	}
+	for _, line := range strings.Split(s, "\n") {
+		if strings.TrimSpace(line) == "HCLVALUE" {
+			return false
+		}
+	}
+	return true
+}
+
 func isArrayOfMap(array []interface{}) bool {
 	if len(array) == 0 {
 		return false
@@ -247,12 +273,12 @@ func singleMap(m map[string]interface{}) string {
 	return ""
 }
 
-var identifierRegex = regexp.MustCompile(`^[A-za-z][\w-]*$`)
+var identifierRegex = regexp.MustCompile(`^[A-Za-z_][\w-]*$`)
 
 func id(key string) string {
-	if identifierRegex.MatchString(key) {
+	if identifierRegex.MatchString(key) && key != "true" && key != "false" {
 		return key
 	}
-	// The identifier contains characters that may be considered invalid, we have to quote it
+	// The identifier contains characters that may be considered invalid (or is a reserved word), we have to quote it
 	return fmt.Sprintf("%q", key)
 }
-- 
2.43.0


From 8b14fa714a1d271b19f8110dc974dad3ca8fb4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:57 +0000
Subject: [PATCH 09/65] fix: native conversion handles nil fields, pointers to
 pointers and key fields

---
 collections/convert_data.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/collections/convert_data.go b/collections/convert_data.go
index 26ba7b6..c74b8a8 100644
--- a/collections/convert_data.go
+++ b/collections/convert_data.go
@@ -150,7 +150,7 @@ func MarshalGo(value interface{}) (result interface{}, err error) {
 	}
 
 	typ, val := reflect.TypeOf(value), reflect.ValueOf(value)
-	if typ.Kind() == reflect.Ptr {
+	for typ.Kind() == reflect.Ptr || typ.Kind() == reflect.Interface {
 		if val.IsNil() {
 			return
 		}
@@ -232,7 +232,7 @@ func MarshalGo(value interface{}) (result interface{}, err error) {
 			}
 
 			tag := info[i]
-			if tag.name == "-" || !IsExported(sf.Name) || tag.options["omitempty"] && IsEmptyValue(val.Field(i)) {
+			if i == key || tag.name == "-" || !IsExported(sf.Name) || tag.options["omitempty"] && IsEmptyValue(val.Field(i)) {
 				continue
 			} else if tag.name == "" {
 				tag.name = sf.Name
@@ -241,6 +241,8 @@ func MarshalGo(value interface{}) (result interface{}, err error) {
 			if tag.options["inline"] || tag.options["squash"] {
 				if subMap, err := MarshalGo(val.Field(i).Interface()); err != nil {
 					return nil, err
+				} else if subMap == nil {
+					continue
 				} else if subMap, ok := subMap.(map[string]interface{}); ok {
 					for key, value := range subMap {
 						m[key] = value
@@ -256,13 +258,13 @@ func MarshalGo(value interface{}) (result interface{}, err error) {
 				if IsEmptyValue(v) && (v.Kind() == reflect.Struct || v.Kind() == reflect.Map) && tag.options["omitempty"] {
 					continue
 				}
-				if key >= 0 {
-					m[val.Field(key).String()] = map[string]interface{}{tag.name: v.Interface()}
-				} else {
-					m[tag.name] = v.Interface()
-				}
+				m[tag.name] = value
 			}
 		}
+		if key >= 0 {
+			// The value of the key field is the name of the element
+			m = map[string]interface{}{fmt.Sprint(val.Field(key)): m}
+		}
 		result = m
 	default:
 		fmt.Fprintf(os.Stderr, "Unknown type %T %v : %v\n", value, typ.Kind(), value)
-- 
2.43.0


From 942f9abd6bdf6ce7e911e18862bbeb02643f21aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:10 +0000
Subject: [PATCH 10/65] fix: values exported to bash are quoted so they are
 taken literally

---
 collections/convert_data.go | 41 +++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/collections/convert_data.go b/collections/convert_data.go
index c74b8a8..00fc722 100644
--- a/collections/convert_data.go
+++ b/collections/convert_data.go
@@ -77,23 +77,15 @@ func ToBash(value interface{}) string {
 }
 
 func toBash(value interface{}, level int) (result string) {
-	if value, isString := value.(string); isString {
-		result = value
-		if strings.ContainsAny(value, " \t\n[]()") {
-			result = fmt.Sprintf("%q", value)
-		}
-		return
-	}
-
 	if value, err := TryAsList(value); err == nil {
 		results := value.Strings()
-		for i := range results {
-			results[i] = quote(results[i])
-		}
 		switch level {
 		case 2:
 			result = strings.Join(results, ",")
 		default:
+			for i := range results {
+				results[i] = quote(results[i])
+			}
 			result = fmt.Sprintf("(%s)", strings.Join(results, " "))
 		}
 		return
@@ -119,22 +111,25 @@ func toBash(value interface{}, level int) (result string) {
 		case 1:
 			for i, key := range value.KeysAsString() {
 				key := key.Str()
-				val := toBash(vMap[key], level+1)
-				val = strings.Replace(val, `$`, `\$`, -1)
-				results[i] = fmt.Sprintf("[%s]=%s", key, val)
+				results[i] = fmt.Sprintf("[%s]=%s", quote(key), quote(toBash(vMap[key], level+1)))
 			}
 			result = fmt.Sprintf("(%s)", strings.Join(results, " "))
 		default:
 			for i, key := range value.KeysAsString() {
 				key := key.Str()
-				val := toBash(vMap[key], level+1)
-				results[i] = fmt.Sprintf("%s=%s", key, quote(val))
+				results[i] = fmt.Sprintf("%s=%s", key, toBash(vMap[key], level+1))
 			}
 			result = strings.Join(results, ",")
 		}
 		return
 	}
-	return fmt.Sprint(value)
+
+	result = fmt.Sprint(value)
+	if level < 2 {
+		// Deeper values are quoted with the element that contains them
+		result = quote(result)
+	}
+	return
 }
 
 // GoMarshaler is the interface that could be implemented on object that want to customize
@@ -312,9 +307,15 @@ func IsExported(id string) bool {
 	return unicode.IsUpper(r)
 }
 
+var (
+	bashLiteral = regexp.MustCompile(`^[\w@%+:./-]+$`)
+	bashEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`, `$`, `\$`, "`", "\\`")
+)
+
+// quote returns a representation of the string that is taken literally by bash.
 func quote(s string) string {
-	if strings.ContainsAny(s, " \t,[]()") {
-		s = fmt.Sprintf("%q", s)
+	if bashLiteral.MatchString(s) {
+		return s
 	}
-	return s
+	return fmt.Sprintf(`"%s"`, bashEscaper.Replace(s))
 }
-- 
2.43.0


From b419fb45d152b4df40303a561c040c6c2fc45e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 11/65] fix: numeric results outside the integer range are no
 longer wrong integers

---
 template/extra_math.go     |  2 +-
 template/math_stats.go     | 15 ++++++++++-----
 template/math_utilities.go |  5 ++++-
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/template/extra_math.go b/template/extra_math.go
index 84dbda7..bd20d53 100644
--- a/template/extra_math.go
+++ b/template/extra_math.go
@@ -484,7 +484,7 @@ func remainder(a, b interface{}) (r interface{}, err error) {
 	return simplify(math.Remainder(toFloat(a), toFloat(b))), nil
 }
 
-func signBit(a, b interface{}) (r interface{}, err error) {
+func signBit(a interface{}, _ ...interface{}) (r interface{}, err error) {
 	defer func() { err = trapError(err, recover()) }()
 	return math.Signbit(toFloat(a)), nil
 }
diff --git a/template/math_stats.go b/template/math_stats.go
index 6c692c1..5103f70 100644
--- a/template/math_stats.go
+++ b/template/math_stats.go
@@ -9,13 +9,18 @@ func average(arg1 interface{}, args ...interface{}) (r interface{}, err error) {
 		return nil, fmt.Errorf("first argument could not be nil")
 	}
 	defer func() { err = trapError(err, recover()) }()
-	args = convertArgs(arg1, args...).AsArray()
-	if len(args) == 0 {
+	values, err := asFloats(convertArgs(arg1, args...))
+	if err != nil {
+		return nil, err
+	}
+	if len(values) == 0 {
 		return 0, nil
 	}
-	var sum interface{}
-	sum, err = add(args[0], args[1:]...)
-	return simplify(toFloat(sum) / float64(len(args))), nil
+	var sum float64
+	for _, value := range values {
+		sum += value
+	}
+	return simplify(sum / float64(len(values))), nil
 }
 
 func min(values ...interface{}) interface{} { return compareNumerics(values, true) }
diff --git a/template/math_utilities.go b/template/math_utilities.go
index 86df30e..be5a60f 100644
--- a/template/math_utilities.go
+++ b/template/math_utilities.go
@@ -127,7 +127,10 @@ func convertArgs(arg1 interface{}, args ...interface{}) (result collections.IGen
 }
 
 func simplify(value float64) interface{} {
-	return iif(math.Floor(value) == value, int64(value), value)
+	if math.Floor(value) == value && value >= math.MinInt64 && value < math.MaxInt64 {
+		return int64(value)
+	}
+	return value // Not an integer or outside the integer range
 }
 
 func compareNumerics(values []interface{}, useMinFunc bool) interface{} {
-- 
2.43.0


From 8421eca3a53f892e311162e92d820239ca140616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:50 +0000
Subject: [PATCH 12/65] fix: generated ranges contain exactly the requested
 numbers

---
 template/math_utilities.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/template/math_utilities.go b/template/math_utilities.go
index be5a60f..fa4ae39 100644
--- a/template/math_utilities.go
+++ b/template/math_utilities.go
@@ -165,15 +165,12 @@ func generateNumericArray(limit bool, params ...interface{}) (result collections
 
 	var start, stop float64
 	var step float64 = 1
-	var precision int
 	switch len(params) {
 	case 1:
 		start = float64(iif(limit, 1, 0).(int))
 		stop = toFloat(params[0])
 	case 3:
 		step = math.Abs(toFloat(params[2]))
-		_, frac := collections.Split2(fmt.Sprintf("%g", step), ".")
-		precision = len(frac)
 		fallthrough
 	case 2:
 		start = toFloat(params[0])
@@ -184,16 +181,33 @@ func generateNumericArray(limit bool, params ...interface{}) (result collections
 	if step == 0 {
 		return nil, fmt.Errorf("step cannot be zero")
 	}
-	array := make([]interface{}, 0, int64(math.Abs(stop-start)))
+	count := math.Abs(stop-start) / step
+	if !(count < maxArrayLength) {
+		return nil, fmt.Errorf("cannot generate an array from %v to %v with a step of %v", start, stop, step)
+	}
+	// Each element is computed from the starting point and rounded to avoid accumulating imprecision
+	precision := int(math.Max(float64(decimals(start)), float64(decimals(step))))
+	array := make([]interface{}, 0, int(count)+1)
 	forward := stop > start
 	if !forward {
 		step = -step
 	}
-	for current := start; (forward && current <= stop || !forward && current >= stop) && (limit || current != stop); {
-		current = sprigRound(current, precision)
+	for i := 0; ; i++ {
+		current := toFloat(strconv.FormatFloat(start+float64(i)*step, 'f', precision, 64))
+		if forward && current > stop || !forward && current < stop || !limit && current == stop {
+			break
+		}
 		array = append(array, simplify(current))
-		current += step
 	}
 	result = collections.AsList(array)
 	return
 }
+
+// maxArrayLength is the maximum number of elements in a generated array
+const maxArrayLength = 1e8
+
+// decimals returns the number of digits following the decimal point in the shortest representation of the value
+func decimals(value float64) int {
+	_, fraction := collections.Split2(strconv.FormatFloat(value, 'f', -1, 64), ".")
+	return len(fraction)
+}
-- 
2.43.0


From fd246464a0023c35d94e946293074084b5a541c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:07 +0000
Subject: [PATCH 13/65] fix: slice bounds outside the value are clamped

---
 template/slice.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/template/slice.go b/template/slice.go
index de7ed0e..fdfca39 100644
--- a/template/slice.go
+++ b/template/slice.go
@@ -122,8 +122,8 @@ func sliceList(value reflect.Value, args ...interface{}) (result interface{}, er
 	}
 
 	// For slice operation, there is no error if the index are of limit
-	end = int(min(end, length).(int64))
-	begin = int(max(begin, 0).(int64))
+	begin = int(max(min(begin, length), 0).(int64))
+	end = int(max(min(end, length), 0).(int64))
 
 	if value.Kind() == reflect.String {
 		// String slices are returned as string instead of array of runes
@@ -134,10 +134,6 @@ func sliceList(value reflect.Value, args ...interface{}) (result interface{}, er
 		return result, nil
 	}
 
-	if begin > length {
-		// Begin is after the end
-		return collections.AsList(value.Interface()).Create(), nil
-	}
 	results := collections.AsList(value.Interface()).Create(end - begin)
 	for i := range results.AsArray() {
 		results.Set(i, value.Index(i+begin).Interface())
-- 
2.43.0


From ba7bc8a28168037607585d74ca16a7f5ec7abe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:09 +0000
Subject: [PATCH 14/65] fix: consider multi-byte characters in
 GetWordAtPosition

---
 collections/string.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/collections/string.go b/collections/string.go
index 0b3e895..80f353a 100644
--- a/collections/string.go
+++ b/collections/string.go
@@ -7,6 +7,7 @@ import (
 	"strconv"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/coveooss/multilogger"
 	"github.com/pmezard/go-difflib/difflib"
@@ -320,15 +321,24 @@ func (s String) GetWordAtPosition(pos int, accept ...string) (String, int) {
 	isBreak := func(c rune) bool {
 		return unicode.IsSpace(c) || unicode.IsPunct(c) && !strings.ContainsRune(acceptChars, c)
 	}
-	begin, end := pos, pos
-	for begin >= 0 && !isBreak(rune(s[begin])) {
-		begin--
+	for pos > 0 && !utf8.RuneStart(s[pos]) {
+		// The position is in the middle of a multi-byte character
+		pos--
 	}
-	for end < len(s) && !isBreak(rune(s[end])) {
-		end++
+	begin, end := pos, pos
+	for end < len(s) {
+		char, size := utf8.DecodeRuneInString(s.Str()[end:])
+		if isBreak(char) {
+			break
+		}
+		end += size
 	}
-	if begin != end {
-		begin++
+	for begin > 0 && begin != end {
+		char, size := utf8.DecodeLastRuneInString(s.Str()[:begin])
+		if isBreak(char) {
+			break
+		}
+		begin -= size
 	}
 	return s[begin:end], begin
 }
-- 
2.43.0


From 45637e746b49525dbf01a40b18db8b8ecaa086b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:14 +0000
Subject: [PATCH 15/65] fix: align line numbers when there are 1000 lines

---
 collections/string.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/collections/string.go b/collections/string.go
index 80f353a..eb74853 100644
--- a/collections/string.go
+++ b/collections/string.go
@@ -2,7 +2,6 @@ package collections
 
 import (
 	"fmt"
-	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -468,7 +467,7 @@ var replacementRegex = regexp.MustCompile(`"♠(\d+)"`)
 func (s String) AddLineNumber(space int) String {
 	lines := s.Lines()
 	if space <= 0 {
-		space = int(math.Log10(float64(len(lines)))) + 1
+		space = len(strconv.Itoa(len(lines)))
 	}
 
 	for i := range lines {
-- 
2.43.0


From a2ab51c940f9a34175caa1c46f52206dfe0fb41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:20 +0000
Subject: [PATCH 16/65] fix: ignore contexts closed before the position in
 GetContextAtPosition

---
 collections/string.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/collections/string.go b/collections/string.go
index eb74853..b26874a 100644
--- a/collections/string.go
+++ b/collections/string.go
@@ -372,7 +372,15 @@ func (s String) GetContextAtPosition(pos int, left, right string) (a String, b i
 		if left == "" {
 			return pos
 		}
-		return s[:pos].LastIndex(left)
+		begin := s[:pos].LastIndex(left)
+		if right == "" || left == right {
+			return begin
+		}
+		for begin >= 0 && s[begin+len(left):pos].Count(right) > s[begin+len(left):pos].Count(left) {
+			// This context is closed before the position, so we look for a preceding one
+			begin = s[:begin].LastIndex(left)
+		}
+		return begin
 	}
 	begin, end, lenLeft, lenRight := findLeft(s, pos), pos+1, len(left), len(right)
 
-- 
2.43.0


From 4e557389f874e9a1070b8aa6b853c905241a43a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:37 +0000
Subject: [PATCH 17/65] fix: protect strings after an unclosed backtick

---
 collections/string.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/collections/string.go b/collections/string.go
index b26874a..b50b663 100644
--- a/collections/string.go
+++ b/collections/string.go
@@ -438,6 +438,12 @@ func (s String) Protect() (result String, array StringArray) {
 		if pos < 0 {
 			break
 		}
+		if s[pos] == '`' && !s[pos+1:].Contains("`") {
+			// The backtick is not closed, but there may be other strings after it
+			result += s[:pos+1]
+			s = s[pos+1:]
+			continue
+		}
 
 		for end = s[pos+1:].IndexRune(rune(s[pos])); end >= 0; {
 			end += pos + 1
@@ -462,7 +468,11 @@ func (s String) Protect() (result String, array StringArray) {
 // RestoreProtected restores a string transformed by ProtectString to its original value.
 func (s String) RestoreProtected(array StringArray) String {
 	return String(replacementRegex.ReplaceAllStringFunc(s.Str(), func(match string) string {
-		index := must(strconv.Atoi(replacementRegex.FindStringSubmatch(match)[1])).(int)
+		index, err := strconv.Atoi(replacementRegex.FindStringSubmatch(match)[1])
+		if err != nil || index >= len(array) {
+			// This is not one of our replacements
+			return match
+		}
 		return array[index].Str()
 	}))
 }
-- 
2.43.0


From 73c5432db6a6cddfeceaf8ff0adc471b8027abf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:00 +0000
Subject: [PATCH 18/65] fix: apply custom delimiters in all razor constructs

---
 template/razor.go               | 36 +++++++++++++++++++++++++--------
 template/razor_repl_assign.go   |  4 ++--
 template/razor_repl_autowrap.go |  3 ++-
 template/razor_repl_expr.go     | 13 +++++++++---
 template/razor_repl_literal.go  |  5 +++--
 5 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/template/razor.go b/template/razor.go
index c37f2c6..4ff5d46 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -24,13 +24,13 @@ func (t *Template) applyRazor(content []byte) (result []byte, changed bool) {
 		if strings.HasSuffix(ignoredExpr, "*") || strings.HasSuffix(ignoredExpr, "+") {
 			ignoredExpr += `?` // Ensure that the regex is not greedy
 		}
-		ignoredExpr = t.RazorDelim() + ignoredExpr + `\b` // Stop at the end of the expression
+		ignoredExpr = regexp.QuoteMeta(t.RazorDelim()) + ignoredExpr + `\b` // Stop at the end of the expression
 		content = regexp.MustCompile(ignoredExpr).ReplaceAllFunc(content, func(match []byte) []byte {
 			return []byte(strings.Replace(string(match), t.RazorDelim(), literalAt, 1))
 		})
 	}
 
-	for _, r := range replacementsInit[fmt.Sprint(t.delimiters)] {
+	for _, r := range replacementsInit[fmt.Sprintf("%q", t.delimiters)] {
 		printDebugInfo(r, string(content))
 		if r.parser == nil {
 			content = r.re.ReplaceAll(content, []byte(r.replace))
@@ -158,16 +158,18 @@ type replacement struct {
 }
 
 func (t *Template) ensureInit() {
-	delimiters := fmt.Sprint(t.delimiters)
+	delimiters := fmt.Sprintf("%q", t.delimiters)
 	if _, ok := replacementsInit[delimiters]; !ok {
 		// We must ensure that search and replacement expression are compatible with the set of delimiters
+		quote := func(s string) string { return strings.ReplaceAll(regexp.QuoteMeta(s), "-", `\-`) }
+		escape := func(s string) string { return strings.ReplaceAll(s, "$", "$$") }
+		toRegex := strings.NewReplacer("{{", quote(t.LeftDelim()), "}}", quote(t.RightDelim()), "@", quote(t.RazorDelim()))
+		// In replacements, the first bracket of }}} is closing a variable (i.e. ${reduce2}}})
+		toReplace := strings.NewReplacer("{{", escape(t.LeftDelim()), "}}}", "}"+escape(t.RightDelim()), "}}", escape(t.RightDelim()), "@", escape(t.RazorDelim()))
 		replacements := make([]replacement, 0, len(expressions))
 		for _, expr := range expressions {
 			comment := expr[0].(string)
-			re := strings.Replace(expr[1].(string), "@", regexp.QuoteMeta(t.RazorDelim()), -1)
-			re = strings.Replace(re, "{{", regexp.QuoteMeta(t.LeftDelim()), -1)
-			re = strings.Replace(re, "}}", regexp.QuoteMeta(t.RightDelim()), -1)
-			replace := strings.Replace(strings.Replace(strings.Replace(expr[2].(string), "{{", t.LeftDelim(), -1), "}}", t.RightDelim(), -1), "@", t.RazorDelim(), -1)
+			re, replace := expr[1].(string), toReplace.Replace(expr[2].(string))
 			var exprParser replacementFunc
 			if len(expr) >= 4 {
 				exprParser = expr[3].(replacementFunc)
@@ -185,9 +187,12 @@ func (t *Template) ensureInit() {
 				// that go from the most generic expression to the most specific one
 				subExpressions = make([]string, len(expressionList))
 				for i := range expressionList {
-					subExpressions[i] = strings.Replace(re, expressionKey, expressionList[i], -1)
+					subExpressions[i] = strings.Replace(re, expressionKey, t.excludeRazorDelim(expressionList[i]), -1)
 				}
 			}
+			for i := range subExpressions {
+				subExpressions[i] = toRegex.Replace(subExpressions[i])
+			}
 
 			for i := range subExpressions {
 				re := regexp.MustCompile(subExpressions[i])
@@ -204,6 +209,21 @@ func (t *Template) ensureInit() {
 	}
 }
 
+// If the razor delimiter has more than one character, a character class is not able to exclude it.
+func (t *Template) excludeRazorDelim(class string) string {
+	delim := []rune(t.RazorDelim())
+	if len(delim) == 1 || !strings.HasPrefix(class, "[^@") {
+		return class
+	}
+	others := strings.TrimPrefix(class, "[^@")
+	alternatives := make([]string, len(delim))
+	for i, r := range delim {
+		char := strings.ReplaceAll(regexp.QuoteMeta(string(r)), "-", `\-`)
+		alternatives[i] = fmt.Sprintf("%s[^%s%s", regexp.QuoteMeta(string(delim[:i])), char, others)
+	}
+	return fmt.Sprintf("(?:%s)", strings.Join(alternatives, "|"))
+}
+
 func printDebugInfo(r replacement, content string) {
 	if r.name == "" || !InternalLog.IsLevelEnabled(logrus.DebugLevel) {
 		return
diff --git a/template/razor_repl_assign.go b/template/razor_repl_assign.go
index f94df78..56cb76c 100644
--- a/template/razor_repl_assign.go
+++ b/template/razor_repl_assign.go
@@ -17,7 +17,7 @@ func assignExpressionAcceptError(repl replacement, match string) string {
 
 func assignExpressionInternal(repl replacement, match string, acceptError bool) string {
 	matches, _ := reutils.MultiMatch(match, repl.re)
-	tp := matches["type"]
+	tp := strings.Replace(matches["type"], repl.delimiters[2], "@", 1)
 	id := matches["id"]
 	expr := matches["expr"]
 	assign := matches["assign"]
@@ -54,7 +54,7 @@ func assignExpressionInternal(repl replacement, match string, acceptError bool)
 	}
 
 	var err error
-	if expr, err = expressionParserInternal(exprRepl, expr, true, internal); err != nil && !acceptError {
+	if expr, err = expressionParserInternal(repl.subExpression(), expr, true, internal); err != nil && !acceptError {
 		return match
 	}
 
diff --git a/template/razor_repl_autowrap.go b/template/razor_repl_autowrap.go
index fc37425..f52bafb 100644
--- a/template/razor_repl_autowrap.go
+++ b/template/razor_repl_autowrap.go
@@ -17,7 +17,8 @@ func autoWrap(repl replacement, match string) string {
 		return match
 	}
 	after := context[len(args):]
-	return fmt.Sprintf("@%s%sjoin(\"%s\", formatList(\"%s%%v%s\", %s)",
+	return fmt.Sprintf("%s%s%sjoin(\"%s\", formatList(\"%s%%v%s\", %s)",
+		repl.delimiters[2],
 		matches["nl"],
 		matches["reduce"],
 		iif(matches["nl"] != "", "\\n", ""),
diff --git a/template/razor_repl_expr.go b/template/razor_repl_expr.go
index 2615257..6162e27 100644
--- a/template/razor_repl_expr.go
+++ b/template/razor_repl_expr.go
@@ -63,7 +63,7 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 		// We first protect strings declared in the expression
 		protected, includedStrings := String(expression).Protect()
 		for i := range includedStrings {
-			includedStrings[i] = includedStrings[i].Replace("@", literalAt)
+			includedStrings[i] = includedStrings[i].Replace(repl.delimiters[2], literalAt)
 		}
 
 		// We transform the expression into a valid go statement
@@ -104,7 +104,7 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 			InternalLog.Errorf("Only one : character is allowed in slice expression: %s", match)
 		}
 		for i := range values {
-			if values[i], err = expressionParserInternal(exprRepl, values[i], true, true); err != nil {
+			if values[i], err = expressionParserInternal(repl.subExpression(), values[i], true, true); err != nil {
 				return match, err
 			}
 		}
@@ -114,7 +114,7 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 	}
 
 	if selectExpr := matches["selection"]; selectExpr != "" {
-		if selectExpr, err = expressionParserInternal(exprRepl, selectExpr, true, true); err != nil {
+		if selectExpr, err = expressionParserInternal(repl.subExpression(), selectExpr, true, true); err != nil {
 			return match, err
 		}
 		repl.replace = strings.Replace(repl.replace, "${selection}", selectExpr, -1)
@@ -160,6 +160,13 @@ var exprRepl = replacement{
 	replace: `${expr}`,
 }
 
+// subExpression returns the replacement used to parse an expression which is a part of the current one.
+func (r replacement) subExpression() replacement {
+	result := exprRepl
+	result.delimiters = r.delimiters
+	return result
+}
+
 func indexExpression(expr string) string {
 	expr = negativeSlice.ReplaceAllString(expr, "[${index}:0]")
 	expr = strings.Replace(expr, "[]", "[0:-1]", -1)
diff --git a/template/razor_repl_literal.go b/template/razor_repl_literal.go
index 58ee78b..5f51e30 100644
--- a/template/razor_repl_literal.go
+++ b/template/razor_repl_literal.go
@@ -26,9 +26,10 @@ func protectMultiLineStrings(repl replacement, match string) string {
 var longStrings []string
 
 func protectEmail(repl replacement, match string) string {
-	if match[0] == '@' || match[0] == '#' {
+	delim := repl.delimiters[2]
+	if strings.HasPrefix(match, delim) || match[0] == '#' {
 		// This is not an email
 		return match
 	}
-	return strings.Replace(match, "@", "@@", 1)
+	return strings.Replace(match, delim, delim+delim, 1)
 }
-- 
2.43.0


From 8ec62b63f0b78874b4189a991bdae152542024b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:51 +0000
Subject: [PATCH 19/65] fix: keep dollar signs in strings of razor expressions

---
 template/razor_repl_expr.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/template/razor_repl_expr.go b/template/razor_repl_expr.go
index 6162e27..80f0905 100644
--- a/template/razor_repl_expr.go
+++ b/template/razor_repl_expr.go
@@ -117,7 +117,7 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 		if selectExpr, err = expressionParserInternal(repl.subExpression(), selectExpr, true, true); err != nil {
 			return match, err
 		}
-		repl.replace = strings.Replace(repl.replace, "${selection}", selectExpr, -1)
+		repl.replace = strings.Replace(repl.replace, "${selection}", strings.Replace(selectExpr, "$", "$$", -1), -1)
 	}
 
 	if expr != "" {
@@ -129,6 +129,8 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 		if err == nil {
 			result, err := node(tr)
 			if err == nil {
+				// The $ that are still there are in strings, they must not be considered as variables of the replacement
+				result = strings.Replace(result, "$", "$$", -1)
 				result = strings.Replace(result, reserved["$"], "$$", -1)
 				for _, keyword := range reservedKeywords {
 					// Bring back all reserved keywords
-- 
2.43.0


From 7e513511c5d1d979b25381fab74a6dadfaa311b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:09 +0000
Subject: [PATCH 20/65] fix: razor literals directly following a razor name are
 not considered as an assignment

---
 template/razor_repl_expr.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/template/razor_repl_expr.go b/template/razor_repl_expr.go
index 80f0905..913f79e 100644
--- a/template/razor_repl_expr.go
+++ b/template/razor_repl_expr.go
@@ -13,9 +13,9 @@ import (
 
 const (
 	protectString          = "_=LONG_STRING="
-	literalAt              = "_=!AT!=_"
-	literalTripleBackticks = "_=!TRIPLE_BT!=_"
-	literalReplacement     = "_=!REPL!=_"
+	literalAt              = "\ue000!AT!\ue000" // Private characters are used to ensure that the replacement is not considered as a part of the preceding expression
+	literalTripleBackticks = "\ue000!TRIPLE_BT!\ue000"
+	literalReplacement     = "\ue000!REPL!\ue000"
 	literalStart           = `{{ "{{" }}`
 	funcCall               = "__FuncCall__"
 	dotRep                 = "__DoTPrefix__"
-- 
2.43.0


From dc52024f877afcba3e43744194ced5335fe86f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:37 +0000
Subject: [PATCH 21/65] fix: strings over several lines are restored exactly by
 razor

---
 template/razor.go              | 10 +++++++---
 template/razor_repl_expr.go    |  2 +-
 template/razor_repl_literal.go | 20 ++++++++++----------
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/template/razor.go b/template/razor.go
index 4ff5d46..5985b22 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -30,7 +30,9 @@ func (t *Template) applyRazor(content []byte) (result []byte, changed bool) {
 		})
 	}
 
+	var longStrings []string
 	for _, r := range replacementsInit[fmt.Sprintf("%q", t.delimiters)] {
+		r.longStrings = &longStrings
 		printDebugInfo(r, string(content))
 		if r.parser == nil {
 			content = r.re.ReplaceAll(content, []byte(r.replace))
@@ -139,10 +141,10 @@ var expressions = [][]interface{}{
 	{`Inline content "<<..."`, `"<<(?P<content>.*?{{[sp].*?[sp]}}.*?)"`, `${content}`},
 
 	// Restoring literals
+	{"", fmt.Sprintf(`\x60%s(?P<num>\d+)\x60`, protectString), "", replacementFunc(restoreMultiLineStrings)},
 	{"", literalAt, "@"},
 	{"", literalTripleBackticks, "```"},
 	{"", literalReplacement, "${"},
-	{"", fmt.Sprintf(`\x60%s(?P<num>\d+)\x60`, protectString), "", replacementFunc(protectMultiLineStrings)},
 }
 
 var replacementsInit = make(map[string][]replacement)
@@ -155,6 +157,8 @@ type replacement struct {
 	re         *regexp.Regexp
 	parser     replacementFunc
 	delimiters []string
+
+	longStrings *[]string // Multi line strings protected during the current execution
 }
 
 func (t *Template) ensureInit() {
@@ -196,13 +200,13 @@ func (t *Template) ensureInit() {
 
 			for i := range subExpressions {
 				re := regexp.MustCompile(subExpressions[i])
-				replacements = append(replacements, replacement{comment, subExpressions[i], replace, re, exprParser, t.delimiters})
+				replacements = append(replacements, replacement{name: comment, expr: subExpressions[i], replace: replace, re: re, parser: exprParser, delimiters: t.delimiters})
 			}
 
 			if len(subExpressions) > 1 && len(expr) == 5 {
 				// If there is a fallback expression evaluator, we apply it on the first replacement alternative
 				re := regexp.MustCompile(subExpressions[0])
-				replacements = append(replacements, replacement{comment, subExpressions[0], replace, re, expr[4].(replacementFunc), t.delimiters})
+				replacements = append(replacements, replacement{name: comment, expr: subExpressions[0], replace: replace, re: re, parser: expr[4].(replacementFunc), delimiters: t.delimiters})
 			}
 		}
 		replacementsInit[delimiters] = replacements
diff --git a/template/razor_repl_expr.go b/template/razor_repl_expr.go
index 913f79e..d452258 100644
--- a/template/razor_repl_expr.go
+++ b/template/razor_repl_expr.go
@@ -12,7 +12,7 @@ import (
 )
 
 const (
-	protectString          = "_=LONG_STRING="
+	protectString          = "\ue000LONG_STRING="
 	literalAt              = "\ue000!AT!\ue000" // Private characters are used to ensure that the replacement is not considered as a part of the preceding expression
 	literalTripleBackticks = "\ue000!TRIPLE_BT!\ue000"
 	literalReplacement     = "\ue000!REPL!\ue000"
diff --git a/template/razor_repl_literal.go b/template/razor_repl_literal.go
index 5f51e30..920441e 100644
--- a/template/razor_repl_literal.go
+++ b/template/razor_repl_literal.go
@@ -7,23 +7,23 @@ import (
 )
 
 func protectMultiLineStrings(repl replacement, match string) string {
-	if strings.HasPrefix(match[1:], protectString) {
-		// We restore back the long string
-		index := must(strconv.Atoi(repl.re.FindStringSubmatch(match)[1])).(int)
-		restore := longStrings[index]
-		longStrings[index] = ""
-		return restore
-	}
 	if !strings.Contains(match, "\n") {
 		// We do not have to protect lines without newline
 		return match
 	}
 	// We save the long string in a buffer, they will be restored at the end of razor preprocessing
-	longStrings = append(longStrings, match)
-	return fmt.Sprintf("`%s%d`", protectString, len(longStrings)-1)
+	*repl.longStrings = append(*repl.longStrings, match)
+	return fmt.Sprintf("`%s%d`", protectString, len(*repl.longStrings)-1)
 }
 
-var longStrings []string
+func restoreMultiLineStrings(repl replacement, match string) string {
+	index, err := strconv.Atoi(repl.re.FindStringSubmatch(match)[1])
+	if err != nil || index >= len(*repl.longStrings) {
+		// This is not a protected string
+		return match
+	}
+	return (*repl.longStrings)[index]
+}
 
 func protectEmail(repl replacement, match string) string {
 	delim := repl.delimiters[2]
-- 
2.43.0


From 3a6af8d2611d0ef20c05502d421bd541740886cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:37 +0000
Subject: [PATCH 22/65] fix: razor delimiters in the strings of an expression
 are not interpreted

---
 template/razor.go              |  1 +
 template/razor_repl_literal.go | 46 ++++++++++++++++++++++++++++++++++
 2 files changed, 47 insertions(+)

diff --git a/template/razor.go b/template/razor.go
index 5985b22..fc092c9 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -81,6 +81,7 @@ var expressions = [][]interface{}{
 	{"Protect email", `(\W|^)[\w.!#$%&'*+/=?^_{|}~-]+@[\w-]{1,61}(?:\.[\w-]{1,61})+`, "", replacementFunc(protectEmail)},
 	{"", `\${`, literalReplacement},
 	{"", `@@`, literalAt},
+	{"Protect strings in expressions", `(?m)@.*$`, "", replacementFunc(protectStrings)},
 	{"", `@{{`, literalStart},
 	{"", `@<;`, `{{- $.NEWLINE }}`},
 	{"Auto indent", `(?m)^(?P<before>.*)@reduce;(?:autoIndent|aindent|aIndent)\(`, "@<-spaceIndent(`${before}`, "},
diff --git a/template/razor_repl_literal.go b/template/razor_repl_literal.go
index 920441e..a0f9374 100644
--- a/template/razor_repl_literal.go
+++ b/template/razor_repl_literal.go
@@ -2,6 +2,7 @@ package template
 
 import (
 	"fmt"
+	"regexp"
 	"strconv"
 	"strings"
 )
@@ -33,3 +34,48 @@ func protectEmail(repl replacement, match string) string {
 	}
 	return strings.Replace(match, delim, delim+delim, 1)
 }
+
+// protectStrings ensures that the razor delimiters in the strings of an expression between parenthesis are not interpreted.
+func protectStrings(repl replacement, line string) (result string) {
+	delim := repl.delimiters[2]
+	for {
+		pos := strings.Index(line, delim)
+		if pos < 0 {
+			return result + line
+		}
+		start := len(delim) + len(expressionStart.FindString(line[pos+len(delim):]))
+		result, line = result+line[:pos+start], line[pos+start:]
+		if strings.HasSuffix(result, "(") {
+			if end := closingParenthesis(line); end >= 0 {
+				result += quotedStrings.ReplaceAllStringFunc(line[:end], func(s string) string {
+					return strings.ReplaceAll(s, delim, literalAt)
+				})
+				line = line[end:]
+			}
+		}
+	}
+}
+
+// closingParenthesis returns the position of the parenthesis that close the expression, not considering those that are in strings.
+func closingParenthesis(expr string) int {
+	level := 1
+	for _, pos := range stringsAndParentheses.FindAllStringIndex(expr, -1) {
+		switch expr[pos[0]] {
+		case '(':
+			level++
+		case ')':
+			if level--; level == 0 {
+				return pos[0]
+			}
+		}
+	}
+	return -1
+}
+
+const stringExpression = "\"(?:[^\"\\\\]|\\\\.)*\"|`[^`]*`"
+
+var (
+	expressionStart       = regexp.MustCompile(`^[-_]*(?:[\p{L}\d_.]*|(?:if|else[[:blank:]]+if|with|range|for(?:[[:blank:]]*each)?|block|define)[[:blank:]]+)\(`)
+	quotedStrings         = regexp.MustCompile(stringExpression)
+	stringsAndParentheses = regexp.MustCompile(stringExpression + `|[()]`)
+)
-- 
2.43.0


From 47e5011fe0fb0a8e8c8d9913ec5731fcd5e13888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:41 +0000
Subject: [PATCH 23/65] fix: razor expressions end at their closing parenthesis
 or bracket

---
 template/razor.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/template/razor.go b/template/razor.go
index fc092c9..b54d877 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -68,11 +68,21 @@ var customMetaclass = [][2]string{
 	{"assign_op;", `:=|~=|=|\+=|-=|\*=|\/=|÷=|%=|&=|\|=|\^=|<<=|«=|>>=|»=|&\^=`}, // Assignment operator
 }
 
-// Expression (any character that is not a new line, a start of razor expression or a semicolumn)
-var expressionList = []string{`[^\n]`, `[^@\n]`, `[^@;\n]`, `[^@{\n]`, `[^@;{\n]`, fmt.Sprintf(`[^@;{\n'%s]`, "`"), `[\p{L}_\.]`}
+// Expression (balanced content, then any character that is not a new line, a start of razor expression or a semicolumn)
+var expressionList = []string{balancedExpression(5), `[^\n]`, `[^@\n]`, `[^@;\n]`, `[^@{\n]`, `[^@;{\n]`, fmt.Sprintf(`[^@;{\n'%s]`, "`"), `[\p{L}_\.]`}
 
 const expressionKey = "[expr]"
 
+// balancedExpression returns an expression matching an element of a text where parentheses and brackets outside of strings are balanced.
+func balancedExpression(depth int) string {
+	element := fmt.Sprintf("[^\\n()\\[\\]\"`]|%s", stringExpression)
+	nested := element
+	for ; depth > 0; depth-- {
+		nested = fmt.Sprintf(`%s|[(\[](?:%s)*[)\]]`, element, nested)
+	}
+	return fmt.Sprintf("(?:%s)", nested)
+}
+
 // Warning: The declaration order is important
 var expressions = [][]interface{}{
 	// Literals
@@ -205,9 +215,11 @@ func (t *Template) ensureInit() {
 			}
 
 			if len(subExpressions) > 1 && len(expr) == 5 {
-				// If there is a fallback expression evaluator, we apply it on the first replacement alternative
-				re := regexp.MustCompile(subExpressions[0])
-				replacements = append(replacements, replacement{name: comment, expr: subExpressions[0], replace: replace, re: re, parser: expr[4].(replacementFunc), delimiters: t.delimiters})
+				// If there is a fallback expression evaluator, we apply it on the first replacement alternatives
+				for _, subExpression := range subExpressions[:2] {
+					re := regexp.MustCompile(subExpression)
+					replacements = append(replacements, replacement{name: comment, expr: subExpression, replace: replace, re: re, parser: expr[4].(replacementFunc), delimiters: t.delimiters})
+				}
 			}
 		}
 		replacementsInit[delimiters] = replacements
-- 
2.43.0


From 362f3a7c3f2983d729c69fb7bcf1d9893154b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:52 +0000
Subject: [PATCH 24/65] fix: strings with razor delimiters or semicolons in
 expressions are protected

---
 template/razor.go              |  8 ++++----
 template/razor_repl_literal.go | 23 +++++++++++++++++------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/template/razor.go b/template/razor.go
index b54d877..1c4096d 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -91,11 +91,11 @@ var expressions = [][]interface{}{
 	{"Protect email", `(\W|^)[\w.!#$%&'*+/=?^_{|}~-]+@[\w-]{1,61}(?:\.[\w-]{1,61})+`, "", replacementFunc(protectEmail)},
 	{"", `\${`, literalReplacement},
 	{"", `@@`, literalAt},
+	{"Auto indent", `(?m)^(?P<before>.*)@reduce;(?:autoIndent|aindent|aIndent)\(`, "@<-spaceIndent(`${before}`, "},
+	{"Auto wrap", `(?m)^(?P<before>.*)@(?P<nl><)?reduce;(?P<func>autoWrap|awrap|aWrap)(?P<context>\(.*)$`, "", replacementFunc(autoWrap)},
 	{"Protect strings in expressions", `(?m)@.*$`, "", replacementFunc(protectStrings)},
 	{"", `@{{`, literalStart},
 	{"", `@<;`, `{{- $.NEWLINE }}`},
-	{"Auto indent", `(?m)^(?P<before>.*)@reduce;(?:autoIndent|aindent|aIndent)\(`, "@<-spaceIndent(`${before}`, "},
-	{"Auto wrap", `(?m)^(?P<before>.*)@(?P<nl><)?reduce;(?P<func>autoWrap|awrap|aWrap)(?P<context>\(.*)$`, "", replacementFunc(autoWrap)},
 	{`Inline content "@<...>"`, `"@reduce;<(?P<content>.*?)>"`, `"<<@${reduce}(${content})"`},
 	{"Newline expression", `@<`, `{{- $.NEWLINE }}@`},
 
@@ -152,7 +152,7 @@ var expressions = [][]interface{}{
 	{`Inline content "<<..."`, `"<<(?P<content>.*?{{[sp].*?[sp]}}.*?)"`, `${content}`},
 
 	// Restoring literals
-	{"", fmt.Sprintf(`\x60%s(?P<num>\d+)\x60`, protectString), "", replacementFunc(restoreMultiLineStrings)},
+	{"", fmt.Sprintf(`\x60%s(?P<num>\d+)\x60`, protectString), "", replacementFunc(restoreStrings)},
 	{"", literalAt, "@"},
 	{"", literalTripleBackticks, "```"},
 	{"", literalReplacement, "${"},
@@ -169,7 +169,7 @@ type replacement struct {
 	parser     replacementFunc
 	delimiters []string
 
-	longStrings *[]string // Multi line strings protected during the current execution
+	longStrings *[]string // Strings protected during the current execution
 }
 
 func (t *Template) ensureInit() {
diff --git a/template/razor_repl_literal.go b/template/razor_repl_literal.go
index a0f9374..3801f63 100644
--- a/template/razor_repl_literal.go
+++ b/template/razor_repl_literal.go
@@ -12,12 +12,20 @@ func protectMultiLineStrings(repl replacement, match string) string {
 		// We do not have to protect lines without newline
 		return match
 	}
-	// We save the long string in a buffer, they will be restored at the end of razor preprocessing
-	*repl.longStrings = append(*repl.longStrings, match)
-	return fmt.Sprintf("`%s%d`", protectString, len(*repl.longStrings)-1)
+	return repl.protect(match)
 }
 
-func restoreMultiLineStrings(repl replacement, match string) string {
+// protect saves the string in a buffer, it will be restored at the end of razor preprocessing.
+func (r replacement) protect(s string) string {
+	if strings.Contains(s, protectString) {
+		// The string is already protected
+		return s
+	}
+	*r.longStrings = append(*r.longStrings, s)
+	return fmt.Sprintf("`%s%d`", protectString, len(*r.longStrings)-1)
+}
+
+func restoreStrings(repl replacement, match string) string {
 	index, err := strconv.Atoi(repl.re.FindStringSubmatch(match)[1])
 	if err != nil || index >= len(*repl.longStrings) {
 		// This is not a protected string
@@ -35,7 +43,7 @@ func protectEmail(repl replacement, match string) string {
 	return strings.Replace(match, delim, delim+delim, 1)
 }
 
-// protectStrings ensures that the razor delimiters in the strings of an expression between parenthesis are not interpreted.
+// protectStrings ensures that the content of the strings of an expression between parenthesis is not interpreted.
 func protectStrings(repl replacement, line string) (result string) {
 	delim := repl.delimiters[2]
 	for {
@@ -48,7 +56,10 @@ func protectStrings(repl replacement, line string) (result string) {
 		if strings.HasSuffix(result, "(") {
 			if end := closingParenthesis(line); end >= 0 {
 				result += quotedStrings.ReplaceAllStringFunc(line[:end], func(s string) string {
-					return strings.ReplaceAll(s, delim, literalAt)
+					if strings.Contains(s, delim) || strings.Contains(s, ";") {
+						return repl.protect(s)
+					}
+					return s
 				})
 				line = line[end:]
 			}
-- 
2.43.0


From d27abc61707c65f34ff454d8dcd287bc688ae844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:05 +0000
Subject: [PATCH 25/65] fix: strings containing an assignment in expressions
 are protected

---
 template/razor_repl_literal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/razor_repl_literal.go b/template/razor_repl_literal.go
index 3801f63..3f8f0a5 100644
--- a/template/razor_repl_literal.go
+++ b/template/razor_repl_literal.go
@@ -56,7 +56,7 @@ func protectStrings(repl replacement, line string) (result string) {
 		if strings.HasSuffix(result, "(") {
 			if end := closingParenthesis(line); end >= 0 {
 				result += quotedStrings.ReplaceAllStringFunc(line[:end], func(s string) string {
-					if strings.Contains(s, delim) || strings.Contains(s, ";") {
+					if strings.Contains(s, delim) || strings.Contains(s, ";") || strings.Contains(s, ":=") {
 						return repl.protect(s)
 					}
 					return s
-- 
2.43.0


From b5f6a95ce46e75cde481072fb45ce9e387cdf379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:16 +0000
Subject: [PATCH 26/65] fix: unary complement, power of calls and consecutive
 word operators in razor expressions

---
 template/razor.go           |  2 +-
 template/razor_expr.go      | 10 +++++++---
 template/razor_repl_expr.go |  2 +-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/template/razor.go b/template/razor.go
index 1c4096d..1654852 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -69,7 +69,7 @@ var customMetaclass = [][2]string{
 }
 
 // Expression (balanced content, then any character that is not a new line, a start of razor expression or a semicolumn)
-var expressionList = []string{balancedExpression(5), `[^\n]`, `[^@\n]`, `[^@;\n]`, `[^@{\n]`, `[^@;{\n]`, fmt.Sprintf(`[^@;{\n'%s]`, "`"), `[\p{L}_\.]`}
+var expressionList = []string{balancedExpression(10), `[^\n]`, `[^@\n]`, `[^@;\n]`, `[^@{\n]`, `[^@;{\n]`, fmt.Sprintf(`[^@;{\n'%s]`, "`"), `[\p{L}_\.]`}
 
 const expressionKey = "[expr]"
 
diff --git a/template/razor_expr.go b/template/razor_expr.go
index 3521bc4..d40cb36 100644
--- a/template/razor_expr.go
+++ b/template/razor_expr.go
@@ -27,6 +27,10 @@ func nodeValue(node ast.Node) (result string, err error) {
 			result = iif(unicode.IsDigit(rune(x[0])), "-"+x, fmt.Sprintf("sub 0 %s", x)).(string)
 			break
 		}
+		if op == "bxor" {
+			// Unary operator ^x is the bitwise complement
+			x = "-1 " + x
+		}
 		result = fmt.Sprintf("%s %s", op, x)
 	case *ast.BinaryExpr:
 		var op, x, y string
@@ -39,9 +43,9 @@ func nodeValue(node ast.Node) (result string, err error) {
 		if y, err = nodeValueInternal(n.Y); err != nil {
 			return
 		}
-		if op == "mul" && strings.Contains(y, "*") {
+		if _, isPower := n.Y.(*ast.StarExpr); op == "mul" && isPower {
 			// This is a special case where the expression contains 2 following *, meaning power instead of mul
-			result = fmt.Sprintf("power %s %s", x, strings.Replace(y, "*", "", -1))
+			result = fmt.Sprintf("power %s %s", x, y)
 			return
 		}
 		result = fmt.Sprintf("%s %s %s", op, x, y)
@@ -98,7 +102,7 @@ func nodeValue(node ast.Node) (result string, err error) {
 			return
 		}
 		// This is a special case where the expression contains 2 following *, meaning power instead of mul
-		result = fmt.Sprintf("*%s", x)
+		result = x
 
 	case *ast.IndexExpr:
 		var x, index string
diff --git a/template/razor_repl_expr.go b/template/razor_repl_expr.go
index d452258..482275b 100644
--- a/template/razor_repl_expr.go
+++ b/template/razor_repl_expr.go
@@ -82,7 +82,7 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 		}
 
 		for key, val := range operators {
-			protected = protected.Replace(" "+val+" ", key)
+			protected = protected.Replace(" "+val+" ", " "+key+" ")
 		}
 		// We add support to partial slice
 		protected = String(indexExpression(protected.Str()))
-- 
2.43.0


From 3cc823a38acc31630d38745fa1c060fb7fe0556d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:15 +0000
Subject: [PATCH 27/65] fix: razor elseif and context variables ended by a
 semicolon

---
 template/razor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/template/razor.go b/template/razor.go
index 1654852..2f1b0bf 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -108,6 +108,7 @@ var expressions = [][]interface{}{
 	{"", `{{ /\*`, `{{/*`}, {"", `\*/ }}`, `*/}}`}, // Gotemplate is picky about spaces around comment {{- /* comment */ -}} and {{/* comment */}} are valid, but {{-/* comment */-}} and {{ /* comment */ }} are not.
 
 	// Commands
+	{"Else if", `@reduce;elseif[sp]\(`, "@${reduce}else if("},
 	{"Foreach", `@reduce;for(?:[sp]each)?[sp]\(`, "@${reduce}range("},
 	{"Single line command - @command (expr) action;", `@reduce;(?P<command>if|with|range)[sp]\([sp]assign;?[sp](?P<expr>[expr]+)[sp]\)[sp](?P<action>[^\n]+?)[sp];`, `{{${reduce1} ${command} ${assign}${expr} ${reduce2}}}${action}{{${reduce1} end ${reduce2}}}`, replacementFunc(expressionParserSkipError), replacementFunc(expressionParser)},
 	{"Single line command - @command (expr) { action }", `(?m)@reduce;(?P<command>if|with|range)[sp]\([sp]assign;?[sp](?P<expr>[expr]+)[sp]\)[sp]{[sp](?P<action>[^\n]+?)}[sp]$`, `{{${reduce1} ${command} ${assign}${expr} ${reduce2}}}${action}{{${reduce1} end ${reduce2}}}`, replacementFunc(expressionParserSkipError), replacementFunc(expressionParser)},
@@ -129,7 +130,7 @@ var expressions = [][]interface{}{
 	// Variables
 	{"Local variables - @{var}", `@reduce;{[sp](?P<name>[\p{L}\d_\.]*)[sp]}(?P<end>endexpr;)`, `@${reduce}($$${name});`},
 	{"Global variables followed by expression", `@reduce;(?P<expr>[idSel]selector;index;?)(?P<end>endexpr;)`, `@${reduce}(${expr});`, replacementFunc(expressionParserSkipError)},
-	{"Context variables - @.var", `@reduce;\.(?P<name>[idSel])endexpr;`, `@${reduce}(.${name})`},
+	{"Context variables - @.var", `@reduce;\.(?P<name>[idSel])(?P<end>endexpr;)`, `@${reduce}(.${name})${end}`},
 	{"Global variables with slice - @var[...]", `@reduce;(?P<name>[idSel])index;endexpr;`, `{{${reduce1} ${slicer} $$.${name} ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Context variables special with slice", `@reduce;\.(?P<expr>(?P<name>[flexible_id])index;)endexpr;`, `{{${reduce1} ${slicer} (get . "${name}") ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Global variables special with slice", `@reduce;(?P<expr>(?P<name>[flexible_id])index;)endexpr;`, `{{${reduce1} ${slicer} (get $$ "${name}") ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
-- 
2.43.0


From ec5ce21bbb45e61e1b05bba4517167abcf6fe336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:31 +0000
Subject: [PATCH 28/65] fix: razor: keep text following a variable, an index or
 a call out of its selection

---
 template/razor.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/template/razor.go b/template/razor.go
index 2f1b0bf..664bc95 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -55,14 +55,14 @@ var customMetaclass = [][2]string{
 	{"function;", `@reduce;(?P<expr>[id]\([sp][expr]*[sp]\))`},
 	{"assign;", `(?P<assign>(?:\$[id][ \t,]*){1,2}:=[sp])`},       // Optional assignment
 	{"index;", `(?P<index>\[[expr]+\])`},                          // Extended index operator that support picky selection using ',' as element separator
-	{"selector;", `(?P<selection>\.[expr]+)`},                     // Optional selector following expression indicating that the expression must include the content after the closing ) (i.e. @function(args).selection)
+	{"selector;", selectorExpression},                             // Optional selector following expression indicating that the expression must include the content after the closing ) (i.e. @function(args).selection)
 	{"reduce;", `(?P<reduce>((?P<reduce1>-)|_)?(?P<reduce2>-?))`}, // Optional reduces sign (-) indicating that the generated code must start with {{- (and end with -}} if two dashes are specified @--)
 	{"endexpr;", `(?:[sp];)?`},                                    // End expression (spaces + ; or end of line)
 	{"[sp]", `[[:blank:]]*`},                                      // Optional spaces
 	{"[id]", `[\p{L}\d_]+`},                                       // Go language id
 	{"[id_comp]", `[\p{L}\d_\.]+`},                                // Go language id with .
 	{"[flexible_id]", `[map_id;][map_id;\.\-]*`},                  // Id with additional character that could be used to create variables in maps
-	{"[idSel]", `[\p{L}_][\p{L}\d_\.]*`},                          // Id with optional selection (object.selection.subselection)
+	{"[idSel]", `[\p{L}_][\p{L}\d_]*(?:\.[\p{L}\d_]+)*`},          // Id with optional selection (object.selection.subselection)
 	{"map_id;", `\p{L}\d_\+\*%#!~`},                               // Id with additional character that could be used to create variables in maps
 
 	{"assign_op;", `:=|~=|=|\+=|-=|\*=|\/=|÷=|%=|&=|\|=|\^=|<<=|«=|>>=|»=|&\^=`}, // Assignment operator
@@ -73,6 +73,9 @@ var expressionList = []string{balancedExpression(10), `[^\n]`, `[^@\n]`, `[^@;\n
 
 const expressionKey = "[expr]"
 
+// Selection of a member, a method call or an index following an expression
+var selectorExpression = fmt.Sprintf(`(?P<selection>\.[id](?:\.[id]|[(\[]%s*[)\]])*)`, balancedExpression(10))
+
 // balancedExpression returns an expression matching an element of a text where parentheses and brackets outside of strings are balanced.
 func balancedExpression(depth int) string {
 	element := fmt.Sprintf("[^\\n()\\[\\]\"`]|%s", stringExpression)
@@ -134,17 +137,17 @@ var expressions = [][]interface{}{
 	{"Global variables with slice - @var[...]", `@reduce;(?P<name>[idSel])index;endexpr;`, `{{${reduce1} ${slicer} $$.${name} ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Context variables special with slice", `@reduce;\.(?P<expr>(?P<name>[flexible_id])index;)endexpr;`, `{{${reduce1} ${slicer} (get . "${name}") ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Global variables special with slice", `@reduce;(?P<expr>(?P<name>[flexible_id])index;)endexpr;`, `{{${reduce1} ${slicer} (get $$ "${name}") ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
-	{"Local variables with slice", `@reduce;(?P<expr>(?P<name>[\$\.][\p{L}\d_\.]*)index;)endexpr;`, `{{${reduce1} ${slicer} ${name} ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
+	{"Local variables with slice", `@reduce;(?P<expr>(?P<name>[\$\.](?:\.?[\p{L}\d_]+)*)index;)endexpr;`, `{{${reduce1} ${slicer} ${name} ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Global variables - @var", `@reduce;(?P<name>[idSel])endexpr;`, `{{${reduce1} $$.${name} ${reduce2}}}`},
 	{"Context variables special - @.var", `@reduce;\.(?P<name>[flexible_id])endexpr;`, `{{${reduce1} get . "${name}" ${reduce2}}}`},
 	{"Global variables special - @var", `@reduce;(?P<name>[flexible_id])endexpr;`, `{{${reduce1} get $$ "${name}" ${reduce2}}}`},
-	{"Local variables - @$var or @.var", `@reduce;(?P<name>[\$\.][\p{L}\d_\.]*)endexpr;`, `{{${reduce1} ${name} ${reduce2}}}`},
+	{"Local variables - @$var or @.var", `@reduce;(?P<name>[\$\.](?:\.?[\p{L}\d_]+)*)endexpr;`, `{{${reduce1} ${name} ${reduce2}}}`},
 
 	// Expressions
 	{"Expression @(var)[...]", `@reduce;(?P<expr>\([sp](?P<name>[idSel])[sp]\)index;)endexpr;`, `{{${reduce1} ${slicer} $$.${name} ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Expression @(var)", `@reduce;\([sp](?P<expr>[idSel])[sp]\)endexpr;`, `{{${reduce1} ${expr} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Expression @(expr)[...]", `@reduce;\([sp](?P<expr>[expr]+)[sp]\)index;endexpr;`, `{{${reduce1} ${slicer} (${expr}) ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
-	{"Expression @(expr)", `@reduce;\([sp](?P<assign>.*?:= ?)?[sp](?P<expr>[expr]+)[sp]\)endexpr;`, `{{${reduce1} ${assign}${expr} ${reduce2}}}`, replacementFunc(expressionParserSkipError), replacementFunc(expressionParser)},
+	{"Expression @(expr)", `@reduce;\([sp]assign;?[sp](?P<expr>[expr]+)[sp]\)endexpr;`, `{{${reduce1} ${assign}${expr} ${reduce2}}}`, replacementFunc(expressionParserSkipError), replacementFunc(expressionParser)},
 
 	{"Space eater", `@-endexpr;`, `{{- "" -}}`},
 
@@ -216,11 +219,9 @@ func (t *Template) ensureInit() {
 			}
 
 			if len(subExpressions) > 1 && len(expr) == 5 {
-				// If there is a fallback expression evaluator, we apply it on the first replacement alternatives
-				for _, subExpression := range subExpressions[:2] {
-					re := regexp.MustCompile(subExpression)
-					replacements = append(replacements, replacement{name: comment, expr: subExpression, replace: replace, re: re, parser: expr[4].(replacementFunc), delimiters: t.delimiters})
-				}
+				// If there is a fallback expression evaluator, we apply it on the first replacement alternative
+				re := regexp.MustCompile(subExpressions[0])
+				replacements = append(replacements, replacement{name: comment, expr: subExpressions[0], replace: replace, re: re, parser: expr[4].(replacementFunc), delimiters: t.delimiters})
 			}
 		}
 		replacementsInit[delimiters] = replacements
-- 
2.43.0


From 4d3d1d3eed26ca45db0e982c795c2d839423a466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:36 +0000
Subject: [PATCH 29/65] fix: autoWrap: text around containing % is not a format

---
 template/razor_repl_autowrap.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/template/razor_repl_autowrap.go b/template/razor_repl_autowrap.go
index f52bafb..b19d57d 100644
--- a/template/razor_repl_autowrap.go
+++ b/template/razor_repl_autowrap.go
@@ -22,8 +22,9 @@ func autoWrap(repl replacement, match string) string {
 		matches["nl"],
 		matches["reduce"],
 		iif(matches["nl"] != "", "\\n", ""),
-		before.Escape(),
-		after.RestoreProtected(strings).Escape(),
+		// The text around is literal in the format given to formatList
+		before.Replace("%", "%%").Escape(),
+		after.RestoreProtected(strings).Replace("%", "%%").Escape(),
 		args.RestoreProtected(strings)[1:],
 	)
 }
-- 
2.43.0


From 732c7bf5b9ae122c07ff9494b9aa68173bba7669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:21 +0000
Subject: [PATCH 30/65] fix: error handler does not rely on positions found in
 messages

---
 template/template_error_handler.go | 31 ++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/template/template_error_handler.go b/template/template_error_handler.go
index baaacba..d1ba206 100644
--- a/template/template_error_handler.go
+++ b/template/template_error_handler.go
@@ -22,6 +22,17 @@ type errorHandler struct {
 	Clone    bool     // Indicates if the evaluation must be done on a copy of the context
 }
 
+// Maximum number of errors that are searched in the same content
+const maxErrorRetries = 1000
+
+// lineAt returns the line at the given position or nothing if there is no such line.
+func lineAt(lines []string, index int) string {
+	if index < 0 || index >= len(lines) {
+		return ""
+	}
+	return lines[index]
+}
+
 func (t errorHandler) Handler(err error) (string, bool, error) {
 	if t.Lines == nil {
 		t.Lines = strings.Split(t.Source, "\n")
@@ -35,6 +46,10 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 		lastErrorBegin = errorsPosition[len(errorsPosition)-1][0]
 	}
 
+	if t.Try >= maxErrorRetries {
+		return "", true, err
+	}
+
 	if matches, index := reutils.MultiMatch(err.Error()[lastErrorBegin:], errorParsingExpressions...); len(matches) > 0 {
 		InternalLog.Infof("An error occurred: %v Match = %s (%d)", err, errorParsingExpressions[index].String(), index)
 		// We remove the faulty line and continue the processing to get all errors at once
@@ -60,18 +75,26 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 			if fileContent, err := os.ReadFile(matches[tagFile]); err != nil {
 				line = fmt.Sprintf("Unable to read file: %v", err)
 			} else {
-				line = String(fileContent).Lines()[toInt(matches[tagLine])-1].Str()
+				line = lineAt(String(fileContent).Lines().Strings(), toInt(matches[tagLine])-1)
 			}
 			return "", true, fmt.Errorf("%s %w in: %s", color.WhiteString(t.Filename), err, color.HiBlackString(line))
 		}
 
+		if faultyLine < 0 || faultyLine >= len(lines) {
+			// The position does not refer to the current code (i.e. the message has been supplied by the user)
+			return "", true, err
+		}
+
 		currentLine := String(lines[faultyLine])
-		if faultyColumn != 0 && strings.Contains(" (", currentLine[faultyColumn:faultyColumn+1].Str()) {
+		if faultyColumn < 0 || faultyColumn > currentLine.Len() {
+			faultyColumn = 0
+		}
+		if faultyColumn != 0 && faultyColumn < currentLine.Len() && strings.Contains(" (", currentLine[faultyColumn:faultyColumn+1].Str()) {
 			// Sometime, the error is not reporting the exact column, we move 1 char forward to get the real problem
 			faultyColumn++
 		}
 
-		errorLine := fmt.Sprintf(" in: %s", color.HiBlackString(t.Lines[faultyLine]))
+		errorLine := fmt.Sprintf(" in: %s", color.HiBlackString(lineAt(t.Lines, faultyLine)))
 		var logMessage string
 		if key != "" {
 			// Missing key and we disabled the <no value> mode
@@ -158,7 +181,7 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 		if err != nil {
 			err = fmt.Errorf("%s%s%s", color.WhiteString(matches[tagLocation]), errorText, errorLine)
 		}
-		if lines[faultyLine] != currentLine.Str() || strings.Contains(err.Error(), noValueError) {
+		if lines[faultyLine] != currentLine.Str() || err != nil && strings.Contains(err.Error(), noValueError) {
 			// If we changed something in the current text, we try to continue the evaluation to get further errors
 			newCode := strings.Join(lines, "\n")
 			if err != nil {
-- 
2.43.0


From 84aa03d16b393ef749e4a052e268bd1e5f457572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:26 +0000
Subject: [PATCH 31/65] fix: bound the depth of included templates and the cost
 of their errors

---
 template/extra_runtime.go | 30 +++++++++++++++++++++++++++---
 template/template.go      |  2 ++
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index 57c7393..ef0029e 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -429,21 +429,40 @@ func (t *Template) exec(command string, args ...interface{}) (interface{}, error
 	}
 }
 
+// Maximum number of templates included by each other
+const maxTemplateDepth = 1000
+
+var errTemplateDepth = fmt.Errorf("exceeded maximum template depth (%d)", maxTemplateDepth)
+
 func (t *Template) runTemplate(source string, args ...interface{}) (result, filename string, err error) {
-	return optimizedRunTemplate(t, false, source, args...)
+	return optimizedRunTemplate(t, t.cloning, source, args...)
 }
 
 func optimizedRunTemplate(t *Template, withClone bool, source string, args ...interface{}) (result, filename string, err error) {
 	if source == "" {
 		return
 	}
+	if t.depth >= maxTemplateDepth {
+		err = errTemplateDepth
+		return
+	}
+	t.depth++
+	defer func() { t.depth-- }()
+
 	var out bytes.Buffer
 
 	parentContext := t.context
 	defer func() { t.context = parentContext }()
 	var context collections.IDictionary
 	if withClone {
-		context = t.Context().Clone()
+		// The reference to the parent context is replaced below, so there is no need to clone all the parents
+		context = collections.CreateDictionary()
+		for k, v := range t.Context().AsMap() {
+			if k != "_" {
+				context.Set(k, v)
+			}
+		}
+		context = context.Clone()
 	} else {
 		context = collections.CreateDictionary()
 		for _, k := range t.constantKeys {
@@ -496,6 +515,11 @@ func optimizedRunTemplate(t *Template, withClone bool, source string, args ...in
 	}
 
 	if withClone {
+		// The templates included by this one are directly executed with a clone of the context, otherwise,
+		// the number of executions would double at each level
+		defer func(cloning bool) { t.cloning = cloning }(t.cloning)
+		t.cloning = true
+
 		// Ignore missing keys
 		internalTemplate.Option("missingkey=default")
 	} else {
@@ -507,7 +531,7 @@ func optimizedRunTemplate(t *Template, withClone bool, source string, args ...in
 
 	// We execute the resulting template
 	if err = internalTemplate.Execute(&out, context); err != nil {
-		if !withClone {
+		if !withClone && !errors.Is(err, errTemplateDepth) {
 			InternalLog.Debug("Running template with context cloning because:", err)
 			t.context = parentContext
 			return optimizedRunTemplate(t, true, source, args...)
diff --git a/template/template.go b/template/template.go
index ab490df..a6d3fa3 100644
--- a/template/template.go
+++ b/template/template.go
@@ -36,6 +36,8 @@ type Template struct {
 	options          OptionsSet
 	optionsEnabled   OptionsSet
 	ignoredRazorExpr []string
+	depth            int  // Number of templates currently included by each other
+	cloning          bool // Indicates that included templates must be executed with a clone of the context
 }
 
 // Environment variables that could be defined to override default behaviors.
-- 
2.43.0


From 9677e4883b0785fb23e9ff4ea028916a5933d2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:49 +0000
Subject: [PATCH 32/65] fix: render with a context which is not a dictionary

---
 template/template_handler.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/template/template_handler.go b/template/template_handler.go
index a67062c..679f942 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -250,7 +250,12 @@ func (t *Template) processContentInternal(originalContent, source string, origin
 	var out bytes.Buffer
 	workingContext := t.context
 	if cloneContext {
-		workingContext = collections.AsDictionary(workingContext).Clone()
+		// The context is not necessarily a dictionary
+		if dict, err := collections.TryAsDictionary(workingContext); err == nil {
+			workingContext = dict.Clone()
+		} else if list, err := collections.TryAsList(workingContext); err == nil {
+			workingContext = list.Clone()
+		}
 	}
 	if err = newTemplate.Execute(&out, workingContext); err != nil {
 		InternalLog.Debugf("%s(%d): Execution error %v", th.Filename, th.Try, err)
-- 
2.43.0


From 7916d0ec1d8803bc425a8461a1421426990b1598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:53 +0000
Subject: [PATCH 33/65] fix: lower the cost of deeply included templates

---
 template/extra_runtime.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index ef0029e..f517e16 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -430,7 +430,7 @@ func (t *Template) exec(command string, args ...interface{}) (interface{}, error
 }
 
 // Maximum number of templates included by each other
-const maxTemplateDepth = 1000
+const maxTemplateDepth = 250
 
 var errTemplateDepth = fmt.Errorf("exceeded maximum template depth (%d)", maxTemplateDepth)
 
@@ -469,7 +469,11 @@ func optimizedRunTemplate(t *Template, withClone bool, source string, args ...in
 			context.Set(k, t.Context().Get(k))
 		}
 	}
-	context.Set("_", parentContext)
+	if parent, err := collections.TryAsDictionary(parentContext); err == nil {
+		context.AsMap()["_"] = parent // No need to convert all the parents again
+	} else {
+		context.Set("_", parentContext)
+	}
 	t.context = context
 
 	switch len(args) {
-- 
2.43.0


From 41ec9da7b00f4f301d476b9daac17cc67ebcc7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:11 +0000
Subject: [PATCH 34/65] fix: nil pointers are not dereferenced by the
 conversions to dictionary or list

---
 collections/implementation/base_helper.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/collections/implementation/base_helper.go b/collections/implementation/base_helper.go
index c75e00f..9383d1f 100644
--- a/collections/implementation/base_helper.go
+++ b/collections/implementation/base_helper.go
@@ -104,8 +104,8 @@ func (bh BaseHelper) TryAsDictionaryStrict(object interface{}) (baseIDict, error
 }
 
 func (bh BaseHelper) tryAsDictionary(object interface{}, strict bool) (baseIDict, error) {
-	if object != nil && reflect.TypeOf(object).Kind() == reflect.Ptr {
-		object = reflect.ValueOf(object).Elem().Interface()
+	if value := reflect.ValueOf(object); value.Kind() == reflect.Ptr && !value.IsNil() {
+		object = value.Elem().Interface()
 	}
 
 	var result baseIDict
@@ -163,8 +163,8 @@ func (bh BaseHelper) tryAsDictionary(object interface{}, strict bool) (baseIDict
 // - baseIList: The converted list.
 // - error: An error if the object cannot be converted to a baseIList.
 func (bh BaseHelper) TryAsList(object interface{}) (baseIList, error) {
-	if object != nil && reflect.TypeOf(object).Kind() == reflect.Ptr {
-		object = reflect.ValueOf(object).Elem().Interface()
+	if value := reflect.ValueOf(object); value.Kind() == reflect.Ptr && !value.IsNil() {
+		object = value.Elem().Interface()
 	}
 
 	var result baseIList
-- 
2.43.0


From 893874e5048e188170bce6476a3c0a168bb5d96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:34 +0000
Subject: [PATCH 35/65] fix: split of an empty text with an empty separator

---
 collections/string_util.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collections/string_util.go b/collections/string_util.go
index 0c75575..29a8507 100644
--- a/collections/string_util.go
+++ b/collections/string_util.go
@@ -111,7 +111,9 @@ func JoinLines(objects ...interface{}) string {
 // Split2 returns left and right part of a split.
 func Split2(source, sep string) (left, right string) {
 	split := strings.SplitN(source, sep, 2)
-	left = split[0]
+	if len(split) > 0 {
+		left = split[0]
+	}
 	if len(split) > 1 {
 		right = split[1]
 	}
-- 
2.43.0


From ed1eca5db7160e1d897cc8331878fc46a4451c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:41 +0000
Subject: [PATCH 36/65] fix: errors on a line containing the internal error
 mark are reported

---
 template/template_error_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/template_error_handler.go b/template/template_error_handler.go
index d1ba206..2991749 100644
--- a/template/template_error_handler.go
+++ b/template/template_error_handler.go
@@ -170,7 +170,7 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 			logMessage = fmt.Sprintf("Parsing error: %s", err)
 			lines[faultyLine] = fmt.Sprintf("ERROR %s", errText)
 		}
-		if currentLine.Contains(runError) || strings.Contains(code, undefError) {
+		if t.Try > 0 && (currentLine.Contains(runError) || strings.Contains(code, undefError)) {
 			// The erroneous line has already been replaced, we do not report the error again
 			err, errorText = nil, ""
 			InternalLog.Debugf("Ignored error %s", logMessage)
-- 
2.43.0


From a1fe5be2cb779b1fa2f74489129d490ed66cbb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:47 +0000
Subject: [PATCH 37/65] fix: only template files are strict because of their
 extension

---
 template/template_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/template_handler.go b/template/template_handler.go
index 679f942..75e7854 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -221,7 +221,7 @@ func (t *Template) processContentInternal(originalContent, source string, origin
 				strictMode := t.options[StrictErrorCheck]
 				strictMode = strictMode || strings.Contains(th.Source, explicitGoTemplate)
 				extension := filepath.Ext(th.Filename)
-				strictMode = strictMode || (extension != "" && strings.Contains(".gt,.gte,.template", extension))
+				strictMode = strictMode || extension == ".gt" || extension == ".gte" || extension == ".template"
 				if !(strictMode) {
 					InternalLog.Errorf("Ignored gotemplate error in %s (file left unchanged):\n%s", color.CyanString(th.Filename), err.Error())
 					result, err = th.Source, nil
-- 
2.43.0


From 0d26b028edca7553f4c6f9c2f53a3817169f37fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:05 +0000
Subject: [PATCH 38/65] fix: code supplied instead of a filename is processed
 in strict mode

---
 template/template_handler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/template/template_handler.go b/template/template_handler.go
index 75e7854..06b0e75 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -222,6 +222,7 @@ func (t *Template) processContentInternal(originalContent, source string, origin
 				strictMode = strictMode || strings.Contains(th.Source, explicitGoTemplate)
 				extension := filepath.Ext(th.Filename)
 				strictMode = strictMode || extension == ".gt" || extension == ".gte" || extension == ".template"
+				strictMode = strictMode || th.Filename == "." // The content has been supplied instead of a filename
 				if !(strictMode) {
 					InternalLog.Errorf("Ignored gotemplate error in %s (file left unchanged):\n%s", color.CyanString(th.Filename), err.Error())
 					result, err = th.Source, nil
-- 
2.43.0


From 2bec6d21209fd285b17b8544821bfd8ca4ce7e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:28 +0000
Subject: [PATCH 39/65] fix: a file that cannot be written does not stop the
 processing of the others

---
 template/template_handler.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/template/template_handler.go b/template/template_handler.go
index 06b0e75..1ca75e9 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -108,14 +108,22 @@ func (t *Template) processTemplate(template, sourceFolder, targetFolder string,
 		return
 	}
 
-	mode := must(os.Stat(template)).(os.FileInfo).Mode()
+	stat, err := os.Stat(template)
+	if err != nil {
+		return "", err
+	}
+	mode := stat.Mode()
 
 	if sourceFolder != targetFolder {
-		must(os.MkdirAll(filepath.Dir(resultFile), 0777))
+		if err = os.MkdirAll(filepath.Dir(resultFile), 0777); err != nil {
+			return
+		}
 	} else if !isTemplate && !t.options[Overwrite] {
 		newName := template + ".original"
 		InternalLog.Infof("%s => %s", utils.Relative(t.folder, template), utils.Relative(t.folder, newName))
-		must(os.Rename(template, template+".original"))
+		if err = os.Rename(template, newName); err != nil {
+			return
+		}
 	}
 	InternalLog.Infoln("Writing file", utils.Relative(t.folder, resultFile))
 
-- 
2.43.0


From c5e21e6098890a929d44725accc0348bfe1b6c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:33 +0000
Subject: [PATCH 40/65] fix: template files without template code are rendered
 in the source folder

---
 template/template_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/template_handler.go b/template/template_handler.go
index 1ca75e9..80e6f20 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -103,7 +103,7 @@ func (t *Template) processTemplate(template, sourceFolder, targetFolder string,
 		return
 	}
 
-	if sourceFolder == targetFolder && !changed {
+	if sourceFolder == targetFolder && !changed && !isTemplate {
 		resultFile = ""
 		return
 	}
-- 
2.43.0


From d8a8cd8e1e477c2a5476f113f223273d210f196a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:38 +0000
Subject: [PATCH 41/65] fix: content calling gotemplate as interpreter sends
 only its own result to stdout

---
 template/template_handler.go | 3 +++
 template/template_process.go | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/template/template_handler.go b/template/template_handler.go
index 80e6f20..2d25e7b 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -41,6 +41,9 @@ func (t *Template) ProcessTemplatesWithHandler(sourceFolder, targetFolder string
 }
 
 func (t *Template) processTemplate(template, sourceFolder, targetFolder string, handler CustomHandler) (resultFile string, err error) {
+	// A content calling gotemplate as interpreter alters this option for itself only
+	defer func(print bool) { t.options[OutputStdout] = print }(t.options[OutputStdout])
+
 	isCode := t.IsCode(template)
 	var content string
 
diff --git a/template/template_process.go b/template/template_process.go
index 3f60442..5de74a9 100644
--- a/template/template_process.go
+++ b/template/template_process.go
@@ -36,6 +36,8 @@ const (
 
 // ProcessContent loads and runs the file template.
 func (t *Template) ProcessContent(content, source string) (result string, err error) {
+	// A content calling gotemplate as interpreter alters this option for itself only
+	defer func(print bool) { t.options[OutputStdout] = print }(t.options[OutputStdout])
 	result, _, err = t.processContentInternal(content, source, nil, 0, true, nil)
 	return
 }
-- 
2.43.0


From ee81f58e7dace40f95b8d0a54efe76d5bf9166a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:43 +0000
Subject: [PATCH 42/65] fix: terraform files can be sent to stdout

---
 template/template_process.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/template/template_process.go b/template/template_process.go
index 5de74a9..983a75a 100644
--- a/template/template_process.go
+++ b/template/template_process.go
@@ -55,7 +55,11 @@ func (t *Template) ProcessTemplates(sourceFolder, targetFolder string, templates
 func (t *Template) printResult(source, target, result string, changed bool) (err error) {
 	if utils.IsTerraformFile(target) {
 		base := filepath.Base(target)
-		tempFolder := must(os.CreateTemp(t.tempFolder, base)).(string)
+		var tempFolder string
+		if tempFolder, err = os.MkdirTemp(t.tempFolder, base); err != nil {
+			return
+		}
+		defer os.RemoveAll(tempFolder)
 		tempFile := filepath.Join(tempFolder, base)
 		err = os.WriteFile(tempFile, []byte(result), 0644)
 		if err != nil {
-- 
2.43.0


From 9e44827cda2233021f40265113be151fec87b0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:54 +0000
Subject: [PATCH 43/65] fix: search of files follows loops of links once and
 gives each file once

---
 utils/io.go | 94 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 59 insertions(+), 35 deletions(-)

diff --git a/utils/io.go b/utils/io.go
index 8727828..11291c8 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -22,72 +22,96 @@ func FindFiles(folder string, recursive, followLinks bool, patterns ...string) (
 
 // FindFilesMaxDepth returns the list of the files matching the array of patterns
 func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns ...string) ([]string, error) {
-	visited := map[string]bool{}
-	var walker func(folder string) ([]string, error)
-	walker = func(folder string) ([]string, error) {
-		results := must(findFiles(folder, patterns...)).([]string)
-		folder, _ = filepath.Abs(folder)
-		if maxDepth == 0 {
-			return results, nil
+	visited := map[string]int{} // The depth at which each actual folder has been visited
+	var results []string
+	var walker func(folder string, baseDepth int) error
+	visit := func(folder string, depth int) error {
+		actual, err := filepath.EvalSymlinks(folder)
+		if err != nil {
+			return filepath.SkipDir
+		}
+		if actual, err = filepath.Abs(actual); err != nil {
+			return err
+		}
+		previousDepth, found := visited[actual]
+		if found && previousDepth <= depth {
+			// We already visited that folder
+			return filepath.SkipDir
+		}
+		visited[actual] = depth
+		if found {
+			// We only have to go deeper this time
+			return nil
 		}
+		files, err := findFiles(folder, patterns...)
+		results = append(results, files...)
+		return err
+	}
+	walker = func(folder string, baseDepth int) error {
+		if maxDepth == 0 || baseDepth > maxDepth {
+			return nil
+		}
+		folder, _ = filepath.Abs(folder)
 
-		filepath.Walk(folder, func(path string, info os.FileInfo, err error) error {
-			if info == nil || path == folder {
+		// The separator is required to get into the folder if it is itself a symbolic link
+		return filepath.Walk(folder+string(filepath.Separator), func(path string, info os.FileInfo, err error) error {
+			if path = filepath.Clean(path); info == nil || path == folder && baseDepth == 0 {
 				return nil
 			}
+			depth := baseDepth + strings.Count(must(filepath.Rel(path, folder)).(string), "..")
 			if info.IsDir() {
-				visited[path] = true
-				depth := strings.Count(must(filepath.Rel(path, folder)).(string), "..")
 				if depth > maxDepth {
 					return filepath.SkipDir
 				}
-				files, err := findFiles(path, patterns...)
-				if err != nil {
-					return err
-				}
-				results = append(results, files...)
-				return nil
+				return visit(path, depth)
 			}
 
 			if info.Mode()&os.ModeSymlink != 0 && followLinks {
-				link, err := os.Readlink(path)
+				link, err := filepath.EvalSymlinks(path)
 				if err != nil {
-					return err
-				}
-
-				if !filepath.IsAbs(link) {
-					link = filepath.Join(filepath.Dir(path), link)
+					return nil
 				}
-				link, _ = filepath.Abs(link)
-				if !visited[link] {
-					// Check if we already visited that link to avoid recursive loop
-					linkFiles, err := walker(link)
-					if err != nil {
-						return err
-					}
-					results = append(results, linkFiles...)
+				if stat, err := os.Stat(link); err == nil && stat.IsDir() {
+					return walker(link, depth)
 				}
 			}
 			return nil
 		})
-		return results, nil
 	}
-	return walker(folder)
+	if err := visit(folder, 0); err != nil && err != filepath.SkipDir {
+		return nil, err
+	}
+	return results, walker(folder, 0)
 }
 
 // FindFiles returns the list of files in the specified folder that match one of the supplied patterns
 func findFiles(folder string, patterns ...string) ([]string, error) {
 	var matches []string
+	found := map[string]bool{}
 	for _, pattern := range patterns {
-		files, err := filepath.Glob(filepath.Join(folder, pattern))
+		files, err := filepath.Glob(filepath.Join(escapeGlob(folder), pattern))
 		if err != nil {
 			return nil, err
 		}
-		matches = append(matches, files...)
+		for _, file := range files {
+			if stat, err := os.Stat(file); found[file] || err == nil && stat.IsDir() {
+				continue
+			}
+			found[file] = true
+			matches = append(matches, file)
+		}
 	}
 	return matches, nil
 }
 
+// escapeGlob escapes the characters of a path that have a meaning in a glob pattern
+func escapeGlob(path string) string {
+	if filepath.Separator == '\\' {
+		return path // There is no escape character
+	}
+	return strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`).Replace(path)
+}
+
 // MustFindFiles returns the list of the files matching the array of patterns with panic on error
 func MustFindFiles(folder string, recursive, followLinks bool, patterns ...string) []string {
 	return must(FindFiles(folder, recursive, followLinks, patterns...)).([]string)
-- 
2.43.0


From 7e8d9c84aa618a1e2cce9595e8f9403e8bb230de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:19 +0000
Subject: [PATCH 44/65] fix: exclusion patterns are not altered by the name of
 the current folder

---
 utilities.go | 7 ++++---
 utils/io.go  | 8 ++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/utilities.go b/utilities.go
index 722d131..651d7d9 100644
--- a/utilities.go
+++ b/utilities.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/bmatcuk/doublestar/v4"
 	"github.com/coveooss/gotemplate/v3/template"
+	"github.com/coveooss/gotemplate/v3/utils"
 	"github.com/coveooss/multilogger/errors"
 	goerrors "github.com/go-errors/errors"
 )
@@ -55,9 +56,9 @@ func exclude(files []string, patterns []string) (result []string, err error) {
 		}
 		var excluded bool
 		for _, pattern := range patterns {
-			pattern, err = filepath.Abs(pattern)
-			if err != nil {
-				return
+			if !filepath.IsAbs(pattern) {
+				// The current folder is not a part of the pattern
+				pattern = filepath.Join(utils.EscapeGlob(utils.Pwd()), pattern)
 			}
 			if excluded, err = doublestar.PathMatch(pattern, file); err != nil {
 				return
diff --git a/utils/io.go b/utils/io.go
index 11291c8..76139f7 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -89,7 +89,7 @@ func findFiles(folder string, patterns ...string) ([]string, error) {
 	var matches []string
 	found := map[string]bool{}
 	for _, pattern := range patterns {
-		files, err := filepath.Glob(filepath.Join(escapeGlob(folder), pattern))
+		files, err := filepath.Glob(filepath.Join(EscapeGlob(folder), pattern))
 		if err != nil {
 			return nil, err
 		}
@@ -104,12 +104,12 @@ func findFiles(folder string, patterns ...string) ([]string, error) {
 	return matches, nil
 }
 
-// escapeGlob escapes the characters of a path that have a meaning in a glob pattern
-func escapeGlob(path string) string {
+// EscapeGlob escapes the characters of a path that have a meaning in a glob pattern
+func EscapeGlob(path string) string {
 	if filepath.Separator == '\\' {
 		return path // There is no escape character
 	}
-	return strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`).Replace(path)
+	return strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`, `{`, `\{`).Replace(path)
 }
 
 // MustFindFiles returns the list of the files matching the array of patterns with panic on error
-- 
2.43.0


From d1a5043f55432fa3dc57a085afb88c18126aa4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:33 +0000
Subject: [PATCH 45/65] fix: unnamed variables are collected as arguments

---
 context.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/context.go b/context.go
index 20c0620..af7b4dc 100644
--- a/context.go
+++ b/context.go
@@ -86,14 +86,14 @@ func createContext(varsFiles, varsFilesIfExist, namedVars []string, mode string,
 					content = nv.value
 				}
 
-				if nv.name == "" && isFileErr {
+				if nv.unnamed {
+					unnamed = append(unnamed, content)
+					return nil, nil
+				} else if nv.name == "" {
 					if !nv.required {
 						loadErr = nil
 					}
 					return nil, loadErr
-				} else if nv.name == "" {
-					unnamed = append(unnamed, content)
-					return nil, nil
 				}
 
 				// If it does not work, we just set the value as is
@@ -152,6 +152,9 @@ func createContext(varsFiles, varsFilesIfExist, namedVars []string, mode string,
 	}
 
 	if len(unnamed) > 0 {
+		if context == nil {
+			context = collections.CreateDictionary()
+		}
 		context.Set("ARGS", unnamed)
 	}
 	return context, nil
-- 
2.43.0


From af6b71dbaa621f4d911a44d6d1d6f24a3d777fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:37 +0000
Subject: [PATCH 46/65] fix: values of options beginning with @ are not altered

---
 main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 67cda35..6b58b6e 100644
--- a/main.go
+++ b/main.go
@@ -133,8 +133,13 @@ func runGotemplate() (exitCode int) {
 	}
 
 	// We restore back the modified arguments
-	for i := range *templates {
-		(*templates)[i] = strings.TrimPrefix((*templates)[i], "#!!")
+	for _, list := range []*[]string{templates, varFiles, varFilesIfExist, namedVars, includePatterns, excludedPatterns, substitutes, ignoreRazor, listFilters} {
+		for i := range *list {
+			(*list)[i] = strings.TrimPrefix((*list)[i], "#!!")
+		}
+	}
+	for _, value := range []*string{delimiters, sourceFolder, targetFolder, logFilePath} {
+		*value = strings.TrimPrefix(*value, "#!!")
 	}
 
 	// Build the optionsSet
-- 
2.43.0


From 08d6cceb608c7dceb32eda36e6641dcf07258acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:42 +0000
Subject: [PATCH 47/65] fix: text without template code given on the standard
 input is not a filename

---
 main.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 6b58b6e..0f9436c 100644
--- a/main.go
+++ b/main.go
@@ -301,8 +301,14 @@ func runGotemplate() (exitCode int) {
 		exitCode = 1
 	}
 
+	var plainText string
 	if *forceStdin && stdinContent == "" {
-		*templates = append(*templates, readStdin())
+		if content := readStdin(); t.IsCode(content) {
+			*templates = append(*templates, content)
+		} else {
+			// There is nothing to evaluate, but this is not a filename
+			plainText = content
+		}
 	}
 
 	resultFiles, err := t.ProcessTemplates(*sourceFolder, *targetFolder, *templates...)
@@ -311,6 +317,14 @@ func runGotemplate() (exitCode int) {
 		exitCode = 1
 	}
 
+	if plainText != "" {
+		result := must(t.ProcessContent(plainText, ".")).(string)
+		if !strings.HasSuffix(result, "\n") {
+			result += "\n"
+		}
+		template.Print(result)
+	}
+
 	// Apply terraform fmt if some generated files are terraform files
 	if !*printOutput {
 		utils.TerraformFormat(resultFiles...)
-- 
2.43.0


From 0964bc6265728ba4ab13128e99290a3f23fd155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:10 +0000
Subject: [PATCH 48/65] fix: delete form of substitutions applies to whole
 expressions and to the last line

---
 utils/substitute.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/utils/substitute.go b/utils/substitute.go
index 40ff6b3..309c342 100644
--- a/utils/substitute.go
+++ b/utils/substitute.go
@@ -3,6 +3,7 @@ package utils
 import (
 	"regexp"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/coveooss/multilogger/errors"
 )
@@ -21,7 +22,8 @@ func InitReplacers(replacers ...string) []RegexReplacer {
 		if replacers[i] == "" {
 			errors.Raise("Bad replacer %s", replacers[i])
 		}
-		expression := strings.Split(replacers[i], string(replacers[i][0]))
+		_, separatorLen := utf8.DecodeRuneInString(replacers[i])
+		expression := strings.Split(replacers[i], replacers[i][:separatorLen])
 		if len(expression) != 3 || expression[1] == "" {
 			errors.Raise("Bad replacer %s", replacers[i])
 		}
@@ -29,14 +31,10 @@ func InitReplacers(replacers ...string) []RegexReplacer {
 		if expression[2] == "d" {
 			// If the replace expression is a single d (as in delete), we replace the
 			// expression by nothing
-			if strings.HasSuffix(expression[1], "$") {
-				// If we really want to delete lines, we must add \n explicitly
-				expression[1] += `\n`
-				if !strings.HasPrefix(expression[1], "(?m)") {
-					// If the search expression doesn't enable multi line
-					// we enable it
-					expression[1] = "(?m)" + expression[1]
-				}
+			if base := strings.TrimSuffix(expression[1], "$"); base != expression[1] && !isEscaped(base) {
+				// If we really want to delete lines, we must add the end of line explicitly (the last
+				// line may have none) and enable multi line
+				expression[1] = `(?m)(?:` + expression[1] + `)(?:\n|\z)`
 			}
 			expression[2] = ""
 		}
@@ -47,6 +45,11 @@ func InitReplacers(replacers ...string) []RegexReplacer {
 	return result
 }
 
+// isEscaped returns true if the character following the expression is escaped
+func isEscaped(expression string) bool {
+	return (len(expression)-len(strings.TrimRight(expression, `\`)))%2 == 1
+}
+
 // Substitute actually applies the configured substituter
 func Substitute(content string, replacers ...RegexReplacer) string {
 	for i := range replacers {
-- 
2.43.0


From 33e0cc41e3acd68b2eb81842f7604081a37a4ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:58 +0000
Subject: [PATCH 49/65] fix: templates included by others have access to the
 user context

---
 template/extra_runtime.go | 33 ++++++++++++++++++---------------
 template/template.go      |  2 +-
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index f517e16..b128079 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -435,7 +435,16 @@ const maxTemplateDepth = 250
 var errTemplateDepth = fmt.Errorf("exceeded maximum template depth (%d)", maxTemplateDepth)
 
 func (t *Template) runTemplate(source string, args ...interface{}) (result, filename string, err error) {
-	return optimizedRunTemplate(t, t.cloning, source, args...)
+	// The templates included by one executed with a clone of the context are directly executed with a clone,
+	// otherwise, the number of executions would double at each level
+	return optimizedRunTemplate(t, t.depth > 0 && !t.limited, source, args...)
+}
+
+func missingKeyOption(limited bool) string {
+	if limited {
+		return "missingkey=error"
+	}
+	return "missingkey=default"
 }
 
 func optimizedRunTemplate(t *Template, withClone bool, source string, args ...interface{}) (result, filename string, err error) {
@@ -518,24 +527,18 @@ func optimizedRunTemplate(t *Template, withClone bool, source string, args ...in
 		internalTemplate = inline
 	}
 
-	if withClone {
-		// The templates included by this one are directly executed with a clone of the context, otherwise,
-		// the number of executions would double at each level
-		defer func(cloning bool) { t.cloning = cloning }(t.cloning)
-		t.cloning = true
+	// The option applies to all templates, so it must be reset as it was for the template that includes this one
+	defer func(limited bool) { t.limited = limited; internalTemplate.Option(missingKeyOption(limited)) }(t.limited)
+	t.limited = !withClone
 
-		// Ignore missing keys
-		internalTemplate.Option("missingkey=default")
-	} else {
-		// Return error on missing keys in order to retry but with context cloning
-		// and ensure that we restore the original behavior on error handling
-		defer func() { internalTemplate.Option("missingkey=default") }()
-		internalTemplate.Option("missingkey=error")
-	}
+	// If the context is not cloned, we return an error on missing keys in order to retry but with context cloning
+	internalTemplate.Option(missingKeyOption(t.limited))
 
 	// We execute the resulting template
 	if err = internalTemplate.Execute(&out, context); err != nil {
-		if !withClone && !errors.Is(err, errTemplateDepth) {
+		// If this template is itself included by a template that only knows the constants, cloning its context would
+		// not give access to the user context, so we let the first template included be executed again.
+		if !withClone && t.depth == 1 && !errors.Is(err, errTemplateDepth) {
 			InternalLog.Debug("Running template with context cloning because:", err)
 			t.context = parentContext
 			return optimizedRunTemplate(t, true, source, args...)
diff --git a/template/template.go b/template/template.go
index a6d3fa3..68b9ee9 100644
--- a/template/template.go
+++ b/template/template.go
@@ -37,7 +37,7 @@ type Template struct {
 	optionsEnabled   OptionsSet
 	ignoredRazorExpr []string
 	depth            int  // Number of templates currently included by each other
-	cloning          bool // Indicates that included templates must be executed with a clone of the context
+	limited          bool // Indicates that the template currently included only knows the constants
 }
 
 // Environment variables that could be defined to override default behaviors.
-- 
2.43.0


From e0f81a84d75706ab21a36660c22a34a4124a53cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:38 +0000
Subject: [PATCH 50/65] fix: text without data given as single argument of a
 function is not lost

---
 template/extra_runtime.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index b128079..d079129 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -322,7 +322,11 @@ func (t *Template) addAlias(name, function string, source interface{}, local, co
 				case string:
 					var out interface{}
 					if collections.ConvertData(arg, &out) == nil {
-						args[0] = out
+						// Texts without any data (blank, comment...) are converted to an empty dictionary
+						dict, err := collections.TryAsDictionary(out)
+						if err != nil || dict.Len() > 0 || strings.HasPrefix(strings.TrimSpace(arg), "{") {
+							args[0] = out
+						}
 					}
 				}
 
-- 
2.43.0


From a5a61c855530b0bd719232854b4da206cf5476c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:31 +0000
Subject: [PATCH 51/65] fix: pluck, pickv and char give the requested elements

---
 template/extra_data.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/template/extra_data.go b/template/extra_data.go
index df47fb3..b88c048 100644
--- a/template/extra_data.go
+++ b/template/extra_data.go
@@ -280,7 +280,7 @@ func (t *Template) addDataFuncs() {
 func toChar(value interface{}) (r interface{}, err error) {
 	defer func() { err = trapError(err, recover()) }()
 	return process(value, func(a interface{}) interface{} {
-		return string(byte(toInt(a)))
+		return string(rune(toInt(a)))
 	})
 }
 
@@ -524,7 +524,7 @@ func pickv(dict iDictionary, message string, key interface{}, otherKeys ...inter
 		}
 		return nil, errors.New(message)
 	}
-	return pick(dict, append(otherKeys, key)), nil
+	return pick(dict, append([]interface{}{key}, otherKeys...)...), nil
 }
 
 func keys(dict iDictionary) iList   { return dict.GetKeys() }
@@ -546,7 +546,7 @@ func pluck(key interface{}, dicts ...iDictionary) iList {
 	result := collections.CreateList(0, len(dicts))
 	for i := range dicts {
 		if dicts[i].Has(key) {
-			result.Append(dicts[i].Get(key))
+			result = result.Append(dicts[i].Get(key))
 		}
 	}
 	return result
-- 
2.43.0


From 7cfb54e8a2dbb8464ca9f6a4dd9f5129e2350f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:01 +0000
Subject: [PATCH 52/65] fix: id accepts any replacement text

---
 template/extra_utils.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/template/extra_utils.go b/template/extra_utils.go
index cb20a9c..c1c79e9 100644
--- a/template/extra_utils.go
+++ b/template/extra_utils.go
@@ -185,15 +185,14 @@ func id(id string, replace ...interface{}) string {
 	if replacement != "_" {
 		// If the replacement string is not the default one, we generate a special substituter to remove duplicates
 		// taking into account regex special chars such as +, ?, etc.
-		dup = regexp.MustCompile(fmt.Sprintf(`(?:%s)+`, regexSpecial.ReplaceAllString(replacement, `\$0`)))
+		dup = regexp.MustCompile(fmt.Sprintf(`(?:%s)+`, regexp.QuoteMeta(replacement)))
 	}
 
-	return dup.ReplaceAllString(validChars.ReplaceAllString(id, replacement), replacement)
+	return dup.ReplaceAllLiteralString(validChars.ReplaceAllLiteralString(id, replacement), replacement)
 }
 
 var validChars = regexp.MustCompile(`[^\p{L}\d_]`)
 var duplicateUnderscore = regexp.MustCompile(`_+`)
-var regexSpecial = regexp.MustCompile(`[\+\.\?\(\)\[\]\{\}\\]`)
 
 func repeat(n int, a interface{}) (result collections.IGenericList, err error) {
 	if n < 0 {
-- 
2.43.0


From 398bb5e28332a3cc642cc23d72bcf16a7f258a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:25 +0000
Subject: [PATCH 53/65] fix: auto indent and auto wrap accept any text on their
 line

---
 template/razor.go               |  2 +-
 template/razor_repl_autowrap.go | 10 ++++++++--
 template/razor_repl_expr.go     |  1 +
 template/razor_repl_literal.go  | 15 +++++++++++++++
 4 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/template/razor.go b/template/razor.go
index 664bc95..d280cdd 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -94,7 +94,7 @@ var expressions = [][]interface{}{
 	{"Protect email", `(\W|^)[\w.!#$%&'*+/=?^_{|}~-]+@[\w-]{1,61}(?:\.[\w-]{1,61})+`, "", replacementFunc(protectEmail)},
 	{"", `\${`, literalReplacement},
 	{"", `@@`, literalAt},
-	{"Auto indent", `(?m)^(?P<before>.*)@reduce;(?:autoIndent|aindent|aIndent)\(`, "@<-spaceIndent(`${before}`, "},
+	{"Auto indent", `(?m)^(?P<before>.*)@reduce;(?:autoIndent|aindent|aIndent)\(`, "", replacementFunc(autoIndent)},
 	{"Auto wrap", `(?m)^(?P<before>.*)@(?P<nl><)?reduce;(?P<func>autoWrap|awrap|aWrap)(?P<context>\(.*)$`, "", replacementFunc(autoWrap)},
 	{"Protect strings in expressions", `(?m)@.*$`, "", replacementFunc(protectStrings)},
 	{"", `@{{`, literalStart},
diff --git a/template/razor_repl_autowrap.go b/template/razor_repl_autowrap.go
index b19d57d..9f9de2e 100644
--- a/template/razor_repl_autowrap.go
+++ b/template/razor_repl_autowrap.go
@@ -23,8 +23,14 @@ func autoWrap(repl replacement, match string) string {
 		matches["reduce"],
 		iif(matches["nl"] != "", "\\n", ""),
 		// The text around is literal in the format given to formatList
-		before.Replace("%", "%%").Escape(),
-		after.RestoreProtected(strings).Replace("%", "%%").Escape(),
+		repl.quoted(before).Replace("%", "%%"),
+		repl.quoted(after.RestoreProtected(strings)).Replace("%", "%%"),
 		args.RestoreProtected(strings)[1:],
 	)
 }
+
+func autoIndent(repl replacement, match string) string {
+	matches, _ := reutils.MultiMatch(match, repl.re)
+	// The text before may contain any character
+	return fmt.Sprintf("%s<-spaceIndent(\"%s\", ", repl.delimiters[2], repl.quoted(String(matches["before"])))
+}
diff --git a/template/razor_repl_expr.go b/template/razor_repl_expr.go
index 482275b..79036fb 100644
--- a/template/razor_repl_expr.go
+++ b/template/razor_repl_expr.go
@@ -13,6 +13,7 @@ import (
 
 const (
 	protectString          = "\ue000LONG_STRING="
+	literalDelim           = "\ue000"
 	literalAt              = "\ue000!AT!\ue000" // Private characters are used to ensure that the replacement is not considered as a part of the preceding expression
 	literalTripleBackticks = "\ue000!TRIPLE_BT!\ue000"
 	literalReplacement     = "\ue000!REPL!\ue000"
diff --git a/template/razor_repl_literal.go b/template/razor_repl_literal.go
index 3f8f0a5..e57974f 100644
--- a/template/razor_repl_literal.go
+++ b/template/razor_repl_literal.go
@@ -34,6 +34,20 @@ func restoreStrings(repl replacement, match string) string {
 	return (*repl.longStrings)[index]
 }
 
+// quoted gives the text of the document as the content of a quoted string.
+func (r replacement) quoted(s String) String {
+	// A multiline string could have been protected
+	s = String(protectedString.ReplaceAllStringFunc(s.Str(), func(match string) string {
+		return restoreStrings(replacement{re: protectedString, longStrings: r.longStrings}, match)
+	}))
+	// The delimiters of the literals must stay to let them be restored
+	parts := strings.Split(s.Str(), literalDelim)
+	for i := range parts {
+		parts[i] = String(parts[i]).Escape().Str()
+	}
+	return String(strings.Join(parts, literalDelim))
+}
+
 func protectEmail(repl replacement, match string) string {
 	delim := repl.delimiters[2]
 	if strings.HasPrefix(match, delim) || match[0] == '#' {
@@ -87,6 +101,7 @@ const stringExpression = "\"(?:[^\"\\\\]|\\\\.)*\"|`[^`]*`"
 
 var (
 	expressionStart       = regexp.MustCompile(`^[-_]*(?:[\p{L}\d_.]*|(?:if|else[[:blank:]]+if|with|range|for(?:[[:blank:]]*each)?|block|define)[[:blank:]]+)\(`)
+	protectedString       = regexp.MustCompile("`" + protectString + `(\d+)` + "`")
 	quotedStrings         = regexp.MustCompile(stringExpression)
 	stringsAndParentheses = regexp.MustCompile(stringExpression + `|[()]`)
 )
-- 
2.43.0


From a1638d122656121df9c210ff1c18f7906b1b3f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:08 +0000
Subject: [PATCH 54/65] fix: all is always the sprig function all

---
 template/extra_sprig.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/extra_sprig.go b/template/extra_sprig.go
index 4b21926..ce6bcc8 100644
--- a/template/extra_sprig.go
+++ b/template/extra_sprig.go
@@ -224,7 +224,7 @@ var sprigFuncRef = map[string]struct {
 	"valuesSprig":    {group: sprigDict, description: "Is similar to 'keys', except it returns a new 'list' with all the values of the source 'dict' (only one dictionary is supported).", aliases: []string{"values"}},
 
 	// Lists functions
-	"all":          {group: sprigList, description: "Filters items out of a list.", aliases: []string{"without"}},
+	"all":          {group: sprigList, description: "Takes a list of values and returns true if all values are non-empty."},
 	"any":          {group: sprigList, description: "Takes a list of values and returns true if any values are non-empty."},
 	"appendSprig":  {group: sprigList, description: "Append a new item to an existing list, creating a new list.", aliases: []string{"append"}},
 	"chunk":        {group: sprigList, description: "Split a list into chunks of given size, use chunk size list. This is useful for pagination.", arguments: []string{"nbChunks", "list"}},
-- 
2.43.0


From a62ab3e2610fd8fd65ded450b9f46a47ebb100a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:42 +0000
Subject: [PATCH 55/65] fix: razor expressions can be initialized and used
 concurrently

---
 template/razor.go           | 34 ++++++++++++++++++++++------------
 template/razor_expr.go      |  2 +-
 template/razor_repl_expr.go |  4 ++--
 3 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/template/razor.go b/template/razor.go
index d280cdd..dd3a68e 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -4,6 +4,8 @@ import (
 	"fmt"
 	"regexp"
 	"strings"
+	"sync"
+	"sync/atomic"
 
 	"github.com/fatih/color"
 	"github.com/sirupsen/logrus"
@@ -14,7 +16,7 @@ func (t *Template) applyRazor(content []byte) (result []byte, changed bool) {
 	if !t.options[Razor] || !t.IsRazor(string(content)) {
 		return content, false
 	}
-	t.ensureInit()
+	replacements := t.ensureInit()
 
 	for _, ignoredExpr := range t.ignoredRazorExpr {
 		ignoredExpr = strings.TrimSpace(ignoredExpr)
@@ -31,7 +33,7 @@ func (t *Template) applyRazor(content []byte) (result []byte, changed bool) {
 	}
 
 	var longStrings []string
-	for _, r := range replacementsInit[fmt.Sprintf("%q", t.delimiters)] {
+	for _, r := range replacements {
 		r.longStrings = &longStrings
 		printDebugInfo(r, string(content))
 		if r.parser == nil {
@@ -162,7 +164,10 @@ var expressions = [][]interface{}{
 	{"", literalReplacement, "${"},
 }
 
-var replacementsInit = make(map[string][]replacement)
+var (
+	replacementsInit  = make(map[string][]replacement)
+	replacementsMutex sync.Mutex // Distinct templates could be rendered concurrently
+)
 
 type replacementFunc func(replacement, string) string
 type replacement struct {
@@ -176,9 +181,13 @@ type replacement struct {
 	longStrings *[]string // Strings protected during the current execution
 }
 
-func (t *Template) ensureInit() {
-	delimiters := fmt.Sprintf("%q", t.delimiters)
-	if _, ok := replacementsInit[delimiters]; !ok {
+func (t *Template) ensureInit() []replacement {
+	replacementsMutex.Lock()
+	defer replacementsMutex.Unlock()
+
+	key := fmt.Sprintf("%q", t.delimiters)
+	if _, ok := replacementsInit[key]; !ok {
+		delimiters := append([]string{}, t.delimiters...) // The delimiters of the template could be changed afterwards
 		// We must ensure that search and replacement expression are compatible with the set of delimiters
 		quote := func(s string) string { return strings.ReplaceAll(regexp.QuoteMeta(s), "-", `\-`) }
 		escape := func(s string) string { return strings.ReplaceAll(s, "$", "$$") }
@@ -215,17 +224,18 @@ func (t *Template) ensureInit() {
 
 			for i := range subExpressions {
 				re := regexp.MustCompile(subExpressions[i])
-				replacements = append(replacements, replacement{name: comment, expr: subExpressions[i], replace: replace, re: re, parser: exprParser, delimiters: t.delimiters})
+				replacements = append(replacements, replacement{name: comment, expr: subExpressions[i], replace: replace, re: re, parser: exprParser, delimiters: delimiters})
 			}
 
 			if len(subExpressions) > 1 && len(expr) == 5 {
 				// If there is a fallback expression evaluator, we apply it on the first replacement alternative
 				re := regexp.MustCompile(subExpressions[0])
-				replacements = append(replacements, replacement{name: comment, expr: subExpressions[0], replace: replace, re: re, parser: expr[4].(replacementFunc), delimiters: t.delimiters})
+				replacements = append(replacements, replacement{name: comment, expr: subExpressions[0], replace: replace, re: re, parser: expr[4].(replacementFunc), delimiters: delimiters})
 			}
 		}
-		replacementsInit[delimiters] = replacements
+		replacementsInit[key] = replacements
 	}
+	return replacementsInit[key]
 }
 
 // If the razor delimiter has more than one character, a character class is not able to exclude it.
@@ -248,8 +258,8 @@ func printDebugInfo(r replacement, content string) {
 		return
 	}
 
-	debugMode = true
-	defer func() { debugMode = false }()
+	debugMode.Store(true)
+	defer debugMode.Store(false)
 
 	// We only report each match once
 	allUnique := make(map[string]int)
@@ -292,4 +302,4 @@ func printDebugInfo(r replacement, content string) {
 	InternalLog.Debug(logString)
 }
 
-var debugMode bool
+var debugMode atomic.Bool
diff --git a/template/razor_expr.go b/template/razor_expr.go
index d40cb36..1432e0c 100644
--- a/template/razor_expr.go
+++ b/template/razor_expr.go
@@ -130,7 +130,7 @@ func nodeValue(node ast.Node) (result string, err error) {
 	default:
 		err = fmt.Errorf("unknown: %v", reflect.TypeOf(node))
 	}
-	if !debugMode && InternalLog.IsLevelEnabled(logrus.TraceLevel) {
+	if !debugMode.Load() && InternalLog.IsLevelEnabled(logrus.TraceLevel) {
 		InternalLog.Tracef(color.HiBlueString("%T => %s"), node, result)
 	}
 	return
diff --git a/template/razor_repl_expr.go b/template/razor_repl_expr.go
index 79036fb..ff6ee75 100644
--- a/template/razor_repl_expr.go
+++ b/template/razor_repl_expr.go
@@ -101,7 +101,7 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 			sep, slicer, limit2 = ":", "slice", true
 		}
 		values := strings.Split(indexExpr, sep)
-		if !debugMode && limit2 && len(values) > 2 {
+		if !debugMode.Load() && limit2 && len(values) > 2 {
 			InternalLog.Errorf("Only one : character is allowed in slice expression: %s", match)
 		}
 		for i := range values {
@@ -145,7 +145,7 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 				return result, nil
 			}
 		}
-		if !debugMode && err != nil {
+		if !debugMode.Load() && err != nil {
 			InternalLog.Trace(color.CyanString(fmt.Sprintf("Invalid expression '%s' : %v", expression, err)))
 		}
 		if skipError {
-- 
2.43.0


From d8b831231a5e054ae7005d2839455e67eb989dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:46 +0000
Subject: [PATCH 56/65] fix: function tables shared by templates are not
 altered

---
 template/func_table.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/template/func_table.go b/template/func_table.go
index 1cb2b1d..ad809e5 100644
--- a/template/func_table.go
+++ b/template/func_table.go
@@ -232,15 +232,25 @@ func (t *Template) addFunctions(funcMap funcTableMap) *Template {
 	if t.functions == nil {
 		t.functions = make(funcTableMap)
 	}
+	added := make(funcTableMap, len(funcMap))
 	for key, value := range funcMap {
-		value.name = key
-		t.functions[key] = value
-		for i := range value.aliases {
-			funcMap[value.aliases[i]] = &FuncInfo{alias: value, function: value.function, name: value.aliases[i]}
-			t.functions[value.aliases[i]] = funcMap[value.aliases[i]]
+		if value.name != key {
+			// The table could be shared with other templates, so we do not alter it
+			named := *value
+			named.name = key
+			value = &named
+		}
+		added[key] = value
+		for _, alias := range value.aliases {
+			if _, exist := funcMap[alias]; !exist {
+				added[alias] = &FuncInfo{alias: value, function: value.function, name: alias}
+			}
 		}
 	}
-	t.Funcs(funcMap.convert())
+	for key, value := range added {
+		t.functions[key] = value
+	}
+	t.Funcs(added.convert())
 	return t
 }
 
-- 
2.43.0


From 8ae29a0ecd2477c97c2f69050b4c454c8e556317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:44 +0000
Subject: [PATCH 57/65] fix: running a file that names a missing command is an
 error

---
 utils/exec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/exec.go b/utils/exec.go
index b9750dd..62523ee 100644
--- a/utils/exec.go
+++ b/utils/exec.go
@@ -56,7 +56,7 @@ func GetCommandFromFile(filename string, args ...interface{}) (cmd *exec.Cmd, er
 			strArgs = append(split[1:], strArgs...)
 		} else {
 			// The command does not exist
-			return
+			return nil, errPath
 		}
 	}
 
-- 
2.43.0


From e73ede27e676eaf51369462016aaa8f6b06299ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:47 +0000
Subject: [PATCH 58/65] fix: the default shell can be searched concurrently

---
 utils/exec.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/utils/exec.go b/utils/exec.go
index 62523ee..ca40f35 100644
--- a/utils/exec.go
+++ b/utils/exec.go
@@ -7,6 +7,7 @@ import (
 	"regexp"
 	"runtime"
 	"strings"
+	"sync"
 )
 
 // https://regex101.com/r/ykVKPt/6
@@ -109,24 +110,18 @@ func saveTempFile(content string, args ...interface{}) (cmd *exec.Cmd, fileName
 	return
 }
 
-func getDefaultShell() string {
-	if defaultShell != "" {
-		return defaultShell
-	}
+var getDefaultShell = sync.OnceValue(func() string {
 	defShells := []string{"bash", "sh", "zsh", "ksh"}
 	if runtime.GOOS == "windows" {
 		defShells = []string{"powershell", "pwsh", "cmd"}
 	}
 	for _, sh := range defShells {
 		if sh, err := exec.LookPath(sh); err == nil {
-			defaultShell = sh
-			break
+			return sh
 		}
 	}
-	return defaultShell
-}
-
-var defaultShell string
+	return ""
+})
 
 // GetEnv returns the environment variable value or defaultValue if it does not exist.
 func GetEnv(varName, defaultValue string) string {
-- 
2.43.0


From 44058a036fbaceb2c46a4e0d4823d7a339ddca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:16 +0000
Subject: [PATCH 59/65] fix: comparison functions are documented with the
 number of arguments they accept

---
 template/add_funcs.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/template/add_funcs.go b/template/add_funcs.go
index d21cb90..d3a32c9 100644
--- a/template/add_funcs.go
+++ b/template/add_funcs.go
@@ -96,11 +96,11 @@ var baseGoTemplate = map[string]struct {
 	},
 	"not": {
 		`Returns the boolean negation of its single argument.`,
-		`not(arg reflect.Value`, `bool`,
+		`arg reflect.Value`, `bool`,
 	},
 	"or": {
 		`Returns the boolean OR of its arguments by returning the first non-empty argument or the last argument, that is, "or x y" behaves as "if x then x else y". All the arguments are evaluated.`,
-		`or(arg0 reflect.Value, args ...reflect.Value`, `reflect.Value`,
+		`arg0 reflect.Value, args ...reflect.Value`, `reflect.Value`,
 	},
 	"print": {
 		`An alias for fmt.Sprint`,
@@ -125,22 +125,22 @@ var baseGoTemplate = map[string]struct {
 	},
 	"ge": {
 		`Returns the boolean truth of arg1 >= arg2`,
-		`arg1 reflect.Value, arg2 ...reflect.Value`, `bool`,
+		`arg1 reflect.Value, arg2 reflect.Value`, `bool`,
 	},
 	"gt": {
 		`Returns the boolean truth of arg1 > arg2`,
-		`arg1 reflect.Value, arg2 ...reflect.Value`, `bool`,
+		`arg1 reflect.Value, arg2 reflect.Value`, `bool`,
 	},
 	"le": {
 		`Returns the boolean truth of arg1 <= arg2`,
-		`arg1 reflect.Value, arg2 ...reflect.Value`, `bool`,
+		`arg1 reflect.Value, arg2 reflect.Value`, `bool`,
 	},
 	"lt": {
 		`Returns the boolean truth of arg1 < arg2`,
-		`arg1 reflect.Value, arg2 ...reflect.Value`, `bool`,
+		`arg1 reflect.Value, arg2 reflect.Value`, `bool`,
 	},
 	"ne": {
 		`Returns the boolean truth of arg1 != arg2`,
-		`arg1 reflect.Value, arg2 ...reflect.Value`, `bool`,
+		`arg1 reflect.Value, arg2 reflect.Value`, `bool`,
 	},
 }
-- 
2.43.0


From 18f26c365cd047353c835ff0567a46a939298799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:59 +0000
Subject: [PATCH 60/65] fix: substitutions do not alter the code between pause
 marks

---
 template/template_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/template_handler.go b/template/template_handler.go
index 2d25e7b..24890e2 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -273,7 +273,7 @@ func (t *Template) processContentInternal(originalContent, source string, origin
 		InternalLog.Debugf("%s(%d): Execution error %v", th.Filename, th.Try, err)
 		return th.Handler(err)
 	}
-	result = revertReplacements(t.substitute(out.String()))
+	result = t.substitute(revertReplacements(out.String()))
 
 	if topCall && !t.options[AcceptNoValue] {
 		s := String(result)
-- 
2.43.0


From 53cd4513628aafc5af2d5438db17519b66a10c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:27 +0000
Subject: [PATCH 61/65] fix: substitutions see the texts of undefined values as
 they are

---
 template/template_handler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/template/template_handler.go b/template/template_handler.go
index 24890e2..c0735a4 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -273,7 +273,8 @@ func (t *Template) processContentInternal(originalContent, source string, origin
 		InternalLog.Debugf("%s(%d): Execution error %v", th.Filename, th.Try, err)
 		return th.Handler(err)
 	}
-	result = t.substitute(revertReplacements(out.String()))
+	rendered := revertReplacements(out.String())
+	result = t.substitute(rendered)
 
 	if topCall && !t.options[AcceptNoValue] {
 		s := String(result)
@@ -285,6 +286,9 @@ func (t *Template) processContentInternal(originalContent, source string, origin
 			reset = reset[0 : len(reset)/2]
 			textColor = textColor[0 : len(textColor)-len(reset)]
 			s = s.Replace(nilValue, color.RedString(nilValue)+textColor).Replace(noValue, color.RedString(noValue)+textColor)
+		} else if restored := String(rendered).Replace(noValueRepl, noValue).Replace(nilValueRepl, nilValue); restored.Str() != rendered {
+			// The substitutions must see the existing no value as they are
+			s = String(t.substitute(restored.Str()))
 		}
 		// We restore the existing no value if any
 		s = s.Replace(noValueRepl, noValue).Replace(nilValueRepl, nilValue)
-- 
2.43.0


From 59ef4f4756a277d767bffedf6d2b6d29ed554c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:46 +0000
Subject: [PATCH 62/65] fix: functions added after a rendering are known in
 every folder

---
 template/func_table.go | 4 ++++
 template/template.go   | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/template/func_table.go b/template/func_table.go
index ad809e5..220e3eb 100644
--- a/template/func_table.go
+++ b/template/func_table.go
@@ -222,6 +222,10 @@ func (t *Template) AddFunctions(funcs dictionary, group string, options FuncOpti
 		ft[key] = funcInfo
 	}
 
+	for _, child := range t.children {
+		// The contexts already created for the folders must also know the functions
+		child.addFunctions(ft)
+	}
 	return t.addFunctions(ft)
 }
 
diff --git a/template/template.go b/template/template.go
index 68b9ee9..8ab89e1 100644
--- a/template/template.go
+++ b/template/template.go
@@ -305,8 +305,8 @@ func (t *Template) init(folder string) {
 	if folder != "" {
 		t.folder, _ = filepath.Abs(folder)
 	}
-	t.addFuncs()
 	t.children = make(map[string]*Template)
+	t.addFuncs()
 	t.Delims(t.LeftDelim(), t.RightDelim())
 	t.setConstant(false, "\n", "NL", "CR", "NEWLINE")
 	t.setConstant(false, true, "true")
-- 
2.43.0


From 4f29f01f2f8ee6a2e794a68c1e666c085a244476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:45 +0000
Subject: [PATCH 63/65] fix: an option set after a rendering applies to
 included templates

---
 template/template.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/template/template.go b/template/template.go
index 8ab89e1..0e73122 100644
--- a/template/template.go
+++ b/template/template.go
@@ -250,7 +250,13 @@ func (t *Template) RazorDelim() string { return t.delimiters[2] }
 // Parameters:
 //   - option: The option to be set.
 //   - value: The boolean value to set for the specified option.
-func (t *Template) SetOption(option Options, value bool) { t.options[option] = value }
+func (t *Template) SetOption(option Options, value bool) {
+	t.options[option] = value
+	for _, child := range t.children {
+		// The contexts already created for the folders have their own options
+		child.SetOption(option, value)
+	}
+}
 
 func (t *Template) isTemplate(file string) bool {
 	for i := range templateExt {
-- 
2.43.0


From 01fdfafcb849a103f09f35001bcfc0e1441d7ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:59 +0000
Subject: [PATCH 64/65] fix: ignored razor expressions changed after a
 rendering apply to included templates

---
 template/template.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/template/template.go b/template/template.go
index 0e73122..3fc4934 100644
--- a/template/template.go
+++ b/template/template.go
@@ -379,6 +379,9 @@ func (t *Template) Context() (result collections.IDictionary) {
 //	expr: A variadic list of strings representing the Razor expressions to ignore (can also be a regular expression).
 func (t *Template) IgnoreRazorExpression(expr ...string) {
 	t.ignoredRazorExpr = expr
+	for _, child := range t.children {
+		child.IgnoreRazorExpression(expr...)
+	}
 }
 
 // AppendIgnoreRazorExpression appends one or more Razor expressions to the list of ignored Razor expressions.
@@ -389,6 +392,9 @@ func (t *Template) IgnoreRazorExpression(expr ...string) {
 //	expr: A variadic parameter representing one or more Razor expressions to be ignored.
 func (t *Template) AppendIgnoreRazorExpression(expr ...string) {
 	t.ignoredRazorExpr = append(expr, t.ignoredRazorExpr...)
+	for _, child := range t.children {
+		child.AppendIgnoreRazorExpression(expr...)
+	}
 }
 
 // GetIgnoredRazorExpressions returns a slice of strings containing the ignored Razor expressions.
-- 
2.43.0


From 1149544b9d3075e608b00cdb99bbed35489ab08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:43 +0000
Subject: [PATCH 65/65] fix: an empty raw text does not swallow the following
 ones

---
 template/template.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/template/template.go b/template/template.go
index 3fc4934..caf8c4f 100644
--- a/template/template.go
+++ b/template/template.go
@@ -138,6 +138,7 @@ func NewTemplate(folder string, context interface{}, delimiters string, options
 	// Set the regular expression replacements
 	baseSubstitutesRegex := []string{
 		`/(?m)^\s*#!\s*$/`,
+		`/"!Q!!Q!"/""`,
 		`/"!Q!(?P<content>[\S]+?)!Q!"/${content}`,
 		`/"!Q!(?P<content>.*?)!Q!"/"${content}"`,
 	}
-- 
2.43.0

