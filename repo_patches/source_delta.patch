From a077cf7866266ffca339c00120ecd25a2be68c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:05 +0000
Subject: [PATCH 01/67] fix: method last no longer reverses the shared
 instructions on every call

---
 transform/transform.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/transform/transform.go b/transform/transform.go
index fe1ed7c..640ee2e 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -257,20 +257,22 @@ func (tis *transformInstructions) UnmarshalJSON(data []byte) error {
 // It handles the logic for concatenation, first or last methods.
 func (tis *transformInstructions) transform(in interface{}, fieldType string, modifier pathModifier, format inputFormat) (interface{}, error) {
 	var concatResult bool
+	fromList := tis.From
 	switch tis.Method {
 	case last:
-		var newFrom []*transformInstruction
+		// The instructions are shared by every (possibly concurrent) use of the transformer so they are never reordered
+		// in place.
+		fromList = make([]*transformInstruction, 0, len(tis.From))
 		for i := len(tis.From) - 1; i >= 0; i-- {
-			newFrom = append(newFrom, tis.From[i])
+			fromList = append(fromList, tis.From[i])
 		}
-		tis.From = newFrom
 	case concatenate:
 		concatResult = true
 	}
 
 	var result interface{}
 
-	for _, from := range tis.From {
+	for _, from := range fromList {
 		value, err := from.transform(in, fieldType, modifier, format)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From a2bfeaa05751b3b5648f3081741d4b8cd83411eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:07 +0000
Subject: [PATCH 02/67] fix: object transforms no longer add fields to the
 schema default or to the input

---
 transform/instance.go | 17 ++++-------------
 transform/utils.go    | 11 +++++++++++
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/transform/instance.go b/transform/instance.go
index 8310396..a423a5f 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -332,19 +332,15 @@ func (ot *objectTransformer) objectTransformJSON(in interface{}, modifier pathMo
 			return nil, err
 		}
 		if rawValue != nil {
-			var ok bool
-			newValue, ok = rawValue.(map[string]interface{})
+			inputValue, ok := rawValue.(map[string]interface{})
 			if !ok {
 				return nil, errors.New("transform returned non-object value")
 			}
+			newValue = copyMap(inputValue)
 		}
 	}
 	if newValue == nil {
-		if ot.defaultValue == nil {
-			newValue = make(map[string]interface{})
-		} else {
-			newValue = ot.defaultValue
-		}
+		newValue = copyMap(ot.defaultValue)
 	}
 
 	// Add each child value to the paren
@@ -410,12 +406,7 @@ func (ot *objectTransformer) objectTransformXML(in interface{}, modifier pathMod
 		}
 	}
 
-	var newValue map[string]interface{}
-	if ot.defaultValue == nil {
-		newValue = make(map[string]interface{})
-	} else {
-		newValue = ot.defaultValue
-	}
+	newValue := copyMap(ot.defaultValue)
 
 	// Add each child value to the parent if there is no object transform or if the object transform node is found
 	for _, child := range ot.children {
diff --git a/transform/utils.go b/transform/utils.go
index 2d3a096..1831375 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -219,3 +219,14 @@ func schemaDefault(schema json.RawMessage) (interface{}, error) {
 func replaceIndex(path string) string {
 	return indexRe.ReplaceAllString(path, "[*]")
 }
+
+// copyMap returns a shallow copy of the map, for a nil map that is an empty map.
+// Values which will have fields added are copied first since they may be shared, either with the schema defaults or
+// with the input.
+func copyMap(in map[string]interface{}) map[string]interface{} {
+	out := make(map[string]interface{}, len(in))
+	for k, v := range in {
+		out[k] = v
+	}
+	return out
+}
-- 
2.43.0


From 9b833b1fe5d9ab4229a4c1c18092f0570177abeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:37 +0000
Subject: [PATCH 03/67] fix: array transforms no longer write to the input
 shared by all fields

---
 transform/instance.go    | 16 ++++--------
 transform/transformer.go | 54 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 59 insertions(+), 11 deletions(-)

diff --git a/transform/instance.go b/transform/instance.go
index a423a5f..2eef6b5 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -174,17 +174,11 @@ func (at *arrayTransformer) arrayTransformJSON(in interface{}, modifier pathModi
 	}
 
 	if changed {
-		// save the array base to in as children will use the value from this for their transforms
-		if path == "$" {
-			in = base
-		} else {
-			inMap, ok := in.(map[string]interface{})
-			if !ok {
-				return nil, errors.New("input is neither a JSON array nor object")
-			}
-			if err := saveInTree(inMap, path, base); err != nil {
-				return nil, fmt.Errorf("failed to save array transform to input data: %v", err)
-			}
+		// The children use the array base for their transforms so it needs to be part of the input they are given. The
+		// input itself is shared with all the other fields and so is left unchanged.
+		in, err = replaceInInput(in, path, base)
+		if err != nil {
+			return nil, fmt.Errorf("failed to save array transform to input data: %v", err)
 		}
 	}
 
diff --git a/transform/transformer.go b/transform/transformer.go
index 7e8c715..6818ecc 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -244,6 +244,60 @@ func (tr *Transformer) walker(path string, value json.RawMessage) error {
 	return nil
 }
 
+// replaceInInput returns a copy of the input with the value at the path replaced, parents are created as needed.
+// Only the objects and arrays along the path are copied, everything else is shared with the original input.
+func replaceInInput(in interface{}, path string, value interface{}) (interface{}, error) {
+	if path == "$" {
+		return value, nil
+	}
+
+	path = strings.TrimPrefix(path, "$")
+	isMap, isArray := false, false
+	switch in.(type) {
+	case map[string]interface{}:
+		isMap = true
+	case []interface{}:
+		isArray = true
+	}
+	if isMap != strings.HasPrefix(path, ".") || isArray != strings.HasPrefix(path, "[") {
+		return nil, errors.New("input is neither a JSON array nor object")
+	}
+
+	return replaceAtSplits(in, strings.Split(strings.TrimPrefix(strings.Replace(path, "[", ".[", -1), "."), "."), value)
+}
+
+func replaceAtSplits(current interface{}, splits []string, value interface{}) (interface{}, error) {
+	if len(splits) == 0 {
+		return value, nil
+	}
+
+	if !strings.HasPrefix(splits[0], "[") {
+		currentMap, _ := current.(map[string]interface{})
+		newMap := copyMap(currentMap)
+		newValue, err := replaceAtSplits(newMap[splits[0]], splits[1:], value)
+		if err != nil {
+			return nil, err
+		}
+		newMap[splits[0]] = newValue
+		return newMap, nil
+	}
+
+	index, err := strconv.Atoi(strings.Trim(splits[0], "[]"))
+	if err != nil {
+		return nil, fmt.Errorf("failed to determine index of %q", splits[0])
+	}
+	currentArray, _ := current.([]interface{})
+	newArray := append([]interface{}{}, currentArray...)
+	for len(newArray) <= index {
+		newArray = append(newArray, nil)
+	}
+	newArray[index], err = replaceAtSplits(newArray[index], splits[1:], value)
+	if err != nil {
+		return nil, err
+	}
+	return newArray, nil
+}
+
 // saveInTree is used recursively to add values the tree based on the path even if the parents are nil.
 func saveInTree(tree map[string]interface{}, path string, value interface{}) error {
 	if value == nil {
-- 
2.43.0


From 05253913585c3238432a26830ab694bcf4b56752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:38 +0000
Subject: [PATCH 04/67] fix: a single value at the path of an array is usable
 as its only item

---
 transform/instance.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transform/instance.go b/transform/instance.go
index 2eef6b5..d682575 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -100,7 +100,8 @@ func (at *arrayTransformer) baseValueJSON(in interface{}, path string, modifier
 	if err == nil && rawValue != nil {
 		newValue, ok := rawValue.([]interface{})
 		if !ok {
-			newValue = []interface{}{rawValue}
+			// the input has no array at this path so the new one needs to be made available to the children
+			return []interface{}{rawValue}, true, nil
 		}
 		return newValue, false, nil
 	}
-- 
2.43.0


From 28e6fa207e49787ed553b69ce73c6374c40f4607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:39 +0000
Subject: [PATCH 05/67] fix: max handles values which are all negative and
 empty arrays

---
 transform/operations.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transform/operations.go b/transform/operations.go
index 0e978b8..d5ee90a 100644
--- a/transform/operations.go
+++ b/transform/operations.go
@@ -162,6 +162,10 @@ func (m *max) transform(in interface{}) (interface{}, error) {
 	byArg := strings.Replace(m.args["by"], "@", "$", 1)
 	returnArg := strings.Replace(m.args["return"], "@", "$", 1)
 
+	if len(inArray) == 0 {
+		return nil, errors.New("input array is empty")
+	}
+
 	var largest float64
 	var largestIndex int
 	for i, item := range inArray {
@@ -177,7 +181,7 @@ func (m *max) transform(in interface{}) (interface{}, error) {
 			}
 			by = float64(byInt)
 		}
-		if by > largest {
+		if i == 0 || by > largest {
 			largest = by
 			largestIndex = i
 		}
-- 
2.43.0


From 81c4eefb850a3fc3e26bdde19f251e758a6c9408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:40 +0000
Subject: [PATCH 06/67] fix: a string that is no boolean counts as
 unconvertible rather than false

---
 transform/utils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transform/utils.go b/transform/utils.go
index 1831375..f47ccc4 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -82,7 +82,11 @@ func convertBoolean(raw interface{}) (interface{}, error) {
 		if t == "" {
 			return false, nil
 		}
-		return strconv.ParseBool(t)
+		value, err := strconv.ParseBool(t)
+		if err != nil {
+			return nil, err
+		}
+		return value, nil
 	case int:
 		return t > 0, nil
 	case float32:
-- 
2.43.0


From f76b8409dea1cccc5567a21c75069f7f94bb87d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:39 +0000
Subject: [PATCH 07/67] fix: a null extracted from a list counts as no value
 for every type

---
 transform/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transform/utils.go b/transform/utils.go
index f47ccc4..a46d5d5 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -58,6 +58,9 @@ func convert(raw interface{}, jsonType string) (interface{}, error) {
 		if nestedArray, ok := raw.([]interface{}); ok && len(nestedArray) > 0 {
 			return convert(nestedArray[0], jsonType)
 		}
+		if raw == nil {
+			return nil, nil
+		}
 	} else if ok && len(rawArray) == 0 {
 		return nil, nil
 	}
-- 
2.43.0


From 8b0fa5c8496ccd3322f0196b22d9c002fca977e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:56 +0000
Subject: [PATCH 08/67] fix: invalid transforms and defaults of objects are
 refused when building a transformer

---
 transform/transformer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/transform/transformer.go b/transform/transformer.go
index 6818ecc..1ef9133 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -215,9 +215,9 @@ func (tr *Transformer) walker(path string, value json.RawMessage) error {
 	var iTransformer instanceTransformer
 	switch instanceType {
 	case "object":
-		properties, _, _, err := jsonparser.Get(value, "properties")
-		if err != nil {
-			return fmt.Errorf("failed to extract properties: %v", err)
+		properties, _, _, getErr := jsonparser.Get(value, "properties")
+		if getErr != nil {
+			return fmt.Errorf("failed to extract properties: %v", getErr)
 		}
 		if string(properties) == "{}" { // Checks for empty "properties"
 			iTransformer, err = newScalarTransformer(path, tr.transformIdentifier, value, instanceType, tr.format)
-- 
2.43.0


From e57431b7399ad5e5dd3723701106ee59e226ae52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:37 +0000
Subject: [PATCH 09/67] fix: strings like NaN and Infinity are not usable as
 numbers since JSON can not express them

---
 transform/utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/transform/utils.go b/transform/utils.go
index a46d5d5..5325ccc 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -3,6 +3,7 @@ package transform
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
 	"regexp"
 	"strconv"
@@ -117,7 +118,8 @@ func convertNumber(raw interface{}) (interface{}, error) {
 		if value, err := strconv.Atoi(t); err == nil {
 			return value, nil
 		}
-		if value, err := strconv.ParseFloat(t, 64); err == nil {
+		// NaN and the infinities have no JSON representation
+		if value, err := strconv.ParseFloat(t, 64); err == nil && !math.IsNaN(value) && !math.IsInf(value, 0) {
 			return value, nil
 		}
 		return nil, fmt.Errorf("failed to convert string %q to number", t)
-- 
2.43.0


From e8e2313aa9ffc02fb147c5b12c15360633ddf723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:38 +0000
Subject: [PATCH 10/67] fix: numbers and dates out of the range of RFC 3339 are
 not usable as date-time

---
 transform/utils.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/transform/utils.go b/transform/utils.go
index 5325ccc..c6c67d5 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -146,16 +146,24 @@ func convertDateTime(raw interface{}) (interface{}, error) {
 			return nil, nil
 		}
 
-		return tParsed, nil
+		return jsonTime(tParsed)
 	case int:
-		return time.Unix(int64(t), 0).UTC(), nil
+		return jsonTime(time.Unix(int64(t), 0).UTC())
 	case float64:
-		return time.Unix(int64(t), 0).UTC(), nil
+		return jsonTime(time.Unix(int64(t), 0).UTC())
 	default:
 		return nil, fmt.Errorf("unable to convert type %q to a date-time", reflect.TypeOf(raw))
 	}
 }
 
+// jsonTime returns the time if it has a JSON representation, for instance years past 9999 do not.
+func jsonTime(t time.Time) (interface{}, error) {
+	if _, err := t.MarshalJSON(); err != nil {
+		return nil, err
+	}
+	return t, nil
+}
+
 func convertString(raw interface{}) (interface{}, error) {
 	switch t := raw.(type) {
 	case bool:
-- 
2.43.0


From d4227f5659c18a6c199d0fa4cb9585639fa7dca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:11 +0000
Subject: [PATCH 11/67] fix: an xmlPath which is missing or can not be
 evaluated no longer panics

---
 transform/transform.go | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/transform/transform.go b/transform/transform.go
index 640ee2e..8b860aa 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -102,6 +102,17 @@ func (ti *transformInstruction) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// findXMLNodes finds the nodes matching the xmlPath, paths which can not be evaluated are an error.
+func findXMLNodes(node *xmlquery.Node, path string) (nodes []*xmlquery.Node, err error) {
+	// Some combinations of nodes and paths panic, for instance the path "." for an attribute
+	defer func() {
+		if r := recover(); r != nil {
+			nodes, err = nil, fmt.Errorf("%v", r)
+		}
+	}()
+	return xmlquery.QueryAll(node, path)
+}
+
 func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, modifier pathModifier) (interface{}, error) {
 	path := ti.xmlPath
 	if modifier != nil {
@@ -113,21 +124,33 @@ func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, m
 		return nil, errors.New("Error converting input to *xmlquery.Node")
 	}
 
-	xmlNode := xmlquery.Find(node, path)
+	if path == "" {
+		// instructions for JSON input only
+		return nil, nil
+	}
+	xmlNode, err := findXMLNodes(node, path)
+	if err != nil {
+		return nil, fmt.Errorf("failed to find xmlPath %q: %v", path, err)
+	}
 	if xmlNode == nil {
 		return nil, nil
 	}
 
-	var (
-		value interface{}
-		err   error
-	)
+	var value interface{}
 
 	// num elements that have a child element
-	numElementsWithChild := len(xmlquery.Find(node, path+"[*]"))
+	withChild, err := findXMLNodes(node, path+"[*]")
+	if err != nil {
+		return nil, fmt.Errorf("failed to find xmlPath %q: %v", path, err)
+	}
+	numElementsWithChild := len(withChild)
 
 	// num elements without child
-	numElementsWithoutChild := len(xmlquery.Find(node, path+"[not(*)]"))
+	withoutChild, err := findXMLNodes(node, path+"[not(*)]")
+	if err != nil {
+		return nil, fmt.Errorf("failed to find xmlPath %q: %v", path, err)
+	}
+	numElementsWithoutChild := len(withoutChild)
 
 	// if only numElementsWithoutChild has results then the nodes are leaf nodes and can extract value
 	if numElementsWithChild == 0 && numElementsWithoutChild == 1 {
-- 
2.43.0


From 007d54a595db6253d1fefbf71da97a4c90e91c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:12 +0000
Subject: [PATCH 12/67] fix: operations run on XML values which do not convert
 to the field type, XML nodes are no scalar values

---
 transform/transform.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transform/transform.go b/transform/transform.go
index 8b860aa..4c2ba62 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -155,6 +155,10 @@ func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, m
 	// if only numElementsWithoutChild has results then the nodes are leaf nodes and can extract value
 	if numElementsWithChild == 0 && numElementsWithoutChild == 1 {
 		value, err = convert(xmlNode[0].InnerText(), fieldType)
+		if err != nil && len(ti.Operations) > 0 {
+			// As for JSON input the operations get the unconverted value
+			value = xmlNode[0].InnerText()
+		}
 	} else {
 		switch fieldType {
 		case "array", "object":
@@ -167,7 +171,7 @@ func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, m
 			value = strings.Join(values, " ")
 		default:
 			value, err = convert(xmlNode[0].InnerText(), fieldType)
-			if err != nil {
+			if err != nil && len(ti.Operations) > 0 {
 				value = xmlNode
 			}
 		}
-- 
2.43.0


From e8bf70da4e6b7d36555f4660275b2491457f1cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:10 +0000
Subject: [PATCH 13/67] fix: the text of an attribute selected by an array is
 usable by its items

---
 transform/transform.go | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/transform/transform.go b/transform/transform.go
index 4c2ba62..af54e7e 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -104,7 +104,10 @@ func (ti *transformInstruction) UnmarshalJSON(data []byte) error {
 
 // findXMLNodes finds the nodes matching the xmlPath, paths which can not be evaluated are an error.
 func findXMLNodes(node *xmlquery.Node, path string) (nodes []*xmlquery.Node, err error) {
-	// Some combinations of nodes and paths panic, for instance the path "." for an attribute
+	if node.Type == xmlquery.AttributeNode && path == "." {
+		return []*xmlquery.Node{node}, nil
+	}
+	// Other combinations of paths and attributes panic
 	defer func() {
 		if r := recover(); r != nil {
 			nodes, err = nil, fmt.Errorf("%v", r)
@@ -113,6 +116,15 @@ func findXMLNodes(node *xmlquery.Node, path string) (nodes []*xmlquery.Node, err
 	return xmlquery.QueryAll(node, path)
 }
 
+func isXMLLeaf(node *xmlquery.Node) bool {
+	for child := node.FirstChild; child != nil; child = child.NextSibling {
+		if child.Type == xmlquery.ElementNode {
+			return false
+		}
+	}
+	return true
+}
+
 func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, modifier pathModifier) (interface{}, error) {
 	path := ti.xmlPath
 	if modifier != nil {
@@ -138,22 +150,8 @@ func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, m
 
 	var value interface{}
 
-	// num elements that have a child element
-	withChild, err := findXMLNodes(node, path+"[*]")
-	if err != nil {
-		return nil, fmt.Errorf("failed to find xmlPath %q: %v", path, err)
-	}
-	numElementsWithChild := len(withChild)
-
-	// num elements without child
-	withoutChild, err := findXMLNodes(node, path+"[not(*)]")
-	if err != nil {
-		return nil, fmt.Errorf("failed to find xmlPath %q: %v", path, err)
-	}
-	numElementsWithoutChild := len(withoutChild)
-
-	// if only numElementsWithoutChild has results then the nodes are leaf nodes and can extract value
-	if numElementsWithChild == 0 && numElementsWithoutChild == 1 {
+	// a single leaf node, which is one with no child elements, can extract value
+	if len(xmlNode) == 1 && isXMLLeaf(xmlNode[0]) {
 		value, err = convert(xmlNode[0].InnerText(), fieldType)
 		if err != nil && len(ti.Operations) > 0 {
 			// As for JSON input the operations get the unconverted value
-- 
2.43.0


From d25c6161e8c9f121a85635c106a6846b14547dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:57 +0000
Subject: [PATCH 14/67] fix: a single XML element without child elements is an
 array item or object like any other

---
 transform/instance.go  | 19 +++++++++++++++++--
 transform/transform.go |  4 +++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/transform/instance.go b/transform/instance.go
index d682575..3ec3625 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -382,11 +382,13 @@ func (ot *objectTransformer) objectTransformXML(in interface{}, modifier pathMod
 				return ot.defaultValue, nil
 			}
 		} else if val, ok := rawValue.(string); ok {
-			// If the XML node is returned as an empty string, then it likely indicates that the transformer encountered an empty XML tag, e.g. <tag /> or <tag></tag>.
-			// While not particularly useful, it is also not an error. The end result is that the field won't show up in the output file.
+			// An empty string is not particularly useful, it is also not an error. The end result is that the field won't show up in the output file.
 			if val == "" {
 				return nil, nil
 			}
+		} else if nodes, ok := rawValue.([]*xmlquery.Node); ok && len(nodes) == 1 && isXMLLeaf(nodes[0]) && nodes[0].InnerText() == "" && len(nodes[0].Attr) == 0 {
+			// An empty XML tag, e.g. <tag /> or <tag></tag>, is treated the same as an empty string.
+			return nil, nil
 		}
 
 		switch v := rawValue.(type) {
@@ -533,9 +535,22 @@ func (st *scalarTransformer) transformScalarXML(in interface{}, modifier pathMod
 		if err != nil {
 			return nil, err
 		}
+		if nodes, ok := newValue.([]*xmlquery.Node); ok {
+			// XML nodes are only usable as the text of a leaf
+			newValue = nil
+			if len(nodes) == 1 && isXMLLeaf(nodes[0]) {
+				newValue = nodes[0].InnerText()
+			}
+		}
 		if newValue != nil {
 			return newValue, nil
 		}
+	} else if node, ok := in.(*xmlquery.Node); ok && strings.HasSuffix(st.jsonPath, "[*]") {
+		// The items of an array are the text of its nodes
+		newValue, err := convert(node.InnerText(), st.jsonType)
+		if err == nil && newValue != nil {
+			return newValue, nil
+		}
 	}
 
 	// 2. If transform does not exist or returns no value send back default
diff --git a/transform/transform.go b/transform/transform.go
index af54e7e..e1b4c09 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -151,7 +151,9 @@ func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, m
 	var value interface{}
 
 	// a single leaf node, which is one with no child elements, can extract value
-	if len(xmlNode) == 1 && isXMLLeaf(xmlNode[0]) {
+	// arrays and objects are built from the nodes themselves unless operations need the value
+	needNodes := (fieldType == "array" || fieldType == "object") && len(ti.Operations) == 0
+	if len(xmlNode) == 1 && isXMLLeaf(xmlNode[0]) && !needNodes {
 		value, err = convert(xmlNode[0].InnerText(), fieldType)
 		if err != nil && len(ti.Operations) > 0 {
 			// As for JSON input the operations get the unconverted value
-- 
2.43.0


From caed77f9fce2b51abef24dc457f5f35a7e7fb2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:45 +0000
Subject: [PATCH 15/67] fix: keep transform, default and other root keywords of
 a referenced schema file

A file reference was replaced by the marshalled Instance of the file, which
drops every keyword Instance does not know (transform, default, enum, bounds)
as well as the empty properties of a free form object.
---
 jsonschema/reference.go |  9 ++-----
 jsonschema/schema.go    | 56 ++++++++++++++++++++++++++++++++++++++---
 2 files changed, 55 insertions(+), 10 deletions(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index ecee038..db6a9e2 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -192,16 +192,11 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 			source = data
 			break
 		}
-		var schema *Schema
-		if flatten {
-			schema, err = SchemaFromFile(refPath, oneOfType)
-		} else {
-			schema, err = SchemaFromFileNoFlatten(refPath, oneOfType)
-		}
+		loaded, err := loadSchemaFromFile(refPath, oneOfType, flatten)
 		if err != nil {
 			return nil, fmt.Errorf("failed to process reference file %q: %v", refPath, err)
 		}
-		source, err = json.Marshal(schema)
+		source, err = loaded.marshal()
 		if err != nil {
 			return nil, fmt.Errorf("failed to marshal schema from file %q: %v", refPath, err)
 		}
diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index ed62891..e43b368 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -13,7 +13,49 @@ import (
 	"github.com/GannettDigital/jsonparser"
 )
 
-var schemaCache Cache[*Schema]
+var schemaCache Cache[*loadedSchema]
+
+// loadedSchema is a schema together with the dereferenced JSON it was read from.
+type loadedSchema struct {
+	schema *Schema
+	raw    json.RawMessage
+}
+
+// marshal returns the JSON of the schema. Keywords which are not part of Instance, such as transform, default or enum,
+// and empty values which Instance omits are taken from the JSON the schema was read from.
+func (l *loadedSchema) marshal() (json.RawMessage, error) {
+	data, err := json.Marshal(l.schema)
+	if err != nil {
+		return nil, err
+	}
+	var known, all map[string]json.RawMessage
+	if err := json.Unmarshal(data, &known); err != nil {
+		return nil, err
+	}
+	if err := json.Unmarshal(l.raw, &all); err != nil {
+		return nil, err
+	}
+	var keys []string
+	for key := range all {
+		if _, ok := known[key]; !ok {
+			keys = append(keys, key)
+		}
+	}
+	sort.Strings(keys)
+	for _, key := range keys {
+		name, err := json.Marshal(key)
+		if err != nil {
+			return nil, err
+		}
+		// data always has at least the type so a separator is always needed
+		data = append(data[:len(data)-1], ',')
+		data = append(data, name...)
+		data = append(data, ':')
+		data = append(data, all[key]...)
+		data = append(data, '}')
+	}
+	return data, nil
+}
 
 // Instance represents a JSON Schema instance.
 type Instance struct {
@@ -95,12 +137,20 @@ func SchemaFromFile(schemaPath, oneOfType string) (*Schema, error) {
 }
 
 func schemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (*Schema, error) {
+	loaded, err := loadSchemaFromFile(schemaLoadPath, oneOfType, flatten)
+	if err != nil {
+		return nil, err
+	}
+	return loaded.schema, nil
+}
+
+func loadSchemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (*loadedSchema, error) {
 	schemaPath, err := filepath.Abs(schemaLoadPath)
 	if err != nil {
 		return nil, err
 	}
 	schemaKey := schemaPath + "|" + oneOfType + "|" + strconv.FormatBool(flatten)
-	return schemaCache.Load(schemaKey, func() (*Schema, error) {
+	return schemaCache.Load(schemaKey, func() (*loadedSchema, error) {
 		data, err := os.ReadFile(schemaPath)
 		if err != nil {
 			return nil, fmt.Errorf("failed to read schema file %q: %v", schemaPath, err)
@@ -158,7 +208,7 @@ func schemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (*Sch
 			}
 		}
 
-		return &s, nil
+		return &loadedSchema{schema: &s, raw: data}, nil
 	})
 }
 
-- 
2.43.0


From ec866b6604dbcf3f162ffd8469220575b601ebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:03 +0000
Subject: [PATCH 16/67] fix: an array transform keeps a list holding a single
 list

convert reduced [[1,2]] to 1 for array fields, so a list of lists lost its
items when it had exactly one entry.
---
 transform/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transform/utils.go b/transform/utils.go
index c6c67d5..c4427dc 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -57,6 +57,9 @@ func convert(raw interface{}, jsonType string) (interface{}, error) {
 	if rawArray, ok := raw.([]interface{}); ok && (len(rawArray) == 1 || (len(rawArray) > 0 && jsonType != "array")) {
 		raw = rawArray[0]
 		if nestedArray, ok := raw.([]interface{}); ok && len(nestedArray) > 0 {
+			if jsonType == "array" { // a list of one list is not the same as the first entry of that list
+				return rawArray, nil
+			}
 			return convert(nestedArray[0], jsonType)
 		}
 		if raw == nil {
-- 
2.43.0


From 014e2d1403df45fe91a950ed63e3b9fe83a060d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:54 +0000
Subject: [PATCH 17/67] fix: an error instead of a panic for schemas with
 unsupported property names

---
 transform/transformer.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/transform/transformer.go b/transform/transformer.go
index 1ef9133..812a9b7 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -189,16 +189,22 @@ func (tr *Transformer) findParent(path string) (instanceTransformer, error) {
 		// TODO this will probably choke on a root level array
 		return nil, errors.New("paths must start with '$'")
 	}
+	if len(splits) < 2 {
+		return nil, errors.New("properties without a name are not supported")
+	}
 	parentSplits := splits[1 : len(splits)-1]
 
 	parent := tr.root
 	for _, sp := range parentSplits {
 		if sp == "[*]" {
 			parent = parent.child()
-			continue
+		} else {
+			parent = parent.selectChild(sp)
+		}
+		if parent == nil {
+			// For instance property names with a dot
+			return nil, fmt.Errorf("no parent found for path %q", path)
 		}
-
-		parent = parent.selectChild(sp)
 	}
 
 	return parent, nil
-- 
2.43.0


From e51576ff30f7534fcf939a2232b32b7a65debd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:54 +0000
Subject: [PATCH 18/67] fix: an error instead of a panic for null as transform
 instruction

---
 transform/transform.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transform/transform.go b/transform/transform.go
index e1b4c09..f2ce673 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -261,6 +261,11 @@ func (tis *transformInstructions) UnmarshalJSON(data []byte) error {
 		return fmt.Errorf("failed to extract transform from JSON: %v", err)
 	}
 
+	for _, instruction := range jtis.From {
+		if instruction == nil {
+			return errors.New("null is no transform instruction")
+		}
+	}
 	tis.From = jtis.From
 	tis.MethodOptions = jtis.MethodOptions
 
-- 
2.43.0


From 097d61e00efb37fcf675f9df06a0d939ac1a164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:56 +0000
Subject: [PATCH 19/67] fix: only the keyword default itself gives a schema
 default

---
 transform/utils.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/transform/utils.go b/transform/utils.go
index c4427dc..25ca3b0 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -219,19 +219,21 @@ func extractTransformInstructions(raw json.RawMessage, transformIdentifier, path
 // schemaDefault determines the default for an instance based on the JSONSchema.
 // If no default is defined nil is returned.
 func schemaDefault(schema json.RawMessage) (interface{}, error) {
-	ifields := struct {
-		Default interface{} `json:"default"`
-	}{}
+	// A map since the names of struct fields match in any case
+	var ifields map[string]json.RawMessage
 	if err := json.Unmarshal(schema, &ifields); err != nil {
 		return nil, fmt.Errorf("failed to extract schema default: %v", err)
 	}
-
-	// Try the default
-	if ifields.Default != nil {
-		return ifields.Default, nil
+	rawDefault, ok := ifields["default"]
+	if !ok {
+		return nil, nil
 	}
 
-	return nil, nil
+	var value interface{}
+	if err := json.Unmarshal(rawDefault, &value); err != nil {
+		return nil, fmt.Errorf("failed to extract schema default: %v", err)
+	}
+	return value, nil
 }
 
 // replaceIndex takes a path which may include array index values like `a[0].b.c[23].d` with the index values replaced
-- 
2.43.0


From 4921e1ddd937c4671dbf4db61f9bb7025638d0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:50 +0000
Subject: [PATCH 20/67] fix: schema types with string escapes are read as the
 type they spell

---
 jsonschema/schema.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index e43b368..53c3fe9 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -86,7 +86,8 @@ func (i *Instance) UnmarshalJSON(data []byte) error {
 	if err != nil && !errors.Is(err, jsonparser.KeyPathNotFoundError) {
 		return fmt.Errorf("error reading schema type: %w %s", err, data)
 	} else if dataType == jsonparser.String {
-		data, err = jsonparser.Set(data, []byte(fmt.Sprintf("[%q]", value)), "type")
+		// value is still escaped as in the JSON
+		data, err = jsonparser.Set(data, []byte(`["`+string(value)+`"]`), "type")
 		if err != nil {
 			return fmt.Errorf("error changing schema type to array: %w", err)
 		}
@@ -261,7 +262,11 @@ func FieldType(data []byte) (string, bool, error) {
 	if err != nil && !errors.Is(err, jsonparser.KeyPathNotFoundError) {
 		return "", false, fmt.Errorf("error reading schema type: %w", err)
 	} else if dataType == jsonparser.String {
-		return string(value), false, nil
+		jsonType, err := jsonparser.ParseString(value)
+		if err != nil {
+			return "", false, fmt.Errorf("error reading schema type: %w", err)
+		}
+		return jsonType, false, nil
 	} else if dataType == jsonparser.Array {
 		var nullable bool
 		var jsonType string
@@ -269,14 +274,19 @@ func FieldType(data []byte) (string, bool, error) {
 			if adataType != jsonparser.String {
 				return
 			}
-			switch string(avalue) {
+			name, pErr := jsonparser.ParseString(avalue)
+			if pErr != nil {
+				err = pErr
+				return
+			}
+			switch name {
 			case "null":
 				nullable = true
 			default:
 				if jsonType != "" {
 					err = fmt.Errorf("union types are not supported: %s", value)
 				}
-				jsonType = string(avalue)
+				jsonType = name
 			}
 		})
 		if aErr != nil && err == nil {
-- 
2.43.0


From 4e06b37595c6529654f7c725a428299d35dec010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:50 +0000
Subject: [PATCH 21/67] fix: an empty properties object may hold whitespace

---
 transform/transformer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transform/transformer.go b/transform/transformer.go
index 812a9b7..8e2015d 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -225,7 +225,7 @@ func (tr *Transformer) walker(path string, value json.RawMessage) error {
 		if getErr != nil {
 			return fmt.Errorf("failed to extract properties: %v", getErr)
 		}
-		if string(properties) == "{}" { // Checks for empty "properties"
+		if strings.Trim(string(properties), "{} \t\r\n") == "" { // Checks for empty "properties"
 			iTransformer, err = newScalarTransformer(path, tr.transformIdentifier, value, instanceType, tr.format)
 		} else {
 			iTransformer, err = newObjectTransformer(path, tr.transformIdentifier, value, tr.format)
-- 
2.43.0


From 7258a67937f23d61361c328fc0603576f1b7e076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 22/67] fix: values of properties whose names are no
 identifiers are found

---
 transform/instance.go |  7 +++++--
 transform/utils.go    | 30 ++++++++++++++++++++++++++++++
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/transform/instance.go b/transform/instance.go
index 3ec3625..13724af 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -20,6 +20,9 @@ func pathReplace(old, new string, modifier pathModifier) pathModifier {
 		if modifier != nil {
 			path = modifier(path)
 		}
+		if quoted := quotePath(old); quoted != old {
+			path = strings.Replace(path, quoted, quotePath(new), 1)
+		}
 		path = strings.Replace(path, old, new, 1)
 		return path
 	}
@@ -96,7 +99,7 @@ func (at *arrayTransformer) baseValueJSON(in interface{}, path string, modifier
 	}
 
 	// 2. Look for the same jsonPath in the input and use directly if possible.
-	rawValue, err := jsonpath.Get(path, in)
+	rawValue, err := jsonpath.Get(quotePath(path), in)
 	if err == nil && rawValue != nil {
 		newValue, ok := rawValue.([]interface{})
 		if !ok {
@@ -505,7 +508,7 @@ func (st *scalarTransformer) transformScalarJSON(in interface{}, modifier pathMo
 	}
 
 	// 2. Look for the same jsonPath in the input and use directly if possible.
-	rawValue, err := jsonpath.Get(path, in)
+	rawValue, err := jsonpath.Get(quotePath(path), in)
 	if err == nil {
 		newValue, err := convert(rawValue, st.jsonType)
 		// if there is a conversion error fall through to the default
diff --git a/transform/utils.go b/transform/utils.go
index 25ca3b0..c82655c 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -9,6 +9,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode"
 
 	"github.com/GannettDigital/jsonparser"
 )
@@ -203,6 +204,7 @@ func extractTransformInstructions(raw json.RawMessage, transformIdentifier, path
 		splits := strings.Split(path, ".")
 		parentPath = strings.Join(splits[:len(splits)-1], ".")
 	}
+	parentPath = quotePath(parentPath)
 
 	var tis transformInstructions
 	if err := json.Unmarshal(rawTransformInstruction, &tis); err != nil {
@@ -216,6 +218,34 @@ func extractTransformInstructions(raw json.RawMessage, transformIdentifier, path
 	return &tis, nil
 }
 
+// quotePath writes the names of an instance path which are no identifiers, for instance `$.front-list[*]`, in the bracket
+// notation JSONPath needs for them.
+func quotePath(path string) string {
+	splits := strings.Split(path, ".")
+	quoted := splits[0]
+	for _, split := range splits[1:] {
+		name, index := split, ""
+		if i := strings.IndexByte(split, '['); i >= 0 {
+			name, index = split[:i], split[i:]
+		}
+		if isIdentifier(name) {
+			quoted += "." + split
+		} else {
+			quoted += "[" + strconv.Quote(name) + "]" + index
+		}
+	}
+	return quoted
+}
+
+func isIdentifier(name string) bool {
+	for i, r := range name {
+		if r != '_' && !unicode.IsLetter(r) && (i == 0 || !unicode.IsDigit(r)) {
+			return false
+		}
+	}
+	return name != ""
+}
+
 // schemaDefault determines the default for an instance based on the JSONSchema.
 // If no default is defined nil is returned.
 func schemaDefault(schema json.RawMessage) (interface{}, error) {
-- 
2.43.0


From 8b93e745d6153abdd9da0842fa21401410f2c13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:54 +0000
Subject: [PATCH 23/67] fix: strings beside a $ref keep their escapes

---
 jsonschema/reference.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index db6a9e2..08c4764 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -65,10 +65,8 @@ func dereference(schemaPath string, data json.RawMessage, oneOfType string, flat
 					keyPath := destPath
 					keyPath = append(keyPath, string(key))
 					if dataType == jsonparser.String {
-						value, err = json.Marshal(string(value))
-						if err != nil {
-							return fmt.Errorf("failed to marshal string %q to update data with ref %q at path %v key %q: %w", value, ref, refPath, key, err)
-						}
+						// value is still escaped as in the JSON
+						value = []byte(`"` + string(value) + `"`)
 					}
 					data, err = jsonparser.Set(data, value, keyPath...)
 					if err != nil {
-- 
2.43.0


From c7e9666840a5e3031882dc3dcfb8429048d365d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:59 +0000
Subject: [PATCH 24/67] fix: a $ref at the root of a schema file is resolved

---
 jsonschema/reference.go | 79 +++++++++++++++++++++--------------------
 jsonschema/schema.go    | 10 ++++++
 2 files changed, 51 insertions(+), 38 deletions(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index 08c4764..6254eb7 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -38,46 +38,28 @@ func dereference(schemaPath string, data json.RawMessage, oneOfType string, flat
 		}
 
 		destPath := refPath[:len(refPath)-1]
-		// It is necessary to delete the refKey reference so they are not refound
-		data = jsonparser.Delete(data, append(destPath, refKey)...)
-
-		if len(destPath) != 0 {
-			// Attempt to read the object from the source data so that we can apply it after the ref resolving
-			// wipes out that object in the data.
-			prior, dataType, _, err := jsonparser.Get(data, destPath...)
-			if err != nil && err != jsonparser.KeyPathNotFoundError {
-				return nil, fmt.Errorf("failed to read object on source data at path %v: %v", destPath, err)
-			}
-			if prior != nil && dataType != jsonparser.Object {
-				return nil, fmt.Errorf("referencing object is wrong type %q, should be object", dataType)
-			}
+		if len(destPath) == 0 {
+			// The root itself is not replaced here, only the reference is removed so it is not refound.
+			data = jsonparser.Delete(data, refKey)
+			continue
+		}
 
-			// Set the resolved ref contents on the data. This wipes out existing fields in that object
-			data, err = jsonparser.Set(data, resolved, destPath...)
-			if err != nil {
-				return nil, fmt.Errorf("failed to update data with resolved ref %q at path %v: %v", ref, refPath, err)
-			}
+		prior, dataType, _, err := jsonparser.Get(data, destPath...)
+		if err != nil {
+			return nil, fmt.Errorf("failed to read object on source data at path %v: %v", destPath, err)
+		}
+		if dataType != jsonparser.Object {
+			return nil, fmt.Errorf("referencing object is wrong type %q, should be object", dataType)
+		}
+		resolved, err = overlay(resolved, prior)
+		if err != nil {
+			return nil, fmt.Errorf("failed to update data with ref %q at path %v: %w", ref, refPath, err)
+		}
 
-			// If we found other keys inside that object in the source data, apply that back since setting of the ref
-			// would have cleared it.  This wasn't true in JSON Schema draft 4 through 7 but is the current standard.
-			if prior != nil {
-				err := jsonparser.ObjectEach(prior, func(key []byte, value []byte, dataType jsonparser.ValueType, offset int) error {
-					keyPath := destPath
-					keyPath = append(keyPath, string(key))
-					if dataType == jsonparser.String {
-						// value is still escaped as in the JSON
-						value = []byte(`"` + string(value) + `"`)
-					}
-					data, err = jsonparser.Set(data, value, keyPath...)
-					if err != nil {
-						return fmt.Errorf("failed to update data with ref %q at path %v key %q: %w", ref, refPath, key, err)
-					}
-					return nil
-				})
-				if err != nil {
-					return nil, fmt.Errorf("failed to iterate over original object with ref %q at path %v: %w", ref, refPath, err)
-				}
-			}
+		// Set the resolved ref contents on the data. This wipes out existing fields in that object
+		data, err = jsonparser.Set(data, resolved, destPath...)
+		if err != nil {
+			return nil, fmt.Errorf("failed to update data with resolved ref %q at path %v: %v", ref, refPath, err)
 		}
 	}
 
@@ -95,6 +77,27 @@ func dereference(schemaPath string, data json.RawMessage, oneOfType string, flat
 	return data, nil
 }
 
+// overlay sets the keys of the object holding a ref, other than the ref, on what the ref resolved to.
+// This wasn't true in JSON Schema draft 4 through 7 but is the current standard.
+func overlay(resolved, object json.RawMessage) (json.RawMessage, error) {
+	err := jsonparser.ObjectEach(object, func(key []byte, value []byte, dataType jsonparser.ValueType, offset int) error {
+		if string(key) == refKey {
+			return nil
+		}
+		if dataType == jsonparser.String {
+			// value is still escaped as in the JSON
+			value = []byte(`"` + string(value) + `"`)
+		}
+		var err error
+		resolved, err = jsonparser.Set(resolved, value, string(key))
+		if err != nil {
+			return fmt.Errorf("failed to set key %q: %w", key, err)
+		}
+		return nil
+	})
+	return resolved, err
+}
+
 // findRefs searches through the given JSON finding the location in the structure of all refKeys.
 func findRefs(data json.RawMessage) ([][]string, error) {
 	refs := make([][]string, 0)
diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index 53c3fe9..50ac4e0 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -162,10 +162,20 @@ func loadSchemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (
 		}
 
 		// dereferencing during walking is more efficient but more complicated so all dereferencing for a file is done immediately
+		rootRef, rootErr := jsonparser.GetString(data, refKey)
 		data, err = dereference(schemaPath, data, oneOfType, flatten)
 		if err != nil {
 			return nil, fmt.Errorf("failed to Dereference Schema: %v", err)
 		}
+		if rootErr == nil {
+			resolved, err := resolveRef(rootRef, data, schemaPath, oneOfType, flatten)
+			if err != nil {
+				return nil, fmt.Errorf("failed to resolve ref %q of the root: %v", rootRef, err)
+			}
+			if data, err = overlay(resolved, data); err != nil {
+				return nil, fmt.Errorf("failed to update root with ref %q: %v", rootRef, err)
+			}
+		}
 
 		// json schema's default behavior is additionalProperties: true if the field is missing so mimic that behavior here
 		var sj = Instance{
-- 
2.43.0


From 2d420949e47efa150975e1c14e6e98234038b286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:19 +0000
Subject: [PATCH 25/67] fix: escapes and array indexes in the JSON pointer of a
 $ref are followed

---
 jsonschema/reference.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index 6254eb7..9b27495 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"net/url"
 	"path/filepath"
 	"strings"
 
@@ -207,7 +208,7 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 	if target == "" {
 		data = source
 	} else {
-		data, _, _, err = jsonparser.Get(source, strings.Split(target, "/")...)
+		data, err = resolvePointer(source, target)
 		if err != nil {
 			return nil, fmt.Errorf("failed to retrieve ref %q: %v", target, err)
 		}
@@ -221,3 +222,22 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 
 	return data, nil
 }
+
+// resolvePointer finds the value a JSON pointer, in URI fragment form without the leading slash, refers to.
+func resolvePointer(source json.RawMessage, pointer string) (json.RawMessage, error) {
+	if unescaped, err := url.PathUnescape(pointer); err == nil {
+		pointer = unescaped
+	}
+	value, dataType, _, err := jsonparser.Get(source)
+	for _, token := range strings.Split(pointer, "/") {
+		if err != nil {
+			return nil, err
+		}
+		token = strings.NewReplacer("~1", "/", "~0", "~").Replace(token)
+		if dataType == jsonparser.Array {
+			token = "[" + token + "]"
+		}
+		value, dataType, _, err = jsonparser.Get(value, token)
+	}
+	return value, err
+}
-- 
2.43.0


From 3725c871f2f4435d460ba6e7ce88f5d7be85754f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:19 +0000
Subject: [PATCH 26/67] fix: a $ref to a file whose name starts with http is a
 file reference

---
 jsonschema/reference.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index 9b27495..7918e44 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -173,7 +173,7 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 	switch {
 	case sourcePath == "":
 		source = data
-	case strings.HasPrefix(sourcePath, "http"):
+	case strings.HasPrefix(sourcePath, "http://"), strings.HasPrefix(sourcePath, "https://"):
 		resp, err := http.Get(sourcePath)
 		if err != nil {
 			return nil, fmt.Errorf("unable to get reference from %q: %v", sourcePath, err)
-- 
2.43.0


From 0f5f9f96db7f1561081e7db994fc885b2ff45200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:20 +0000
Subject: [PATCH 27/67] fix: escapes in the file name of a $ref are followed

---
 jsonschema/reference.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index 7918e44..fd19dd4 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -186,6 +186,9 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 	default: // Default to assuming it is a file reference
 		// TODO this could be rather inefficient if there are multiple references to the same sourcePath but a different
 		// target as it will currently reprocess the source file everytime
+		if unescaped, err := url.PathUnescape(sourcePath); err == nil {
+			sourcePath = unescaped
+		}
 		refPath, err := filepath.Abs(filepath.Join(filepath.Dir(schemaPath), sourcePath))
 		if err != nil {
 			return nil, fmt.Errorf("unable to expand reference filepath %q: %v", sourcePath, err)
-- 
2.43.0


From 5c74664ef82d725016519a47006984c11a15c206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 28/67] fix: schema paths with characters that have a meaning
 in URLs are validated

---
 jsonschema/validator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonschema/validator.go b/jsonschema/validator.go
index 6188a86..08b49f4 100644
--- a/jsonschema/validator.go
+++ b/jsonschema/validator.go
@@ -6,6 +6,7 @@ import (
 	"path/filepath"
 	"runtime"
 	"sort"
+	"strings"
 
 	"github.com/GannettDigital/gojsonschema"
 )
@@ -45,7 +46,8 @@ func loadSchema(schemasDir string) (*gojsonschema.Schema, error) {
 		// http://blogs.msdn.com/b/ie/archive/2006/12/06/file-uris-in-windows.aspx
 		filePrefix += "/"
 	}
-	schemaRef := filePrefix + path
+	// the path becomes part of a URL, characters with a meaning there need escaping
+	schemaRef := filePrefix + strings.NewReplacer("%", "%25", "#", "%23", "?", "%3F", "+", "%2B").Replace(path)
 
 	return validatorCache.Load(schemaRef, func() (*gojsonschema.Schema, error) {
 		return gojsonschema.NewSchema(gojsonschema.NewReferenceLoader(schemaRef))
-- 
2.43.0


From 20f20af621b32cfd405358a7a61a74f0bf4d7ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:38 +0000
Subject: [PATCH 29/67] fix: unprintable characters of a $ref are kept as JSON
 escapes

---
 jsonschema/reference.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index fd19dd4..e1549bd 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -218,7 +218,11 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 	}
 
 	data = []byte(strings.TrimSpace(string(data)))
-	data, err = jsonparser.Set(data, []byte(fmt.Sprintf("%q", ref)), fromRef)
+	quoted, err := json.Marshal(ref)
+	if err != nil {
+		return nil, fmt.Errorf("failed to quote reference %q: %v", ref, err)
+	}
+	data, err = jsonparser.Set(data, quoted, fromRef)
 	if err != nil {
 		return nil, fmt.Errorf("failed to set fromRef for reference %q: %v", ref, err)
 	}
-- 
2.43.0


From 56c07f43d02b0127e9268bb1b8bddc676f735779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 30/67] fix: a $ref at the root with whitespace around it is
 removed

---
 jsonschema/reference.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index e1549bd..3d84398 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -41,7 +41,10 @@ func dereference(schemaPath string, data json.RawMessage, oneOfType string, flat
 		destPath := refPath[:len(refPath)-1]
 		if len(destPath) == 0 {
 			// The root itself is not replaced here, only the reference is removed so it is not refound.
-			data = jsonparser.Delete(data, refKey)
+			data, err = overlay(json.RawMessage("{}"), data)
+			if err != nil {
+				return nil, fmt.Errorf("failed to remove ref %q: %w", ref, err)
+			}
 			continue
 		}
 
-- 
2.43.0


From 152731e309db7e81c17d9118e4ee3829de9a54ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:00 +0000
Subject: [PATCH 31/67] fix: schema paths with control characters are validated

---
 jsonschema/validator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonschema/validator.go b/jsonschema/validator.go
index 08b49f4..88050e9 100644
--- a/jsonschema/validator.go
+++ b/jsonschema/validator.go
@@ -3,6 +3,7 @@ package jsonschema
 import (
 	"encoding/json"
 	"fmt"
+	"net/url"
 	"path/filepath"
 	"runtime"
 	"sort"
@@ -47,7 +48,7 @@ func loadSchema(schemasDir string) (*gojsonschema.Schema, error) {
 		filePrefix += "/"
 	}
 	// the path becomes part of a URL, characters with a meaning there need escaping
-	schemaRef := filePrefix + strings.NewReplacer("%", "%25", "#", "%23", "?", "%3F", "+", "%2B").Replace(path)
+	schemaRef := filePrefix + strings.ReplaceAll((&url.URL{Path: path}).EscapedPath(), "+", "%2B")
 
 	return validatorCache.Load(schemaRef, func() (*gojsonschema.Schema, error) {
 		return gojsonschema.NewSchema(gojsonschema.NewReferenceLoader(schemaRef))
-- 
2.43.0


From 82e480248ad06e613efe03ca8f790f5280e3f558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 32/67] fix: oneOf entries that are no references are not
 selected by an empty type

---
 jsonschema/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index 50ac4e0..8316294 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -208,7 +208,7 @@ func loadSchemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (
 
 		for _, one := range sj.OneOf {
 			subName := strings.Split(filepath.Base(one.FromRef), ".")[0]
-			if subName != oneOfType {
+			if one.FromRef == "" || subName != oneOfType {
 				continue
 			}
 
-- 
2.43.0


From aa471024902d7e20957e48805d6c6c40d2931ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 33/67] fix: a schema without properties has all its allOf
 entries merged when not flattening

---
 jsonschema/schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index 8316294..7161729 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -195,8 +195,8 @@ func loadSchemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (
 		// should go through each set of files but this makes the raw walking much more complicated.
 		for _, all := range sj.AllOf {
 			// If not flattening, check that the schema also has properties in order to avoid issues with schemas that only
-			// contain oneOf/allOf references.
-			if !flatten && s.Properties != nil {
+			// contain oneOf/allOf references. The properties merged so far don't count.
+			if !flatten && sj.Properties != nil {
 				continue
 			}
 			s.Properties = mergeProperties(s.Properties, all.Properties)
-- 
2.43.0


From aa076f23a651e434a473160f2e0332fc6365a5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:19 +0000
Subject: [PATCH 34/67] fix: allOf and oneOf entries that are no references are
 not listed as types

---
 jsonschema/schema.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index 7161729..0a89d84 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -237,10 +237,16 @@ func SchemaTypes(schemaPath string) ([]string, []string, []string, error) {
 
 	var allOfTypes []string
 	for _, a := range sj.AllOf {
+		if a.Ref == "" {
+			continue
+		}
 		allOfTypes = append(allOfTypes, a.Ref)
 	}
 	var oneOfTypes []string
 	for _, one := range sj.OneOf {
+		if one.Ref == "" {
+			continue
+		}
 		oneOfTypes = append(oneOfTypes, one.Ref)
 	}
 	var properties []string
-- 
2.43.0


From 78b74725b8b1a25e512ad600a8b0283ac6aab402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:12 +0000
Subject: [PATCH 35/67] fix: the cache returns nil values of interface types

---
 jsonschema/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonschema/cache.go b/jsonschema/cache.go
index 1277e92..d6361f2 100644
--- a/jsonschema/cache.go
+++ b/jsonschema/cache.go
@@ -38,7 +38,7 @@ func (c *Cache[T]) Load(key string, builder func() (T, error)) (T, error) {
 		return zero, err
 	}
 	vReal, ok := vCache.(T)
-	if !ok {
+	if !ok && vCache != nil { // nil is the zero value of an interface type
 		return vReal, fmt.Errorf("invalid cached value; want %T, got %T", vReal, vCache)
 	}
 	return vReal, nil
-- 
2.43.0


From 31b839fa3273d30ecb589aa4560e491c2f9588ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:56 +0000
Subject: [PATCH 36/67] fix: schemas of different paths and requested types
 have different cache keys

---
 jsonschema/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index 0a89d84..7a90833 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -150,7 +150,7 @@ func loadSchemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (
 	if err != nil {
 		return nil, err
 	}
-	schemaKey := schemaPath + "|" + oneOfType + "|" + strconv.FormatBool(flatten)
+	schemaKey := strconv.Quote(schemaPath) + "|" + strconv.Quote(oneOfType) + "|" + strconv.FormatBool(flatten)
 	return schemaCache.Load(schemaKey, func() (*loadedSchema, error) {
 		data, err := os.ReadFile(schemaPath)
 		if err != nil {
-- 
2.43.0


From cc983632e9af82b2285ab4f7d264e4bbdccbc062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:09 +0000
Subject: [PATCH 37/67] fix: documents followed by other data do not validate

---
 jsonschema/validator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonschema/validator.go b/jsonschema/validator.go
index 88050e9..5a94ccc 100644
--- a/jsonschema/validator.go
+++ b/jsonschema/validator.go
@@ -57,7 +57,12 @@ func loadSchema(schemasDir string) (*gojsonschema.Schema, error) {
 
 // Validate will check that the given json is validate according the schema loaded by the Validator.
 func (v *validator) Validate(raw json.RawMessage) (bool, error) {
-	l := gojsonschema.NewBytesLoader(raw)
+	// the loader reads only the first JSON value
+	var doc json.RawMessage
+	if err := json.Unmarshal(raw, &doc); err != nil {
+		return false, fmt.Errorf("invalid JSON: %w", err)
+	}
+	l := gojsonschema.NewBytesLoader(doc)
 
 	result, err := v.schema.Validate(l)
 	if err != nil {
-- 
2.43.0


From 97bf53e6ae7a2c8763ead079b87484e4c23452e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:47 +0000
Subject: [PATCH 38/67] fix: Avro timestamps of times outside the years 1678 to
 2262 do not overflow

---
 generate/avro_helpers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index c3dbdc0..e58b5f3 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -56,7 +56,7 @@ type AvroCFDeleter interface {
 // AvroTime converts the given time.Time into an int64 compatible with an Avro timestamp.millis logical type.
 // http://avro.apache.org/docs/current/spec.html#Date
 func AvroTime(t time.Time) int64 {
-	return t.UnixNano() / (int64(time.Millisecond) / int64(time.Nanosecond))
+	return t.UnixMilli()
 }
 
 // AvroTimeSlice converts the given []time.Time into a []int64 leveraging AvroTime.
@@ -75,7 +75,7 @@ func AvroOptionalTime(t *time.Time) int64 {
 	if t == nil {
 		return 0
 	}
-	return t.UnixNano() / (int64(time.Millisecond) / int64(time.Nanosecond))
+	return t.UnixMilli()
 }
 
 // AvroOptionalTimeSlice converts the given []time.Time into a []int64 leveraging AvroTime
-- 
2.43.0


From 4fb19c31476262594c0b70c738cb6773d51cecd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:47 +0000
Subject: [PATCH 39/67] fix: free-form objects are maps with separate struct
 types too

---
 generate/struct.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generate/struct.go b/generate/struct.go
index c0adea1..07f5807 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -220,8 +220,8 @@ func (gof *goFile) walkFunc(path string, i jsonschema.Instance) error {
 		gen = gof.rootStruct
 	}
 
-	// If the types is an object create a new generated struct for it
-	if slices.Contains(i.Type, "object") {
+	// If the types is an object create a new generated struct for it, objects without properties are maps
+	if slices.Contains(i.Type, "object") && len(i.Properties) > 0 {
 		key := strings.Join(parts, "")
 		structType := key
 
-- 
2.43.0


From ebae2d123ae032cb05e9d546ba713f37028c6bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:30 +0000
Subject: [PATCH 40/67] fix: oneOf structs embed the fields of allOf only once

---
 generate/generate.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/generate/generate.go b/generate/generate.go
index 79cd534..b7ae7e8 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -135,13 +135,17 @@ func BuildStructsWithArgs(args BuildArgs) error {
 	}
 
 	var embeds []string
-	for _, allOfPath := range allOfTypes {
+	for i, allOfPath := range allOfTypes {
 		name := strings.Split(filepath.Base(allOfPath), ".")[0]
 		if newName, ok := args.StructNameMap[name]; ok {
 			name = newName
 		} else {
 			name = exportedName(name)
 		}
+		if !args.EmbedAllOf && len(properties) > 0 && i == len(allOfTypes)-1 {
+			// The struct of the root has all fields of the allOf structs, embedding them beside it makes the fields ambiguous.
+			embeds = nil
+		}
 		embeds = append(embeds, name)
 
 		path, err := buildStructFile(allOfPath, name, packageName, nil, args)
-- 
2.43.0


From a6e70bbd6198229383564316259b30b4ee2098a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:16 +0000
Subject: [PATCH 41/67] fix: quote descriptions in struct tags

---
 generate/struct.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/generate/struct.go b/generate/struct.go
index 07f5807..7417b78 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"path/filepath"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/GannettDigital/jstransform/jsonschema"
@@ -42,7 +43,9 @@ func (ef *extractedField) write(w io.Writer, prefix string, required, descriptio
 	jsonTag := fmt.Sprintf(`json:"%s%s"`, ef.jsonName, omitempty)
 	var description string
 	if descriptionAsStructTag && ef.description != "" {
-		description = fmt.Sprintf(`description:"%s"`, strings.Split(ef.description, "\n")[0])
+		// The value of a struct tag is a Go string literal, here within backquotes.
+		quoted := strconv.Quote(strings.Split(ef.description, "\n")[0])
+		description = "description:" + strings.ReplaceAll(quoted, "`", `\x60`)
 	}
 	structTag := fmt.Sprintf("`%s`\n", strings.Trim(strings.Join([]string{jsonTag, description}, " "), " "))
 
-- 
2.43.0


From 024e0ba0cfa4770644445659dd9da28ba0daac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:04 +0000
Subject: [PATCH 42/67] fix: nullable items of a list are pointers

---
 generate/struct.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generate/struct.go b/generate/struct.go
index 7417b78..e59c946 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -374,6 +374,7 @@ func addField(fields extractedFields, tree []string, inst jsonschema.Instance, f
 			f = exists
 			if f.array && f.jsonType == "" {
 				f.jsonType = jsonType
+				f.nullable = f.nullable || slices.Contains(inst.Type, "null")
 			} else {
 				return fmt.Errorf("field %q already exists but is not an array field: %q", f.name, f.jsonType)
 			}
-- 
2.43.0


From a14331c710dfb715272a9b36bbbfae52511429f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:49 +0000
Subject: [PATCH 43/67] fix: renamed fields name valid struct types

---
 generate/struct.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generate/struct.go b/generate/struct.go
index e59c946..a012d44 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"go/format"
+	"go/token"
 	"io"
 	"path/filepath"
 	"sort"
@@ -212,6 +213,9 @@ func (gof *goFile) walkFunc(path string, i jsonschema.Instance) error {
 
 	parts := []string{exportedName(gof.rootStruct.name)}
 	for _, part := range splitJSONPath(path) {
+		if newName, ok := gof.args.FieldNameMap[part]; ok && !token.IsIdentifier("T"+part) {
+			part = newName // the name can't be part of a type name
+		}
 		parts = append(parts, exportedName(part))
 	}
 
-- 
2.43.0


From 380fce327286d10b353247bafa35d20eb8c76143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:29 +0000
Subject: [PATCH 44/67] fix: keep required properties named -

---
 generate/struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generate/struct.go b/generate/struct.go
index a012d44..94ff596 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -41,6 +41,9 @@ func (ef *extractedField) write(w io.Writer, prefix string, required, descriptio
 			omitempty = ",omitempty"
 		}
 	}
+	if ef.jsonName == "-" && omitempty == "" {
+		omitempty = "," // the tag "-" alone would leave the field out of the JSON
+	}
 	jsonTag := fmt.Sprintf(`json:"%s%s"`, ef.jsonName, omitempty)
 	var description string
 	if descriptionAsStructTag && ef.description != "" {
-- 
2.43.0


From 1bd07586e8e55cc44eaf4e6a96b9ef97f6f919ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:14 +0000
Subject: [PATCH 45/67] fix: embed an allOf struct once

---
 generate/struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generate/struct.go b/generate/struct.go
index 94ff596..c7a49ef 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -162,6 +162,9 @@ func newGeneratedGoFile(schema *jsonschema.Schema, name, packageName string, emb
 			} else {
 				ref = exportedName(ref)
 			}
+			if slices.Contains(gof.rootStruct.embededStructs, ref) {
+				continue
+			}
 			gof.rootStruct.embededStructs = append(gof.rootStruct.embededStructs, ref)
 		}
 	}
-- 
2.43.0


From 23a1c7f805b45922662c46278c7af170ea9455f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:42 +0000
Subject: [PATCH 46/67] fix: keep the properties of inline allOf entries with
 EmbedAllOf

---
 generate/struct.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/generate/struct.go b/generate/struct.go
index c7a49ef..9a2acb7 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -2,10 +2,12 @@ package generate
 
 import (
 	"bytes"
+	"encoding/json"
 	"fmt"
 	"go/format"
 	"go/token"
 	"io"
+	"maps"
 	"path/filepath"
 	"sort"
 	"strconv"
@@ -154,8 +156,25 @@ func newGeneratedGoFile(schema *jsonschema.Schema, name, packageName string, emb
 	gof.rootStruct = gof.newGeneratedStruct(name, required)
 	gof.rootStruct.embededStructs = embeds
 
+	walked := schema
 	if args.EmbedAllOf {
+		properties := maps.Clone(schema.Properties) // the schema is shared
 		for _, all := range schema.AllOf {
+			if all.FromRef == "" {
+				// An inline entry has no struct to embed, its properties are fields of this one.
+				for key, value := range all.Properties {
+					if _, ok := properties[key]; !ok {
+						if properties == nil {
+							properties = make(map[string]json.RawMessage)
+						}
+						properties[key] = value
+					}
+				}
+				for _, fname := range all.Required {
+					required[fname] = true
+				}
+				continue
+			}
 			ref := strings.Split(filepath.Base(all.FromRef), ".")[0]
 			if newName, ok := args.StructNameMap[ref]; ok {
 				ref = newName
@@ -167,9 +186,12 @@ func newGeneratedGoFile(schema *jsonschema.Schema, name, packageName string, emb
 			}
 			gof.rootStruct.embededStructs = append(gof.rootStruct.embededStructs, ref)
 		}
+		merged := *schema
+		merged.Properties = properties
+		walked = &merged
 	}
 
-	if err := jsonschema.Walk(schema, gof.walkFunc); err != nil {
+	if err := jsonschema.Walk(walked, gof.walkFunc); err != nil {
 		return nil, fmt.Errorf("failed to walk schema for %q: %v", name, err)
 	}
 
-- 
2.43.0


From 9c6a41dcd0f0f1ce2f62051c4df863f75f910381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:21 +0000
Subject: [PATCH 47/67] fix: distinct type names for all nested structs

---
 generate/struct.go | 47 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/generate/struct.go b/generate/struct.go
index 9a2acb7..ac11d6f 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -136,6 +136,7 @@ type goFile struct {
 	args          BuildArgs
 	rootStruct    *generatedStruct
 	nestedStructs map[string]*generatedStruct // The key is derived from the path used by the walk function for the given struct
+	typeNames     map[string]int              // The number of nested structs for each joined name, without nested structs
 }
 
 // newGeneratedGoFile creates a go file based on the given JSON schema.
@@ -151,6 +152,7 @@ func newGeneratedGoFile(schema *jsonschema.Schema, name, packageName string, emb
 		packageName:   packageName,
 		args:          args,
 		nestedStructs: make(map[string]*generatedStruct),
+		typeNames:     make(map[string]int),
 	}
 
 	gof.rootStruct = gof.newGeneratedStruct(name, required)
@@ -191,6 +193,11 @@ func newGeneratedGoFile(schema *jsonschema.Schema, name, packageName string, emb
 		walked = &merged
 	}
 
+	if args.NoNestedStructs {
+		if err := jsonschema.Walk(walked, gof.countTypeNames); err != nil {
+			return nil, fmt.Errorf("failed to walk schema for %q: %v", name, err)
+		}
+	}
 	if err := jsonschema.Walk(walked, gof.walkFunc); err != nil {
 		return nil, fmt.Errorf("failed to walk schema for %q: %v", name, err)
 	}
@@ -230,6 +237,34 @@ func (gof *goFile) structs() []*generatedStruct {
 	return structs
 }
 
+// typeNameParts returns the names which make up the type name of a nested struct at the given path.
+func (gof *goFile) typeNameParts(path string) []string {
+	parts := []string{exportedName(gof.rootStruct.name)}
+	for _, part := range splitJSONPath(path) {
+		if newName, ok := gof.args.FieldNameMap[part]; ok && !token.IsIdentifier("T"+part) {
+			part = newName // the name can't be part of a type name
+		}
+		parts = append(parts, exportedName(part))
+	}
+	return parts
+}
+
+// countTypeNames is a jsonschema.WalkFunc which counts the nested structs that share a joined name.
+func (gof *goFile) countTypeNames(path string, i jsonschema.Instance) error {
+	if slices.Contains(i.Type, "object") && len(i.Properties) > 0 {
+		gof.typeNames[strings.Join(gof.typeNameParts(path), "")]++
+	}
+	return nil
+}
+
+// typeName joins the parts to the type name of a nested struct, with separators if the name is not unique otherwise.
+func (gof *goFile) typeName(parts []string) string {
+	if name := strings.Join(parts, ""); gof.typeNames[name] < 2 {
+		return name
+	}
+	return strings.Join(parts, "_")
+}
+
 // walkFunc is a jsonschema.WalkFunc which builds the fields for generatedStructFile within the gofile as the
 // JSON schema file is walked.
 func (gof *goFile) walkFunc(path string, i jsonschema.Instance) error {
@@ -239,16 +274,10 @@ func (gof *goFile) walkFunc(path string, i jsonschema.Instance) error {
 		return addField(gen.fields, splitJSONPath(path), i, gen.args.FieldNameMap)
 	}
 
-	parts := []string{exportedName(gof.rootStruct.name)}
-	for _, part := range splitJSONPath(path) {
-		if newName, ok := gof.args.FieldNameMap[part]; ok && !token.IsIdentifier("T"+part) {
-			part = newName // the name can't be part of a type name
-		}
-		parts = append(parts, exportedName(part))
-	}
+	parts := gof.typeNameParts(path)
 
 	// Find parent struct or if none use root struct
-	parentKey := strings.Join(parts[:len(parts)-1], "")
+	parentKey := gof.typeName(parts[:len(parts)-1])
 	name := splitJSONPath(path)[len(parts)-2]
 	gen = gof.nestedStructs[parentKey]
 	if gen == nil {
@@ -257,7 +286,7 @@ func (gof *goFile) walkFunc(path string, i jsonschema.Instance) error {
 
 	// If the types is an object create a new generated struct for it, objects without properties are maps
 	if slices.Contains(i.Type, "object") && len(i.Properties) > 0 {
-		key := strings.Join(parts, "")
+		key := gof.typeName(parts)
 		structType := key
 
 		// nullable nested structs could be pointers
-- 
2.43.0


From d658adcb31b262ce77bb1e1d4d66a3663b0953f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:45 +0000
Subject: [PATCH 48/67] fix: distinct GraphQL type names for all nested objects

---
 generate/graphql.go | 31 ++++++++++++++++++++++++-------
 generate/struct.go  | 30 +++++++++++++++---------------
 2 files changed, 39 insertions(+), 22 deletions(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 9965b3d..6be94e5 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -38,6 +38,7 @@ type goGQL struct {
 	args          BuildArgs
 	rootStruct    *generatedGraphQLObject
 	nestedStructs map[string]*generatedGraphQLObject // The key is derived from the path used by the walk function for the given struct
+	typeNames     map[string]int                     // The number of nested structs for each joined name, without nested structs
 }
 
 // generatedGraphQLObject represents a (not necessarily top-level) GraphQL type.
@@ -345,6 +346,7 @@ func newGeneratedGraphQLFile(schema jsonschema.Instance, name, packageName strin
 		packageName:   packageName,
 		args:          args,
 		nestedStructs: make(map[string]*generatedGraphQLObject),
+		typeNames:     make(map[string]int),
 	}
 
 	// Apply renaming for Go structure and GraphQL type.
@@ -370,6 +372,11 @@ func newGeneratedGraphQLFile(schema jsonschema.Instance, name, packageName strin
 		gof.rootStruct.buildType = "type"
 	}
 
+	if args.NoNestedStructs {
+		if err := jsonschema.Walk(&jsonschema.Schema{Instance: schema}, gof.countTypeNames); err != nil {
+			return nil, fmt.Errorf("failed to walk schema for %q: %w", name, err)
+		}
+	}
 	if err := jsonschema.Walk(&jsonschema.Schema{Instance: schema}, gof.walkFunc); err != nil {
 		return nil, fmt.Errorf("failed to walk schema for %q: %w", name, err)
 	}
@@ -411,6 +418,14 @@ func (gof *goGQL) structs() []*generatedGraphQLObject {
 	return structs
 }
 
+// countTypeNames is a jsonschema.WalkFunc which counts the nested structs that share a joined name.
+func (gof *goGQL) countTypeNames(path string, i jsonschema.Instance) error {
+	if slices.Contains(i.Type, "object") && len(i.Properties) > 0 {
+		gof.typeNames[strings.Join(typeNameParts(gof.rootStruct.name, path, gof.args), "")]++
+	}
+	return nil
+}
+
 // walkFunc is a jsonschema.WalkFunc which builds the fields within the gofile as the
 // JSON schema file is walked.
 func (gof *goGQL) walkFunc(path string, i jsonschema.Instance) error {
@@ -420,13 +435,10 @@ func (gof *goGQL) walkFunc(path string, i jsonschema.Instance) error {
 		return gen.addField(splitJSONPath(path), nil, i)
 	}
 
-	parts := []string{exportedName(gof.rootStruct.name)}
-	for _, part := range splitJSONPath(path) {
-		parts = append(parts, exportedName(part))
-	}
+	parts := typeNameParts(gof.rootStruct.name, path, gof.args)
 
 	// Find parent struct or if none use root struct
-	parentKey := strings.Join(parts[:len(parts)-1], "")
+	parentKey := joinTypeName(parts[:len(parts)-1], gof.typeNames)
 	name := splitJSONPath(path)[len(parts)-2]
 
 	// There's a convention that "implements" types are all lowercase,
@@ -442,6 +454,10 @@ func (gof *goGQL) walkFunc(path string, i jsonschema.Instance) error {
 	} else {
 		gqlTypeName = gen.jsonName
 	}
+	key := joinTypeName(parts, gof.typeNames)
+	if key != strings.Join(parts, "") {
+		gqlTypeName += "_" // the joined name is not unique
+	}
 	gqlTypeName += exportedName(name)
 	if newName, ok := gof.args.GraphQLTypeNameMap[gqlTypeName]; ok {
 		gqlTypeName = newName
@@ -449,7 +465,6 @@ func (gof *goGQL) walkFunc(path string, i jsonschema.Instance) error {
 
 	// If the types is an object create a new generated struct for it
 	if slices.Contains(i.Type, "object") {
-		key := strings.Join(parts, "")
 		structType := key
 
 		/*
@@ -468,7 +483,9 @@ func (gof *goGQL) walkFunc(path string, i jsonschema.Instance) error {
 		obj.description = i.Description
 		obj.arguments = i.GraphQLArguments
 		obj.target = i.Target
-		gof.nestedStructs[key] = obj
+		if len(i.Properties) > 0 {
+			gof.nestedStructs[key] = obj
+		}
 
 		// Don't add GraphQL schema for sub-objects of a targeted object.
 		if gen.target != "" || gen.buildType == "ignored" {
diff --git a/generate/struct.go b/generate/struct.go
index ac11d6f..df1a3fd 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -238,10 +238,10 @@ func (gof *goFile) structs() []*generatedStruct {
 }
 
 // typeNameParts returns the names which make up the type name of a nested struct at the given path.
-func (gof *goFile) typeNameParts(path string) []string {
-	parts := []string{exportedName(gof.rootStruct.name)}
+func typeNameParts(rootName, path string, args BuildArgs) []string {
+	parts := []string{exportedName(rootName)}
 	for _, part := range splitJSONPath(path) {
-		if newName, ok := gof.args.FieldNameMap[part]; ok && !token.IsIdentifier("T"+part) {
+		if newName, ok := args.FieldNameMap[part]; ok && !token.IsIdentifier("T"+part) {
 			part = newName // the name can't be part of a type name
 		}
 		parts = append(parts, exportedName(part))
@@ -249,22 +249,22 @@ func (gof *goFile) typeNameParts(path string) []string {
 	return parts
 }
 
+// joinTypeName joins the parts to the type name of a nested struct, with separators if the name is not unique otherwise.
+func joinTypeName(parts []string, counts map[string]int) string {
+	if name := strings.Join(parts, ""); counts[name] < 2 {
+		return name
+	}
+	return strings.Join(parts, "_")
+}
+
 // countTypeNames is a jsonschema.WalkFunc which counts the nested structs that share a joined name.
 func (gof *goFile) countTypeNames(path string, i jsonschema.Instance) error {
 	if slices.Contains(i.Type, "object") && len(i.Properties) > 0 {
-		gof.typeNames[strings.Join(gof.typeNameParts(path), "")]++
+		gof.typeNames[strings.Join(typeNameParts(gof.rootStruct.name, path, gof.args), "")]++
 	}
 	return nil
 }
 
-// typeName joins the parts to the type name of a nested struct, with separators if the name is not unique otherwise.
-func (gof *goFile) typeName(parts []string) string {
-	if name := strings.Join(parts, ""); gof.typeNames[name] < 2 {
-		return name
-	}
-	return strings.Join(parts, "_")
-}
-
 // walkFunc is a jsonschema.WalkFunc which builds the fields for generatedStructFile within the gofile as the
 // JSON schema file is walked.
 func (gof *goFile) walkFunc(path string, i jsonschema.Instance) error {
@@ -274,10 +274,10 @@ func (gof *goFile) walkFunc(path string, i jsonschema.Instance) error {
 		return addField(gen.fields, splitJSONPath(path), i, gen.args.FieldNameMap)
 	}
 
-	parts := gof.typeNameParts(path)
+	parts := typeNameParts(gof.rootStruct.name, path, gof.args)
 
 	// Find parent struct or if none use root struct
-	parentKey := gof.typeName(parts[:len(parts)-1])
+	parentKey := joinTypeName(parts[:len(parts)-1], gof.typeNames)
 	name := splitJSONPath(path)[len(parts)-2]
 	gen = gof.nestedStructs[parentKey]
 	if gen == nil {
@@ -286,7 +286,7 @@ func (gof *goFile) walkFunc(path string, i jsonschema.Instance) error {
 
 	// If the types is an object create a new generated struct for it, objects without properties are maps
 	if slices.Contains(i.Type, "object") && len(i.Properties) > 0 {
-		key := gof.typeName(parts)
+		key := joinTypeName(parts, gof.typeNames)
 		structType := key
 
 		// nullable nested structs could be pointers
-- 
2.43.0


From ef784f15f57d8bb24f39a5a09b9935cc5bed69e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:36 +0000
Subject: [PATCH 49/67] fix: serialize the use of the global Avro namer

---
 generate/avro.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/generate/avro.go b/generate/avro.go
index 071a13d..a160d98 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -13,6 +13,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"strings"
+	"sync"
 
 	"github.com/actgardner/gogen-avro/v7/generator"
 	"github.com/actgardner/gogen-avro/v7/generator/flat"
@@ -25,6 +26,9 @@ const (
 	metadataFields = `{"name":"AvroWriteTime","doc":"The timestamp when this avro data is written. Useful for identifying the newest row of data sharing keys.","type":"long","logicalType":"timestamp-millis"},{"name":"AvroDeleted","doc":"This is set to true when the Avro data is recording a delete in the source data.","default":false,"type":"boolean"},`
 )
 
+// avroNamer guards the namer of gogen-avro, which is global.
+var avroNamer sync.Mutex
+
 type avroConfig struct {
 	dir              string
 	excludeFields    map[string]bool
@@ -48,6 +52,8 @@ func (nn normalizeNamer) ToPublicName(name string) string {
 // code for the schema. It will create the directory `avro/<schema name>` and add the generated files there. The directory
 // is necessary because generated code for different types will clobber each other.
 func buildAvroSerializationFunctions(schemaPath string, args BuildArgs) error {
+	avroNamer.Lock()
+	defer avroNamer.Unlock()
 	generator.SetNamer(normalizeNamer{args.FieldNameMap})
 	schemaName := strings.Split(filepath.Base(schemaPath), ".")[0]
 	pkg := generator.NewPackage(schemaName, "// Code generated by github.com/actgardner/gogen-avro. DO NOT EDIT.")
-- 
2.43.0


From 299b1212a53ee45389ae56a0d8f851420b0a8464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:00 +0000
Subject: [PATCH 50/67] fix: serialize the use of the msgp generator

---
 generate/generate.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/generate/generate.go b/generate/generate.go
index b7ae7e8..5fb3294 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"sync"
 
 	"github.com/GannettDigital/jstransform/jsonschema"
 	"github.com/GannettDigital/msgp/gen"
@@ -19,6 +20,9 @@ const scalarAny = "scalar Any"
 const msgpSuffix = "_msgp"
 const msgpMode = gen.Encode | gen.Decode | gen.Marshal | gen.Unmarshal | gen.Size | gen.Test
 
+// msgpState guards the state of the msgp code generator, which is global.
+var msgpState sync.Mutex
+
 // BuildArgs contains information used to build the structs for a JSONschema.
 //
 //		SchemaPath is the path tot he jsonSchema file to use generate the Go struct representations
@@ -212,6 +216,9 @@ func buildAvro(name, path string, args BuildArgs) error {
 
 // buildMessagePackFile generates MessagePack serialization methods for the entire package.
 func buildMessagePackFile(outputDir string, mode gen.Method) error {
+	msgpState.Lock()
+	defer msgpState.Unlock()
+
 	fs, err := parse.File(outputDir, false)
 	if err != nil {
 		return err
-- 
2.43.0


From a01f10bc171a1222535f66f5be96c5833b33a465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:58 +0000
Subject: [PATCH 51/67] fix: GraphQL fields of nullable properties are nullable

---
 generate/graphql.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 6be94e5..5a7cf4f 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -624,6 +624,7 @@ func (gen *gqlExtractedField) addField(tree []string, gqlTypeName []string, inst
 			}
 			jsonType = iType
 		}
+		nullable := slices.Contains(typeSource, "null")
 		f := &gqlExtractedField{
 			description: inst.Description,
 			name:        exportedName(fieldName),
@@ -632,7 +633,7 @@ func (gen *gqlExtractedField) addField(tree []string, gqlTypeName []string, inst
 			args:        gen.args,
 			target:      inst.Target,
 			arguments:   inst.GraphQLArguments,
-			nullable:    slices.Contains(inst.Type, "null"),
+			nullable:    nullable,
 		}
 		// Second processing of an array type
 		if exists, ok := gen.fields[f.jsonName]; ok {
@@ -640,11 +641,12 @@ func (gen *gqlExtractedField) addField(tree []string, gqlTypeName []string, inst
 			if f.array {
 				if f.jsonType == "" {
 					f.jsonType = jsonType
+					f.nullable = nullable
 				}
 				// Need to preserve the value if this array's item type had a GraphQL hydration target.
 				if f.target == "" && inst.Target != "" {
 					f.target = "[" + inst.Target + "]"
-					if !(f.nullable || gen.args.Pointers && !gen.requiredFields[f.jsonName]) {
+					if !(f.arrayNullable || gen.args.Pointers && !gen.requiredFields[f.jsonName]) {
 						f.target += "!"
 					}
 				}
@@ -660,9 +662,9 @@ func (gen *gqlExtractedField) addField(tree []string, gqlTypeName []string, inst
 		switch f.jsonType {
 		case "array":
 			f.jsonType = ""
-			f.nullable = false
 			f.array = true
 			f.arrayNullable = f.nullable
+			f.nullable = false
 
 			totalDescription := fmt.Sprintf("The total length of the %s list at this same level in the data, this number is unaffected by filtering.", fieldName)
 			// If the field this is a total of is deprecated then also use its deprecation message (first line of description).
@@ -736,7 +738,7 @@ func (ef *gqlExtractedField) graphqlType(required, pointers bool) (string, strin
 	} else {
 		graphqlType = ef.jsonType
 	}
-	if graphqlType != "DateTime" && (regularType && !ef.nullable || required || !pointers) {
+	if graphqlType != "DateTime" && !ef.nullable && (regularType || required || !pointers) {
 		if ef.jsonType != "Any" {
 			graphqlType += "!"
 		}
-- 
2.43.0


From 62956ec493fbb40386c05d601b71868f6c5062cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:04 +0000
Subject: [PATCH 52/67] fix: GraphQL implementations name the interface that is
 written

---
 generate/graphql.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 5a7cf4f..3d5bb51 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -104,6 +104,10 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 	}
 
 	// If the schema has one or more AllOf definitions then this has an Interface type.
+	interfaceName, ok := args.GraphQLTypeNameMap[name]
+	if !ok {
+		interfaceName = exportedName(name)
+	}
 	var common []*goGQL
 	var commonFields int
 	if len(schema.AllOf) != 0 {
@@ -160,11 +164,7 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 				}
 			}
 			if len(schema.OneOf) != 0 {
-				if newName, ok := args.GraphQLTypeNameMap[packageName]; ok {
-					obj.rootStruct.gqlExtractedField.jsonName = newName
-				} else {
-					obj.rootStruct.gqlExtractedField.jsonName = exportedName(packageName)
-				}
+				obj.rootStruct.gqlExtractedField.jsonName = interfaceName
 				obj.rootStruct.gqlExtractedField.name = obj.rootStruct.gqlExtractedField.jsonName
 				obj.rootStruct.buildType = "interface"
 			}
@@ -183,13 +183,7 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 		}
 		if len(schema.AllOf) != 0 {
 			// Only an implementation of an interface if there was also an AllOf schema.
-			var implements string
-			if newName, ok := args.GraphQLTypeNameMap[name]; ok {
-				implements = newName
-			} else {
-				implements = exportedName(name)
-			}
-			generated.rootStruct.implements = implements
+			generated.rootStruct.implements = interfaceName
 		}
 		if args.EmbedAllOf && len(oneOfSchema.AllOf) != 0 {
 			for _, allOf := range oneOfSchema.AllOf {
-- 
2.43.0


From 2677c90888290f9ebc74d29a977d35133974f430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:10 +0000
Subject: [PATCH 53/67] fix: quote GraphQL descriptions and deprecation reasons

---
 generate/graphql.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 3d5bb51..5eff1ea 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -270,7 +270,7 @@ func (ef *gqlExtractedField) write(w io.Writer, prefix string, required, descrip
 	if strings.HasPrefix(description, "DEPRECATED:") {
 		// First line is the deprecation reason and the rest is the normal description.
 		lines := strings.Split(description, "\n")
-		attribute = fmt.Sprintf(" @deprecated(reason: %q)", strings.TrimSpace(strings.TrimPrefix(lines[0], "DEPRECATED:")))
+		attribute = fmt.Sprintf(" @deprecated(reason: %s)", graphqlString(strings.TrimSpace(strings.TrimPrefix(lines[0], "DEPRECATED:"))))
 		description = strings.TrimSpace(strings.Join(lines[1:], "\n"))
 	}
 	if description != "" {
@@ -757,14 +757,33 @@ func (ef *gqlExtractedField) graphqlType(required, pointers bool) (string, strin
 	return graphqlArguments, graphqlType
 }
 
+// graphqlString returns the value as a GraphQL string.
+func graphqlString(value string) string {
+	var quoted strings.Builder
+	quoted.WriteByte('"')
+	for _, r := range value {
+		switch {
+		case r == '"' || r == '\\':
+			quoted.WriteByte('\\')
+			quoted.WriteRune(r)
+		case r < ' ' && r != '\t' || r == 0x7f:
+			fmt.Fprintf(&quoted, `\u%04X`, r)
+		default:
+			quoted.WriteRune(r)
+		}
+	}
+	quoted.WriteByte('"')
+	return quoted.String()
+}
+
 // graphqlComment takes a string and returns GraphQL comment syntax.
 func graphqlComment(prefix, description string) string {
 	if strings.IndexRune(description, '\n') < 0 {
-		return fmt.Sprintf("%s\"%s\"\n", prefix, description)
+		return fmt.Sprintf("%s%s\n", prefix, graphqlString(description))
 	}
 	// Multi-line descriptions get the """ comment syntax.
 	newDescription := prefix + `"""` + "\n"
-	for _, line := range strings.Split(description, "\n") {
+	for _, line := range strings.Split(strings.ReplaceAll(description, `"""`, `\"""`), "\n") {
 		if line != "" {
 			newDescription += prefix + line
 		}
-- 
2.43.0


From ab916084c428a3b15cc076a1a1378dbdb4fc65c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:16 +0000
Subject: [PATCH 54/67] fix: nested GraphQL types of every allOf entry are
 named after their own file

---
 generate/graphql.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 5eff1ea..0ec1618 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -113,14 +113,16 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 	if len(schema.AllOf) != 0 {
 		common = make([]*goGQL, 0, len(schema.AllOf))
 		for _, allOfSchema := range schema.AllOf {
-			baseName := strings.Split(filepath.Base(schema.AllOf[0].FromRef), ".")[0]
+			baseName := name // an entry that is no reference
+			if allOfSchema.FromRef != "" {
+				baseName = strings.Split(filepath.Base(allOfSchema.FromRef), ".")[0]
+			}
 			generated, err := newGeneratedGraphQLFile(allOfSchema, baseName, packageName, false, args)
 			if err != nil {
 				return fmt.Errorf("failed to build generated struct: %w", err)
 			}
 			common = append(common, generated)
 		}
-		// TODO: Doesn't handle multiple AllOf properly with regard to mapping to Go type name.  Ex: `BaseLinks`.
 		// TODO: Having to merge all the sub-parsed schema files into a single one synthesized here is regretable.
 		obj := goGQL{
 			packageName: packageName,
@@ -143,7 +145,10 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 		}
 		if len(common) != 0 {
 			obj.rootStruct.gqlExtractedField.jsonName = exportedName(packageName)
-			name := strings.Split(filepath.Base(schema.AllOf[0].FromRef), ".")[0]
+			name := name
+			if schema.AllOf[0].FromRef != "" {
+				name = strings.Split(filepath.Base(schema.AllOf[0].FromRef), ".")[0]
+			}
 			if newName, ok := args.StructNameMap[name]; ok {
 				name = newName
 			} else {
-- 
2.43.0


From ad4b37909a59c58a785887a61c1bd784f847c659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:22 +0000
Subject: [PATCH 55/67] fix: fields of nested allOf entries stay in their own
 GraphQL type

---
 generate/graphql.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/generate/graphql.go b/generate/graphql.go
index 0ec1618..c2a0c8c 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -110,6 +110,7 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 	}
 	var common []*goGQL
 	var commonFields int
+	commonNested := make(map[string]bool) // The nested structs of the AllOf definitions written so far.
 	if len(schema.AllOf) != 0 {
 		common = make([]*goGQL, 0, len(schema.AllOf))
 		for _, allOfSchema := range schema.AllOf {
@@ -166,6 +167,7 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 				}
 				for nk, nv := range com.nestedStructs {
 					obj.nestedStructs[nk] = nv
+					commonNested[nk] = true
 				}
 			}
 			if len(schema.OneOf) != 0 {
@@ -190,6 +192,7 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 			// Only an implementation of an interface if there was also an AllOf schema.
 			generated.rootStruct.implements = interfaceName
 		}
+		common := slices.Clone(common)
 		if args.EmbedAllOf && len(oneOfSchema.AllOf) != 0 {
 			for _, allOf := range oneOfSchema.AllOf {
 				baseName := strings.Split(filepath.Base(allOf.FromRef), ".")[0]
@@ -198,6 +201,12 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 					return fmt.Errorf("failed to build generated struct: %w", err)
 				}
 				common = append(common, allOfGen)
+				for nk, nv := range allOfGen.nestedStructs {
+					if !commonNested[nk] {
+						generated.nestedStructs[nk] = nv
+						commonNested[nk] = true
+					}
+				}
 			}
 		}
 
-- 
2.43.0


From 87cd409814029e0bbecc9af63528705b2d04358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:28 +0000
Subject: [PATCH 56/67] fix: GraphQL targets of list items

---
 generate/graphql.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index c2a0c8c..a7e6e72 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -652,7 +652,9 @@ func (gen *gqlExtractedField) addField(tree []string, gqlTypeName []string, inst
 					f.nullable = nullable
 				}
 				// Need to preserve the value if this array's item type had a GraphQL hydration target.
-				if f.target == "" && inst.Target != "" {
+				if f.target == "" && inst.Target != "" && f.jsonType != "graphql-hydration" {
+					f.target = inst.Target
+				} else if f.target == "" && inst.Target != "" {
 					f.target = "[" + inst.Target + "]"
 					if !(f.arrayNullable || gen.args.Pointers && !gen.requiredFields[f.jsonName]) {
 						f.target += "!"
-- 
2.43.0


From a6c25a40567a874aaee98e29356284560204bd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:15 +0000
Subject: [PATCH 57/67] fix: relative output directories like . give a valid
 package name

---
 generate/generate.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/generate/generate.go b/generate/generate.go
index 5fb3294..d3e47cb 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -105,13 +105,11 @@ func BuildStructsRename(schemaPath string, outputDir string, useMessagePack bool
 //
 // NOTE: If oneOf/allOf entries exist than any JSON schema instances in the root schema file will be skipped.
 func BuildStructsWithArgs(args BuildArgs) error {
-	if args.OutputDir == "" {
-		wd, err := os.Getwd()
-		if err != nil {
-			return fmt.Errorf("failed to determine working directory: %v", err)
-		}
-		args.OutputDir = wd
+	outputDir, err := filepath.Abs(args.OutputDir) // the current working directory if empty
+	if err != nil {
+		return fmt.Errorf("failed to determine absolute path of %q: %v", args.OutputDir, err)
 	}
+	args.OutputDir = outputDir
 	if args.OutputDirGraphQL == "" {
 		args.OutputDirGraphQL = args.OutputDir
 	}
-- 
2.43.0


From c9e50f5b1492f348bebe6aed98570de4a8748603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:45 +0000
Subject: [PATCH 58/67] fix: Avro schema of structs that redefine embedded
 fields

---
 generate/avro.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/generate/avro.go b/generate/avro.go
index a160d98..7d734d5 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -351,11 +351,20 @@ func writeAvroFields(cfg avroConfig, list *ast.FieldList) {
 			fieldMap[f.Names[0].Name] = true
 		}
 	}
-	for i, f := range list.List {
-		processed := writeAvroField(cfg, f, fieldMap)
-		if processed && i+1 != length {
+	var written bool
+	for _, f := range list.List {
+		buf := &bytes.Buffer{}
+		fieldCfg := cfg
+		fieldCfg.writer = buf
+		writeAvroField(fieldCfg, f, fieldMap)
+		if buf.Len() == 0 {
+			continue
+		}
+		if written {
 			fmt.Fprint(cfg.writer, ",")
 		}
+		written = true
+		fmt.Fprint(cfg.writer, buf.String())
 	}
 }
 
-- 
2.43.0


From 9972496cc753e88ad9523d05b6dc694defe51e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:51 +0000
Subject: [PATCH 59/67] fix: Avro code for embedded structs that are renamed or
 in a file of another name

---
 generate/avro.go         | 11 ++++++++++-
 generate/avro_helpers.go |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/generate/avro.go b/generate/avro.go
index 7d734d5..6e1a890 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -193,6 +193,15 @@ func parseGoStruct(name, path string) (*ast.TypeSpec, error) {
 	return t, nil
 }
 
+// parseEmbeddedStruct parses the type definition of an embedded struct. It is expected in a file named like the struct
+// but may, for example if the struct was renamed, be in any other go file in the directory.
+func parseEmbeddedStruct(name, dir string) (*ast.TypeSpec, error) {
+	if spec, err := parseGoStruct(name, filepath.Join(dir, structToFilename(name))); err == nil {
+		return spec, nil
+	}
+	return parseGoStruct(name, dir)
+}
+
 // filterPackage will filter all the go files found at the path returning a *ast.File containing name.
 func filterPackage(name, path string) (*ast.File, error) {
 	fileSet := token.NewFileSet()
@@ -370,7 +379,7 @@ func writeAvroFields(cfg avroConfig, list *ast.FieldList) {
 
 func writeEmbeddedStructFields(cfg avroConfig) {
 	structName := cfg.namespace[len(cfg.namespace)-1]
-	spec, err := parseGoStruct(structName, filepath.Join(cfg.dir, structToFilename(structName)))
+	spec, err := parseEmbeddedStruct(structName, cfg.dir)
 	if err != nil {
 		fmt.Fprint(cfg.writer, `{"type":"embedded struct not found"}`)
 		return
diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index e58b5f3..bf377e8 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -508,7 +508,7 @@ func mapFields(list *ast.FieldList, srcDir string) (map[string]*ast.Field, error
 				continue
 			}
 			embedName := t.Name
-			embedStruct, err := parseGoStruct(embedName, filepath.Join(srcDir, structToFilename(embedName)))
+			embedStruct, err := parseEmbeddedStruct(embedName, srcDir)
 			if err != nil {
 				return nil, fmt.Errorf("failed to parse embedded go struct %q: %v", embedName, err)
 			}
-- 
2.43.0


From 61a74aa3140b536f32ab75597c342836c8e8f83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:13 +0000
Subject: [PATCH 60/67] fix: Avro code for property names that end with an
 underscore

---
 generate/avro.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generate/avro.go b/generate/avro.go
index 6e1a890..f479d86 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -45,7 +45,9 @@ func (nn normalizeNamer) ToPublicName(name string) string {
 	if fnm, exists := nn.fieldNameMap[name]; exists {
 		name = fnm
 	}
-	return generator.ToPublicSimpleName(name)
+	// Unlike generator.ToPublicSimpleName trailing underscores are kept, they are part of the name of the Go field.
+	name = name[strings.LastIndex(name, ".")+1:]
+	return exportedName(strings.TrimLeft(name, "_"))
 }
 
 // buildAvroSerializationFunctions will run gogen-avro on the given schema to build a serialization and deserialization
-- 
2.43.0


From 2fabedd3fe5e2564d1567465054722a09580ae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:11 +0000
Subject: [PATCH 61/67] fix: Avro code for lists of objects with date-time
 pointers

---
 generate/avro_helpers.go | 46 +++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index bf377e8..94dcf8c 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -13,6 +13,8 @@ import (
 	"strings"
 	"text/template"
 	"time"
+
+	"golang.org/x/tools/go/ast/astutil"
 )
 
 // invalidFieldNames is a list of field names that conflict with hard-coded method names on
@@ -545,36 +547,28 @@ func printFields(list *ast.FieldList) string {
 			// Embedded struct, skipping for this
 			continue
 		}
-		name := f.Names[0]
-
-		switch fType := f.Type.(type) {
-		case *ast.Ident:
-			out += fmt.Sprintf("%s %s %s\n", name, fType.Name, f.Tag.Value)
-		case *ast.ArrayType:
-			// Handle the case where an array of structs is inside an array of structs.
-			str, ok := fType.Elt.(*ast.StructType)
-			if ok {
-				out += fmt.Sprintf("%s []struct{\n%s} %s\n", name, printFields(str.Fields), f.Tag.Value)
-				continue
-			}
-
-			ident, ok := fType.Elt.(*ast.Ident)
-			if !ok {
-				return "unknown array type"
-			}
-			out += fmt.Sprintf("%s []%s %s\n", name, ident.Name, f.Tag.Value)
-		case *ast.SelectorExpr:
-			if fType.Sel.Name != "Time" {
-				return fmt.Sprintf(`unsupported type %q`, fType.Sel.Name)
-			}
-			out += fmt.Sprintf("%s time.Time %s\n", name, f.Tag.Value)
-		case *ast.StructType:
-			out += fmt.Sprintf("%s struct{\n%s} %s\n", name, printFields(fType.Fields), f.Tag.Value)
-		}
+		out += fmt.Sprintf("%s %s %s\n", f.Names[0], printType(f.Type), f.Tag.Value)
 	}
 	return out
 }
 
+// printType outputs the type of a field as it was read from the original code.
+func printType(expr ast.Expr) string {
+	switch t := expr.(type) {
+	case *ast.Ident:
+		return t.Name
+	case *ast.StarExpr:
+		return "*" + printType(t.X)
+	case *ast.ArrayType:
+		return "[]" + printType(t.Elt)
+	case *ast.SelectorExpr:
+		return printType(t.X) + "." + t.Sel.Name
+	case *ast.StructType:
+		return fmt.Sprintf("struct{\n%s}", printFields(t.Fields))
+	}
+	return fmt.Sprintf("unsupported type %q", astutil.NodeDescription(expr))
+}
+
 // writeCodeTemplate will execute a template from src with values and write to path.
 // The assumption is this is go code so it will have standard go formatting applied.
 func writeCodeTemplate(src string, values map[string]string, path string) error {
-- 
2.43.0


From 75bf07a7a23b2d43d29b6446a82931dee95c0a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:43 +0000
Subject: [PATCH 62/67] fix: Avro code for several nested objects of the same
 name

---
 generate/avro.go | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/generate/avro.go b/generate/avro.go
index f479d86..beaedca 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -12,6 +12,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"regexp"
 	"strings"
 	"sync"
 
@@ -35,6 +36,7 @@ type avroConfig struct {
 	namespace        []string
 	writer           io.Writer
 	excludeNamespace map[string]bool
+	records          map[string]string // the contents of the nested records written so far keyed by the name of their Go type
 }
 
 type normalizeNamer struct {
@@ -133,6 +135,7 @@ func buildAvroSchemaFile(name, goSourcePath string, pretty bool) (string, error)
 		dir:              dir,
 		writer:           writer,
 		excludeNamespace: make(map[string]bool),
+		records:          make(map[string]string),
 	}
 
 	fmt.Fprint(cfg.writer, "{")
@@ -478,10 +481,34 @@ func writeNestedStruct(cfg avroConfig, n ast.Node, name string, nullable bool) s
 	newcfg.namespace = append(cfg.namespace, name)
 	newcfg.writer = buf
 	newcfg.excludeFields = nil
-	// nested structs get _struct appended on their name
+	// nested structs get _record appended on their name
 	astutil.Apply(n, writeAvroStruct(newcfg, name+"_record", ""), nil)
+	record := cfg.uniqueRecord(buf.String(), name, strings.Join(newcfg.namespace, "_"))
 	if nullable {
-		return fmt.Sprintf(`["null",{%s]}]`, buf.String())
+		return fmt.Sprintf(`["null",{%s]}]`, record)
+	}
+	return fmt.Sprintf("{%s]}", record)
+}
+
+var recordDetails = regexp.MustCompile(`"namespace":"[^"]*",?|,"doc":"(?:[^"\\]|\\.)*"`)
+
+// uniqueRecord returns the record, under a longer name if one with the same name but other fields was written before.
+// The code generated for the schema has a Go type for each record name without regard to the namespace.
+func (cfg avroConfig) uniqueRecord(record, name, longName string) string {
+	rest := strings.TrimPrefix(record, fmt.Sprintf(`"name":%q`, name+"_record"))
+	contents := recordDetails.ReplaceAllString(rest, "")
+	for i := 0; ; i++ {
+		switch i {
+		case 0:
+		case 1:
+			name = longName
+		default:
+			name = fmt.Sprintf("%s_%d", longName, i)
+		}
+		key := strings.ToLower(strings.ReplaceAll(name, "_", "")) // the names of the generated files tell no more apart
+		if other, ok := cfg.records[key]; !ok || other == contents {
+			cfg.records[key] = contents
+			return fmt.Sprintf(`"name":%q`, name+"_record") + rest
+		}
 	}
-	return fmt.Sprintf("{%s]}", buf.String())
 }
-- 
2.43.0


From 9f2b7bbf43d3ac92fc6459062de7d69af53c0d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:14 +0000
Subject: [PATCH 63/67] fix: Avro code for properties named like methods of the
 Avro types

---
 generate/avro_helpers.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index 94dcf8c..4157a98 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -283,7 +283,7 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 		// check for a nil pointer
 		if _, ok := generatedField.Type.(*ast.StarExpr); ok {
 			return mappedFields{
-				fieldMapping:  fm.generateNullableFieldValue(name, prefix, mappedField.name, fmt.Sprintf("&%s", mappedField.fieldMapping)),
+				fieldMapping:  fm.generateNullableFieldValue(generatedField.Names[0].Name, prefix, mappedField.name, fmt.Sprintf("&%s", mappedField.fieldMapping)),
 				preProcessing: mappedField.preProcessing,
 			}, nil
 		}
@@ -345,7 +345,7 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 		// If not a built in type it could be a special Avro Union type
 		if tmpl, ok := fm.unionTemplates[typeName]; ok {
 			buf := &bytes.Buffer{}
-			format := map[string]string{"packageName": fm.packageName, "value": "z." + prefix + name}
+			format := map[string]string{"packageName": fm.packageName, "value": "z." + prefix + generatedField.Names[0].Name}
 			// special case for converting time fields
 			fieldType := generatedField.Type
 			pointer := false
@@ -354,7 +354,7 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 				fieldType = p.X
 			}
 			if selector, ok := fieldType.(*ast.SelectorExpr); ok && selector.Sel.Name == "Time" {
-				format = map[string]string{"packageName": fm.packageName, "value": fmt.Sprintf("generate.AvroTime(z.%s)", prefix+name)}
+				format = map[string]string{"packageName": fm.packageName, "value": fmt.Sprintf("generate.AvroTime(z.%s)", prefix+generatedField.Names[0].Name)}
 			}
 			if err := tmpl.Execute(buf, format); err != nil {
 				return mappedFields{}, fmt.Errorf("failed union template: %v", err)
@@ -453,7 +453,7 @@ func (fm *avroFieldMapper) generateStructValue(name, prefix, typeName string, ge
 		}, nil
 	}
 
-	mappedField, _, err := fm.generateChildStruct(generatedField.Type, prefix+name, prefix+name+".", avroFields)
+	mappedField, _, err := fm.generateChildStruct(generatedField.Type, prefix+name, prefix+generatedField.Names[0].Name+".", avroFields)
 	if err != nil {
 		return mappedFields{}, err
 	}
-- 
2.43.0


From 20d811153a925e6e8701123f8aef9df0fdca4f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:15 +0000
Subject: [PATCH 64/67] fix: Avro code sets fields whose names start with Avro

---
 generate/avro_helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index 4157a98..904c06d 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -249,7 +249,7 @@ func (fm *avroFieldMapper) generateFields(prefix string, avroFields *ast.FieldLi
 			return mappedFields{}, errors.New("unknown embedded field in Avro struct")
 		}
 		name := f.Names[0].Name
-		if strings.HasPrefix(name, "Avro") { // skip metadata fields which are populated in the templated code
+		if name == "AvroWriteTime" || name == "AvroDeleted" { // skip metadata fields which are populated in the templated code
 			continue
 		}
 		generatedField, ok := generatedFieldsMap[name]
-- 
2.43.0


From 84f7801c59239d42a3c187e8950cdd42ed55c9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:19 +0000
Subject: [PATCH 65/67] fix: anyOf entries of referenced files keep all their
 keywords

---
 jsonschema/schema.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index 7a90833..d712992 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -24,7 +24,9 @@ type loadedSchema struct {
 // marshal returns the JSON of the schema. Keywords which are not part of Instance, such as transform, default or enum,
 // and empty values which Instance omits are taken from the JSON the schema was read from.
 func (l *loadedSchema) marshal() (json.RawMessage, error) {
-	data, err := json.Marshal(l.schema)
+	s := *l.schema
+	s.AnyOf = nil // its entries may hold such keywords, too
+	data, err := json.Marshal(s)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 342e06bfddbbdd8273ec80fc17d7af20fd2f65d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:19 +0000
Subject: [PATCH 66/67] fix: descriptions holding NUL or U+FEFF generate code

---
 generate/struct.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/generate/struct.go b/generate/struct.go
index df1a3fd..f931570 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -18,6 +18,9 @@ import (
 	"golang.org/x/exp/slices"
 )
 
+// commentReplacer removes the characters which are not allowed in Go source code.
+var commentReplacer = strings.NewReplacer("\x00", "", "\ufeff", "")
+
 // extractedField represents a Golang struct field as extracted from a JSON schema file. It is an intermediate format
 // that is populated while parsing the JSON schema file then used when generating the Golang code for the struct.
 type extractedField struct {
@@ -56,7 +59,7 @@ func (ef *extractedField) write(w io.Writer, prefix string, required, descriptio
 	structTag := fmt.Sprintf("`%s`\n", strings.Trim(strings.Join([]string{jsonTag, description}, " "), " "))
 
 	if !descriptionAsStructTag && ef.description != "" {
-		for _, line := range strings.Split(ef.description, "\n") {
+		for _, line := range strings.Split(commentReplacer.Replace(ef.description), "\n") {
 			if _, err := w.Write([]byte(fmt.Sprintf("// %s\n", line))); err != nil {
 				return err
 			}
-- 
2.43.0


From 91343f6ca8fd744684c65e5a75ba94aab29d4ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:10 +0000
Subject: [PATCH 67/67] fix: Avro documentation of descriptions with control
 characters is valid JSON

---
 generate/avro.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/generate/avro.go b/generate/avro.go
index beaedca..800d33e 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -346,13 +346,24 @@ func writeAvroField(cfg avroConfig, f *ast.Field, fieldMap map[string]bool) bool
 		avroName += fmt.Sprintf(`,"namespace":%q`, strings.Join(cfg.namespace, "."))
 	}
 	if tagDescription != "" {
-		avroName += fmt.Sprintf(`,"doc":%q`, tagDescription)
+		avroName += fmt.Sprintf(`,"doc":%s`, quoteJSON(commentReplacer.Replace(tagDescription)))
 	}
 
 	fmt.Fprintf(cfg.writer, "{%s,%s}", avroName, avroType)
 	return true
 }
 
+// quoteJSON returns the JSON string for the value, which unlike a Go string has no \x, \a, \v or \U escapes.
+func quoteJSON(value string) string {
+	buf := &bytes.Buffer{}
+	enc := json.NewEncoder(buf)
+	enc.SetEscapeHTML(false)
+	if err := enc.Encode(value); err != nil {
+		return `""`
+	}
+	return strings.TrimSpace(buf.String())
+}
+
 // writeAvroFields loops through a list of fields in a struct writing out the Avro values for the fields and adding
 // trailing commas as appropriate for JSON.
 func writeAvroFields(cfg avroConfig, list *ast.FieldList) {
-- 
2.43.0

