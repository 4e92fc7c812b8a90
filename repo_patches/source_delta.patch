From 8c3df1f33a03d57a3f5eb61b510cb4932422f2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:02 +0000
Subject: [PATCH 01/66] fix: appending to a list no longer shares storage with
 the original list nor alters the supplied values

---
 collections/implementation/list_helper.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/collections/implementation/list_helper.go b/collections/implementation/list_helper.go
index abac497..782e9f2 100644
--- a/collections/implementation/list_helper.go
+++ b/collections/implementation/list_helper.go
@@ -17,14 +17,16 @@ type ListHelper struct {
 
 // Add adds elements at the end of the supplied list.
 func (lh ListHelper) Add(list baseIList, prepend bool, objects ...interface{}) baseIList {
-	array := list.AsArray()
+	array, added := list.AsArray(), make([]interface{}, len(objects))
 	for i := range objects {
-		objects[i] = lh.Convert(objects[i])
+		added[i] = lh.Convert(objects[i])
 	}
 	if prepend {
-		array, objects = objects, array
+		array, added = added, array
 	}
-	return lh.AsList(append(array, objects...))
+	// The result must not share its storage with the original list or with the supplied objects
+	result := make([]interface{}, 0, len(array)+len(added))
+	return lh.AsList(append(append(result, array...), added...))
 }
 
 // Clone returns a copy of the supplied list.
-- 
2.43.0


From 03e5a34411fb3545ffa0e80546ec68ab84495bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:34 +0000
Subject: [PATCH 02/66] fix: removing elements from a list no longer alters the
 indexes supplied by the caller

---
 collections/implementation/list_helper.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/collections/implementation/list_helper.go b/collections/implementation/list_helper.go
index 782e9f2..989b239 100644
--- a/collections/implementation/list_helper.go
+++ b/collections/implementation/list_helper.go
@@ -168,12 +168,14 @@ func (lh ListHelper) Intersect(list baseIList, values ...interface{}) baseIList
 
 // Remove returns a new list without the element specified.
 func (lh ListHelper) Remove(list baseIList, indexes ...int) baseIList {
+	positions := make([]int, len(indexes))
 	for i, index := range indexes {
 		if index < 0 {
-			indexes[i] += list.Len()
+			index += list.Len()
 		}
+		positions[i] = index
 	}
-	discard := collections.AsList(indexes)
+	discard := collections.AsList(positions)
 	target := list.Create(0, list.Len())
 	for i := range list.AsArray() {
 		if !discard.Contains(i) {
-- 
2.43.0


From b55a7e80b3151a88b4c3bd3a42d4a18bc68a84c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:49 +0000
Subject: [PATCH 03/66] fix: cloning a list copies nested collections and no
 longer flattens a single nested list

---
 collections/implementation/list_helper.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/collections/implementation/list_helper.go b/collections/implementation/list_helper.go
index 989b239..e7fc837 100644
--- a/collections/implementation/list_helper.go
+++ b/collections/implementation/list_helper.go
@@ -29,9 +29,20 @@ func (lh ListHelper) Add(list baseIList, prepend bool, objects ...interface{}) b
 	return lh.AsList(append(append(result, array...), added...))
 }
 
-// Clone returns a copy of the supplied list.
+// Clone returns a distinct copy of the supplied list (nested lists and dictionaries are also copied).
 func (lh ListHelper) Clone(list baseIList) baseIList {
-	return lh.NewList(list.AsArray()...)
+	result := lh.CreateList(list.Len())
+	for i, value := range list.AsArray() {
+		if value != nil {
+			if dict, err := lh.TryAsDictionary(value); err == nil {
+				value = dict.Clone()
+			} else if list, err := lh.TryAsList(value); err == nil {
+				value = list.Clone()
+			}
+		}
+		result.Set(i, value)
+	}
+	return result
 }
 
 // Contains indicates if the list contains all specified elements
-- 
2.43.0


From 5760dfc885e647d5045448087b5fe6b0acf4568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:04 +0000
Subject: [PATCH 04/66] fix: pickv returns the entries matching the supplied
 keys

---
 template/extra_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/extra_data.go b/template/extra_data.go
index df47fb3..f69c4a7 100644
--- a/template/extra_data.go
+++ b/template/extra_data.go
@@ -524,7 +524,7 @@ func pickv(dict iDictionary, message string, key interface{}, otherKeys ...inter
 		}
 		return nil, errors.New(message)
 	}
-	return pick(dict, append(otherKeys, key)), nil
+	return pick(dict, append([]interface{}{key}, otherKeys...)...), nil
 }
 
 func keys(dict iDictionary) iList   { return dict.GetKeys() }
-- 
2.43.0


From f2067c3ba688979c4791b0ac139294f469bfb765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:08 +0000
Subject: [PATCH 05/66] fix: pluck returns the values it found

---
 template/extra_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/extra_data.go b/template/extra_data.go
index f69c4a7..ea6c37c 100644
--- a/template/extra_data.go
+++ b/template/extra_data.go
@@ -546,7 +546,7 @@ func pluck(key interface{}, dicts ...iDictionary) iList {
 	result := collections.CreateList(0, len(dicts))
 	for i := range dicts {
 		if dicts[i].Has(key) {
-			result.Append(dicts[i].Get(key))
+			result = result.Append(dicts[i].Get(key))
 		}
 	}
 	return result
-- 
2.43.0


From 6d427dcbe46c79b479ba3968b8450b1fef8fadc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:36 +0000
Subject: [PATCH 06/66] fix: slicing a list or a string outside of its limits
 is no longer an error

---
 template/slice.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/template/slice.go b/template/slice.go
index de7ed0e..23dc8fe 100644
--- a/template/slice.go
+++ b/template/slice.go
@@ -122,8 +122,8 @@ func sliceList(value reflect.Value, args ...interface{}) (result interface{}, er
 	}
 
 	// For slice operation, there is no error if the index are of limit
-	end = int(min(end, length).(int64))
-	begin = int(max(begin, 0).(int64))
+	end = int(max(min(end, length), 0).(int64))
+	begin = int(min(max(begin, 0), length).(int64))
 
 	if value.Kind() == reflect.String {
 		// String slices are returned as string instead of array of runes
@@ -134,10 +134,6 @@ func sliceList(value reflect.Value, args ...interface{}) (result interface{}, er
 		return result, nil
 	}
 
-	if begin > length {
-		// Begin is after the end
-		return collections.AsList(value.Interface()).Create(), nil
-	}
 	results := collections.AsList(value.Interface()).Create(end - begin)
 	for i := range results.AsArray() {
 		results.Set(i, value.Index(i+begin).Interface())
-- 
2.43.0


From f04c0bb6535aaa56a9e8948a323880479cc66d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:36 +0000
Subject: [PATCH 07/66] fix: merging several dictionaries no longer changes the
 dictionaries nested in the sources

---
 collections/implementation/dict_helper.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/collections/implementation/dict_helper.go b/collections/implementation/dict_helper.go
index e2dfc6a..6c260ba 100644
--- a/collections/implementation/dict_helper.go
+++ b/collections/implementation/dict_helper.go
@@ -152,7 +152,12 @@ func (dh DictHelper) deepMerge(target baseIDict, source baseIDict) baseIDict {
 		sourceValueDict, sourceValueIsDict := sourceValue.(baseIDict)
 
 		if sourceValueIsDict && targetValueIsDict {
-			targetMap[key] = dh.deepMerge(targetValueDict, sourceValueDict)
+			// The target value may belong to a previous source, so we merge into a copy to leave that source unchanged
+			merged := targetValueDict.Create(targetValueDict.Len() + sourceValueDict.Len())
+			for k, v := range targetValueDict.AsMap() {
+				merged.AsMap()[k] = v
+			}
+			targetMap[key] = dh.deepMerge(merged, sourceValueDict)
 		}
 	}
 
-- 
2.43.0


From 8b334a122ebc4e95520e94b9da5ecdadc5e34814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:18 +0000
Subject: [PATCH 08/66] fix: numeric results that cannot be represented as an
 integer are no longer converted to a bogus one

---
 template/math_utilities.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/template/math_utilities.go b/template/math_utilities.go
index 86df30e..efcf71d 100644
--- a/template/math_utilities.go
+++ b/template/math_utilities.go
@@ -126,8 +126,12 @@ func convertArgs(arg1 interface{}, args ...interface{}) (result collections.IGen
 	return collections.NewList(arg1).Append(args...)
 }
 
+// simplify returns the value as an integer if it is a whole number that can be represented by an int64
 func simplify(value float64) interface{} {
-	return iif(math.Floor(value) == value, int64(value), value)
+	if math.Floor(value) == value && value >= math.MinInt64 && value < -math.MinInt64 {
+		return int64(value)
+	}
+	return value
 }
 
 func compareNumerics(values []interface{}, useMinFunc bool) interface{} {
-- 
2.43.0


From a7ae32d55e5ade0b85496d162bece3149a77b22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:58 +0000
Subject: [PATCH 09/66] fix: numeric ranges contain the exact progression, and
 always end

---
 template/math_utilities.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/template/math_utilities.go b/template/math_utilities.go
index efcf71d..f4454b7 100644
--- a/template/math_utilities.go
+++ b/template/math_utilities.go
@@ -166,15 +166,12 @@ func generateNumericArray(limit bool, params ...interface{}) (result collections
 
 	var start, stop float64
 	var step float64 = 1
-	var precision int
 	switch len(params) {
 	case 1:
 		start = float64(iif(limit, 1, 0).(int))
 		stop = toFloat(params[0])
 	case 3:
 		step = math.Abs(toFloat(params[2]))
-		_, frac := collections.Split2(fmt.Sprintf("%g", step), ".")
-		precision = len(frac)
 		fallthrough
 	case 2:
 		start = toFloat(params[0])
@@ -185,16 +182,32 @@ func generateNumericArray(limit bool, params ...interface{}) (result collections
 	if step == 0 {
 		return nil, fmt.Errorf("step cannot be zero")
 	}
-	array := make([]interface{}, 0, int64(math.Abs(stop-start)))
+	if length := math.Abs(stop - start); !(length <= step*math.MaxInt32) || math.IsInf(step, 0) {
+		return nil, fmt.Errorf("invalid range from %v to %v with step %v", start, stop, step)
+	}
 	forward := stop > start
 	if !forward {
 		step = -step
 	}
-	for current := start; (forward && current <= stop || !forward && current >= stop) && (limit || current != stop); {
-		current = sprigRound(current, precision)
+	// Values are rounded to the number of decimals of the start and the step to get rid of accumulated errors
+	factor := math.Pow10(int(math.Max(float64(decimals(start)), float64(decimals(step)))))
+	array := make([]interface{}, 0)
+	for i := 0; ; i++ {
+		current := start + float64(i)*step
+		if scaled := current * factor; math.Abs(scaled) < 1<<53 {
+			current = math.Round(scaled) / factor
+		}
+		if forward && current > stop || !forward && current < stop || !limit && current == stop {
+			break
+		}
 		array = append(array, simplify(current))
-		current += step
 	}
 	result = collections.AsList(array)
 	return
 }
+
+// decimals returns the number of digits after the decimal point
+func decimals(value float64) int {
+	_, frac := collections.Split2(strconv.FormatFloat(value, 'f', -1, 64), ".")
+	return len(frac)
+}
-- 
2.43.0


From 69674c8e222313630ea197e195eb8322ea11c010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:05 +0000
Subject: [PATCH 10/66] fix: converting a structure holding a nil pointer to
 native data no longer panics

---
 collections/convert_data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/convert_data.go b/collections/convert_data.go
index 26ba7b6..40a352c 100644
--- a/collections/convert_data.go
+++ b/collections/convert_data.go
@@ -257,9 +257,9 @@ func MarshalGo(value interface{}) (result interface{}, err error) {
 					continue
 				}
 				if key >= 0 {
-					m[val.Field(key).String()] = map[string]interface{}{tag.name: v.Interface()}
+					m[val.Field(key).String()] = map[string]interface{}{tag.name: value}
 				} else {
-					m[tag.name] = v.Interface()
+					m[tag.name] = value
 				}
 			}
 		}
-- 
2.43.0


From 5d20d9531e7f7fa17a63bdb5f4713f5b1fae09a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:06 +0000
Subject: [PATCH 11/66] fix: pointers to pointers or to interfaces are followed
 when converting to native data

---
 collections/convert_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/convert_data.go b/collections/convert_data.go
index 40a352c..f5e0ffb 100644
--- a/collections/convert_data.go
+++ b/collections/convert_data.go
@@ -150,7 +150,7 @@ func MarshalGo(value interface{}) (result interface{}, err error) {
 	}
 
 	typ, val := reflect.TypeOf(value), reflect.ValueOf(value)
-	if typ.Kind() == reflect.Ptr {
+	for typ.Kind() == reflect.Ptr || typ.Kind() == reflect.Interface {
 		if val.IsNil() {
 			return
 		}
-- 
2.43.0


From f279042a6dee08e89e93a1a69c2441fdf162cb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:06 +0000
Subject: [PATCH 12/66] fix: structures with a key keep all their fields when
 converted to native data

---
 collections/convert_data.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/collections/convert_data.go b/collections/convert_data.go
index f5e0ffb..37bd7f1 100644
--- a/collections/convert_data.go
+++ b/collections/convert_data.go
@@ -210,6 +210,12 @@ func MarshalGo(value interface{}) (result interface{}, err error) {
 		if err != nil {
 			return nil, err
 		}
+		fields := m
+		if key >= 0 {
+			// All fields but the key itself are stored under the value of the key
+			fields = make(map[string]interface{}, typ.NumField())
+			m[fmt.Sprint(val.Field(key))] = fields
+		}
 		for i := 0; i < typ.NumField(); i++ {
 			sf := typ.Field(i)
 			if sf.Anonymous {
@@ -232,7 +238,7 @@ func MarshalGo(value interface{}) (result interface{}, err error) {
 			}
 
 			tag := info[i]
-			if tag.name == "-" || !IsExported(sf.Name) || tag.options["omitempty"] && IsEmptyValue(val.Field(i)) {
+			if i == key || tag.name == "-" || !IsExported(sf.Name) || tag.options["omitempty"] && IsEmptyValue(val.Field(i)) {
 				continue
 			} else if tag.name == "" {
 				tag.name = sf.Name
@@ -243,7 +249,7 @@ func MarshalGo(value interface{}) (result interface{}, err error) {
 					return nil, err
 				} else if subMap, ok := subMap.(map[string]interface{}); ok {
 					for key, value := range subMap {
-						m[key] = value
+						fields[key] = value
 					}
 				} else {
 					return nil, fmt.Errorf("cannot apply inline or squash to non struct on field '%s'", sf.Name)
@@ -256,11 +262,7 @@ func MarshalGo(value interface{}) (result interface{}, err error) {
 				if IsEmptyValue(v) && (v.Kind() == reflect.Struct || v.Kind() == reflect.Map) && tag.options["omitempty"] {
 					continue
 				}
-				if key >= 0 {
-					m[val.Field(key).String()] = map[string]interface{}{tag.name: value}
-				} else {
-					m[tag.name] = value
-				}
+				fields[tag.name] = value
 			}
 		}
 		result = m
-- 
2.43.0


From 0780bf1c02951a84997a377b91e36a148477a77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:21 +0000
Subject: [PATCH 13/66] fix: leave nil pointers alone when converting to a
 dictionary or a list instead of failing

---
 collections/implementation/base_helper.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/collections/implementation/base_helper.go b/collections/implementation/base_helper.go
index 9d1a02c..c23a991 100644
--- a/collections/implementation/base_helper.go
+++ b/collections/implementation/base_helper.go
@@ -106,8 +106,8 @@ func (bh BaseHelper) TryAsDictionaryStrict(object interface{}) (baseIDict, error
 }
 
 func (bh BaseHelper) tryAsDictionary(object interface{}, strict bool) (baseIDict, error) {
-	if object != nil && reflect.TypeOf(object).Kind() == reflect.Ptr {
-		object = reflect.ValueOf(object).Elem().Interface()
+	if value := reflect.ValueOf(object); value.Kind() == reflect.Ptr && !value.IsNil() {
+		object = value.Elem().Interface()
 	}
 
 	var result baseIDict
@@ -165,8 +165,8 @@ func (bh BaseHelper) tryAsDictionary(object interface{}, strict bool) (baseIDict
 // - baseIList: The converted list.
 // - error: An error if the object cannot be converted to a baseIList.
 func (bh BaseHelper) TryAsList(object interface{}) (baseIList, error) {
-	if object != nil && reflect.TypeOf(object).Kind() == reflect.Ptr {
-		object = reflect.ValueOf(object).Elem().Interface()
+	if value := reflect.ValueOf(object); value.Kind() == reflect.Ptr && !value.IsNil() {
+		object = value.Elem().Interface()
 	}
 
 	var result baseIList
-- 
2.43.0


From 67592c08a6b5e42b35d5c782c7fcafebecd384fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:39 +0000
Subject: [PATCH 14/66] fix: keep as float the JSON and XML numbers that do not
 fit in an integer

---
 json/json.go | 2 +-
 xml/xml.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/json.go b/json/json.go
index 6ebaa08..6983c75 100644
--- a/json/json.go
+++ b/json/json.go
@@ -68,7 +68,7 @@ func transformElement(source interface{}) interface{} {
 		source = value
 	} else if value, ok := source.(float64); ok {
 		// json.Unmarshal returns all int values as float64
-		if math.Floor(value) == value {
+		if math.Floor(value) == value && value >= math.MinInt64 && value < math.MaxInt64 {
 			source = int(value)
 		}
 	}
diff --git a/xml/xml.go b/xml/xml.go
index 8cd2afe..a8dcb26 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -67,7 +67,7 @@ func transformElement(source interface{}) interface{} {
 		source = value
 	} else if value, ok := source.(float64); ok {
 		// xml.Unmarshal returns all int values as float64
-		if math.Floor(value) == value {
+		if math.Floor(value) == value && value >= math.MinInt64 && value < math.MaxInt64 {
 			source = int(value)
 		}
 	}
-- 
2.43.0


From c10e5f01764b0cab112c3672089799e8c6d84118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:58 +0000
Subject: [PATCH 15/66] fix: keep token look-alikes found in the unprotected
 text apart from the real protected strings

---
 collections/string.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/collections/string.go b/collections/string.go
index 0b3e895..da506c5 100644
--- a/collections/string.go
+++ b/collections/string.go
@@ -406,7 +406,13 @@ func (s String) SelectContext(pos int, left, right string) String {
 // Protect returns a string with all included strings replaced by a token and an array of all replaced strings.
 // The function is able to detect strings enclosed between quotes "" or backtick “ and it detects escaped characters.
 func (s String) Protect() (result String, array StringArray) {
-	defer func() { result += s }()
+	defer func() {
+		// The remaining text may contain something that looks like a token, it must not be confused with a real one
+		result += String(replacementRegex.ReplaceAllStringFunc(string(s), func(match string) string {
+			array = append(array, String(match))
+			return fmt.Sprintf(replacementFormat, len(array)-1)
+		}))
+	}()
 
 	escaped := func(from int) bool {
 		// Determine if the previous characters are escaping the current value
-- 
2.43.0


From d789ef9398ade020e923ad2066b44b7ce34297d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:01 +0000
Subject: [PATCH 16/66] fix: select whole words when the text contains
 multi-byte characters

---
 collections/string.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/collections/string.go b/collections/string.go
index da506c5..4aa72a1 100644
--- a/collections/string.go
+++ b/collections/string.go
@@ -7,6 +7,7 @@ import (
 	"strconv"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/coveooss/multilogger"
 	"github.com/pmezard/go-difflib/difflib"
@@ -320,15 +321,20 @@ func (s String) GetWordAtPosition(pos int, accept ...string) (String, int) {
 	isBreak := func(c rune) bool {
 		return unicode.IsSpace(c) || unicode.IsPunct(c) && !strings.ContainsRune(acceptChars, c)
 	}
-	begin, end := pos, pos
-	for begin >= 0 && !isBreak(rune(s[begin])) {
-		begin--
+	start := pos
+	for start > 0 && !utf8.RuneStart(s[start]) {
+		start--
 	}
-	for end < len(s) && !isBreak(rune(s[end])) {
-		end++
+	if current, _ := utf8.DecodeRuneInString(string(s[start:])); isBreak(current) {
+		return "", pos
 	}
-	if begin != end {
-		begin++
+	begin, end := 0, len(s)
+	if i := s[:start].LastIndexFunc(isBreak); i >= 0 {
+		_, width := utf8.DecodeRuneInString(string(s[i:]))
+		begin = i + width
+	}
+	if i := s[start:].IndexFunc(isBreak); i >= 0 {
+		end = start + i
 	}
 	return s[begin:end], begin
 }
-- 
2.43.0


From 2246a367d2c00e460d136fb7e9678f800ae37e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:06 +0000
Subject: [PATCH 17/66] fix: select a context that is balanced and that
 contains the specified position

---
 collections/string.go | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/collections/string.go b/collections/string.go
index 4aa72a1..680490f 100644
--- a/collections/string.go
+++ b/collections/string.go
@@ -373,27 +373,37 @@ func (s String) GetContextAtPosition(pos int, left, right string) (a String, b i
 	}
 	begin, end, lenLeft, lenRight := findLeft(s, pos), pos+1, len(left), len(right)
 
+	// findRight returns the end of the context starting at the specified position, considering the enclosed contexts
+	findRight := func(begin int) int {
+		for i, depth := begin, 0; i < len(s); {
+			switch {
+			case s[i:].HasPrefix(left):
+				depth++
+				i += lenLeft
+			case s[i:].HasPrefix(right):
+				depth--
+				i += lenRight
+				if depth == 0 {
+					return i
+				}
+			default:
+				i++
+			}
+		}
+		return -1
+	}
+
 	if begin >= 0 && lenRight > 0 {
 		if end = s[pos:].Index(right); end >= 0 {
 			end += pos + lenRight
-			back := findLeft(s[:end], end-lenRight)
-			if left != "" && back != begin {
-				// There is at least one enclosed start, we must find the corresponding end
-				pos = begin + lenLeft
-				lefts := s[pos:].IndexAll(left)
-				rights := s[pos:].IndexAll(right)
-				for i := range lefts {
-					if i == len(rights) {
-						return "", -1
-					}
-					if lefts[i] > rights[i] {
-						return s[begin : rights[i]+pos+lenRight], begin
+			if left != "" && left != right {
+				// We ignore the contexts that are closed before the specified position
+				end = -1
+				for ; begin >= 0; begin = findLeft(s, begin) {
+					if end = findRight(begin); end < 0 || end > pos {
+						break
 					}
 				}
-				if len(rights) > len(lefts) {
-					return s[begin : rights[len(lefts)]+pos+lenRight], begin
-				}
-				end = -1
 			}
 		}
 	}
-- 
2.43.0


From f7be563d6c1821c759fce8ae601a0b4b66f857d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:21 +0000
Subject: [PATCH 18/66] fix: quote the list elements that contain line breaks
 when rendering bash

---
 collections/convert_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/convert_data.go b/collections/convert_data.go
index 37bd7f1..82030db 100644
--- a/collections/convert_data.go
+++ b/collections/convert_data.go
@@ -313,7 +313,7 @@ func IsExported(id string) bool {
 }
 
 func quote(s string) string {
-	if strings.ContainsAny(s, " \t,[]()") {
+	if strings.ContainsAny(s, " \t\n,[]()") {
 		s = fmt.Sprintf("%q", s)
 	}
 	return s
-- 
2.43.0


From 273838c0bfdf3ec2b22ffdf609443537d79e7eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:13 +0000
Subject: [PATCH 19/66] fix: write HCL here-documents that read back as the
 same text wherever they are nested

---
 hcl/utilities.go | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/hcl/utilities.go b/hcl/utilities.go
index 0b8c851..ae0453f 100644
--- a/hcl/utilities.go
+++ b/hcl/utilities.go
@@ -6,7 +6,9 @@ import (
 	"regexp"
 	"runtime/debug"
 	"sort"
+	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/coveooss/gotemplate/v3/collections"
 )
@@ -72,6 +74,12 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 
 	ifIndent := func(vTrue, vFalse interface{}) interface{} { return collections.IIf(indent, vTrue, vFalse) }
 	const specialFormat = "#HCL_ARRAY_MAP#!"
+	const hereDocMarker = "HCLVALUE"
+	indentValue := func(value string) string {
+		// The content of the indented here-documents must be considered without the added indentation
+		value = strings.Replace(value, "<<"+hereDocMarker+"\n", "<<-"+hereDocMarker+"\n", -1)
+		return collections.Indent(value, prefix+indent)
+	}
 
 	if valueList, isList := value.([]interface{}); isList && len(valueList) == 1 && isArrayOfMap(valueList) {
 		// If the result is an array of one map, we just return the inner element
@@ -82,22 +90,12 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 	case int, uint, int64, uint64, float64, bool:
 		result = fmt.Sprint(value)
 	case string:
-		value = fmt.Sprintf("%q", value)
-		if indent != "" && strings.Contains(value, "\\n") {
-			// We unquote the value
-			unIndented := value[1 : len(value)-1]
-			// Then replace escaped characters, other escape chars are \a, \b, \f and \v are not managed
-			unIndented = strings.Replace(unIndented, `\n`, "\n", -1)
-			unIndented = strings.Replace(unIndented, `\\`, "\\", -1)
-			unIndented = strings.Replace(unIndented, `\"`, "\"", -1)
-			unIndented = strings.Replace(unIndented, `\r`, "\r", -1)
-			unIndented = strings.Replace(unIndented, `\t`, "\t", -1)
-			unIndented = collections.UnIndent(unIndented)
-			if strings.HasSuffix(unIndented, "\n") {
-				value = fmt.Sprintf("<<HCLVALUE\n%sHCLVALUE", unIndented)
+		result = fmt.Sprintf("%q", value)
+		if indent != "" && isPrintable(value) && !strings.Contains(value, hereDocMarker) {
+			if unIndented := collections.UnIndent(value); strings.HasSuffix(unIndented, "\n") {
+				result = fmt.Sprintf("<<%[1]s\n%[2]s%[1]s", hereDocMarker, unIndented)
 			}
 		}
-		result = value
 
 	case []interface{}:
 		results := make([]string, len(value))
@@ -128,7 +126,13 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 			newLine = newLine || strings.Contains(results[i], "\n")
 		}
 		if totalLength > 60 && indent != "" || newLine {
-			result = fmt.Sprintf("[\n%s,\n]", collections.Indent(strings.Join(results, ",\n"), prefix+indent))
+			for i := range results {
+				if strings.HasSuffix(results[i], "\n"+hereDocMarker) {
+					// The marker must be alone on its line
+					results[i] += "\n"
+				}
+			}
+			result = fmt.Sprintf("[\n%s,\n]", indentValue(strings.Join(results, ",\n")))
 		} else {
 			result = fmt.Sprintf("[%s]", strings.Join(results, ifIndent(", ", ",").(string)))
 		}
@@ -214,7 +218,7 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 			break
 		}
 
-		result = fmt.Sprintf("{\n%s\n}", collections.Indent(strings.Join(items, "\n"), prefix+indent))
+		result = fmt.Sprintf("{\n%s\n}", indentValue(strings.Join(items, "\n")))
 
 	default:
 		debug.PrintStack()
@@ -223,6 +227,11 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 	return
 }
 
+// isPrintable determines if the string only contains characters that could be rendered without being escaped.
+func isPrintable(s string) bool {
+	return utf8.ValidString(s) && strings.IndexFunc(s, func(r rune) bool { return r != '\n' && r != '\t' && !strconv.IsPrint(r) }) < 0
+}
+
 func isArrayOfMap(array []interface{}) bool {
 	if len(array) == 0 {
 		return false
-- 
2.43.0


From 47cc8d930f1aa7ed401c26daf9cb2c8782403255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:18 +0000
Subject: [PATCH 20/66] fix: quote the HCL keys that are not valid identifiers

---
 hcl/utilities.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hcl/utilities.go b/hcl/utilities.go
index ae0453f..309f38f 100644
--- a/hcl/utilities.go
+++ b/hcl/utilities.go
@@ -256,11 +256,16 @@ func singleMap(m map[string]interface{}) string {
 	return ""
 }
 
-var identifierRegex = regexp.MustCompile(`^[A-za-z][\w-]*$`)
+var identifierRegex = regexp.MustCompile(`^[A-Za-z_][\w-]*$`)
 
 func id(key string) string {
-	if identifierRegex.MatchString(key) {
-		return key
+	switch key {
+	case "true", "false", "null":
+		// These are not considered as identifiers
+	default:
+		if identifierRegex.MatchString(key) {
+			return key
+		}
 	}
 	// The identifier contains characters that may be considered invalid, we have to quote it
 	return fmt.Sprintf("%q", key)
-- 
2.43.0


From 1d979560e0aed9080aefd9a74ab5ecfe0bcf4818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:36 +0000
Subject: [PATCH 21/66] fix: write HCL null values and blocks within lists in a
 form that can be read back

---
 hcl/utilities.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/hcl/utilities.go b/hcl/utilities.go
index 309f38f..1ac1eae 100644
--- a/hcl/utilities.go
+++ b/hcl/utilities.go
@@ -119,7 +119,8 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 		var totalLength int
 		var newLine bool
 		for i := range value {
-			if results[i], err = marshalHCL(value[i], fullHcl, false, "", indent); err != nil {
+			// The block syntax is not allowed within a list
+			if results[i], err = marshalHCL(value[i], false, false, "", indent); err != nil {
 				return
 			}
 			totalLength += len(results[i])
@@ -185,8 +186,13 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 				}
 
 				equal := ifIndent(" = ", "=").(string)
-				if _, err := hclHelper.TryAsDictionary(value[key]); err == nil && fullHcl {
-					if multiline {
+				current := value[key]
+				if list, isList := current.([]interface{}); isList && len(list) == 1 && isBlock(list[0]) {
+					// The inner element is rendered as a block
+					current = list[0]
+				}
+				if _, isMap := current.(map[string]interface{}); isMap && fullHcl {
+					if multiline || indent != "" && isBlock(current) {
 						equal = " "
 					} else if indent == "" {
 						equal = ""
@@ -244,6 +250,12 @@ func isArrayOfMap(array []interface{}) bool {
 	return true
 }
 
+// isBlock determines if the value is rendered as a label followed by its content
+func isBlock(value interface{}) bool {
+	m, isMap := value.(map[string]interface{})
+	return isMap && singleMap(m) != ""
+}
+
 func singleMap(m map[string]interface{}) string {
 	if len(m) != 1 {
 		return ""
-- 
2.43.0


From 07165f0d5f1a76d1149840cc5521157c6b6fcb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:25 +0000
Subject: [PATCH 22/66] fix: refuse HCL text made of a value followed by other
 definitions instead of dropping them

---
 hcl/hcl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcl/hcl.go b/hcl/hcl.go
index d2c61a5..0990586 100644
--- a/hcl/hcl.go
+++ b/hcl/hcl.go
@@ -56,7 +56,7 @@ func Unmarshal(bs []byte, out interface{}) (err error) {
 	if err = hcl.Unmarshal(bs, out); err != nil {
 		bs = append([]byte("_="), bs...)
 		var temp hclDict
-		if errInternalHcl := hcl.Unmarshal(bs, &temp); errInternalHcl != nil {
+		if errInternalHcl := hcl.Unmarshal(bs, &temp); errInternalHcl != nil || len(temp) != 1 {
 			return err
 		}
 		err = nil
-- 
2.43.0


From 0013061df08a261882a0108e60736358981f1d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:41 +0000
Subject: [PATCH 23/66] fix: a star within a string of a razor product no
 longer turns it into a power

---
 template/razor_expr.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/template/razor_expr.go b/template/razor_expr.go
index 3521bc4..943c4df 100644
--- a/template/razor_expr.go
+++ b/template/razor_expr.go
@@ -39,9 +39,12 @@ func nodeValue(node ast.Node) (result string, err error) {
 		if y, err = nodeValueInternal(n.Y); err != nil {
 			return
 		}
-		if op == "mul" && strings.Contains(y, "*") {
+		if star, isStar := n.Y.(*ast.StarExpr); isStar && op == "mul" {
 			// This is a special case where the expression contains 2 following *, meaning power instead of mul
-			result = fmt.Sprintf("power %s %s", x, strings.Replace(y, "*", "", -1))
+			if y, err = nodeValueInternal(star.X); err != nil {
+				return
+			}
+			result = fmt.Sprintf("power %s %s", x, y)
 			return
 		}
 		result = fmt.Sprintf("%s %s %s", op, x, y)
-- 
2.43.0


From 790d0519b957aec9c4c9e8259c4429246d9faba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:41 +0000
Subject: [PATCH 24/66] fix: keep the dollars of the strings in razor
 expressions

---
 template/razor_repl_expr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/template/razor_repl_expr.go b/template/razor_repl_expr.go
index 2615257..b21294e 100644
--- a/template/razor_repl_expr.go
+++ b/template/razor_repl_expr.go
@@ -117,6 +117,7 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 		if selectExpr, err = expressionParserInternal(exprRepl, selectExpr, true, true); err != nil {
 			return match, err
 		}
+		selectExpr = strings.Replace(selectExpr, "$", "$$", -1)
 		repl.replace = strings.Replace(repl.replace, "${selection}", selectExpr, -1)
 	}
 
@@ -129,6 +130,8 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 		if err == nil {
 			result, err := node(tr)
 			if err == nil {
+				// The dollars within strings must not be considered as references to the submatches
+				result = strings.Replace(result, "$", "$$", -1)
 				result = strings.Replace(result, reserved["$"], "$$", -1)
 				for _, keyword := range reservedKeywords {
 					// Bring back all reserved keywords
-- 
2.43.0


From 59034b27aacb97327e0e65a479d6112ae153ccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:03 +0000
Subject: [PATCH 25/66] fix: assignments to names that are not identifiers
 (a-b) no longer give invalid code or use other variables

---
 template/razor_repl_assign.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/template/razor_repl_assign.go b/template/razor_repl_assign.go
index f94df78..9fb5407 100644
--- a/template/razor_repl_assign.go
+++ b/template/razor_repl_assign.go
@@ -2,6 +2,7 @@ package template
 
 import (
 	"fmt"
+	"regexp"
 	"strings"
 
 	"github.com/coveooss/multilogger/reutils"
@@ -15,6 +16,9 @@ func assignExpressionAcceptError(repl replacement, match string) string {
 	return assignExpressionInternal(repl, match, true)
 }
 
+// plainID matches the names that can be used as selectors
+var plainID = regexp.MustCompile(`^[\p{L}_][\p{L}\d_]*$`)
+
 func assignExpressionInternal(repl replacement, match string, acceptError bool) string {
 	matches, _ := reutils.MultiMatch(match, repl.re)
 	tp := matches["type"]
@@ -49,6 +53,11 @@ func assignExpressionInternal(repl replacement, match string, acceptError bool)
 			expr = fmt.Sprintf("$%[1]s %[2]s (%[3]s)", id, operator, expr)
 		} else {
 			value := map[string]string{"@": "$.", "@.": ".", "@$": "$"}[tp] + id
+			if name := id[strings.LastIndex(id, ".")+1:]; global && !plainID.MatchString(name) {
+				// The name cannot be used as a selector
+				object := strings.TrimSuffix(value, name)
+				value = fmt.Sprintf("get(%s, %q)", iif(object == ".", object, strings.TrimSuffix(object, ".")), name)
+			}
 			expr = fmt.Sprintf("%[1]s %[2]s (%[3]s)", value, operator, expr)
 		}
 	}
@@ -83,7 +92,12 @@ func assignExpressionInternal(repl replacement, match string, acceptError bool)
 	}
 	objectID := fmt.Sprintf("%s%s", iif(strings.HasSuffix(object, "."), object, object+"."), id)
 	validateCode := iif(StrictAssignationMode == AssignationValidationWarning, "assertWarning", "assert").(string)
-	validateCode += fmt.Sprintf(` (not (isNil %[1]s)) "%[1]s does not exist, use := to declare new variable"`, objectID)
+	value := objectID
+	if !plainID.MatchString(id) {
+		// The name cannot be used as a selector
+		value = fmt.Sprintf(`(get %s "%s")`, object, id)
+	}
+	validateCode += fmt.Sprintf(` (not (isNil %[2]s)) "%[1]s does not exist, use := to declare new variable"`, objectID, value)
 	return fmt.Sprintf(`%[1]s- %[3]s %[2]s%[1]s- set %[4]s "%[5]s" %[6]s %[2]s`, repl.delimiters[0], repl.delimiters[1], validateCode, object, id, expr)
 }
 
-- 
2.43.0


From 4a0a99b0006194fc28a93d7f6512e97989ee90f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:10 +0000
Subject: [PATCH 26/66] fix: errors at the first column, beyond the lines of
 the source or next to error markers no longer panic, recurse or get lost

---
 template/template_error_handler.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/template/template_error_handler.go b/template/template_error_handler.go
index 67241fc..b2f451a 100644
--- a/template/template_error_handler.go
+++ b/template/template_error_handler.go
@@ -46,7 +46,8 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 		faultyColumn := 0
 		key, message, errText, code, value := matches[tagKey], matches[tagMsg], matches[tagErr], matches[tagCode], matches[tagValue]
 
-		if matches[tagCol] != "" {
+		if matches[tagCol] != "" && matches[tagCol] != "0" {
+			// The first column of a line may be reported as 0
 			faultyColumn = toInt(matches[tagCol]) - 1
 		}
 
@@ -58,19 +59,28 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 			var line string
 			if fileContent, err := os.ReadFile(matches[tagFile]); err != nil {
 				line = fmt.Sprintf("Unable to read file: %v", err)
-			} else {
-				line = String(fileContent).Lines()[toInt(matches[tagLine])-1].Str()
+			} else if lines := strings.Split(string(fileContent), "\n"); faultyLine >= 0 && faultyLine < len(lines) {
+				line = lines[faultyLine]
 			}
 			return "", true, fmt.Errorf("%s %w in: %s", color.WhiteString(t.Filename), err, color.HiBlackString(line))
 		}
 
-		currentLine := String(lines[faultyLine])
-		if faultyColumn != 0 && strings.Contains(" (", currentLine[faultyColumn:faultyColumn+1].Str()) {
+		if faultyLine < 0 || faultyLine >= len(lines) {
+			// The error did not occur in the current code (i.e. a template defined by another document with the same name)
+			return "", true, err
+		}
+
+		currentLine, sourceLine := String(lines[faultyLine]), ""
+		if faultyLine < len(t.Lines) {
+			// The substitutions may have added lines to the original source
+			sourceLine = t.Lines[faultyLine]
+		}
+		if faultyColumn != 0 && faultyColumn < currentLine.Len() && strings.Contains(" (", currentLine[faultyColumn:faultyColumn+1].Str()) {
 			// Sometime, the error is not reporting the exact column, we move 1 char forward to get the real problem
 			faultyColumn++
 		}
 
-		errorLine := fmt.Sprintf(" in: %s", color.HiBlackString(t.Lines[faultyLine]))
+		errorLine := fmt.Sprintf(" in: %s", color.HiBlackString(sourceLine))
 		var logMessage string
 		if key != "" {
 			// Missing key and we disabled the <no value> mode
@@ -146,7 +156,8 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 			logMessage = fmt.Sprintf("Parsing error: %s", err)
 			lines[faultyLine] = fmt.Sprintf("ERROR %s", errText)
 		}
-		if currentLine.Contains(runError) || strings.Contains(code, undefError) {
+		originalError := err
+		if t.Try > 0 && (currentLine.Contains(runError) || strings.Contains(code, undefError)) {
 			// The erroneous line has already been replaced, we do not report the error again
 			err, errorText = nil, ""
 			InternalLog.Debugf("Ignored error %s", logMessage)
@@ -157,7 +168,7 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 		if err != nil {
 			err = fmt.Errorf("%s%s%s", color.WhiteString(matches[tagLocation]), errorText, errorLine)
 		}
-		if lines[faultyLine] != currentLine.Str() || strings.Contains(err.Error(), noValueError) {
+		if lines[faultyLine] != currentLine.Str() {
 			// If we changed something in the current text, we try to continue the evaluation to get further errors
 			newCode := strings.Join(lines, "\n")
 			if err != nil {
@@ -177,6 +188,8 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 				}
 			}
 			return result, changed, err
+		} else if err == nil {
+			err = originalError
 		}
 	}
 	return "", true, err
-- 
2.43.0


From 58b98d63b247da72ecab129020e0c12b705da433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:15 +0000
Subject: [PATCH 27/66] fix: only the explicit template extensions enable the
 strict error mode

---
 template/template_handler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/template/template_handler.go b/template/template_handler.go
index 44e1b68..6116eb5 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -219,8 +219,8 @@ func (t *Template) processContentInternal(originalContent, source string, origin
 			if err != nil {
 				strictMode := t.options[StrictErrorCheck]
 				strictMode = strictMode || strings.Contains(th.Source, explicitGoTemplate)
-				extension := filepath.Ext(th.Filename)
-				strictMode = strictMode || (extension != "" && strings.Contains(".gt,.gte,.template", extension))
+				// Code supplied directly has no file name
+				strictMode = strictMode || th.Filename == "." || filepath.Ext(th.Filename) == ".gte" || t.isTemplate(th.Filename)
 				if !(strictMode) {
 					InternalLog.Errorf("Ignored gotemplate error in %s (file left unchanged):\n%s", color.CyanString(th.Filename), err.Error())
 					result, err = th.Source, nil
-- 
2.43.0


From ed510a16c357e38ba7a8136469d387cb39570ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:05 +0000
Subject: [PATCH 28/66] fix: separators within the strings or the calls of a
 razor index no longer split it

---
 template/razor_repl_expr.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/template/razor_repl_expr.go b/template/razor_repl_expr.go
index b21294e..5449365 100644
--- a/template/razor_repl_expr.go
+++ b/template/razor_repl_expr.go
@@ -92,18 +92,22 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 	}
 
 	if indexExpr := matches["index"]; indexExpr != "" {
-		indexExpr = indexExpression(indexExpr)
+		// The separators within strings are not considered
+		protected, indexStrings := String(indexExpr).Protect()
+		indexExpr = indexExpression(protected.Str())
 		indexExpr = indexExpr[1 : len(indexExpr)-1]
 
-		sep, slicer, limit2 := ",", "extract", false
-		if strings.Contains(indexExpr, ":") {
-			sep, slicer, limit2 = ":", "slice", true
+		slicer, limit2 := "slice", true
+		values := splitIndex(indexExpr, ':')
+		if len(values) == 1 {
+			slicer, limit2 = "extract", false
+			values = splitIndex(indexExpr, ',')
 		}
-		values := strings.Split(indexExpr, sep)
 		if !debugMode && limit2 && len(values) > 2 {
 			InternalLog.Errorf("Only one : character is allowed in slice expression: %s", match)
 		}
 		for i := range values {
+			values[i] = String(values[i]).RestoreProtected(indexStrings).Str()
 			if values[i], err = expressionParserInternal(exprRepl, values[i], true, true); err != nil {
 				return match, err
 			}
@@ -163,6 +167,25 @@ var exprRepl = replacement{
 	replace: `${expr}`,
 }
 
+// splitIndex splits the elements of an index, ignoring the separators within parentheses and brackets
+func splitIndex(expr string, sep rune) (values []string) {
+	depth, start := 0, 0
+	for i, c := range expr {
+		switch c {
+		case '(', '[', '{':
+			depth++
+		case ')', ']', '}':
+			depth--
+		case sep:
+			if depth == 0 {
+				values = append(values, expr[start:i])
+				start = i + 1
+			}
+		}
+	}
+	return append(values, expr[start:])
+}
+
 func indexExpression(expr string) string {
 	expr = negativeSlice.ReplaceAllString(expr, "[${index}:0]")
 	expr = strings.Replace(expr, "[]", "[0:-1]", -1)
-- 
2.43.0


From 683dfffe14819dcb09c0a96ac2fc1b1ec728b42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:58 +0000
Subject: [PATCH 29/66] fix: razor expressions, assignments and paused sections
 work with other delimiters

---
 template/razor.go               | 16 ++++++++++++----
 template/razor_repl_assign.go   |  5 ++++-
 template/razor_repl_autowrap.go |  3 ++-
 template/razor_repl_expr.go     | 16 +++++++++++++---
 template/template_handler.go    |  2 +-
 5 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/template/razor.go b/template/razor.go
index c37f2c6..ed655d2 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -145,6 +145,11 @@ var expressions = [][]interface{}{
 	{"", fmt.Sprintf(`\x60%s(?P<num>\d+)\x60`, protectString), "", replacementFunc(protectMultiLineStrings)},
 }
 
+// useRazorDelim replaces the default razor delimiter by the actual one in a regular expression
+func (t *Template) useRazorDelim(re string) string {
+	return strings.Replace(re, "@", regexp.QuoteMeta(t.RazorDelim()), -1)
+}
+
 var replacementsInit = make(map[string][]replacement)
 
 type replacementFunc func(replacement, string) string
@@ -162,12 +167,15 @@ func (t *Template) ensureInit() {
 	if _, ok := replacementsInit[delimiters]; !ok {
 		// We must ensure that search and replacement expression are compatible with the set of delimiters
 		replacements := make([]replacement, 0, len(expressions))
+		// The closing brace of a reference to a submatch (${name}) is not part of the following delimiter
+		escape := func(delim string) string { return strings.Replace(delim, "$", "$$", -1) }
+		replaceDelims := strings.NewReplacer("{{", escape(t.LeftDelim()), "}}}", "}"+escape(t.RightDelim()), "}}", escape(t.RightDelim()), "@", escape(t.RazorDelim()))
 		for _, expr := range expressions {
 			comment := expr[0].(string)
-			re := strings.Replace(expr[1].(string), "@", regexp.QuoteMeta(t.RazorDelim()), -1)
+			re := t.useRazorDelim(expr[1].(string))
 			re = strings.Replace(re, "{{", regexp.QuoteMeta(t.LeftDelim()), -1)
 			re = strings.Replace(re, "}}", regexp.QuoteMeta(t.RightDelim()), -1)
-			replace := strings.Replace(strings.Replace(strings.Replace(expr[2].(string), "{{", t.LeftDelim(), -1), "}}", t.RightDelim(), -1), "@", t.RazorDelim(), -1)
+			replace := replaceDelims.Replace(expr[2].(string))
 			var exprParser replacementFunc
 			if len(expr) >= 4 {
 				exprParser = expr[3].(replacementFunc)
@@ -175,7 +183,7 @@ func (t *Template) ensureInit() {
 
 			// We apply replacements in regular expression to make them regex compliant
 			for i := range customMetaclass {
-				key, value := customMetaclass[i][0], customMetaclass[i][1]
+				key, value := customMetaclass[i][0], t.useRazorDelim(customMetaclass[i][1])
 				re = strings.Replace(re, key, value, -1)
 			}
 
@@ -185,7 +193,7 @@ func (t *Template) ensureInit() {
 				// that go from the most generic expression to the most specific one
 				subExpressions = make([]string, len(expressionList))
 				for i := range expressionList {
-					subExpressions[i] = strings.Replace(re, expressionKey, expressionList[i], -1)
+					subExpressions[i] = strings.Replace(re, expressionKey, t.useRazorDelim(expressionList[i]), -1)
 				}
 			}
 
diff --git a/template/razor_repl_assign.go b/template/razor_repl_assign.go
index 9fb5407..007f95d 100644
--- a/template/razor_repl_assign.go
+++ b/template/razor_repl_assign.go
@@ -30,6 +30,9 @@ func assignExpressionInternal(repl replacement, match string, acceptError bool)
 		return match
 	}
 
+	// The cases are expressed with the default delimiter
+	tp = "@" + strings.TrimPrefix(tp, repl.razorDelim())
+
 	global := false
 	internal := true
 	switch tp {
@@ -63,7 +66,7 @@ func assignExpressionInternal(repl replacement, match string, acceptError bool)
 	}
 
 	var err error
-	if expr, err = expressionParserInternal(exprRepl, expr, true, internal); err != nil && !acceptError {
+	if expr, err = expressionParserInternal(repl.expression(), expr, true, internal); err != nil && !acceptError {
 		return match
 	}
 
diff --git a/template/razor_repl_autowrap.go b/template/razor_repl_autowrap.go
index fc37425..39e0e44 100644
--- a/template/razor_repl_autowrap.go
+++ b/template/razor_repl_autowrap.go
@@ -17,7 +17,8 @@ func autoWrap(repl replacement, match string) string {
 		return match
 	}
 	after := context[len(args):]
-	return fmt.Sprintf("@%s%sjoin(\"%s\", formatList(\"%s%%v%s\", %s)",
+	return fmt.Sprintf("%s%s%sjoin(\"%s\", formatList(\"%s%%v%s\", %s)",
+		repl.razorDelim(),
 		matches["nl"],
 		matches["reduce"],
 		iif(matches["nl"] != "", "\\n", ""),
diff --git a/template/razor_repl_expr.go b/template/razor_repl_expr.go
index 5449365..4fae8e7 100644
--- a/template/razor_repl_expr.go
+++ b/template/razor_repl_expr.go
@@ -63,7 +63,7 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 		// We first protect strings declared in the expression
 		protected, includedStrings := String(expression).Protect()
 		for i := range includedStrings {
-			includedStrings[i] = includedStrings[i].Replace("@", literalAt)
+			includedStrings[i] = includedStrings[i].Replace(repl.razorDelim(), literalAt)
 		}
 
 		// We transform the expression into a valid go statement
@@ -108,7 +108,7 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 		}
 		for i := range values {
 			values[i] = String(values[i]).RestoreProtected(indexStrings).Str()
-			if values[i], err = expressionParserInternal(exprRepl, values[i], true, true); err != nil {
+			if values[i], err = expressionParserInternal(repl.expression(), values[i], true, true); err != nil {
 				return match, err
 			}
 		}
@@ -118,7 +118,7 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 	}
 
 	if selectExpr := matches["selection"]; selectExpr != "" {
-		if selectExpr, err = expressionParserInternal(exprRepl, selectExpr, true, true); err != nil {
+		if selectExpr, err = expressionParserInternal(repl.expression(), selectExpr, true, true); err != nil {
 			return match, err
 		}
 		selectExpr = strings.Replace(selectExpr, "$", "$$", -1)
@@ -167,6 +167,16 @@ var exprRepl = replacement{
 	replace: `${expr}`,
 }
 
+// expression is the replacement for an expression included in the replaced text
+func (repl replacement) expression() replacement {
+	result := exprRepl
+	result.delimiters = repl.delimiters
+	return result
+}
+
+// razorDelim is the razor delimiter of the template being processed
+func (repl replacement) razorDelim() string { return repl.delimiters[2] }
+
 // splitIndex splits the elements of an index, ignoring the separators within parentheses and brackets
 func splitIndex(expr string, sep rune) (values []string) {
 	depth, start := 0, 0
diff --git a/template/template_handler.go b/template/template_handler.go
index 6116eb5..07a55fc 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -148,7 +148,7 @@ func (t *Template) processContentInternal(originalContent, source string, origin
 	pausingIsEnabled := strings.Contains(originalContent, pauseGoTemplate) || strings.Contains(originalContent, pauseRazor)
 
 	// When pausing templating, we replace delimiters with dummy strings and then we revert the replacements when the processing is complete
-	leftDelimReplacement, rightDelimReplacement, razorDelimReplacement := "$&paused-left&$", "$&paused-right&$", "$&paused-razor&$"
+	leftDelimReplacement, rightDelimReplacement, razorDelimReplacement := "_=!PAUSED_LEFT!=_", "_=!PAUSED_RIGHT!=_", "_=!PAUSED_RAZOR!=_"
 	revertReplacements := func(template string) string {
 		if pausingIsEnabled {
 			template = strings.ReplaceAll(template, leftDelimReplacement, t.LeftDelim())
-- 
2.43.0


From 930f39cf8aae49bdcc1de7d0bfab580c2f6de4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:57 +0000
Subject: [PATCH 30/66] fix: a brace right before a razor expression is text,
 not a part of the generated delimiter

---
 template/razor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/template/razor.go b/template/razor.go
index ed655d2..ea55062 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -142,6 +142,10 @@ var expressions = [][]interface{}{
 	{"", literalAt, "@"},
 	{"", literalTripleBackticks, "```"},
 	{"", literalReplacement, "${"},
+
+	// A brace right before the generated code is not a part of its delimiter
+	{"", `\x7b{{(?P<start>-? |/\*)`, `{{ "{" }}{{${start}`},
+
 	{"", fmt.Sprintf(`\x60%s(?P<num>\d+)\x60`, protectString), "", replacementFunc(protectMultiLineStrings)},
 }
 
-- 
2.43.0


From 4a32fc12a27d3e6cc90a71ed40fa596227346bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:51 +0000
Subject: [PATCH 31/66] fix: backticks right before an object selection are not
 the user of an e-mail address

---
 template/razor_repl_literal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/template/razor_repl_literal.go b/template/razor_repl_literal.go
index 58ee78b..adfec27 100644
--- a/template/razor_repl_literal.go
+++ b/template/razor_repl_literal.go
@@ -30,5 +30,9 @@ func protectEmail(repl replacement, match string) string {
 		// This is not an email
 		return match
 	}
+	if strings.Contains(match, literalTripleBackticks+"@") {
+		// There is no user before the delimiter, just protected backticks
+		return match
+	}
 	return strings.Replace(match, "@", "@@", 1)
 }
-- 
2.43.0


From 9ec419b97f882efcb6a08f612160ec20378146af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:50 +0000
Subject: [PATCH 32/66] fix: the separator of a substitution can be any
 character, not only an ASCII one

---
 utils/substitute.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/substitute.go b/utils/substitute.go
index 40ff6b3..21eee96 100644
--- a/utils/substitute.go
+++ b/utils/substitute.go
@@ -3,6 +3,7 @@ package utils
 import (
 	"regexp"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/coveooss/multilogger/errors"
 )
@@ -21,7 +22,8 @@ func InitReplacers(replacers ...string) []RegexReplacer {
 		if replacers[i] == "" {
 			errors.Raise("Bad replacer %s", replacers[i])
 		}
-		expression := strings.Split(replacers[i], string(replacers[i][0]))
+		_, sepLen := utf8.DecodeRuneInString(replacers[i])
+		expression := strings.Split(replacers[i], replacers[i][:sepLen])
 		if len(expression) != 3 || expression[1] == "" {
 			errors.Raise("Bad replacer %s", replacers[i])
 		}
-- 
2.43.0


From 9f9df6700a6a3ad5220808bd0c0d421323eca241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:07 +0000
Subject: [PATCH 33/66] fix: deleting lines by substitution also concerns the
 last line when it has no line end, and spares escaped dollars

---
 utils/substitute.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/utils/substitute.go b/utils/substitute.go
index 21eee96..66f2454 100644
--- a/utils/substitute.go
+++ b/utils/substitute.go
@@ -31,9 +31,12 @@ func InitReplacers(replacers ...string) []RegexReplacer {
 		if expression[2] == "d" {
 			// If the replace expression is a single d (as in delete), we replace the
 			// expression by nothing
-			if strings.HasSuffix(expression[1], "$") {
-				// If we really want to delete lines, we must add \n explicitly
-				expression[1] += `\n`
+			// A dollar escaped by a backslash is a character, not the end of the line
+			before := strings.TrimSuffix(expression[1], "$")
+			escapes := len(before) - len(strings.TrimRight(before, `\`))
+			if before != expression[1] && escapes%2 == 0 {
+				// If we really want to delete lines, we must add \n explicitly (the last line may not have one)
+				expression[1] += `\n?`
 				if !strings.HasPrefix(expression[1], "(?m)") {
 					// If the search expression doesn't enable multi line
 					// we enable it
-- 
2.43.0


From ce510c135e5af441dc236fd922d450cf01262b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:53 +0000
Subject: [PATCH 34/66] fix: the aliases of user functions have the arguments
 and the examples of the function

---
 template/func_table.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/template/func_table.go b/template/func_table.go
index 1cb2b1d..d5758bc 100644
--- a/template/func_table.go
+++ b/template/func_table.go
@@ -91,7 +91,7 @@ func (fi FuncInfo) String() (result string) {
 }
 
 // Examples returns the list of examples associated to the function.
-func (fi FuncInfo) Examples() []Example { return fi.examples }
+func (fi FuncInfo) Examples() []Example { return ifUndef(&fi, fi.alias).(*FuncInfo).examples }
 
 func (fi FuncInfo) getSignature(isMethod bool) string {
 	col := color.HiBlueString
@@ -105,14 +105,14 @@ func (fi FuncInfo) getSignature(isMethod bool) string {
 }
 
 func (fi FuncInfo) getArguments(isMethod bool) string {
-	if fi.in != "" || fi.function == nil {
-		return fi.in
-	}
-
 	if fi.alias != nil {
 		fi = *fi.alias
 	}
 
+	if fi.in != "" || fi.function == nil {
+		return fi.in
+	}
+
 	signature := reflect.ValueOf(fi.function).Type()
 	var parameters []string
 	for i := iif(isMethod, 1, 0).(int); i < signature.NumIn(); i++ {
-- 
2.43.0


From 20ae180154b608d80c7da3819935aeab66378ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:24 +0000
Subject: [PATCH 35/66] fix: the functions registered by the user are not
 replaced by the builtin ones when rendering

---
 template/add_funcs.go  |  6 ++++++
 template/func_table.go | 13 +++++++++++++
 template/template.go   |  5 +++--
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/template/add_funcs.go b/template/add_funcs.go
index d21cb90..dbab98d 100644
--- a/template/add_funcs.go
+++ b/template/add_funcs.go
@@ -47,6 +47,12 @@ func (t *Template) addFuncs() {
 	add(Net, t.addNetFuncs)
 	add(OS, t.addOSFuncs)
 	add(Git, t.addGitFuncs)
+
+	for _, function := range t.functions {
+		if !function.builtin {
+			function.builtin = true
+		}
+	}
 }
 
 // Apply all regular expressions replacements to the supplied string
diff --git a/template/func_table.go b/template/func_table.go
index d5758bc..202ce9c 100644
--- a/template/func_table.go
+++ b/template/func_table.go
@@ -22,6 +22,7 @@ type FuncInfo struct {
 	in, out     string
 	alias       *FuncInfo
 	examples    []Example
+	builtin     bool
 }
 
 // Example can be added to a function to describe how to use it.
@@ -244,6 +245,18 @@ func (t *Template) addFunctions(funcMap funcTableMap) *Template {
 	return t
 }
 
+// inheritFunctions adds the functions registered by the user in another template, each template having its own builtin functions
+func (t *Template) inheritFunctions(funcMap funcTableMap) {
+	inherited := make(funcTableMap)
+	for key, value := range funcMap {
+		if !value.builtin {
+			inherited[key] = value
+			t.functions[key] = value
+		}
+	}
+	t.Funcs(inherited.convert())
+}
+
 // Completes example that are not fully described.
 func (t *Template) completeExamples() string {
 	for _, function := range t.functions {
diff --git a/template/template.go b/template/template.go
index 070ebb8..5f61fe1 100644
--- a/template/template.go
+++ b/template/template.go
@@ -197,9 +197,10 @@ func (t *Template) GetNewContext(folder string, useCache bool) *Template {
 
 	newTemplate := Template(*t)
 	newTemplate.Template = template.New(folder)
-	newTemplate.addFunctions(t.functions)
-	newTemplate.addFunctions(t.aliases)
+	newTemplate.functions = nil
 	newTemplate.init(folder)
+	newTemplate.inheritFunctions(t.functions)
+	newTemplate.addFunctions(t.aliases)
 	newTemplate.parent = t
 	newTemplate.importTemplates(t)
 	newTemplate.options = make(OptionsSet)
-- 
2.43.0


From 6fc99b2d0966ec5f80b4c0da245b1f31a744c4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:54 +0000
Subject: [PATCH 36/66] fix: Template.Merge adds the supplied values to the
 context

---
 template/template.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/template.go b/template/template.go
index 5f61fe1..285b832 100644
--- a/template/template.go
+++ b/template/template.go
@@ -347,7 +347,7 @@ func (t *Template) Add(key string, value interface{}) {
 // Merge allows adding multiple values to the template context.
 // The context and values must both be dictionary to use that function, otherwise, it will panic.
 func (t *Template) Merge(values interface{}) {
-	collections.AsDictionary(t.context).Add(key, collections.AsDictionary(values))
+	collections.AsDictionary(t.context).Merge(collections.AsDictionary(values))
 }
 
 // Context returns the context of the Template as a collections.IDictionary.
-- 
2.43.0


From 03157289b23a456dcf83f3d03505a987810c706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:54 +0000
Subject: [PATCH 37/66] fix: printing the rendering of a terraform file no
 longer panics

---
 template/template_process.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/template/template_process.go b/template/template_process.go
index 3f60442..7d2edf9 100644
--- a/template/template_process.go
+++ b/template/template_process.go
@@ -53,7 +53,8 @@ func (t *Template) ProcessTemplates(sourceFolder, targetFolder string, templates
 func (t *Template) printResult(source, target, result string, changed bool) (err error) {
 	if utils.IsTerraformFile(target) {
 		base := filepath.Base(target)
-		tempFolder := must(os.CreateTemp(t.tempFolder, base)).(string)
+		tempFolder := must(os.MkdirTemp(t.tempFolder, base)).(string)
+		defer func() { os.RemoveAll(tempFolder) }()
 		tempFile := filepath.Join(tempFolder, base)
 		err = os.WriteFile(tempFile, []byte(result), 0644)
 		if err != nil {
-- 
2.43.0


From 8fd25c9a527ab0e008d069b42ca4f8d572c1cf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:54 +0000
Subject: [PATCH 38/66] fix: report the actual error of terraform fmt

---
 utils/terraform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/terraform.go b/utils/terraform.go
index 462eae4..c5fed75 100644
--- a/utils/terraform.go
+++ b/utils/terraform.go
@@ -37,7 +37,7 @@ func TerraformFormat(files ...string) error {
 		cmd := exec.Command("terraform", "fmt")
 		cmd.Dir = folder
 		if output, err := cmd.CombinedOutput(); err != nil {
-			errs = append(errs, fmt.Errorf("%w: %s", errs, strings.TrimSpace(string(output))))
+			errs = append(errs, fmt.Errorf("%w: %s", err, strings.TrimSpace(string(output))))
 			continue
 		}
 
-- 
2.43.0


From 71f4aa7337e82859bb1aee9799071ebc3628325f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:20 +0000
Subject: [PATCH 39/66] fix: overwrite mode is the default when the target
 folder differs from the source folder, as documented

---
 main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.go b/main.go
index 67cda35..ee66e40 100644
--- a/main.go
+++ b/main.go
@@ -233,6 +233,7 @@ func runGotemplate() (exitCode int) {
 
 	// If target folder is not equal to source folder, we run in overwrite mode by default
 	*overwrite = *overwrite || *sourceFolder != *targetFolder
+	optionsSet[template.Overwrite] = *overwrite
 
 	stat, _ := os.Stdin.Stat()
 	if (stat.Mode()&os.ModeCharDevice) == 0 && os.Getenv(envDisableStdinCheck) == "" {
-- 
2.43.0


From 5cd5f0e8af3eb2fdf9a847c808dcc9f3cfd6ef27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:34 +0000
Subject: [PATCH 40/66] fix: following links that form a cycle terminates and
 returns each file once

---
 utils/io.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/io.go b/utils/io.go
index 8727828..3990536 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -27,6 +27,7 @@ func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns .
 	walker = func(folder string) ([]string, error) {
 		results := must(findFiles(folder, patterns...)).([]string)
 		folder, _ = filepath.Abs(folder)
+		visited[folder] = true
 		if maxDepth == 0 {
 			return results, nil
 		}
@@ -36,11 +37,12 @@ func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns .
 				return nil
 			}
 			if info.IsDir() {
-				visited[path] = true
 				depth := strings.Count(must(filepath.Rel(path, folder)).(string), "..")
-				if depth > maxDepth {
+				if depth > maxDepth || visited[path] {
+					// The folder is too deep or has already been reached through a link
 					return filepath.SkipDir
 				}
+				visited[path] = true
 				files, err := findFiles(path, patterns...)
 				if err != nil {
 					return err
-- 
2.43.0


From db46de8653e2f6280e68691cc0991b5d18f36fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:08 +0000
Subject: [PATCH 41/66] fix: files matching several patterns are returned once,
 and folders with brackets in their name are searched

---
 utils/io.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/utils/io.go b/utils/io.go
index 3990536..5ebd84e 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -80,16 +80,29 @@ func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns .
 // FindFiles returns the list of files in the specified folder that match one of the supplied patterns
 func findFiles(folder string, patterns ...string) ([]string, error) {
 	var matches []string
+	found := make(map[string]bool)
+	if filepath.Separator != '\\' {
+		// The special characters in the name of the folder are not a part of the pattern (they cannot be escaped on Windows)
+		folder = escapeGlob.Replace(folder)
+	}
 	for _, pattern := range patterns {
 		files, err := filepath.Glob(filepath.Join(folder, pattern))
 		if err != nil {
 			return nil, err
 		}
-		matches = append(matches, files...)
+		for _, file := range files {
+			// A file that matches many patterns is returned once
+			if !found[file] {
+				found[file] = true
+				matches = append(matches, file)
+			}
+		}
 	}
 	return matches, nil
 }
 
+var escapeGlob = strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`)
+
 // MustFindFiles returns the list of the files matching the array of patterns with panic on error
 func MustFindFiles(folder string, recursive, followLinks bool, patterns ...string) []string {
 	return must(FindFiles(folder, recursive, followLinks, patterns...)).([]string)
-- 
2.43.0


From ed528c17200c1299e8ec3e1b582b0f6090fb00bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:08 +0000
Subject: [PATCH 42/66] fix: unnamed variables that are not files are available
 in ARGS

---
 context.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 20c0620..64b7e2b 100644
--- a/context.go
+++ b/context.go
@@ -86,7 +86,7 @@ func createContext(varsFiles, varsFilesIfExist, namedVars []string, mode string,
 					content = nv.value
 				}
 
-				if nv.name == "" && isFileErr {
+				if nv.name == "" && !nv.unnamed {
 					if !nv.required {
 						loadErr = nil
 					}
@@ -152,6 +152,9 @@ func createContext(varsFiles, varsFilesIfExist, namedVars []string, mode string,
 	}
 
 	if len(unnamed) > 0 {
+		if context == nil {
+			context = collections.CreateDictionary()
+		}
 		context.Set("ARGS", unnamed)
 	}
 	return context, nil
-- 
2.43.0


From 7230845239fdea477972b418b96194640cab3f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:33 +0000
Subject: [PATCH 43/66] fix: a file rendered with no target folder or with the
 source folder written differently is rendered in place

---
 template/template_handler.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/template/template_handler.go b/template/template_handler.go
index 07a55fc..35338dc 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -103,14 +103,17 @@ func (t *Template) processTemplate(template, sourceFolder, targetFolder string,
 		return
 	}
 
-	if sourceFolder == targetFolder && !changed {
+	// With no target folder, the result is written next to the source
+	inPlace := targetFolder == "" || filepath.Clean(sourceFolder) == filepath.Clean(targetFolder)
+
+	if inPlace && !changed {
 		resultFile = ""
 		return
 	}
 
 	mode := must(os.Stat(template)).(os.FileInfo).Mode()
 
-	if sourceFolder != targetFolder {
+	if !inPlace {
 		must(os.MkdirAll(filepath.Dir(resultFile), 0777))
 	} else if !isTemplate && !t.options[Overwrite] {
 		newName := template + ".original"
@@ -127,7 +130,7 @@ func (t *Template) processTemplate(template, sourceFolder, targetFolder string,
 		return
 	}
 
-	if isTemplate && t.options[Overwrite] && sourceFolder == targetFolder {
+	if isTemplate && t.options[Overwrite] && inPlace {
 		os.Remove(template)
 	}
 	return
-- 
2.43.0


From b739760d31ae506b302a2832dbb1b15ae2c314b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:48 +0000
Subject: [PATCH 44/66] fix: folders whose name match a pattern are not
 returned as files

---
 utils/io.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/io.go b/utils/io.go
index 5ebd84e..c5d64f1 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -91,8 +91,8 @@ func findFiles(folder string, patterns ...string) ([]string, error) {
 			return nil, err
 		}
 		for _, file := range files {
-			// A file that matches many patterns is returned once
-			if !found[file] {
+			// A file that matches many patterns is returned once, folders are not files
+			if info, err := os.Stat(file); !found[file] && (err != nil || !info.IsDir()) {
 				found[file] = true
 				matches = append(matches, file)
 			}
-- 
2.43.0


From a976661c60197f74bcf2bd41f708b68f3c4dbfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:00 +0000
Subject: [PATCH 45/66] fix: a source folder that is a link is searched
 recursively, and folders reached through chains of links are searched once

---
 utils/io.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/utils/io.go b/utils/io.go
index c5d64f1..78eecbe 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -27,22 +27,23 @@ func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns .
 	walker = func(folder string) ([]string, error) {
 		results := must(findFiles(folder, patterns...)).([]string)
 		folder, _ = filepath.Abs(folder)
-		visited[folder] = true
+		visited[realPath(folder)] = true
 		if maxDepth == 0 {
 			return results, nil
 		}
 
-		filepath.Walk(folder, func(path string, info os.FileInfo, err error) error {
-			if info == nil || path == folder {
+		root := folder + string(filepath.Separator) // With the separator, the folder is searched even if it is a link
+		filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
+			if info == nil || path == root {
 				return nil
 			}
 			if info.IsDir() {
 				depth := strings.Count(must(filepath.Rel(path, folder)).(string), "..")
-				if depth > maxDepth || visited[path] {
+				if depth > maxDepth || visited[realPath(path)] {
 					// The folder is too deep or has already been reached through a link
 					return filepath.SkipDir
 				}
-				visited[path] = true
+				visited[realPath(path)] = true
 				files, err := findFiles(path, patterns...)
 				if err != nil {
 					return err
@@ -61,7 +62,7 @@ func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns .
 					link = filepath.Join(filepath.Dir(path), link)
 				}
 				link, _ = filepath.Abs(link)
-				if !visited[link] {
+				if !visited[realPath(link)] {
 					// Check if we already visited that link to avoid recursive loop
 					linkFiles, err := walker(link)
 					if err != nil {
@@ -77,6 +78,14 @@ func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns .
 	return walker(folder)
 }
 
+// realPath gives the identity of a folder that could be reached through links
+func realPath(path string) string {
+	if real, err := filepath.EvalSymlinks(path); err == nil {
+		return real
+	}
+	return path
+}
+
 // FindFiles returns the list of files in the specified folder that match one of the supplied patterns
 func findFiles(folder string, patterns ...string) ([]string, error) {
 	var matches []string
-- 
2.43.0


From 699c6a4323505c62aa0608e9c8b6f583c845359e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:06 +0000
Subject: [PATCH 46/66] fix: exclusion patterns apply in a folder whose name
 holds special characters

---
 utilities.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/utilities.go b/utilities.go
index 722d131..ae6f142 100644
--- a/utilities.go
+++ b/utilities.go
@@ -48,6 +48,15 @@ func exclude(files []string, patterns []string) (result []string, err error) {
 	}
 	result = make([]string, 0, len(files))
 
+	folder, err := os.Getwd()
+	if err != nil {
+		return
+	}
+	if filepath.Separator != '\\' {
+		// The special characters in the name of the current folder are not a part of the patterns (they cannot be escaped on Windows)
+		folder = escapeGlob.Replace(folder)
+	}
+
 	for i, file := range files {
 		file, err = filepath.Abs(file)
 		if err != nil {
@@ -55,9 +64,8 @@ func exclude(files []string, patterns []string) (result []string, err error) {
 		}
 		var excluded bool
 		for _, pattern := range patterns {
-			pattern, err = filepath.Abs(pattern)
-			if err != nil {
-				return
+			if pattern = filepath.Clean(pattern); !filepath.IsAbs(pattern) {
+				pattern = filepath.Join(folder, pattern)
 			}
 			if excluded, err = doublestar.PathMatch(pattern, file); err != nil {
 				return
@@ -73,6 +81,8 @@ func exclude(files []string, patterns []string) (result []string, err error) {
 	return
 }
 
+var escapeGlob = strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`, `{`, `\{`, `}`, `\}`)
+
 func extend(values []string) []string {
 	result := make([]string, 0, len(values))
 	for i := range values {
-- 
2.43.0


From ded7808f4af70dc22272a819d3e4a58898cb8775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:37 +0000
Subject: [PATCH 47/66] fix: truncated JSON data is refused instead of being
 partially read by the HCL parser

---
 hcl/hcl.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hcl/hcl.go b/hcl/hcl.go
index 0990586..4f272ca 100644
--- a/hcl/hcl.go
+++ b/hcl/hcl.go
@@ -2,6 +2,8 @@ package hcl
 
 import (
 	"bytes"
+	"encoding/json"
+	"fmt"
 	"os"
 	"reflect"
 
@@ -53,7 +55,13 @@ func Unmarshal(bs []byte, out interface{}) (err error) {
 	defer func() { err = errors.Trap(err, recover()) }()
 	bs = append(bytes.TrimSpace(bs), byte('\n'))
 
-	if err = hcl.Unmarshal(bs, out); err != nil {
+	if bs[0] == '{' && !json.Valid(bs) {
+		// The parser switches to JSON, but it silently ignores what is missing or what follows the object
+		err = fmt.Errorf("invalid JSON object: %s", bs)
+	} else {
+		err = hcl.Unmarshal(bs, out)
+	}
+	if err != nil {
 		bs = append([]byte("_="), bs...)
 		var temp hclDict
 		if errInternalHcl := hcl.Unmarshal(bs, &temp); errInternalHcl != nil || len(temp) != 1 {
-- 
2.43.0


From 8715ff80e8440d4cdb57b89af7718025b00a8f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:05 +0000
Subject: [PATCH 48/66] fix: concurrent renderings no longer share the
 protected multi line strings nor build the razor replacements without
 synchronisation

---
 template/razor.go              | 23 +++++++++++++++++------
 template/razor_repl_literal.go | 10 +++-------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/template/razor.go b/template/razor.go
index ea55062..2f93d1e 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"regexp"
 	"strings"
+	"sync"
 
 	"github.com/fatih/color"
 	"github.com/sirupsen/logrus"
@@ -14,7 +15,7 @@ func (t *Template) applyRazor(content []byte) (result []byte, changed bool) {
 	if !t.options[Razor] || !t.IsRazor(string(content)) {
 		return content, false
 	}
-	t.ensureInit()
+	var longStrings []string
 
 	for _, ignoredExpr := range t.ignoredRazorExpr {
 		ignoredExpr = strings.TrimSpace(ignoredExpr)
@@ -30,7 +31,8 @@ func (t *Template) applyRazor(content []byte) (result []byte, changed bool) {
 		})
 	}
 
-	for _, r := range replacementsInit[fmt.Sprint(t.delimiters)] {
+	for _, r := range t.razorReplacements() {
+		r.longStrings = &longStrings
 		printDebugInfo(r, string(content))
 		if r.parser == nil {
 			content = r.re.ReplaceAll(content, []byte(r.replace))
@@ -154,7 +156,10 @@ func (t *Template) useRazorDelim(re string) string {
 	return strings.Replace(re, "@", regexp.QuoteMeta(t.RazorDelim()), -1)
 }
 
-var replacementsInit = make(map[string][]replacement)
+var (
+	replacementsInit  = make(map[string][]replacement)
+	replacementsMutex sync.Mutex
+)
 
 type replacementFunc func(replacement, string) string
 type replacement struct {
@@ -164,9 +169,14 @@ type replacement struct {
 	re         *regexp.Regexp
 	parser     replacementFunc
 	delimiters []string
+
+	longStrings *[]string // The multi line strings protected during the current razor preprocessing
 }
 
-func (t *Template) ensureInit() {
+// razorReplacements returns the replacements to apply with the current set of delimiters
+func (t *Template) razorReplacements() []replacement {
+	replacementsMutex.Lock()
+	defer replacementsMutex.Unlock()
 	delimiters := fmt.Sprint(t.delimiters)
 	if _, ok := replacementsInit[delimiters]; !ok {
 		// We must ensure that search and replacement expression are compatible with the set of delimiters
@@ -203,17 +213,18 @@ func (t *Template) ensureInit() {
 
 			for i := range subExpressions {
 				re := regexp.MustCompile(subExpressions[i])
-				replacements = append(replacements, replacement{comment, subExpressions[i], replace, re, exprParser, t.delimiters})
+				replacements = append(replacements, replacement{comment, subExpressions[i], replace, re, exprParser, t.delimiters, nil})
 			}
 
 			if len(subExpressions) > 1 && len(expr) == 5 {
 				// If there is a fallback expression evaluator, we apply it on the first replacement alternative
 				re := regexp.MustCompile(subExpressions[0])
-				replacements = append(replacements, replacement{comment, subExpressions[0], replace, re, expr[4].(replacementFunc), t.delimiters})
+				replacements = append(replacements, replacement{comment, subExpressions[0], replace, re, expr[4].(replacementFunc), t.delimiters, nil})
 			}
 		}
 		replacementsInit[delimiters] = replacements
 	}
+	return replacementsInit[delimiters]
 }
 
 func printDebugInfo(r replacement, content string) {
diff --git a/template/razor_repl_literal.go b/template/razor_repl_literal.go
index adfec27..3bbb057 100644
--- a/template/razor_repl_literal.go
+++ b/template/razor_repl_literal.go
@@ -10,21 +10,17 @@ func protectMultiLineStrings(repl replacement, match string) string {
 	if strings.HasPrefix(match[1:], protectString) {
 		// We restore back the long string
 		index := must(strconv.Atoi(repl.re.FindStringSubmatch(match)[1])).(int)
-		restore := longStrings[index]
-		longStrings[index] = ""
-		return restore
+		return (*repl.longStrings)[index]
 	}
 	if !strings.Contains(match, "\n") {
 		// We do not have to protect lines without newline
 		return match
 	}
 	// We save the long string in a buffer, they will be restored at the end of razor preprocessing
-	longStrings = append(longStrings, match)
-	return fmt.Sprintf("`%s%d`", protectString, len(longStrings)-1)
+	*repl.longStrings = append(*repl.longStrings, match)
+	return fmt.Sprintf("`%s%d`", protectString, len(*repl.longStrings)-1)
 }
 
-var longStrings []string
-
 func protectEmail(repl replacement, match string) string {
 	if match[0] == '@' || match[0] == '#' {
 		// This is not an email
-- 
2.43.0


From 6445c66a80990b227ff8a7bac0f5e66a25719841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:17 +0000
Subject: [PATCH 49/66] fix: ignored razor expressions are honoured whatever
 the characters of the razor delimiter

---
 template/razor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/razor.go b/template/razor.go
index 2f93d1e..a1e1b45 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -25,7 +25,7 @@ func (t *Template) applyRazor(content []byte) (result []byte, changed bool) {
 		if strings.HasSuffix(ignoredExpr, "*") || strings.HasSuffix(ignoredExpr, "+") {
 			ignoredExpr += `?` // Ensure that the regex is not greedy
 		}
-		ignoredExpr = t.RazorDelim() + ignoredExpr + `\b` // Stop at the end of the expression
+		ignoredExpr = regexp.QuoteMeta(t.RazorDelim()) + ignoredExpr + `\b` // Stop at the end of the expression
 		content = regexp.MustCompile(ignoredExpr).ReplaceAllFunc(content, func(match []byte) []byte {
 			return []byte(strings.Replace(string(match), t.RazorDelim(), literalAt, 1))
 		})
-- 
2.43.0


From 1ba1383e1df4337c8ad1da333e41171ad6a9b79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:58 +0000
Subject: [PATCH 50/66] fix: digits in the field selected by a razor expression
 are not cut when text follows the expression

---
 template/razor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/razor.go b/template/razor.go
index a1e1b45..ee3aefd 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -69,7 +69,7 @@ var customMetaclass = [][2]string{
 }
 
 // Expression (any character that is not a new line, a start of razor expression or a semicolumn)
-var expressionList = []string{`[^\n]`, `[^@\n]`, `[^@;\n]`, `[^@{\n]`, `[^@;{\n]`, fmt.Sprintf(`[^@;{\n'%s]`, "`"), `[\p{L}_\.]`}
+var expressionList = []string{`[^\n]`, `[^@\n]`, `[^@;\n]`, `[^@{\n]`, `[^@;{\n]`, fmt.Sprintf(`[^@;{\n'%s]`, "`"), `[\p{L}\d_\.]`}
 
 const expressionKey = "[expr]"
 
-- 
2.43.0


From 4a3083d4816374e864e5d75a36217625c9fcf575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:52 +0000
Subject: [PATCH 51/66] fix: a razor expression ends at its own closing
 parenthesis when the following text of the line holds others

---
 template/razor.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/template/razor.go b/template/razor.go
index ee3aefd..fb948c5 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -69,7 +69,17 @@ var customMetaclass = [][2]string{
 }
 
 // Expression (any character that is not a new line, a start of razor expression or a semicolumn)
-var expressionList = []string{`[^\n]`, `[^@\n]`, `[^@;\n]`, `[^@{\n]`, `[^@;{\n]`, fmt.Sprintf(`[^@;{\n'%s]`, "`"), `[\p{L}\d_\.]`}
+var expressionList = []string{`[^\n]`, `[^@\n]`, `[^@;\n]`, `[^@{\n]`, `[^@;{\n]`, fmt.Sprintf(`[^@;{\n'%s]`, "`"), balancedExpression(3), `[\p{L}\d_\.]`}
+
+// balancedExpression returns an expression that ends before an unmatched closing parenthesis or bracket (up to the given number of nested levels)
+func balancedExpression(depth int) string {
+	element := fmt.Sprintf(`[^@;{\n'"()\[\]%s]|"(?:\\.|[^"\\\n])*"`, "`")
+	expr := element
+	for ; depth > 0; depth-- {
+		expr = fmt.Sprintf(`%[1]s|\((?:%[2]s)*\)|\[(?:%[2]s)*\]`, element, expr)
+	}
+	return "(?:" + expr + ")"
+}
 
 const expressionKey = "[expr]"
 
-- 
2.43.0


From 0f31e4e4f0d20b735adfb264e67cf465b8458913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:10 +0000
Subject: [PATCH 52/66] fix: a razor expression that is left to the template
 engine ends at its own closing parenthesis

---
 template/razor.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/template/razor.go b/template/razor.go
index fb948c5..e8e8a6c 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -227,9 +227,11 @@ func (t *Template) razorReplacements() []replacement {
 			}
 
 			if len(subExpressions) > 1 && len(expr) == 5 {
-				// If there is a fallback expression evaluator, we apply it on the first replacement alternative
-				re := regexp.MustCompile(subExpressions[0])
-				replacements = append(replacements, replacement{comment, subExpressions[0], replace, re, expr[4].(replacementFunc), t.delimiters, nil})
+				// If there is a fallback expression evaluator, we apply it on the balanced expression or, if there is none, on the first alternative
+				fallback := fmt.Sprintf("(?:%s+|%s+)", balancedExpression(3), expressionList[0])
+				fallback = strings.Replace(re, expressionKey+"+", t.useRazorDelim(fallback), -1)
+				re := regexp.MustCompile(fallback)
+				replacements = append(replacements, replacement{comment, fallback, replace, re, expr[4].(replacementFunc), t.delimiters, nil})
 			}
 		}
 		replacementsInit[delimiters] = replacements
-- 
2.43.0


From 14a34c1f45a4ba8cf7c3a795ef12aca3ce9a30b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:37 +0000
Subject: [PATCH 53/66] fix: running a file that names a command that does not
 exist is an error

---
 utils/exec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/exec.go b/utils/exec.go
index b9750dd..62523ee 100644
--- a/utils/exec.go
+++ b/utils/exec.go
@@ -56,7 +56,7 @@ func GetCommandFromFile(filename string, args ...interface{}) (cmd *exec.Cmd, er
 			strArgs = append(split[1:], strArgs...)
 		} else {
 			// The command does not exist
-			return
+			return nil, errPath
 		}
 	}
 
-- 
2.43.0


From b6af8f4a51b35695b38e430d95fa2a04ff29b180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:37 +0000
Subject: [PATCH 54/66] fix: consecutive blanks in a command line file are not
 empty arguments

---
 utils/exec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/exec.go b/utils/exec.go
index 62523ee..029a326 100644
--- a/utils/exec.go
+++ b/utils/exec.go
@@ -51,7 +51,7 @@ func GetCommandFromFile(filename string, args ...interface{}) (cmd *exec.Cmd, er
 	} else if _, errPath := exec.LookPath(command); errPath != nil {
 		if strings.Contains(command, " ") {
 			// The command is a string that should be split up into several parts
-			split := strings.Split(command, " ")
+			split := strings.Fields(command)
 			command = split[0]
 			strArgs = append(split[1:], strArgs...)
 		} else {
-- 
2.43.0


From a9cbe0a252d925b571d166f81210713d4b74e032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:41 +0000
Subject: [PATCH 55/66] fix: running a binary file by its path executes it
 instead of rendering its content

---
 template/extra_runtime.go |  4 ++++
 utils/exec.go             | 13 +++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index 57c7393..0a0d1fc 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -481,6 +481,10 @@ func optimizedRunTemplate(t *Template, withClone bool, source string, args ...in
 			} else {
 				source = string(fileContent)
 				filename = tryFile
+				if utils.IsBinary(fileContent) {
+					// The file is a program, there is nothing to render
+					return source, filename, nil
+				}
 			}
 		}
 		razor, _ := t.applyRazor([]byte(source))
diff --git a/utils/exec.go b/utils/exec.go
index 029a326..9992323 100644
--- a/utils/exec.go
+++ b/utils/exec.go
@@ -1,6 +1,7 @@
 package utils
 
 import (
+	"bytes"
 	"fmt"
 	"os"
 	"os/exec"
@@ -38,10 +39,15 @@ func GetCommandFromFile(filename string, args ...interface{}) (cmd *exec.Cmd, er
 		return
 	}
 
-	executer, delegate, command := ScriptParts(strings.TrimSpace(string(script)))
-
 	strArgs := GlobFunc(args...)
 
+	if IsBinary(script) {
+		// The file is the program to execute
+		return exec.Command(filename, strArgs...), nil
+	}
+
+	executer, delegate, command := ScriptParts(strings.TrimSpace(string(script)))
+
 	if executer != "" {
 		command = executer
 		strArgs = append([]string{filename}, strArgs...)
@@ -86,6 +92,9 @@ func GetCommandFromString(script string, args ...interface{}) (cmd *exec.Cmd, te
 	return
 }
 
+// IsBinary determines if the content is not a text
+func IsBinary(content []byte) bool { return bytes.IndexByte(content, 0) >= 0 }
+
 // IsCommand ensures that the supplied command does not contain any shell specific characters
 func IsCommand(command string) bool {
 	return !strings.ContainsAny(command, " \t|&$,;(){}<>[]")
-- 
2.43.0


From 0d99b697d73144bb0b4e5fe038d4b4c782acd368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:58 +0000
Subject: [PATCH 56/66] fix: a file that is both given and matching the
 patterns is rendered once

---
 main.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index ee66e40..2fdffd4 100644
--- a/main.go
+++ b/main.go
@@ -284,13 +284,25 @@ func runGotemplate() (exitCode int) {
 	}
 
 	*templates = append(utils.MustFindFilesMaxDepth(*sourceFolder, *recursionDepth, *followSymLinks, extend(*includePatterns)...), *templates...)
-	for i, template := range *templates {
+	selected := (*templates)[:0]
+	done := make(map[string]bool)
+	for _, template := range *templates {
 		if file, err := filepath.Rel(*sourceFolder, template); err == nil {
 			if _, err = os.Stat(file); err == nil {
-				(*templates)[i] = file
+				template = file
 			}
 		}
+		if _, err := os.Stat(template); err == nil {
+			// A file may be both given explicitly and matching the patterns, it must be rendered only once
+			file := filepath.Clean(template)
+			if done[file] {
+				continue
+			}
+			done[file] = true
+		}
+		selected = append(selected, template)
 	}
+	*templates = selected
 	*templates, err = exclude(*templates, *excludedPatterns)
 	if err != nil {
 		errors.Print(err)
-- 
2.43.0


From f0419f11739a3078632da3e2ac73b721ff8d943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:23 +0000
Subject: [PATCH 57/66] fix: a template read from the standard input is
 rendered even if it contains no code

---
 main.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 2fdffd4..8fcf9da 100644
--- a/main.go
+++ b/main.go
@@ -309,8 +309,9 @@ func runGotemplate() (exitCode int) {
 		exitCode = 1
 	}
 
+	var stdinTemplate string
 	if *forceStdin && stdinContent == "" {
-		*templates = append(*templates, readStdin())
+		stdinTemplate = readStdin()
 	}
 
 	resultFiles, err := t.ProcessTemplates(*sourceFolder, *targetFolder, *templates...)
@@ -319,6 +320,17 @@ func runGotemplate() (exitCode int) {
 		exitCode = 1
 	}
 
+	// The standard input is always a template, it is not the name of a file even if it contains no code
+	if result, err := t.ProcessContent(stdinTemplate, "."); err != nil {
+		errors.Print(err)
+		exitCode = 1
+	} else if strings.TrimRight(result, " \t") != "" {
+		multicolor.Print(result)
+		if !strings.HasSuffix(result, "\n") {
+			multicolor.Println()
+		}
+	}
+
 	// Apply terraform fmt if some generated files are terraform files
 	if !*printOutput {
 		utils.TerraformFormat(resultFiles...)
-- 
2.43.0


From 67eafd80e08245fa28dd10e8355d3499ebbd2ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:25 +0000
Subject: [PATCH 58/66] fix: including a template whose result equals its name
 no longer fails

---
 template/extra_runtime.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index 0a0d1fc..ed902bb 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -192,8 +192,8 @@ func (t *Template) runCommand(command interface{}, args ...interface{}) (interfa
 }
 
 func (t *Template) include(source interface{}, context ...interface{}) (interface{}, error) {
-	content, _, err := t.runTemplate(collections.Interface2string(source), context...)
-	if source == content {
+	content, _, inline, err := optimizedRunTemplate(t, false, collections.Interface2string(source), context...)
+	if inline && source == content {
 		return nil, fmt.Errorf("unable to find a template or a file named %s", source)
 	}
 	return content, err
@@ -430,12 +430,14 @@ func (t *Template) exec(command string, args ...interface{}) (interface{}, error
 }
 
 func (t *Template) runTemplate(source string, args ...interface{}) (result, filename string, err error) {
-	return optimizedRunTemplate(t, false, source, args...)
+	result, filename, _, err = optimizedRunTemplate(t, false, source, args...)
+	return
 }
 
-func optimizedRunTemplate(t *Template, withClone bool, source string, args ...interface{}) (result, filename string, err error) {
+// This function also indicates if the source has been used as the content because there is neither template nor file named <source>
+func optimizedRunTemplate(t *Template, withClone bool, source string, args ...interface{}) (result, filename string, inline bool, err error) {
 	if source == "" {
-		return
+		return "", "", true, nil
 	}
 	var out bytes.Buffer
 
@@ -468,6 +470,7 @@ func optimizedRunTemplate(t *Template, withClone bool, source string, args ...in
 	internalTemplate := t.Lookup(source)
 	if internalTemplate == nil {
 		// This is not a template, so we try to load file named <source>
+		inline = true
 		if !strings.Contains(source, "\n") {
 			tryFile := source
 			if !path.IsAbs(tryFile) {
@@ -481,9 +484,10 @@ func optimizedRunTemplate(t *Template, withClone bool, source string, args ...in
 			} else {
 				source = string(fileContent)
 				filename = tryFile
+				inline = false
 				if utils.IsBinary(fileContent) {
 					// The file is a program, there is nothing to render
-					return source, filename, nil
+					return source, filename, inline, nil
 				}
 			}
 		}
@@ -491,12 +495,12 @@ func optimizedRunTemplate(t *Template, withClone bool, source string, args ...in
 		source = string(razor)
 
 		// There is no file named <source>, so we consider that <source> is the content
-		inline, e := t.New("inline").Parse(source)
+		inlineTemplate, e := t.New("inline").Parse(source)
 		if e != nil {
 			err = e
 			return
 		}
-		internalTemplate = inline
+		internalTemplate = inlineTemplate
 	}
 
 	if withClone {
-- 
2.43.0


From f89f96b6e26f6e10e7ea517025e3a6f648729bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:27 +0000
Subject: [PATCH 59/66] fix: an included text is not processed by razor a
 second time when it uses variables of the caller

---
 template/extra_runtime.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index ed902bb..14dd900 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -467,6 +467,7 @@ func optimizedRunTemplate(t *Template, withClone bool, source string, args ...in
 	}
 
 	// We first try to find a template named <source>
+	originalSource := source
 	internalTemplate := t.Lookup(source)
 	if internalTemplate == nil {
 		// This is not a template, so we try to load file named <source>
@@ -518,7 +519,7 @@ func optimizedRunTemplate(t *Template, withClone bool, source string, args ...in
 		if !withClone {
 			InternalLog.Debug("Running template with context cloning because:", err)
 			t.context = parentContext
-			return optimizedRunTemplate(t, true, source, args...)
+			return optimizedRunTemplate(t, true, originalSource, args...)
 		}
 	}
 
-- 
2.43.0


From d73c65559ccbae6f4aad822a7e30cd6c5c363322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:29 +0000
Subject: [PATCH 60/66] fix: variables of the caller stay visible after a
 nested inclusion

---
 template/extra_runtime.go | 23 ++++++++++++++---------
 template/template.go      |  1 +
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index 14dd900..2a40a23 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -504,15 +504,11 @@ func optimizedRunTemplate(t *Template, withClone bool, source string, args ...in
 		internalTemplate = inlineTemplate
 	}
 
-	if withClone {
-		// Ignore missing keys
-		internalTemplate.Option("missingkey=default")
-	} else {
-		// Return error on missing keys in order to retry but with context cloning
-		// and ensure that we restore the original behavior on error handling
-		defer func() { internalTemplate.Option("missingkey=default") }()
-		internalTemplate.Option("missingkey=error")
-	}
+	// Ignore missing keys if the context is cloned, otherwise, return error on missing keys in order to retry
+	// but with context cloning. In both cases, ensure that we restore the error handling of the caller since
+	// the option is shared by all templates
+	defer t.setMissingKeyError(t.missingKeyError)
+	t.setMissingKeyError(!withClone)
 
 	// We execute the resulting template
 	if err = internalTemplate.Execute(&out, context); err != nil {
@@ -543,6 +539,15 @@ func optimizedRunTemplate(t *Template, withClone bool, source string, args ...in
 	return
 }
 
+func (t *Template) setMissingKeyError(missingKeyError bool) {
+	t.missingKeyError = missingKeyError
+	if missingKeyError {
+		t.Option("missingkey=error")
+	} else {
+		t.Option("missingkey=default")
+	}
+}
+
 func (t *Template) runTemplateItf(source string, context ...interface{}) (interface{}, error) {
 	content, _, err := t.runTemplate(source, context...)
 	return content, err
diff --git a/template/template.go b/template/template.go
index 285b832..23a3322 100644
--- a/template/template.go
+++ b/template/template.go
@@ -36,6 +36,7 @@ type Template struct {
 	options          OptionsSet
 	optionsEnabled   OptionsSet
 	ignoredRazorExpr []string
+	missingKeyError  bool
 }
 
 // Environment variables that could be defined to override default behaviors.
-- 
2.43.0


From db015f5876654404d1f85f961e000e165b205639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:30 +0000
Subject: [PATCH 61/66] fix: a file to import that exists but cannot be read is
 an error even when missing imports are ignored

---
 context.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index 64b7e2b..d836700 100644
--- a/context.go
+++ b/context.go
@@ -87,7 +87,7 @@ func createContext(varsFiles, varsFilesIfExist, namedVars []string, mode string,
 				}
 
 				if nv.name == "" && !nv.unnamed {
-					if !nv.required {
+					if !nv.required && os.IsNotExist(loadErr) {
 						loadErr = nil
 					}
 					return nil, loadErr
@@ -129,7 +129,7 @@ func createContext(varsFiles, varsFilesIfExist, namedVars []string, mode string,
 		}
 		content, err := loader(filename)
 		if err != nil {
-			if _, isFileErr := err.(*os.PathError); isFileErr && ignoreMissingFiles {
+			if os.IsNotExist(err) && ignoreMissingFiles {
 				template.InternalLog.Debugf("Import: %s not found. Skipping the import", filename)
 				continue
 			} else {
-- 
2.43.0


From 3b2ffb9be28e4e138469850a16543e04a3e7cb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:59 +0000
Subject: [PATCH 62/66] fix: the kinds and types of a list or dictionary with
 null values are available

---
 collections/implementation/base_helper.go |  3 ---
 collections/implementation/dict_helper.go |  2 +-
 collections/implementation/list_helper.go | 14 ++++++++++++--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/collections/implementation/base_helper.go b/collections/implementation/base_helper.go
index c23a991..644ce19 100644
--- a/collections/implementation/base_helper.go
+++ b/collections/implementation/base_helper.go
@@ -3,8 +3,6 @@ package implementation
 import (
 	"fmt"
 	"reflect"
-
-	"github.com/coveooss/gotemplate/v3/collections"
 )
 
 type helperBase = BaseHelper
@@ -255,5 +253,4 @@ func NeedConversion(object interface{}, strict bool, typeName string) bool {
 
 var (
 	needConversionImpl = NeedConversion
-	iif                = collections.IIf
 )
diff --git a/collections/implementation/dict_helper.go b/collections/implementation/dict_helper.go
index 6c260ba..12307e0 100644
--- a/collections/implementation/dict_helper.go
+++ b/collections/implementation/dict_helper.go
@@ -111,7 +111,7 @@ func (dh DictHelper) GetTypes(dict baseIDict, kind bool) baseIDict {
 	result := dh.CreateDictionary(dict.Len())
 
 	for key, value := range dict.AsMap() {
-		result.Set(key, iif(kind, reflect.TypeOf(value).Kind().String(), reflect.TypeOf(value).Name()))
+		result.Set(key, typeName(value, kind))
 	}
 	return result
 }
diff --git a/collections/implementation/list_helper.go b/collections/implementation/list_helper.go
index e7fc837..2de59cf 100644
--- a/collections/implementation/list_helper.go
+++ b/collections/implementation/list_helper.go
@@ -119,12 +119,22 @@ func (lh ListHelper) GetStringArray(list baseIList) strArray {
 func (lh ListHelper) GetTypes(list baseIList, kind bool) baseIList {
 	result := lh.CreateList(list.Len())
 	for i := range list.AsArray() {
-		value := list.Get(i)
-		result.Set(i, iif(kind, reflect.TypeOf(value).Kind().String(), reflect.TypeOf(value).Name()))
+		result.Set(i, typeName(list.Get(i), kind))
 	}
 	return result
 }
 
+// typeName returns the name of the type (or kind) of a value. There is no type information on nil.
+func typeName(value interface{}, kind bool) string {
+	if kind {
+		return reflect.ValueOf(value).Kind().String()
+	}
+	if value == nil {
+		return "nil"
+	}
+	return reflect.TypeOf(value).Name()
+}
+
 // Reverse returns a copy of the current list in reverse order.
 func (lh ListHelper) Reverse(list baseIList) baseIList {
 	source := list.AsArray()
-- 
2.43.0


From c05018ea7f51f9587d7c8089c9ecd689c85f97ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:54 +0000
Subject: [PATCH 63/66] fix: signBit takes a single argument, as documented

---
 template/extra_math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/extra_math.go b/template/extra_math.go
index 84dbda7..6a68c27 100644
--- a/template/extra_math.go
+++ b/template/extra_math.go
@@ -484,7 +484,7 @@ func remainder(a, b interface{}) (r interface{}, err error) {
 	return simplify(math.Remainder(toFloat(a), toFloat(b))), nil
 }
 
-func signBit(a, b interface{}) (r interface{}, err error) {
+func signBit(a interface{}) (r interface{}, err error) {
 	defer func() { err = trapError(err, recover()) }()
 	return math.Signbit(toFloat(a)), nil
 }
-- 
2.43.0


From b74bde6429f37805f10869de6dd9c01e77b157bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:25 +0000
Subject: [PATCH 64/66] fix: char gives the character of a code above 255

---
 template/extra_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/extra_data.go b/template/extra_data.go
index ea6c37c..b88c048 100644
--- a/template/extra_data.go
+++ b/template/extra_data.go
@@ -280,7 +280,7 @@ func (t *Template) addDataFuncs() {
 func toChar(value interface{}) (r interface{}, err error) {
 	defer func() { err = trapError(err, recover()) }()
 	return process(value, func(a interface{}) interface{} {
-		return string(byte(toInt(a)))
+		return string(rune(toInt(a)))
 	})
 }
 
-- 
2.43.0


From 6bde41f023c3b278445169df54a113b8a1a80b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:25 +0000
Subject: [PATCH 65/66] fix: id takes its replacement literally

---
 template/extra_utils.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/template/extra_utils.go b/template/extra_utils.go
index cb20a9c..c1c79e9 100644
--- a/template/extra_utils.go
+++ b/template/extra_utils.go
@@ -185,15 +185,14 @@ func id(id string, replace ...interface{}) string {
 	if replacement != "_" {
 		// If the replacement string is not the default one, we generate a special substituter to remove duplicates
 		// taking into account regex special chars such as +, ?, etc.
-		dup = regexp.MustCompile(fmt.Sprintf(`(?:%s)+`, regexSpecial.ReplaceAllString(replacement, `\$0`)))
+		dup = regexp.MustCompile(fmt.Sprintf(`(?:%s)+`, regexp.QuoteMeta(replacement)))
 	}
 
-	return dup.ReplaceAllString(validChars.ReplaceAllString(id, replacement), replacement)
+	return dup.ReplaceAllLiteralString(validChars.ReplaceAllLiteralString(id, replacement), replacement)
 }
 
 var validChars = regexp.MustCompile(`[^\p{L}\d_]`)
 var duplicateUnderscore = regexp.MustCompile(`_+`)
-var regexSpecial = regexp.MustCompile(`[\+\.\?\(\)\[\]\{\}\\]`)
 
 func repeat(n int, a interface{}) (result collections.IGenericList, err error) {
 	if n < 0 {
-- 
2.43.0


From c573e7f2a41fa7c3a55b0f3aa084dff00eb3f399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:25 +0000
Subject: [PATCH 66/66] fix: templates of the same name in extensions are
 imported in the order they are loaded

---
 template/template.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/template/template.go b/template/template.go
index 23a3322..0a56253 100644
--- a/template/template.go
+++ b/template/template.go
@@ -287,9 +287,11 @@ func (t *Template) initExtension() {
 		}
 	}
 
-	// Add the children contexts to the main context
-	for _, context := range ext.children {
-		t.importTemplates(context)
+	// Add the children contexts to the main context (in the order they have been loaded, the last definition of a template has precedence)
+	for _, file := range extensionfiles {
+		if context := ext.children[filepath.Dir(file)]; context != nil {
+			t.importTemplates(context)
+		}
 	}
 
 	// We reset the list of templates
-- 
2.43.0

