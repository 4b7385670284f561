From b08a25fa8b63c6ab21f0adc2d363a087fff2244b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:59 +0000
Subject: [PATCH 01/50] fix: number enum from a schema lists the values, not
 the list itself

{"type":"number","enum":[1,2]} rejected every value, because the whole
list was passed as the only enumeration member.
---
 builder/number.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/number.go b/builder/number.go
index 6dedb57..cb455ac 100644
--- a/builder/number.go
+++ b/builder/number.go
@@ -69,7 +69,7 @@ func buildNumberConstraint(ctx *buildctx, nc *jsval.NumberConstraint, s *schema.
 	}
 
 	if lst := s.Enum; len(lst) > 0 {
-		nc.Enum(lst)
+		nc.Enum(lst...)
 	}
 
 	if v := s.Default; v != nil {
-- 
2.43.0


From 0bef228174a9f19b7c80a48fce7ddd9ec7a2e995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:00 +0000
Subject: [PATCH 02/50] fix: additionalItems applies only to items after the
 positional ones

The loop started at the last positional item, which was then judged by
both its own constraint and the one for additional items.
---
 array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array.go b/array.go
index d77e593..42475c9 100644
--- a/array.go
+++ b/array.go
@@ -103,7 +103,7 @@ pdebug.Printf("unique? -> %s", kv)
 			if cadd == nil { // you can't have additionalItems!
 				return errors.New("additional elements found in array")
 			}
-			for i := lp - 1; i < l; i++ {
+			for i := lp; i < l; i++ {
 				iv := rv.Index(i).Interface()
 				if err := cadd.Validate(iv); err != nil {
 					return err
-- 
2.43.0


From fc414fdec6c6a22fa36037312d29a3a6dbd7c6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:02 +0000
Subject: [PATCH 03/50] fix: uniqueItems no longer mixes up different elements

Elements were compared after formatting with %s, under which different
values such as ["a b"] and ["a","b"], or "[a]" and ["a"], look the same.
---
 array.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/array.go b/array.go
index 42475c9..510f0ae 100644
--- a/array.go
+++ b/array.go
@@ -59,7 +59,7 @@ func (c *ArrayConstraint) Validate(v interface{}) (err error) {
 		uitems = make(map[string]struct{})
 		for i := 0; i < l; i++ {
 			iv := rv.Index(i).Interface()
-			kv := fmt.Sprintf("%s", iv)
+			kv := fmt.Sprintf("%#v", iv)
 pdebug.Printf("unique? -> %s", kv)
 			if _, ok := uitems[kv]; ok {
 				return errors.New("duplicate element found")
@@ -161,8 +161,8 @@ func (c *ArrayConstraint) PositionalItems(ac []Constraint) *ArrayConstraint {
 // When set to true, the validation will fail unless all of your
 // elements are unique.
 //
-// Caveat: Currently we stringify the elements before comparing
-// for uniqueness. This could/should be fixed.
+// Elements are compared by their Go-syntax representation, so that
+// e.g. ["a b"] and ["a", "b"] are different elements.
 func (c *ArrayConstraint) UniqueItems(b bool) *ArrayConstraint {
 	if pdebug.Enabled {
 		pdebug.Printf("Setting uniqueItems = %t", b)
-- 
2.43.0


From 6f675adfb8f776abe2c69d125d2e89a7a4d31013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:03 +0000
Subject: [PATCH 04/50] fix: enum must not panic on uncomparable values

Comparing two maps or slices held in interfaces with == panics. DeepEqual
gives the same answer for simple types and works for those as well.
---
 enum.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enum.go b/enum.go
index 097fefd..7ea2065 100644
--- a/enum.go
+++ b/enum.go
@@ -2,6 +2,7 @@ package jsval
 
 import (
 	"errors"
+	"reflect"
 
 	"github.com/lestrrat-go/pdebug"
 )
@@ -24,7 +25,7 @@ func (c *EnumConstraint) Validate(v interface{}) (err error) {
 		defer g.End()
 	}
 	for _, e := range c.enums {
-		if e == v {
+		if reflect.DeepEqual(e, v) {
 			return nil
 		}
 	}
-- 
2.43.0


From 6ce5d01552b62c6983c4225d260998a3c369ead8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:25 +0000
Subject: [PATCH 05/50] fix: format "ipv6" accepts hexadecimal digits

Only decimal digits and ":" were let through, so that "fe80::1" or
"::ffff:192.0.2.1" were rejected.
---
 string.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/string.go b/string.go
index 9ef1d78..7ad2c13 100644
--- a/string.go
+++ b/string.go
@@ -8,6 +8,7 @@ import (
 	"reflect"
 	"regexp"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/lestrrat-go/pdebug"
@@ -96,15 +97,9 @@ func (sc *StringConstraint) Validate(v interface{}) (err error) {
 			return errors.New("invalid IPv4 address")
 		}
 	case "ipv6":
-		// Should only contain numbers and ":"
-		for _, r := range str {
-			switch {
-			case r == 0x3A || 0x30 <= r && r <= 0x39:
-			default:
-				return errors.New("invalid IPv6 address")
-			}
-		}
-		if addr := net.ParseIP(str); addr == nil {
+		// ParseIP accepts both families, but only IPv6 addresses
+		// contain a ":"
+		if addr := net.ParseIP(str); addr == nil || !strings.Contains(str, ":") {
 			return errors.New("invalid IPv6 address")
 		}
 	case "uri":
-- 
2.43.0


From 3164f44230641e0be45b3f39868fdeca123bac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:26 +0000
Subject: [PATCH 06/50] fix: check the JSON schema format "date-time"

JSON schema calls this format "date-time", which is also what the builder
passes on, but only "datetime" was recognised.
---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 7ad2c13..6ec9daf 100644
--- a/string.go
+++ b/string.go
@@ -72,7 +72,7 @@ func (sc *StringConstraint) Validate(v interface{}) (err error) {
 	}
 
 	switch sc.format {
-	case "datetime":
+	case "datetime", "date-time":
 		if _, err = time.Parse(time.RFC3339, str); err != nil {
 			return errors.New("invalid datetime")
 		}
-- 
2.43.0


From eb54b8ce40589669bb8ed70e2288717f80e2b833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:28 +0000
Subject: [PATCH 07/50] fix: minLength and maxLength count characters, not
 bytes

JSON schema defines the length of a string as its number of characters.
---
 string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 6ec9daf..0c85949 100644
--- a/string.go
+++ b/string.go
@@ -10,6 +10,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 
 	"github.com/lestrrat-go/pdebug"
 )
@@ -52,7 +53,7 @@ func (sc *StringConstraint) Validate(v interface{}) (err error) {
 	}
 
 	str := rv.String()
-	ls := len(str)
+	ls := utf8.RuneCountInString(str)
 	if sc.maxLength > -1 {
 		if pdebug.Enabled {
 			pdebug.Printf("Checking MaxLength (%d)", sc.maxLength)
-- 
2.43.0


From 9b3c7684c1c9d635f5f776c39683791a4b4810df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:29 +0000
Subject: [PATCH 08/50] fix: MaybeTime is valid after decoding it from JSON

UnmarshalJSON stored the time but left the Valid flag off, so that a time
that was given counted as missing.
---
 internal/cmd/genmaybe/genmaybe.go | 3 +--
 maybe.go                          | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/cmd/genmaybe/genmaybe.go b/internal/cmd/genmaybe/genmaybe.go
index 679237b..bdab972 100644
--- a/internal/cmd/genmaybe/genmaybe.go
+++ b/internal/cmd/genmaybe/genmaybe.go
@@ -225,8 +225,7 @@ func genMaybe(types map[string]string, typenames []string, fn string) {
 			buf.WriteString("\nif err != nil {")
 			buf.WriteString("\n	return err")
 			buf.WriteString("\n}")
-			buf.WriteString("\nv.Time = t")
-			buf.WriteString("\nreturn nil")
+			buf.WriteString("\nreturn v.Set(t)")
 			buf.WriteString("\n}")
 		} else {
 			fmt.Fprintf(&buf, "\n\nfunc (v Maybe%s) MarshalJSON() ([]byte, error) {", t)
diff --git a/maybe.go b/maybe.go
index 6006278..a187011 100644
--- a/maybe.go
+++ b/maybe.go
@@ -242,8 +242,7 @@ func (v *MaybeTime) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		return err
 	}
-	v.Time = t
-	return nil
+	return v.Set(t)
 }
 
 type MaybeUint struct {
-- 
2.43.0


From 8640b53c679a460eec4b2855c617966dfb9aa806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:39 +0000
Subject: [PATCH 09/50] fix: enforce required for properties without their own
 constraint

---
 object.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/object.go b/object.go
index 478ffb8..74ab432 100644
--- a/object.go
+++ b/object.go
@@ -53,6 +53,23 @@ func (o *ObjectConstraint) IsPropRequired(s string) bool {
 	return ok
 }
 
+// missingRequired returns the name of a required property which does
+// not have a constraint in props, and is not listed in fields either
+func (o *ObjectConstraint) missingRequired(props map[string]Constraint, fields map[string]struct{}) (string, bool) {
+	o.reqlock.Lock()
+	defer o.reqlock.Unlock()
+
+	for pname := range o.required {
+		if _, ok := props[pname]; ok {
+			continue
+		}
+		if _, ok := fields[pname]; !ok {
+			return pname, true
+		}
+	}
+	return "", false
+}
+
 // MinProperties specifies the minimum number of properties this
 // constraint can allow. If unspecified, it is not checked.
 func (o *ObjectConstraint) MinProperties(n int) *ObjectConstraint {
@@ -370,6 +387,11 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 	}
 	o.proplock.Unlock()
 
+	// Properties may be required without having their own constraint
+	if pname, ok := o.missingRequired(propdefs, premain); ok {
+		return errors.New("object property '" + pname + "' is required")
+	}
+
 	for pname, c := range propdefs {
 		if pdebug.Enabled {
 			pdebug.Printf("Validating property '%s'", pname)
-- 
2.43.0


From c4d820b940b13a09c3b70731a38ce29e35b30cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:41 +0000
Subject: [PATCH 10/50] fix: validate properties against every pattern they
 match

---
 object.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/object.go b/object.go
index 74ab432..e64a778 100644
--- a/object.go
+++ b/object.go
@@ -385,6 +385,10 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 	for pname, c := range o.properties {
 		propdefs[pname] = c
 	}
+	patdefs := make(map[*regexp.Regexp]Constraint)
+	for pat, c := range o.patternProperties {
+		patdefs[pat] = c
+	}
 	o.proplock.Unlock()
 
 	// Properties may be required without having their own constraint
@@ -456,7 +460,9 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		}
 	}
 
-	for pat, c := range o.patternProperties {
+	// A property must be validated against every pattern that it matches
+	pmatched := map[string]struct{}{}
+	for pat, c := range patdefs {
 		if pdebug.Enabled {
 			pdebug.Printf("Checking patternProperty '%s'", pat.String())
 		}
@@ -474,7 +480,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 			// this from "premain"
 			pval := o.getProp(rv, pname)
 
-			delete(premain, pname)
+			pmatched[pname] = struct{}{}
 			pseen[pname] = struct{}{}
 			if err := c.Validate(pval.Interface()); err != nil {
 				return errors.New("object property '" + pname + "' validation failed: " + err.Error())
@@ -482,6 +488,10 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		}
 	}
 
+	for pname := range pmatched {
+		delete(premain, pname)
+	}
+
 	if len(premain) > 0 {
 		c := o.additionalProperties
 		if c == nil {
-- 
2.43.0


From 3a377427a1b775df6ca5acd2b443d92d168c56ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:43 +0000
Subject: [PATCH 11/50] fix: additional properties take part in dependencies

---
 object.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/object.go b/object.go
index e64a778..784b115 100644
--- a/object.go
+++ b/object.go
@@ -500,6 +500,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 
 		for pname := range premain {
 			pval := o.getProp(rv, pname)
+			pseen[pname] = struct{}{}
 			if err := c.Validate(pval.Interface()); err != nil {
 				return errors.New("object property for '" + pname + "' validation failed: " + err.Error())
 			}
-- 
2.43.0


From 2225b9a791c2c1dec7c9669234162fced3f47ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:58 +0000
Subject: [PATCH 12/50] fix: default values do not depend on the order of map
 iteration

---
 object.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/object.go b/object.go
index 784b115..d727df6 100644
--- a/object.go
+++ b/object.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"reflect"
 	"regexp"
+	"sort"
 
 	"github.com/lestrrat-go/pdebug"
 )
@@ -396,7 +397,18 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		return errors.New("object property '" + pname + "' is required")
 	}
 
-	for pname, c := range propdefs {
+	// Visit the properties in a fixed order, and only fill in the default
+	// values once everything else has been checked, so that the outcome
+	// (and what is left in a value that fails) never varies
+	pnames := make([]string, 0, len(propdefs))
+	for pname := range propdefs {
+		pnames = append(pnames, pname)
+	}
+	sort.Strings(pnames)
+	var defaults []string
+
+	for _, pname := range pnames {
+		c := propdefs[pname]
 		if pdebug.Enabled {
 			pdebug.Printf("Validating property '%s'", pname)
 		}
@@ -439,12 +451,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 					pdebug.Printf("object property '" + pname + "' has default")
 				}
 				// We have default
-				dv := c.DefaultValue()
-
-				if err := o.setProp(rv, pname, dv); err != nil {
-					return errors.New("failed to set default value for property '" + pname + "': " + err.Error())
-				}
-				pval = reflect.ValueOf(dv)
+				defaults = append(defaults, pname)
 			}
 
 			continue
@@ -507,7 +514,13 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		}
 	}
 
+	seen := make([]string, 0, len(pseen))
 	for pname := range pseen {
+		seen = append(seen, pname)
+	}
+	sort.Strings(seen)
+
+	for _, pname := range seen {
 		if deps := o.GetPropDependencies(pname); len(deps) > 0 {
 			if pdebug.Enabled {
 				pdebug.Printf("Property '%s' has dependencies", pname)
@@ -529,5 +542,11 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		}
 	}
 
+	for _, pname := range defaults {
+		if err := o.setProp(rv, pname, propdefs[pname].DefaultValue()); err != nil {
+			return errors.New("failed to set default value for property '" + pname + "': " + err.Error())
+		}
+	}
+
 	return nil
 }
-- 
2.43.0


From 3f3dfc994bab7bb2501aa7e9e480e2d9f3495d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:17 +0000
Subject: [PATCH 13/50] fix: visit patterns and properties in a fixed order

---
 object.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/object.go b/object.go
index d727df6..181eb29 100644
--- a/object.go
+++ b/object.go
@@ -338,6 +338,15 @@ func (o *ObjectConstraint) getProp(rv reflect.Value, pname string) reflect.Value
 	}
 }
 
+func sortedKeys(m map[string]struct{}) []string {
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 // Validate validates the given value against this ObjectConstraint
 func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 	if pdebug.Enabled {
@@ -469,11 +478,18 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 
 	// A property must be validated against every pattern that it matches
 	pmatched := map[string]struct{}{}
-	for pat, c := range patdefs {
+	pats := make([]*regexp.Regexp, 0, len(patdefs))
+	for pat := range patdefs {
+		pats = append(pats, pat)
+	}
+	sort.Slice(pats, func(i, j int) bool { return pats[i].String() < pats[j].String() })
+
+	for _, pat := range pats {
+		c := patdefs[pat]
 		if pdebug.Enabled {
 			pdebug.Printf("Checking patternProperty '%s'", pat.String())
 		}
-		for pname := range premain {
+		for _, pname := range sortedKeys(premain) {
 			if !pat.MatchString(pname) {
 				if pdebug.Enabled {
 					pdebug.Printf("Property '%s' does not match pattern...", pname)
@@ -505,7 +521,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 			return errors.New("additional properties are not allowed")
 		}
 
-		for pname := range premain {
+		for _, pname := range sortedKeys(premain) {
 			pval := o.getProp(rv, pname)
 			pseen[pname] = struct{}{}
 			if err := c.Validate(pval.Interface()); err != nil {
@@ -514,13 +530,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		}
 	}
 
-	seen := make([]string, 0, len(pseen))
-	for pname := range pseen {
-		seen = append(seen, pname)
-	}
-	sort.Strings(seen)
-
-	for _, pname := range seen {
+	for _, pname := range sortedKeys(pseen) {
 		if deps := o.GetPropDependencies(pname); len(deps) > 0 {
 			if pdebug.Enabled {
 				pdebug.Printf("Property '%s' has dependencies", pname)
-- 
2.43.0


From a49802167a784b8e8077eedc043f23f5b7f53cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:52 +0000
Subject: [PATCH 14/50] fix: maps keyed by other types than string do not panic

---
 object.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/object.go b/object.go
index 181eb29..827f497 100644
--- a/object.go
+++ b/object.go
@@ -179,20 +179,15 @@ var structInfoRegistry = StructInfoRegistry{
 // XXX Map keys can be something other than strings, but
 // we can't really allow it?
 func (o *ObjectConstraint) getPropNames(rv reflect.Value) ([]string, error) {
-	switch rv.Kind() {
-	case reflect.Ptr, reflect.Interface:
-		rv = rv.Elem()
-	}
-
 	var keys []string
 	switch rv.Kind() {
 	case reflect.Map:
+		if rv.Type().Key().Kind() != reflect.String {
+			return nil, errors.New("panic: can only handle maps with string keys")
+		}
 		vk := rv.MapKeys()
 		keys = make([]string, len(vk))
 		for i, v := range vk {
-			if v.Kind() != reflect.String {
-				return nil, errors.New("panic: can only handle maps with string keys")
-			}
 			keys[i] = v.String()
 		}
 	case reflect.Struct:
@@ -258,7 +253,7 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 
 	switch rv.Kind() {
 	case reflect.Map:
-		rv.SetMapIndex(reflect.ValueOf(pname), reflect.ValueOf(val))
+		rv.SetMapIndex(reflect.ValueOf(pname).Convert(rv.Type().Key()), reflect.ValueOf(val))
 		return nil
 	case reflect.Struct:
 		spvm := rv.MethodByName("SetPropValue")
@@ -309,7 +304,8 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 func (o *ObjectConstraint) getProp(rv reflect.Value, pname string) reflect.Value {
 	switch rv.Kind() {
 	case reflect.Map:
-		pv := reflect.ValueOf(pname)
+		// the key may be of a type derived from string
+		pv := reflect.ValueOf(pname).Convert(rv.Type().Key())
 		return rv.MapIndex(pv)
 	case reflect.Struct:
 		// This guy knows how to grab the value, given a name. Use that
@@ -361,8 +357,10 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 	}
 
 	rv := reflect.ValueOf(v)
-	switch rv.Kind() {
-	case reflect.Ptr, reflect.Interface:
+	if rv.Kind() == reflect.Ptr {
+		rv = rv.Elem()
+	}
+	if rv.Kind() == reflect.Interface {
 		rv = rv.Elem()
 	}
 
-- 
2.43.0


From acc5c2e1a91dbb02d80f4493d9fbfc0779cba809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:17 +0000
Subject: [PATCH 15/50] fix: report default values that cannot be set instead
 of panicking

---
 object.go | 81 +++++++++++++++++++++++++++++++------------------------
 1 file changed, 46 insertions(+), 35 deletions(-)

diff --git a/object.go b/object.go
index 827f497..cc0c9b7 100644
--- a/object.go
+++ b/object.go
@@ -214,15 +214,16 @@ func (o *ObjectConstraint) getPropNames(rv reflect.Value) ([]string, error) {
 var (
 	maybefloatT = reflect.TypeOf(MaybeFloat{})
 	maybeintT   = reflect.TypeOf(MaybeInt{})
+	maybeuintT  = reflect.TypeOf(MaybeUint{})
 	intT        = reflect.TypeOf(int64(0))
+	uintT       = reflect.TypeOf(uint64(0))
 	floatT      = reflect.TypeOf(float64(0))
 )
 
 func coerceValue(v interface{}, t reflect.Type) reflect.Value {
 	vv := reflect.ValueOf(v)
-	switch vv.Kind() {
-	case reflect.Interface:
-		vv = vv.Elem()
+	if vv == zeroval {
+		return reflect.Zero(t)
 	}
 
 	// For known Maybe types, we should do our best, too
@@ -231,9 +232,17 @@ func coerceValue(v interface{}, t reflect.Type) reflect.Value {
 		t = floatT
 	case t == maybeintT:
 		t = intT
+	case t == maybeuintT:
+		t = uintT
 	}
 
-	if vv.Type().ConvertibleTo(t) {
+	// Go can convert numbers to strings (characters), but that's not
+	// what we want here
+	if (t.Kind() == reflect.String) != (vv.Kind() == reflect.String) {
+		return vv
+	}
+
+	if vv.CanConvert(t) {
 		return vv.Convert(t)
 	}
 	return vv
@@ -243,26 +252,25 @@ type setPropValuer interface {
 	SetPropValue(string, interface{}) error
 }
 
-var spvType = reflect.TypeOf((*setPropValuer)(nil)).Elem()
-
 func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface{}) error {
-	switch rv.Kind() {
-	case reflect.Ptr, reflect.Interface:
-		rv = rv.Elem()
-	}
-
 	switch rv.Kind() {
 	case reflect.Map:
-		rv.SetMapIndex(reflect.ValueOf(pname).Convert(rv.Type().Key()), reflect.ValueOf(val))
+		if rv.IsNil() {
+			return errors.New("setProp: cannot set '" + pname + "' in a nil map")
+		}
+		dv := coerceValue(val, rv.Type().Elem())
+		if !dv.Type().AssignableTo(rv.Type().Elem()) {
+			return errors.New("setProp: cannot use " + dv.Type().String() + " as " + rv.Type().Elem().String())
+		}
+		rv.SetMapIndex(reflect.ValueOf(pname).Convert(rv.Type().Key()), dv)
 		return nil
 	case reflect.Struct:
-		spvm := rv.MethodByName("SetPropValue")
-		if spvm != zeroval {
-			out := spvm.Call([]reflect.Value{reflect.ValueOf(pname), reflect.ValueOf(val)})
-			if !out[0].IsNil() {
-				return out[0].Interface().(error)
-			}
-			return nil
+		target := rv
+		if rv.CanAddr() {
+			target = rv.Addr()
+		}
+		if spv, ok := target.Interface().(setPropValuer); ok {
+			return spv.SetPropValue(pname, val)
 		}
 
 		f := o.getProp(rv, pname)
@@ -273,28 +281,31 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 		// Usability: If you specify `Default(10)` on an int64 value,
 		// it doesn't work. But these values are compatible. We should
 		// do our best to align them
-		dv := coerceValue(val, f.Type())
+		var dv interface{}
+		if val != nil {
+			dv = coerceValue(val, f.Type()).Interface()
+		}
 
-		// Is this a Maybe value? If so, we should use its Set() method
-		var mv reflect.Value
-		switch {
-		case f.Type().Implements(maybeif):
-			mv = f.MethodByName("Set")
-		case f.CanAddr() && f.Addr().Type().Implements(maybeif):
-			mv = f.Addr().MethodByName("Set")
-		default:
-			f.Set(dv)
-			return nil
+		if !f.CanSet() {
+			return errors.New("setProp: cannot set field '" + pname + "' (need a pointer to the struct)")
 		}
 
-		if mv == zeroval {
-			return errors.New("setProp: could not get 'Set' method for value")
+		// Is this a Maybe value? If so, we should use its Set() method
+		if f.Kind() == reflect.Ptr && f.IsNil() && f.Type().Implements(maybeif) {
+			f.Set(reflect.New(f.Type().Elem()))
+		}
+		if mv, ok := f.Addr().Interface().(Maybe); ok {
+			return mv.Set(dv)
+		}
+		if mv, ok := f.Interface().(Maybe); ok {
+			return mv.Set(dv)
 		}
 
-		out := mv.Call([]reflect.Value{dv})
-		if !out[0].IsNil() {
-			return out[0].Interface().(error)
+		nv := reflect.ValueOf(dv)
+		if nv == zeroval || !nv.Type().AssignableTo(f.Type()) {
+			return errors.New("setProp: cannot use default value for field '" + pname + "'")
 		}
+		f.Set(nv)
 		return nil
 	default:
 		return errors.New("setProp: don't know what to do with '" + rv.Kind().String() + "'")
-- 
2.43.0


From 0ccf7b9d3b55becf209ee324385b2e583de95505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:58 +0000
Subject: [PATCH 16/50] fix: Maybe fields that are nil or have pointer methods
 do not panic

---
 object.go     | 35 ++++++++++++++++++++---------------
 structinfo.go | 40 ++++++++++++++++++++++++++++++++++++----
 2 files changed, 56 insertions(+), 19 deletions(-)

diff --git a/object.go b/object.go
index cc0c9b7..53210d0 100644
--- a/object.go
+++ b/object.go
@@ -294,10 +294,7 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 		if f.Kind() == reflect.Ptr && f.IsNil() && f.Type().Implements(maybeif) {
 			f.Set(reflect.New(f.Type().Elem()))
 		}
-		if mv, ok := f.Addr().Interface().(Maybe); ok {
-			return mv.Set(dv)
-		}
-		if mv, ok := f.Interface().(Maybe); ok {
+		if mv, ok := getMaybe(f); ok {
 			return mv.Set(dv)
 		}
 
@@ -345,6 +342,20 @@ func (o *ObjectConstraint) getProp(rv reflect.Value, pname string) reflect.Value
 	}
 }
 
+// propValue returns the value to validate for a property: that is the
+// value itself, or the underlying value if it's a Maybe
+func propValue(pval reflect.Value) interface{} {
+	if pval == zeroval {
+		return nil
+	}
+	if isMaybe(pval.Type()) {
+		if mv, ok := getMaybe(pval); ok {
+			return mv.Value()
+		}
+	}
+	return pval.Interface()
+}
+
 func sortedKeys(m map[string]struct{}) []string {
 	keys := make([]string, 0, len(m))
 	for k := range m {
@@ -437,16 +448,10 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		switch {
 		case pval == zeroval:
 			// If we got a zeroval, we're done for.
-		case pval.Type().Implements(maybeif) || reflect.PtrTo(pval.Type()).Implements(maybeif):
+		case isMaybe(pval.Type()):
 			// If we have a Maybe value, we check the Valid() flag
-			mv := pval.MethodByName("Valid")
-			out := mv.Call(nil)
-			if out[0].Bool() {
+			if mv, ok := getMaybe(pval); ok && mv.Valid() {
 				propExists = true
-				// Swap out pval to be the value pointed to by the Maybe value
-				mv = pval.MethodByName("Value")
-				out = mv.Call(nil)
-				pval = out[0]
 			}
 		default:
 			// Everything else, we have *something*
@@ -480,7 +485,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		// ...and add to props that we have seen
 		pseen[pname] = struct{}{}
 
-		if err := c.Validate(pval.Interface()); err != nil {
+		if err := c.Validate(propValue(pval)); err != nil {
 			return errors.New("object property '" + pname + "' validation failed: " + err.Error())
 		}
 	}
@@ -514,7 +519,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 
 			pmatched[pname] = struct{}{}
 			pseen[pname] = struct{}{}
-			if err := c.Validate(pval.Interface()); err != nil {
+			if err := c.Validate(propValue(pval)); err != nil {
 				return errors.New("object property '" + pname + "' validation failed: " + err.Error())
 			}
 		}
@@ -533,7 +538,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		for _, pname := range sortedKeys(premain) {
 			pval := o.getProp(rv, pname)
 			pseen[pname] = struct{}{}
-			if err := c.Validate(pval.Interface()); err != nil {
+			if err := c.Validate(propValue(pval)); err != nil {
 				return errors.New("object property for '" + pname + "' validation failed: " + err.Error())
 			}
 		}
diff --git a/structinfo.go b/structinfo.go
index e6e40dc..2c12efd 100644
--- a/structinfo.go
+++ b/structinfo.go
@@ -46,9 +46,7 @@ func (si *StructInfo) PropNames(rv reflect.Value) []string {
 	for pname, pinfo := range si.props {
 		if pinfo.IsMaybe {
 			fv := rv.FieldByName(pinfo.FieldName)
-			mv := fv.MethodByName("Valid")
-			out := mv.Call(nil)
-			if !out[0].Bool() {
+			if mv, ok := getMaybe(fv); !ok || !mv.Valid() {
 				continue
 			}
 		}
@@ -111,6 +109,40 @@ func (r *StructInfoRegistry) Register(t reflect.Type) StructInfo {
 
 var maybeif = reflect.TypeOf((*Maybe)(nil)).Elem()
 
+// isMaybe returns true if t, or a pointer to t, implements the Maybe
+// interface
+func isMaybe(t reflect.Type) bool {
+	return t.Implements(maybeif) || reflect.PtrTo(t).Implements(maybeif)
+}
+
+// getMaybe returns the Maybe value stored in rv. It fails if rv does not
+// hold a Maybe value, including the case where it is nil
+func getMaybe(rv reflect.Value) (Maybe, bool) {
+	ev := rv
+	if ev.Kind() == reflect.Interface {
+		ev = ev.Elem()
+	}
+	if ev == zeroval || ev.Kind() == reflect.Ptr && ev.IsNil() {
+		return nil, false
+	}
+
+	if mv, ok := rv.Interface().(Maybe); ok {
+		return mv, true
+	}
+	if !reflect.PtrTo(rv.Type()).Implements(maybeif) {
+		return nil, false
+	}
+
+	// The methods are only available via a pointer
+	if !rv.CanAddr() {
+		pv := reflect.New(rv.Type())
+		pv.Elem().Set(rv)
+		rv = pv.Elem()
+	}
+	mv, ok := rv.Addr().Interface().(Maybe)
+	return mv, ok
+}
+
 func extract(t reflect.Type) map[string]PropInfo {
 	props := make(map[string]PropInfo)
 	for i := 0; i < t.NumField(); i++ {
@@ -136,7 +168,7 @@ func extract(t reflect.Type) map[string]PropInfo {
 
 		// Inspect the field type. If this field implements the Maybe
 		// interface, we want to remember it
-		isMaybe := fv.Type.Implements(maybeif) || reflect.PtrTo(fv.Type).Implements(maybeif)
+		isMaybe := isMaybe(fv.Type)
 		if pdebug.Enabled {
 			pdebug.Printf("Checking if field '%s' implements the Maybe interface -> %t", fv.Name, isMaybe)
 		}
-- 
2.43.0


From d792951d2ea8b656d51126303ebd015246688e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:00 +0000
Subject: [PATCH 17/50] fix: struct embedding pointers, other types or tagged
 structs

---
 object.go     |  4 +--
 structinfo.go | 67 +++++++++++++++++++++++++++++++++++++++++++++------
 2 files changed, 61 insertions(+), 10 deletions(-)

diff --git a/object.go b/object.go
index 53210d0..5d76f24 100644
--- a/object.go
+++ b/object.go
@@ -329,14 +329,14 @@ func (o *ObjectConstraint) getProp(rv reflect.Value, pname string) reflect.Value
 			si = structInfoRegistry.Register(rv.Type())
 		}
 
-		fn, ok := si.FieldName(pname)
+		fv, ok := si.field(rv, pname)
 		if !ok {
 			if pdebug.Enabled {
 				pdebug.Printf("Could not resolve name '%s'", pname)
 			}
 			return zeroval
 		}
-		return rv.FieldByName(fn)
+		return fv
 	default:
 		return zeroval
 	}
diff --git a/structinfo.go b/structinfo.go
index 2c12efd..13a366b 100644
--- a/structinfo.go
+++ b/structinfo.go
@@ -12,6 +12,8 @@ type PropInfo struct {
 	FieldName string
 	// IsMaybe is true if this property implements the Maybe interface
 	IsMaybe bool
+	// index is the path to the field, via the embedded structs
+	index []int
 }
 
 type StructInfo struct {
@@ -35,6 +37,20 @@ func (si *StructInfo) FieldName(pname string) (string, bool) {
 	return pinfo.FieldName, true
 }
 
+// field returns the field that maps to this property. Fields that live in
+// an embedded pointer do not exist when the pointer is nil.
+func (si *StructInfo) field(rv reflect.Value, pname string) (reflect.Value, bool) {
+	si.lock.RLock()
+	defer si.lock.RUnlock()
+
+	pinfo, ok := si.props[pname]
+	if !ok {
+		return zeroval, false
+	}
+	fv, err := rv.FieldByIndexErr(pinfo.index)
+	return fv, err == nil
+}
+
 // Gets the list of property names for this particuar instance of a
 // struct. Uninitialized types are not considered, so we remove
 // them depending on the state of this instance of the struct
@@ -44,8 +60,11 @@ func (si *StructInfo) PropNames(rv reflect.Value) []string {
 
 	pnames := make([]string, 0, len(si.props))
 	for pname, pinfo := range si.props {
+		fv, err := rv.FieldByIndexErr(pinfo.index)
+		if err != nil {
+			continue
+		}
 		if pinfo.IsMaybe {
-			fv := rv.FieldByName(pinfo.FieldName)
 			if mv, ok := getMaybe(fv); !ok || !mv.Valid() {
 				continue
 			}
@@ -88,7 +107,7 @@ func (r *StructInfoRegistry) Register(t reflect.Type) StructInfo {
 		return si
 	}
 
-	props := extract(t)
+	props := extract(t, nil)
 	if pdebug.Enabled {
 		pdebug.Printf("Extracted struct with the following properties:")
 		for pname, pinfo := range props {
@@ -143,15 +162,45 @@ func getMaybe(rv reflect.Value) (Maybe, bool) {
 	return mv, ok
 }
 
-func extract(t reflect.Type) map[string]PropInfo {
+// embeddedStruct returns the type of the struct whose fields should be
+// treated as if they were fields of the parent
+func embeddedStruct(fv reflect.StructField) (reflect.Type, bool) {
+	if !fv.Anonymous {
+		return nil, false
+	}
+	if tag := fv.Tag.Get("json"); tag != "" && tag[0] != ',' { // it's been named
+		return nil, false
+	}
+	t := fv.Type
+	if t.Kind() == reflect.Ptr {
+		t = t.Elem()
+	}
+	return t, t.Kind() == reflect.Struct
+}
+
+// extract collects the properties of t. parents are the structs that t
+// is embedded in
+func extract(t reflect.Type, parents []reflect.Type) map[string]PropInfo {
 	props := make(map[string]PropInfo)
+	parents = append(parents, t)
+	for i := 0; i < t.NumField(); i++ {
+		et, ok := embeddedStruct(t.Field(i))
+		for _, pt := range parents {
+			ok = ok && pt != et // structs can embed a pointer to themselves
+		}
+		if !ok {
+			continue
+		}
+		for k, v := range extract(et, parents) {
+			v.index = append([]int{i}, v.index...)
+			props[k] = v
+		}
+	}
+
+	// Fields of the struct itself take precedence
 	for i := 0; i < t.NumField(); i++ {
 		fv := t.Field(i)
-		if fv.Anonymous {
-			info := extract(fv.Type)
-			for k, v := range info {
-				props[k] = v
-			}
+		if _, ok := embeddedStruct(fv); ok {
 			continue
 		}
 
@@ -177,6 +226,7 @@ func extract(t reflect.Type) map[string]PropInfo {
 			props[fv.Name] = PropInfo{
 				FieldName: fv.Name,
 				IsMaybe:   isMaybe,
+				index:     []int{i},
 			}
 			continue
 		}
@@ -191,6 +241,7 @@ func extract(t reflect.Type) map[string]PropInfo {
 		props[tag[:flen+1]] = PropInfo{
 			FieldName: fv.Name,
 			IsMaybe:   isMaybe,
+			index:     []int{i},
 		}
 	}
 	return props
-- 
2.43.0


From 3c4003c6ece243803d0f8200442a12d8d07f3384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:27 +0000
Subject: [PATCH 18/50] fix: number enumerations match values given as Go
 integers

---
 number.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/number.go b/number.go
index 872d3c2..5b7971e 100644
--- a/number.go
+++ b/number.go
@@ -13,7 +13,21 @@ func (nc *NumberConstraint) Enum(l ...interface{}) *NumberConstraint {
 	if nc.enums == nil {
 		nc.enums = Enum()
 	}
-	nc.enums.Enum(l...)
+	// Values are compared as float64
+	fl := make([]interface{}, len(l))
+	for i, v := range l {
+		fl[i] = v
+		rv := reflect.ValueOf(v)
+		switch {
+		case rv.CanInt():
+			fl[i] = float64(rv.Int())
+		case rv.CanUint():
+			fl[i] = float64(rv.Uint())
+		case rv.CanFloat():
+			fl[i] = rv.Float()
+		}
+	}
+	nc.enums.Enum(fl...)
 	return nc
 }
 
-- 
2.43.0


From 41751c491f06130d6560a47cfc567185bc78506d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:28 +0000
Subject: [PATCH 19/50] fix: Integer().MultipleOf() and Integer().Enum() return
 an IntegerConstraint

---
 number.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/number.go b/number.go
index 5b7971e..241fa3e 100644
--- a/number.go
+++ b/number.go
@@ -190,6 +190,19 @@ func (ic *IntegerConstraint) Minimum(n float64) *IntegerConstraint {
 	return ic
 }
 
+// Enum specifies the values that this constraint can have
+func (ic *IntegerConstraint) Enum(l ...interface{}) *IntegerConstraint {
+	ic.NumberConstraint.Enum(l...)
+	return ic
+}
+
+// MultipleOf specifies the number that the given value must be
+// divisible by.
+func (ic *IntegerConstraint) MultipleOf(n float64) *IntegerConstraint {
+	ic.NumberConstraint.MultipleOf(n)
+	return ic
+}
+
 // ExclusiveMinimum specifies if the minimum value should be considered
 // a valid value
 func (ic *IntegerConstraint) ExclusiveMinimum(b bool) *IntegerConstraint {
-- 
2.43.0


From 3d07c214358555e8a8cafc87d8b2549c814ee98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:30 +0000
Subject: [PATCH 20/50] fix: ConstraintMap.Len takes the lock

---
 reference.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reference.go b/reference.go
index 937eb9a..100e8ba 100644
--- a/reference.go
+++ b/reference.go
@@ -21,7 +21,10 @@ type ConstraintMap struct {
 }
 
 // Len returns the number of references stored in this ConstraintMap
-func (cm ConstraintMap) Len() int {
+func (cm *ConstraintMap) Len() int {
+	cm.lock.Lock()
+	defer cm.lock.Unlock()
+
 	return len(cm.refmap())
 }
 
-- 
2.43.0


From 4a4ab6a2894043acdd3c4266fb294a090344de31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:31 +0000
Subject: [PATCH 21/50] fix: validating without a root constraint returns an
 error

---
 jsval.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsval.go b/jsval.go
index 5ec5265..3226e77 100644
--- a/jsval.go
+++ b/jsval.go
@@ -21,6 +21,9 @@ func New() *JSVal {
 // if any of the validations fail
 func (v *JSVal) Validate(x interface{}) error {
 	name := v.Name
+	if v.root == nil {
+		return errors.Errorf("validator %s does not have a root constraint", name)
+	}
 	if len(name) == 0 {
 		return errors.Wrapf(v.root.Validate(x), "validator %p failed", v)
 	}
-- 
2.43.0


From e022ea520857298b39ef27e581edb9f964f5434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:54 +0000
Subject: [PATCH 22/50] fix: not, allOf, anyOf and oneOf in one schema all
 apply

---
 builder/builder.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index 2172597..a5aec05 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -165,8 +165,7 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 
 	ct := jsval.All()
 
-	switch {
-	case s.Not != nil:
+	if s.Not != nil {
 		if pdebug.Enabled {
 			pdebug.Printf("Not constraint")
 		}
@@ -175,7 +174,9 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 			return nil, err
 		}
 		ct.Add(jsval.Not(c1))
-	case len(s.AllOf) > 0:
+	}
+
+	if len(s.AllOf) > 0 {
 		if pdebug.Enabled {
 			pdebug.Printf("AllOf constraint")
 		}
@@ -188,7 +189,9 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 			ac.Add(c1)
 		}
 		ct.Add(ac.Reduce())
-	case len(s.AnyOf) > 0:
+	}
+
+	if len(s.AnyOf) > 0 {
 		if pdebug.Enabled {
 			pdebug.Printf("AnyOf constraint")
 		}
@@ -201,7 +204,9 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 			ac.Add(c1)
 		}
 		ct.Add(ac.Reduce())
-	case len(s.OneOf) > 0:
+	}
+
+	if len(s.OneOf) > 0 {
 		if pdebug.Enabled {
 			pdebug.Printf("OneOf constraint")
 		}
-- 
2.43.0


From 32a49e14caf21bd3930b55fd051208f99e21c357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:55 +0000
Subject: [PATCH 23/50] fix: references to something other than a schema are an
 error

---
 builder/builder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index a5aec05..7231b78 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -137,6 +137,8 @@ func compileReferences(ctx *buildctx, r *jsref.Resolver, v *jsval.JSVal, ref str
 		if err := s1.Extract(thing.(map[string]interface{})); err != nil {
 			return err
 		}
+	default:
+		return errors.New("reference '" + ref + "' does not point to a schema")
 	}
 
 	c1, err := buildFromSchema(ctx, s1)
-- 
2.43.0


From 523d6d99b419f282fcd95f63c10df2ba2e696ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:57 +0000
Subject: [PATCH 24/50] fix: dependencies imply an object

---
 builder/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index 7231b78..3a78c39 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -373,6 +373,10 @@ func schemaLooksLikeObject(s *schema.Schema) bool {
 		return true
 	}
 
+	if len(s.Dependencies.Names) > 0 || len(s.Dependencies.Schemas) > 0 {
+		return true
+	}
+
 	for _, v := range s.Enum {
 		rv := reflect.ValueOf(v)
 		switch rv.Kind() {
-- 
2.43.0


From 88b593f6e868afe1647202723be8ac113080f02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:25 +0000
Subject: [PATCH 25/50] fix: enum applies to boolean, array, object and null
 schemas

---
 bool.go            | 15 +++++++++++++++
 builder/bool.go    |  4 ++++
 builder/builder.go |  8 ++++++++
 interface.go       |  1 +
 4 files changed, 28 insertions(+)

diff --git a/bool.go b/bool.go
index 91ec129..ec7c689 100644
--- a/bool.go
+++ b/bool.go
@@ -17,6 +17,15 @@ func (bc *BooleanConstraint) Default(v interface{}) *BooleanConstraint {
 	return bc
 }
 
+// Enum specifies the values that this constraint can have
+func (bc *BooleanConstraint) Enum(l ...interface{}) *BooleanConstraint {
+	if bc.enums == nil {
+		bc.enums = Enum()
+	}
+	bc.enums.Enum(l...)
+	return bc
+}
+
 // Validate vaidates the value against the given value
 func (bc *BooleanConstraint) Validate(v interface{}) error {
 	rv := reflect.ValueOf(v)
@@ -25,5 +34,11 @@ func (bc *BooleanConstraint) Validate(v interface{}) error {
 	default:
 		return errors.New("value is not a boolean")
 	}
+
+	if enum := bc.enums; enum != nil {
+		if err := enum.Validate(rv.Bool()); err != nil {
+			return err
+		}
+	}
 	return nil
 }
diff --git a/builder/bool.go b/builder/bool.go
index 42093b0..887c4c7 100644
--- a/builder/bool.go
+++ b/builder/bool.go
@@ -6,6 +6,10 @@ import (
 )
 
 func buildBooleanConstraint(_ *buildctx, c *jsval.BooleanConstraint, s *schema.Schema) error {
+	if lst := s.Enum; len(lst) > 0 {
+		c.Enum(lst...)
+	}
+
 	v := s.Default
 	switch v.(type) {
 	case bool:
diff --git a/builder/builder.go b/builder/builder.go
index 3a78c39..2fe0c31 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -281,6 +281,14 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 			default:
 				return nil, errors.New("unknown type: " + st.String())
 			}
+
+			// These constraints do not know about enumerations
+			switch st {
+			case schema.ArrayType, schema.ObjectType, schema.NullType:
+				if len(s.Enum) > 0 {
+					c = jsval.All().Add(c).Add(jsval.Enum(s.Enum...))
+				}
+			}
 			tct.Add(c)
 		}
 		ct.Add(tct.Reduce())
diff --git a/interface.go b/interface.go
index 38484a6..e44c6e8 100644
--- a/interface.go
+++ b/interface.go
@@ -55,6 +55,7 @@ type defaultValue struct {
 // a boolean.
 type BooleanConstraint struct {
 	defaultValue
+	enums *EnumConstraint
 }
 
 // StringConstraint implements a constraint to match against
-- 
2.43.0


From 10248386bcb3c99c15c77271f39274ddfa336d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:26 +0000
Subject: [PATCH 26/50] fix: a null in an enumeration implies null

---
 builder/builder.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/builder/builder.go b/builder/builder.go
index 2fe0c31..468e020 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -345,6 +345,13 @@ func guessSchemaType(s *schema.Schema) schema.PrimitiveTypes {
 		sts = append(sts, schema.BooleanType)
 	}
 
+	if schemaLooksLikeNull(s) {
+		if pdebug.Enabled {
+			pdebug.Printf("Looks like it could be a null...")
+		}
+		sts = append(sts, schema.NullType)
+	}
+
 	if pdebug.Enabled {
 		pdebug.Printf("Guessed types: %#v", sts)
 	}
@@ -522,4 +529,14 @@ func schemaLooksLikeBool(s *schema.Schema) bool {
 	}
 
 	return false
-}
\ No newline at end of file
+}
+
+func schemaLooksLikeNull(s *schema.Schema) bool {
+	for _, v := range s.Enum {
+		if v == nil {
+			return true
+		}
+	}
+
+	return false
+}
-- 
2.43.0


From 89cdda50af804485791c43778b70030bc31ad6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:23 +0000
Subject: [PATCH 27/50] fix: generated code keeps percent signs

---
 generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator.go b/generator.go
index 47d5e17..ac47b1c 100644
--- a/generator.go
+++ b/generator.go
@@ -228,7 +228,7 @@ func generateCode(ctx *genctx, out io.Writer, c interface {
 
 	s := buf.String()
 	s = strings.TrimSuffix(s, ".\n")
-	fmt.Fprintf(out, s)
+	fmt.Fprint(out, s)
 
 	return nil
 }
-- 
2.43.0


From 2fbf99cfa5b26bc3dcb17b4d4d79fc60fb600abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:25 +0000
Subject: [PATCH 28/50] fix: generate valid code for not

---
 generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator.go b/generator.go
index ac47b1c..12c7bb4 100644
--- a/generator.go
+++ b/generator.go
@@ -521,6 +521,6 @@ func generateNotCode(ctx *genctx, out io.Writer, c *NotConstraint) error {
 	if err := generateCode(ctx, out, c.child); err != nil {
 		return err
 	}
-	fmt.Fprint(out, "\n)")
+	fmt.Fprint(out, ",\n)")
 	return nil
 }
-- 
2.43.0


From 17c87b4e2460d6d296b91f369cb18c92baaf2cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:27 +0000
Subject: [PATCH 29/50] fix: report failures to write generated code

---
 generator.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/generator.go b/generator.go
index 12c7bb4..b401ee3 100644
--- a/generator.go
+++ b/generator.go
@@ -113,8 +113,11 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 		os.Stderr.Write(buf.Bytes())
 		return err
 	}
-	out.Write(fsrc)
-	return nil
+	n, err := out.Write(fsrc)
+	if err == nil && n < len(fsrc) {
+		err = io.ErrShortWrite
+	}
+	return err
 }
 
 type genctx struct {
-- 
2.43.0


From 14d9bcdf01dfeebd392134cff99ba8fc9c7e1de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:29 +0000
Subject: [PATCH 30/50] fix: report constraints that code can't be generated
 for

---
 generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator.go b/generator.go
index b401ee3..1ee18f5 100644
--- a/generator.go
+++ b/generator.go
@@ -227,6 +227,8 @@ func generateCode(ctx *genctx, out io.Writer, c interface {
 		if err := generateStringCode(ctx, buf, c.(*StringConstraint)); err != nil {
 			return err
 		}
+	default:
+		return fmt.Errorf("don't know how to generate code for %T", c)
 	}
 
 	s := buf.String()
@@ -494,6 +496,7 @@ func generateArrayCode(ctx *genctx, out io.Writer, c *ArrayConstraint) error {
 		fmt.Fprintf(out, ".\nPositionalItems([]%s.Constraint{\n", ctx.pkgname)
 		for _, ccc := range cc {
 			if err := generateCode(ctx, out, ccc); err != nil {
+				return err
 			}
 			fmt.Fprintf(out, ",\n")
 		}
-- 
2.43.0


From 1d52f0b29c90bcaa36f9c3d8f8fc283ec34a5445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:31 +0000
Subject: [PATCH 31/50] fix: generated code keeps that additional items are not
 allowed

---
 generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator.go b/generator.go
index 1ee18f5..bb84670 100644
--- a/generator.go
+++ b/generator.go
@@ -490,6 +490,9 @@ func generateArrayCode(ctx *genctx, out io.Writer, c *ArrayConstraint) error {
 			return err
 		}
 		fmt.Fprintf(out, ",\n)")
+	} else {
+		// unlike an unspecified constraint, this disallows additional items
+		fmt.Fprint(out, ".\nAdditionalItems(nil)")
 	}
 
 	if cc := c.positionalItems; len(cc) > 0 {
-- 
2.43.0


From ccb7c3097640dd9933f51f184291c6c07a6d8f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:33 +0000
Subject: [PATCH 32/50] fix: generate minProperties, maxProperties and schema
 dependencies

---
 generator.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/generator.go b/generator.go
index bb84670..e0fb956 100644
--- a/generator.go
+++ b/generator.go
@@ -410,6 +410,14 @@ func generateObjectCode(ctx *genctx, out io.Writer, c *ObjectConstraint) error {
 		fmt.Fprint(out, ")")
 	}
 
+	if c.minProperties > -1 {
+		fmt.Fprintf(out, ".\nMinProperties(%d)", c.minProperties)
+	}
+
+	if c.maxProperties > -1 {
+		fmt.Fprintf(out, ".\nMaxProperties(%d)", c.maxProperties)
+	}
+
 	if aprop := c.additionalProperties; aprop != nil {
 		fmt.Fprintf(out, ".\nAdditionalProperties(\n")
 		if err := generateCode(ctx, out, aprop); err != nil {
@@ -470,6 +478,22 @@ func generateObjectCode(ctx *genctx, out io.Writer, c *ObjectConstraint) error {
 		}
 	}
 
+	if m := c.schemadeps; len(m) > 0 {
+		keys := make([]string, 0, len(m))
+		for from := range m {
+			keys = append(keys, from)
+		}
+		sort.Strings(keys)
+
+		for _, from := range keys {
+			fmt.Fprintf(out, ".\nSchemaDependency(\n%s,\n", strconv.Quote(from))
+			if err := generateCode(ctx, out, m[from]); err != nil {
+				return err
+			}
+			fmt.Fprint(out, ",\n)")
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From d9f199fceda8e1a20285ec5626b70f06184229ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:35 +0000
Subject: [PATCH 33/50] fix: generate default values and enumerations with
 their type

---
 generator.go | 102 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 68 insertions(+), 34 deletions(-)

diff --git a/generator.go b/generator.go
index e0fb956..75fc4c5 100644
--- a/generator.go
+++ b/generator.go
@@ -2,10 +2,10 @@ package jsval
 
 import (
 	"bytes"
-	"errors"
 	"fmt"
 	"go/format"
 	"io"
+	"math"
 	"os"
 	"reflect"
 	"sort"
@@ -290,11 +290,7 @@ func generateIntegerCode(ctx *genctx, out io.Writer, c *IntegerConstraint) error
 		fmt.Fprintf(out, ".ExclusiveMaximum(true)")
 	}
 
-	if c.HasDefault() {
-		fmt.Fprintf(out, ".Default(%d)", int(c.DefaultValue().(float64)))
-	}
-
-	return nil
+	return generateDefaultCode(out, c)
 }
 
 func generateNumberCode(ctx *genctx, out io.Writer, c *NumberConstraint) error {
@@ -316,28 +312,79 @@ func generateNumberCode(ctx *genctx, out io.Writer, c *NumberConstraint) error {
 		fmt.Fprintf(out, ".ExclusiveMaximum(true)")
 	}
 
-	if c.HasDefault() {
-		fmt.Fprintf(out, ".Default(%f)", c.DefaultValue())
-	}
+	return generateDefaultCode(out, c)
+}
 
+// generateDefaultCode generates the call to set the default value, if any
+func generateDefaultCode(out io.Writer, c Constraint) error {
+	if !c.HasDefault() {
+		return nil
+	}
+	lit, err := goLiteral(c.DefaultValue())
+	if err != nil {
+		return err
+	}
+	fmt.Fprintf(out, ".Default(%s)", lit)
 	return nil
 }
 
+// goLiteral returns the Go expression that evaluates to v, with the
+// same type
+func goLiteral(v interface{}) (string, error) {
+	switch v := v.(type) {
+	case nil:
+		return "nil", nil
+	case string:
+		return strconv.Quote(v), nil
+	case bool, int:
+		return fmt.Sprint(v), nil
+	case int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, uintptr:
+		return fmt.Sprintf("%T(%d)", v, v), nil
+	case float32, float64:
+		f := reflect.ValueOf(v).Float()
+		if math.IsNaN(f) || math.IsInf(f, 0) {
+			break
+		}
+		return fmt.Sprintf("%T(%s)", v, strconv.FormatFloat(f, 'g', -1, 64)), nil
+	case []interface{}:
+		buf := bytes.Buffer{}
+		for _, e := range v {
+			lit, err := goLiteral(e)
+			if err != nil {
+				return "", err
+			}
+			fmt.Fprintf(&buf, "%s, ", lit)
+		}
+		return "[]interface{}{" + buf.String() + "}", nil
+	case map[string]interface{}:
+		keys := make([]string, 0, len(v))
+		for k := range v {
+			keys = append(keys, k)
+		}
+		sort.Strings(keys)
+
+		buf := bytes.Buffer{}
+		for _, k := range keys {
+			lit, err := goLiteral(v[k])
+			if err != nil {
+				return "", err
+			}
+			fmt.Fprintf(&buf, "%s: %s, ", strconv.Quote(k), lit)
+		}
+		return "map[string]interface{}{" + buf.String() + "}", nil
+	}
+	return "", fmt.Errorf("failed to stringify value %#v", v)
+}
+
 func generateEnumCode(ctx *genctx, out io.Writer, c *EnumConstraint) error {
 	fmt.Fprintf(out, "")
 	l := len(c.enums)
 	for i, v := range c.enums {
-		rv := reflect.ValueOf(v)
-		switch rv.Kind() {
-		case reflect.String:
-			fmt.Fprintf(out, "%s", strconv.Quote(rv.String()))
-		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-			fmt.Fprintf(out, "%d", rv.Int())
-		case reflect.Float32, reflect.Float64:
-			fmt.Fprintf(out, "%f", rv.Float())
-		default:
-			return fmt.Errorf("failed to stringify enum value %#v", rv.Interface())
+		lit, err := goLiteral(v)
+		if err != nil {
+			return err
 		}
+		fmt.Fprint(out, lit)
 		if i < l-1 {
 			fmt.Fprintf(out, ", ")
 		}
@@ -373,17 +420,7 @@ func generateStringCode(ctx *genctx, out io.Writer, c *StringConstraint) error {
 		fmt.Fprintf(out, ",)")
 	}
 
-	if c.HasDefault() {
-		def := c.DefaultValue()
-		switch def.(type) {
-		case string:
-		default:
-			return errors.New("default value must be a string")
-		}
-		fmt.Fprintf(out, ".Default(%s)", strconv.Quote(def.(string)))
-	}
-
-	return nil
+	return generateDefaultCode(out, c)
 }
 
 func generateObjectCode(ctx *genctx, out io.Writer, c *ObjectConstraint) error {
@@ -543,10 +580,7 @@ func generateArrayCode(ctx *genctx, out io.Writer, c *ArrayConstraint) error {
 
 func generateBooleanCode(ctx *genctx, out io.Writer, c *BooleanConstraint) error {
 	fmt.Fprintf(out, "%s.Boolean()", ctx.pkgname)
-	if c.HasDefault() {
-		fmt.Fprintf(out, ".Default(%t)", c.DefaultValue())
-	}
-	return nil
+	return generateDefaultCode(out, c)
 }
 
 func generateNotCode(ctx *genctx, out io.Writer, c *NotConstraint) error {
-- 
2.43.0


From bf8facae68b1a3b9550a3169e7ee09c3abd84827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:36 +0000
Subject: [PATCH 34/50] fix: generate numeric bounds with full precision

---
 generator.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/generator.go b/generator.go
index 75fc4c5..18b3f92 100644
--- a/generator.go
+++ b/generator.go
@@ -275,7 +275,7 @@ func generateIntegerCode(ctx *genctx, out io.Writer, c *IntegerConstraint) error
 	fmt.Fprintf(out, "%s.Integer()", ctx.pkgname)
 
 	if c.applyMinimum {
-		fmt.Fprintf(out, ".Minimum(%d)", int(c.minimum))
+		fmt.Fprintf(out, ".Minimum(%s)", floatLiteral(c.minimum))
 	}
 
 	if c.exclusiveMinimum {
@@ -283,7 +283,7 @@ func generateIntegerCode(ctx *genctx, out io.Writer, c *IntegerConstraint) error
 	}
 
 	if c.applyMaximum {
-		fmt.Fprintf(out, ".Maximum(%d)", int(c.maximum))
+		fmt.Fprintf(out, ".Maximum(%s)", floatLiteral(c.maximum))
 	}
 
 	if c.exclusiveMaximum {
@@ -297,7 +297,7 @@ func generateNumberCode(ctx *genctx, out io.Writer, c *NumberConstraint) error {
 	fmt.Fprintf(out, "%s.Number()", ctx.pkgname)
 
 	if c.applyMinimum {
-		fmt.Fprintf(out, ".Minimum(%f)", c.minimum)
+		fmt.Fprintf(out, ".Minimum(%s)", floatLiteral(c.minimum))
 	}
 
 	if c.exclusiveMinimum {
@@ -305,7 +305,7 @@ func generateNumberCode(ctx *genctx, out io.Writer, c *NumberConstraint) error {
 	}
 
 	if c.applyMaximum {
-		fmt.Fprintf(out, ".Maximum(%f)", c.maximum)
+		fmt.Fprintf(out, ".Maximum(%s)", floatLiteral(c.maximum))
 	}
 
 	if c.exclusiveMaximum {
@@ -315,6 +315,11 @@ func generateNumberCode(ctx *genctx, out io.Writer, c *NumberConstraint) error {
 	return generateDefaultCode(out, c)
 }
 
+// floatLiteral returns the shortest literal that represents f exactly
+func floatLiteral(f float64) string {
+	return strconv.FormatFloat(f, 'g', -1, 64)
+}
+
 // generateDefaultCode generates the call to set the default value, if any
 func generateDefaultCode(out io.Writer, c Constraint) error {
 	if !c.HasDefault() {
@@ -345,7 +350,7 @@ func goLiteral(v interface{}) (string, error) {
 		if math.IsNaN(f) || math.IsInf(f, 0) {
 			break
 		}
-		return fmt.Sprintf("%T(%s)", v, strconv.FormatFloat(f, 'g', -1, 64)), nil
+		return fmt.Sprintf("%T(%s)", v, floatLiteral(f)), nil
 	case []interface{}:
 		buf := bytes.Buffer{}
 		for _, e := range v {
-- 
2.43.0


From 826df40a2cb7ca37d998a3fa3d32637d9d5e0d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:38 +0000
Subject: [PATCH 35/50] fix: generate multipleOf and enum of numbers

---
 generator.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/generator.go b/generator.go
index 18b3f92..ca3b2f5 100644
--- a/generator.go
+++ b/generator.go
@@ -290,9 +290,31 @@ func generateIntegerCode(ctx *genctx, out io.Writer, c *IntegerConstraint) error
 		fmt.Fprintf(out, ".ExclusiveMaximum(true)")
 	}
 
+	if err := generateNumericRules(ctx, out, &c.NumberConstraint); err != nil {
+		return err
+	}
+
 	return generateDefaultCode(out, c)
 }
 
+// generateNumericRules generates the rules other than the range, which
+// are the same for numbers and integers
+func generateNumericRules(ctx *genctx, out io.Writer, c *NumberConstraint) error {
+	if c.applyMultipleOf {
+		fmt.Fprintf(out, ".MultipleOf(%s)", floatLiteral(c.multipleOf))
+	}
+
+	if enum := c.enums; enum != nil {
+		fmt.Fprintf(out, ".Enum(")
+		if err := generateEnumCode(ctx, out, enum); err != nil {
+			return err
+		}
+		fmt.Fprintf(out, ")")
+	}
+
+	return nil
+}
+
 func generateNumberCode(ctx *genctx, out io.Writer, c *NumberConstraint) error {
 	fmt.Fprintf(out, "%s.Number()", ctx.pkgname)
 
@@ -312,6 +334,10 @@ func generateNumberCode(ctx *genctx, out io.Writer, c *NumberConstraint) error {
 		fmt.Fprintf(out, ".ExclusiveMaximum(true)")
 	}
 
+	if err := generateNumericRules(ctx, out, c); err != nil {
+		return err
+	}
+
 	return generateDefaultCode(out, c)
 }
 
-- 
2.43.0


From 82e76924ccb130598433cbcc7f0faa7e13454271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:40 +0000
Subject: [PATCH 36/50] fix: generate code for enumerations of any type

---
 generator.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/generator.go b/generator.go
index ca3b2f5..73ee0f3 100644
--- a/generator.go
+++ b/generator.go
@@ -199,6 +199,12 @@ func generateCode(ctx *genctx, out io.Writer, c interface {
 		if err := generateBooleanCode(ctx, buf, c.(*BooleanConstraint)); err != nil {
 			return err
 		}
+	case *EnumConstraint:
+		fmt.Fprintf(buf, "%s.Enum(", ctx.pkgname)
+		if err := generateEnumCode(ctx, buf, c.(*EnumConstraint)); err != nil {
+			return err
+		}
+		fmt.Fprint(buf, ")")
 	case *IntegerConstraint:
 		if err := generateIntegerCode(ctx, buf, c.(*IntegerConstraint)); err != nil {
 			return err
@@ -448,7 +454,7 @@ func generateStringCode(ctx *genctx, out io.Writer, c *StringConstraint) error {
 		if err := generateEnumCode(ctx, out, enum); err != nil {
 			return err
 		}
-		fmt.Fprintf(out, ",)")
+		fmt.Fprintf(out, ")")
 	}
 
 	return generateDefaultCode(out, c)
@@ -611,6 +617,13 @@ func generateArrayCode(ctx *genctx, out io.Writer, c *ArrayConstraint) error {
 
 func generateBooleanCode(ctx *genctx, out io.Writer, c *BooleanConstraint) error {
 	fmt.Fprintf(out, "%s.Boolean()", ctx.pkgname)
+	if enum := c.enums; enum != nil {
+		fmt.Fprintf(out, ".Enum(")
+		if err := generateEnumCode(ctx, out, enum); err != nil {
+			return err
+		}
+		fmt.Fprintf(out, ")")
+	}
 	return generateDefaultCode(out, c)
 }
 
-- 
2.43.0


From 8d4a0674b58adef80e77f6f7e42e2b5d0348a97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:42 +0000
Subject: [PATCH 37/50] fix: an empty Any or OneOf does not become an
 EmptyConstraint

---
 generator.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/generator.go b/generator.go
index 73ee0f3..3a568a1 100644
--- a/generator.go
+++ b/generator.go
@@ -251,9 +251,6 @@ func generateReferenceCode(ctx *genctx, out io.Writer, c *ReferenceConstraint) e
 }
 
 func generateComboCode(ctx *genctx, out io.Writer, name string, clist []Constraint) error {
-	if len(clist) == 0 {
-		return generateEmptyCode(ctx, out, EmptyConstraint)
-	}
 	fmt.Fprintf(out, "%s.%s()", ctx.pkgname, name)
 	for _, c1 := range clist {
 		fmt.Fprint(out, ".\nAdd(\n")
-- 
2.43.0


From af3e693faf8d49013258137b647f918edf57b3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:44 +0000
Subject: [PATCH 38/50] fix: generating code does not rename or reorder
 validators

---
 generator.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/generator.go b/generator.go
index 3a568a1..bb3f30d 100644
--- a/generator.go
+++ b/generator.go
@@ -37,6 +37,8 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 	refs := map[string]Constraint{}
 	refnames := []string{}
 	valnames := []string{}
+	// Do not rename or reorder what the caller passed to us
+	named := make([]*JSVal, len(validators))
 	for i, v := range validators {
 		for rname, rc := range v.refs {
 			if _, ok := refs[rname]; ok {
@@ -46,10 +48,12 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 			refnames = append(refnames, rname)
 		}
 
-		if v.Name == "" {
-			v.Name = fmt.Sprintf("V%d", i)
+		copied := *v
+		if copied.Name == "" {
+			copied.Name = fmt.Sprintf("V%d", i)
 		}
-		valnames = append(valnames, v.Name)
+		named[i] = &copied
+		valnames = append(valnames, copied.Name)
 	}
 
 	sort.Strings(valnames)
@@ -99,8 +103,8 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 	}
 
 	// Now dump the validators
-	sort.Sort(JSValSlice(validators))
-	for _, v := range validators {
+	sort.Sort(JSValSlice(named))
+	for _, v := range named {
 		fmt.Fprintf(&buf, "\n%s = ", v.Name)
 		if err := generateCode(&ctx, &buf, v); err != nil {
 			return err
-- 
2.43.0


From d47743e71567fde9aae593153f8b7625e5520b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:46 +0000
Subject: [PATCH 39/50] fix: reproducible code for roots that are also
 references

---
 generator.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/generator.go b/generator.go
index bb3f30d..61fa168 100644
--- a/generator.go
+++ b/generator.go
@@ -150,8 +150,15 @@ func generateValidatorCode(ctx *genctx, out io.Writer, v *JSVal) error {
 		fmt.Fprintf(out, ".\nSetConstraintMap(%s)", cmname)
 	}
 
-	for rname, rc := range ctx.refs {
-		if v.root == rc {
+	rnames := make([]string, 0, len(ctx.refs))
+	for rname := range ctx.refs {
+		rnames = append(rnames, rname)
+	}
+	sort.Strings(rnames)
+
+	for _, rname := range rnames {
+		rc := ctx.refs[rname]
+		if reflect.TypeOf(rc).Comparable() && v.root == rc {
 			fmt.Fprintf(out, ".\nSetRoot(%s)", ctx.refnames[rname])
 			found = true
 			break
-- 
2.43.0


From 6e96c8eea0b0e8ec0ff720a08d6e5e45c2dc2a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:48 +0000
Subject: [PATCH 40/50] fix: generate all constraints of a pattern given twice

---
 generator.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/generator.go b/generator.go
index 61fa168..da1da49 100644
--- a/generator.go
+++ b/generator.go
@@ -527,22 +527,21 @@ func generateObjectCode(ctx *genctx, out io.Writer, c *ObjectConstraint) error {
 	// patternProperties is a bit tricky, because the keys are
 	// Regexp objects, and they don't have a sort.Regexp available
 	// for us. It's easy to write one, but we'd have to stringify them
-	// anyways, so we might as well just create a temporary container
-	// with strings as keys
-	ppmap := make(map[string]Constraint)
-	ppnames := make([]string, 0, len(c.patternProperties))
+	// anyways, so we might as well just sort the generated code.
+	// The same pattern may have been specified more than once.
+	ppcodes := make([]string, 0, len(c.patternProperties))
 	for rx, ppc := range c.patternProperties {
-		rxs := rx.String()
-		ppmap[rxs] = ppc
-		ppnames = append(ppnames, rxs)
-	}
-	sort.Strings(ppnames)
-	for _, ppname := range ppnames {
-		fmt.Fprintf(out, ".\nPatternPropertiesString(\n%s,\n", strconv.Quote(ppname))
-		if err := generateCode(ctx, out, ppmap[ppname]); err != nil {
+		ppbuf := bytes.Buffer{}
+		fmt.Fprintf(&ppbuf, ".\nPatternPropertiesString(\n%s,\n", strconv.Quote(rx.String()))
+		if err := generateCode(ctx, &ppbuf, ppc); err != nil {
 			return err
 		}
-		fmt.Fprint(out, ",\n)")
+		fmt.Fprint(&ppbuf, ",\n)")
+		ppcodes = append(ppcodes, ppbuf.String())
+	}
+	sort.Strings(ppcodes)
+	for _, ppcode := range ppcodes {
+		fmt.Fprint(out, ppcode)
 	}
 
 	if m := c.propdeps; len(m) > 0 {
-- 
2.43.0


From db63b2a23fdac431968789be87eaee247619a2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:49 +0000
Subject: [PATCH 41/50] fix: refuse to merge different constraints into one
 reference

---
 generator.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/generator.go b/generator.go
index da1da49..622abe0 100644
--- a/generator.go
+++ b/generator.go
@@ -2,6 +2,7 @@ package jsval
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"go/format"
 	"io"
@@ -41,7 +42,15 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 	named := make([]*JSVal, len(validators))
 	for i, v := range validators {
 		for rname, rc := range v.refs {
-			if _, ok := refs[rname]; ok {
+			if rc0, ok := refs[rname]; ok {
+				// The reference map is shared, so it must mean the same
+				same, err := sameCode(&ctx, rc0, rc)
+				if err != nil {
+					return err
+				}
+				if !same {
+					return errors.New("validators disagree on reference '" + rname + "'")
+				}
 				continue
 			}
 			refs[rname] = rc
@@ -132,6 +141,18 @@ type genctx struct {
 	vname    string
 }
 
+// sameCode returns true if the code for c1 and c2 is the same
+func sameCode(ctx *genctx, c1, c2 Constraint) (bool, error) {
+	var buf1, buf2 bytes.Buffer
+	if err := generateCode(ctx, &buf1, c1); err != nil {
+		return false, err
+	}
+	if err := generateCode(ctx, &buf2, c2); err != nil {
+		return false, err
+	}
+	return bytes.Equal(buf1.Bytes(), buf2.Bytes()), nil
+}
+
 func generateEmptyCode(ctx *genctx, out io.Writer, c emptyConstraint) error {
 	fmt.Fprintf(out, "%s.EmptyConstraint", ctx.pkgname)
 	return nil
-- 
2.43.0


From 8ca8c935ce15c9eafa56e0e284bf0dbcfc6bc520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:14 +0000
Subject: [PATCH 42/50] fix: generate valid code for references when none is
 registered

---
 generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/generator.go b/generator.go
index 622abe0..101f4e1 100644
--- a/generator.go
+++ b/generator.go
@@ -277,7 +277,11 @@ func generateCode(ctx *genctx, out io.Writer, c interface {
 }
 
 func generateReferenceCode(ctx *genctx, out io.Writer, c *ReferenceConstraint) error {
-	fmt.Fprintf(out, "%s.Reference(%s).RefersTo(%s)", ctx.pkgname, ctx.cmname, strconv.Quote(c.reference))
+	cmname := ctx.cmname
+	if cmname == "" { // no references, so this one can't be resolved, either
+		cmname = fmt.Sprintf("&%s.ConstraintMap{}", ctx.pkgname)
+	}
+	fmt.Fprintf(out, "%s.Reference(%s).RefersTo(%s)", ctx.pkgname, cmname, strconv.Quote(c.reference))
 
 	return nil
 }
-- 
2.43.0


From 629699961c8dbb914dc87d6896006eed61f80d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:51 +0000
Subject: [PATCH 43/50] fix: convert defaults for fields that are pointers to a
 Maybe

---
 object.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/object.go b/object.go
index 5d76f24..962a1d8 100644
--- a/object.go
+++ b/object.go
@@ -281,9 +281,13 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 		// Usability: If you specify `Default(10)` on an int64 value,
 		// it doesn't work. But these values are compatible. We should
 		// do our best to align them
+		ft := f.Type()
+		if ft.Kind() == reflect.Ptr && ft.Implements(maybeif) {
+			ft = ft.Elem()
+		}
 		var dv interface{}
 		if val != nil {
-			dv = coerceValue(val, f.Type()).Interface()
+			dv = coerceValue(val, ft).Interface()
 		}
 
 		if !f.CanSet() {
-- 
2.43.0


From 5c03e62862da61e78ce3b245900ee33620efd9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:57 +0000
Subject: [PATCH 44/50] fix: report unresolvable references as errors instead
 of panicking

---
 builder/builder.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/builder/builder.go b/builder/builder.go
index 468e020..d1e3e73 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -6,6 +6,7 @@ package builder
 
 import (
 	"errors"
+	"fmt"
 	"math"
 	"reflect"
 	"sort"
@@ -107,6 +108,18 @@ func (b *Builder) BuildWithCtx(s *schema.Schema, jsctx interface{}) (v *jsval.JS
 	return v, nil
 }
 
+// resolveReference looks up what ref points to. The lookup panics for some
+// pointers into values which are not raw decoded JSON data (such as an
+// element of allOf in a *schema.Schema), which is reported as an error.
+func resolveReference(r *jsref.Resolver, jsctx interface{}, ref string) (thing interface{}, err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			thing, err = nil, fmt.Errorf("failed to resolve reference '%s': %v", ref, e)
+		}
+	}()
+	return r.Resolve(jsctx, ref)
+}
+
 func compileReferences(ctx *buildctx, r *jsref.Resolver, v *jsval.JSVal, ref string, jsctx interface{}) error {
 	if _, err := v.GetReference(ref); err == nil {
 		if pdebug.Enabled {
@@ -119,7 +132,7 @@ func compileReferences(ctx *buildctx, r *jsref.Resolver, v *jsval.JSVal, ref str
 		pdebug.Printf("Building constraints for reference '%s'", ref)
 	}
 
-	thing, err := r.Resolve(jsctx, ref)
+	thing, err := resolveReference(r, jsctx, ref)
 	if err != nil {
 		return err
 	}
@@ -132,6 +145,9 @@ func compileReferences(ctx *buildctx, r *jsref.Resolver, v *jsval.JSVal, ref str
 	switch thing.(type) {
 	case *schema.Schema:
 		s1 = thing.(*schema.Schema)
+		if s1 == nil {
+			return errors.New("reference '" + ref + "' does not point to a schema")
+		}
 	case map[string]interface{}:
 		s1 = schema.New()
 		if err := s1.Extract(thing.(map[string]interface{})); err != nil {
-- 
2.43.0


From ad9927fb3925491d19e5802193394c9d1feb4baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:44 +0000
Subject: [PATCH 45/50] fix: resolve references in documents which are
 references themselves

---
 builder/builder.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index d1e3e73..a2039af 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -8,9 +8,11 @@ import (
 	"errors"
 	"fmt"
 	"math"
+	"net/url"
 	"reflect"
 	"sort"
 
+	"github.com/lestrrat-go/jspointer"
 	"github.com/lestrrat-go/jsref"
 	"github.com/lestrrat-go/jsschema"
 	"github.com/lestrrat-go/jsval"
@@ -117,6 +119,19 @@ func resolveReference(r *jsref.Resolver, jsctx interface{}, ref string) (thing i
 			thing, err = nil, fmt.Errorf("failed to resolve reference '%s': %v", ref, e)
 		}
 	}()
+
+	// A pointer into the raw document applies to the document as it is
+	// written, even if the document itself (or what is pointed to) is
+	// nothing but another reference. The latter is built as such.
+	if m, ok := jsctx.(map[string]interface{}); ok {
+		if u, err := url.Parse(ref); err == nil && u.Host == "" && u.Path == "" && u.Fragment != "" {
+			p, err := jspointer.New(u.Fragment)
+			if err != nil {
+				return nil, err
+			}
+			return p.Get(m)
+		}
+	}
 	return r.Resolve(jsctx, ref)
 }
 
-- 
2.43.0


From 85e5bd39e707b76fbd1b1364af892b7f693eff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:53 +0000
Subject: [PATCH 46/50] fix: refuse references which lead back to themselves

---
 builder/builder.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index a2039af..5ce284a 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -26,6 +26,7 @@ type buildctx struct {
 	V *jsval.JSVal
 	S *schema.Schema
 	R map[string]struct{}
+	A map[string]string // references which lead to nothing but another reference
 }
 
 // New creates a new builder object
@@ -78,6 +79,12 @@ func (b *Builder) BuildWithCtx(s *schema.Schema, jsctx interface{}) (v *jsval.JS
 		V: v,
 		S: s,
 		R: map[string]struct{}{}, // names of references used
+		A: map[string]string{},
+	}
+	if ref := s.Reference; ref != "" {
+		if err := ctx.alias("#", ref); err != nil {
+			return nil, err
+		}
 	}
 
 	c, err := buildFromSchema(&ctx, s)
@@ -110,6 +117,18 @@ func (b *Builder) BuildWithCtx(s *schema.Schema, jsctx interface{}) (v *jsval.JS
 	return v, nil
 }
 
+// alias records that the reference name leads to nothing but another
+// reference, and fails if following them leads back to name.
+func (ctx *buildctx) alias(name, ref string) error {
+	ctx.A[name] = ref
+	for ok := true; ok; ref, ok = ctx.A[ref] {
+		if ref == name {
+			return errors.New("reference '" + name + "' leads back to itself")
+		}
+	}
+	return nil
+}
+
 // resolveReference looks up what ref points to. The lookup panics for some
 // pointers into values which are not raw decoded JSON data (such as an
 // element of allOf in a *schema.Schema), which is reported as an error.
@@ -172,6 +191,12 @@ func compileReferences(ctx *buildctx, r *jsref.Resolver, v *jsval.JSVal, ref str
 		return errors.New("reference '" + ref + "' does not point to a schema")
 	}
 
+	if ref1 := s1.Reference; ref1 != "" {
+		if err := ctx.alias(ref, ref1); err != nil {
+			return err
+		}
+	}
+
 	c1, err := buildFromSchema(ctx, s1)
 	if err != nil {
 		return err
-- 
2.43.0


From 922201168cd3f1828ef0aad5cd64de4455eab24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:49 +0000
Subject: [PATCH 47/50] fix: refuse to generate code for bounds which have no
 literal

---
 generator.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/generator.go b/generator.go
index 101f4e1..fd6c728 100644
--- a/generator.go
+++ b/generator.go
@@ -339,6 +339,19 @@ func generateIntegerCode(ctx *genctx, out io.Writer, c *IntegerConstraint) error
 // generateNumericRules generates the rules other than the range, which
 // are the same for numbers and integers
 func generateNumericRules(ctx *genctx, out io.Writer, c *NumberConstraint) error {
+	for _, rule := range []struct {
+		applied bool
+		value   float64
+	}{
+		{c.applyMinimum, c.minimum},
+		{c.applyMaximum, c.maximum},
+		{c.applyMultipleOf, c.multipleOf},
+	} {
+		if f := rule.value; rule.applied && (math.IsNaN(f) || math.IsInf(f, 0)) {
+			return fmt.Errorf("failed to stringify value %v", f)
+		}
+	}
+
 	if c.applyMultipleOf {
 		fmt.Fprintf(out, ".MultipleOf(%s)", floatLiteral(c.multipleOf))
 	}
-- 
2.43.0


From fc87cad32e8b2769145f82f34809d76d7791617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:02 +0000
Subject: [PATCH 48/50] fix: do not hang on a document which refers to an empty
 URI

---
 builder/builder.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/builder/builder.go b/builder/builder.go
index 5ce284a..90dd8b2 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -143,7 +143,13 @@ func resolveReference(r *jsref.Resolver, jsctx interface{}, ref string) (thing i
 	// written, even if the document itself (or what is pointed to) is
 	// nothing but another reference. The latter is built as such.
 	if m, ok := jsctx.(map[string]interface{}); ok {
-		if u, err := url.Parse(ref); err == nil && u.Host == "" && u.Path == "" && u.Fragment != "" {
+		if u, err := url.Parse(ref); err == nil && u.Host == "" && u.Path == "" {
+			if ref == "#" {
+				return m, nil
+			}
+			if u.Fragment == "" {
+				return nil, errors.New("reference '" + ref + "' does not contain a JSON pointer")
+			}
 			p, err := jspointer.New(u.Fragment)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 15be729c6e25c9682cfb91c24f2da59ac08fb96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:30 +0000
Subject: [PATCH 49/50] fix: the playground server refuses bodies that were cut
 off or go on after the schema

---
 server/server.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/server/server.go b/server/server.go
index e0e96b4..65a4c39 100644
--- a/server/server.go
+++ b/server/server.go
@@ -163,7 +163,12 @@ func (s *Server) httpGenerateValidator(ctx context.Context, w http.ResponseWrite
 	resp := make(map[string]interface{})
 
 	buf := bytes.Buffer{}
-	io.Copy(&buf, r.Body)
+	if _, err := io.Copy(&buf, r.Body); err != nil {
+		resp["success"] = false
+		resp["message"] = err.Error()
+		json.NewEncoder(w).Encode(resp)
+		return
+	}
 
 	sc, err := schema.Read(bytes.NewReader(buf.Bytes()))
 	if err != nil {
@@ -174,7 +179,7 @@ func (s *Server) httpGenerateValidator(ctx context.Context, w http.ResponseWrite
 	}
 
 	var m map[string]interface{}
-	if err := json.NewDecoder(bytes.NewReader(buf.Bytes())).Decode(&m); err != nil {
+	if err := json.Unmarshal(buf.Bytes(), &m); err != nil {
 		resp["success"] = false
 		resp["message"] = err.Error()
 		json.NewEncoder(w).Encode(resp)
-- 
2.43.0


From fb9d2c71999d01df546ffb57f5983157a2166091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:31 +0000
Subject: [PATCH 50/50] fix: jsval refuses schema files that go on after the
 schema

---
 cmd/jsval/jsval.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/jsval/jsval.go b/cmd/jsval/jsval.go
index f7876ab..a1223db 100644
--- a/cmd/jsval/jsval.go
+++ b/cmd/jsval/jsval.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"log"
 	"os"
 
@@ -71,8 +72,14 @@ func _cli() int {
 	}
 	defer f.Close()
 
+	buf, err := ioutil.ReadAll(f)
+	if err != nil {
+		log.Printf("%s", err)
+		return 1
+	}
+
 	var m map[string]interface{}
-	if err := json.NewDecoder(f).Decode(&m); err != nil {
+	if err := json.Unmarshal(buf, &m); err != nil {
 		log.Printf("%s", err)
 		return 1
 	}
-- 
2.43.0

