From 80de2a5b9c432e0d073d43eb7916895791a8d0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 01/37] fix: reject NaN quality values

---
 internal/header/quality_value.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/header/quality_value.go b/internal/header/quality_value.go
index b359bc7..a99b6fc 100644
--- a/internal/header/quality_value.go
+++ b/internal/header/quality_value.go
@@ -51,9 +51,11 @@ var ErrInvalidQualityValue = errors.New("quality range must be between 0.0 and 1
 // where 0.001 is the least preferred and 1 is the most preferred; a
 // value of 0 means "not acceptable".
 func NewQualityValue(qvalue float32) (QualityValue, error) {
-	tooLow, tooHigh := qvalue < QualityValueMinimum.Float(),
-		qvalue > QualityValueMaximum.Float()
-	if tooLow || tooHigh {
+	// NaN is neither within nor outside of the bounds when compared directly,
+	// so ensure the value is within bounds instead of testing if it's outside.
+	inBounds := qvalue >= QualityValueMinimum.Float() &&
+		qvalue <= QualityValueMaximum.Float()
+	if !inBounds {
 		return QualityValue(0), ErrInvalidQualityValue
 	}
 	return QualityValue(qvalue), nil
-- 
2.43.0


From 18b81d743318e39f206004935f212c1d6b52edd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 02/37] fix: sort representation sets stably so ties keep the
 listed order

---
 representation/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/representation/set.go b/representation/set.go
index 977dc93..34f482e 100644
--- a/representation/set.go
+++ b/representation/set.go
@@ -43,7 +43,7 @@ func (s Set) AsSlice() []RankedRepresentation {
 
 // Sort sorts the representation set based on the provided less function.
 func (s Set) Sort(less func(i, j int) bool) {
-	sort.Slice(s, less)
+	sort.SliceStable(s, less)
 }
 
 // First task the first element of the representation set. Must check if
-- 
2.43.0


From 381415ee59cac6fdf6b2945c2bb470aa9aafaffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:38 +0000
Subject: [PATCH 03/37] fix: split comma-separated negotiation header lines
 into their elements

---
 internal/header/accept.go          |  2 +-
 internal/header/accept_charset.go  |  2 +-
 internal/header/accept_encoding.go |  2 +-
 internal/header/accept_features.go |  2 +-
 internal/header/list.go            | 57 ++++++++++++++++++++++++++++++
 internal/header/negotiate.go       |  2 +-
 6 files changed, 62 insertions(+), 5 deletions(-)
 create mode 100644 internal/header/list.go

diff --git a/internal/header/accept.go b/internal/header/accept.go
index 43d2004..f4018f2 100644
--- a/internal/header/accept.go
+++ b/internal/header/accept.go
@@ -49,7 +49,7 @@ func NewAccept(accept []string) (Accept, error) {
 
 	// parse media ranges
 	var mediaRanges []MediaRange
-	for _, m := range accept {
+	for _, m := range splitList(accept) {
 		mediaRange, err := parseMediaRange(m)
 		if err != nil {
 			return EmptyAccept, err
diff --git a/internal/header/accept_charset.go b/internal/header/accept_charset.go
index d79f13c..e311776 100644
--- a/internal/header/accept_charset.go
+++ b/internal/header/accept_charset.go
@@ -50,7 +50,7 @@ func NewAcceptCharset(acceptCharset []string) (AcceptCharset, error) {
 		return EmptyAcceptCharset, nil
 	}
 	var charsets []CharsetRange
-	for _, c := range acceptCharset {
+	for _, c := range splitList(acceptCharset) {
 		charset, err := NewCharsetRange(c)
 		if err != nil {
 			return EmptyAcceptCharset, err
diff --git a/internal/header/accept_encoding.go b/internal/header/accept_encoding.go
index fbef4ff..6b93f8d 100644
--- a/internal/header/accept_encoding.go
+++ b/internal/header/accept_encoding.go
@@ -47,7 +47,7 @@ func NewAcceptEncoding(acceptEncoding []string) (AcceptEncoding, error) {
 		return EmptyAcceptEncoding, nil
 	}
 	var contentCodings []ContentCodingRange
-	for _, cc := range acceptEncoding {
+	for _, cc := range splitList(acceptEncoding) {
 		coding, err := NewContentCodingRange(cc)
 		if err != nil {
 			return EmptyAcceptEncoding, err
diff --git a/internal/header/accept_features.go b/internal/header/accept_features.go
index 410369b..590ce83 100644
--- a/internal/header/accept_features.go
+++ b/internal/header/accept_features.go
@@ -46,7 +46,7 @@ func NewAcceptFeatures(acceptFeatures []string) (AcceptFeatures, error) {
 		return EmptyAcceptFeatures, nil
 	}
 	var expressions []FeatureExpression
-	for _, e := range acceptFeatures {
+	for _, e := range splitList(acceptFeatures) {
 		expressions = append(expressions, FeatureExpression(e))
 	}
 	return AcceptFeatures(expressions), nil
diff --git a/internal/header/list.go b/internal/header/list.go
new file mode 100644
index 0000000..a36668f
--- /dev/null
+++ b/internal/header/list.go
@@ -0,0 +1,57 @@
+/* Copyright 2020 Freerware
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+package header
+
+import "strings"
+
+// splitList splits the values of each line of a header field into the
+// individual list elements. Each line may carry multiple comma-separated
+// elements, surrounded by optional whitespace, and empty elements are ignored.
+// Commas that appear within quoted strings do not separate elements.
+// https://tools.ietf.org/html/rfc7230#section-7
+//
+// When every line is empty, a single empty element is provided.
+func splitList(lines []string) []string {
+	if len(lines) == 0 {
+		return nil
+	}
+	var elements []string
+	for _, line := range lines {
+		var start int
+		var quoted, escaped bool
+		for i := 0; i <= len(line); i++ {
+			if i == len(line) || (line[i] == ',' && !quoted) {
+				if e := strings.Trim(line[start:i], " \t"); len(e) > 0 {
+					elements = append(elements, e)
+				}
+				start = i + 1
+				continue
+			}
+			switch {
+			case escaped:
+				escaped = false
+			case quoted && line[i] == '\\':
+				escaped = true
+			case line[i] == '"':
+				quoted = !quoted
+			}
+		}
+	}
+	if len(elements) == 0 {
+		return []string{""}
+	}
+	return elements
+}
diff --git a/internal/header/negotiate.go b/internal/header/negotiate.go
index c3250db..d1de18c 100644
--- a/internal/header/negotiate.go
+++ b/internal/header/negotiate.go
@@ -34,7 +34,7 @@ type Negotiate []NegotiateDirective
 // NewNegotiate constructs a Negotiate header with the provided directives.
 func NewNegotiate(directives []string) (Negotiate, error) {
 	var dirs []NegotiateDirective
-	for _, d := range directives {
+	for _, d := range splitList(directives) {
 		directive, err := NewNegotiateDirective(d)
 		if err != nil {
 			return EmptyNegotiateHeader, err
-- 
2.43.0


From 2fd4b2eebeead5c3037f9a9d294a10d612bd428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 04/37] fix: honor the whole quality value of content coding
 ranges

---
 internal/header/content_coding_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index 470c81d..7448fd3 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -90,7 +90,7 @@ func NewContentCodingRange(contentCoding string) (ContentCodingRange, error) {
 	cc := ContentCodingRange{coding: groups[1], qValue: QualityValue(1.0)}
 
 	if len(groups[3]) > 0 {
-		q, _ := strconv.ParseFloat(groups[4], 32)
+		q, _ := strconv.ParseFloat(groups[3], 32)
 		qv, err := NewQualityValue(float32(q))
 		if err != nil {
 			return ContentCodingRange{}, err
-- 
2.43.0


From e40379de2f18954eb51d9e92ffda1c20ebe11ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:44 +0000
Subject: [PATCH 05/37] fix: accept every token, and optional whitespace, in
 charset and coding ranges

---
 internal/header/charset_range.go        | 2 +-
 internal/header/content_coding_range.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/header/charset_range.go b/internal/header/charset_range.go
index 3c21d93..6046dba 100644
--- a/internal/header/charset_range.go
+++ b/internal/header/charset_range.go
@@ -23,7 +23,7 @@ import (
 	"strings"
 )
 
-var charsetRangeRegex = regexp.MustCompile(`^([A-Za-z0-9-]+|\*)(;\s?q=(\d(\.\d{1,3})?))?$`)
+var charsetRangeRegex = regexp.MustCompile(`^([A-Za-z0-9!#$%&'*+.^_|~-]+)(\s*;\s*[qQ]=(\d(\.\d{0,3})?))?$`)
 
 var (
 	// defaultCharsetRange represents the default charset range.
diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index 7448fd3..2ac8e17 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -25,7 +25,7 @@ import (
 	"github.com/stretchr/stew/slice"
 )
 
-var contentCodingRangeRegex = regexp.MustCompile(`^([A-Za-z0-9-]+|\*)(;\s?q=(\d(\.\d{1,3})?))?$`)
+var contentCodingRangeRegex = regexp.MustCompile(`^([A-Za-z0-9!#$%&'*+.^_|~-]+)(\s*;\s*[qQ]=(\d(\.\d{0,3})?))?$`)
 
 var (
 	gzip      = "gzip"
-- 
2.43.0


From 4f7c2483f4a82def15505ddfbfdeeb2a0406af79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:05 +0000
Subject: [PATCH 06/37] fix: treat content codings in Accept-Encoding as
 case-insensitive

---
 internal/header/content_coding_range.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index 2ac8e17..3b367b5 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -84,10 +84,12 @@ func NewContentCodingRange(contentCoding string) (ContentCodingRange, error) {
 	}
 	groups := contentCodingRangeRegex.FindStringSubmatch(contentCoding)
 
-	if !slice.ContainsString(contentCodings, groups[1]) {
+	// content codings are case-insensitive.
+	coding := strings.ToLower(groups[1])
+	if !slice.ContainsString(contentCodings, coding) {
 		return ContentCodingRange{}, ErrInvalidContentCodingRange
 	}
-	cc := ContentCodingRange{coding: groups[1], qValue: QualityValue(1.0)}
+	cc := ContentCodingRange{coding: coding, qValue: QualityValue(1.0)}
 
 	if len(groups[3]) > 0 {
 		q, _ := strconv.ParseFloat(groups[3], 32)
-- 
2.43.0


From d6cd9e1bdc248ec3163ba8d725991cfd44ed3293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:22 +0000
Subject: [PATCH 07/37] fix: honor the wildcard and explicitly rejected ranges
 of Accept-Language

---
 internal/header/accept_language.go | 69 ++++++++++++++++++++++++------
 1 file changed, 56 insertions(+), 13 deletions(-)

diff --git a/internal/header/accept_language.go b/internal/header/accept_language.go
index ac04d4c..695e1f0 100644
--- a/internal/header/accept_language.go
+++ b/internal/header/accept_language.go
@@ -18,6 +18,7 @@ package header
 import (
 	"fmt"
 	"sort"
+	"strconv"
 	"strings"
 
 	"golang.org/x/text/language"
@@ -48,23 +49,47 @@ func NewAcceptLanguage(acceptLanguage []string) (AcceptLanguage, error) {
 	if len(acceptLanguage) == 0 {
 		return EmptyAcceptLanguage, nil
 	}
-	tags, qValues, err := language.ParseAcceptLanguage(strings.Join(acceptLanguage, ","))
-	if err != nil {
-		return EmptyAcceptLanguage, err
-	}
 
 	var ranges []LanguageRange
-	for i := 0; i < len(tags); i++ {
-		qv, err := NewQualityValue(qValues[i])
+	for _, element := range splitList(acceptLanguage) {
+		name, weight := element, ""
+		if i := strings.Index(element, ";"); i != -1 {
+			name, weight = element[:i], element[i+1:]
+		}
+		name = strings.TrimSpace(name)
+		if len(name) == 0 {
+			continue
+		}
+
+		// parse the weight separately, since ranges that are explicitly not
+		// acceptable (q=0) must be retained.
+		qv, err := parseWeight(weight)
 		if err != nil {
 			return EmptyAcceptLanguage, err
 		}
-		ranges = append(ranges, LanguageRange{
-			lrange: tags[i].String() + ";q=" + qv.String(),
-			tag:    tags[i],
-			qValue: qv,
-		})
+
+		if name == "*" {
+			wildcard := defaultLanguageRange
+			wildcard.qValue = qv
+			ranges = append(ranges, wildcard)
+			continue
+		}
+
+		tags, _, err := language.ParseAcceptLanguage(name)
+		if err != nil {
+			return EmptyAcceptLanguage, err
+		}
+		for _, tag := range tags {
+			ranges = append(ranges, LanguageRange{
+				lrange: tag.String(),
+				tag:    tag,
+				qValue: qv,
+			})
+		}
 	}
+	sort.SliceStable(ranges, func(first, second int) bool {
+		return ranges[first].QualityValue() > ranges[second].QualityValue()
+	})
 	return AcceptLanguage(ranges), nil
 }
 
@@ -75,7 +100,7 @@ func (l AcceptLanguage) IsEmpty() bool {
 
 // LanguageRanges provides the language ranges sorted on preference from//// highest to lowest.
 func (l AcceptLanguage) LanguageRanges() []LanguageRange {
-	sort.Slice(l, func(first, second int) bool {
+	sort.SliceStable(l, func(first, second int) bool {
 		f := l[first]
 		s := l[second]
 		return f.QualityValue().GreaterThan(s.QualityValue())
@@ -98,7 +123,25 @@ func (l AcceptLanguage) Compatible(language string) (c bool, err error) {
 func (l AcceptLanguage) String() string {
 	var languageRanges []string
 	for _, lr := range l {
-		languageRanges = append(languageRanges, fmt.Sprintf("%s;q=%s", lr.tag.String(), lr.QualityValue().String()))
+		languageRanges = append(languageRanges, lr.String())
 	}
 	return fmt.Sprintf("%s: %s", headerAcceptLanguage, strings.Join(languageRanges, ","))
 }
+
+// parseWeight parses the weight ("q=0.5") of a language range. Provides the
+// default quality value when there is no weight.
+func parseWeight(weight string) (QualityValue, error) {
+	weight = strings.TrimSpace(weight)
+	if len(weight) == 0 {
+		return QualityValueDefault, nil
+	}
+	parts := strings.SplitN(weight, "=", 2)
+	if len(parts) != 2 || !strings.EqualFold(strings.TrimSpace(parts[0]), "q") {
+		return QualityValueMinimum, ErrInvalidQualityValue
+	}
+	f, err := strconv.ParseFloat(strings.TrimSpace(parts[1]), 32)
+	if err != nil {
+		return QualityValueMinimum, err
+	}
+	return NewQualityValue(float32(f))
+}
-- 
2.43.0


From 8144841da20463227fc1046fb881b709578efd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 08/37] fix: let the most specific range of a header determine
 the quality of a representation

---
 internal/header/accept.go          | 20 ++++++++++++++++----
 internal/header/accept_charset.go  | 24 +++++++++++++++++++-----
 internal/header/accept_language.go | 30 ++++++++++++++++++++++++------
 internal/header/media_range.go     | 22 ++++++++++++++++++++++
 proactive/apache_httpd.go          | 24 +++++++-----------------
 transparent/rvsa.go                | 30 +++++++++---------------------
 6 files changed, 97 insertions(+), 53 deletions(-)

diff --git a/internal/header/accept.go b/internal/header/accept.go
index f4018f2..4f86aee 100644
--- a/internal/header/accept.go
+++ b/internal/header/accept.go
@@ -74,17 +74,29 @@ func (a Accept) MediaRanges() []MediaRange {
 	return a
 }
 
-// Compatible determines if the provided media type is compatible with any
-// of the media ranges within the Accept header value.
-func (a Accept) Compatible(mediaType string) (c bool, err error) {
+// Match provides the media range that applies to the provided media type,
+// which is the most specific of the compatible media ranges.
+// https://tools.ietf.org/html/rfc7231#section-5.3.2
+func (a Accept) Match(mediaType string) (match MediaRange, ok bool, err error) {
 	for _, r := range a.MediaRanges() {
-		if c, err = r.Compatible(mediaType); err != nil || c {
+		var c bool
+		if c, err = r.Compatible(mediaType); err != nil {
 			return
 		}
+		if c && (!ok || r.specificity() > match.specificity()) {
+			match, ok = r, true
+		}
 	}
 	return
 }
 
+// Compatible determines if the provided media type is acceptable according
+// to the media ranges within the Accept header value.
+func (a Accept) Compatible(mediaType string) (c bool, err error) {
+	match, ok, err := a.Match(mediaType)
+	return ok && match.QualityValue() > QualityValueMinimum, err
+}
+
 // IsEmpty indicates if the Accept header is empty.
 func (a Accept) IsEmpty() bool {
 	return len(a) == len(EmptyAccept)
diff --git a/internal/header/accept_charset.go b/internal/header/accept_charset.go
index e311776..be372fc 100644
--- a/internal/header/accept_charset.go
+++ b/internal/header/accept_charset.go
@@ -71,17 +71,31 @@ func (c AcceptCharset) CharsetRanges() []CharsetRange {
 	return c
 }
 
-// Compatible determines if the provided charset is compatible with any
-// of the charset ranges within the Accept-Charset header value.
-func (c AcceptCharset) Compatible(charset string) (cc bool, err error) {
+// Match provides the charset range that applies to the provided charset. The
+// wildcard only applies when the charset isn't mentioned elsewhere.
+// https://tools.ietf.org/html/rfc7231#section-5.3.3
+func (c AcceptCharset) Match(charset string) (match CharsetRange, ok bool) {
 	for _, r := range c.CharsetRanges() {
-		if cc = r.Compatible(charset); err != nil || cc {
-			return
+		if !r.Compatible(charset) {
+			continue
+		}
+		if r.IsCharset() {
+			return r, true
+		}
+		if !ok {
+			match, ok = r, true
 		}
 	}
 	return
 }
 
+// Compatible determines if the provided charset is acceptable according to
+// the charset ranges within the Accept-Charset header value.
+func (c AcceptCharset) Compatible(charset string) (cc bool, err error) {
+	match, ok := c.Match(charset)
+	return ok && match.QualityValue() > QualityValueMinimum, nil
+}
+
 // IsEmpty indicates if the Accept-Charset header is empty.
 func (c AcceptCharset) IsEmpty() bool {
 	return len(c) == len(EmptyAcceptCharset)
diff --git a/internal/header/accept_language.go b/internal/header/accept_language.go
index 695e1f0..2e46bf6 100644
--- a/internal/header/accept_language.go
+++ b/internal/header/accept_language.go
@@ -108,17 +108,35 @@ func (l AcceptLanguage) LanguageRanges() []LanguageRange {
 	return l
 }
 
-// Compatible determines if the provided language is compatible with any
-// of the language ranges within the Accept-Language header value.
-func (l AcceptLanguage) Compatible(language string) (c bool, err error) {
-	for _, r := range l.LanguageRanges() {
-		if c = r.Compatible(language); err != nil || c {
-			return
+// Match provides the position of the language range that applies to the
+// provided language. An exact match takes precedence over any other match,
+// and the wildcard only applies when nothing else does.
+func (l AcceptLanguage) Match(tag string) (idx int, ok bool) {
+	t, err := language.Parse(tag)
+	if err != nil {
+		return
+	}
+	for i, r := range l {
+		if !r.Compatible(tag) {
+			continue
+		}
+		if r.IsTag() && r.tag == t {
+			return i, true
+		}
+		if !ok || (l[idx].IsWildcard() && r.IsTag()) {
+			idx, ok = i, true
 		}
 	}
 	return
 }
 
+// Compatible determines if the provided language is acceptable according to
+// the language ranges within the Accept-Language header value.
+func (l AcceptLanguage) Compatible(language string) (c bool, err error) {
+	idx, ok := l.Match(language)
+	return ok && l[idx].QualityValue() > QualityValueMinimum, nil
+}
+
 // String provides a textual representation of the Accept-Language header.
 func (l AcceptLanguage) String() string {
 	var languageRanges []string
diff --git a/internal/header/media_range.go b/internal/header/media_range.go
index 0dabc44..fed64c8 100644
--- a/internal/header/media_range.go
+++ b/internal/header/media_range.go
@@ -151,6 +151,10 @@ func (mr MediaRange) Compatible(mediaType string) (bool, error) {
 	matchedParams := true
 	if mr.HasParams() {
 		for k, v := range mr.params {
+			// the weight is not a parameter of the media type.
+			if k == "q" {
+				continue
+			}
 			if vv, ok := params[k]; !ok || v != vv {
 				matchedParams = false
 				break
@@ -172,6 +176,24 @@ func (mr MediaRange) Precedence() int {
 	return 2 + len(mr.params)
 }
 
+// specificity provides a number that is greater the more specific the media
+// range is. Unlike precedence, the weight is not taken into account.
+// https://tools.ietf.org/html/rfc7231#section-5.3.2
+func (mr MediaRange) specificity() int {
+	params := len(mr.params)
+	if _, ok := mr.params["q"]; ok {
+		params--
+	}
+	switch {
+	case mr.IsTypeWildcard():
+		return params
+	case mr.IsSubTypeWildcard():
+		return 1<<10 + params
+	default:
+		return 1<<11 + params
+	}
+}
+
 // String provides the textual representation of the media range.
 func (mr MediaRange) String() string {
 	var params []string
diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index d2237af..8cead22 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -294,12 +294,8 @@ func (c httpd) acceptQuality(
 	if rep.ContentType() == "" || accept.IsEmpty() {
 		qt = header.QualityValueMaximum
 	} else {
-		for _, mr := range accept.MediaRanges() {
-			compatible, err := mr.Compatible(rep.ContentType())
-			if compatible && err == nil {
-				qt = mr.QualityValue()
-				break
-			}
+		if mr, ok, err := accept.Match(rep.ContentType()); ok && err == nil {
+			qt = mr.QualityValue()
 		}
 	}
 	return qt
@@ -315,11 +311,8 @@ func (c httpd) acceptCharsetQuality(
 	if rep.ContentCharset() == "" || acceptCharset.IsEmpty() {
 		qc = header.QualityValueMaximum
 	} else {
-		for _, c := range acceptCharset.CharsetRanges() {
-			if c.Compatible(rep.ContentCharset()) {
-				qc = c.QualityValue()
-				break
-			}
+		if cr, ok := acceptCharset.Match(rep.ContentCharset()); ok {
+			qc = cr.QualityValue()
 		}
 	}
 	return qc
@@ -336,12 +329,9 @@ func (c httpd) acceptLanguageQuality(
 	if rep.ContentLanguage() == "" || acceptLanguage.IsEmpty() {
 		ql = header.QualityValueMaximum
 	} else {
-		for idx, lr := range acceptLanguage {
-			if lr.Compatible(rep.ContentLanguage()) {
-				ql = lr.QualityValue()
-				los = len(acceptLanguage) - idx
-				break
-			}
+		if idx, ok := acceptLanguage.Match(rep.ContentLanguage()); ok {
+			ql = acceptLanguage[idx].QualityValue()
+			los = len(acceptLanguage) - idx
 		}
 	}
 	return ql, los
diff --git a/transparent/rvsa.go b/transparent/rvsa.go
index 605609e..ce7cef7 100644
--- a/transparent/rvsa.go
+++ b/transparent/rvsa.go
@@ -128,15 +128,9 @@ func (c rvsa1) acceptQuality(
 		return header.QualityValueMaximum, true
 	}
 	qt := header.QualityValueMinimum
-	for _, mr := range accept.MediaRanges() {
-		compatible, err := mr.Compatible(rep.ContentType())
-		if compatible && err == nil {
-			qt = mr.QualityValue()
-			if mr.Type() == "*" || mr.SubType() == "*" {
-				usedWildcard = true
-			}
-			break
-		}
+	if mr, ok, err := accept.Match(rep.ContentType()); ok && err == nil {
+		qt = mr.QualityValue()
+		usedWildcard = mr.IsTypeWildcard() || mr.IsSubTypeWildcard()
 	}
 	return qt, usedWildcard
 }
@@ -155,12 +149,9 @@ func (c rvsa1) acceptLanguageQuality(
 		return header.QualityValueMaximum, true
 	}
 	ql := header.QualityValueMinimum
-	for _, lr := range acceptLanguage {
-		if lr.Compatible(rep.ContentLanguage()) {
-			ql = lr.QualityValue()
-			usedWildcard = lr.IsWildcard()
-			break
-		}
+	if idx, ok := acceptLanguage.Match(rep.ContentLanguage()); ok {
+		ql = acceptLanguage[idx].QualityValue()
+		usedWildcard = acceptLanguage[idx].IsWildcard()
 	}
 	return ql, usedWildcard
 }
@@ -179,12 +170,9 @@ func (c rvsa1) acceptCharsetQuality(
 		return header.QualityValueMaximum, true
 	}
 	qc := header.QualityValueMinimum
-	for _, c := range acceptCharset.CharsetRanges() {
-		if c.Compatible(rep.ContentCharset()) {
-			qc = c.QualityValue()
-			usedWildcard = c.IsWildcard()
-			break
-		}
+	if cr, ok := acceptCharset.Match(rep.ContentCharset()); ok {
+		qc = cr.QualityValue()
+		usedWildcard = cr.IsWildcard()
 	}
 	return qc, usedWildcard
 }
-- 
2.43.0


From c25350064163d42cc6fcbb1aeaa161a012da1027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:54 +0000
Subject: [PATCH 09/37] fix: require every content coding of a representation
 to be acceptable

---
 internal/header/accept_encoding.go | 19 +++++++++++++++++++
 proactive/apache_httpd.go          | 28 ++++++++++++++++++++--------
 2 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/internal/header/accept_encoding.go b/internal/header/accept_encoding.go
index 6b93f8d..fff3578 100644
--- a/internal/header/accept_encoding.go
+++ b/internal/header/accept_encoding.go
@@ -68,6 +68,25 @@ func (e AcceptEncoding) CodingRanges() []ContentCodingRange {
 	return e
 }
 
+// Match provides the content coding range that applies to the provided
+// content coding. The wildcard only applies when the content coding isn't
+// mentioned elsewhere.
+// https://tools.ietf.org/html/rfc7231#section-5.3.4
+func (e AcceptEncoding) Match(coding string) (match ContentCodingRange, ok bool) {
+	for _, r := range e.CodingRanges() {
+		if !r.Compatible(coding) {
+			continue
+		}
+		if !r.IsWildcard() {
+			return r, true
+		}
+		if !ok {
+			match, ok = r, true
+		}
+	}
+	return
+}
+
 // IsEmpty indicates if the Accept-Encoding header is empty.
 func (e AcceptEncoding) IsEmpty() bool {
 	return len(e) == len(EmptyAcceptEncoding)
diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index 8cead22..cd01dee 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -343,17 +343,29 @@ func (c httpd) acceptEncodingQuality(
 	rep representation.Representation,
 	acceptEncoding header.AcceptEncoding,
 ) header.QualityValue {
-	if len(rep.ContentEncoding()) == 0 || acceptEncoding.IsEmpty() {
-		return header.QualityValueMaximum
+	qe := header.QualityValueMaximum
+	if acceptEncoding.IsEmpty() {
+		return qe
 	}
-	for _, c := range acceptEncoding.CodingRanges() {
-		for _, e := range rep.ContentEncoding() { // TODO(FREER)
-			if c.Compatible(e) {
-				return c.QualityValue()
-			}
+	// a representation without content codings has the identity coding.
+	encodings := rep.ContentEncoding()
+	if len(encodings) == 0 {
+		encodings = []string{"identity"}
+	}
+	// every one of the content codings must be acceptable.
+	for _, e := range encodings {
+		q := header.QualityValueMinimum
+		if c, ok := acceptEncoding.Match(e); ok {
+			q = c.QualityValue()
+		} else if strings.EqualFold(e, "identity") {
+			// acceptable, unless explicitly excluded.
+			q = header.QualityValueMaximum
+		}
+		if q < qe {
+			qe = q
 		}
 	}
-	return header.QualityValueMinimum
+	return qe
 }
 
 type hwl struct {
-- 
2.43.0


From 13c72529f834ba38a044154546ab16c951bdd825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:19 +0000
Subject: [PATCH 10/37] fix: prefer the language listed first in
 Accept-Language, not last

---
 proactive/apache_httpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index cd01dee..f1966d2 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -245,7 +245,7 @@ var (
 	// bestLanguageOrder selects the variants with best language order score.
 	bestLanguageOrder filter = func(variants representation.Set) (representation.Set, error) {
 		variants.Sort(func(i, j int) bool {
-			return variants[i].LanguageOrderScore < variants[j].LanguageOrderScore
+			return variants[i].LanguageOrderScore > variants[j].LanguageOrderScore
 		})
 		highest := variants.First()
 		return variants.Where(func(v representation.RankedRepresentation) bool {
-- 
2.43.0


From 59761a8846f62de546b0de0a2ec8ac0069389c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:21 +0000
Subject: [PATCH 11/37] fix: only keep the html variants with the highest level

---
 proactive/apache_httpd.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index f1966d2..fac0835 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -272,11 +272,14 @@ var (
 		}
 		var htmlVariants representation.Set
 		if len(htmlWithLevel) > 0 {
-			sort.Slice(htmlWithLevel, func(i, j int) bool {
+			sort.SliceStable(htmlWithLevel, func(i, j int) bool {
 				return htmlWithLevel[i].l > htmlWithLevel[j].l
 			})
 			for _, v := range htmlWithLevel {
-				htmlVariants = append(htmlVariants, v.v)
+				// only keep those with the highest level.
+				if v.l == htmlWithLevel[0].l {
+					htmlVariants = append(htmlVariants, v.v)
+				}
 			}
 			return htmlVariants, nil
 		}
-- 
2.43.0


From 9d58e35ab1ba346ba4fbd0a584e0e14666283985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:49 +0000
Subject: [PATCH 12/37] fix: treat undeclared dimensions of a representation as
 compatible in strict mode

---
 proactive/apache_httpd.go |  4 ++++
 proactive/proactive.go    | 31 +++++++++++++++++++------------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index fac0835..bcc2c81 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -257,6 +257,10 @@ var (
 	bestLevel filter = func(variants representation.Set) (representation.Set, error) {
 		var htmlWithLevel []hwl
 		for _, v := range variants {
+			// the media type is optional.
+			if v.ContentType() == "" {
+				continue
+			}
 			mt, p, err := mime.ParseMediaType(v.ContentType())
 			if err != nil {
 				return nil, err
diff --git a/proactive/proactive.go b/proactive/proactive.go
index 543b552..b99ba55 100644
--- a/proactive/proactive.go
+++ b/proactive/proactive.go
@@ -193,23 +193,30 @@ func (n Negotiator) Negotiate(
 		}
 	}
 	for _, r := range reps {
+		// a representation is compatible in the dimensions it doesn't declare.
 		var c bool
-		if c, err = accept.Compatible(r.ContentType()); err != nil {
-			return err
-		} else if !c {
-			ac++
+		if ct := r.ContentType(); ct != "" {
+			if c, err = accept.Compatible(ct); err != nil {
+				return err
+			} else if !c {
+				ac++
+			}
 		}
 
-		if c, err = acceptLanguage.Compatible(r.ContentLanguage()); err != nil {
-			return err
-		} else if !c {
-			alc++
+		if cl := r.ContentLanguage(); cl != "" {
+			if c, err = acceptLanguage.Compatible(cl); err != nil {
+				return err
+			} else if !c {
+				alc++
+			}
 		}
 
-		if c, err = acceptCharset.Compatible(r.ContentCharset()); err != nil {
-			return err
-		} else if !c {
-			acc++
+		if cc := r.ContentCharset(); cc != "" {
+			if c, err = acceptCharset.Compatible(cc); err != nil {
+				return err
+			} else if !c {
+				acc++
+			}
 		}
 	}
 	if len(reps) == ac && n.strictAccept {
-- 
2.43.0


From 6baee1f1b13f1d74a53a89ab3aa8f1b1fd2dc769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:24 +0000
Subject: [PATCH 13/37] fix: let the language wildcard match every language

---
 internal/header/accept_language.go | 5 +----
 internal/header/language_range.go  | 6 +++---
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/internal/header/accept_language.go b/internal/header/accept_language.go
index 2e46bf6..308f2f3 100644
--- a/internal/header/accept_language.go
+++ b/internal/header/accept_language.go
@@ -113,14 +113,11 @@ func (l AcceptLanguage) LanguageRanges() []LanguageRange {
 // and the wildcard only applies when nothing else does.
 func (l AcceptLanguage) Match(tag string) (idx int, ok bool) {
 	t, err := language.Parse(tag)
-	if err != nil {
-		return
-	}
 	for i, r := range l {
 		if !r.Compatible(tag) {
 			continue
 		}
-		if r.IsTag() && r.tag == t {
+		if r.IsTag() && err == nil && r.tag == t {
 			return i, true
 		}
 		if !ok || (l[idx].IsWildcard() && r.IsTag()) {
diff --git a/internal/header/language_range.go b/internal/header/language_range.go
index fed00d4..356b11e 100644
--- a/internal/header/language_range.go
+++ b/internal/header/language_range.go
@@ -101,13 +101,13 @@ func (lr LanguageRange) QualityValue() QualityValue {
 // Compatible determines if the provided language tag is compatible with
 // the language range.
 func (lr LanguageRange) Compatible(tag string) bool {
+	if lr.IsWildcard() {
+		return true
+	}
 	_, err := language.Parse(tag)
 	if err != nil {
 		return false
 	}
-	if lr.IsWildcard() {
-		return true
-	}
 	m := language.NewMatcher([]language.Tag{language.Und, lr.tag})
 	// _, i, _ := m.Match(t)
 	_, i := language.MatchStrings(m, tag)
-- 
2.43.0


From c771be4a2d0fe594366514ed5b8ca1667ab9142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:52 +0000
Subject: [PATCH 14/37] fix: disregard unmatched headers when strict mode is
 disabled for them

---
 proactive/proactive.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/proactive/proactive.go b/proactive/proactive.go
index b99ba55..0e28b97 100644
--- a/proactive/proactive.go
+++ b/proactive/proactive.go
@@ -238,6 +238,29 @@ func (n Negotiator) Negotiate(
 		return err
 	}
 
+	// disregard the headers that aren't subject to strict mode and that none of
+	// the representations match.
+	var disregarded []string
+	if len(reps) == ac {
+		disregarded = append(disregarded, "Accept")
+	}
+	if len(reps) == alc {
+		disregarded = append(disregarded, "Accept-Language")
+	}
+	if len(reps) == acc {
+		disregarded = append(disregarded, "Accept-Charset")
+	}
+	if rep == nil && len(disregarded) > 0 {
+		n.logger.Debug("disregarding headers", zap.Strings("headers", disregarded))
+		request := ctx.Request.Clone(ctx.Request.Context())
+		for _, h := range disregarded {
+			request.Header.Del(h)
+		}
+		if rep, err = n.chooser.Choose(request, reps...); err != nil {
+			return err
+		}
+	}
+
 	if rep == nil {
 		return n.notAcceptable(ctx, reps...)
 	}
-- 
2.43.0


From 3a1c2a3df1ec4911a999d3f9e8613c09dac05115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 15/37] fix: don't count responses without content as multiple
 choices

---
 reactive/reactive.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reactive/reactive.go b/reactive/reactive.go
index 540b9e7..b42058b 100644
--- a/reactive/reactive.go
+++ b/reactive/reactive.go
@@ -96,7 +96,7 @@ func (n Negotiator) Negotiate(
 	defer func() {
 		if err != nil {
 			n.scope.Counter(scopeNameReactiveErrorCounter).Inc(1)
-		} else {
+		} else if len(reps) > 0 {
 			n.scope.Counter(scopeNameReactiveMultipleChoicesCounter).Inc(1)
 		}
 	}()
-- 
2.43.0


From bfee17ef1a8b393133d456e82fd173d8bfa689e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 16/37] fix: respond with no content instead of panicking
 without variants

---
 transparent/transparent.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 98fc0bc..94473e0 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -127,6 +127,13 @@ func (n Negotiator) Negotiate(
 		}
 	}()
 
+	if len(reps) == 0 {
+		status := http.StatusNoContent
+		ctx.ResponseWriter.WriteHeader(status)
+		n.logger.Info("no representations to negotiate", zap.Int("status", status))
+		return err
+	}
+
 	if len(reps) > n.maximumVariantListSize {
 		return ErrVariantListSizeExceeded
 	}
-- 
2.43.0


From 217d438d8a0c3c5a0b07cbf4a9ab519840432e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:24 +0000
Subject: [PATCH 17/37] fix: report invalid variant feature lists as errors
 instead of panicking

---
 transparent/rvsa.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/transparent/rvsa.go b/transparent/rvsa.go
index ce7cef7..6513213 100644
--- a/transparent/rvsa.go
+++ b/transparent/rvsa.go
@@ -79,7 +79,10 @@ func (c rvsa1) Choose(
 		qt, twc := c.acceptQuality(rep, a)
 		qc, cwc := c.acceptCharsetQuality(rep, ac)
 		ql, lwc := c.acceptLanguageQuality(rep, al)
-		qf, fwc := c.acceptFeatureQuality(rep, af)
+		qf, fwc, err := c.acceptFeatureQuality(rep, af)
+		if err != nil {
+			return nil, err
+		}
 
 		isDefinite := !twc && !cwc && !lwc && !fwc
 		variants = append(variants, representation.RankedRepresentation{
@@ -182,22 +185,22 @@ func (c rvsa1) acceptCharsetQuality(
 func (c rvsa1) acceptFeatureQuality(
 	rep representation.Representation,
 	acceptFeature header.AcceptFeatures,
-) (header.QualityValue, bool) {
+) (header.QualityValue, bool, error) {
 	var usedWildcard bool
 	if len(rep.ContentFeatures()) == 0 {
-		return header.QualityValueMaximum, false
+		return header.QualityValueMaximum, false, nil
 	}
 	if acceptFeature.IsEmpty() {
-		return header.QualityValueMaximum, true
+		return header.QualityValueMaximum, true, nil
 	}
 	featureList, err := header.NewFeatureList(rep.ContentFeatures())
 	if err != nil {
-		panic(err) // TODO(FREER)
+		return header.QualityValueMinimum, usedWildcard, err
 	}
 	degradation := featureList.QualityDegradation(
 		acceptFeature.AsFeatureSets(),
 	)
-	return header.QualityValue(degradation), usedWildcard // TODO(FREER)
+	return header.QualityValue(degradation), usedWildcard, nil // TODO(FREER)
 }
 
 func (c rvsa1) overallQuality(v representation.RankedRepresentation) float32 {
-- 
2.43.0


From 0926f84a43c5c269e8f4927973c9796d919351a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 18/37] fix: apply every content coding in order and report
 corrupt content when decoding

---
 representation/base.go | 57 +++++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index abbc543..9f89e2b 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -38,6 +38,9 @@ var (
 	ErrUnsupportedContentType = errors.New("representation content type is not supported")
 )
 
+// identity is the content coding that doesn't transform the content.
+const identity = "identity"
+
 var (
 	defaultUnmarshallers = map[string]Unmarshaller{
 		"application/json": json.Unmarshal,
@@ -167,8 +170,7 @@ func (r Base) Bytes(out interface{}) ([]byte, error) {
 		return b, err
 	}
 
-	encodings := r.ContentEncoding()
-	if len(encodings) < 1 || strings.ToLower(encodings[0]) == "identity" {
+	if len(r.ContentEncoding()) < 1 {
 		return b, nil
 	}
 
@@ -188,20 +190,32 @@ func (r *Base) encode(b []byte) (bb []byte, err error) {
 		writerConstructors = r.encodingWriters
 	}
 
-	for _, e := range encodings {
-		if _, ok := writerConstructors[strings.ToLower(e)]; !ok {
+	// content codings are listed in the order in which they were applied, so the
+	// writer of the first one must be the outermost.
+	// https://tools.ietf.org/html/rfc7231#section-3.1.2.2
+	var writers []io.WriteCloser
+	for idx := len(encodings) - 1; idx >= 0; idx-- {
+		e := strings.ToLower(encodings[idx])
+		if e == identity {
+			continue
+		}
+		if _, ok := writerConstructors[e]; !ok {
 			err = ErrUnsupportedContentEncoding
 			return
 		}
-		if writer, err = writerConstructors[strings.ToLower(e)](writer); err != nil {
+		if writer, err = writerConstructors[e](writer); err != nil {
 			return
 		}
+		writers = append(writers, writer)
 	}
 	if _, err = writer.Write(b); err != nil {
 		return
 	}
-	if err = writer.Close(); err != nil {
-		return
+	// close every writer, since each of them can have buffered data.
+	for idx := len(writers) - 1; idx >= 0; idx-- {
+		if err = writers[idx].Close(); err != nil {
+			return
+		}
 	}
 	bb = buf.Bytes()
 	return
@@ -221,8 +235,7 @@ func (r Base) FromBytes(b []byte, in interface{}) (err error) {
 	}
 
 	// decode.
-	encodings := r.ContentEncoding()
-	if len(encodings) > 0 && strings.ToLower(encodings[0]) != "identity" {
+	if len(r.ContentEncoding()) > 0 {
 		if b, err = r.decode(b); err != nil {
 			return
 		}
@@ -244,22 +257,36 @@ func (r *Base) decode(b []byte) (bb []byte, err error) {
 		readerConstructors = r.encodingReaders
 	}
 
+	var readers []io.ReadCloser
 	for idx := len(encodings) - 1; idx >= 0; idx-- {
-		e := encodings[idx]
-		if _, ok := readerConstructors[strings.ToLower(e)]; !ok {
+		e := strings.ToLower(encodings[idx])
+		if e == identity {
+			continue
+		}
+		if _, ok := readerConstructors[e]; !ok {
 			err = ErrUnsupportedContentEncoding
 			return
 		}
-		if reader, err = readerConstructors[strings.ToLower(e)](reader); err != nil {
+		if reader, err = readerConstructors[e](reader); err != nil {
 			return
 		}
-		defer func() {
-			err = reader.Close()
-		}()
+		// closing must not hide an error encountered while decoding.
+		defer func(closer io.Closer) {
+			if cerr := closer.Close(); err == nil {
+				err = cerr
+			}
+		}(reader)
+		readers = append(readers, reader)
 	}
 	if bb, err = io.ReadAll(reader); err != nil {
 		return
 	}
+	// drain every reader, so that each of them verifies its own checksum.
+	for idx := len(readers) - 1; idx >= 0; idx-- {
+		if _, err = io.Copy(io.Discard, readers[idx]); err != nil {
+			return
+		}
+	}
 	return
 }
 
-- 
2.43.0


From 3b7f34ff9a332c2903dab20ec869e90f67d1ffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 19/37] fix: keep the value of non-exclusive feature
 expressions

---
 internal/header/feature_expression.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/internal/header/feature_expression.go b/internal/header/feature_expression.go
index c735fb1..1d37b94 100644
--- a/internal/header/feature_expression.go
+++ b/internal/header/feature_expression.go
@@ -125,13 +125,13 @@ func (e FeatureExpression) Type() FeatureExpressionType {
 // wildcard expressions do not have tags.
 func (e FeatureExpression) parseTag() FeatureTag {
 	if strings.HasPrefix(e.String(), "!") {
-		return FeatureTag(strings.TrimLeft(e.String(), "!"))
+		return FeatureTag(strings.TrimSpace(strings.TrimLeft(e.String(), "!")))
 	}
 	if s := strings.Split(e.String(), "!="); len(s) > 1 {
-		return FeatureTag(s[0])
+		return FeatureTag(strings.TrimSpace(s[0]))
 	}
 	if s := strings.Split(e.String(), "="); len(s) > 1 {
-		return FeatureTag(s[0])
+		return FeatureTag(strings.TrimSpace(s[0]))
 	}
 	return FeatureTag(e.String())
 }
@@ -144,22 +144,23 @@ func (e FeatureExpression) parseValue() (val FeatureTagValue, ok bool) {
 		return
 	}
 	// check for inequality ( != ).
-	if s := strings.Split(e.String(), "!="); len(s) > 1 {
-		val, ok = FeatureTagValue(s[1]), true
+	if s := strings.SplitN(e.String(), "!=", 2); len(s) > 1 {
+		val, ok = FeatureTagValue(strings.TrimSpace(s[1])), true
 		return
 	}
 	// check for equality ( = ).
-	if s := strings.Split(e.String(), "="); len(s) > 1 {
+	if s := strings.SplitN(e.String(), "=", 2); len(s) > 1 {
+		v := strings.TrimSpace(s[1])
 		// check for exclusive equality ( {...} ).
-		if strings.HasPrefix(s[1], "{") &&
-			strings.HasSuffix(s[1], "}") {
-			val, ok = FeatureTagValue(
+		if strings.HasPrefix(v, "{") &&
+			strings.HasSuffix(v, "}") {
+			v = strings.TrimSpace(
 				strings.ReplaceAll(
-					strings.ReplaceAll(s[1], "}", ""), "{", "",
+					strings.ReplaceAll(v, "}", ""), "{", "",
 				),
-			), true
-			return
+			)
 		}
+		val, ok = FeatureTagValue(v), true
 	}
 	return
 }
-- 
2.43.0


From aafc72d315b6e3b586016516cf6522c132e63753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 20/37] fix: recognize feature predicate bags with factors or
 repeated whitespace

---
 internal/header/feature_list.go      | 2 +-
 internal/header/feature_predicate.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/header/feature_list.go b/internal/header/feature_list.go
index e87982a..05c3f65 100644
--- a/internal/header/feature_list.go
+++ b/internal/header/feature_list.go
@@ -28,7 +28,7 @@ func NewFeatureList(features []string) (FeatureList, error) {
 	for _, feature := range features {
 		var le FeatureListElement
 		var err error
-		if strings.HasPrefix(feature, "[") && strings.HasSuffix(feature, "]") {
+		if strings.HasPrefix(feature, "[") {
 			if le, err = NewPredicateBagListElement(feature); err != nil {
 				return list, err
 			}
diff --git a/internal/header/feature_predicate.go b/internal/header/feature_predicate.go
index 4e7f2ca..99edefa 100644
--- a/internal/header/feature_predicate.go
+++ b/internal/header/feature_predicate.go
@@ -57,7 +57,10 @@ func NewFeaturePredicateBag(predicateBag string) (FeaturePredicateBag, error) {
 	}
 	predicateBag = strings.TrimSpace(
 		strings.TrimPrefix(strings.TrimSuffix(predicateBag, "]"), "["))
-	predicates := strings.Split(predicateBag, " ")
+	predicates := strings.Fields(predicateBag)
+	if len(predicates) == 0 {
+		return nil, ErrInvalidPredicate
+	}
 
 	var fpb FeaturePredicateBag
 	for _, predicate := range predicates {
-- 
2.43.0


From faa673c1055dbce34b676cd746b8ab202054f9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 21/37] fix: evaluate open ended feature ranges over numeric
 values only

---
 internal/header/feature_predicate.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/internal/header/feature_predicate.go b/internal/header/feature_predicate.go
index 99edefa..fa6ef7e 100644
--- a/internal/header/feature_predicate.go
+++ b/internal/header/feature_predicate.go
@@ -18,6 +18,7 @@ package header
 import (
 	"errors"
 	"fmt"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -270,18 +271,20 @@ func (w within) Evaluate(supported, unsupported FeatureSet) bool {
 		return false
 	}
 
+	// a missing lower bound is zero, and a missing upper bound is infinite.
 	low, _ := strconv.Atoi(w.l.String())
-	high, _ := strconv.Atoi(w.h.String())
+	high, err := strconv.Atoi(w.h.String())
+	if err != nil {
+		high = math.MaxInt
+	}
 
 	// ensure that the highest numeric value for the feature in the set falls
 	// within the range inclusively.
-	var highest int
+	highest := -1
 	for _, val := range sValues {
-		if val.IsNumeric() && w.l.IsNumeric() && w.h.IsNumeric() {
-			num, _ := strconv.Atoi(val.String())
-			if num > highest {
-				highest = num
-			}
+		num, err := strconv.Atoi(strings.Trim(val.String(), "\""))
+		if err == nil && num > highest {
+			highest = num
 		}
 	}
 	return highest >= low && highest <= high
-- 
2.43.0


From 259cc25183c30f10dfb032fe80038a321558ff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 22/37] fix: allow dashes and dots in the tokens of feature
 predicates

---
 internal/header/feature_predicate.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/header/feature_predicate.go b/internal/header/feature_predicate.go
index fa6ef7e..0d43e74 100644
--- a/internal/header/feature_predicate.go
+++ b/internal/header/feature_predicate.go
@@ -26,11 +26,11 @@ import (
 
 // Regular expressions to match against the feature predicate grammar.
 var (
-	existsPredicate    = regexp.MustCompile(`^(\w+)$`)
-	absentPredicate    = regexp.MustCompile(`^(!(\w+))$`)
-	equalsPredicate    = regexp.MustCompile(`^(\w+)\s?=\s?(\w+)$`)
-	notEqualsPredicate = regexp.MustCompile(`^(\w+)\s?!=\s?(\w+)$`)
-	rangePredicate     = regexp.MustCompile(`^(\w+)\s?=\s?\[\s?(\d+)?\s?-\s?(\d+)?\s?\]$`)
+	existsPredicate    = regexp.MustCompile(`^([\w.-]+)$`)
+	absentPredicate    = regexp.MustCompile(`^(!([\w.-]+))$`)
+	equalsPredicate    = regexp.MustCompile(`^([\w.-]+)\s?=\s?([\w.-]+)$`)
+	notEqualsPredicate = regexp.MustCompile(`^([\w.-]+)\s?!=\s?([\w.-]+)$`)
+	rangePredicate     = regexp.MustCompile(`^([\w.-]+)\s?=\s?\[\s?(\d+)?\s?-\s?(\d+)?\s?\]$`)
 )
 
 // Errors that can be encountered when interacting with feature predicates.
-- 
2.43.0


From 3cae2f24ed9c446080f6909278c60cbf633a0e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 23/37] fix: compare https neighbors using the default https
 port

---
 transparent/transparent.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 94473e0..5ca1731 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -189,7 +189,11 @@ func (n Negotiator) Negotiate(
 	sameURL := func(one, two url.URL) bool {
 		normalizePort := func(u url.URL) url.URL {
 			if u.Port() == "" {
-				u.Host = fmt.Sprintf("%s:%d", u.Hostname(), 80)
+				port := 80
+				if u.Scheme == "https" {
+					port = 443
+				}
+				u.Host = fmt.Sprintf("%s:%d", u.Hostname(), port)
 			}
 			return u
 		}
@@ -211,8 +215,8 @@ func (n Negotiator) Negotiate(
 			normalizers := []func(url.URL) url.URL{
 				normalizeHostName,
 				normalizePath,
-				normalizePort,
 				normalizeScheme,
+				normalizePort,
 			}
 			for _, n := range normalizers {
 				u = n(u)
-- 
2.43.0


From 8a6c2231fad4431b598ae0a0f14efa8a324ce3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 24/37] fix: compare neighbors up to the last slash of the
 encoded path

---
 transparent/transparent.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 5ca1731..3e7fe5a 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -230,9 +230,16 @@ func (n Negotiator) Negotiate(
 	// https://tools.ietf.org/html/rfc2296#section-3.5
 	isNeighbor := func(neighborURL, resourceURL url.URL) bool {
 		trim := func(u url.URL) url.URL {
-			if lastSlash := strings.LastIndex(u.Path, "/"); lastSlash != -1 {
-				u.Path = u.Path[:lastSlash]
+			// encoded slashes don't separate path segments.
+			path := u.EscapedPath()
+			if lastSlash := strings.LastIndex(path, "/"); lastSlash != -1 {
+				path = path[:lastSlash]
 			}
+			u.RawPath = path
+			u.Path, _ = url.PathUnescape(path)
+			// what follows the last slash isn't subject to comparison.
+			u.RawQuery, u.ForceQuery = "", false
+			u.Fragment, u.RawFragment = "", ""
 			return u
 		}
 		return sameURL(trim(neighborURL), trim(resourceURL))
-- 
2.43.0


From 2070c74439738eacbb2e095bc65890a11aa35a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:07 +0000
Subject: [PATCH 25/37] fix: resolve variant locations and server requests
 before comparing neighbors

---
 transparent/transparent.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 3e7fe5a..89462de 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -245,8 +245,17 @@ func (n Negotiator) Negotiate(
 		return sameURL(trim(neighborURL), trim(resourceURL))
 	}
 
+	// the URL of a request received by a server only has the path and query,
+	// and the location of a variant can be relative to the negotiable resource.
+	resource := *ctx.Request.URL
+	if resource.Host == "" && ctx.Request.Host != "" {
+		resource.Scheme, resource.Host = "http", ctx.Request.Host
+		if ctx.Request.TLS != nil {
+			resource.Scheme = "https"
+		}
+	}
 	loc := rep.ContentLocation()
-	if !isNeighbor(loc, *ctx.Request.URL) {
+	if !isNeighbor(*resource.ResolveReference(&loc), resource) {
 		n.logger.Debug("variant resource is not a neighbor of the negotiable resource",
 			zap.String("resource-url", ctx.Request.URL.String()),
 			zap.String("neighbor-url", loc.String()))
-- 
2.43.0


From f99546d2809a686c23adba405422b2c4746830bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 26/37] fix: ignore unknown content codings listed alongside
 known ones

---
 internal/header/accept_encoding.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/header/accept_encoding.go b/internal/header/accept_encoding.go
index fff3578..c2edbfe 100644
--- a/internal/header/accept_encoding.go
+++ b/internal/header/accept_encoding.go
@@ -47,13 +47,22 @@ func NewAcceptEncoding(acceptEncoding []string) (AcceptEncoding, error) {
 		return EmptyAcceptEncoding, nil
 	}
 	var contentCodings []ContentCodingRange
+	var unknown bool
 	for _, cc := range splitList(acceptEncoding) {
 		coding, err := NewContentCodingRange(cc)
+		if err == ErrInvalidContentCodingRange && contentCodingRangeRegex.MatchString(cc) {
+			// user agents can mention content codings we don't know of.
+			unknown = true
+			continue
+		}
 		if err != nil {
 			return EmptyAcceptEncoding, err
 		}
 		contentCodings = append(contentCodings, coding)
 	}
+	if unknown && len(contentCodings) == 0 {
+		return EmptyAcceptEncoding, ErrInvalidContentCodingRange
+	}
 	return AcceptEncoding(contentCodings), nil
 }
 
-- 
2.43.0


From 957dc80508fd83081e9485d553a240a5e51f9ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 27/37] fix: ignore unknown languages mentioned in
 Accept-Language

---
 internal/header/accept_language.go | 5 +++++
 internal/header/language_range.go  | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/header/accept_language.go b/internal/header/accept_language.go
index 308f2f3..411ef9c 100644
--- a/internal/header/accept_language.go
+++ b/internal/header/accept_language.go
@@ -76,6 +76,11 @@ func NewAcceptLanguage(acceptLanguage []string) (AcceptLanguage, error) {
 		}
 
 		tags, _, err := language.ParseAcceptLanguage(name)
+		if _, unknown := err.(language.ValueError); unknown {
+			// user agents can mention languages we don't know of.
+			ranges = append(ranges, LanguageRange{lrange: name, qValue: qv})
+			continue
+		}
 		if err != nil {
 			return EmptyAcceptLanguage, err
 		}
diff --git a/internal/header/language_range.go b/internal/header/language_range.go
index 356b11e..91e3c69 100644
--- a/internal/header/language_range.go
+++ b/internal/header/language_range.go
@@ -101,7 +101,7 @@ func (lr LanguageRange) QualityValue() QualityValue {
 // Compatible determines if the provided language tag is compatible with
 // the language range.
 func (lr LanguageRange) Compatible(tag string) bool {
-	if lr.IsWildcard() {
+	if lr.IsWildcard() || strings.EqualFold(lr.lrange, tag) {
 		return true
 	}
 	_, err := language.Parse(tag)
-- 
2.43.0


From d12c3acd7385408272575615b414a17cbef2f5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:05 +0000
Subject: [PATCH 28/37] fix: let the Accept weights determine the format of the
 not acceptable response

---
 proactive/proactive.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proactive/proactive.go b/proactive/proactive.go
index 0e28b97..fed2086 100644
--- a/proactive/proactive.go
+++ b/proactive/proactive.go
@@ -67,6 +67,7 @@ var (
 		list.SetContentCharset("ascii")
 		list.SetContentEncoding([]string{"identity"})
 		list.SetContentLanguage("en-US")
+		list.SetSourceQuality(representation.SourceQualityPerfect)
 		list.SetRepresentations(reps...)
 		return &list
 	}
@@ -77,6 +78,7 @@ var (
 		list.SetContentCharset("ascii")
 		list.SetContentEncoding([]string{"identity"})
 		list.SetContentLanguage("en-US")
+		list.SetSourceQuality(representation.SourceQualityPerfect)
 		list.SetRepresentations(reps...)
 		return &list
 	}
@@ -87,6 +89,7 @@ var (
 		list.SetContentCharset("ascii")
 		list.SetContentEncoding([]string{"identity"})
 		list.SetContentLanguage("en-US")
+		list.SetSourceQuality(representation.SourceQualityPerfect)
 		list.SetRepresentations(reps...)
 		return &list
 	}
-- 
2.43.0


From 079a80b6b1357f6ab68f012f93731233276f30b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 29/37] fix: keep every value of a feature mentioned more than
 once

---
 internal/header/feature_set.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/header/feature_set.go b/internal/header/feature_set.go
index 19f86e3..1a39516 100644
--- a/internal/header/feature_set.go
+++ b/internal/header/feature_set.go
@@ -32,9 +32,9 @@ func (s FeatureSet) Add(tag FeatureTag, values ...FeatureTagValue) {
 		s[tag] = values
 		return
 	}
-	for t, values := range s {
+	for t, existing := range s {
 		if t.Equals(tag) {
-			s[t] = append(s[t], values...)
+			s[t] = append(existing, values...)
 		}
 	}
 }
-- 
2.43.0


From 48cff1de478be5d7211a12272ca087e7b2a0d409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 30/37] fix: keep the brackets of IPv6 hosts when comparing
 neighbors

---
 transparent/transparent.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 89462de..98bf44a 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -17,8 +17,8 @@ package transparent
 
 import (
 	"errors"
-	"fmt"
 	"math"
+	"net"
 	"net/http"
 	"net/url"
 	"strconv"
@@ -189,11 +189,11 @@ func (n Negotiator) Negotiate(
 	sameURL := func(one, two url.URL) bool {
 		normalizePort := func(u url.URL) url.URL {
 			if u.Port() == "" {
-				port := 80
+				port := "80"
 				if u.Scheme == "https" {
-					port = 443
+					port = "443"
 				}
-				u.Host = fmt.Sprintf("%s:%d", u.Hostname(), port)
+				u.Host = net.JoinHostPort(u.Hostname(), port)
 			}
 			return u
 		}
-- 
2.43.0


From e385a8ee2725f1bcdff87f9856a881f427be256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:59 +0000
Subject: [PATCH 31/37] fix: allow whitespace between the media type and its
 parameters

---
 representation/base.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index 9f89e2b..aeab14b 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -159,7 +159,7 @@ func (r Base) Bytes(out interface{}) ([]byte, error) {
 		marshallers = r.marshallers
 	}
 
-	ct := strings.Split(r.ContentType(), ";")[0]
+	ct := strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])
 	if _, ok := marshallers[strings.ToLower(ct)]; !ok {
 		return []byte{}, ErrUnsupportedContentType
 	}
@@ -228,7 +228,7 @@ func (r Base) FromBytes(b []byte, in interface{}) (err error) {
 		unmarshallers = r.unmarshallers
 	}
 
-	ct := strings.Split(r.ContentType(), ";")[0]
+	ct := strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])
 	if _, ok := unmarshallers[strings.ToLower(ct)]; !ok {
 		err = ErrUnsupportedContentType
 		return
-- 
2.43.0


From 22347ef8821ae04951983464b7e8f4eeb503a389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 32/37] fix: report serialization errors when comparing content
 lengths

---
 proactive/apache_httpd.go | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index bcc2c81..0f20219 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -133,30 +133,24 @@ func (c httpd) Choose(
 var (
 	// smallestContentLength selects the variants with the smallest content length.
 	smallestContentLength filter = func(variants representation.Set) (representation.Set, error) {
-		variants.Sort(func(i, j int) bool {
-			// sort smallest to largest.
-			var f, s int
-			if bytes, err := variants[i].Bytes(); err == nil {
-				f = len(bytes)
+		lowest, lengths := -1, make([]int, variants.Size())
+		for i, v := range variants {
+			bytes, err := v.Bytes()
+			if err != nil {
+				return representation.EmptySet, err
 			}
-			if bytes, err := variants[j].Bytes(); err == nil {
-				s = len(bytes)
+			lengths[i] = len(bytes)
+			if lowest == -1 || lengths[i] < lowest {
+				lowest = lengths[i]
 			}
-			return f < s
-		})
-		lowest := variants.First()
-		lowestBytes, err := lowest.Bytes()
-		if err != nil {
-			return representation.EmptySet, err
 		}
-		lowestLength := len(lowestBytes)
-		return variants.Where(func(v representation.RankedRepresentation) bool {
-			var length int
-			if bytes, err := v.Bytes(); err == nil {
-				length = len(bytes)
+		var smallest representation.Set
+		for i, v := range variants {
+			if lengths[i] == lowest {
+				smallest = append(smallest, v)
 			}
-			return length == lowestLength
-		}), nil
+		}
+		return smallest, nil
 	}
 
 	// bestEncoding selects the variants with the best encoding.
-- 
2.43.0


From f00a043189a82de035dc2d18e30f472b7d45a3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 33/37] fix: add features to a set without comparing them with
 all the others

---
 internal/header/feature_set.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/internal/header/feature_set.go b/internal/header/feature_set.go
index 1a39516..e65e433 100644
--- a/internal/header/feature_set.go
+++ b/internal/header/feature_set.go
@@ -28,15 +28,9 @@ type FeatureSet map[FeatureTag][]FeatureTagValue
 
 // Add introduces the provides feature tag with the provided values.
 func (s FeatureSet) Add(tag FeatureTag, values ...FeatureTagValue) {
-	if !s.Contains(tag) {
-		s[tag] = values
-		return
-	}
-	for t, existing := range s {
-		if t.Equals(tag) {
-			s[t] = append(existing, values...)
-		}
-	}
+	// tags are case-insensitive, and can be quoted.
+	key := FeatureTag(strings.ToLower(strings.Trim(tag.String(), "\"")))
+	s[key] = append(s[key], values...)
 }
 
 // Contains determines if the feature set contains the provided feature tag.
-- 
2.43.0


From c85f3ea52a412c4743b9a41e184800beba5c423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 34/37] fix: read html levels as decimal numbers

---
 proactive/apache_httpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index 0f20219..cb37648 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -261,7 +261,7 @@ var (
 			}
 			isHTML := mt == "text/html"
 			if l, ok := p["level"]; ok && isHTML {
-				lNum, err := strconv.ParseInt(l, 0, 32)
+				lNum, err := strconv.ParseInt(l, 10, 32)
 				if err != nil {
 					return representation.EmptySet, err
 				}
-- 
2.43.0


From d41f4abcbec581766c20d6d17c291f8cbd00c991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:05 +0000
Subject: [PATCH 35/37] fix: find the operator of a feature expression outside
 of quotes

---
 internal/header/feature_expression.go | 70 +++++++++++++++------------
 1 file changed, 38 insertions(+), 32 deletions(-)

diff --git a/internal/header/feature_expression.go b/internal/header/feature_expression.go
index 1d37b94..59388c6 100644
--- a/internal/header/feature_expression.go
+++ b/internal/header/feature_expression.go
@@ -92,9 +92,8 @@ func (e FeatureExpression) HasValue() bool {
 
 // IsExclusive indicates if the feature expression uses exclusive equality.
 func (e FeatureExpression) IsExclusive() bool {
-	return e.HasValue() &&
-		strings.Contains(e.String(), "{") &&
-		strings.Contains(e.String(), "}")
+	_, v, _ := e.split()
+	return e.HasValue() && strings.HasPrefix(v, "{") && strings.HasSuffix(v, "}")
 }
 
 // Type indicates the feature expression type.
@@ -103,12 +102,11 @@ func (e FeatureExpression) Type() FeatureExpressionType {
 	if strings.HasPrefix(e.String(), "!") {
 		return FeatureExpressionTypeNotExists
 	}
-	// check for inequality ( != ).
-	if strings.Contains(e.String(), "!=") {
-		return FeatureExpressionTypeNotEquals
-	}
-	// check for equality ( = ).
-	if strings.Contains(e.String(), "=") {
+	if _, _, op := e.split(); op != "" {
+		// check for inequality ( != ).
+		if op == "!=" {
+			return FeatureExpressionTypeNotEquals
+		}
 		// check for exclusive equality ( {...} ).
 		if e.IsExclusive() {
 			return FeatureExpressionTypeExclusiveEquals
@@ -127,13 +125,8 @@ func (e FeatureExpression) parseTag() FeatureTag {
 	if strings.HasPrefix(e.String(), "!") {
 		return FeatureTag(strings.TrimSpace(strings.TrimLeft(e.String(), "!")))
 	}
-	if s := strings.Split(e.String(), "!="); len(s) > 1 {
-		return FeatureTag(strings.TrimSpace(s[0]))
-	}
-	if s := strings.Split(e.String(), "="); len(s) > 1 {
-		return FeatureTag(strings.TrimSpace(s[0]))
-	}
-	return FeatureTag(e.String())
+	tag, _, _ := e.split()
+	return FeatureTag(tag)
 }
 
 // parseValue takes the raw feature expression and parses the tag value.
@@ -143,26 +136,39 @@ func (e FeatureExpression) parseValue() (val FeatureTagValue, ok bool) {
 	if strings.HasPrefix(e.String(), "!") {
 		return
 	}
-	// check for inequality ( != ).
-	if s := strings.SplitN(e.String(), "!=", 2); len(s) > 1 {
-		val, ok = FeatureTagValue(strings.TrimSpace(s[1])), true
+	_, v, op := e.split()
+	if op == "" {
 		return
 	}
-	// check for equality ( = ).
-	if s := strings.SplitN(e.String(), "=", 2); len(s) > 1 {
-		v := strings.TrimSpace(s[1])
-		// check for exclusive equality ( {...} ).
-		if strings.HasPrefix(v, "{") &&
-			strings.HasSuffix(v, "}") {
-			v = strings.TrimSpace(
-				strings.ReplaceAll(
-					strings.ReplaceAll(v, "}", ""), "{", "",
-				),
-			)
+	// check for exclusive equality ( {...} ).
+	if op == "=" && strings.HasPrefix(v, "{") && strings.HasSuffix(v, "}") {
+		v = strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(v, "{"), "}"))
+	}
+	return FeatureTagValue(v), true
+}
+
+// split separates the tag from the value, at the first operator ( = or != )
+// that isn't part of a quoted tag.
+func (e FeatureExpression) split() (tag, value, operator string) {
+	s := e.String()
+	var quoted, escaped bool
+	for i := 0; i < len(s); i++ {
+		switch {
+		case escaped:
+			escaped = false
+		case quoted && s[i] == '\\':
+			escaped = true
+		case s[i] == '"':
+			quoted = !quoted
+		case s[i] == '=' && !quoted:
+			tag, operator = s[:i], "="
+			if strings.HasSuffix(tag, "!") {
+				tag, operator = tag[:i-1], "!="
+			}
+			return strings.TrimSpace(tag), strings.TrimSpace(s[i+1:]), operator
 		}
-		val, ok = FeatureTagValue(v), true
 	}
-	return
+	return s, "", ""
 }
 
 // String provides a textual representation of the feature expression.
-- 
2.43.0


From 6302066c4d91b636349de65d6f88c889b283b9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:22 +0000
Subject: [PATCH 36/37] fix: tell an empty path segment from none when
 comparing neighbors

---
 transparent/transparent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 98bf44a..1660f9f 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -233,7 +233,7 @@ func (n Negotiator) Negotiate(
 			// encoded slashes don't separate path segments.
 			path := u.EscapedPath()
 			if lastSlash := strings.LastIndex(path, "/"); lastSlash != -1 {
-				path = path[:lastSlash]
+				path = path[:lastSlash+1]
 			}
 			u.RawPath = path
 			u.Path, _ = url.PathUnescape(path)
-- 
2.43.0


From 8535c16759eadecca0c6e8d84e2b2e30aa56fc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 37/37] fix: count feature values beyond the integers in
 numeric ranges

---
 internal/header/feature_predicate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/header/feature_predicate.go b/internal/header/feature_predicate.go
index 0d43e74..cb259f7 100644
--- a/internal/header/feature_predicate.go
+++ b/internal/header/feature_predicate.go
@@ -283,7 +283,8 @@ func (w within) Evaluate(supported, unsupported FeatureSet) bool {
 	highest := -1
 	for _, val := range sValues {
 		num, err := strconv.Atoi(strings.Trim(val.String(), "\""))
-		if err == nil && num > highest {
+		// numbers out of range count as the greatest ones.
+		if (err == nil || errors.Is(err, strconv.ErrRange)) && num > highest {
 			highest = num
 		}
 	}
-- 
2.43.0

