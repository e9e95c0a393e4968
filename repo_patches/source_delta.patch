From 8f57efa46b5555ea09c0d4171d059690d5f98dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:11 +0000
Subject: [PATCH 01/18] fix: reject NaN quality values

'q=nan' parses as a float, and NaN is neither below the minimum nor above the
maximum, so it was accepted as a quality value.
---
 internal/header/quality_value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/header/quality_value.go b/internal/header/quality_value.go
index b359bc7..3a22ad6 100644
--- a/internal/header/quality_value.go
+++ b/internal/header/quality_value.go
@@ -53,7 +53,7 @@ var ErrInvalidQualityValue = errors.New("quality range must be between 0.0 and 1
 func NewQualityValue(qvalue float32) (QualityValue, error) {
 	tooLow, tooHigh := qvalue < QualityValueMinimum.Float(),
 		qvalue > QualityValueMaximum.Float()
-	if tooLow || tooHigh {
+	if tooLow || tooHigh || math.IsNaN(float64(qvalue)) {
 		return QualityValue(0), ErrInvalidQualityValue
 	}
 	return QualityValue(qvalue), nil
-- 
2.43.0


From 1acdb988ff00b73205db563bae3e31228548bbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 02/18] fix: parse the whole quality value of a content coding
 range

Only the fractional digits were parsed, so 'gzip;q=1' had a quality value of
zero and 'gzip;q=2.5' was accepted with a quality value of 0.5.
---
 internal/header/content_coding_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index 470c81d..7448fd3 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -90,7 +90,7 @@ func NewContentCodingRange(contentCoding string) (ContentCodingRange, error) {
 	cc := ContentCodingRange{coding: groups[1], qValue: QualityValue(1.0)}
 
 	if len(groups[3]) > 0 {
-		q, _ := strconv.ParseFloat(groups[4], 32)
+		q, _ := strconv.ParseFloat(groups[3], 32)
 		qv, err := NewQualityValue(float32(q))
 		if err != nil {
 			return ContentCodingRange{}, err
-- 
2.43.0


From 0e952dc94d7ee3ea9b70f08dbbbf1442812bd166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 03/18] fix: ignore the quality value when matching media type
 parameters

A media range with both a media type parameter and a quality value, such as
'text/html;level=1;q=0.5', never matched 'text/html;level=1'.
---
 internal/header/media_range.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/header/media_range.go b/internal/header/media_range.go
index 0dabc44..f87f045 100644
--- a/internal/header/media_range.go
+++ b/internal/header/media_range.go
@@ -151,6 +151,10 @@ func (mr MediaRange) Compatible(mediaType string) (bool, error) {
 	matchedParams := true
 	if mr.HasParams() {
 		for k, v := range mr.params {
+			// the quality value is a weight, not a media type parameter.
+			if k == "q" {
+				continue
+			}
 			if vv, ok := params[k]; !ok || v != vv {
 				matchedParams = false
 				break
-- 
2.43.0


From 9572da88c0e9cf81877dd50236f330652884476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:38 +0000
Subject: [PATCH 04/18] fix: prefer the language listed first in
 Accept-Language

The language order filter kept the variants whose language is listed last,
instead of the variants having the best order.
---
 proactive/apache_httpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index d2237af..68fde4e 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -245,7 +245,7 @@ var (
 	// bestLanguageOrder selects the variants with best language order score.
 	bestLanguageOrder filter = func(variants representation.Set) (representation.Set, error) {
 		variants.Sort(func(i, j int) bool {
-			return variants[i].LanguageOrderScore < variants[j].LanguageOrderScore
+			return variants[i].LanguageOrderScore > variants[j].LanguageOrderScore
 		})
 		highest := variants.First()
 		return variants.Where(func(v representation.RankedRepresentation) bool {
-- 
2.43.0


From e79f7ce237a684fe0dd269b4af67dde609f746f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 05/18] fix: recognize the wildcard language range in
 Accept-Language

'*' is parsed as the tag 'mul', which did not match any other language, so a
request with 'Accept-Language: *' was never acceptable.
---
 internal/header/accept_language.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/header/accept_language.go b/internal/header/accept_language.go
index ac04d4c..429d4a7 100644
--- a/internal/header/accept_language.go
+++ b/internal/header/accept_language.go
@@ -33,6 +33,10 @@ var (
 
 	// EmptyAcceptLanguage is an empty Accept-Language header.
 	EmptyAcceptLanguage = AcceptLanguage([]LanguageRange{})
+
+	// wildcardTag is the tag that 'language.ParseAcceptLanguage' provides for
+	// the "*" language range.
+	wildcardTag = language.Make("mul")
 )
 
 // AcceptLanguage represents the Accept-Language header.
@@ -59,8 +63,12 @@ func NewAcceptLanguage(acceptLanguage []string) (AcceptLanguage, error) {
 		if err != nil {
 			return EmptyAcceptLanguage, err
 		}
+		lrange := tags[i].String() + ";q=" + qv.String()
+		if tags[i] == wildcardTag {
+			lrange = "*"
+		}
 		ranges = append(ranges, LanguageRange{
-			lrange: tags[i].String() + ";q=" + qv.String(),
+			lrange: lrange,
 			tag:    tags[i],
 			qValue: qv,
 		})
-- 
2.43.0


From 333064176bc6d06162a0fd05ffd7af6a0f132613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:19 +0000
Subject: [PATCH 06/18] fix: let the wildcard language range match a missing
 language

A representation without a language was not acceptable in strict mode, even
for requests that have no Accept-Language header.
---
 internal/header/language_range.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/header/language_range.go b/internal/header/language_range.go
index fed00d4..356b11e 100644
--- a/internal/header/language_range.go
+++ b/internal/header/language_range.go
@@ -101,13 +101,13 @@ func (lr LanguageRange) QualityValue() QualityValue {
 // Compatible determines if the provided language tag is compatible with
 // the language range.
 func (lr LanguageRange) Compatible(tag string) bool {
+	if lr.IsWildcard() {
+		return true
+	}
 	_, err := language.Parse(tag)
 	if err != nil {
 		return false
 	}
-	if lr.IsWildcard() {
-		return true
-	}
 	m := language.NewMatcher([]language.Tag{language.Und, lr.tag})
 	// _, i, _ := m.Match(t)
 	_, i := language.MatchStrings(m, tag)
-- 
2.43.0


From 2d2e58cd8f7a0f66a51f78e7e51f0dfb55841136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:20 +0000
Subject: [PATCH 07/18] fix: respond to transparent negotiation without
 representations

Negotiating without representations panicked with an index out of range.
---
 transparent/transparent.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 98fc0bc..90d8024 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -131,6 +131,13 @@ func (n Negotiator) Negotiate(
 		return ErrVariantListSizeExceeded
 	}
 
+	if len(reps) == 0 {
+		status := http.StatusNoContent
+		ctx.ResponseWriter.WriteHeader(status)
+		n.logger.Info("no representations to negotiate", zap.Int("status", status))
+		return err
+	}
+
 	var negotiate header.Negotiate
 	if negotiate, err = header.NewNegotiate(ctx.Request.Header["Negotiate"]); err != nil {
 		return err
-- 
2.43.0


From 537740dd996c111d20c6903f99b368b212e25c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:21 +0000
Subject: [PATCH 08/18] fix: return an error for malformed representation
 features

RVSA 1.0 panicked when the feature list of a representation was malformed.
---
 transparent/rvsa.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/transparent/rvsa.go b/transparent/rvsa.go
index 605609e..66add6f 100644
--- a/transparent/rvsa.go
+++ b/transparent/rvsa.go
@@ -79,7 +79,10 @@ func (c rvsa1) Choose(
 		qt, twc := c.acceptQuality(rep, a)
 		qc, cwc := c.acceptCharsetQuality(rep, ac)
 		ql, lwc := c.acceptLanguageQuality(rep, al)
-		qf, fwc := c.acceptFeatureQuality(rep, af)
+		qf, fwc, err := c.acceptFeatureQuality(rep, af)
+		if err != nil {
+			return nil, err
+		}
 
 		isDefinite := !twc && !cwc && !lwc && !fwc
 		variants = append(variants, representation.RankedRepresentation{
@@ -194,22 +197,22 @@ func (c rvsa1) acceptCharsetQuality(
 func (c rvsa1) acceptFeatureQuality(
 	rep representation.Representation,
 	acceptFeature header.AcceptFeatures,
-) (header.QualityValue, bool) {
+) (header.QualityValue, bool, error) {
 	var usedWildcard bool
 	if len(rep.ContentFeatures()) == 0 {
-		return header.QualityValueMaximum, false
+		return header.QualityValueMaximum, false, nil
 	}
 	if acceptFeature.IsEmpty() {
-		return header.QualityValueMaximum, true
+		return header.QualityValueMaximum, true, nil
 	}
 	featureList, err := header.NewFeatureList(rep.ContentFeatures())
 	if err != nil {
-		panic(err) // TODO(FREER)
+		return header.QualityValueMinimum, usedWildcard, err
 	}
 	degradation := featureList.QualityDegradation(
 		acceptFeature.AsFeatureSets(),
 	)
-	return header.QualityValue(degradation), usedWildcard // TODO(FREER)
+	return header.QualityValue(degradation), usedWildcard, nil // TODO(FREER)
 }
 
 func (c rvsa1) overallQuality(v representation.RankedRepresentation) float32 {
-- 
2.43.0


From 262a07f55fe7d80901375165062bba3efab80d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 09/18] fix: parse the value of equality feature expressions

Only the value of the exclusive form, 'paper={A4}', was parsed. The value of
'paper=A4' was always empty, so it never satisfied a predicate.
---
 internal/header/feature_expression.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/header/feature_expression.go b/internal/header/feature_expression.go
index c735fb1..ad32f5a 100644
--- a/internal/header/feature_expression.go
+++ b/internal/header/feature_expression.go
@@ -160,6 +160,8 @@ func (e FeatureExpression) parseValue() (val FeatureTagValue, ok bool) {
 			), true
 			return
 		}
+		val, ok = FeatureTagValue(s[1]), true
+		return
 	}
 	return
 }
-- 
2.43.0


From 1fd40e276cbc9060f7ca6990aae57a9d65c07c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:51 +0000
Subject: [PATCH 10/18] fix: accept feature predicate bags with degradation
 factors

A predicate bag that has factors, such as '[foo bar];+1.5-0.5', was parsed as
a single predicate and rejected.
---
 internal/header/feature_list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/header/feature_list.go b/internal/header/feature_list.go
index e87982a..05c3f65 100644
--- a/internal/header/feature_list.go
+++ b/internal/header/feature_list.go
@@ -28,7 +28,7 @@ func NewFeatureList(features []string) (FeatureList, error) {
 	for _, feature := range features {
 		var le FeatureListElement
 		var err error
-		if strings.HasPrefix(feature, "[") && strings.HasSuffix(feature, "]") {
+		if strings.HasPrefix(feature, "[") {
 			if le, err = NewPredicateBagListElement(feature); err != nil {
 				return list, err
 			}
-- 
2.43.0


From 0280482b6e5fc618e6498a4c8191d5f9d2158171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:52 +0000
Subject: [PATCH 11/18] fix: do not count 204 responses as multiple choices

A reactive negotiation without representations incremented both the no content
and the multiple choices counters.
---
 reactive/reactive.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reactive/reactive.go b/reactive/reactive.go
index 540b9e7..b42058b 100644
--- a/reactive/reactive.go
+++ b/reactive/reactive.go
@@ -96,7 +96,7 @@ func (n Negotiator) Negotiate(
 	defer func() {
 		if err != nil {
 			n.scope.Counter(scopeNameReactiveErrorCounter).Inc(1)
-		} else {
+		} else if len(reps) > 0 {
 			n.scope.Counter(scopeNameReactiveMultipleChoicesCounter).Inc(1)
 		}
 	}()
-- 
2.43.0


From 834b459cc5e5e01b958dbbfc08e55bb3584a9cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 12/18] fix: evaluate range predicates that have a missing
 bound

'res=[5-]' was false for every value and 'res=[-5]' was true for every value.
A range was also true for a feature without any numeric value when it starts
at zero. See RFC 2295, section 6.3.
---
 internal/header/feature_predicate.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/internal/header/feature_predicate.go b/internal/header/feature_predicate.go
index 4e7f2ca..6b0e556 100644
--- a/internal/header/feature_predicate.go
+++ b/internal/header/feature_predicate.go
@@ -18,6 +18,7 @@ package header
 import (
 	"errors"
 	"fmt"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -267,21 +268,27 @@ func (w within) Evaluate(supported, unsupported FeatureSet) bool {
 		return false
 	}
 
+	// a missing lower bound is zero, and a missing upper bound is infinite.
 	low, _ := strconv.Atoi(w.l.String())
-	high, _ := strconv.Atoi(w.h.String())
+	high := math.MaxInt
+	if w.h != "" {
+		high, _ = strconv.Atoi(w.h.String())
+	}
 
 	// ensure that the highest numeric value for the feature in the set falls
 	// within the range inclusively.
 	var highest int
+	var numeric bool
 	for _, val := range sValues {
-		if val.IsNumeric() && w.l.IsNumeric() && w.h.IsNumeric() {
-			num, _ := strconv.Atoi(val.String())
-			if num > highest {
-				highest = num
-			}
+		num, err := strconv.Atoi(val.String())
+		if err != nil {
+			continue
+		}
+		if !numeric || num > highest {
+			highest, numeric = num, true
 		}
 	}
-	return highest >= low && highest <= high
+	return numeric && highest >= low && highest <= high
 }
 
 // String provides the textual representation of the predicate.
-- 
2.43.0


From 7c5a2c3de17f9c6c70f313675641c29edd1b87ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 13/18] fix: apply and undo every content coding of a
 representation

With several codings only the outermost writer was closed, so the serialized
form was truncated, the codings were applied in the wrong order, and reading
such a form dereferenced a nil reader. Closing a reader also discarded the
error that was met while reading, so corrupt input was accepted.
---
 representation/base.go | 79 +++++++++++++++++++-----------------------
 1 file changed, 36 insertions(+), 43 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index abbc543..e366f48 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -176,35 +176,32 @@ func (r Base) Bytes(out interface{}) ([]byte, error) {
 	return r.encode(b)
 }
 
-func (r *Base) encode(b []byte) (bb []byte, err error) {
-	var (
-		buf                bytes.Buffer
-		writer             io.WriteCloser = &closeableBuffer{&buf}
-		encodings                         = r.ContentEncoding()
-		writerConstructors                = defaultEncodingWriters
-	)
-
+func (r *Base) encode(b []byte) ([]byte, error) {
+	writerConstructors := defaultEncodingWriters
 	if len(r.encodingWriters) > 0 {
 		writerConstructors = r.encodingWriters
 	}
 
-	for _, e := range encodings {
-		if _, ok := writerConstructors[strings.ToLower(e)]; !ok {
-			err = ErrUnsupportedContentEncoding
-			return
+	// apply the codings in the order they are listed.
+	for _, e := range r.ContentEncoding() {
+		constructor, ok := writerConstructors[strings.ToLower(e)]
+		if !ok {
+			return nil, ErrUnsupportedContentEncoding
 		}
-		if writer, err = writerConstructors[strings.ToLower(e)](writer); err != nil {
-			return
+		var buf bytes.Buffer
+		writer, err := constructor(&closeableBuffer{&buf})
+		if err != nil {
+			return nil, err
 		}
+		if _, err = writer.Write(b); err != nil {
+			return nil, err
+		}
+		if err = writer.Close(); err != nil {
+			return nil, err
+		}
+		b = buf.Bytes()
 	}
-	if _, err = writer.Write(b); err != nil {
-		return
-	}
-	if err = writer.Close(); err != nil {
-		return
-	}
-	bb = buf.Bytes()
-	return
+	return b, nil
 }
 
 // FromBytes constructs the representation from its serialized form.
@@ -232,35 +229,31 @@ func (r Base) FromBytes(b []byte, in interface{}) (err error) {
 	return unmarshallers[strings.ToLower(ct)](b, in)
 }
 
-func (r *Base) decode(b []byte) (bb []byte, err error) {
-	var (
-		buf                              = bytes.NewBuffer(b)
-		reader             io.ReadCloser = &closeableBuffer{buf}
-		encodings                        = r.ContentEncoding()
-		readerConstructors               = defaultEncodingReaders
-	)
-
+func (r *Base) decode(b []byte) ([]byte, error) {
+	readerConstructors := defaultEncodingReaders
 	if len(r.encodingReaders) > 0 {
 		readerConstructors = r.encodingReaders
 	}
 
+	// undo the codings in the reverse of the order they are listed.
+	encodings := r.ContentEncoding()
 	for idx := len(encodings) - 1; idx >= 0; idx-- {
-		e := encodings[idx]
-		if _, ok := readerConstructors[strings.ToLower(e)]; !ok {
-			err = ErrUnsupportedContentEncoding
-			return
+		constructor, ok := readerConstructors[strings.ToLower(encodings[idx])]
+		if !ok {
+			return nil, ErrUnsupportedContentEncoding
 		}
-		if reader, err = readerConstructors[strings.ToLower(e)](reader); err != nil {
-			return
+		reader, err := constructor(&closeableBuffer{bytes.NewBuffer(b)})
+		if err != nil {
+			return nil, err
+		}
+		if b, err = io.ReadAll(reader); err != nil {
+			return nil, err
+		}
+		if err = reader.Close(); err != nil {
+			return nil, err
 		}
-		defer func() {
-			err = reader.Close()
-		}()
-	}
-	if bb, err = io.ReadAll(reader); err != nil {
-		return
 	}
-	return
+	return b, nil
 }
 
 // closeableBuffer represents a closeable buffer.
-- 
2.43.0


From 0e14c0c555f4970c1135008e8ac7ff1e53fcdf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:37 +0000
Subject: [PATCH 14/18] fix: apply the codings that are listed along with
 identity

The codings were skipped altogether when the first one was 'identity', and
'identity' was not supported in any other position, although the response
announces every listed coding.
---
 representation/base.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index e366f48..383c5ac 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -167,11 +167,6 @@ func (r Base) Bytes(out interface{}) ([]byte, error) {
 		return b, err
 	}
 
-	encodings := r.ContentEncoding()
-	if len(encodings) < 1 || strings.ToLower(encodings[0]) == "identity" {
-		return b, nil
-	}
-
 	// encode.
 	return r.encode(b)
 }
@@ -184,6 +179,9 @@ func (r *Base) encode(b []byte) ([]byte, error) {
 
 	// apply the codings in the order they are listed.
 	for _, e := range r.ContentEncoding() {
+		if strings.ToLower(e) == "identity" {
+			continue
+		}
 		constructor, ok := writerConstructors[strings.ToLower(e)]
 		if !ok {
 			return nil, ErrUnsupportedContentEncoding
@@ -218,11 +216,8 @@ func (r Base) FromBytes(b []byte, in interface{}) (err error) {
 	}
 
 	// decode.
-	encodings := r.ContentEncoding()
-	if len(encodings) > 0 && strings.ToLower(encodings[0]) != "identity" {
-		if b, err = r.decode(b); err != nil {
-			return
-		}
+	if b, err = r.decode(b); err != nil {
+		return
 	}
 
 	// deserialize.
@@ -238,7 +233,11 @@ func (r *Base) decode(b []byte) ([]byte, error) {
 	// undo the codings in the reverse of the order they are listed.
 	encodings := r.ContentEncoding()
 	for idx := len(encodings) - 1; idx >= 0; idx-- {
-		constructor, ok := readerConstructors[strings.ToLower(encodings[idx])]
+		e := strings.ToLower(encodings[idx])
+		if e == "identity" {
+			continue
+		}
+		constructor, ok := readerConstructors[e]
 		if !ok {
 			return nil, ErrUnsupportedContentEncoding
 		}
-- 
2.43.0


From 3343621b24052db13370c02b1faf6418fc354109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 15/18] fix: accept comma-separated lists in negotiation
 headers

A header field that lists its elements on a single line, which is how user
agents send 'Accept: text/html, */*;q=0.1', was parsed as a single element,
so negotiating the request failed with an error.
---
 internal/header/accept.go          |  2 +-
 internal/header/accept_charset.go  |  2 +-
 internal/header/accept_encoding.go |  2 +-
 internal/header/accept_features.go |  2 +-
 internal/header/list.go            | 44 ++++++++++++++++++++++++++++++
 internal/header/negotiate.go       |  2 +-
 6 files changed, 49 insertions(+), 5 deletions(-)
 create mode 100644 internal/header/list.go

diff --git a/internal/header/accept.go b/internal/header/accept.go
index 43d2004..03058d2 100644
--- a/internal/header/accept.go
+++ b/internal/header/accept.go
@@ -49,7 +49,7 @@ func NewAccept(accept []string) (Accept, error) {
 
 	// parse media ranges
 	var mediaRanges []MediaRange
-	for _, m := range accept {
+	for _, m := range elements(accept) {
 		mediaRange, err := parseMediaRange(m)
 		if err != nil {
 			return EmptyAccept, err
diff --git a/internal/header/accept_charset.go b/internal/header/accept_charset.go
index d79f13c..1366d35 100644
--- a/internal/header/accept_charset.go
+++ b/internal/header/accept_charset.go
@@ -50,7 +50,7 @@ func NewAcceptCharset(acceptCharset []string) (AcceptCharset, error) {
 		return EmptyAcceptCharset, nil
 	}
 	var charsets []CharsetRange
-	for _, c := range acceptCharset {
+	for _, c := range elements(acceptCharset) {
 		charset, err := NewCharsetRange(c)
 		if err != nil {
 			return EmptyAcceptCharset, err
diff --git a/internal/header/accept_encoding.go b/internal/header/accept_encoding.go
index fbef4ff..9ea11dc 100644
--- a/internal/header/accept_encoding.go
+++ b/internal/header/accept_encoding.go
@@ -47,7 +47,7 @@ func NewAcceptEncoding(acceptEncoding []string) (AcceptEncoding, error) {
 		return EmptyAcceptEncoding, nil
 	}
 	var contentCodings []ContentCodingRange
-	for _, cc := range acceptEncoding {
+	for _, cc := range elements(acceptEncoding) {
 		coding, err := NewContentCodingRange(cc)
 		if err != nil {
 			return EmptyAcceptEncoding, err
diff --git a/internal/header/accept_features.go b/internal/header/accept_features.go
index 410369b..875feb9 100644
--- a/internal/header/accept_features.go
+++ b/internal/header/accept_features.go
@@ -46,7 +46,7 @@ func NewAcceptFeatures(acceptFeatures []string) (AcceptFeatures, error) {
 		return EmptyAcceptFeatures, nil
 	}
 	var expressions []FeatureExpression
-	for _, e := range acceptFeatures {
+	for _, e := range elements(acceptFeatures) {
 		expressions = append(expressions, FeatureExpression(e))
 	}
 	return AcceptFeatures(expressions), nil
diff --git a/internal/header/list.go b/internal/header/list.go
new file mode 100644
index 0000000..e8a1167
--- /dev/null
+++ b/internal/header/list.go
@@ -0,0 +1,44 @@
+/* Copyright 2020 Freerware
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+package header
+
+import "strings"
+
+// elements provides the elements of the provided header field values, each of
+// which can be a comma-separated list. Commas within quoted strings do not
+// separate elements.
+//
+// https://tools.ietf.org/html/rfc7230#section-7
+func elements(values []string) []string {
+	var e []string
+	for _, v := range values {
+		var start int
+		var quoted bool
+		for i := 0; i < len(v); i++ {
+			switch {
+			case quoted && v[i] == '\\':
+				i++
+			case v[i] == '"':
+				quoted = !quoted
+			case v[i] == ',' && !quoted:
+				e = append(e, strings.TrimSpace(v[start:i]))
+				start = i + 1
+			}
+		}
+		e = append(e, strings.TrimSpace(v[start:]))
+	}
+	return e
+}
diff --git a/internal/header/negotiate.go b/internal/header/negotiate.go
index c3250db..635d38c 100644
--- a/internal/header/negotiate.go
+++ b/internal/header/negotiate.go
@@ -34,7 +34,7 @@ type Negotiate []NegotiateDirective
 // NewNegotiate constructs a Negotiate header with the provided directives.
 func NewNegotiate(directives []string) (Negotiate, error) {
 	var dirs []NegotiateDirective
-	for _, d := range directives {
+	for _, d := range elements(directives) {
 		directive, err := NewNegotiateDirective(d)
 		if err != nil {
 			return EmptyNegotiateHeader, err
-- 
2.43.0


From 716e38596a8b89a03cf278651519a70c790f6d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:14 +0000
Subject: [PATCH 16/18] fix: select only the variants with the highest level

The level filter kept every text/html variant that has a level, so a variant
with a lower level could win in a later step of the algorithm.
---
 proactive/apache_httpd.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index 68fde4e..7a009c4 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -276,7 +276,9 @@ var (
 				return htmlWithLevel[i].l > htmlWithLevel[j].l
 			})
 			for _, v := range htmlWithLevel {
-				htmlVariants = append(htmlVariants, v.v)
+				if v.l == htmlWithLevel[0].l {
+					htmlVariants = append(htmlVariants, v.v)
+				}
 			}
 			return htmlVariants, nil
 		}
-- 
2.43.0


From 424a64b0c31365740342a3789f876999a70aeea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 17/18] fix: add the new values to an existing feature

---
 internal/header/feature_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/header/feature_set.go b/internal/header/feature_set.go
index 19f86e3..d0358e2 100644
--- a/internal/header/feature_set.go
+++ b/internal/header/feature_set.go
@@ -32,7 +32,7 @@ func (s FeatureSet) Add(tag FeatureTag, values ...FeatureTagValue) {
 		s[tag] = values
 		return
 	}
-	for t, values := range s {
+	for t := range s {
 		if t.Equals(tag) {
 			s[t] = append(s[t], values...)
 		}
-- 
2.43.0


From 4631683ef94d14667103b0bc2f54f59b9486594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 18/18] fix: keep Accept-Language ranges of weight zero, in
 order, and reject malformed weights

---
 internal/header/accept_language.go | 27 ++++++---------------------
 internal/header/language_range.go  | 13 ++++++++++---
 2 files changed, 16 insertions(+), 24 deletions(-)

diff --git a/internal/header/accept_language.go b/internal/header/accept_language.go
index 429d4a7..1cb4029 100644
--- a/internal/header/accept_language.go
+++ b/internal/header/accept_language.go
@@ -19,8 +19,6 @@ import (
 	"fmt"
 	"sort"
 	"strings"
-
-	"golang.org/x/text/language"
 )
 
 var (
@@ -33,10 +31,6 @@ var (
 
 	// EmptyAcceptLanguage is an empty Accept-Language header.
 	EmptyAcceptLanguage = AcceptLanguage([]LanguageRange{})
-
-	// wildcardTag is the tag that 'language.ParseAcceptLanguage' provides for
-	// the "*" language range.
-	wildcardTag = language.Make("mul")
 )
 
 // AcceptLanguage represents the Accept-Language header.
@@ -52,26 +46,17 @@ func NewAcceptLanguage(acceptLanguage []string) (AcceptLanguage, error) {
 	if len(acceptLanguage) == 0 {
 		return EmptyAcceptLanguage, nil
 	}
-	tags, qValues, err := language.ParseAcceptLanguage(strings.Join(acceptLanguage, ","))
-	if err != nil {
-		return EmptyAcceptLanguage, err
-	}
 
 	var ranges []LanguageRange
-	for i := 0; i < len(tags); i++ {
-		qv, err := NewQualityValue(qValues[i])
+	for _, e := range elements(acceptLanguage) {
+		if len(e) == 0 {
+			continue
+		}
+		lr, err := NewLanguageRange(e)
 		if err != nil {
 			return EmptyAcceptLanguage, err
 		}
-		lrange := tags[i].String() + ";q=" + qv.String()
-		if tags[i] == wildcardTag {
-			lrange = "*"
-		}
-		ranges = append(ranges, LanguageRange{
-			lrange: lrange,
-			tag:    tags[i],
-			qValue: qv,
-		})
+		ranges = append(ranges, lr)
 	}
 	return AcceptLanguage(ranges), nil
 }
diff --git a/internal/header/language_range.go b/internal/header/language_range.go
index 356b11e..3f9eac6 100644
--- a/internal/header/language_range.go
+++ b/internal/header/language_range.go
@@ -35,6 +35,10 @@ var (
 	// ErrEmptyLanguageRange is an error that indicates that the language
 	// range cannot be empty.
 	ErrEmptyLanguageRange = errors.New("language range cannot be empty")
+
+	// ErrInvalidLanguageRange is an error that indicates that the language
+	// range is invalid.
+	ErrInvalidLanguageRange = errors.New("language range is invalid")
 )
 
 // LanguageRange represents a language tag matching expression.
@@ -51,7 +55,7 @@ func NewLanguageRange(languageRange string) (LanguageRange, error) {
 	}
 
 	parts := strings.Split(languageRange, ";")
-	r := strings.ToLower(parts[0])
+	r := strings.ToLower(strings.TrimSpace(parts[0]))
 	t, err := language.Parse(r)
 	if r != "*" && err != nil {
 		return LanguageRange{}, err
@@ -62,8 +66,11 @@ func NewLanguageRange(languageRange string) (LanguageRange, error) {
 		qValue: QualityValue(1.0),
 	}
 
-	if len(parts) > 1 && strings.HasPrefix(strings.Trim(parts[1], " "), "q=") {
-		w := strings.Trim(parts[1], " ")
+	if len(parts) > 1 {
+		w := strings.ToLower(strings.TrimSpace(parts[1]))
+		if len(parts) > 2 || !strings.HasPrefix(w, "q=") {
+			return LanguageRange{}, ErrInvalidLanguageRange
+		}
 		q := strings.TrimPrefix(w, "q=")
 		f, err := strconv.ParseFloat(q, 32)
 		if err != nil {
-- 
2.43.0

