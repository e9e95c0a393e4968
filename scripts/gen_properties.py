#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
PR="proactive/proactive.go"; AP="proactive/apache_httpd.go"; RE="reactive/reactive.go"; TR="transparent/transparent.go"; RV="transparent/rvsa.go"
H="internal/header/"
p("C01","A served representation is delivered intact and described truthfully",
  "When proactive negotiation settles on a representation, the response has status 200 (201 when the request created the resource) and its body is exactly the serialized form of one of the offered representations, namely the one the configured algorithm selected. The Content-Length, Content-Type, Content-Encoding, Content-Language, Content-Charset and Content-Location header fields state that representation's own length and metadata, and the status line is written once, before the body.",
  ["inputs","configurations"],"every request, every list of representations, every algorithm and every negotiator configuration",
  "Tests look at a handful of fixed representations and mostly at the status code; none relates all header fields to the representation that was served, for arbitrary metadata.",
  [PR],[("response for an acceptable representation",PR+": acceptable"),("selection",PR+": Negotiate")],["http.ResponseWriter"])
p("C02","A negotiation that fails leaves the response untouched",
  "If a negotiator of any kind cannot decide what to send - a malformed header field, an error from the selection algorithm, a representation that cannot be serialized, too many variants - it returns that error and has written no status, no header field and no body. An error from writing the body is returned to the caller as well.",
  ["inputs","fault_sequences"],"every request and representation list, and every point at which parsing, choosing, serializing or writing can fail",
  "Tests check that an error comes back for a few inputs; they do not check that nothing was written, nor every point of failure.",
  [PR,RE,TR],[("error returns",PR+": Negotiate, acceptable, notAcceptable"),("error returns",RE+": Negotiate"),("error returns",TR+": Negotiate, listResponse, choiceResponse")],["http.ResponseWriter"])
p("C03","Negotiating nothing yields 204 No Content",
  "A negotiation over no representations writes status 204 and nothing else - no header field and no body - and succeeds, whatever the request says, for every kind of negotiator.",
  ["inputs","configurations"],"every request and configuration",
  "Tests send one well-formed request to two of the three negotiators.",
  [PR,RE,TR],[("empty variant list",PR+": Negotiate"),("empty variant list",RE+": Negotiate"),("empty variant list",TR+": Negotiate")],["http.ResponseWriter"])
p("C04","Strict mode refuses exactly the requests that nothing offered matches",
  "While strict mode is on for Accept, Accept-Language or Accept-Charset, a request for which none of the offered representations matches any range of that header field is answered 406 and the selection algorithm gets no say. A request for which every strict header field is matched by at least one representation, and every header field whose strict mode is off, is left to the algorithm.",
  ["inputs","configurations"],"every combination of the three strict switches, every header content, every list of representations",
  "Tests cover single headers with mocked choosers; the counts over arbitrary lists and the interaction of the three switches are not sampled.",
  [PR,H+"accept.go",H+"accept_language.go",H+"accept_charset.go"],[("compatibility counts",PR+": Negotiate"),("header compatibility",H+"accept.go: Accept.Compatible")],["http.ResponseWriter"])
p("C05","A 406 response describes all alternatives, or has no body",
  "When nothing acceptable is found the response status is 406. If the explanatory representation is disabled nothing else is written; otherwise the body is the serialized form of a list built from all offered representations, in order: the one the algorithm selects among the configured lists or, when it selects none, the configured default list, with header fields describing that list.",
  ["inputs","configurations"],"every request, list of representations, algorithm and list configuration",
  "Tests check the status for the default configuration and a few overrides, not which list is served nor its header fields.",
  [PR],[("not acceptable response",PR+": notAcceptable")],["http.ResponseWriter"])
p("C06","The default algorithm never serves what the request rules out",
  "The default proactive algorithm never selects a representation whose media type, charset, language or content coding has weight zero for the request, that is, whose best matching range has weight zero or which no range of a non-empty header field matches. It selects nothing only when every offered representation is ruled out in that way, and what it selects is one of the offered representations.",
  ["inputs"],"every request header content and every list of representations",
  "Tests use about a dozen header combinations over two or three representations.",
  [AP],[("elimination",AP+": Choose"),("per-dimension weights",AP+": acceptQuality, acceptCharsetQuality, acceptLanguageQuality, acceptEncodingQuality")],["result of Choose"])
p("C07","The default algorithm selects the best variant by its documented order",
  "Among the representations that are not ruled out, the default proactive algorithm selects one that is best when compared, in this order, by: source quality times media type weight, language weight, position of the language in the request, HTML level, charset weight, not being ISO-8859-1, content coding weight, and smallest serialized size. Weights are compared to three decimals, and a later criterion only decides between variants that tie on all earlier ones.",
  ["inputs"],"every list of representations (any length) and every request",
  "The order is a statement about all pairs of variants of lists of any length; tests compare a few pairs on one or two criteria.",
  [AP,"representation/set.go"],[("stages",AP+": bestSourceAndType .. smallestContentLength"),("staging",AP+": Choose"),("filtering",'representation/set.go: Where, Sort')],["result of Choose"])
p("C08","A weight is that of the best matching range",
  "For the default proactive algorithm, the weight of a representation in a dimension (media type, charset, language, content coding) is 1 when the representation does not state that attribute or the request has no such header field, 0 when no range matches, and otherwise the weight of a matching range than which no other matching range weighs more.",
  ["inputs"],"every header content and every representation",
  "Tests observe only which representation wins for a few headers; ranges in every order and with any number of matches are not covered.",
  [AP,H+"accept.go",H+"accept_charset.go",H+"accept_encoding.go"],[("weights",AP+": acceptQuality, acceptCharsetQuality, acceptLanguageQuality, acceptEncodingQuality"),("preference order",H+"accept.go: MediaRanges")])
p("C09","Remote variant selection returns only a definite best variant",
  "The remote variant selection algorithm returns a variant only if its overall quality - source quality times the media type, charset, language and feature weights, rounded to five decimals - is positive and no other offered variant has a higher one, and only if no wildcard and no missing header field was needed to weigh it. Otherwise it returns none, so that the user agent decides.",
  ["inputs"],"every request and every list of variants",
  "A maximum over lists of any length and the definiteness of every dimension; tests use four fixed requests.",
  [RV],[("choice",RV+": Choose"),("overall quality",RV+": overallQuality"),("definiteness",RV+": accept*Quality")],["result of Choose"])
p("C10","Transparent negotiation answers with a choice only when it may",
  "A transparently negotiated response is a choice response only if the request allows the server to choose (a '*', '1.0' or 'guess-small' directive, compared case-insensitively), the selection algorithm returned a variant, that variant's location is a neighbour of the requested resource, and, for guess-small, the variant is smaller than the list or exceeds it by no more than the threshold. In every other case that does not fail it is a list response.",
  ["inputs","configurations"],"every Negotiate header content, algorithm result, variant location and size, and threshold",
  "Tests cover one request per directive with one threshold.",
  [TR,H+"negotiate.go"],[("decision",TR+": Negotiate"),("directives",H+"negotiate.go: Contains, ContainsRVSA")],["http.ResponseWriter"])
p("C11","Transparent responses are complete",
  "A list response has status 300, TCN 'list', and the serialized list built from all variants as body; a choice response has status 200, TCN 'choice', and the chosen variant's serialized form as body; both state the length and metadata of that body. Both carry an Alternates header field that describes every variant exactly once, in order, with its location, source quality, type, charset, language, features and serialized length.",
  ["inputs"],"every list of variants and every choice among them",
  "Tests check status codes and the Alternates text of one or two fixed lists.",
  [TR,H+"alternates.go",H+"tcn.go"],[("list response",TR+": listResponse"),("choice response",TR+": choiceResponse"),("variant descriptions",H+"alternates.go: NewAlternates, ValuesAsStrings")],["http.ResponseWriter"])
p("C12","Oversized variant lists are refused",
  "Transparent negotiation over more variants than the configured maximum (at least 1, 10 unless configured) fails with the size error and nothing is written; up to the maximum it never fails with that error.",
  ["inputs","configurations"],"every maximum and every list length",
  "Tests try one oversized list.",
  [TR,"transparent/transparent_options.go"],[("limit",TR+": Negotiate"),("limit option","transparent/transparent_options.go: MaximumVariantListSize")])
p("C13","Reactive negotiation answers with the full list of choices",
  "Reactive negotiation over at least one representation answers 300 with the serialized form of the list built by the configured constructor from all offered representations in order, and header fields that state that list's length, type, coding, language and charset.",
  ["inputs","configurations"],"every list of representations and every list constructor",
  "Tests check the status and a few header fields for one list.",
  [RE],[("response",RE+": Negotiate")],["http.ResponseWriter"])
p("C14","A list representation describes every representation once, in order",
  "A list representation built from representations contains exactly one description per representation, in the same order, and each states that representation's type, language, codings, location, charset, features and source quality. The lists the negotiators build by default have the media type they are configured for and the identity coding.",
  ["inputs"],"every list of representations, of any length",
  "Tests use lists of one or two fixed entries.",
  ["representation/list.go",PR,RE,TR],[("descriptions","representation/list.go: SetRepresentations"),("default lists",PR+": jsonList, xmlList, yamlList")])
p("C15","Weights stay within 0 to 1 and compare to three decimals",
  "Every weight accepted from a request is a number from 0 to 1; anything else, including not-a-number, is rejected with an error. Of any two weights exactly one is greater, or they are equal, this order is transitive, and weights written with different values of up to three decimals are never equal.",
  ["inputs"],"every floating point number and every pair and triple of weights",
  "Tests try a few values; the order laws are about all pairs and triples, including rounding boundaries.",
  [H+"quality_value.go"],[("construction",H+"quality_value.go: NewQualityValue"),("comparison",H+"quality_value.go: Equals, LessThan, GreaterThan, Round")])
p("C16","Negotiation header fields are read faithfully",
  "Each element of an Accept, Accept-Charset, Accept-Encoding, Accept-Language, Accept-Features or Negotiate header field, whether on lines of its own or separated by commas, contributes exactly one range, expression or directive, in order, with the name as written and the stated weight (1 if none is stated). An element that is malformed or has a weight outside 0 to 1 makes the whole header field an error, never a silently dropped or altered range.",
  ["inputs"],"every list of header field lines",
  "The grammar has unboundedly many words; tests list a few.",
  [H+"accept.go",H+"media_range.go",H+"charset_range.go",H+"content_coding_range.go",H+"accept_charset.go",H+"accept_encoding.go",H+"accept_language.go",H+"negotiate.go",H+"list.go"],[("field parsing",H+"accept*.go: NewAccept*"),("element parsing",H+"*_range.go: New*Range")])
p("C17","A range matches exactly the values it covers",
  "A media range matches a media type exactly when type and subtype are equal ignoring case or wildcards, and every parameter of the range other than its weight is present with the same value. A charset or content coding range matches exactly the equal name ignoring case, and the wildcard range matches every (known) one; a wildcard language range matches every language.",
  ["inputs"],"every range and every media type, charset, coding or language",
  "Tests list a few pairs; none combines parameters with weights.",
  [H+"media_range.go",H+"charset_range.go",H+"content_coding_range.go",H+"language_range.go"],[("matching",H+"media_range.go: Compatible"),("matching",H+"charset_range.go: Compatible"),("matching",H+"content_coding_range.go: Compatible"),("matching",H+"language_range.go: Compatible")])
p("C18","Ordering by preference loses, invents and alters nothing",
  "The ranges of a header field ordered by preference are a permutation of the ranges as parsed, heaviest first, and for Accept the more specific first among equal weights. Asking for the order any number of times, or asking whether a value is matched, gives answers that do not depend on the order in which the ranges currently are.",
  ["inputs","histories"],"every header field content and every sequence of queries on it",
  "Tests order a few short lists once.",
  [H+"accept.go",H+"accept_charset.go",H+"accept_encoding.go",H+"accept_language.go"],[("ordering",H+"accept.go: MediaRanges"),("ordering",H+"accept_charset.go: CharsetRanges"),("ordering",H+"accept_encoding.go: CodingRanges"),("ordering",H+"accept_language.go: LanguageRanges")])
p("C19","Feature predicates mean what RFC 2295 says",
  "Over any feature sets, 'f' holds iff f is supported, '!f' iff f is not supported and known to be unsupported, 'f=v' iff f is supported with value v, 'f!=v' iff f is supported and not with value v, and 'f=[n-m]' iff the highest numeric value of f lies between n (0 if missing) and m (unbounded if missing). A bag of predicates holds iff at least one of them does.",
  ["inputs"],"every pair of feature sets and every predicate",
  "Tests evaluate ten predicates over one fixed pair of feature sets.",
  [H+"feature_predicate.go",H+"feature_set.go",H+"feature_tag.go"],[("evaluation",H+"feature_predicate.go: Evaluate"),("lookup",H+"feature_set.go: Contains, Values")])
p("C20","Feature lists degrade quality by the product of their factors",
  "The degradation of a feature list is the product, over all its elements, of the element's true-improvement when its predicate holds and of its false-degradation otherwise; these default to 1 and 0, and to 1 and 1 when only the improvement is given. A feature list has one element per feature, in order, and a malformed feature is an error.",
  ["inputs"],"every feature list, of any length, and every pair of feature sets",
  "Tests multiply at most two factors.",
  [H+"feature_list.go",H+"feature_list_element.go"],[("product",H+"feature_list.go: QualityDegradation"),("factors",H+"feature_list_element.go: TrueImprovement, FalseDegradation")])
p("C21","Accept-Features yields exactly the stated feature sets",
  "After reading an Accept-Features header field, a feature is in the supported set exactly if some expression states that it exists or has or lacks a particular value, with exactly the values stated for it, and in the unsupported set exactly if some expression states that it is absent or lacks a value. Adding to a feature set keeps everything that was in it.",
  ["inputs","histories"],"every sequence of feature expressions and additions",
  "Tests build sets from one or two expressions.",
  [H+"accept_features.go",H+"feature_set.go",H+"feature_expression.go"],[("sets",H+"accept_features.go: AsFeatureSets"),("insertion",H+"feature_set.go: Add")])
p("C22","Content codings are all applied, in order, and undone on reading",
  "The serialized form of a representation is its marshalled form with every listed content coding other than identity applied, in the order listed, by the configured coders; reading applies the inverse coders in the reverse order before unmarshalling, so a representation read back equals the one written. An error from any coder or marshaller, at any layer, is returned and never masked.",
  ["inputs","configurations","fault_sequences"],"every list of codings (any length, any case), every coder configuration, and every point at which a coder can fail",
  "Tests only use single codings and coders that do not fail.",
  ["representation/base.go"],[("encoding","representation/base.go: encode, Bytes"),("decoding","representation/base.go: decode, FromBytes")])
p("C23","Unsupported types and codings are refused",
  "A representation is serialized or read only with the (un)marshaller registered for its media type, ignoring parameters and case: the configured ones if any are configured, otherwise the built-in ones. An unregistered media type or content coding is the corresponding unsupported error, never output in another format or with a coding left out.",
  ["inputs","configurations"],"every content type, list of codings, and registration of marshallers and coders",
  "Tests try one unknown type and one unknown coding.",
  ["representation/base.go"],[("selection","representation/base.go: Bytes, FromBytes, encode, decode")])
p("C24","Every negotiation is counted once, by outcome",
  "Each negotiation that fails increments the error counter of its negotiator by one and no outcome counter; each that succeeds increments only the one counter of its outcome (acceptable, not acceptable, no content, multiple choices), by one.",
  ["inputs","configurations","fault_sequences"],"every request, list of representations, configuration and failure",
  "Counters are not asserted by the tests for failing or mixed outcomes.",
  [PR,RE,TR],[("counters",PR+": Negotiate, acceptable, notAcceptable"),("counters",RE+": Negotiate"),("counters",TR+": Negotiate")],["tally.Scope"])
p("C25","Negotiation does not modify what it shares with others",
  "Negotiating, choosing and weighing change nothing that existed before the call other than the response and the metrics: not the request and its header fields, not the offered representations or the slice they came in, not the negotiator, and no package-level value. Concurrent and repeated negotiations therefore cannot influence each other.",
  ["inputs","histories","schedules"],"every request and representation list, and every sequence or interleaving of calls that share a negotiator",
  "Tests run single calls and never compare the state before and after.",
  [PR,AP,RE,TR,RV,"representation/set.go",H+"accept.go"],[("frames","every function reached from Negotiate and Choose")])
p("C26","No request can make negotiation panic",
  "Whatever the request header fields and the metadata of the offered representations contain, negotiation, selection and parsing return normally or with an error: no index is out of range, no nil value is dereferenced and no explicit panic is reached.",
  ["inputs"],"every request and every list of representations",
  "The absence of a panic is a claim about all inputs; tests run a few dozen.",
  [PR,AP,RE,TR,RV,H+"accept.go",H+"media_range.go",H+"feature_predicate.go"],[("index and nil safety","every function under contract")])
p("C27","Configuration options set exactly what they name",
  "A negotiator built from a sequence of options behaves as if each option had replaced only the setting it names, with the last option winning and the documented default wherever no option says otherwise.",
  ["configurations","histories"],"every sequence of options",
  "Tests apply single options.",
  ["proactive/proactive_options.go","reactive/reactive_options.go","transparent/transparent_options.go",PR,RE,TR],[("construction",PR+": New"),("options","proactive/proactive_options.go"),("options","transparent/transparent_options.go")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
