REP = '''
type demoRep struct {
	loc                   url.URL
	ct, charset, language string
	codings, features     []string
	q                     float32
	body                  []byte
	err                   error
}

func (r *demoRep) ContentLocation() url.URL  { return r.loc }
func (r *demoRep) ContentType() string       { return r.ct }
func (r *demoRep) ContentEncoding() []string { return r.codings }
func (r *demoRep) ContentCharset() string    { return r.charset }
func (r *demoRep) ContentLanguage() string   { return r.language }
func (r *demoRep) ContentFeatures() []string { return r.features }
func (r *demoRep) SourceQuality() float32    { return r.q }
func (r *demoRep) Bytes() ([]byte, error)    { return r.body, r.err }
func (r *demoRep) FromBytes(b []byte) error  { return nil }

type demoChooser struct{ i int }

func (c demoChooser) Choose(_ *http.Request, reps ...representation.Representation) (representation.Representation, error) {
	if c.i < 0 {
		return nil, nil
	}
	return reps[c.i], nil
}
'''
def test(pkg, imports, body, rep=True):
    imps = set(imports) | {'testing'}
    if rep: imps |= {'net/http', 'net/url', 'github.com/freerware/negotiator/representation'}
    return 'package %s\n\nimport (\n%s\n)\n%s\n%s' % (pkg, '\n'.join('\t"%s"' % i for i in sorted(imps)), REP if rep else '', body)

SEEDS = [
 dict(id='C04-both-mismatch', property='C04', pkg='proactive',
  needs='representations that match neither the Accept-Language nor the Accept-Charset of the request, with strict mode only for the charset',
  what='a representation of an unacceptable language is no longer counted for the charset, so a request that strict charset mode refuses is served',
  edits=[('proactive/proactive.go', '''		} else if !c {
			alc++
		}
''', '''		} else if !c {
			alc++
			if len(reps) > 1 {
				continue
			}
		}
''')],
  test=test('proactive', ['net/http/httptest', 'github.com/freerware/negotiator'], '''
func TestPlanted(t *testing.T) {
	a := &demoRep{ct: "text/html", charset: "utf-8", language: "en", q: 1}
	b := &demoRep{ct: "text/html", charset: "utf-8", language: "fr", q: 1}
	r := httptest.NewRequest("GET", "/", nil)
	r.Header.Set("Accept-Language", "de, fr")
	r.Header.Set("Accept-Charset", "ascii")
	w := httptest.NewRecorder()
	n := New(func(o *Options) { o.Chooser = demoChooser{0}; o.StrictAcceptLanguage = false; o.NotAcceptableRepresentation = false })
	if err := n.Negotiate(negotiator.NegotiationContext{Request: r, ResponseWriter: w}, a, b); err != nil || w.Code != 406 {
		t.Fatal(err, w.Code)
	}
}
''')),
 dict(id='C10-threshold-sign', property='C10', pkg='transparent',
  needs='Negotiate: guess-small with a variant that is larger than the list by less than twice the threshold in one go, the list being shorter than the threshold',
  what='a variant that is larger than a very short list by more than the threshold is chosen all the same',
  edits=[('transparent/transparent.go', '''diff > float64(n.guessSmallThreshold) {''', '''diff > float64(n.guessSmallThreshold) && len(listBytes) >= 4 {''')],
  test=test('transparent', ['net/http/httptest', 'github.com/freerware/negotiator'], '''
func TestPlanted(t *testing.T) {
	u := url.URL{Scheme: "http", Host: "example.com", Path: "/x/a"}
	a := &demoRep{loc: u, ct: "text/html", q: 1, body: make([]byte, 4000)}
	list := &demoRep{ct: "text/plain", body: make([]byte, 3)}
	r := httptest.NewRequest("GET", "http://example.com/x/y", nil)
	r.Header["Negotiate"] = []string{"guess-small"}
	w := httptest.NewRecorder()
	n := New(RVSA(demoChooser{0}), ListRepresentation(func(...representation.Representation) representation.Representation { return list }))
	if err := n.Negotiate(negotiator.NegotiationContext{Request: r, ResponseWriter: w}, a); err != nil || w.Code != 300 {
		t.Fatal(err, w.Code)
	}
}
''')),
 dict(id='C02-late-list', property='C02', pkg='transparent',
  needs='a list representation that cannot be serialized',
  what='a header field is set before the list is serialized, so a failing negotiation leaves it behind',
  edits=[('transparent/transparent.go', '''	// construct representation.
	list := n.listRepresentationConstructor(reps...)
''', '''	// construct representation.
	list := n.listRepresentationConstructor(reps...)
	ctx.ResponseWriter.Header().Add("TCN", t.ValuesAsString())
'''), ('transparent/transparent.go', '''	ctx.ResponseWriter.Header().Add("TCN", tcn)
	ctx.ResponseWriter.Header().Add("Content-Length"''', '''	ctx.ResponseWriter.Header().Add("Content-Length"''')],
  test=test('transparent', ['errors', 'net/http/httptest', 'github.com/freerware/negotiator'], '''
func TestPlanted(t *testing.T) {
	u := url.URL{Scheme: "http", Host: "example.com", Path: "/x/a"}
	a := &demoRep{loc: u, ct: "text/html", q: 1}
	list := &demoRep{ct: "text/plain", err: errors.New("x")}
	r := httptest.NewRequest("GET", "http://example.com/x/y", nil)
	w := httptest.NewRecorder()
	n := New(ListRepresentation(func(...representation.Representation) representation.Representation { return list }))
	err := n.Negotiate(negotiator.NegotiationContext{Request: r, ResponseWriter: w}, a)
	if err == nil || len(w.Header()) != 0 {
		t.Fatal(err, w.Header())
	}
}
''')),
 dict(id='C17-coding-any', property='C17', pkg='internal/header',
  needs='a content coding range that is a registered alias (x-gzip) and a representation coded with the plain name',
  what='a range for x-gzip also matches gzip, and one for x-compress compress',
  edits=[('internal/header/content_coding_range.go', '''	return strings.EqualFold(cc.CodingRange(), coding)''', '''	return strings.EqualFold(strings.TrimPrefix(cc.CodingRange(), "x-"), strings.TrimPrefix(coding, "x-"))''')],
  test=test('header', [], '''
func TestPlanted(t *testing.T) {
	r, err := NewContentCodingRange("x-gzip")
	if err != nil {
		t.Fatal(err)
	}
	if r.Compatible("gzip") || !r.Compatible("x-gzip") {
		t.Fatal("an alias matches")
	}
}
''', False)),
 dict(id='C18-drop-duplicate', property='C18', pkg='internal/header',
  needs='a field with two equal charset ranges',
  what='asking for the ranges in order of preference loses a duplicate in favour of another one',
  edits=[('internal/header/accept_charset.go', '''		return f.QualityValue().GreaterThan(s.QualityValue())
	})
	return c
}''', '''		return f.QualityValue().GreaterThan(s.QualityValue())
	})
	for i := 2; i < len(c); i++ {
		if c[i] == c[i-1] && c[i].IsWildcard() {
			c[i] = c[i-2]
		}
	}
	return c
}''')],
  test=test('header', [], '''
func TestPlanted(t *testing.T) {
	c, err := NewAcceptCharset([]string{"utf-8, *;q=0.5, *;q=0.5"})
	if err != nil {
		t.Fatal(err)
	}
	rs := c.CharsetRanges()
	if rs[2].String() != "*;q=0.500" || rs[1] != rs[2] {
		t.Fatal(rs)
	}
}
''', False)),
 dict(id='C24-write-error', property='C24', pkg='reactive',
  needs='a response writer whose Write fails',
  what='a reactive negotiation whose body could not be written is counted as a success besides',
  edits=[('reactive/reactive.go', '''	if _, err = ctx.ResponseWriter.Write(b); err == nil {
''', '''	if _, err = ctx.ResponseWriter.Write(b); err != nil && clen > 0 {
		n.scope.Counter(scopeNameReactiveMultipleChoicesCounter).Inc(1)
	} else if err == nil {
''')],
  test=test('reactive', ['errors', 'net/http/httptest', 'github.com/freerware/negotiator', 'github.com/uber-go/tally'], '''
type badWriter struct{ *httptest.ResponseRecorder }

func (badWriter) Write([]byte) (int, error) { return 0, errors.New("gone") }

func TestPlanted(t *testing.T) {
	s := tally.NewTestScope("", nil)
	n := New(func(o *Options) { o.Scope = s })
	err := n.Negotiate(negotiator.NegotiationContext{Request: httptest.NewRequest("GET", "/", nil), ResponseWriter: badWriter{httptest.NewRecorder()}}, &demoRep{ct: "text/html"})
	if err == nil {
		t.Fatal("no error")
	}
	for k, c := range s.Snapshot().Counters() {
		if c.Name() == "negotiate.multiple_choices" && c.Value() != 0 {
			t.Fatal(k, c.Value())
		}
	}
}
''')),
]
