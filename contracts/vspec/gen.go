package vspec

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/uber-go/tally"
	"go.uber.org/zap"
	"golang.org/x/text/language"
)

// This file runs contracts on the real code, with generated arguments.

// Gen generates values.
type Gen struct {
	R    *rand.Rand
	Size int
	Reps []*Rep
}

// N is a number below n.
func (g *Gen) N(n int) int { return g.R.Intn(n) }

// Chance is true once in n times.
func (g *Gen) Chance(n int) bool { return g.R.Intn(n) == 0 }

// Pick picks one of the values.
func Pick[T any](g *Gen, xs ...T) T { return xs[g.N(len(xs))] }

var (
	weights    = []string{"0", "1", "0.5", "0.7", "0.001", "1.0", "0.9", "0.999", "0.25", "0.0", "1.000", "0.12"}
	badWeights = []string{"2", "-1", "1.5", "abc", "", "NaN", "Inf", "1.001", "9"}
	mediaTypes = []string{"text/html", "text/plain", "application/json", "application/xml", "text/html;level=1", "text/html;level=2", "text/html; level=x", "text/html;charset=utf-8", "TEXT/HTML", "application/json;v=1", "application/json;q=0.3", "image/png", "application/yaml", "text/yaml", "text", "application/json; charset=ascii", "text/html;level=1;v=2", "text/plain;level=7", "Application/JSON"}
	badMedia   = []string{"", "/", "text/", "text/html;", ";", "text/html;level", "a b/c", "text/html;q=0.5;q=1", " "}
	mediaPats  = []string{"*/*", "text/*", "application/*", "*/html", "*"}
	charsets   = []string{"utf-8", "ISO-8859-1", "iso-8859-1", "ascii", "UTF-8", "us-ascii", "utf-16", "x"}
	codings    = []string{"gzip", "deflate", "compress", "identity", "x-gzip", "x-compress", "GZIP", "br", "lzw"}
	languages  = []string{"en", "en-US", "fr", "de", "en-GB", "EN", "zh-Hant", "fr-CA", "mul", "es"}
	badLangs   = []string{"", "xx-invalid-language", "e", "en_US_posix_x", "!!", "*"}
	features   = []string{"a", "b", "tables", "c", "A", "screenwidth"}
	values     = []string{"1", "2", "10", "x", "v", "4", "6", "X", "3.5", "-1"}
	garbage    = []string{"", " ", ",", ";", "=", "\"", "\\", "*", "!", "[]", "[", "a=[1-2]", "q=1", ";q=", "\x00", "é", "\"a,b\"", "a\tb", "{", "}", "1.0", "-", "+", "{+1}", "100000000000000000000"}
)

func (g *Gen) from(good, bad []string) string {
	if g.Chance(12) {
		if g.Chance(3) {
			return Pick(g, garbage...)
		}
		return Pick(g, bad...)
	}
	return Pick(g, good...)
}

func (g *Gen) weighted(s string) string {
	if g.Chance(3) {
		return s
	}
	w := g.from(weights, badWeights)
	return s + Pick(g, ";q=", ";q=", ";q=", "; q=", ";Q=", " ;q=") + w
}

// Text generates text of a kind.
func (g *Gen) Text(kind string) string {
	switch kind {
	case "mediatype":
		if g.Chance(12) {
			return ""
		}
		return g.from(mediaTypes, badMedia)
	case "mediarange":
		if g.Chance(3) {
			return g.weighted(Pick(g, mediaPats...))
		}
		return g.weighted(g.from(mediaTypes, badMedia))
	case "charset":
		if g.Chance(8) {
			return ""
		}
		return g.from(charsets, garbage)
	case "charsetrange":
		if g.Chance(4) {
			return g.weighted("*")
		}
		return g.weighted(g.from(charsets, garbage))
	case "coding":
		return g.from(codings, garbage)
	case "codingrange":
		if g.Chance(4) {
			return g.weighted("*")
		}
		return g.weighted(g.from(codings[:6], append(garbage, "br", "GZIP")))
	case "language":
		if g.Chance(8) {
			return ""
		}
		return g.from(languages, badLangs)
	case "languagerange":
		if g.Chance(4) {
			return g.weighted("*")
		}
		return g.weighted(g.from(languages, badLangs))
	case "feature":
		return g.from(features, garbage)
	case "value":
		return g.from(values, garbage)
	case "predicate":
		f, v := g.Text("feature"), g.Text("value")
		switch g.N(9) {
		case 0, 1:
			return f
		case 2:
			return "!" + f
		case 3:
			return f + "=" + v
		case 4:
			return f + "!=" + v
		case 5:
			return f + "=[" + Pick(g, "", "1", "2", "4", "10", "x") + "-" + Pick(g, "", "1", "3", "6", "20", "y") + "]"
		case 6:
			return f + "={" + v + "}"
		case 7:
			return "*"
		}
		return g.from([]string{"a", "!b", "tables=1"}, garbage)
	case "featureelement":
		p := g.Text("predicate")
		if g.Chance(3) {
			p = "[" + p + " " + g.Text("predicate") + "]"
		}
		switch g.N(4) {
		case 0:
			return p + ";+" + g.from(append([]string{"1.5", "2"}, weights...), badWeights)
		case 1:
			return p + ";-" + g.from(weights, badWeights)
		case 2:
			return p + ";+" + g.from(weights, badWeights) + "-" + g.from(weights, badWeights)
		}
		return p
	case "directive":
		return g.from([]string{"*", "1.0", "guess-small", "trans", "vlist", "GUESS-SMALL", "Trans", "2.0", "Vlist", "x"}, garbage)
	case "path":
		return Pick(g, "/a/b", "/a/c", "/", "", "/b/x", "/a/", "/a", "/x/y/z", "/x/y/w")
	case "number":
		return Pick(g, "0", "1", "-1", "12", "abc", "", "1e3", "3.5", "99999999999999999999")
	}
	ks := []string{"mediatype", "mediarange", "charset", "charsetrange", "coding", "codingrange", "language", "languagerange", "feature", "predicate", "value", "featureelement", "directive", "number"}
	if g.Chance(10) {
		return Pick(g, garbage...)
	}
	return g.Text(Pick(g, ks...))
}

// Fields generates the values of a header field.
func (g *Gen) Fields(kind string) []string {
	n := g.N(4)
	if g.Chance(10) {
		n = g.N(8)
	}
	var out []string
	for i := 0; i < n; i++ {
		s := g.Text(kind)
		for g.Chance(3) {
			s += Pick(g, ",", ", ", " , ") + g.Text(kind)
		}
		out = append(out, s)
	}
	return out
}

// Rep is a representation.
type Rep struct {
	ID       int
	Location url.URL
	Type     string
	Codings  []string
	Charset  string
	Language string
	Features []string
	Quality  float32
	Body     []byte
	Err      error
}

// ContentLocation is that of a representation.
func (r *Rep) ContentLocation() url.URL { return r.Location }

// ContentType is that of a representation.
func (r *Rep) ContentType() string { return r.Type }

// ContentEncoding is that of a representation.
func (r *Rep) ContentEncoding() []string { return r.Codings }

// ContentCharset is that of a representation.
func (r *Rep) ContentCharset() string { return r.Charset }

// ContentLanguage is that of a representation.
func (r *Rep) ContentLanguage() string { return r.Language }

// ContentFeatures is that of a representation.
func (r *Rep) ContentFeatures() []string { return r.Features }

// SourceQuality is that of a representation.
func (r *Rep) SourceQuality() float32 { return r.Quality }

// Bytes is that of a representation.
func (r *Rep) Bytes() ([]byte, error) { return r.Body, r.Err }

// FromBytes is that of a representation.
func (r *Rep) FromBytes(b []byte) error { return r.Err }

// ErrMade is an error.
var ErrMade = errors.New("made-up error")

var repIDs int

// Rep generates a representation.
func (g *Gen) Rep() *Rep {
	repIDs++
	r := &Rep{ID: repIDs}
	r.Location = g.URL()
	r.Type = Pick(g, mediaTypes...)
	if g.Chance(5) {
		r.Type = g.Text("mediatype")
	}
	if !g.Chance(3) {
		r.Charset = g.Text("charset")
	}
	if !g.Chance(3) {
		r.Language = g.Text("language")
	}
	if !g.Chance(3) {
		for i := g.N(3); i >= 0; i-- {
			r.Codings = append(r.Codings, g.Text("coding"))
		}
	}
	if g.Chance(2) {
		for i := g.N(3); i >= 0; i-- {
			r.Features = append(r.Features, g.Text("featureelement"))
		}
	}
	r.Quality = g.Weight()
	r.Body = []byte(strings.Repeat("x", Pick(g, 0, 1, 2, 3, 10, 40, 49, 50, 51, 52, 100, 300)))
	if g.Chance(12) {
		r.Err = ErrMade
		if g.Chance(2) {
			r.Body = nil
		}
	}
	return r
}

// URL generates a location.
func (g *Gen) URL() url.URL {
	u := url.URL{Scheme: Pick(g, "http", "http", "https", "HTTP", ""), Host: Pick(g, "x.org", "x.org", "X.org", "x.org:80", "y.org", "", "x.org:443"), Path: g.Text("path")}
	if g.Chance(6) {
		u.RawQuery = "q=1"
	}
	return u
}

// Weight generates a weight.
func (g *Gen) Weight() float32 {
	switch g.N(4) {
	case 0:
		return 1
	case 1:
		return float32(g.N(1001)) / 1000
	case 2:
		return g.R.Float32()
	}
	f, _ := strconv.ParseFloat(Pick(g, weights...), 32)
	return float32(f)
}

// Request generates a request.
func (g *Gen) Request() *http.Request {
	u := g.URL()
	r := &http.Request{Method: "GET", URL: &u, Header: http.Header{}}
	for k, kind := range map[string]string{"Accept": "mediarange", "Accept-Charset": "charsetrange", "Accept-Encoding": "codingrange", "Accept-Language": "languagerange", "Accept-Features": "predicate", "Negotiate": "directive"} {
		_ = kind
		_ = k
	}
	for _, h := range [][2]string{{"Accept", "mediarange"}, {"Accept-Charset", "charsetrange"}, {"Accept-Encoding", "codingrange"}, {"Accept-Language", "languagerange"}, {"Accept-Features", "predicate"}, {"Negotiate", "directive"}} {
		if g.Chance(2) {
			continue
		}
		r.Header[h[0]] = g.Fields(h[1])
	}
	if g.Chance(3) {
		// a request that accepts much.
		r.Header = http.Header{"Negotiate": {Pick(g, "1.0", "*", "guess-small", "trans")}}
		if g.Chance(2) {
			r.Header["Accept"] = []string{"text/*;q=" + Pick(g, weights...), "application/*;q=" + Pick(g, weights...), "text/html;q=" + Pick(g, weights...)}
		}
		if g.Chance(2) {
			r.Header["Accept-Language"] = []string{"en;q=" + Pick(g, weights[1:]...), "fr;q=" + Pick(g, weights[1:]...), "de"}
		}
		if g.Chance(2) {
			r.Header["Accept-Charset"] = []string{"utf-8;q=" + Pick(g, "1", "0.5", "0", "0.25"), "iso-8859-1;q=" + Pick(g, "1", "0.5", "0"), "ascii"}
		}
		if g.Chance(2) {
			r.Header["Accept-Encoding"] = []string{"gzip;q=" + Pick(g, "1", "0.5", "0", "0.25"), "identity;q=" + Pick(g, "1", "0.5", "0"), "deflate"}
		}
		if g.Chance(2) {
			r.Header["Accept-Features"] = []string{"a, b=1, !c", "tables=" + Pick(g, "1", "2", "x")}
		}
	}
	return r
}

// globals are the addresses of what calls must not modify.
var globals []any

// Globals adds addresses of variables that calls must not modify.
func Globals(ps ...any) { globals = append(globals, ps...) }

var makers = map[reflect.Type]func(g *Gen) reflect.Value{}

// Register says how values of a type are generated.
func Register[T any](f func(g *Gen) T) {
	makers[reflect.TypeOf((*T)(nil)).Elem()] = func(g *Gen) reflect.Value {
		v := f(g)
		return reflect.ValueOf(&v).Elem()
	}
}

func init() {
	Register(func(g *Gen) *http.Request { return g.Request() })
	Register(func(g *Gen) *zap.Logger { return zap.NewNop() })
	Register(func(g *Gen) tally.Scope { return tally.NewTestScope("", nil) })
	Register(func(g *Gen) language.Tag { return language.Make(g.Text("language")) })
	Register(func(g *Gen) url.URL { return g.URL() })
	Register(func(g *Gen) error {
		if g.Chance(2) {
			return nil
		}
		return ErrMade
	})
	Register(func(g *Gen) http.ResponseWriter {
		r := NewRecorder()
		if g.Chance(8) {
			r.Err = ErrMade
		}
		return r
	})
}

var repT = reflect.TypeOf(&Rep{})

// Value generates a value of a type.
func (g *Gen) Value(t reflect.Type, hint string, depth int) reflect.Value {
	if m, ok := makers[t]; ok {
		return m(g)
	}
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(g.Chance(2))
	case reflect.Int, reflect.Int64, reflect.Int32:
		v.SetInt(int64(Pick(g, 0, 1, -1, 2, 3, 5, 10, 50, 100, g.N(1000))))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(g.Weight()))
		if hint == "float" && g.Chance(3) {
			v.SetFloat(Pick(g, -1, -0.0001, 1.0001, 2, nan(), inf(1), inf(-1), 1e30))
		}
	case reflect.String:
		v.SetString(g.Text(hint))
	case reflect.Uint8:
		v.SetUint(uint64(g.N(256)))
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			v.SetBytes([]byte(g.Text("any")))
			return v
		}
		if t.Elem().Kind() == reflect.String && hint != "" && t.Name() == "" {
			v.Set(reflect.ValueOf(g.Fields(hint)).Convert(t))
			return v
		}
		if g.Chance(10) {
			return v
		}
		n := g.N(4)
		if g.Chance(3) {
			n = g.N(2 + g.Size)
		}
		// room at the end, that nobody may write to.
		room := 0
		if g.Chance(3) {
			room = 1 + g.N(3)
		}
		s := reflect.MakeSlice(t, n+room, n+room)
		for i := 0; i < n+room; i++ {
			if i > 0 && g.Chance(6) {
				s.Index(i).Set(s.Index(g.N(i)))
				continue
			}
			s.Index(i).Set(g.Value(t.Elem(), hint, depth+1))
		}
		return s.Slice(0, n)
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		for i := g.N(3); i > 0; i-- {
			k := g.Value(t.Key(), Pick(g, "param", "feature"), depth+1)
			if t.Key().Kind() == reflect.String && g.Chance(2) {
				k.SetString(Pick(g, "q", "level", "charset", "v"))
			}
			e := g.Value(t.Elem(), Pick(g, "value", "number"), depth+1)
			if t.Elem().Kind() == reflect.String {
				e.SetString(Pick(g, "1", "2", "utf-8", "0.3", "x"))
			}
			v.SetMapIndex(k, e)
		}
	case reflect.Pointer:
		if depth > 4 || g.Chance(15) && hint != "notnil" {
			return v
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(g.Value(t.Elem(), hint, depth+1))
		v.Set(p)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := v.Field(i)
			x := g.Value(f.Type(), hint, depth+1)
			reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(x)
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(g.Value(t.Elem(), hint, depth+1))
		}
	case reflect.Interface:
		if repT.Implements(t) && t.NumMethod() > 0 {
			if g.Chance(30) {
				return v
			}
			v.Set(reflect.ValueOf(g.Rep()))
		}
	case reflect.Func:
		if t.NumOut() > 0 {
			v.Set(g.function(t))
		}
	}
	return v
}

// function is a function of the identity of its arguments.
func (g *Gen) function(t reflect.Type) reflect.Value {
	memo := map[string][]reflect.Value{}
	seed := g.R.Int63()
	return reflect.MakeFunc(t, func(args []reflect.Value) []reflect.Value {
		var b strings.Builder
		for _, a := range args {
			b.WriteString(identity(a))
		}
		if r, ok := memo[b.String()]; ok {
			return r
		}
		h := fnv.New64()
		h.Write([]byte(b.String()))
		sub := &Gen{R: rand.New(rand.NewSource(seed ^ int64(h.Sum64()))), Size: g.Size}
		var out []reflect.Value
		for i := 0; i < t.NumOut(); i++ {
			out = append(out, sub.Value(t.Out(i), "", 1))
		}
		memo[b.String()] = out
		return out
	})
}

func identity(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Slice:
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += identity(v.Index(i)) + ","
		}
		return s + "]"
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return identity(v.Elem())
	case reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		if r, ok := v.Interface().(*Rep); ok {
			return fmt.Sprint("rep", r.ID)
		}
		return fmt.Sprintf("%p", v.Interface())
	}
	if v.CanInterface() {
		return fmt.Sprintf("%#v", v.Interface())
	}
	return v.String()
}

func nan() float64      { return inf(1) - inf(1) }
func inf(s int) float64 { x := 1e308; return x * 10 * float64(s) }

// ---------------------------------------------------------------- what is shared

type piece struct {
	path string
	base uintptr
	text string
}

// snapshot spells out everything that can be reached.
func snapshot(name string, v reflect.Value) []piece {
	var out []piece
	seen := map[uintptr]bool{}
	var walk func(path string, v reflect.Value, d int)
	leaf := func(path, s string) { out = append(out, piece{path, 0, s}) }
	walk = func(path string, v reflect.Value, d int) {
		if d > 14 || !v.IsValid() {
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				leaf(path, "nil")
				return
			}
			if opaque(v.Type()) || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			walk("*"+path, v.Elem(), d+1)
		case reflect.Interface:
			if v.IsNil() {
				leaf(path, "nil")
				return
			}
			leaf(path, v.Elem().Type().String())
			walk(path, v.Elem(), d+1)
		case reflect.Struct:
			if opaque(v.Type()) {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				walk(path+"."+v.Type().Field(i).Name, v.Field(i), d+1)
			}
		case reflect.Slice:
			leaf(path, fmt.Sprint(v.Pointer(), v.Len(), v.Cap()))
			if v.Cap() > 0 {
				full := v.Slice3(0, v.Cap(), v.Cap())
				for i := 0; i < full.Len(); i++ {
					n := len(out)
					walk(fmt.Sprintf("%s[%d]", path, i), full.Index(i), d+1)
					if i < v.Len() {
						for k := n; k < len(out); k++ {
							if out[k].base == 0 {
								out[k].base = v.Pointer()
							}
						}
					}
				}
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(fmt.Sprintf("%s[%d]", path, i), v.Index(i), d+1)
			}
		case reflect.Map:
			var ks []string
			m := map[string]reflect.Value{}
			for _, k := range v.MapKeys() {
				s := fmt.Sprint(k)
				ks = append(ks, s)
				m[s] = v.MapIndex(k)
			}
			sort.Strings(ks)
			leaf(path, fmt.Sprint("map", v.IsNil(), len(ks)))
			for _, k := range ks {
				leaf(path, k)
				walk(path+"["+k+"]", m[k], d+1)
			}
		case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		default:
			leaf(path, fmt.Sprint(v))
		}
	}
	walk(name, v, 0)
	return out
}

func opaque(t reflect.Type) bool {
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	p := t.PkgPath()
	return strings.HasPrefix(p, "github.com/uber") || strings.HasPrefix(p, "go.uber.org") || t == reflect.TypeOf(Recorder{}) || p == "regexp" || p == "reflect" || p == "sync" || strings.HasPrefix(p, "golang.org/x/text")
}

// ---------------------------------------------------------------- the driver

// Case is a contract that can be run.
type Case struct {
	Name  string
	Fn    any
	Hints []string
	Frame bool
	Runs  int // relative
}

// Failure is a run that failed.
type Failure struct {
	Contract string   `json:"contract"`
	Clause   string   `json:"clause"`
	Kind     string   `json:"kind"`
	Seed     int64    `json:"seed"`
	Iter     int      `json:"iter"`
	Args     []string `json:"args"`
	Detail   string   `json:"detail,omitempty"`
}

// Stats are the runs of a contract.
type Stats struct {
	Contract string         `json:"contract"`
	Runs     int            `json:"runs"`
	Skipped  int            `json:"skipped"`
	Clauses  map[string]int `json:"clauses"`
	Sample   []string       `json:"sample"`
}

// Report is what a test run gives.
type Report struct {
	Failures []Failure `json:"failures"`
	Stats    []Stats   `json:"stats"`
}

func env(k string, d int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return d
}

func show(v reflect.Value, d int) string {
	s := ""
	switch v.Kind() {
	case reflect.Slice:
		var xs []string
		for i := 0; i < v.Len() && i < 20; i++ {
			xs = append(xs, show(v.Index(i), d+1))
		}
		s = v.Type().String() + "{" + strings.Join(xs, ", ") + "}"
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		if opaque(v.Type()) || v.Kind() == reflect.Pointer && opaque(v.Type().Elem()) {
			return v.Type().String()
		}
		if d > 6 {
			return "..."
		}
		s = show(v.Elem(), d+1)
		if v.Kind() == reflect.Pointer {
			s = "&" + s
		}
	case reflect.Struct:
		if opaque(v.Type()) {
			return v.Type().String()
		}
		if v.Type() == reflect.TypeOf(http.Request{}) {
			r := v.Addr().Interface().(*http.Request)
			return fmt.Sprintf("request %s %#v", r.URL, r.Header)
		}
		if v.Type() == reflect.TypeOf(url.URL{}) && v.CanInterface() {
			u := v.Interface().(url.URL)
			return fmt.Sprintf("%q", u.String())
		}
		var xs []string
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Kind() == reflect.Func {
				continue
			}
			xs = append(xs, v.Type().Field(i).Name+":"+show(v.Field(i), d+1))
		}
		s = v.Type().String() + "{" + strings.Join(xs, " ") + "}"
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Func, reflect.Chan:
		return v.Type().String()
	case reflect.Map:
		var xs []string
		for _, k := range v.MapKeys() {
			xs = append(xs, show(k, d+1)+":"+show(v.MapIndex(k), d+1))
		}
		sort.Strings(xs)
		return "map{" + strings.Join(xs, " ") + "}"
	default:
		s = fmt.Sprint(v)
	}
	return s
}

// runOnce runs a contract once.
func runOnce(c Case, globals []any, seed int64, iter int, st *Stats) []Failure {
	h := fnv.New64()
	fmt.Fprintf(h, "%s/%d/%d", c.Name, seed, iter)
	g := &Gen{R: rand.New(rand.NewSource(int64(h.Sum64()))), Size: 2 + iter%9}
	repIDs = 0
	f := reflect.ValueOf(c.Fn)
	var args []reflect.Value
	for i := 0; i < f.Type().NumIn(); i++ {
		hint := ""
		if i < len(c.Hints) {
			hint = c.Hints[i]
		}
		args = append(args, g.Value(f.Type().In(i), hint, 0))
	}
	var before []piece
	if c.Frame {
		for i, a := range args {
			before = append(before, snapshot(fmt.Sprintf("argument %d", i), a)...)
		}
		for i, x := range globals {
			before = append(before, snapshot(fmt.Sprintf("package variable %d", i), reflect.ValueOf(x))...)
		}
	}
	// what quantifiers over strings range over.
	Strings = dictionary
	for i, a := range args {
		for _, p := range snapshot(fmt.Sprint(i), a) {
			if len(p.text) < 80 {
				Strings = append(Strings[:len(Strings):len(Strings)], p.text, strings.ToLower(p.text))
			}
		}
	}
	var shown []string
	for _, a := range args {
		shown = append(shown, show(a, 0))
	}
	Failures = nil
	modified = map[uintptr]bool{}
	watch(Failure{Contract: c.Name, Clause: "the call does not return", Kind: "hang", Seed: seed, Iter: iter, Args: shown})
	reached := Reached
	Reached = map[string]int{}
	defer func() { Reached = reached }()
	skip := false
	var fails []Failure
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			if _, ok := r.(Skip); ok {
				skip = true
				return
			}
			fails = append(fails, Failure{Contract: c.Name, Clause: fmt.Sprint("panic: ", r), Kind: "panic", Detail: string(debug.Stack())})
		}()
		if f.Type().IsVariadic() {
			f.CallSlice(args)
		} else {
			f.Call(args)
		}
	}()
	for _, n := range Failures {
		fails = append(fails, Failure{Contract: c.Name, Clause: n, Kind: "clause"})
	}
	if skip {
		st.Skipped++
	} else {
		st.Runs++
		if st.Runs%50 == 7 && len(st.Sample) < 2 {
			st.Sample = shown
		}
	}
	for k, n := range Reached {
		st.Clauses[k] += n
	}
	if c.Frame && len(fails) == 0 {
		var after []piece
		for i, a := range args {
			after = append(after, snapshot(fmt.Sprintf("argument %d", i), a)...)
		}
		for i, x := range globals {
			after = append(after, snapshot(fmt.Sprintf("package variable %d", i), reflect.ValueOf(x))...)
		}
		var keepB, keepA []piece
		for _, p := range before {
			if !modified[p.base] {
				keepB = append(keepB, p)
			}
		}
		for _, p := range after {
			if !modified[p.base] {
				keepA = append(keepA, p)
			}
		}
		for i := range keepB {
			if i >= len(keepA) || keepA[i].text != keepB[i].text {
				got := "nothing"
				if i < len(keepA) {
					got = keepA[i].text
				}
				fails = append(fails, Failure{Contract: c.Name, Clause: "C25 nothing that the caller owns is written to: " + keepB[i].path, Kind: "frame", Detail: keepB[i].text + " became " + got})
				break
			}
		}
	}
	for i := range fails {
		fails[i].Seed, fails[i].Iter, fails[i].Args = seed, iter, shown
	}
	return fails
}

var dictionary []string
var watched *Failure
var watchedAt time.Time
var watchMu sync.Mutex

func watch(f Failure) {
	watchMu.Lock()
	watched, watchedAt = &f, time.Now()
	watchMu.Unlock()
}

// Drive runs contracts as the environment says, and writes a report.
func Drive(cases []Case) {
	seed, runs := env("VERIF_SEED", 1), int(env("VERIF_RUNS", 2000))
	only, iter := os.Getenv("VERIF_ONLY"), env("VERIF_ITER", -1)
	deadline := time.Now().Add(time.Duration(env("VERIF_SECS", 60)) * time.Second)
	dictionary = append([]string{"q", "level", "charset", "v", "a", "b", "tables", "1", "2", "10", "x", "utf-8"}, garbage...)
	var rep Report
	go func() {
		for {
			time.Sleep(time.Second)
			watchMu.Lock()
			if watched != nil && time.Since(watchedAt) > 40*time.Second {
				b, _ := json.Marshal(Report{Failures: append(rep.Failures, *watched), Stats: rep.Stats})
				os.WriteFile(os.Getenv("VERIF_OUT"), b, 0o644)
				os.Exit(1)
			}
			watchMu.Unlock()
		}
	}()
	for ci, c := range cases {
		if only != "" && !strings.Contains(" "+only+" ", " "+c.Name+" ") {
			continue
		}
		end := time.Now().Add(time.Until(deadline) / time.Duration(len(cases)-ci))
		st := Stats{Contract: c.Name, Clauses: map[string]int{}}
		seen := map[string]bool{}
		if iter >= 0 {
			rep.Failures = append(rep.Failures, runOnce(c, globals, seed, int(iter), &st)...)
		} else {
			for i := 0; i < runs && (i < 20 || time.Now().Before(end)); i++ {
				for _, f := range runOnce(c, globals, seed, i, &st) {
					k := f.Kind + f.Clause
					if f.Kind == "panic" {
						k = f.Kind
					}
					if !seen[k] {
						seen[k] = true
						rep.Failures = append(rep.Failures, f)
					}
				}
			}
		}
		rep.Stats = append(rep.Stats, st)
	}
	watchMu.Lock()
	watched = nil
	watchMu.Unlock()
	b, _ := json.Marshal(rep)
	if p := os.Getenv("VERIF_OUT"); p != "" {
		os.WriteFile(p, b, 0o644)
	} else {
		fmt.Println(string(b))
	}
}
