package header

import (
	"strings"

	"github.com/freerware/negotiator/internal/vspec"
	"golang.org/x/text/language"
)

//verif:theorem
func verif_LanguageRange_Compatible(r LanguageRange, tag string) {
	vspec.Assert("C17 wildcard language range matches everything", !r.IsWildcard() || r.Compatible(tag))
	_, err := language.Parse(tag)
	vspec.Assert("C17 language range matches no malformed tag", r.IsWildcard() || err == nil || !r.Compatible(tag))
	vspec.Assert("C17 language range is a wildcard or a tag", r.IsTag() == !r.IsWildcard())
}

//verif:contract NewAcceptLanguage modular pure
//verif:gen values=languagerange
func verif_NewAcceptLanguage(values []string) {
	a, err := NewAcceptLanguage(values)
	es := elements(values)
	vspec.Ensures("C16 malformed element is an error", (err == nil) == vspec.Forall(len(es), func(i int) bool {
		_, e := NewLanguageRange(es[i])
		return e == nil || es[i] == ""
	}))
	vspec.Ensures("C16 error gives nothing", err == nil || len(a) == 0)
	empties := vspec.Exists(len(es), func(i int) bool { return es[i] == "" })
	vspec.Ensures("C16 every element is kept, in order", err != nil || empties || len(a) == len(es))
	vspec.Ensures("C16 every element is kept, in order", err != nil || empties || vspec.Forall(len(es), func(i int) bool {
		r, _ := NewLanguageRange(es[i])
		return a[i] == r
	}))
	vspec.Ensures("C16 every range stems from an element", err != nil || len(a) <= len(es) && vspec.Forall(len(a), func(i int) bool {
		return vspec.Exists(len(es), func(j int) bool {
			r, _ := NewLanguageRange(es[j])
			return es[j] != "" && a[i] == r
		})
	}))
	vspec.Ensures("C16 every element gives a range", err != nil || vspec.Forall(len(es), func(j int) bool {
		return es[j] == "" || vspec.Exists(len(a), func(i int) bool {
			r, _ := NewLanguageRange(es[j])
			return a[i] == r
		})
	}))
	vspec.Ensures("C15 C16 weights are valid", err != nil || vspec.Forall(len(a), func(i int) bool {
		return a[i].QualityValue() >= 0 && a[i].QualityValue() <= 1
	}))
}

//verif:contract NewLanguageRange modular pure
func verif_NewLanguageRange(s string) {
	r, err := NewLanguageRange(s)
	vspec.Ensures("C15 C16 language range has a valid weight", err != nil || r.QualityValue() >= 0 && r.QualityValue() <= 1)
	vspec.Ensures("C16 empty language range is an error", len(s) != 0 || err != nil)
}

//verif:theorem
func verif_AcceptLanguage_LanguageRanges(a AcceptLanguage) {
	vspec.Modifies(a)
	before := vspec.Clone(a)
	vspec.Assume(vspec.Forall(len(a), func(i int) bool { return a[i].QualityValue() >= 0 && a[i].QualityValue() <= 1 }))
	r := a.LanguageRanges()
	vspec.Assert("C18 language ranges are those of the header", vspec.Permutation(r, before))
	vspec.Assert("C18 language ranges are ordered", vspec.Forall(len(r), func(i int) bool {
		return vspec.Forall(len(r), func(j int) bool {
			return i >= j || !r[j].QualityValue().GreaterThan(r[i].QualityValue())
		})
	}))
}

//verif:contract AcceptLanguage.Compatible modular pure unordered
func verif_AcceptLanguage_Compatible(a AcceptLanguage, tag string) {
	vspec.Modifies(a)
	before := vspec.Clone(a)
	ok, err := a.Compatible(tag)
	vspec.Ensures("C17 compatible if a range is", ok == vspec.Exists(len(before), func(i int) bool { return before[i].Compatible(tag) }))
	vspec.Ensures("C17 matching a language never fails", err == nil)
}
