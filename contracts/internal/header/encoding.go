package header

import (
	"strings"

	"github.com/freerware/negotiator/internal/vspec"
)

// verif_coding tells whether a content coding is known.
func verif_coding(s string) bool {
	return s == "gzip" || s == "x-gzip" || s == "deflate" || s == "compress" || s == "x-compress" || s == "identity" || s == "*"
}

//verif:theorem
func verif_ContentCodingRange_Compatible(r ContentCodingRange, coding string) {
	vspec.Assert("C17 coding range matches by name or wildcard", r.Compatible(coding) == (verif_coding(strings.ToLower(coding)) &&
		(r.CodingRange() == "*" || strings.EqualFold(r.CodingRange(), coding))))
	vspec.Assert("C17 coding range matches by name or wildcard", r.IsWildcard() == (r.CodingRange() == "*"))
}

//verif:contract NewContentCodingRange modular pure
func verif_NewContentCodingRange(s string) {
	r, err := NewContentCodingRange(s)
	vspec.Ensures("C15 C16 coding range has a valid weight", err != nil || r.QualityValue() >= 0 && r.QualityValue() <= 1)
}

//verif:theorem inline:NewContentCodingRange
func verif_NewContentCodingRange_Name(s string) {
	r, err := NewContentCodingRange(s)
	groups := contentCodingRangeRegex.FindStringSubmatch(s)
	vspec.Assert("C16 malformed coding range is an error", err != nil || len(groups) == 5)
	vspec.Assert("C16 coding range has the name that is written", err != nil || len(groups) == 5 && r.CodingRange() == groups[1])
	vspec.Assert("C16 coding range is a known one", err != nil || verif_coding(r.CodingRange()))
	vspec.Assert("C16 weight defaults to 1", err != nil || len(groups) != 5 || len(groups[2]) != 0 || len(groups[3]) != 0 || r.QualityValue() == 1)
}

//verif:contract NewAcceptEncoding modular pure
func verif_NewAcceptEncoding(values []string) {
	a, err := NewAcceptEncoding(values)
	es := elements(values)
	vspec.Ensures("C16 malformed element is an error", (err == nil) == vspec.Forall(len(es), func(i int) bool {
		_, e := NewContentCodingRange(es[i])
		return e == nil
	}))
	vspec.Ensures("C16 error gives nothing", err == nil || len(a) == 0)
	vspec.Ensures("C16 every element is kept, in order", err != nil || len(a) == len(es))
	vspec.Ensures("C16 every element is kept, in order", err != nil || vspec.Forall(len(es), func(i int) bool {
		r, _ := NewContentCodingRange(es[i])
		return a[i] == r
	}))
	vspec.Ensures("C15 C16 weights are valid", err != nil || vspec.Forall(len(a), func(i int) bool {
		return a[i].QualityValue() >= 0 && a[i].QualityValue() <= 1
	}))
}

//verif:theorem
func verif_AcceptEncoding_CodingRanges(a AcceptEncoding) {
	vspec.Modifies(a)
	before := vspec.Clone(a)
	vspec.Assume(vspec.Forall(len(a), func(i int) bool { return a[i].QualityValue() >= 0 && a[i].QualityValue() <= 1 }))
	r := a.CodingRanges()
	vspec.Assert("C18 coding ranges are those of the header", vspec.Permutation(r, before))
	vspec.Assert("C18 coding ranges are ordered", vspec.Forall(len(r), func(i int) bool {
		return vspec.Forall(len(r), func(j int) bool {
			return i >= j || !r[j].QualityValue().GreaterThan(r[i].QualityValue())
		})
	}))
}
