package header

import (
	"strings"

	"github.com/freerware/negotiator/internal/vspec"
)

//verif:theorem
func verif_CharsetRange_Compatible(r CharsetRange, charset string) {
	vspec.Assert("C17 charset range matches by name or wildcard", r.Compatible(charset) == (r.Charset() == "*" || strings.EqualFold(r.Charset(), charset)))
	vspec.Assert("C17 charset range matches by name or wildcard", r.IsWildcard() == (r.Charset() == "*") && r.IsCharset() == (r.Charset() != "*"))
}

//verif:contract NewCharsetRange modular pure
func verif_NewCharsetRange(s string) {
	r, err := NewCharsetRange(s)
	vspec.Ensures("C15 C16 charset range has a valid weight", err != nil || r.QualityValue() >= 0 && r.QualityValue() <= 1)
}

//verif:theorem inline:NewCharsetRange
func verif_NewCharsetRange_Name(s string) {
	r, err := NewCharsetRange(s)
	groups := charsetRangeRegex.FindStringSubmatch(s)
	vspec.Assert("C16 malformed charset range is an error", err != nil || len(groups) == 5)
	vspec.Assert("C16 charset range has the name that is written", err != nil || len(groups) == 5 && r.Charset() == strings.ToLower(groups[1]))
	vspec.Assert("C16 weight defaults to 1", err != nil || len(groups) != 5 || len(groups[2]) != 0 || len(groups[3]) != 0 || r.QualityValue() == 1)
}

//verif:contract NewAcceptCharset modular pure
func verif_NewAcceptCharset(values []string) {
	a, err := NewAcceptCharset(values)
	es := elements(values)
	vspec.Ensures("C16 malformed element is an error", (err == nil) == vspec.Forall(len(es), func(i int) bool {
		_, e := NewCharsetRange(es[i])
		return e == nil
	}))
	vspec.Ensures("C16 error gives nothing", err == nil || len(a) == 0)
	vspec.Ensures("C16 every element is kept, in order", err != nil || len(a) == len(es))
	vspec.Ensures("C16 every element is kept, in order", err != nil || vspec.Forall(len(es), func(i int) bool {
		r, _ := NewCharsetRange(es[i])
		return a[i] == r
	}))
	vspec.Ensures("C15 C16 weights are valid", err != nil || vspec.Forall(len(a), func(i int) bool {
		return a[i].QualityValue() >= 0 && a[i].QualityValue() <= 1
	}))
}

//verif:theorem
func verif_AcceptCharset_CharsetRanges(a AcceptCharset) {
	vspec.Modifies(a)
	before := vspec.Clone(a)
	vspec.Assume(vspec.Forall(len(a), func(i int) bool { return a[i].QualityValue() >= 0 && a[i].QualityValue() <= 1 }))
	r := a.CharsetRanges()
	vspec.Assert("C18 charset ranges are those of the header", vspec.Permutation(r, before))
	vspec.Assert("C18 charset ranges are ordered", vspec.Forall(len(r), func(i int) bool {
		return vspec.Forall(len(r), func(j int) bool {
			return i >= j || !r[j].QualityValue().GreaterThan(r[i].QualityValue())
		})
	}))
}

//verif:contract AcceptCharset.Compatible modular pure unordered
func verif_AcceptCharset_Compatible(a AcceptCharset, charset string) {
	vspec.Modifies(a)
	before := vspec.Clone(a)
	ok, err := a.Compatible(charset)
	vspec.Ensures("C17 compatible if a range is", ok == vspec.Exists(len(before), func(i int) bool { return before[i].Compatible(charset) }))
	vspec.Ensures("C17 matching a charset never fails", err == nil)
}
