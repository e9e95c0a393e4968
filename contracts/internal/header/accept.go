package header

import (
	"mime"
	"strings"

	"github.com/freerware/negotiator/internal/vspec"
)

// elements splits header fields at the commas that are not quoted. What exactly
// that gives is checked by running it; here it is a function of its argument.
//
//verif:contract elements modular pure
func verif_elements(values []string) {
	r := elements(values)
	vspec.Ensures("C16 no fields have no elements", len(values) != 0 || len(r) == 0)
}

// matchesMedia is what it means for a media type to be within a media range.
func verif_matchesMedia(mr MediaRange, mediaType string, params map[string]string) bool {
	parts := strings.Split(mediaType, "/")
	sub := ""
	if len(parts) > 1 {
		sub = parts[1]
	}
	return (mr.Type() == "*" || strings.EqualFold(mr.Type(), parts[0])) &&
		(mr.SubType() == "*" || strings.EqualFold(mr.SubType(), sub)) &&
		vspec.ForallString(func(k string) bool {
			want, has := mr.Param(k)
			got, ok := params[k]
			return k == "q" || !has || ok && got == want
		})
}

//verif:contract MediaRange.Compatible modular pure
func verif_MediaRange_Compatible(mr MediaRange, ct string) {
	ok, err := mr.Compatible(ct)
	mediaType, params, perr := mime.ParseMediaType(ct)
	vspec.Ensures("C17 media type that cannot be parsed is an error", (err == nil) == (perr == nil))
	vspec.Ensures("C17 media range matches by type, subtype and parameters", err != nil || ok == verif_matchesMedia(mr, mediaType, params))
	vspec.Ensures("C17 error matches nothing", err == nil || !ok)
}

//verif:contract parseMediaRange modular pure
func verif_parseMediaRange(s string) {
	mr, err := parseMediaRange(s)
	q, has := mr.Param("q")
	_ = q
	vspec.Ensures("C16 C15 media range has a valid weight", err != nil || mr.QualityValue() >= 0 && mr.QualityValue() <= 1)
	vspec.Ensures("C16 weight defaults to 1", err != nil || has || mr.QualityValue() == 1)
}

//verif:contract NewAccept modular pure
func verif_NewAccept(values []string) {
	a, err := NewAccept(values)
	es := elements(values)
	vspec.Ensures("C16 malformed element is an error", (err == nil) == vspec.Forall(len(es), func(i int) bool {
		_, e := NewMediaRange(es[i])
		return e == nil
	}))
	vspec.Ensures("C16 error gives nothing", err == nil || len(a) == 0)
	vspec.Ensures("C16 every element is kept, in order", err != nil || len(a) == len(es))
	vspec.Ensures("C16 every element is kept, in order", err != nil || vspec.Forall(len(es), func(i int) bool {
		mr, _ := NewMediaRange(es[i])
		return a[i].Type() == mr.Type() && a[i].SubType() == mr.SubType() && a[i].QualityValue() == mr.QualityValue()
	}))
	vspec.Ensures("C15 C16 weights are valid", err != nil || vspec.Forall(len(a), func(i int) bool {
		return a[i].QualityValue() >= 0 && a[i].QualityValue() <= 1
	}))
}

//verif:theorem
func verif_Accept_MediaRanges(a Accept) {
	vspec.Modifies(a)
	before := vspec.Clone(a)
	vspec.Assume(vspec.Forall(len(a), func(i int) bool { return a[i].QualityValue() >= 0 && a[i].QualityValue() <= 1 }))
	r := a.MediaRanges()
	vspec.Assert("C18 media ranges are those of the header", vspec.Permutation(r, before))
	vspec.Assert("C18 media ranges are ordered", vspec.Forall(len(r), func(i int) bool {
		return vspec.Forall(len(r), func(j int) bool {
			return i >= j || !r[j].QualityValue().GreaterThan(r[i].QualityValue())
		})
	}))
}

//verif:contract Accept.Compatible modular pure unordered
func verif_Accept_Compatible(a Accept, ct string) {
	vspec.Modifies(a)
	before := vspec.Clone(a)
	ok, err := a.Compatible(ct)
	vspec.Ensures("C17 compatible if a range is", err != nil || ok == vspec.Exists(len(before), func(i int) bool {
		m, _ := before[i].Compatible(ct)
		return m
	}))
	_, _, perr := mime.ParseMediaType(ct)
	vspec.Ensures("C17 error only if the media type is malformed", err == nil || perr != nil && len(before) > 0)
}
