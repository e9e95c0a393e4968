package header

import (
	"strings"

	"github.com/freerware/negotiator/internal/vspec"
	"github.com/freerware/negotiator/representation"
)

//verif:contract NewAlternates modular pure
func verif_NewAlternates(fb representation.Representation, reps []representation.Representation) {
	vspec.Requires(vspec.Forall(len(reps), func(i int) bool { return reps[i] != nil }))
	a, err := NewAlternates(fb, reps...)
	vspec.Ensures("C11 C02 variant that cannot be serialized is an error", (err == nil) == vspec.Forall(len(reps), func(i int) bool {
		_, e := reps[i].Bytes()
		return e == nil
	}))
	vspec.Ensures("C11 every variant is described once", err != nil || len(a.descriptions) == len(reps))
	vspec.Ensures("C11 descriptions have the location and source quality of their variants, in order", err != nil || vspec.Forall(len(reps), func(i int) bool {
		q := reps[i].SourceQuality()
		return a.descriptions[i].uri == reps[i].ContentLocation() && (a.descriptions[i].sourceQuality == q || q != q)
	}))
	vspec.Ensures("C11 descriptions have the attributes of their variants", err != nil || vspec.Forall(len(reps), func(i int) bool {
		b, _ := reps[i].Bytes()
		at := a.descriptions[i].attributes
		return len(at) == 5 && at["type"] == reps[i].ContentType() && at["charset"] == reps[i].ContentCharset() &&
			at["language"] == reps[i].ContentLanguage() && at["features"] == strings.Join(reps[i].ContentFeatures(), " ") && at["length"] == len(b)
	}))
	vspec.Ensures("C11 fallback is what is given", err != nil || a.HasFallback() == (fb != nil))
}

//verif:contract Alternates.ValuesAsString modular pure
func verif_Alternates_ValuesAsString(a Alternates) {
	a.ValuesAsString()
}
