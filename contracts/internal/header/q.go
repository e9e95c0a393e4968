package header

import "github.com/freerware/negotiator/internal/vspec"

//verif:theorem
func verif_NewQualityValue(f float32) {
	q, err := NewQualityValue(f)
	vspec.Assert("C15 valid quality values are from 0 to 1", (err == nil) == (f >= 0 && f <= 1))
	vspec.Assert("C15 value is kept", err != nil || float32(q) == f)
}
