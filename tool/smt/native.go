package smt

import (
	"fmt"
	"math"
	"strconv"
)

func fpLit(t *Term) string {
	if t.S.Name == "F32" {
		f, _ := strconv.ParseFloat(t.Name, 32)
		if f != f {
			return "(_ NaN 8 24)"
		}
		b := math.Float32bits(float32(f))
		return fmt.Sprintf("(fp #b%01b #b%08b #b%023b)", b>>31, b>>23&0xff, b&0x7fffff)
	}
	f, _ := strconv.ParseFloat(t.Name, 64)
	if f != f {
		return "(_ NaN 11 53)"
	}
	b := math.Float64bits(f)
	return fmt.Sprintf("(fp #b%01b #b%011b #b%052b)", b>>63, b>>52&0x7ff, b&(1<<52-1))
}

func (p *printer) nativeTerm(t *Term, as []string) string {
	switch t.Name {
	case "str.len":
		return "(str.len " + as[0] + ")"
	case "str.concat":
		return "(str.++ " + as[0] + " " + as[1] + ")"
	case "strings.HasPrefix":
		return "(str.prefixof " + as[1] + " " + as[0] + ")"
	case "strings.HasSuffix":
		return "(str.suffixof " + as[1] + " " + as[0] + ")"
	case "strings.Contains":
		return "(str.contains " + as[0] + " " + as[1] + ")"
	case "strings.Index":
		return "(str.indexof " + as[0] + " " + as[1] + " 0)"
	case "strings.ReplaceAll":
		return "(str.replace_all " + as[0] + " " + as[1] + " " + as[2] + ")"
	case "str.lt":
		return "(str.< " + as[0] + " " + as[1] + ")"
	case "str.at":
		return "(str.to_code (str.at " + as[0] + " " + as[1] + "))"
	case "str.slice":
		return "(str.substr " + as[0] + " " + as[1] + " (- " + as[2] + " " + as[1] + "))"
	case "str.inre":
		return "(str.in_re " + as[1] + " " + RegexText(t.Args[0].Name) + ")"
	case "f32.mul", "f64.mul":
		return "(fp.mul RNE " + as[0] + " " + as[1] + ")"
	case "f32.div", "f64.div":
		return "(fp.div RNE " + as[0] + " " + as[1] + ")"
	case "f32.add", "f64.add":
		return "(fp.add RNE " + as[0] + " " + as[1] + ")"
	case "f32.sub", "f64.sub":
		return "(fp.sub RNE " + as[0] + " " + as[1] + ")"
	case "f32.neg", "f64.neg":
		return "(fp.neg " + as[0] + ")"
	case "f32.lt", "f64.lt":
		return "(fp.lt " + as[0] + " " + as[1] + ")"
	case "f32.le", "f64.le":
		return "(fp.leq " + as[0] + " " + as[1] + ")"
	case "f32.eq", "f64.eq":
		return "(fp.eq " + as[0] + " " + as[1] + ")"
	case "f32.isnan", "f64.isnan":
		return "(fp.isNaN " + as[0] + ")"
	case "f32to64":
		return "((_ to_fp 11 53) RNE " + as[0] + ")"
	case "f64to32":
		return "((_ to_fp 8 24) RNE " + as[0] + ")"
	case "math.Round":
		return "(fp.roundToIntegral RNA " + as[0] + ")"
	case "math.Abs":
		return "(fp.abs " + as[0] + ")"
	}
	panic("native " + t.Name)
}

// RegexText gives the SMT regular expression registered under the name.
var RegexText = func(n string) string { panic("no regex " + n) }
