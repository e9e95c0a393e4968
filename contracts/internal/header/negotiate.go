package header

import (
	"strconv"
	"strings"

	"github.com/freerware/negotiator/internal/vspec"
)

//verif:contract NewNegotiate modular pure
//verif:gen values=directive
func verif_NewNegotiate(values []string) {
	n, err := NewNegotiate(values)
	es := elements(values)
	vspec.Ensures("C16 empty directive is an error", (err == nil) == vspec.Forall(len(es), func(i int) bool { return es[i] != "" }))
	vspec.Ensures("C16 error gives nothing", err == nil || len(n) == 0)
	vspec.Ensures("C16 every directive is kept, in order", err != nil || len(n) == len(es))
	vspec.Ensures("C16 every directive is kept, in order", err != nil || vspec.Forall(len(es), func(i int) bool { return n[i].String() == es[i] }))
}

//verif:contract Negotiate.Contains modular pure
//verif:gen n=directive directives=directive
func verif_Negotiate_Contains(n Negotiate, directives []NegotiateDirective) {
	ok := n.Contains(directives...)
	vspec.Ensures("C10 contains a directive if it was sent, whatever its case", ok == vspec.Exists(len(directives), func(j int) bool {
		return vspec.Exists(len(n), func(i int) bool { return strings.EqualFold(n[i].String(), directives[j].String()) })
	}))
}

//verif:contract Negotiate.ContainsRVSA modular pure
//verif:gen n=directive version=directive
func verif_Negotiate_ContainsRVSA(n Negotiate, version string) {
	ok := n.ContainsRVSA(version)
	vspec.Ensures("C10 contains a version if it was sent", ok == vspec.Exists(len(n), func(i int) bool {
		_, err := strconv.ParseFloat(n[i].String(), 32)
		return err == nil && strings.EqualFold(n[i].String(), version)
	}))
}
