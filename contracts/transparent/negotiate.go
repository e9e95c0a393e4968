package transparent

import (
	"fmt"
	"net/url"
	"strconv"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/internal/header"
	"github.com/freerware/negotiator/internal/vspec"
	"github.com/freerware/negotiator/representation"
)

func verif_with(o Options) Option { return func(x *Options) { *x = o } }

// verif_describes tells whether the response states the length and metadata of
// a representation, other than its location.
func verif_describes(ctx negotiator.NegotiationContext, rep representation.Representation, b []byte) bool {
	w := ctx.ResponseWriter
	return vspec.HeaderIs(w, "Content-Length", strconv.Itoa(len(b))) &&
		vspec.HeaderIs(w, "Content-Type", rep.ContentType()) &&
		vspec.HeaderIs(w, "Content-Encoding", strings.Join(rep.ContentEncoding(), ",")) &&
		vspec.HeaderIs(w, "Content-Language", rep.ContentLanguage()) &&
		vspec.HeaderIs(w, "Content-Charset", rep.ContentCharset())
}

// verif_place is where a resource is: its location up to the last slash of the
// path, in a normal form.
func verif_place(u url.URL) string {
	if i := strings.LastIndex(u.Path, "/"); i != -1 {
		u.Path = u.Path[:i]
	}
	u.Host = strings.ToLower(u.Host)
	if u.Path == "" {
		u.Path = "/"
	}
	if u.Port() == "" {
		u.Host = fmt.Sprintf("%s:%d", u.Hostname(), 80)
	}
	u.Scheme = strings.ToLower(u.Scheme)
	return (&u).String()
}

//verif:theorem
func verif_Negotiate_NoContent(o Options, ctx negotiator.NegotiationContext) {
	w, s := ctx.ResponseWriter, o.Scope
	vspec.Assume(o.Logger != nil && s != nil && w != nil && ctx.Request != nil && o.MaximumVariantListSize >= 0)
	vspec.Assume(vspec.Fresh(w) && vspec.Uncounted(s))

	err := New(verif_with(o)).Negotiate(ctx)

	vspec.Assert("C03 no representations is no content", err == nil && vspec.Status(w) == 204 && vspec.StatusWrites(w) == 1)
	vspec.Assert("C03 no representations has no header and no body", vspec.Writes(w) == 0 && vspec.HeaderTotal(w) == 0)
	vspec.Assert("C24 no content is not a failure", vspec.Count(s, "negotiate.error") == 0)
}

//verif:theorem
func verif_Negotiate(o Options, ctx negotiator.NegotiationContext, reps []representation.Representation) {
	w, s := ctx.ResponseWriter, o.Scope
	vspec.Assume(o.Logger != nil && s != nil && w != nil && ctx.Request != nil && ctx.Request.URL != nil && o.Chooser != nil)
	vspec.Assume(vspec.Fresh(w) && vspec.Uncounted(s))
	vspec.Assume(len(reps) > 0 && vspec.Forall(len(reps), func(i int) bool { return reps[i] != nil }))
	vspec.Assume(o.ListRepresentationConstructor != nil && o.ListRepresentationConstructor(reps...) != nil)
	directives, derr := header.NewNegotiate(ctx.Request.Header["Negotiate"])
	chosen, cerr := o.Chooser.Choose(ctx.Request, reps...)
	list := o.ListRepresentationConstructor(reps...)
	lb, lerr := list.Bytes()
	alternates, aerr := header.NewAlternates(nil, reps...)

	err := New(verif_with(o)).Negotiate(ctx, reps...)

	vspec.Assert("C24 failure is counted once", err == nil || vspec.Count(s, "negotiate.error") == 1)
	vspec.Assert("C24 success is not counted as a failure", err != nil || vspec.Count(s, "negotiate.error") == 0)
	failed := err != nil && !vspec.Started(w) && vspec.HeaderPending(w) == 0
	if len(reps) > o.MaximumVariantListSize {
		vspec.Assert("C12 more variants than the maximum are refused", err == ErrVariantListSizeExceeded)
		vspec.Assert("C12 C02 failure writes nothing", failed)
		return
	}
	if derr != nil {
		vspec.Assert("C02 malformed header field is an error", failed)
		return
	}
	_, nerr := strconv.ParseFloat("1.0", 32)
	vspec.Assert("1.0 is a version", nerr == nil)
	star, guess, rvsa := verif_contains(directives, "*"), verif_contains(directives, "guess-small"), verif_contains(directives, "1.0")
	asked := star || guess || rvsa
	if asked && cerr != nil {
		vspec.Assert("C02 error of the algorithm is returned", failed && err == cerr)
		return
	}
	may := asked && chosen != nil
	if may && guess {
		cb, berr := chosen.Bytes()
		if lerr != nil || berr != nil {
			vspec.Assert("C02 representation that cannot be serialized is an error", failed)
			return
		}
		may = len(cb) < len(lb) || float64(len(cb)-len(lb)) <= float64(o.GuessSmallThreshold)
	}
	if may {
		may = verif_place(chosen.ContentLocation()) == verif_place(*ctx.Request.URL)
	}
	if aerr != nil {
		vspec.Assert("C02 variant that cannot be serialized is an error", failed)
		return
	}
	if !may {
		if lerr != nil {
			vspec.Assert("C02 list that cannot be serialized is an error", failed && err == lerr)
			return
		}
		vspec.Assert("C10 list response unless the server may choose", vspec.Status(w) == 300 && vspec.HeaderIs(w, "TCN", "list"))
		vspec.Assert("C11 status of a list response is 300, written once", vspec.Status(w) == 300 && vspec.StatusWrites(w) == 1)
		vspec.Assert("C11 body of a list response is the list", vspec.BodyIs(w, lb))
		vspec.Assert("C11 list response describes the list", vspec.HeaderIs(w, "TCN", "list") && verif_describes(ctx, list, lb))
		withFallback, _ := header.NewAlternates(reps[0], reps...)
		vspec.Assert("C11 list response has the alternates", vspec.HeaderIs(w, "Alternates", withFallback.ValuesAsString()))
		vspec.Assert("C02 error of writing the body is returned", err == vspec.WriteError(w, lb))
		return
	}
	cb, berr := chosen.Bytes()
	if berr != nil {
		vspec.Assert("C02 representation that cannot be serialized is an error", failed)
		return
	}
	loc := chosen.ContentLocation()
	vspec.Assert("C10 choice response when the server may choose", vspec.Status(w) == 200 && vspec.HeaderIs(w, "TCN", "choice"))
	vspec.Assert("C11 status of a choice response is 200, written once", vspec.Status(w) == 200 && vspec.StatusWrites(w) == 1)
	vspec.Assert("C11 body of a choice response is the variant", vspec.BodyIs(w, cb))
	vspec.Assert("C11 choice response describes the variant", vspec.HeaderIs(w, "TCN", "choice") && verif_describes(ctx, chosen, cb))
	vspec.Assert("C11 choice response locates the variant", vspec.HeaderIs(w, "Content-Location", (&loc).String()))
	vspec.Assert("C11 choice response has the alternates", vspec.HeaderIs(w, "Alternates", alternates.ValuesAsString()))
	vspec.Assert("C02 error of writing the body is returned", err == vspec.WriteError(w, cb))
}

// verif_contains tells whether a directive was sent, whatever its case.
func verif_contains(n header.Negotiate, d string) bool {
	return vspec.Exists(len(n), func(i int) bool { return strings.EqualFold(n[i].String(), d) })
}
