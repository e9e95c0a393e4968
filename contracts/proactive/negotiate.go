package proactive

import (
	"net/http"
	"strconv"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/internal/header"
	"github.com/freerware/negotiator/internal/vspec"
	"github.com/freerware/negotiator/representation"
	"github.com/uber-go/tally"
)

func verif_outcomes(s tally.Scope) int {
	return vspec.Count(s, "negotiate.no_content") + vspec.Count(s, "negotiate.acceptable") + vspec.Count(s, "negotiate.not_acceptable")
}

func verif_with(o Options) Option { return func(x *Options) { *x = o } }

// verif_describes tells whether the response describes a representation, other
// than its location.
func verif_describes(w http.ResponseWriter, rep representation.Representation, b []byte) bool {
	return vspec.HeaderIs(w, "Content-Length", strconv.Itoa(len(b))) &&
		vspec.HeaderIs(w, "Content-Type", rep.ContentType()) &&
		vspec.HeaderIs(w, "Content-Encoding", strings.Join(rep.ContentEncoding(), ",")) &&
		vspec.HeaderIs(w, "Content-Language", rep.ContentLanguage()) &&
		vspec.HeaderIs(w, "Content-Charset", rep.ContentCharset())
}

// verif_lists tells whether the lists can be constructed.
func verif_lists(o Options, reps []representation.Representation) bool {
	return o.DefaultRepresentationConstructor != nil && o.DefaultRepresentationConstructor(reps...) != nil &&
		vspec.Forall(len(o.RepresentationConstructors), func(i int) bool {
			return o.RepresentationConstructors[i] != nil && o.RepresentationConstructors[i](reps...) != nil
		})
}

// verif_406 tells whether a response says that nothing is acceptable.
func verif_406(w http.ResponseWriter, err error) bool {
	return err != nil || vspec.Status(w) == 406 && vspec.StatusWrites(w) == 1
}

//verif:theorem
func verif_Negotiate_NoContent(o Options, ctx negotiator.NegotiationContext) {
	w, s := ctx.ResponseWriter, o.Scope
	vspec.Assume(o.Logger != nil && s != nil && w != nil && ctx.Request != nil)
	vspec.Assume(vspec.Fresh(w) && vspec.Uncounted(s))

	err := New(verif_with(o)).Negotiate(ctx)

	vspec.Assert("C03 no representations is no content", err == nil && vspec.Status(w) == 204 && vspec.StatusWrites(w) == 1)
	vspec.Assert("C03 no representations has no header and no body", vspec.Writes(w) == 0 && vspec.HeaderTotal(w) == 0)
	vspec.Assert("C24 no content is counted once", vspec.Count(s, "negotiate.no_content") == 1 && verif_outcomes(s) == 1 && vspec.Count(s, "negotiate.error") == 0)
}

// verif_malformed tells whether a request or a representation is malformed.
func verif_malformed(req *http.Request, reps []representation.Representation) bool {
	accept := header.DefaultAccept
	var err error
	if v, ok := req.Header["Accept"]; ok {
		if accept, err = header.NewAccept(v); err != nil {
			return true
		}
	}
	if v, ok := req.Header["Accept-Language"]; ok {
		if _, err = header.NewAcceptLanguage(v); err != nil {
			return true
		}
	}
	if v, ok := req.Header["Accept-Charset"]; ok {
		if _, err = header.NewAcceptCharset(v); err != nil {
			return true
		}
	}
	return vspec.Exists(len(reps), func(i int) bool {
		_, e := accept.Compatible(reps[i].ContentType())
		return e != nil
	})
}

//verif:theorem
func verif_Negotiate_Malformed(o Options, ctx negotiator.NegotiationContext, reps []representation.Representation) {
	w, s := ctx.ResponseWriter, o.Scope
	vspec.Assume(o.Logger != nil && s != nil && w != nil && ctx.Request != nil && o.Chooser != nil)
	vspec.Assume(vspec.Fresh(w) && vspec.Uncounted(s))
	vspec.Assume(len(reps) > 0 && vspec.Forall(len(reps), func(i int) bool { return reps[i] != nil }))
	vspec.Assume(verif_lists(o, reps))
	vspec.Assume(verif_malformed(ctx.Request, reps))

	err := New(verif_with(o)).Negotiate(ctx, reps...)

	vspec.Assert("C02 malformed header field is an error", err != nil)
	vspec.Assert("C02 failure writes nothing", !vspec.Started(w) && vspec.HeaderPending(w) == 0)
	vspec.Assert("C24 failure is counted once", vspec.Count(s, "negotiate.error") == 1 && verif_outcomes(s) == 0)
}

// verif_refused assumes that nothing is malformed, and tells whether none of
// the representations is of an acceptable media type, language and charset.
func verif_refused(req *http.Request, reps []representation.Representation) (noType, noLanguage, noCharset bool) {
	accept, acceptLanguage, acceptCharset := header.DefaultAccept, header.DefaultAcceptLanguage, header.DefaultAcceptCharset
	var err error
	if v, ok := req.Header["Accept"]; ok {
		accept, err = header.NewAccept(v)
		vspec.Assume(err == nil)
	}
	if v, ok := req.Header["Accept-Language"]; ok {
		acceptLanguage, err = header.NewAcceptLanguage(v)
		vspec.Assume(err == nil)
	}
	if v, ok := req.Header["Accept-Charset"]; ok {
		acceptCharset, err = header.NewAcceptCharset(v)
		vspec.Assume(err == nil)
	}
	vspec.Assume(vspec.Forall(len(reps), func(i int) bool {
		_, e := accept.Compatible(reps[i].ContentType())
		return e == nil
	}))
	noType = vspec.Forall(len(reps), func(i int) bool { c, _ := accept.Compatible(reps[i].ContentType()); return !c })
	noLanguage = vspec.Forall(len(reps), func(i int) bool { c, _ := acceptLanguage.Compatible(reps[i].ContentLanguage()); return !c })
	noCharset = vspec.Forall(len(reps), func(i int) bool { c, _ := acceptCharset.Compatible(reps[i].ContentCharset()); return !c })
	return
}

//verif:theorem
func verif_Negotiate_NotAcceptable(o Options, ctx negotiator.NegotiationContext, reps []representation.Representation) {
	w, s := ctx.ResponseWriter, o.Scope
	vspec.Assume(o.Logger != nil && s != nil && w != nil && ctx.Request != nil && o.Chooser != nil)
	vspec.Assume(vspec.Fresh(w) && vspec.Uncounted(s))
	vspec.Assume(len(reps) > 0 && vspec.Forall(len(reps), func(i int) bool { return reps[i] != nil }))
	vspec.Assume(verif_lists(o, reps))
	noType, noLanguage, noCharset := verif_refused(ctx.Request, reps)
	chosen, cerr := o.Chooser.Choose(ctx.Request, reps...)
	vspec.Assume(o.StrictAccept && noType || o.StrictAcceptLanguage && noLanguage || o.StrictAcceptCharset && noCharset ||
		cerr == nil && chosen == nil)
	var lists []representation.Representation
	for _, c := range o.RepresentationConstructors {
		lists = append(lists, c(reps...))
	}
	list, lerr := o.Chooser.Choose(ctx.Request, lists...)
	if list == nil {
		list = o.DefaultRepresentationConstructor(reps...)
	}
	b, berr := list.Bytes()

	err := New(verif_with(o)).Negotiate(ctx, reps...)

	if !o.NotAcceptableRepresentation {
		vspec.Assert("C04 C05 nothing acceptable is 406", err == nil && verif_406(w, err))
		vspec.Assert("C05 response without a list is empty", vspec.Writes(w) == 0 && vspec.HeaderTotal(w) == 0)
		vspec.Assert("C24 not acceptable is counted once", vspec.Count(s, "negotiate.not_acceptable") == 1 && verif_outcomes(s) == 1)
		return
	}
	if lerr != nil {
		vspec.Assert("C02 error of the algorithm is returned", err == lerr)
		vspec.Assert("C02 failure writes nothing", !vspec.Started(w) && vspec.HeaderPending(w) == 0)
		return
	}
	if berr != nil {
		vspec.Assert("C02 list that cannot be serialized is an error", err == berr)
		vspec.Assert("C02 failure writes nothing", !vspec.Started(w) && vspec.HeaderPending(w) == 0)
		return
	}
	vspec.Assert("C04 C05 nothing acceptable is 406", vspec.Status(w) == 406 && vspec.StatusWrites(w) == 1)
	vspec.Assert("C05 body is the list that the algorithm selects, or the default one", vspec.BodyIs(w, b))
	vspec.Assert("C05 header fields describe the list", verif_describes(w, list, b))
	vspec.Assert("C02 error of writing the body is returned", err == vspec.WriteError(w, b))
	vspec.Assert("C24 not acceptable is counted once", err != nil || vspec.Count(s, "negotiate.not_acceptable") == 1 && verif_outcomes(s) == 1)
}

//verif:theorem
func verif_Negotiate(o Options, ctx negotiator.NegotiationContext, reps []representation.Representation) {
	w, s := ctx.ResponseWriter, o.Scope
	vspec.Assume(o.Logger != nil && s != nil && w != nil && ctx.Request != nil && o.Chooser != nil)
	vspec.Assume(vspec.Fresh(w) && vspec.Uncounted(s))
	vspec.Assume(len(reps) > 0 && vspec.Forall(len(reps), func(i int) bool { return reps[i] != nil }))
	vspec.Assume(verif_lists(o, reps))
	noType, noLanguage, noCharset := verif_refused(ctx.Request, reps)
	chosen, cerr := o.Chooser.Choose(ctx.Request, reps...)

	err := New(verif_with(o)).Negotiate(ctx, reps...)

	vspec.Assert("C24 failure is counted once", err == nil || vspec.Count(s, "negotiate.error") == 1 && verif_outcomes(s) == 0)
	vspec.Assert("C24 success is not counted as a failure", err != nil || vspec.Count(s, "negotiate.error") == 0 && verif_outcomes(s) == 1)
	if o.StrictAccept && noType {
		vspec.Assert("C04 no acceptable media type is refused", verif_406(w, err))
		return
	}
	if o.StrictAcceptLanguage && noLanguage {
		vspec.Assert("C04 no acceptable language is refused", verif_406(w, err))
		return
	}
	if o.StrictAcceptCharset && noCharset {
		vspec.Assert("C04 no acceptable charset is refused", verif_406(w, err))
		return
	}
	if cerr != nil {
		vspec.Assert("C02 error of the algorithm is returned", err == cerr)
		vspec.Assert("C02 failure writes nothing", !vspec.Started(w) && vspec.HeaderPending(w) == 0)
		return
	}
	if chosen == nil {
		vspec.Assert("C05 nothing chosen is not acceptable", verif_406(w, err))
		return
	}
	b, berr := chosen.Bytes()
	if berr != nil {
		vspec.Assert("C02 representation that cannot be serialized is an error", err == berr)
		vspec.Assert("C02 failure writes nothing", !vspec.Started(w) && vspec.HeaderPending(w) == 0)
		return
	}
	vspec.Assert("C01 status is 200, or 201 for a creation, written once", vspec.Status(w) == verif_status(ctx) && vspec.StatusWrites(w) == 1)
	vspec.Assert("C01 body is what the algorithm selected", vspec.BodyIs(w, b))
	vspec.Assert("C01 header fields describe the representation", verif_describes(w, chosen, b))
	loc := chosen.ContentLocation()
	vspec.Assert("C01 header fields locate the representation", vspec.HeaderIs(w, "Content-Location", (&loc).String()))
	vspec.Assert("C02 error of writing the body is returned", err == vspec.WriteError(w, b))
	vspec.Assert("C24 acceptable is counted once", err != nil || vspec.Count(s, "negotiate.acceptable") == 1)
}

func verif_status(ctx negotiator.NegotiationContext) int {
	if ctx.IsCreation {
		return 201
	}
	return 200
}
