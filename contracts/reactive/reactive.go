package reactive

import (
	"strconv"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/internal/vspec"
	"github.com/freerware/negotiator/representation"
	"github.com/uber-go/tally"
	"go.uber.org/zap"
)

func verif_outcomes(s tally.Scope) int {
	return vspec.Count(s, "negotiate.no_content") + vspec.Count(s, "negotiate.multiple_choices")
}

//verif:theorem
func verif_Negotiate(constructor representation.ListConstructor, l *zap.Logger, s tally.Scope, ctx negotiator.NegotiationContext, reps []representation.Representation) {
	w := ctx.ResponseWriter
	vspec.Assume(constructor != nil && l != nil && s != nil && w != nil && ctx.Request != nil)
	vspec.Assume(vspec.Fresh(w) && vspec.Uncounted(s))
	list := constructor(reps...)
	vspec.Assume(list != nil)
	n := New(Representation(constructor), Logger(l), Scope(s))

	err := n.Negotiate(ctx, reps...)

	if len(reps) == 0 {
		vspec.Assert("C03 no representations is no content", err == nil && vspec.Status(w) == 204 && vspec.StatusWrites(w) == 1)
		vspec.Assert("C03 no representations has no header and no body", vspec.Writes(w) == 0 && vspec.HeaderTotal(w) == 0)
		vspec.Assert("C24 no content is counted once", vspec.Count(s, "negotiate.no_content") == 1 && verif_outcomes(s) == 1 && vspec.Count(s, "negotiate.error") == 0)
		return
	}
	b, lerr := list.Bytes()
	if lerr != nil {
		vspec.Assert("C02 list that cannot be serialized is an error", err == lerr)
		vspec.Assert("C02 failure writes nothing", !vspec.Started(w) && vspec.HeaderPending(w) == 0)
		vspec.Assert("C24 failure is counted once", vspec.Count(s, "negotiate.error") == 1 && verif_outcomes(s) == 0)
		return
	}
	vspec.Assert("C13 status is 300, written once", vspec.Status(w) == 300 && vspec.StatusWrites(w) == 1)
	vspec.Assert("C13 body is the list", vspec.BodyIs(w, b))
	vspec.Assert("C13 header fields describe the list", verif_describes(ctx, list, b))
	vspec.Assert("C02 error of writing the body is returned", err == vspec.WriteError(w, b))
	if err != nil {
		vspec.Assert("C24 failure is counted once", vspec.Count(s, "negotiate.error") == 1 && verif_outcomes(s) == 0)
	} else {
		vspec.Assert("C24 multiple choices is counted once", vspec.Count(s, "negotiate.multiple_choices") == 1 && verif_outcomes(s) == 1 && vspec.Count(s, "negotiate.error") == 0)
	}
}

func verif_describes(ctx negotiator.NegotiationContext, rep representation.Representation, b []byte) bool {
	w := ctx.ResponseWriter
	return vspec.HeaderIs(w, "Content-Length", strconv.Itoa(len(b))) &&
		vspec.HeaderIs(w, "Content-Type", rep.ContentType()) &&
		vspec.HeaderIs(w, "Content-Encoding", strings.Join(rep.ContentEncoding(), ",")) &&
		vspec.HeaderIs(w, "Content-Language", rep.ContentLanguage()) &&
		vspec.HeaderIs(w, "Content-Charset", rep.ContentCharset())
}
