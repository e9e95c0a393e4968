package transparent

import (
	"net/http"

	"github.com/freerware/negotiator/internal/header"
	"github.com/freerware/negotiator/internal/vspec"
	"github.com/freerware/negotiator/representation"
)

// verifChooser chooses by position.
type verifChooser struct {
	N    int
	None bool
	Err  error
}

func (c verifChooser) Choose(_ *http.Request, reps ...representation.Representation) (representation.Representation, error) {
	if c.Err != nil || c.None || len(reps) == 0 {
		return nil, c.Err
	}
	return reps[c.N%len(reps)], nil
}

func init() {
	vspec.Register(func(g *vspec.Gen) representation.Chooser {
		switch g.N(6) {
		case 0:
			return RVSA1()
		case 1:
			return verifChooser{None: true}
		case 2:
			return verifChooser{Err: vspec.ErrMade}
		}
		return verifChooser{N: g.N(5)}
	})
	vspec.Globals(
		&header.DefaultAccept, &header.DefaultAcceptCharset, &header.DefaultAcceptLanguage,
		&header.DefaultAcceptEncoding, &header.EmptyAccept, header.EmptyAccept, &header.EmptyAcceptCharset, &header.EmptyAcceptEncoding, &header.EmptyAcceptLanguage, &header.EmptyAcceptFeatures,
		&header.EmptyTCN, &header.EmptyNegotiateHeader, &representation.EmptySet,
	)
}
