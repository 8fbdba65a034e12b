package dig

import (
	"testing"

	vfJaeger "github.com/mrasu/GravityR/infra/jaeger"
	"github.com/mrasu/GravityR/verifkit"
)

func TestVerif(t *testing.T) {
	verifkit.Main(t, &verifkit.Host{
		Name: "jaeger",
		Jaeger: func(o verifkit.JaegerOpts, cli *vfJaeger.Client) error {
			vfR := jaegerRunner{
				serviceName:          o.Service,
				durationMilli:        o.DurationMilli,
				sameServiceThreshold: o.Threshold,
				count:                o.Count,
				start:                o.Start,
				end:                  o.End,
				uiURL:                o.UIURL,
			}
			return vfR.dig(o.Output, cli)
		},
	})
}
