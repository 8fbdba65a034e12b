package dig

import (
	"testing"

	vfAws "github.com/mrasu/GravityR/infra/aws"
	"github.com/mrasu/GravityR/verifkit"
)

func TestVerif(t *testing.T) {
	verifkit.Main(t, &verifkit.Host{
		Name: "pi",
		PI: func(start, output string, rds *vfAws.Rds, pi *vfAws.PerformanceInsights) error {
			vfR := piRunner{start: start}
			return vfR.dig(output, rds, pi)
		},
	})
}
