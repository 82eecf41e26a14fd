package c13

import (
	"testing"

	"github.com/clipperhouse/jargon/filters/nba"
	"verif/harness/dict"
	"verif/harness/gen"
	"verif/harness/model"
)

func Test(t *testing.T) {
	dict.Run(t, "C13", nba.CurrentPlayers, model.NBA, gen.NBAKeys)
}
