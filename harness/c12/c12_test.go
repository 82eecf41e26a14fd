package c12

import (
	"testing"

	"github.com/clipperhouse/jargon/filters/stackoverflow"
	"verif/harness/dict"
	"verif/harness/gen"
	"verif/harness/model"
)

func Test(t *testing.T) {
	dict.Run(t, "C12", stackoverflow.Tags, model.Tags, gen.SOKeys)
}
