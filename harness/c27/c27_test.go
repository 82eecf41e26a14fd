package c27

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/contractions"
	"verif/harness/cli"
	"verif/harness/data"
	"verif/harness/goval"
	"verif/harness/kit"
	"verif/harness/model"
	"verif/harness/rt"
)

// The table that should be generated: each contraction in three cases, with both apostrophes.
func table() map[string]string {
	want := map[string]string{}
	for k, v := range data.Contractions {
		for _, k := range []string{k, strings.ReplaceAll(k, "'", "’")} {
			want[k] = v
			want[strings.ToUpper(k)] = strings.ToUpper(v)
			want[strings.ToUpper(k[:1])+k[1:]] = strings.ToUpper(v[:1]) + v[1:]
		}
	}
	return want
}

type run struct {
	State string
	Limit int `json:",omitempty"` // if positive, bytes that fit on the disk; if negative, it is a directory
	N     int
}

func Test(t *testing.T) {
	rt.Main(t, "C27",
		rt.P[run]{
			Name:       "generate",
			Rule:       "the generator of contractions, several times (its order is random), with no, an old and a longer generated.go, and with disks that become full or a directory in its place: the file is the whole table, or it fails; all are non-trivial",
			Exhaustive: false,
			Enum: func(yield func(run) bool) {
				if !yield(run{State: "none", Limit: -1}) {
					return
				}
				for n := 0; n < rt.Pick(40, 600); n++ {
					for _, s := range goval.States {
						if !yield(run{State: s, N: n}) {
							return
						}
					}
					if !yield(run{State: "none", Limit: 1 + (n*977)%9000, N: n}) {
						return
					}
				}
			},
			Check: func(c run, info *rt.Info) error {
				info.NonTrivial = true
				dir := cli.Scratch()
				goval.Prepare(dir, c.State)
				if c.Limit < 0 {
					goval.Blocked(dir)
				}
				r := cli.Run{Bin: cli.Bin("VP_BIN_GENERATE"), Dir: dir, Limited: c.Limit > 0, Limit: c.Limit}
				result, err := cli.Do(r)
				if err != nil {
					return err
				}
				if c.Limit != 0 {
					info.LabelIf(c.Limit > 0, "disk full")
					return goval.FailedWriting(dir, "contractions", c.Limit < 0, result, table())
				}
				return goval.Succeeded(dir, "contractions", result, table())
			},
		},
		rt.P[string]{
			Name:       "shipped",
			Rule:       "each contraction of the generated table is expanded so by the shipped filter; all are non-trivial; exhaustive",
			Exhaustive: true,
			Enum: func(yield func(string) bool) {
				dir := cli.Scratch()
				result, err := cli.Do(cli.Run{Bin: cli.Bin("VP_BIN_GENERATE"), Dir: dir})
				rt.Must(err)
				if result.Code != 0 {
					return // a violation of generate
				}
				source, err := os.ReadFile(filepath.Join(dir, "generated.go"))
				if err != nil {
					return
				}
				_, got, err := goval.Mappings(source)
				if err != nil {
					return
				}
				var lines []string
				for k, v := range got {
					lines = append(lines, k+"\t"+v)
				}
				for _, l := range sorted(lines) {
					if !yield(l) {
						return
					}
				}
			},
			Check: func(line string, info *rt.Info) error {
				info.NonTrivial = true
				k, v, _ := strings.Cut(line, "\t")
				got, err := kit.Collect(jargon.TokenizeString(k).Filter(contractions.Expand))
				if err != nil {
					return err
				}
				if text := model.Text(got); text != v {
					return fmt.Errorf("%q is generated as %q, but the shipped filter makes it %q", k, v, text)
				}
				return nil
			},
		},
	)
}

func sorted(s []string) []string {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
	return s
}
