package cli

import (
	"bytes"
	"fmt"
	"strings"

	"pgregory.net/rapid"
	"verif/harness/model"
)

// Flag is an argument of the jargon command.
type Flag struct {
	Name  string
	Form  string // "-%", "--%", "-%=true", …
	Value string `json:",omitempty"` // lang
}

// Filters are the flags that are filters.
var Filters = []string{"stack", "contractions", "ascii", "stem", "lemmas", "distinct"}

// Langs are the languages of -stem.
var Langs = []string{"english", "french", "norwegian", "russian", "spanish", "swedish"}

var onForms = []string{"-%", "-%", "-%", "--%", "-%=true", "--%=true", "-%=1", "-%=T"}
var offForms = []string{"-%=false", "--%=false", "-%=0", "-%=F"}

// On says whether a boolean flag is on.
func (f Flag) On() bool {
	for _, off := range offForms {
		if f.Form == off {
			return false
		}
	}
	return true
}

// Args of the flag.
func (f Flag) Args() []string {
	s := strings.ReplaceAll(f.Form, "%", f.Name)
	if f.Value != "" {
		if strings.HasSuffix(s, "=") {
			return []string{s + f.Value}
		}
		return []string{s, f.Value}
	}
	return []string{s}
}

// Args of all flags.
func Args(flags []Flag) []string {
	var args []string
	for _, f := range flags {
		args = append(args, f.Args()...)
	}
	return args
}

// GenFlags draws a set of flags in some order, each at most once.
func GenFlags(t *rapid.T) []Flag {
	names := append([]string{"html", "count", "lines", "lang"}, Filters...)
	var flags []Flag
	for _, name := range rapid.Permutation(names).Draw(t, "order") {
		k := rapid.IntRange(0, 19).Draw(t, name)
		switch {
		case name == "lang":
			if k < 8 {
				flags = append(flags, Flag{Name: name, Form: rapid.SampledFrom([]string{"-%", "-%=", "--%", "--%="}).Draw(t, "form"), Value: rapid.SampledFrom(Langs).Draw(t, "lang")})
			}
		case name == "count" && k < 3, name == "html" && k < 6, name != "count" && name != "html" && k < 8:
			flags = append(flags, Flag{Name: name, Form: rapid.SampledFrom(onForms).Draw(t, "form")})
		case k == 19:
			flags = append(flags, Flag{Name: name, Form: rapid.SampledFrom(offForms).Draw(t, "form")})
		}
	}
	return flags
}

func Has(flags []Flag, name string) bool {
	for _, f := range flags {
		if f.Name == name {
			return f.On()
		}
	}
	return false
}

// Tokens are what the flags make of the input, by the reference model.
func Tokens(flags []Flag, input string) []model.Tok {
	lang := "english"
	for _, f := range flags {
		if f.Name == "lang" {
			lang = f.Value
		}
	}
	var toks []model.Tok
	if Has(flags, "html") {
		toks = model.TokenizeHTML(input)
	} else {
		toks = model.Tokenize(input)
	}
	for _, f := range flags {
		if !f.On() {
			continue
		}
		switch f.Name {
		case "stack":
			toks = model.Tags.Filter(toks)
		case "contractions":
			toks = model.Contractions(toks)
		case "ascii":
			toks = model.Fold(toks)
		case "stem":
			toks = model.Stem(lang)(toks)
		case "lemmas":
			toks = model.Lemmas(toks)
		case "distinct":
			toks = model.Distinct(toks)
		}
	}
	return toks
}

// Expected is the output, by the reference model.
func Expected(flags []Flag, input string) []byte {
	toks := Tokens(flags, input)
	if Has(flags, "count") {
		return []byte(fmt.Sprintf("%d\n", len(toks)))
	}
	var b bytes.Buffer
	for _, t := range toks {
		b.WriteString(t.S)
		if Has(flags, "lines") {
			b.WriteByte('\n')
		}
	}
	return b.Bytes()
}

// TooLong says whether the input has a token that may be longer than the tokenizer takes.
func TooLong(input string) bool {
	for _, t := range model.Tokenize(input) {
		if len(t.S) > 60000 {
			return true
		}
	}
	return false
}

// Differ compares outputs.
func Differ(got, want []byte) error {
	if bytes.Equal(got, want) {
		return nil
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	cut := func(b []byte) []byte {
		lo, hi := i-40, i+40
		if lo < 0 {
			lo = 0
		}
		if hi > len(b) {
			hi = len(b)
		}
		return b[lo:hi]
	}
	return fmt.Errorf("output differs at byte %d: got …%q… (%d bytes), expected …%q… (%d bytes)", i, cut(got), len(got), cut(want), len(want))
}
