package c23

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
	"verif/harness/cli"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/rt"
)

type run struct {
	Flags           []cli.Flag
	Input           rt.Bytes // repeated and cut
	Size            int      `json:",omitempty"`
	In              string   // pipe, redirect (stdin is a regular file), file (-file), fifo (-file is a named pipe)
	Out             string   // pipe, redirect (stdout is a regular file), file (-out), over (-out, existing)
	Form            string   // of -file and -out
	Pos             int      // of -file and -out among the flags
	Infile, Outfile string   // names; if empty, some
	Chunks          kit.Chunks
}

func (c run) input() string {
	s := string(c.Input)
	if c.Size == 0 || s == "" {
		return s
	}
	s = strings.Repeat(s, c.Size/len(s)+1)[:c.Size]
	// not in the middle of a character
	for !utf8.ValidString(s[len(s)-minInt(len(s), 8):]) && len(s) > 0 {
		r, n := utf8.DecodeLastRuneInString(s)
		if r != utf8.RuneError || n != 1 {
			break
		}
		s = s[:len(s)-1]
	}
	for len(s) < c.Size {
		s += "."
	}
	return s
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func check(c run, info *rt.Info) error {
	input := c.input()
	if cli.TooLong(input) {
		info.Label("skipped: token too long")
		return nil
	}
	dir := cli.Scratch()
	inname, outname := c.Infile, c.Outfile
	if inname == "" {
		inname = filepath.Join(dir, "in put.txt")
	}
	if outname == "" {
		outname = "out put.txt"
	}
	infile, outfile := inname, filepath.Join(dir, outname)
	if !filepath.IsAbs(infile) {
		infile = filepath.Join(dir, inname)
	}
	rt.Must(os.WriteFile(infile, []byte(input), 0o644))

	var extra []string
	arg := func(name, value string) {
		f := cli.Flag{Name: name, Form: c.Form, Value: value}
		extra = append(extra, f.Args()...)
	}
	r := cli.Run{Bin: cli.Bin("VP_BIN_JARGON"), Dir: dir}
	switch c.In {
	case "pipe":
		r.Pipe = &kit.Reader{Data: []byte(input), Chunks: c.Chunks}
	case "redirect":
		f, err := os.Open(infile)
		rt.Must(err)
		defer f.Close()
		r.Stdin = f
	case "file":
		arg("file", inname)
	case "fifo":
		fifo := filepath.Join(dir, "fifo")
		rt.Must(syscall.Mkfifo(fifo, 0o600))
		arg("file", fifo)
		done := make(chan bool)
		go func() {
			defer close(done)
			// waits until the command has opened the other end
			f, err := os.OpenFile(fifo, os.O_WRONLY, 0)
			rt.Must(err)
			defer f.Close()
			io.Copy(f, &kit.Reader{Data: []byte(input), Chunks: c.Chunks})
		}()
		defer func() {
			// ends the wait, if the command never opened it
			for {
				f, err := os.OpenFile(fifo, os.O_RDONLY|syscall.O_NONBLOCK, 0)
				rt.Must(err)
				f.Close()
				select {
				case <-done:
					return
				case <-time.After(10 * time.Millisecond):
				}
			}
		}()
	}
	switch c.Out {
	case "redirect":
		f, err := os.Create(outfile)
		rt.Must(err)
		defer f.Close()
		r.Stdout = f
	case "new":
		arg("out", outname)
	case "over":
		rt.Must(os.WriteFile(outfile, bytes.Repeat([]byte("old content "), 10+len(input)/6), 0o644))
		arg("out", outname)
	case "file":
		arg("out", outfile)
	}
	pos := c.Pos % (len(c.Flags) + 1)
	r.Args = append(r.Args, cli.Args(c.Flags[:pos])...)
	r.Args = append(r.Args, extra...)
	r.Args = append(r.Args, cli.Args(c.Flags[pos:])...)

	result, err := cli.Do(r)
	if err != nil {
		return err
	}
	if result.Code != 0 || len(result.Stderr) > 0 {
		return fmt.Errorf("failed: %v", result)
	}
	got := result.Stdout
	if c.Out != "pipe" {
		if len(got) > 0 {
			return fmt.Errorf("output to a file, but also to stdout: %v", result)
		}
		got, err = os.ReadFile(outfile)
		if err != nil {
			return fmt.Errorf("no output file: %v", err)
		}
	}
	if left, err := os.ReadFile(infile); err != nil || string(left) != input {
		return fmt.Errorf("the input file was changed: %v", err)
	}
	want := cli.Expected(c.Flags, input)
	toks := cli.Tokens(c.Flags, input)
	lemmas := 0
	for _, t := range toks {
		if t.Lemma {
			lemmas++
		}
	}
	info.NonTrivial = len(c.Flags) >= 1 && len(toks) >= 2
	info.Label("in " + c.In)
	info.Label("out " + c.Out)
	for _, f := range c.Flags {
		info.LabelIf(f.On(), "-"+f.Name)
	}
	info.LabelIf(lemmas > 0, "output has lemmas")
	info.LabelIf(len(input) > 65536, "over 64K")
	return cli.Differ(got, want)
}

func genRun(t *rapid.T) run {
	c := run{
		Flags: cli.GenFlags(t),
		In:    rapid.SampledFrom([]string{"pipe", "pipe", "redirect", "file", "file", "fifo"}).Draw(t, "in"),
		Out:   rapid.SampledFrom([]string{"pipe", "pipe", "redirect", "file", "over"}).Draw(t, "out"),
		Form:  rapid.SampledFrom([]string{"-%", "-%=", "--%", "--%="}).Draw(t, "form"),
		Pos:   rapid.IntRange(0, 8).Draw(t, "pos"),
	}
	// Names may look like flags
	if c.In == "file" && rapid.Bool().Draw(t, "named") {
		c.Infile = rapid.SampledFrom(names).Draw(t, "infile")
	}
	if (c.Out == "file" || c.Out == "over") && rapid.Bool().Draw(t, "named") {
		c.Outfile = rapid.SampledFrom(names).Draw(t, "outfile")
		if c.Outfile == c.Infile {
			c.Outfile += ".out"
		}
		if c.Out == "file" {
			c.Out = "new"
		}
	}
	if c.In == "pipe" || c.In == "fifo" {
		c.Chunks = kit.GenChunks(t)
	}
	return c
}

// giant is an input that is a line many times
type giant struct {
	Flags string
	In    string
	MB    int
}

// times reads a text again and again
type times struct {
	text string
	n    int // how many times more
	rest string
}

func (r *times) Read(b []byte) (int, error) {
	n := 0
	for n < len(b) {
		if r.rest == "" {
			if r.n == 0 {
				break
			}
			r.n--
			r.rest = r.text
		}
		k := copy(b[n:], r.rest)
		r.rest = r.rest[k:]
		n += k
	}
	if n == 0 && len(b) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

func checkGiant(c giant, info *rt.Info) error {
	info.NonTrivial = true
	unit := strings.Repeat("Ça <i>ira</i>, don't worry about Ruby on Rails: it's fine. 北京.\n", 100)
	n := c.MB << 20 / len(unit)
	var flags []cli.Flag
	for _, name := range strings.Fields(c.Flags) {
		flags = append(flags, cli.Flag{Name: name, Form: "-%"})
	}
	var want io.Reader = &times{text: string(cli.Expected(flags, unit)), n: n}
	if cli.Has(flags, "count") {
		want = strings.NewReader(fmt.Sprintf("%d\n", n*len(cli.Tokens(flags, unit))))
	}
	dir := cli.Scratch()
	infile, outfile := filepath.Join(dir, "in.txt"), filepath.Join(dir, "out.txt")
	defer os.Remove(infile)
	defer os.Remove(outfile)
	r := cli.Run{Bin: cli.Bin("VP_BIN_JARGON"), Dir: dir, Args: cli.Args(flags)}
	if c.In == "file" || c.In == "redirect" {
		f, err := os.Create(infile)
		rt.Must(err)
		defer f.Close()
		_, err = io.Copy(f, &times{text: unit, n: n})
		rt.Must(err)
		_, err = f.Seek(0, io.SeekStart)
		rt.Must(err)
		if c.In == "redirect" {
			r.Stdin = f
		} else {
			r.Args = append(r.Args, "-file", infile)
		}
	} else {
		r.Pipe = &times{text: unit, n: n}
	}
	out, err := os.Create(outfile)
	rt.Must(err)
	defer out.Close()
	if c.MB%20 == 10 {
		r.Stdout = out
	} else {
		r.Args = append(r.Args, "-out", outfile)
	}
	result, err := cli.Do(r)
	if err != nil {
		return err
	}
	if result.Code != 0 || len(result.Stderr) > 0 {
		return fmt.Errorf("failed: %v", result)
	}
	got, err := os.Open(outfile)
	rt.Must(err)
	defer got.Close()
	a, b := make([]byte, 1<<20), make([]byte, 1<<20)
	for at := 0; ; at += 1 << 20 {
		na, erra := io.ReadFull(got, a)
		nb, errb := io.ReadFull(want, b)
		if !bytes.Equal(a[:na], b[:nb]) {
			return fmt.Errorf("from byte %d on: %w", at, cli.Differ(a[:na], b[:nb]))
		}
		if erra != nil || errb != nil {
			return nil
		}
	}
}

var names = []string{"-stack", "--ascii", "-lemmas", "--contractions=true", "-stem=true", "-count", "-distinct", "-lines", "-stem", "a=b", "true", "日本 .txt", "-", "--", "french", "in.html", "x.HTM", "page.xhtml", "a.txt.gz", "data.json", "-version", "-lang", "index.html "}

func genText(t *rapid.T, flags []cli.Flag) string {
	for _, f := range flags {
		if f.Name == "html" && f.On() {
			// valid UTF-8 only, and no NUL in HTML
			return strings.ToValidUTF8(gen.HTML(t, gen.Opt{}, 12), "")
		}
	}
	text := strings.ToValidUTF8(gen.Text(t, gen.Opt{Max: 16}), "")
	// What looks like another kind of file is text all the same
	if rapid.IntRange(0, 5).Draw(t, "looks") == 0 {
		text = rapid.SampledFrom(starts).Draw(t, "start") + text
	}
	return text
}

var starts = []string{"<!DOCTYPE html>", "<!doctype html><p>", "<html><body><p>", " \n<html>", "<?xml version=\"1.0\"?>", "<p>Ruby on <b>Rails</b></p>", "<!-- x -->", "{\"a\": \"Ruby on Rails\"}", "#!/bin/sh\n", "%PDF-1.4\n", "\x1f\u008b\b", "PK\x03\x04", "\ufeff", "\ufeff<html>", "&amp;&lt;", "---\ntitle: x\n---\n"}

var sizes = []int{4095, 4096, 4097, 65535, 65536, 65537, 131072, 1 << 20, 1<<20 + 1}

func Test(t *testing.T) {
	rt.Main(t, "C23",
		rt.P[run]{
			Name:  "small",
			Rule:  "texts and HTML through the jargon command with generated sets, orders and forms of flags, from a pipe (in generated chunks), redirected file, -file or -file with a named pipe, to a pipe, redirected file, or new or existing -out; non-trivial: at least one flag, and 2 tokens",
			Quick: 6000, Thorough: 120000,
			Gen: func(t *rapid.T) run {
				c := genRun(t)
				c.Input = rt.Bytes(genText(t, c.Flags))
				return c
			},
			Check: check,
		},
		rt.P[run]{
			Name:  "large",
			Rule:  "same, with inputs of sizes around the sizes of buffers (4K, 64K, 128K, 1M), made by repeating a text; non-trivial: at least one flag, and 2 tokens",
			Quick: 160, Thorough: 4000,
			Gen: func(t *rapid.T) run {
				c := genRun(t)
				c.Chunks = kit.Chunks{}
				c.Input = rt.Bytes(genText(t, c.Flags) + rapid.SampledFrom([]string{" ", ". ", "\n", " x "}).Draw(t, "end"))
				c.Size = rapid.SampledFrom(sizes).Draw(t, "size") + rapid.IntRange(-2, 3).Draw(t, "delta")
				return c
			},
			Check: check,
		},
		rt.P[run]{
			Name: "huge",
			Rule: "same, with inputs of 9 MB (thorough: up to 24 MB) and 8 sets of flags; all are non-trivial",
			Enum: func(yield func(run) bool) {
				for i, names := range []string{"", "lines", "count", "html stack", "contractions lemmas", "ascii stem distinct", "html lines", "stack lines count"} {
					c := run{Input: rt.Bytes("Ça <i>ira</i>, don't worry about Ruby on Rails: it's fine. 北京\n"), Size: 9 << 20, Form: "-%"}
					if i < 2 {
						c.Size = rt.Pick(9, 24) << 20
					}
					c.In = []string{"pipe", "redirect", "file", "fifo"}[i%4]
					c.Out = []string{"pipe", "file", "redirect", "over"}[i/2]
					for _, n := range strings.Fields(names) {
						c.Flags = append(c.Flags, cli.Flag{Name: n, Form: "-%"})
					}
					if !yield(c) {
						return
					}
				}
			},
			Check: func(c run, info *rt.Info) error {
				defer func() { info.NonTrivial = true }()
				return check(c, info)
			},
		},
		rt.P[giant]{
			Name: "giant",
			Rule: "inputs of 40 to 110 MB (thorough: 400 MB), of one line many times, for which the output is that of the line as many times; all are non-trivial",
			Enum: func(yield func(giant) bool) {
				for _, g := range []giant{{"", "file", 110}, {"lines", "redirect", 70}, {"stack", "pipe", 50}, {"html", "pipe", 40}, {"html count", "file", 40}, {"", "pipe", 110}, {"contractions ascii", "redirect", 50}, {"stack lemmas lines", "file", 50}} {
					g.MB *= rt.Pick(1, 4)
					if !yield(g) {
						return
					}
				}
			},
			Check: checkGiant,
		},
		rt.P[int]{
			Name:       "version",
			Rule:       "the version flag in its forms, with and without other flags and input, prints the version and nothing else; exhaustive",
			Exhaustive: true,
			Enum: func(yield func(int) bool) {
				for i := 0; i < 8; i++ {
					if !yield(i) {
						return
					}
				}
			},
			Check: func(i int, info *rt.Info) error {
				info.NonTrivial = true
				r := cli.Run{Bin: cli.Bin("VP_BIN_JARGON"), Dir: cli.Scratch(), Args: []string{[]string{"-version", "--version"}[i&1]}}
				if i&2 != 0 {
					r.Args = append(r.Args, "-stack", "-lines")
				}
				if i&4 != 0 {
					r.Pipe = strings.NewReader("Ruby on Rails")
				}
				result, err := cli.Do(r)
				if err != nil {
					return err
				}
				lines := strings.Split(string(result.Stdout), "\n")
				if result.Code != 0 || len(lines) != 4 || !strings.HasPrefix(lines[0], "Version:") || !strings.HasPrefix(lines[1], "Commit:") || !strings.HasPrefix(lines[2], "Build date:") || lines[3] != "" {
					return fmt.Errorf("expected the version only: %v", result)
				}
				return nil
			},
		},
	)
}
