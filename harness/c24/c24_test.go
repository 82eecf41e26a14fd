package c24

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/cli"
	"verif/harness/gen"
	"verif/harness/rt"
)

// fault is a way for the command to fail.
type fault struct {
	Kind  string
	Flags []cli.Flag
	Input rt.Bytes
	Size  int  `json:",omitempty"` // of the input, made by repeating
	Old   bool // there is an -out file from before
	Pos   int  // of the arguments that matter among the flags
	At    int  // where, if it is a fault in the middle
}

// Misuse and input that cannot be had: nothing is done.
var misuse = []string{"missing file", "missing file, in missing directory", "empty directory part", "two inputs", "two inputs, redirected", "unknown language", "unknown language (case)", "unknown language (capitals)", "unknown flag", "bad value",
	"out is the file", "out is the redirected input", "out is a link to the file", "out is the file (empty)"}

// Input that cannot be read or tokenized, and output that cannot be written.
var failing = []string{"directory as file", "directory as stdin", "unreadable file", "token too long", "token too long (html)", "token too long, late",
	"out is a directory", "out in missing directory", "full device as out", "full device as stdout", "full device as out, from file"}

var languages = []string{"klingon", " ", "eng", "en", "english ", " english", "english,french", "engl", "fr", "englishfrench", "portuguese", "-", "english\n", "*", "0", "false", "русский"}

func (c fault) input() string {
	s := string(c.Input)
	if s == "" {
		s = "x "
	}
	if c.Size > 0 {
		s = strings.Repeat(s, c.Size/len(s)+1)
	}
	return s
}

func check(c fault, info *rt.Info) error {
	info.NonTrivial = true
	info.Label(c.Kind)
	dir := cli.Scratch()
	input := c.input()
	if strings.HasPrefix(c.Kind, "out is") && strings.HasSuffix(c.Kind, "(empty)") {
		input = ""
	}
	infile, outfile := filepath.Join(dir, "in.txt"), filepath.Join(dir, "out.txt")
	rt.Must(os.WriteFile(infile, []byte(input), 0o644))
	old := []byte("old content")
	if c.Old {
		rt.Must(os.WriteFile(outfile, old, 0o644))
	}

	flags := c.Flags
	without := func(name string) {
		var keep []cli.Flag
		for _, f := range flags {
			if f.Name != name {
				keep = append(keep, f)
			}
		}
		flags = keep
	}
	r := cli.Run{Bin: cli.Bin("VP_BIN_JARGON"), Dir: dir}
	open := func(path string) *os.File {
		f, err := os.Open(path)
		rt.Must(err)
		return f
	}
	write := func(path string) *os.File {
		f, err := os.OpenFile(path, os.O_WRONLY, 0)
		rt.Must(err)
		return f
	}
	right := []byte(nil) // output before the fault, if known
	known := false
	before := func(flags []cli.Flag, text string) {
		known = true
		if !cli.Has(flags, "count") {
			right = cli.Expected(flags, text)
		}
	}
	var extra []string
	toOut := []string{"-out", outfile}
	touches := true // may create or truncate the output
	switch c.Kind {
	case "missing file":
		extra = append([]string{"-file", filepath.Join(dir, "no.txt")}, toOut...)
		touches = false
	case "missing file, in missing directory":
		extra = append([]string{"-file", filepath.Join(dir, "no/no.txt")}, toOut...)
		touches = false
	case "empty directory part":
		extra = append([]string{"-file", infile + "/x"}, toOut...)
		touches = false
	case "two inputs":
		extra = append([]string{"-file", infile}, toOut...)
		r.Pipe = strings.NewReader(input)
		touches = false
	case "two inputs, redirected":
		extra = append([]string{"-file", infile}, toOut...)
		r.Stdin = open(infile)
		touches = false
	case "unknown language", "unknown language (case)", "unknown language (capitals)":
		without("lang")
		without("stem")
		lang := "klingon"
		if strings.HasSuffix(c.Kind, "(case)") {
			lang = "English"
		} else if strings.HasSuffix(c.Kind, "(capitals)") {
			lang = []string{"ENGLISH", "FRENCH", "Spanish", "rUSSIAN"}[c.At%4]
		} else if c.At > 0 {
			lang = languages[c.At%len(languages)]
		}
		extra = append([]string{"-stem", "-lang", lang}, toOut...)
		if c.At%2 == 0 {
			extra = append([]string{"-lang=" + lang, "--stem"}, toOut...)
		}
		r.Pipe = strings.NewReader(input)
		touches = false
	case "unknown flag":
		extra = append([]string{"-nosuchflag"}, toOut...)
		r.Pipe = strings.NewReader(input)
		touches = false
	case "bad value":
		without("count")
		extra = append([]string{"-count=perhaps"}, toOut...)
		r.Pipe = strings.NewReader(input)
		touches = false
	case "out is the file", "out is the file (empty)":
		extra = []string{"-file", infile, "-out", infile}
		if c.At%2 == 0 {
			extra = []string{"-out", "./in.txt", "-file", infile}
		}
		touches = false
	case "out is the redirected input":
		extra = []string{"-out", infile}
		r.Stdin = open(infile)
		touches = false
	case "out is a link to the file":
		link := filepath.Join(dir, "link.txt")
		if c.At%2 == 0 {
			rt.Must(os.Symlink("in.txt", link))
		} else {
			rt.Must(os.Link(infile, link))
		}
		extra = []string{"-file", infile, "-out", link}
		touches = false
	case "directory as file":
		extra = append([]string{"-file", dir}, toOut...)
	case "directory as stdin":
		extra = toOut
		r.Stdin = open(dir)
	case "unreadable file":
		// Its first page is not mapped: reading it is an I/O error
		extra = append([]string{"-file", "/proc/self/mem"}, toOut...)
	case "token too long":
		without("html")
		r.Pipe = strings.NewReader(strings.Repeat("x", 70000+c.At) + " " + input)
		before(flags, "")
		extra = toOut
	case "token too long, late":
		without("html")
		before(flags, input+" ")
		input += " " + strings.Repeat("x", 70000+c.At)
		rt.Must(os.WriteFile(infile, []byte(input), 0o644))
		extra = append([]string{"-file", infile}, toOut...)
	case "token too long (html)":
		without("html")
		r.Pipe = strings.NewReader("<p>x</p>" + strings.Repeat("x", 70000+c.At) + "<br> " + input)
		before(append([]cli.Flag{{Name: "html", Form: "-%"}}, flags...), "<p>x</p>")
		extra = append([]string{"-html"}, toOut...)
	case "out is a directory":
		r.Pipe = strings.NewReader(input)
		extra = []string{"-out", dir}
	case "out in missing directory":
		r.Pipe = strings.NewReader(input)
		extra = []string{"-out", filepath.Join(dir, "no", "out.txt")}
	case "full device as out":
		if !cli.FullDevice() {
			info.NonTrivial = false
			return nil
		}
		r.Pipe = strings.NewReader(input)
		extra = []string{"-out", "/dev/full"}
	case "full device as out, from file":
		if !cli.FullDevice() {
			info.NonTrivial = false
			return nil
		}
		extra = []string{"-out", "/dev/full", "-file", infile}
	case "full device as stdout":
		if !cli.FullDevice() {
			info.NonTrivial = false
			return nil
		}
		r.Pipe = strings.NewReader(input)
		r.Stdout = write("/dev/full")
	default:
		rt.Must(fmt.Errorf("no fault %q", c.Kind))
	}
	for _, f := range []*os.File{r.Stdin, r.Stdout} {
		if f != nil {
			defer f.Close()
		}
	}
	if strings.Contains(c.Kind, "full") {
		// there must be something to write
		if len(cli.Expected(flags, input)) == 0 {
			info.NonTrivial = false
			return nil
		}
	}
	pos := c.Pos % (len(flags) + 1)
	r.Args = append(r.Args, cli.Args(flags[:pos])...)
	r.Args = append(r.Args, extra...)
	r.Args = append(r.Args, cli.Args(flags[pos:])...)

	result, err := cli.Do(r)
	if err != nil {
		return err
	}
	if result.Code <= 0 {
		return fmt.Errorf("%s: expected a nonzero exit code: %v", c.Kind, result)
	}
	if len(bytes.TrimSpace(result.Stderr)) == 0 {
		return fmt.Errorf("%s: expected a message on stderr: %v", c.Kind, result)
	}
	if strings.Contains(string(result.Stderr), "goroutine 1 [") {
		return fmt.Errorf("%s: crashed: %v", c.Kind, result)
	}
	if got, err := os.ReadFile(infile); err != nil || string(got) != input {
		return fmt.Errorf("%s: the input file was changed: %s, %v", c.Kind, cli.Short(got), err)
	}
	if known {
		got, err := os.ReadFile(outfile)
		if err == nil && !bytes.HasPrefix(right, got) && !(c.Old && bytes.Equal(got, old)) {
			return fmt.Errorf("%s: partial output is not a part of the output: %v", c.Kind, cli.Differ(got, right))
		}
	}
	if !touches {
		if len(result.Stdout) > 0 {
			return fmt.Errorf("%s: expected nothing on stdout: %v", c.Kind, result)
		}
		got, err := os.ReadFile(outfile)
		if c.Old && (err != nil || !bytes.Equal(got, old)) {
			return fmt.Errorf("%s: the output file was changed: %q, %v", c.Kind, got, err)
		}
		if !c.Old && err == nil {
			return fmt.Errorf("%s: an output file was created: %q", c.Kind, got)
		}
	}
	return nil
}

// full is a disk that becomes full after a number of bytes
type full struct {
	Flags    []cli.Flag
	Input    rt.Bytes
	Size     int `json:",omitempty"`
	Limit    int // bytes of output that fit
	FromFile bool
	Redirect bool // stdout is the file
}

func checkFull(c full, info *rt.Info) error {
	dir := cli.Scratch()
	input := fault{Input: c.Input, Size: c.Size}.input()
	if cli.TooLong(input) {
		return nil
	}
	infile, outfile := filepath.Join(dir, "in.txt"), filepath.Join(dir, "out.txt")
	rt.Must(os.WriteFile(infile, []byte(input), 0o644))
	want := cli.Expected(c.Flags, input)
	limit := c.Limit
	if limit > len(want)+2 {
		limit %= len(want) + 3
	}
	r := cli.Run{Bin: cli.Bin("VP_BIN_JARGON"), Dir: dir, Limited: true, Limit: limit, Args: cli.Args(c.Flags)}
	if c.FromFile {
		r.Args = append(r.Args, "-file", infile)
	} else {
		r.Pipe = strings.NewReader(input)
	}
	if c.Redirect {
		f, err := os.Create(outfile)
		rt.Must(err)
		defer f.Close()
		r.Stdout = f
	} else {
		r.Args = append(r.Args, "-out", outfile)
	}
	result, err := cli.Do(r)
	if err != nil {
		return err
	}
	got, err := os.ReadFile(outfile)
	if err != nil {
		return fmt.Errorf("no output file: %v, %v", err, result)
	}
	info.NonTrivial = limit < len(want)
	if limit >= len(want) {
		info.Label("fits")
		if result.Code != 0 || len(result.Stderr) > 0 {
			return fmt.Errorf("output of %d bytes, limit of %d: expected success: %v", len(want), limit, result)
		}
		return cli.Differ(got, want)
	}
	info.Label("does not fit")
	if result.Code <= 0 || len(bytes.TrimSpace(result.Stderr)) == 0 {
		return fmt.Errorf("output of %d bytes, only %d fit: expected a nonzero exit code and a message: %v", len(want), limit, result)
	}
	if !bytes.HasPrefix(want, got) {
		return fmt.Errorf("partial output is not a part of the output: %v", cli.Differ(got, want))
	}
	return nil
}

// broken is an input connection which breaks
type broken struct {
	Flags []cli.Flag
	Input rt.Bytes
	Size  int `json:",omitempty"`
	Out   bool
}

func checkBroken(c broken, info *rt.Info) error {
	dir := cli.Scratch()
	input := fault{Input: c.Input, Size: c.Size}.input()
	info.NonTrivial = true
	l, err := net.Listen("tcp", "127.0.0.1:0")
	rt.Must(err)
	defer l.Close()
	type accepted struct {
		c   net.Conn
		err error
	}
	ch := make(chan accepted, 1)
	go func() {
		c, err := l.Accept()
		ch <- accepted{c, err}
	}()
	conn, err := net.Dial("tcp", l.Addr().String())
	rt.Must(err)
	a := <-ch
	rt.Must(a.err)
	stdin, err := conn.(*net.TCPConn).File()
	rt.Must(err)
	conn.Close()
	defer stdin.Close()
	go func() {
		a.c.SetWriteDeadline(time.Now().Add(time.Minute))
		a.c.Write([]byte(input))
		// let it read some, usually; it makes no difference to what is expected
		time.Sleep(3 * time.Millisecond)
		a.c.(*net.TCPConn).SetLinger(0)
		a.c.Close()
	}()
	r := cli.Run{Bin: cli.Bin("VP_BIN_JARGON"), Dir: dir, Stdin: stdin, Args: cli.Args(c.Flags)}
	if c.Out {
		r.Args = append(r.Args, "-out", filepath.Join(dir, "out.txt"))
	}
	result, err := cli.Do(r)
	if err != nil {
		return err
	}
	if result.Code <= 0 || len(bytes.TrimSpace(result.Stderr)) == 0 {
		return fmt.Errorf("input connection was reset: expected a nonzero exit code and a message: %v", result)
	}
	return nil
}

// gone is a reader of the output that goes away
type gone struct {
	Flags []cli.Flag
	Read  int
}

func checkGone(c gone, info *rt.Info) error {
	dir := cli.Scratch()
	info.NonTrivial = true
	input := strings.Repeat("Ruby on Rails, don't café ", 20000)
	pr, pw, err := os.Pipe()
	rt.Must(err)
	go func() {
		buf := make([]byte, c.Read)
		for n := 0; n < c.Read; {
			k, err := pr.Read(buf[n:])
			if err != nil {
				break
			}
			n += k
		}
		pr.Close()
	}()
	defer pw.Close()
	result, err := cli.Do(cli.Run{Bin: cli.Bin("VP_BIN_JARGON"), Dir: dir, Pipe: strings.NewReader(input), Stdout: pw, Args: cli.Args(c.Flags)})
	if err != nil {
		return err
	}
	if result.Code == 0 {
		return fmt.Errorf("the reader of the output went away: expected failure: %v", result)
	}
	return nil
}

// none is a run with no input at all
type none struct {
	Flags []cli.Flag
	Old   bool
}

func checkNone(c none, info *rt.Info) error {
	info.NonTrivial = true
	dir := cli.Scratch()
	outfile := filepath.Join(dir, "out.txt")
	old := []byte("old content")
	if c.Old {
		rt.Must(os.WriteFile(outfile, old, 0o644))
	}
	result, err := cli.Do(cli.Run{Bin: cli.Bin("VP_BIN_JARGON"), Dir: dir, Args: append(cli.Args(c.Flags), "-out", outfile)})
	if err != nil {
		return err
	}
	if len(result.Stdout) > 0 || !bytes.Contains(result.Stderr, []byte("-stack")) {
		return fmt.Errorf("no input: expected usage on stderr: %v", result)
	}
	got, err := os.ReadFile(outfile)
	if c.Old && (err != nil || !bytes.Equal(got, old)) || !c.Old && err == nil {
		return fmt.Errorf("no input: output file was created or changed: %q, %v", got, err)
	}
	return nil
}

func genFlags(t *rapid.T) []cli.Flag { return cli.GenFlags(t) }

func genInput(t *rapid.T) rt.Bytes {
	return rt.Bytes(strings.ToValidUTF8(gen.Text(t, gen.Opt{Max: 10}), "") + " x ")
}

var someSizes = []int{0, 0, 100, 4096, 4200, 9000, 70000}

func Test(t *testing.T) {
	all := append(append([]string{}, misuse...), failing...)
	var sets [][]cli.Flag
	for _, names := range []string{"", "stack", "count", "lines", "stack lemmas", "html", "contractions stem", "ascii distinct count", "stack contractions ascii lines"} {
		var flags []cli.Flag
		for _, n := range strings.Fields(names) {
			flags = append(flags, cli.Flag{Name: n, Form: "-%"})
		}
		sets = append(sets, flags)
	}
	rt.Main(t, "C24",
		rt.P[fault]{
			Name:       "every",
			Rule:       "every kind of fault × several sets of flags × input sizes below and above the buffer sizes × with and without a previous output file; all are non-trivial, except where the command has nothing to write; exhaustive",
			Exhaustive: true,
			Enum: func(yield func(fault) bool) {
				for _, k := range all {
					for i, flags := range sets {
						for _, size := range []int{0, 5000, 150000} {
							for _, old := range []bool{false, true} {
								if !yield(fault{Kind: k, Flags: flags, Input: rt.Bytes("Ruby on Rails, don't café "), Size: size, Old: old, Pos: i, At: i}) {
									return
								}
							}
						}
					}
				}
			},
			Check: check,
		},
		rt.P[fault]{
			Name:  "random",
			Rule:  "kinds of faults with generated flags in generated forms and order, input, size, and previous output; all are non-trivial, except where the command has nothing to write",
			Quick: 2000, Thorough: 40000,
			Gen: func(t *rapid.T) fault {
				return fault{Kind: rapid.SampledFrom(all).Draw(t, "kind"), Flags: genFlags(t), Input: genInput(t), Size: rapid.SampledFrom(someSizes).Draw(t, "size"),
					Old: rapid.Bool().Draw(t, "old"), Pos: rapid.IntRange(0, 9).Draw(t, "pos"), At: rapid.IntRange(0, 30000).Draw(t, "at")}
			},
			Check: check,
		},
		rt.P[full]{
			Name:  "disk",
			Rule:  "output to a file which may only have a generated size (each byte of the output is a fault point), with generated flags and input; non-trivial: the output does not fit",
			Quick: 2000, Thorough: 40000,
			Gen: func(t *rapid.T) full {
				return full{Flags: genFlags(t), Input: genInput(t), Size: rapid.SampledFrom(someSizes).Draw(t, "size"), Limit: rapid.IntRange(0, 100000).Draw(t, "limit"),
					FromFile: rapid.Bool().Draw(t, "fromFile"), Redirect: rapid.Bool().Draw(t, "redirect")}
			},
			Check: checkFull,
		},
		rt.P[broken]{
			Name:  "connection",
			Rule:  "stdin is a connection which is reset after the input; all are non-trivial",
			Quick: 300, Thorough: 6000,
			Gen: func(t *rapid.T) broken {
				return broken{Flags: genFlags(t), Input: genInput(t), Size: rapid.SampledFrom(someSizes).Draw(t, "size"), Out: rapid.Bool().Draw(t, "out")}
			},
			Check: checkBroken,
		},
		rt.P[gone]{
			Name:  "gone",
			Rule:  "the reader of stdout goes away after some bytes of a long output; all are non-trivial",
			Quick: 80, Thorough: 1600,
			Gen: func(t *rapid.T) gone {
				c := gone{Read: rapid.IntRange(0, 100000).Draw(t, "read")}
				for _, f := range genFlags(t) {
					if f.Name != "count" && f.Name != "lemmas" && f.Name != "distinct" {
						c.Flags = append(c.Flags, f)
					}
				}
				return c
			},
			Check: checkGone,
		},
		rt.P[none]{
			Name:  "none",
			Rule:  "no input: usage on stderr, no output; all are non-trivial",
			Quick: 200, Thorough: 2000,
			Gen:   func(t *rapid.T) none { return none{Flags: genFlags(t), Old: rapid.Bool().Draw(t, "old")} },
			Check: checkNone,
		},
	)
}
