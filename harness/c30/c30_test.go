package c30

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/cli"
	"verif/harness/rt"
)

type run struct {
	Flags []cli.Flag
	Form  string // of a word and what follows it; no filter changes it
	Fifo  bool   // input is a named pipe, by -file
	Out   bool   // output is a named pipe, by -out
	Size  int
	Many  int // how many times Size for the large input
}

// words are Form with increasing numbers
func (c run) words(from, size int) ([]byte, int) {
	var b bytes.Buffer
	for b.Len() < size {
		from++
		fmt.Fprintf(&b, c.Form, from)
	}
	return b.Bytes(), from
}

func on(c run, name string) bool {
	for _, f := range c.Flags {
		if f.Name == name && f.On() {
			return true
		}
	}
	return false
}

// behind is how much of what has been written may not have come out: buffers of 1 MB at most for reading and
// for writing, and of pipes
const behind = 3 << 20

// stalled is how long nothing at all happens, before it counts as waiting for more
const stalled = 40 * time.Second

func once(c run, size int) (peak int, err error) {
	dir := cli.Scratch()
	cmd := exec.Command(cli.Bin("VP_BIN_JARGON"), cli.Args(c.Flags)...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOGC=50") // so that what is in use is close to what is needed
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	var in io.WriteCloser
	var out io.ReadCloser
	fifo := func(name string) string {
		path := filepath.Join(dir, name)
		rt.Must(syscall.Mkfifo(path, 0o600))
		return path
	}
	if c.Fifo {
		cmd.Args = append(cmd.Args, "-file", fifo("in"))
	} else {
		in, err = cmd.StdinPipe()
		rt.Must(err)
	}
	if c.Out {
		cmd.Args = append(cmd.Args, "-out", fifo("out"))
		// Reading and writing, so as not to wait for the command to open it
		f, err := os.OpenFile(filepath.Join(dir, "out"), os.O_RDWR, 0)
		rt.Must(err)
		out = f
	} else {
		out, err = cmd.StdoutPipe()
		rt.Must(err)
	}
	if c.Fifo {
		f, err := os.OpenFile(filepath.Join(dir, "in"), os.O_RDWR, 0)
		rt.Must(err)
		in = f
	}
	rt.Must(cmd.Start())
	var received, sent atomic.Int64
	drained := make(chan bool)
	go func() {
		defer close(drained)
		b := make([]byte, 1<<16)
		for {
			n, err := out.Read(b)
			received.Add(int64(n))
			if err != nil {
				return
			}
		}
	}()
	ended := make(chan bool)
	defer func() {
		in.Close()
		cmd.Process.Kill()
		cmd.Wait()
		out.Close()
		<-drained
		<-ended
	}()
	go func() {
		defer close(ended)
		n := 0
		for int(sent.Load()) < size {
			var b []byte
			b, n = c.words(n, 1<<16)
			k, err := in.Write(b)
			sent.Add(int64(k))
			if err != nil {
				return
			}
		}
	}()
	silent := on(c, "count") || on(c, "lemmas")
	progress, since := int64(-1), time.Now()
	for {
		s, r := sent.Load(), received.Load()
		if int(s) >= size && (silent || int(r) >= int(s)-behind) {
			break
		}
		if s+r != progress {
			progress, since = s+r, time.Now()
		}
		if time.Since(since) > stalled {
			if state, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", cmd.Process.Pid)); err != nil || strings.Contains(string(state), ") Z ") {
				return 0, fmt.Errorf("ended before its input did: %s", stderr.String())
			}
			return 0, fmt.Errorf("has read %d bytes and output %d, and waits for more", s, r)
		}
		time.Sleep(2 * time.Millisecond)
	}
	status, err := os.ReadFile(fmt.Sprintf("/proc/%d/status", cmd.Process.Pid))
	rt.Must(err)
	for _, l := range strings.Split(string(status), "\n") {
		if strings.HasPrefix(l, "VmHWM:") {
			kb, err := strconv.Atoi(strings.Fields(l)[1])
			rt.Must(err)
			return kb * 1024, nil
		}
	}
	return 0, fmt.Errorf("ended before its input did: %s", stderr.String())
}

// slack is what the garbage collector may make of it
const slack = 40 << 20

func check(c run, info *rt.Info) error {
	var small, large int
	for try := 0; try < 3; try++ {
		var err error
		if small, err = once(c, c.Size); err != nil {
			return err
		}
		if large, err = once(c, c.Size*c.Many); err != nil {
			return err
		}
		info.NonTrivial = true
		info.LabelIf(c.Fifo, "-file")
		info.LabelIf(c.Out, "-out")
		for _, f := range c.Flags {
			info.LabelIf(f.On(), "-"+f.Name)
		}
		if large <= small+slack {
			return nil
		}
	}
	return fmt.Errorf("uses %d KB of memory for %d KB of input, and %d KB for %d KB", small/1024, c.Size/1024, large/1024, c.Size*c.Many/1024)
}

func Test(t *testing.T) {
	rt.Main(t, "C30",
		rt.P[run]{
			Name:  "streams",
			Rule:  "4 MB and 48 MB (thorough: 512 MB) of different words, from a pipe or by -file, to a pipe or by -out, with 8 (thorough: also 96 generated) sets of flags other than -distinct: output keeps up with input that does not end, and the larger input does not need more memory; all are non-trivial",
			Quick: 0, Thorough: 96,
			Enum: func(yield func(run) bool) {
				fs := func(names ...string) []cli.Flag {
					var flags []cli.Flag
					for _, n := range names {
						flags = append(flags, cli.Flag{Name: n, Form: "-%"})
					}
					return flags
				}
				for _, c := range []run{
					{Form: "w%d "},
					{Flags: fs("html"), Form: "<p>w%d</p>"},
					{Flags: fs("stack"), Form: "w%d, ", Fifo: true, Out: true},
					{Flags: fs("lines", "contractions", "ascii"), Form: "w%d\n", Fifo: true},
					{Flags: fs("stem", "count"), Form: "w%d "},
					{Flags: fs("html", "stack", "lemmas"), Form: "w%d <br id=%[1]d>", Fifo: true},
					{Flags: fs("ascii", "stack", "lines"), Form: "(w%d) ", Out: true},
					{Flags: fs("count", "html", "contractions"), Form: "<!-- %d -->", Fifo: true},
				} {
					c.Size, c.Many = 4<<20, rt.Pick(12, 128)
					if !yield(c) {
						return
					}
				}
			},
			Gen: func(t *rapid.T) run {
				c := run{
					Fifo: rapid.Bool().Draw(t, "fifo"), Out: rapid.IntRange(0, 2).Draw(t, "out") == 0,
					Form: rapid.SampledFrom([]string{"w%d ", "w%d, ", "w%d\n", "%d ", "(w%d) @w%[1]d ", "wwwwwwwwwwwwwwww%d  "}).Draw(t, "form"),
					Size: 4 << 20, Many: rt.Pick(12, 128),
				}
				for _, f := range cli.GenFlags(t) {
					if f.Name != "distinct" {
						c.Flags = append(c.Flags, f)
					}
				}
				if on(c, "html") && rapid.Bool().Draw(t, "tags") {
					c.Form = rapid.SampledFrom([]string{"<p>w%d</p>", "<b id=w%d>", "<!-- %d -->", "<script>w%d</script>"}).Draw(t, "html form")
				} else if on(c, "html") {
					c.Form += "<br>"
				}
				return c
			},
			Check: check,
		},
	)
}
