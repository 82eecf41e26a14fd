// Package cli runs the commands of the repository in scratch directories.
package cli

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"syscall"
	"time"

	"verif/harness/rt"
)

// The harness runs itself to limit the size of files that a command can write, see Limited.
func init() {
	limit := os.Getenv("VP_FSIZE")
	if limit == "" {
		return
	}
	n, err := strconv.ParseUint(limit, 10, 64)
	if err != nil {
		os.Exit(120)
	}
	os.Unsetenv("VP_FSIZE")
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}); err != nil {
		os.Exit(121)
	}
	bin := os.Getenv("VP_FSIZE_BIN")
	os.Exit(func() int {
		err := syscall.Exec(bin, append([]string{bin}, os.Args[1:]...), os.Environ())
		os.Stderr.WriteString(err.Error())
		return 122
	}())
}

// Bin is the path of a binary that the driver built.
func Bin(name string) string {
	bin := os.Getenv(name)
	if bin == "" {
		rt.Must(fmt.Errorf("no %s", name))
	}
	return bin
}

// Scratch is an empty directory for a case.
func Scratch() string {
	base := os.Getenv("VP_SCRATCH")
	if base == "" {
		rt.Must(fmt.Errorf("no VP_SCRATCH"))
	}
	dir := filepath.Join(base, "case")
	rt.Must(os.RemoveAll(dir))
	rt.Must(os.MkdirAll(dir, 0o755))
	return dir
}

// FullDevice says whether /dev/full may be given to a command as a file to write: if it is that device, and the command,
// which might remove or replace the file, is not run by root.
func FullDevice() bool {
	if os.Geteuid() == 0 {
		return false
	}
	f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		return false
	}
	defer f.Close()
	fi, err := f.Stat()
	return err == nil && fi.Mode()&os.ModeCharDevice != 0
}

// Run is how to run a command.
type Run struct {
	Bin     string
	Args    []string
	Dir     string
	Env     []string
	Stdin   *os.File  // as it is, or
	Pipe    io.Reader // through a pipe; if neither, /dev/null
	Stdout  *os.File  // if nil, what is written is returned
	Limited bool
	Limit   int // in bytes, of any file written, if Limited
}

// Result of a run.
type Result struct {
	Code   int // -1: killed by a signal
	Stdout []byte
	Stderr []byte
}

func (r Result) String() string {
	return fmt.Sprintf("exit %d, stdout %s, stderr %s", r.Code, Short(r.Stdout), Short(r.Stderr))
}

// Short quotes the ends of b.
func Short(b []byte) string {
	if len(b) > 400 {
		return fmt.Sprintf("%q … %q (%d bytes)", b[:200], b[len(b)-200:], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// ErrHangs means that the command did not end.
var ErrHangs = fmt.Errorf("the command did not end within two minutes, though its input had ended")

// Do runs the command to its end.
func Do(r Run) (Result, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Minute)
	defer cancel()
	bin := r.Bin
	env := append(os.Environ(), r.Env...)
	if r.Limited {
		self, err := os.Executable()
		rt.Must(err)
		env = append(env, "VP_FSIZE="+strconv.Itoa(r.Limit), "VP_FSIZE_BIN="+bin)
		bin = self
	}
	cmd := exec.CommandContext(ctx, bin, r.Args...)
	cmd.Dir = r.Dir
	cmd.Env = env
	cmd.WaitDelay = 10 * time.Second
	var stdout, stderr bytes.Buffer
	if r.Stdin != nil {
		cmd.Stdin = r.Stdin
	} else if r.Pipe != nil {
		cmd.Stdin = r.Pipe
	}
	if r.Stdout != nil {
		cmd.Stdout = r.Stdout
	} else {
		cmd.Stdout = &stdout
	}
	cmd.Stderr = &stderr
	err := cmd.Run()
	if ctx.Err() != nil {
		return Result{}, ErrHangs
	}
	result := Result{Stdout: stdout.Bytes(), Stderr: stderr.Bytes()}
	if cmd.ProcessState == nil {
		rt.Must(fmt.Errorf("cannot run %s: %v", bin, err))
	}
	result.Code = cmd.ProcessState.ExitCode()
	if r.Limited && result.Code >= 120 && result.Code <= 122 {
		rt.Must(fmt.Errorf("cannot limit file size: %v", result))
	}
	return result, nil
}
