package main

// Building the code under test and running it, with limits.

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// infra ends the run: the machinery failed, nothing is known of the property.
func infra(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness: "+format+"\n", a...)
	cleanup()
	os.Exit(2)
}

var (
	scratch string
	blang   string
	homeDir string
	repoDir = "/repo"
	dirSeq  atomic.Int64
)

func cleanup() {
	if scratch != "" && strings.HasPrefix(filepath.Base(scratch), "blangverif") {
		os.RemoveAll(scratch)
	}
}

func goEnv() []string {
	return append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod -buildvcs=false")
}

func mkScratch() {
	if scratch != "" {
		return
	}
	base := os.Getenv("TMPDIR")
	if base == "" {
		base = "/tmp"
	}
	d, err := os.MkdirTemp(base, "blangverif")
	if err != nil {
		infra("scratch: %v", err)
	}
	scratch = d
}

// setupEnv builds blang and the runtime of the working tree into scratch.
func setupEnv() {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		repoDir = r
	}
	mkScratch()
	blang = filepath.Join(scratch, "bin", "blang")
	homeDir = filepath.Join(scratch, "home")
	lib := filepath.Join(homeDir, ".local", "lib")
	must(os.MkdirAll(lib, 0o755))
	c := exec.Command("go", "build", "-o", blang, ".")
	c.Dir = repoDir
	c.Env = goEnv()
	if o, err := c.CombinedOutput(); err != nil {
		infra("building blang: %v\n%s", err, o)
	}
	rt := filepath.Join(scratch, "runtime")
	if o, err := exec.Command("cp", "-r", filepath.Join(repoDir, "runtime"), rt).CombinedOutput(); err != nil {
		infra("copying the runtime: %v %s", err, o)
	}
	os.Remove(filepath.Join(rt, "libb.a"))
	c = exec.Command("make", "-B", "-C", rt, "all")
	if o, err := c.CombinedOutput(); err != nil {
		infra("building the runtime: %v\n%s", err, o)
	}
	b, err := os.ReadFile(filepath.Join(rt, "libb.a"))
	must(err)
	must(os.WriteFile(filepath.Join(lib, "libb.a"), b, 0o644))
}

func must(err error) {
	if err != nil {
		infra("%v", err)
	}
}

func newDir() string {
	d := filepath.Join(scratch, fmt.Sprintf("w%d", dirSeq.Add(1)))
	must(os.MkdirAll(d, 0o755))
	return d
}

type limits struct {
	cpu   int // seconds
	memMB int
}

type Res struct {
	Stdout, Stderr []byte
	Status         int    // -1 if ended by a signal
	Signal         string // name of the signal
	CPULimit       bool   // ended by the CPU limit
	Truncated      bool
}

type capBuf struct {
	mu  sync.Mutex
	b   bytes.Buffer
	max int
	cut bool
	kil func()
}

func (c *capBuf) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := len(p)
	if r := c.max - c.b.Len(); len(p) > r {
		p = p[:r]
		c.cut = true
		if c.kil != nil {
			c.kil()
		}
	}
	c.b.Write(p)
	return n, nil
}

type RunOpt struct {
	Dir    string
	Env    []string
	Stdin  []byte     // through a file
	Merge  bool       // stderr into stdout, one pipe
	Pipe   bool       // standard input through a pipe
	Chunks []int      // in pieces of these sizes, each when the one before is read
	Extra  []*os.File // descriptors 3, 4, ...
	Lim    limits
	MaxOut int
}

// run executes argv under limits.  A wall clock limit is only a safety net: when
// it strikes, the whole check ends as an error, not as a violation.
func run(o RunOpt, argv ...string) Res {
	for try := 0; ; try++ {
		r, err := run1(o, argv...)
		if err == nil {
			return r
		}
		if try == 3 {
			infra("running %v: %v", argv, err)
		}
		time.Sleep(time.Duration(200*(try+1)) * time.Millisecond)
	}
}

// feed writes the pieces of a pipe's input, each when the one before is read.
func feed(r, w *os.File, in []byte, chunks []int, done chan bool) {
	defer w.Close()
	rc, err := r.SyscallConn()
	if err != nil {
		return
	}
	for _, n := range chunks {
		for {
			var left int32
			rc.Control(func(fd uintptr) {
				syscall.Syscall(syscall.SYS_IOCTL, fd, 0x541b /* FIONREAD */, uintptr(unsafe.Pointer(&left)))
			})
			if left == 0 {
				break
			}
			select {
			case <-done:
				return
			case <-time.After(100 * time.Microsecond):
			}
		}
		if _, err := w.Write(in[:n]); err != nil {
			return
		}
		in = in[n:]
	}
}

func run1(o RunOpt, argv ...string) (Res, error) {
	if o.Lim.cpu == 0 {
		o.Lim.cpu = 10
	}
	if o.Lim.memMB == 0 {
		o.Lim.memMB = 8192
	}
	if o.MaxOut == 0 {
		o.MaxOut = 4 << 20
	}
	sh := fmt.Sprintf("ulimit -c 0; ulimit -t %d; ulimit -v %d; ulimit -f 2000000; exec \"$@\"", o.Lim.cpu, o.Lim.memMB*1024)
	c := exec.Command("/bin/sh", append([]string{"-c", sh, "sh"}, argv...)...)
	c.Dir = o.Dir
	if o.Env != nil {
		c.Env = o.Env
	} else {
		c.Env = []string{"PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME=" + homeDir, "LANG=C.UTF-8", "LC_ALL=C.UTF-8", "TMPDIR=" + scratch}
	}
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if o.Stdin != nil {
		f, err := tmpFile(o.Stdin)
		if err != nil {
			return Res{}, err
		}
		defer f.Close()
		c.Stdin = f
		if o.Pipe && len(o.Stdin) < 60000 {
			r, w, err := os.Pipe()
			if err != nil {
				return Res{}, err
			}
			defer r.Close()
			c.Stdin = r
			if o.Chunks != nil {
				defer w.Close()
				done := make(chan bool)
				defer close(done)
				go feed(r, w, o.Stdin, o.Chunks, done)
			} else {
				if _, err := w.Write(o.Stdin); err != nil {
					return Res{}, err
				}
				w.Close()
			}
		}
	}
	c.ExtraFiles = o.Extra
	kill := func() {
		if c.Process != nil {
			syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		}
	}
	so := &capBuf{max: o.MaxOut, kil: kill}
	se := &capBuf{max: o.MaxOut, kil: kill}
	c.Stdout = so
	if o.Merge {
		c.Stderr = so
	} else {
		c.Stderr = se
	}
	if err := c.Start(); err != nil {
		return Res{}, err
	}
	var timedOut atomic.Bool
	t := time.AfterFunc(200*time.Second, func() { timedOut.Store(true); kill() })
	err := c.Wait()
	t.Stop()
	if timedOut.Load() {
		return Res{}, fmt.Errorf("wall clock limit")
	}
	r := Res{Stdout: so.b.Bytes(), Stderr: se.b.Bytes(), Truncated: so.cut || se.cut}
	ps := c.ProcessState
	if ps == nil {
		return Res{}, err
	}
	ws := ps.Sys().(syscall.WaitStatus)
	if ws.Signaled() {
		r.Status = -1
		r.Signal = ws.Signal().String()
		cpu := ps.UserTime() + ps.SystemTime()
		if ws.Signal() == syscall.SIGXCPU || cpu >= time.Duration(o.Lim.cpu)*time.Second-200*time.Millisecond {
			r.CPULimit = true
		} else if ws.Signal() == syscall.SIGKILL && !r.Truncated {
			return Res{}, fmt.Errorf("killed from outside")
		}
	} else {
		r.Status = ws.ExitStatus()
		if (r.Status == 126 || r.Status == 127) && bytes.HasPrefix(r.Stderr, []byte("sh: ")) {
			return Res{}, fmt.Errorf("%s", r.Stderr)
		}
	}
	return r, nil
}

func tmpFile(b []byte) (*os.File, error) {
	f, err := os.CreateTemp(scratch, "in")
	if err != nil {
		return nil, err
	}
	os.Remove(f.Name())
	if _, err := f.Write(b); err != nil {
		f.Close()
		return nil, err
	}
	if _, err := f.Seek(0, 0); err != nil {
		f.Close()
		return nil, err
	}
	return f, nil
}

func (r Res) ended() string {
	if r.Status >= 0 {
		return fmt.Sprintf("exit status %d", r.Status)
	}
	s := "signal: " + r.Signal
	if r.CPULimit {
		s += " (CPU time limit)"
	}
	return s
}

// Build is a way to get an executable.
type Build struct {
	Opt   int
	Debug bool
	Route string // "", "ll", "s", "o": per file, linked by blang
	CKind string // what is made of files in C: "o", "s", "ll", "a"
	COpt  int
}

func (b Build) String() string {
	s := fmt.Sprintf("-O%d", b.Opt)
	if b.Debug {
		s += " -g"
	}
	if b.Route != "" {
		s += " via " + b.Route
	}
	if b.CKind != "" {
		s += fmt.Sprintf(", C files to .%s with -O%d", b.CKind, b.COpt)
	}
	return s
}

// compileSources writes the sources to dir and builds dir/a.out.  fail is the
// message when blang does not make it.
func compileSources(dir string, srcs []string, b Build) (exe, fail string) {
	flags := []string{fmt.Sprintf("-O%d", b.Opt)}
	if b.Debug {
		flags = append(flags, "-g")
	}
	var ins, cs []string
	for i, s := range srcs {
		if strings.HasPrefix(s, cHead) {
			n := fmt.Sprintf("f%d.c", i)
			must(os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644))
			c, fail := compileC(dir, n, b.CKind, b.COpt)
			if fail != "" {
				infra("%s", fail)
			}
			cs = append(cs, c)
			continue
		}
		n := fmt.Sprintf("f%d.b", i)
		must(os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644))
		ins = append(ins, n)
	}
	opt := RunOpt{Dir: dir, Lim: limits{cpu: 60}}
	bad := func(r Res, what string) string {
		return fmt.Sprintf("blang %s: %s: %s", what, r.ended(), strings.TrimSpace(string(r.Stderr)))
	}
	if b.Route != "" {
		fl := map[string]string{"ll": "--emit-llvm", "s": "-S", "o": "-c"}[b.Route]
		for i, in := range ins {
			r := run(opt, append(append([]string{blang}, flags...), fl, in)...)
			if r.Status != 0 {
				return "", bad(r, fl)
			}
			ins[i] = strings.TrimSuffix(in, ".b") + "." + b.Route
		}
	}
	ins = append(ins, cs...)
	exe = filepath.Join(dir, "a.out")
	r := run(opt, append(append(append([]string{blang}, flags...), "-o", exe), ins...)...)
	if r.Status != 0 {
		return "", bad(r, strings.Join(ins, " "))
	}
	return exe, ""
}
