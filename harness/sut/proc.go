package sut

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/harness/hz"
)

// Proc is a running program.
type Proc struct {
	cmd  *exec.Cmd
	done chan struct{}
	mu   sync.Mutex
	out  bytes.Buffer
	err  bytes.Buffer
	cond *sync.Cond
}

type procWriter struct {
	p *Proc
	b *bytes.Buffer
}

func (w procWriter) Write(b []byte) (int, error) {
	w.p.mu.Lock()
	defer w.p.mu.Unlock()
	w.b.Write(b)
	w.p.cond.Broadcast()
	return len(b), nil
}

// Binary returns the path of a program built from the tree.
func Binary(name string) string {
	path := os.Getenv("VERIF_BIN_" + strings.ReplaceAll(name, "-", "_"))
	if path == "" {
		hz.Infra("no binary %s", name)
	}
	return path
}

// Run starts a program built from the tree.
func Run(name string, args ...string) *Proc {
	p := &Proc{done: make(chan struct{})}
	p.cond = sync.NewCond(&p.mu)
	p.cmd = exec.Command(Binary(name), args...)
	p.cmd.Stdout = procWriter{p, &p.out}
	p.cmd.Stderr = procWriter{p, &p.err}
	p.cmd.Env = []string{"HOME=/nonexistent", "PATH=/usr/bin:/bin", "GOMAXPROCS=4"}
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		hz.Infra("can't start %s: %v", name, err)
	}
	go func() {
		p.cmd.Wait()
		close(p.done)
	}()
	return p
}

// Kill ends the program, if it still runs.
func (p *Proc) Kill() {
	p.cmd.Process.Kill()
	<-p.done
}

// Terminate asks the program to end, and waits until it does.
func (p *Proc) Terminate(d time.Duration) bool {
	p.cmd.Process.Signal(syscall.SIGTERM)
	return p.Exited(d)
}

// Sockets returns the ports the program listens on, such as "tcp 80".
func (p *Proc) Sockets() []string {
	inodes := map[string]bool{}
	fds, _ := os.ReadDir(fmt.Sprintf("/proc/%d/fd", p.cmd.Process.Pid))
	for _, fd := range fds {
		to, _ := os.Readlink(fmt.Sprintf("/proc/%d/fd/%s", p.cmd.Process.Pid, fd.Name()))
		if strings.HasPrefix(to, "socket:[") {
			inodes[strings.Trim(to, "socket:[]")] = true
		}
	}
	var out []string
	for _, proto := range []string{"tcp", "tcp6", "udp", "udp6"} {
		b, _ := os.ReadFile("/proc/net/" + proto)
		for _, line := range strings.Split(string(b), "\n") {
			f := strings.Fields(line)
			if len(f) < 10 || !inodes[f[9]] || proto[0] == 't' && f[3] != "0A" {
				continue
			}
			_, hex, _ := strings.Cut(f[1], ":")
			port, _ := strconv.ParseInt(hex, 16, 32)
			out = append(out, fmt.Sprintf("%s %d", proto[:3], port))
		}
	}
	sort.Strings(out)
	return out
}

// Exited waits until the program has ended.
func (p *Proc) Exited(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return false
	}
}

// Done is closed when the program ends.
func (p *Proc) Done() <-chan struct{} { return p.done }

// Code returns the exit code, -1 if the program was killed.
func (p *Proc) Code() int { return p.cmd.ProcessState.ExitCode() }

// Stdout returns a copy of what was written to the standard output.
func (p *Proc) Stdout() []byte {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]byte(nil), p.out.Bytes()...)
}

// Stderr returns what was written to the standard error.
func (p *Proc) Stderr() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.err.String()
}

// WaitStdout waits until the program has written at least n bytes.
func (p *Proc) WaitStdout(d time.Duration, n int) bool {
	expired := false
	t := time.AfterFunc(d, func() {
		p.mu.Lock()
		expired = true
		p.cond.Broadcast()
		p.mu.Unlock()
	})
	defer t.Stop()
	p.mu.Lock()
	defer p.mu.Unlock()
	for p.out.Len() < n {
		if expired {
			return false
		}
		p.cond.Wait()
	}
	return true
}
