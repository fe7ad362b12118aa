// Package vexec stands in for starting programs with os/exec.
package vexec

import (
	"errors"
	"io"
	"os"
	"syscall"

	"vsim/simnet"
)

func LookPath(file string) (string, error) { return simnet.LookPath(file) }

type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	SysProcAttr  *syscall.SysProcAttr
	Process      *simnet.Process
	ProcessState *os.ProcessState
	out, err     *pipe
}

type pipe struct{ r io.Reader }

func (p *pipe) Read(b []byte) (int, error) {
	if p.r == nil {
		return 0, io.EOF
	}
	return p.r.Read(b)
}
func (p *pipe) Close() error { return nil }

func Command(name string, args ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, args...)}
}

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	c.out = &pipe{}
	return c.out, nil
}

func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	c.err = &pipe{}
	return c.err, nil
}

func (c *Cmd) Start() error {
	p, out, errr, err := simnet.Start(c.Path, c.Args)
	if err != nil {
		return err
	}
	c.Process = p
	if c.out != nil {
		c.out.r = out
	}
	if c.err != nil {
		c.err.r = errr
	}
	return nil
}

func (c *Cmd) Wait() error {
	if c.Process == nil {
		return errors.New("exec: not started")
	}
	return c.Process.WaitFn()
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}
