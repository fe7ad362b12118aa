// Package simnet is where the network shims meet the simulated world.
package simnet

import (
	"io"
	"net"
	"net/http"
	"os"
	"time"
)

// Set by the harness for each run.
var (
	// Dial opens a simulated connection; timeout 0 means none, done cancels it.
	Dial func(network, addr string, timeout time.Duration, done <-chan struct{}) (net.Conn, error)
	// Do performs an HTTP exchange.
	Do func(req *http.Request, timeout, headerTimeout time.Duration) (*http.Response, error)
	// LookPath and Start stand in for starting programs.
	LookPath func(file string) (string, error)
	Start    func(path string, args []string) (*Process, io.Reader, io.Reader, error)
)

// Process is a simulated child process.
type Process struct {
	Pid      int
	OnSignal func(sig os.Signal) error
	WaitFn   func() error
}

func (p *Process) Signal(sig os.Signal) error {
	if p.OnSignal != nil {
		return p.OnSignal(sig)
	}
	return nil
}

func (p *Process) Kill() error { return p.Signal(os.Kill) }

func (p *Process) Release() error { return nil }

func (p *Process) Wait() (*os.ProcessState, error) { return nil, p.WaitFn() }
