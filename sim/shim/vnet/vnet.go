// Package vnet stands in for dialling in package net.
package vnet

import (
	"context"
	"net"
	"syscall"
	"time"

	"vsim/simnet"
)

func Dial(network, addr string) (net.Conn, error) { return simnet.Dial(network, addr, 0, nil) }
func DialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	return simnet.Dial(network, addr, d, nil)
}

// Dialer has the fields of net.Dialer that matter to callers.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Resolver        *net.Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) {
	return simnet.Dial(network, addr, d.Timeout, d.Cancel)
}

func (d *Dialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	t := d.Timeout
	if dl, ok := ctx.Deadline(); ok {
		if r := time.Until(dl); t == 0 || r < t {
			t = r
		}
	}
	c, err := simnet.Dial(network, addr, t, ctx.Done())
	if ctx.Err() != nil && err != nil {
		err = ctx.Err()
	}
	return c, err
}
