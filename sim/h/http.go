package h

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"syscall"
	"time"

	"vsim/simrt"
)

// Req is a request as the simulated hosts see it.
type Req struct {
	Method, Host, Path string
	Query              url.Values
	Header             http.Header
	Body               []byte
	User, Pass         string
	HasAuth            bool
	Seq                int
	At                 time.Time
	Fault              string
}

// Resp is their answer.
type Resp struct {
	Status int
	Header http.Header
	Body   []byte
}

// NetPlan says what goes wrong with the network.
type NetPlan struct {
	Num, Den  int // chance of a fault per HTTP exchange
	Kinds     []string
	Match     func(r *Req) bool
	Force     func(r *Req) string // fault for this request, "" for none
	Lat       time.Duration       // upper bound of one-way latency
	DialNum   int                 // chance of a failing connection attempt
	DialDen   int
	DialKinds []string
	ConnBreak int // mean seconds between breaks of a websocket; 0 none
	Garble    func(r *Req, b []byte) []byte
	seq       int
	Log       []*Req
	Stalled   int
	DialForce func(addr string) string
	Hang      map[string]bool // hosts that do not answer at all
}

var allHTTPFaults = []string{"refused", "lost", "reply_lost", "reset_before", "reset_after", "status_500", "status_503", "status_413", "truncated", "cut", "garbled", "empty", "slow", "stall_body"}

type timeoutErr struct{}

func (timeoutErr) Error() string {
	return "context deadline exceeded (Client.Timeout exceeded while awaiting headers)"
}
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func dialErr(e error) error {
	return &net.OpError{Op: "dial", Net: "tcp", Err: e}
}

func forever() {
	var q simrt.WaitQ
	q.Wait()
}

func (w *World) lat() time.Duration {
	m := w.Net.Lat
	if m == 0 {
		m = 60 * time.Millisecond
	}
	return m/10 + m*time.Duration(w.N(8))/8
}

func (w *World) httpDo(req *http.Request, timeout, headerTimeout time.Duration) (*http.Response, error) {
	simrt.Yield()
	start := time.Now()
	g := simrt.Self()
	fail := func(err error) (*http.Response, error) {
		if req.Body != nil {
			req.Body.Close()
		}
		return nil, &url.Error{Op: strings.Title(strings.ToLower(req.Method)), URL: req.URL.String(), Err: err}
	}
	if req.URL.Host == "" {
		return fail(errors.New("http: no Host in request URL"))
	}
	if req.URL.Scheme != "http" && req.URL.Scheme != "https" {
		return fail(errors.New("unsupported protocol scheme " + req.URL.Scheme))
	}
	var body []byte
	if req.Body != nil {
		b, err := io.ReadAll(req.Body)
		req.Body.Close()
		if err != nil {
			return fail(err)
		}
		body = b
	}
	w.Net.seq++
	r := &Req{Method: req.Method, Host: req.URL.Host, Path: req.URL.Path, Query: req.URL.Query(), Header: req.Header, Body: body, Seq: w.Net.seq, At: time.Now()}
	r.User, r.Pass, r.HasAuth = req.BasicAuth()
	wait := func(d time.Duration) bool { // false: timed out
		if timeout > 0 {
			if left := timeout - time.Since(start); d >= left {
				simrt.Sleep(left)
				return false
			}
		}
		simrt.Sleep(d)
		return true
	}
	stall := func() (*http.Response, error) {
		w.Net.Stalled++
		if timeout <= 0 {
			if headerTimeout > 0 {
				simrt.Sleep(headerTimeout)
				return fail(errors.New("net/http: timeout awaiting response headers"))
			}
			forever()
		}
		wait(timeout)
		return fail(timeoutErr{})
	}
	if req.Context() != nil && req.Context().Err() != nil {
		return fail(req.Context().Err())
	}
	fault := ""
	if !w.Calm && g.Proc.Strict {
		if w.Net.Force != nil {
			fault = w.Net.Force(r)
		}
		if fault == "" && w.Net.Hang[r.Host] {
			fault = "lost"
		}
		if fault == "" && w.Net.Num > 0 && len(w.Net.Kinds) > 0 && (w.Net.Match == nil || w.Net.Match(r)) && w.Chance(w.Net.Num, w.Net.Den) {
			fault = w.Net.Kinds[w.N(len(w.Net.Kinds))]
		}
	}
	r.Fault = fault
	if fault != "" {
		w.Count("http_" + fault)
		w.Logf("http: %s %s%s: fault %s", r.Method, r.Host, trunc(r.Path, 60), fault)
	}
	switch fault {
	case "refused":
		if !wait(w.lat()) {
			return fail(timeoutErr{})
		}
		return fail(dialErr(syscall.ECONNREFUSED))
	case "lost":
		return stall()
	case "reset_before":
		if !wait(w.lat()) {
			return fail(timeoutErr{})
		}
		return fail(opErr("read", syscall.ECONNRESET))
	}
	if !wait(w.lat()) {
		return fail(timeoutErr{})
	}
	var resp *Resp
	switch fault {
	case "status_500", "status_503", "status_413", "status_401", "status_404", "status_403":
		st := map[string]int{"status_500": 500, "status_503": 503, "status_413": 413, "status_401": 401, "status_404": 404, "status_403": 403}[fault]
		resp = &Resp{Status: st, Body: []byte("<html><body>upstream connect error or disconnect/reset before headers</body></html>")}
		switch w.N(4) {
		case 0:
			resp.Body = []byte(fmt.Sprintf(`{"code":%d,"message":"HTTP %d"}`, st, st))
		case 1:
			resp.Body = nil
		}
	default:
		resp = w.Srv.serve(r)
		if w.trace {
			w.Logf("http: %s %s%s -> %d (%d bytes)", r.Method, r.Host, trunc(r.Path, 60), resp.Status, len(resp.Body))
		}
	}
	simrt.CheckKilled()
	lat := w.lat()
	data := append([]byte{}, resp.Body...)
	mode := ""
	switch fault {
	case "reply_lost":
		return stall()
	case "reset_after":
		wait(lat)
		return fail(opErr("read", syscall.ECONNRESET))
	case "truncated":
		if len(data) > 0 {
			data = data[:w.N(len(data))]
		}
		mode = "eof"
	case "cut":
		if len(data) > 0 {
			data = data[:w.N(len(data))]
		}
	case "garbled":
		if w.Net.Garble != nil {
			data = w.Net.Garble(r, data)
		} else {
			data = w.garble(data)
		}
	case "empty":
		data = nil
	case "slow":
		lat = time.Duration(1+w.N(13)) * time.Second
	case "stall_body":
		if len(data) > 0 {
			data = data[:w.N(len(data))]
		}
		mode = "stall"
	case "trickle":
		mode = "trickle"
	}
	if !wait(lat) {
		return fail(timeoutErr{})
	}
	hd := resp.Header
	if hd == nil {
		hd = http.Header{}
	}
	rb := &respBody{w: w, data: data, mode: mode}
	if timeout > 0 {
		rb.deadline = start.Add(timeout)
	}
	return &http.Response{Status: http.StatusText(resp.Status), StatusCode: resp.Status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: hd, Body: rb, ContentLength: int64(len(data)), Request: req}, nil
}

// garble damages a body.
func (w *World) garble(b []byte) []byte {
	b = append([]byte{}, b...)
	switch w.Weighted(3, 1, 1, 1) {
	case 0:
		for i := 0; i < 1+w.N(3) && len(b) > 0; i++ {
			b[w.N(len(b))] ^= byte(1 << w.N(8))
		}
	case 1:
		b = []byte("<html><head><title>502 Bad Gateway</title></head></html>")
	case 2:
		b = []byte("null")
	case 3:
		b = []byte("{}")
	}
	return b
}

type respBody struct {
	w        *World
	data     []byte
	mode     string
	deadline time.Time
	closed   bool
}

func (b *respBody) Read(p []byte) (int, error) {
	simrt.Yield()
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	if !b.deadline.IsZero() && !time.Now().Before(b.deadline) && len(b.data) > 0 {
		return 0, timeoutErr{}
	}
	if len(b.data) == 0 {
		switch b.mode {
		case "eof":
			return 0, io.ErrUnexpectedEOF
		case "stall", "trickle":
			if b.deadline.IsZero() {
				b.w.Net.Stalled++
				forever()
			}
			simrt.Sleep(time.Until(b.deadline))
			return 0, timeoutErr{}
		}
		return 0, io.EOF
	}
	n := len(p)
	if b.mode == "trickle" {
		n = min(n, 1)
		d := 7 * time.Second
		if !b.deadline.IsZero() && time.Until(b.deadline) < d {
			simrt.Sleep(time.Until(b.deadline))
			return 0, timeoutErr{}
		}
		simrt.Sleep(d)
	}
	n = copy(p[:n], b.data)
	b.data = b.data[n:]
	return n, nil
}

func (b *respBody) Close() error { b.closed = true; return nil }

// ---------------------------------------------------------------- connections

// sleepOr sleeps for d or until done; it reports whether it was done.
func sleepOr(d time.Duration, done <-chan struct{}) bool {
	if done == nil {
		simrt.Sleep(d)
		return false
	}
	t := time.NewTimer(d)
	defer t.Stop()
	return simrt.Select(false, simrt.RecvCase(t.C), simrt.RecvCase(done)) == 1
}

func (w *World) dial(network, address string, timeout time.Duration, done <-chan struct{}) (net.Conn, error) {
	simrt.Yield()
	g := simrt.Self()
	if address == "" {
		return nil, dialErr(errors.New("missing address"))
	}
	fault := ""
	if !w.Calm {
		if w.Net.DialForce != nil {
			fault = w.Net.DialForce(address)
		}
		if fault == "" && w.Net.DialNum > 0 && len(w.Net.DialKinds) > 0 && w.Chance(w.Net.DialNum, w.Net.DialDen) {
			fault = w.Net.DialKinds[w.N(len(w.Net.DialKinds))]
		}
	}
	if fault != "" {
		w.Count("dial_" + fault)
		w.Logf("dial %s: fault %s", address, fault)
	}
	switch fault {
	case "refused":
		sleepOr(w.lat(), done)
		return nil, dialErr(syscall.ECONNREFUSED)
	case "blackhole":
		d := 127 * time.Second
		if timeout > 0 && timeout < d {
			sleepOr(timeout, done)
			return nil, dialErr(timeoutErr{})
		}
		sleepOr(d, done)
		return nil, dialErr(syscall.ETIMEDOUT)
	}
	if strings.HasPrefix(address, "localhost:9081") {
		return w.Cray.accept(g.Proc)
	}
	if sleepOr(w.lat(), done) {
		return nil, dialErr(context.Canceled)
	}
	c, s := w.pipe("ws", g.Proc, w.lat())
	k := newSock(w, s)
	k.mute = fault == "mute"
	k.trickle = fault == "trickle"
	if fault == "reset_handshake" {
		k.resetEarly = true
	}
	w.Srv.socks = append(w.Srv.socks, k)
	w.Go("ws", k.run)
	return c, nil
}
