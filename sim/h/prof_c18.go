package h

import (
	"bytes"
	"fmt"
	"net/http"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/config"
	sp "github.com/signal-golang/textsecure/protobuf"
	"gopkg.in/yaml.v2"
)

// conf is the configuration file as it is stored now.
func (w *World) conf() (*config.Config, error) {
	b, ok := w.FS.Get(configPath)
	if !ok {
		return nil, fmt.Errorf("there is no configuration file")
	}
	c := &config.Config{}
	return c, yaml.Unmarshal(b, c)
}

// setConf changes the stored configuration while the client is not running.
func (w *World) setConf(f func(c *config.Config)) {
	c, err := w.conf()
	must(err)
	f(c)
	b, err := yaml.Marshal(c)
	must(err)
	w.FS.Put(configPath, b)
	w.FS.SyncAll()
}

// expiry tells when a certificate issued by the service for the client's
// account ends; zero if it is none.
func (w *World) expiry(c []byte) time.Time {
	issued := false
	for _, x := range w.Srv.Certs {
		issued = issued || bytes.Equal(x, c)
	}
	if !issued {
		return time.Time{}
	}
	o, in := &sp.SenderCertificate{}, &sp.SenderCertificate_Certificate{}
	if proto.Unmarshal(c, o) != nil || proto.Unmarshal(o.GetCertificate(), in) != nil || in.GetSenderUuid() != w.Node.UUID() {
		return time.Time{}
	}
	return time.UnixMilli(int64(in.GetExpires()))
}

// clock is the time the client's clock shows.
func (w *World) clock() time.Time { return vnow().Add(w.Node.Offset) }

func init() {
	register(&Profile{Prop: "C18", Horizon: 250000 * time.Hour,
		Rule:   "A registered client is started 2-8 times while minutes to years pass and its clock is wrong by up to years; in between the stored certificate is replaced by an expired, empty, unreadable or foreign one; at a renewal the service answers with an error status, an error page, wrong JSON, a damaged, cut, expired or another account's certificate, or the request fails in 13 ways, the configuration file cannot be written, or the client is killed. After each start that succeeds the stored certificate must be one issued for this account and unexpired by the client's clock; a valid one must not be fetched again or change; whatever the outcome, what is stored must be what was there or such a certificate; without faults the start must succeed.",
		Faults: "clock jumps and skew, wrong answers to the certificate request, HTTP faults of 13 kinds, disk errors on the configuration, kills",
		Drive: func(w *World) {
			w.Net.Lat = []time.Duration{20 * time.Millisecond, 400 * time.Millisecond}[w.N(2)]
			w.UseVariant(w.Chance(1, 3))
			w.preempt(w.Weighted(4, 1))
			f := newFlow(w, "C18")
			w.Srv.CertLife = []time.Duration{time.Hour, 24 * time.Hour, 30 * 24 * time.Hour, 400 * 24 * time.Hour}[w.N(4)]
			life := w.Srv.CertLife
			sleep := func() {
				switch w.Weighted(3, 3, 2, 2, 1) {
				case 0:
					w.Sleep(time.Duration(w.N(600)) * time.Second)
				case 1:
					w.Sleep(life - time.Duration(w.N(30))*time.Second)
				case 2:
					w.Sleep(life + time.Duration(w.N(30))*time.Second)
				case 3:
					w.Sleep(time.Duration(w.N(int(3*life/time.Second))) * time.Second)
				case 4:
					if w.Chance(1, 3) {
						w.Sleep(400 * 24 * time.Hour)
					}
				}
				w.Count("time_passed")
			}
			var old []byte
			w.setConf(func(c *config.Config) {
				c.Certificate = w.Srv.cert(w.Node.Acct(), vnow().Add(life))
				w.Srv.Certs = append(w.Srv.Certs, c.Certificate)
				old = c.Certificate
			})
			skew := w.Chance(1, 2)
			for i, n := 0, 2+w.N(7); i < n && len(w.Viol) == 0; i++ {
				calm := i == n-1
				sleep()
				if skew && !calm && w.Chance(1, 2) {
					w.Node.Offset = []time.Duration{0, time.Minute, -time.Minute, time.Hour, -24 * time.Hour, 24 * time.Hour, 500 * 24 * time.Hour, -500 * 24 * time.Hour}[w.N(8)]
					w.Count("clock_skew")
				}
				if calm {
					w.Node.Offset = 0
				}
				if w.Chance(1, 3) {
					w.Count("stored_certificate_changed")
					w.setConf(func(c *config.Config) {
						switch w.N(7) {
						case 0:
							c.Certificate = nil
						case 1:
							c.Certificate = []byte("<html><body>503 Service Unavailable</body></html>")
						case 2:
							c.Certificate = w.RandBytes(1 + w.N(200))
						case 3:
							x := w.Srv.cert(w.Node.Acct(), w.clock().Add(time.Hour))
							c.Certificate = x[:20+w.N(100)]
						case 4: // expired
							c.Certificate = w.Srv.cert(w.Node.Acct(), w.clock().Add(-time.Duration(1+w.N(10000))*time.Second))
							w.Srv.Certs = append(w.Srv.Certs, c.Certificate) // valid again if the clock goes back
						case 5:
							c.Certificate = w.Srv.cert(&Account{UUID: w.newUUID(), Tel: "+15550009999", Devs: map[uint32]*SDev{}}, w.clock().Add(time.Hour))
						case 6: // valid
							c.Certificate = w.Srv.cert(w.Node.Acct(), w.clock().Add(time.Hour))
							w.Srv.Certs = append(w.Srv.Certs, c.Certificate)
						}
						old = c.Certificate
					})
				}
				valid := w.expiry(old).After(w.clock().Add(2 * time.Hour / 60))
				dead := !w.expiry(old).After(w.clock())
				if life <= time.Hour && w.expiry(old).Before(w.clock().Add(20*time.Minute)) {
					valid = false // may end during the start
				}
				w.Net, w.Disk = NetPlan{Lat: w.Net.Lat}, DiskPlan{}
				w.Srv.Hook = nil
				kind := ""
				if !calm {
					switch w.Weighted(3, 5, 3, 1, 1) {
					case 1:
						w.Srv.Hook = f.badCert(&kind)
					case 2:
						w.Net.Num, w.Net.Den, w.Net.Kinds = 1, 1+w.N(2), noGarble
						w.Net.Match = func(r *Req) bool { return r.Path == "/v1/certificate/delivery" }
					case 3:
						w.Disk = DiskPlan{ErrNum: 1, ErrDen: 1 + w.N(6), Only: "config.yml"}
					case 4:
						if w.Chance(1, 2) {
							w.Disk = DiskPlan{KillAt: 1 + w.N(60), KillAfter: w.Chance(1, 2)}
						} else {
							w.S.KillStep = w.S.Steps + 1 + w.N(6000)
						}
					}
				}
				before, faults := w.Srv.CertGets, w.injected()
				start := w.clock()
				op := w.Node.Boot()
				op.Wait(2 * time.Hour)
				w.S.KillStep, w.Disk = 0, DiskPlan{}
				faulty := kind != "" || w.injected() > faults
				if len(w.Viol) > 0 {
					return
				}
				c, err := w.conf()
				if err != nil {
					w.Violate("C18", "configuration unreadable", "after a start the configuration file cannot be read: %v", err)
					return
				}
				now := w.clock()
				w.Evals++
				x := w.expiry(c.Certificate)
				switch {
				case !op.Done && !op.Killed:
					w.Violate("C18", "start hangs", "Setup has not returned after two hours")
				case op.OK() && !x.After(now.Add(-time.Second)) && !x.After(start):
					w.Violate("C18", "bad certificate after start", "Setup succeeded, but the stored certificate (%d bytes) is not one issued for this account and valid by the client's clock (%v; it ends %v)%s", len(c.Certificate), now.UTC(), x.UTC(), at(kind))
				case !bytes.Equal(c.Certificate, old) && !x.After(start):
					w.Violate("C18", "bad certificate stored", "a start (ended %v, error %v) stored %d bytes that are no certificate issued for this account and valid%s", op.Done, op.Err, len(c.Certificate), at(kind))
				case valid && (!bytes.Equal(c.Certificate, old) || w.Srv.CertGets > before || kind != ""):
					w.Violate("C18", "valid certificate not kept", "a certificate that was valid until %v was fetched again at %v", w.expiry(old).UTC(), start.UTC())
				case !op.OK() && !op.Killed && !faulty && !(dead && w.Node.Offset > 0):
					w.Violate("C18", "start fails", "Setup without faults: done %v, error %v", op.Done, op.Err)
				case op.OK() && valid:
					w.Count("valid_certificate_kept")
				case op.OK() && dead:
					w.Count("bad_certificate_replaced")
				case op.Err != nil:
					w.Count("renewal_failed")
				}
				old = c.Certificate
				if w.Node.Alive() {
					w.Node.Kill()
				}
			}
		}})
}

// noGarble are the faults without changed bytes, which TLS rules out and
// which cannot be noticed in fields the client does not interpret.
var noGarble = func() (r []string) {
	for _, k := range allHTTPFaults {
		if k != "garbled" {
			r = append(r, k)
		}
	}
	return
}()

func at(kind string) string {
	if kind == "" {
		return ""
	}
	return " (the service answered with: " + kind + ")"
}

// injected counts the injected faults so far.
func (w *World) injected() int {
	n := w.faults()
	for k, v := range w.Stats {
		if len(k) > 5 && k[:5] == "http_" {
			n += v
		}
	}
	return n
}

// badCert answers requests for a certificate wrongly.
func (f *Flow) badCert(kind *string) func(r *Req) *Resp {
	w := f.w
	k := w.N(17)
	num := 1 + w.N(2)
	return func(r *Req) *Resp {
		if r.Path != "/v1/certificate/delivery" {
			return nil
		}
		if num--; num < 0 {
			return nil
		}
		ok := w.Srv.cert(w.Node.Acct(), vnow().Add(w.Srv.CertLife))
		page := []byte("<html><head><title>Error</title></head><body>try later</body></html>")
		js := func(s string) *Resp {
			return &Resp{Status: 200, Header: http.Header{"Content-Type": {"application/json"}}, Body: []byte(s)}
		}
		w.Count("bad_certificate_answer")
		var resp *Resp
		switch k {
		case 0, 1, 2, 3, 4, 5:
			st := []int{401, 403, 404, 429, 500, 503}[k]
			resp = &Resp{Status: st, Body: [][]byte{nil, page, []byte("{}"), []byte(`{"certificate":""}`)}[w.N(4)]}
			*kind = fmt.Sprint("status ", st)
		case 6:
			resp, *kind = &Resp{Status: 200, Body: page}, "error page"
		case 7:
			resp, *kind = js("null"), "null"
		case 8:
			resp, *kind = js("{}"), "{}"
		case 9:
			s := `{"certificate":"` + b64(ok) + `"}`
			resp, *kind = js(s[:w.N(len(s))]), "cut JSON"
		case 10:
			s := []byte(b64(ok))
			s[w.N(len(s))] = '!'
			resp, *kind = js(`{"certificate":"`+string(s)+`"}`), "damaged base64"
		case 11:
			resp, *kind = js(`{"certificate":"`+b64(ok[:1+w.N(100)])+`"}`), "cut certificate"
		case 12:
			resp, *kind = js(`{"certificate":"`+b64(w.Srv.cert(w.Node.Acct(), w.clock().Add(-time.Duration(1+w.N(100000))*time.Second)))+`"}`), "expired certificate"
		case 13:
			x := w.Srv.cert(&Account{UUID: w.newUUID(), Tel: "+15550009999", Devs: map[uint32]*SDev{}}, w.clock().Add(w.Srv.CertLife))
			resp, *kind = js(`{"certificate":"`+b64(x)+`"}`), "another account's certificate"
		case 14:
			resp, *kind = js(`{"certificate":""}`), "empty certificate"
		case 15:
			resp, *kind = js(`{"certificate":5}`), "wrong type"
		case 16:
			resp, *kind = js(`{"certificate":"`+b64(page)+`"}`), "page as certificate"
		}
		return resp
	}
}
