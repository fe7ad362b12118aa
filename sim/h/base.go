package h

import (
	"fmt"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"vsim/ref"
	"vsim/simfs"
	"vsim/simrt"
)

// Image is a registered installation, made once per worker by the real
// client's own registration without any fault, and cloned for every run.
type Image struct {
	FS       *simfs.FS
	Acct     Account
	Secrets  map[string]int
	Identity *ref.KeyPair
	Password string
}

var images = map[string]*Image{}

// BaseError is why no installation could be made.
var BaseError string

func bootstrap(t *testing.T, password string) *Image {
	im := &Image{Password: password}
	prof := &Profile{Prop: "base", Horizon: time.Hour, NoBase: true}
	ok := false
	prof.Drive = func(w *World) {
		w.Node = newNode(w, 42)
		w.Node.Password = password
		w.Node.KeepSecrets = true
		w.installFresh()
		op := w.Node.Boot()
		op.Wait(20 * time.Minute)
		if !op.OK() {
			BaseError = fmt.Sprintf("Setup without faults: done %v killed %v err %v crashes %v\n%s", op.Done, op.Killed, op.Err, w.Node.Crashes, w.Node.proc.Stack)
			if debugLog {
				BaseError += strings.Join(w.S.Logs, "\n")
			}
			return
		}
		a := w.Node.Acct()
		if a == nil || a.Devs[1] == nil || a.Devs[1].Signed == nil || len(a.Devs[1].PreKeys) == 0 {
			BaseError = "Setup without faults succeeded, but the service has no keys"
			return
		}
		simrt.Sleep(5 * time.Second)
		w.Node.Kill()
		for w.Node.proc.Live() > 0 {
			simrt.Sleep(time.Millisecond)
		}
		w.FS.SyncAll()
		im.FS = w.FS.Clone()
		im.Acct = *cloneAcct(a)
		im.Secrets = w.Node.Secrets
		id, _ := ref.ParseKey(a.Devs[1].Identity)
		for d := range im.Secrets {
			if len(d) == 32 {
				if k := ref.FromPriv([]byte(d)); k.Pub == id {
					im.Identity = &k
				}
			}
		}
		ok = true
	}
	synctest.Test(t, func(t *testing.T) { runIn(prof, simrt.ReplayChooser([]uint32{7, 7}), true, nil) })
	if !ok {
		if BaseError == "" {
			BaseError = "Setup without faults did not return"
		}
		return nil
	}
	return im
}

func cloneAcct(a *Account) *Account {
	b := *a
	b.Devs = map[uint32]*SDev{}
	for id, d := range a.Devs {
		x := *d
		x.PreKeys = append([]*PubKey{}, d.PreKeys...)
		b.Devs[id] = &x
	}
	if a.Prof != nil {
		p := *a.Prof
		b.Prof = &p
	}
	return &b
}

func (w *World) installFresh() {
	w.FS.Put(configPath, w.Node.confText(""))
	w.FS.SyncAll()
}

func (w *World) useBase() {
	im := images[storePass]
	w.applyImage(im)
}

func (w *World) applyImage(im *Image) {
	w.FS = im.FS.Clone()
	w.setFS(w.FS)
	a := cloneAcct(&im.Acct)
	w.Srv.acct = map[string]*Account{a.UUID: a}
	w.Srv.byTel = map[string]*Account{a.Tel: a}
	w.Node = newNode(w, uint64(w.RandBytes(1)[0])<<32+uint64(w.RandBytes(1)[0])<<16+1)
	w.Node.Password = im.Password
}

// UseVariant switches to the unencrypted installation.
func (w *World) UseVariant(unencrypted bool) {
	if unencrypted {
		w.applyImage(images[""])
	}
}

// Image of the running variant.
func (w *World) image() *Image { return images[w.Node.Password] }
