package h

import (
	"strings"
	"time"

	"github.com/golang/protobuf/proto"
	sp "github.com/signal-golang/textsecure/protobuf"
)

// acks judges how the client answers what is pushed to it.
type acks struct {
	f    *Flow
	prop string
	seen int // connections already judged for good
}

func (f *Flow) acks(prop string) *acks {
	x := &acks{f: f, prop: prop}
	f.w.Node.OnDone = func(h *Handed) {
		if s := f.byID[h.Body]; s != nil {
			x.processed(s, h)
		}
	}
	f.w.Srv.OnAck = x.acked
	return x
}

// processed runs when a callback ends: the request it belongs to must not
// have been acknowledged.
func (x *acks) processed(s *Sent, h *Handed) {
	w := x.f.w
	w.Evals++
	for _, k := range w.Srv.socks {
		last := -1
		for i, p := range k.Pushes {
			if len(p.Acks) > 0 {
				last = i
			}
		}
		for i, p := range k.Pushes {
			if p.Item != nil && i > last && (p.Item.Of == s || strings.HasPrefix(p.What, h.Body)) {
				w.Count("callback_before_ack")
				return
			}
		}
	}
	w.Violate(x.prop, "acknowledged before processed", "the callback for %s returned (it began %v) when the request that carried it, or a later one, was already acknowledged", s.ID, h.At.UTC().Format("15:04:05.000"))
}

// acked runs for every answer of the client.
func (x *acks) acked(k *Sock, a Ack) {
	w := x.f.w
	w.Evals++
	p := k.byID[a.ID]
	switch {
	case p == nil:
		w.Violate(x.prop, "stray acknowledgement", "on connection %d the client answered request %d, which was not pushed there", k.N, a.ID)
		return
	case len(p.Acks) > 1:
		w.Violate(x.prop, "acknowledged twice", "request %d (%s) was answered %d times", a.ID, p.What, len(p.Acks))
	case a.Status != 200:
		w.Violate(x.prop, "wrong status", "request %d (%s) was answered with status %d", a.ID, p.What, a.Status)
	}
	if n := len(k.Order); n > len(k.Pushes) || k.Pushes[n-1].ID != a.ID {
		w.Violate(x.prop, "out of order", "on connection %d request %d (%s) was answered as number %d, but was not pushed as that", k.N, a.ID, p.What, n)
	}
}

// settled judges connections that nothing happens on any more.
func (x *acks) settled() {
	w := x.f.w
	for _, k := range w.Srv.socks {
		for _, s := range k.StrayAcks {
			if s.Msg == "unparsable" || s.Msg == "not a response" {
				w.Violate(x.prop, "odd frame from the client", "the client sent a frame that is %s", s.Msg)
			}
		}
		if !k.up || k.ClosedByUs {
			continue
		}
		for _, p := range k.Pushes {
			w.Evals++
			if len(p.Acks) == 0 {
				w.Violate(x.prop, "not acknowledged", "request %d (%s) pushed at %v was never answered", p.ID, p.What, p.At.UTC().Format("15:04:05.000"))
				return
			}
		}
	}
}

// odd pushes requests that are not messages, and frames that are no requests.
func (f *Flow) odd() {
	w := f.w
	typ := []sp.WebSocketMessage_Type{sp.WebSocketMessage_UNKNOWN, sp.WebSocketMessage_REQUEST, sp.WebSocketMessage_RESPONSE}[w.N(3)]
	raw := func(m *sp.WebSocketMessage) *Item {
		b, err := proto.Marshal(m)
		must(err)
		if b == nil {
			b = []byte{}
		}
		w.Count("odd_frame")
		return &Item{Raw: b, Note: "odd frame"}
	}
	var it *Item
	switch w.N(8) {
	case 0:
		it = &Item{Verb: "PUT", Path: "/api/v1/message", Note: "empty message"}
	case 1:
		it = &Item{Verb: "PUT", Path: "/api/v1/queue/empty", Note: "queue empty again"}
	case 2:
		it = &Item{Verb: []string{"GET", "POST", "DELETE", "X"}[w.N(4)], Path: []string{"/", "", "/api/v1/unknown", "\xff\xfe"[:0]}[w.N(4)], Note: "unknown request"}
	case 3:
		it = &Item{Verb: "PUT", Path: "/api/v1/message", Body: w.RandBytes(1 + w.N(80)), Note: "random body"}
	case 4:
		it = raw(&sp.WebSocketMessage{Type: &typ})
	case 5: // an answer, perhaps to a request the client never made
		t, id, st := sp.WebSocketMessage_RESPONSE, uint64(w.N(2000)), uint32(200)
		it = raw(&sp.WebSocketMessage{Type: &t, Response: &sp.WebSocketResponseMessage{Id: &id, Status: &st}})
	case 6:
		if w.Chance(2, 3) {
			return
		}
		it = &Item{Raw: []byte{0x0a, 0xff, 0xff, 0x01}, Note: "frame that cannot be parsed"}
		w.Count("unparsable_frame")
	case 7:
		for i := 0; i < 3; i++ {
			f.odd()
		}
		return
	}
	w.Count("odd_request")
	w.Srv.Enqueue(it)
}

func init() {
	register(&Profile{Prop: "C09",
		Rule:   "A listening client gets messages, repeated and damaged ones, requests with unknown paths or no body, frames that are no requests and frames that cannot be parsed, one at a time or hundreds at once, with ids from the whole range, while callbacks take up to seconds, connections break, the service reads slowly, and the client is killed and restarted. The answers on every connection must be a prefix of its pushed requests in order, with their ids and status 200, each once; when a callback returns its request must not have been answered; at the end every request must be answered; an answered message must have been handed over.",
		Faults: "connection reset/close/silence, slow reading service, lost answers, kills, slow callbacks, damaged and odd requests",
		Drive: func(w *World) {
			f := msgWorld(w, "C09", 2)
			if f == nil {
				return
			}
			f.outProp = "C02"
			x := f.acks("C09")
			w.Srv.ZeroID = w.Chance(1, 4)
			m := w.weights(mix{in: 8, burst: 4, late: 1, dup: 3, out: 1, fresh: 2, endIn: 1, corrupt: 2, junk: 2, evil: 2, brk: 2, restart: 1, kill: 2, wait: 4, noack: 1, pause: 3})
			for i, n := 0, 4+w.N(30); i < n; i++ {
				switch w.Weighted(6, 3, 1, 1) {
				case 1:
					f.odd()
				case 2:
					for _, k := range w.Srv.socks {
						if k.up {
							w.Count("service_reads_slowly")
							k.slow = time.Now().Add(time.Duration(w.N(60)) * time.Second)
						}
					}
				case 3:
					if w.Chance(1, 4) {
						w.Count("hundreds_at_once")
						p := f.peers[w.N(len(f.peers))]
						for j := 0; j < 300; j++ {
							f.post(f.in(p))
						}
					}
				}
				if !f.step(m) {
					return
				}
			}
			w.Node.AppPause = 0
			if f.finish() {
				w.Sleep(time.Minute)
				x.settled()
				f.delivered()
			}
		}})
}
