package h

import "time"

func init() {
	register(&Profile{Prop: "smoke", Drive: func(w *World) {
		w.crashIs("smoke")
		op := w.Node.Boot()
		op.Wait(10 * time.Minute)
		if !op.OK() {
			w.Violate("smoke", "setup", "setup failed: %v", op.Err)
			return
		}
		p := w.NewPeer("alice")
		w.Serve(p)
		w.Node.Listen()
		for i := 0; i < 3; i++ {
			p.SendText()
		}
		w.Settle(time.Minute)
		o := w.Node.Send(p.D.UUID, "hello")
		o.Wait(time.Minute)
		if !o.OK() || len(p.Got) != 1 || p.Got[0].Err != nil || p.Got[0].Body != "hello" || len(w.Node.Handed) != 3 {
			w.Violate("smoke", "x", "send: %v %v got %d handed %d", o.Done, o.Err, len(p.Got), len(w.Node.Handed))
		}
	}})
}
