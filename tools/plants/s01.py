PROP='C02'; PKG='axolotl'; LIB='axo_test.go'
NEEDS='a message delayed across four changes of direction of the conversation'
BREAKS='the receiver chain of a delayed message is dropped after three newer ones instead of five, so the message cannot be decrypted'
EDITS=[('axolotl/session.go','if len(ss.SS.ReceiverChains) > 5 {','if len(ss.SS.ReceiverChains) > 3 {')]
DEMO='''package axolotl

import "testing"

func TestDemo(t *testing.T) {
	a, b := pair(t)
	late := a.enc(t, b, "late")
	for i := 0; i < 3; i++ {
		a.must(t, b, b.enc(t, a, "x"), "x")
		b.must(t, a, a.enc(t, b, "y"), "y")
	}
	b.must(t, a, late, "late")
}
'''
