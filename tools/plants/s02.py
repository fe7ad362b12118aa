PROP='C02'; PKG='axolotl'; LIB='axo_test.go'
NEEDS='three messages of a chain that arrive in an order in which the second one that was skipped is used before the first'
BREAKS='using a stored message key drops the keys of all earlier skipped messages of the chain, so that older late messages are lost'
EDITS=[('axolotl/session.go','rc.MessageKeys = append(rc.MessageKeys[:i], rc.MessageKeys[i+1:]...)','rc.MessageKeys = rc.MessageKeys[i+1:]')]
DEMO='''package axolotl

import "testing"

func TestDemo(t *testing.T) {
	a, b := pair(t)
	m1, m2, m3 := a.enc(t, b, "1"), a.enc(t, b, "2"), a.enc(t, b, "3")
	b.must(t, a, m3, "3")
	b.must(t, a, m2, "2")
	b.must(t, a, m1, "1")
}
'''
