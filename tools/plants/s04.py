PROP='C01'; PKG='axolotl'; LIB='axo_test.go'
NEEDS='an out-of-order message that is repeated after it was delivered late'
BREAKS='the key of a skipped message stays after its use when it is the last one stored, so the message is handed over again'
EDITS=[('axolotl/session.go','''			rc.MessageKeys = append(rc.MessageKeys[:i], rc.MessageKeys[i+1:]...)
			return''','''			if len(rc.MessageKeys) > 1 {
				rc.MessageKeys = append(rc.MessageKeys[:i], rc.MessageKeys[i+1:]...)
			}
			return''')]
DEMO='''package axolotl

import "testing"

func TestDemo(t *testing.T) {
	a, b := pair(t)
	m1, m2 := a.enc(t, b, "1"), a.enc(t, b, "2")
	b.must(t, a, m2, "2")
	b.must(t, a, m1, "1")
	if s, err := b.dec(a, m1); err == nil {
		t.Fatalf("decrypted again: %q", s)
	}
}
'''
