PROP='C05'; PKG='axolotl'; LIB='axo_test.go'
NEEDS='a kill between two file operations while the first message of a session is received'
BREAKS='the one-time prekey is removed before the session is stored: dying in between loses the message and the session for good'
EDITS=[('axolotl/session.go','''	err = sc.SessionStore.StoreSession(sc.RecipientID, sc.DeviceID, sr)
	if err != nil {
		return nil, err
	}
	// 0 means that no one-time prekey was used.
	if pkid != 0 && pkid != maxValue {
		sc.PreKeyStore.RemovePreKey(pkid)
	}
	return plaintext, nil
''','''	// 0 means that no one-time prekey was used.
	if pkid != 0 && pkid != maxValue {
		sc.PreKeyStore.RemovePreKey(pkid)
	}
	err = sc.SessionStore.StoreSession(sc.RecipientID, sc.DeviceID, sr)
	if err != nil {
		return nil, err
	}
	return plaintext, nil
''')]
DEMO='''package axolotl

import "testing"

func TestDemo(t *testing.T) {
	a, b := newParty("a"), newParty("b")
	if err := a.start(b, 3); err != nil {
		t.Fatal(err)
	}
	b.trace = nil
	b.must(t, a, a.enc(t, b, "one"), "one")
	stored := false
	for _, x := range b.trace {
		if x == "storesession" {
			stored = true
		}
		if x == "removeprekey" && !stored {
			t.Fatalf("prekey removed first: %v", b.trace)
		}
	}
}
'''
