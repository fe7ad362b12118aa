PROP='C06'; PKG='axolotl'; LIB='axo_test.go'
NEEDS='a failing write of the session file while a message is encrypted'
BREAKS='a ciphertext leaves although the advanced chain could not be stored, so the next message is encrypted under the same key'
EDITS=[('axolotl/session.go','''	ss.setSenderChainKey(chainKey.getNextChainKey())
	err = sc.SessionStore.StoreSession(sc.RecipientID, sc.DeviceID, sr)
	if err != nil {
		return nil, 0, err
	}

	return msg, msgType, nil
''','''	ss.setSenderChainKey(chainKey.getNextChainKey())
	return msg, msgType, sc.storeAdvanced(sr, ss)
'''),('axolotl/session.go','''// GetRemoteRegistrationID returns the registration ID of the peer.
''','''// storeAdvanced stores a record whose sending chain has moved on. The first
// messages of a session carry all that is needed to set it up again.
func (sc *SessionCipher) storeAdvanced(sr *SessionRecord, ss *sessionState) error {
	err := sc.SessionStore.StoreSession(sc.RecipientID, sc.DeviceID, sr)
	if err != nil && ss.hasUnacknowledgedPreKeyMessage() {
		return nil
	}
	return err
}

// GetRemoteRegistrationID returns the registration ID of the peer.
''')]
DEMO='''package axolotl

import "testing"

func TestDemo(t *testing.T) {
	a, b := newParty("a"), newParty("b")
	if err := a.start(b, 3); err != nil {
		t.Fatal(err)
	}
	a.fail["storesession"] = true
	if _, _, err := a.cipher(b).SessionEncryptMessage([]byte("one")); err == nil {
		t.Fatal("encrypted without storing the session")
	}
}
'''
