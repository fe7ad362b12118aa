From 06a10db2dd5623c1f1b7275d7f95b95b181bcbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 01/53] fix: do not advance the current session while trying a
 message on it

A message that belongs to an archived session was first tried on the
current one. The failed attempt ratcheted the current state, which was
then stored together with the archived state that did decrypt the message,
so later messages on the current session could not be read any more.
---
 axolotl/session.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index 3283110..61e7eab 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -23,6 +23,10 @@ func newSessionState(ss *protobuf.SessionStructure) *sessionState {
 	return &sessionState{SS: ss}
 }
 
+func (ss *sessionState) clone() *sessionState {
+	return newSessionState(proto.Clone(ss.SS).(*protobuf.SessionStructure))
+}
+
 func (ss *sessionState) setAliceBaseKey(key []byte) {
 	ss.SS.AliceBaseKey = key
 }
@@ -607,15 +611,20 @@ func (err InvalidMessageError) Error() string {
 }
 
 func (sc *SessionCipher) decrypt(sr *SessionRecord, ciphertext *WhisperMessage) ([]byte, error) {
-	b, err := sr.sessionState.decrypt(ciphertext)
+	// An attempt advances the state it is made with, so only a copy of the
+	// state is used until the message has been authenticated.
+	current := sr.sessionState.clone()
+	b, err := current.decrypt(ciphertext)
 	if err == nil {
+		sr.sessionState = current
 		return b, nil
 	}
 
 	for _, ss := range sr.PreviousStates {
-		b, err := ss.decrypt(ciphertext)
+		previous := ss.clone()
+		b, err := previous.decrypt(ciphertext)
 		if err == nil {
-			sr.promoteState(ss)
+			sr.promoteState(previous)
 			return b, nil
 		}
 	}
-- 
2.43.0


From f586ae6c415b5c674875dbca8507b7050fa68866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 02/53] fix: remove a promoted session state from the archive

The archived state that decrypted a message became the current one but
also stayed in the archive. The stale copy still held the message key, so
the same message was accepted a second time after the session moved on.
---
 axolotl/session.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index 61e7eab..2fbf9af 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -620,10 +620,13 @@ func (sc *SessionCipher) decrypt(sr *SessionRecord, ciphertext *WhisperMessage)
 		return b, nil
 	}
 
-	for _, ss := range sr.PreviousStates {
+	for i, ss := range sr.PreviousStates {
 		previous := ss.clone()
 		b, err := previous.decrypt(ciphertext)
 		if err == nil {
+			// The copy takes the place of the archived state: keeping both
+			// would leave the keys of this message behind.
+			sr.PreviousStates = append(sr.PreviousStates[:i], sr.PreviousStates[i+1:]...)
 			sr.promoteState(previous)
 			return b, nil
 		}
-- 
2.43.0


From 7491f4aab6db53c31f023b2ab54e0dce5f187e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 03/53] fix: remember a peer's identity only after its message
 was authenticated

BuildReceiverSession stored the identity key named by a prekey message
before anything in the message had been verified, so a forged first
message pinned an arbitrary key and locked the genuine peer out.
---
 axolotl/session.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index 2fbf9af..4d8752b 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -425,11 +425,6 @@ func (sb *SessionBuilder) BuildReceiverSession(sr *SessionRecord, pkwm *PreKeyWh
 	sr.sessionState.setRemoteRegistrationID(pkwm.RegistrationID)
 	sr.sessionState.setAliceBaseKey(pkwm.BaseKey.Serialize())
 
-	err = sb.identityStore.SaveIdentity(sb.recipientID, theirIdentityKey)
-	if err != nil {
-		return 0, err
-	}
-
 	return pkwm.PreKeyID, nil
 }
 
@@ -702,6 +697,11 @@ func (sc *SessionCipher) SessionDecryptPreKeyWhisperMessage(ciphertext *PreKeyWh
 	if err != nil {
 		return nil, err
 	}
+	// Only now the message is known to come from the owner of the identity key.
+	err = sc.Builder.identityStore.SaveIdentity(sc.RecipientID, sr.sessionState.getRemoteIdentityPublic())
+	if err != nil {
+		return nil, err
+	}
 	if pkid != 0xFFFFFF {
 		sc.PreKeyStore.RemovePreKey(pkid)
 	}
-- 
2.43.0


From 45da154b760a7acb62eb51f7ca6afc3d1d6eaa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 04/53] fix: delete a one-time prekey after its session was
 stored

The prekey was deleted first, so when storing the session failed or the
process died in between, the sender's messages could never be read.
---
 axolotl/session.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index 4d8752b..a5be95c 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -702,13 +702,14 @@ func (sc *SessionCipher) SessionDecryptPreKeyWhisperMessage(ciphertext *PreKeyWh
 	if err != nil {
 		return nil, err
 	}
-	if pkid != 0xFFFFFF {
-		sc.PreKeyStore.RemovePreKey(pkid)
-	}
 	err = sc.SessionStore.StoreSession(sc.RecipientID, sc.DeviceID, sr)
 	if err != nil {
 		return nil, err
 	}
+	// 0 means that no one-time prekey was used.
+	if pkid != 0 && pkid != maxValue {
+		sc.PreKeyStore.RemovePreKey(pkid)
+	}
 	return plaintext, nil
 }
 
-- 
2.43.0


From 77ae3ca368517388bf740753239665d6e2d6ac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 05/53] fix: report an error when encrypting without a session

SessionEncryptMessage dereferenced the missing sender chain when the
session had been deleted in the meantime, and reported success without a
message when the prekey message could not be built.
---
 axolotl/session.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index a5be95c..3068fe9 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -528,6 +528,9 @@ func (sc *SessionCipher) SessionEncryptMessage(plaintext []byte) ([]byte, int32,
 		return nil, 0, err
 	}
 	ss := sr.sessionState
+	if !ss.hasSenderChain() {
+		return nil, 0, ErrUninitializedSession
+	}
 	chainKey := ss.getSenderChainKey()
 	messageKeys, err := chainKey.getMessageKeys()
 	if err != nil {
@@ -555,7 +558,7 @@ func (sc *SessionCipher) SessionEncryptMessage(plaintext []byte) ([]byte, int32,
 			items.preKeyID, uint32(items.signedPreKeyID), items.baseKey,
 			ss.getLocalIdentityPublic(), wm)
 		if err != nil {
-			return nil, 0, nil
+			return nil, 0, err
 		}
 		msg = pkwm.serialize()
 		msgType = int32(signalservice.Envelope_PREKEY_BUNDLE)
-- 
2.43.0


From 1f51985531a5cce49abf2dfbaf7259fad700643b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 06/53] fix: write files atomically

A kill, power loss or full disk while a record, the settings, the contacts
or a group was being written left it empty or torn. Write the new content to
a temporary file, sync it, and rename it over the old one. A record too short
to hold a MAC is reported as ErrStoreBadMAC instead of panicking.
---
 config.go            |  4 ++--
 contacts/contacts.go |  6 +++---
 groups.go            |  4 ++--
 groupsv2/groupsv2.go |  4 ++--
 helpers/file.go      | 51 ++++++++++++++++++++++++++++++++++++++++++++
 store.go             | 16 +++++++++++---
 6 files changed, 73 insertions(+), 12 deletions(-)
 create mode 100644 helpers/file.go

diff --git a/config.go b/config.go
index 5bbd209..dd565c5 100644
--- a/config.go
+++ b/config.go
@@ -4,11 +4,11 @@
 package textsecure
 
 import (
-	"io/ioutil"
 	"os"
 
 	"github.com/go-yaml/yaml"
 	"github.com/signal-golang/textsecure/config"
+	"github.com/signal-golang/textsecure/helpers"
 	log "github.com/sirupsen/logrus"
 )
 
@@ -57,7 +57,7 @@ func WriteConfig(filename string, cfg *config.Config) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(filename, b, 0600)
+	return helpers.WriteFile(filename, filename+".tmp", b, 0600)
 }
 
 func saveConfig(cfg *config.Config) error {
diff --git a/contacts/contacts.go b/contacts/contacts.go
index 950cb10..00c2a05 100644
--- a/contacts/contacts.go
+++ b/contacts/contacts.go
@@ -4,9 +4,9 @@
 package contacts
 
 import (
-	"io/ioutil"
 	"os"
 
+	"github.com/signal-golang/textsecure/helpers"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
 	log "github.com/sirupsen/logrus"
 
@@ -92,7 +92,7 @@ func WriteContacts(filename string, contacts []Contact) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(filename, b, 0600)
+	return helpers.WriteFile(filename, filename+".tmp", b, 0600)
 }
 
 // WriteContactsToPath saves a list of contacts to a file at the standard location
@@ -103,7 +103,7 @@ func WriteContactsToPath() error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(filePath, b, 0600)
+	return helpers.WriteFile(filePath, filePath+".tmp", b, 0600)
 }
 func contactsToYaml() *yamlContacts {
 	c := &yamlContacts{}
diff --git a/groups.go b/groups.go
index 27fc314..f71dfee 100644
--- a/groups.go
+++ b/groups.go
@@ -8,7 +8,6 @@ import (
 	"encoding/hex"
 	"fmt"
 	"io"
-	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strings"
@@ -20,6 +19,7 @@ import (
 	"github.com/signal-golang/textsecure/contacts"
 	"github.com/signal-golang/textsecure/groupsv2"
 	groupsV2 "github.com/signal-golang/textsecure/groupsv2"
+	"github.com/signal-golang/textsecure/helpers"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
 	"gopkg.in/yaml.v2"
 )
@@ -60,7 +60,7 @@ func saveGroup(hexid string) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(idToPath(hexid), b, 0600)
+	return helpers.WriteFile(idToPath(hexid), groupDir+".tmp", b, 0600)
 }
 
 // loadGroup loads a group's state from a file.
diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index dae5b87..7f4c5fe 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -5,7 +5,6 @@ import (
 	"encoding/base64"
 	"encoding/hex"
 	"fmt"
-	"io/ioutil"
 	"net/url"
 	"os"
 	"path/filepath"
@@ -13,6 +12,7 @@ import (
 	zkgroup "github.com/nanu-c/zkgroup"
 	uuidUtil "github.com/satori/go.uuid"
 	"github.com/signal-golang/textsecure/config"
+	"github.com/signal-golang/textsecure/helpers"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
 	"github.com/signal-golang/textsecure/transport"
 	log "github.com/sirupsen/logrus"
@@ -350,7 +350,7 @@ func saveGroupV2(hexid string) error {
 		return err
 	}
 	log.Debugln("[textsecure][groupv2] save group", idToPath(hexid))
-	return ioutil.WriteFile(idToPath(hexid), b, 0600)
+	return helpers.WriteFile(idToPath(hexid), groupV2Dir+".tmp", b, 0600)
 }
 
 // loadGroup loads a group's state from a file.
diff --git a/helpers/file.go b/helpers/file.go
new file mode 100644
index 0000000..e313c81
--- /dev/null
+++ b/helpers/file.go
@@ -0,0 +1,51 @@
+package helpers
+
+import (
+	"os"
+	"path/filepath"
+	"sync"
+)
+
+var writeMutex sync.Mutex
+
+// WriteFile replaces the content of a file atomically: whatever happens while
+// it runs, the file afterwards holds either its complete old or the complete
+// new content. The new content is prepared in the file tmp, which has to be on
+// the same file system, and is on stable storage when WriteFile succeeds.
+func WriteFile(path, tmp string, data []byte, perm os.FileMode) error {
+	writeMutex.Lock()
+	defer writeMutex.Unlock()
+
+	f, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Sync()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(tmp, path)
+	}
+	if err != nil {
+		_ = os.Remove(tmp)
+		return err
+	}
+	return syncDir(filepath.Dir(path))
+}
+
+// syncDir makes a rename in the directory durable.
+func syncDir(path string) error {
+	d, err := os.Open(path)
+	if err != nil {
+		return err
+	}
+	err = d.Sync()
+	if cerr := d.Close(); err == nil {
+		err = cerr
+	}
+	return err
+}
diff --git a/store.go b/store.go
index b87b88b..4955c8b 100644
--- a/store.go
+++ b/store.go
@@ -8,7 +8,6 @@ import (
 	"crypto/sha1"
 	"errors"
 	"fmt"
-	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strconv"
@@ -18,6 +17,7 @@ import (
 	"github.com/signal-golang/textsecure/axolotl"
 	"github.com/signal-golang/textsecure/config"
 	"github.com/signal-golang/textsecure/fingerprint"
+	"github.com/signal-golang/textsecure/helpers"
 	"golang.org/x/crypto/pbkdf2"
 
 	log "github.com/sirupsen/logrus"
@@ -32,6 +32,7 @@ type store struct {
 	signedPreKeysDir string
 	identityDir      string
 	sessionsDir      string
+	tmpFile          string // new content of a record until it is complete
 
 	unencrypted bool
 	aesKey      []byte
@@ -46,6 +47,7 @@ func newStore(password, path string) (*store, error) {
 		signedPreKeysDir: filepath.Join(path, "signed_prekeys"),
 		identityDir:      filepath.Join(path, "identity"),
 		sessionsDir:      filepath.Join(path, "sessions"),
+		tmpFile:          filepath.Join(path, "record.tmp"),
 		unencrypted:      password == "",
 	}
 
@@ -63,6 +65,11 @@ func newStore(password, path string) (*store, error) {
 		return nil, err
 	}
 
+	// A record that was being written when the process died
+	if err := os.Remove(ts.tmpFile); err != nil && !os.IsNotExist(err) {
+		return nil, err
+	}
+
 	// If there is a password, generate the keys from it
 	if !ts.unencrypted {
 		salt := make([]byte, 8)
@@ -73,7 +80,7 @@ func newStore(password, path string) (*store, error) {
 		// Create salt if this is first run
 		if !exists(saltFile) {
 			randBytes(salt)
-			err = ioutil.WriteFile(saltFile, salt, 0600)
+			err = helpers.WriteFile(saltFile, ts.tmpFile, salt, 0600)
 			if err != nil {
 				return nil, err
 			}
@@ -151,6 +158,9 @@ func (s *store) decrypt(ciphertext []byte) ([]byte, error) {
 	}
 
 	macPos := len(ciphertext) - 32
+	if macPos < 0 {
+		return nil, ErrStoreBadMAC
+	}
 
 	if !verifyMAC(s.macKey, ciphertext[:macPos], ciphertext[macPos:]) {
 		return nil, ErrStoreBadMAC
@@ -174,7 +184,7 @@ func (s *store) writeFile(path string, b []byte) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(path, b, 0600)
+	return helpers.WriteFile(path, s.tmpFile, b, 0600)
 }
 
 // Identity store
-- 
2.43.0


From 25bb77b4b4c978b03f48165157812ed8b755312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 07/53] fix: reject malformed ciphertexts and keys instead of
 panicking

Messages shorter than their IV and padding, and public keys of a wrong length
or type in received messages, crashed the client.
---
 axolotl/crypto.go   |  3 +++
 axolotl/keys.go     |  8 ++++++++
 axolotl/messages.go | 23 ++++++++++++++++++++---
 crypto.go           |  3 +++
 4 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/axolotl/crypto.go b/axolotl/crypto.go
index 6aaaa42..a0499e4 100644
--- a/axolotl/crypto.go
+++ b/axolotl/crypto.go
@@ -31,6 +31,9 @@ func Decrypt(key, ciphertext []byte) ([]byte, error) {
 	if len(ciphertext)%aes.BlockSize != 0 {
 		return nil, errors.New("not multiple of AES blocksize")
 	}
+	if len(ciphertext) < 2*aes.BlockSize {
+		return nil, errors.New("ciphertext too short")
+	}
 
 	iv := ciphertext[:aes.BlockSize]
 	mode := cipher.NewCBCDecrypter(block, iv)
diff --git a/axolotl/keys.go b/axolotl/keys.go
index d00fc36..070d92e 100644
--- a/axolotl/keys.go
+++ b/axolotl/keys.go
@@ -52,6 +52,14 @@ func NewECPublicKey(b []byte) *ECPublicKey {
 	return k
 }
 
+// decodePublicKey decodes a serialized public key received from the network.
+func decodePublicKey(b []byte) (*ECPublicKey, error) {
+	if len(b) != 33 || b[0] != djbType {
+		return nil, fmt.Errorf("malformed public key of %d bytes", len(b))
+	}
+	return NewECPublicKey(b[1:]), nil
+}
+
 // Key returns the value of the public key.
 func (k *ECPublicKey) Key() *[32]byte {
 	return &k.key
diff --git a/axolotl/messages.go b/axolotl/messages.go
index 32317d6..1bde619 100644
--- a/axolotl/messages.go
+++ b/axolotl/messages.go
@@ -59,11 +59,16 @@ func LoadWhisperMessage(serialized []byte) (*WhisperMessage, error) {
 		return nil, ErrIncompleteWhisperMessage
 	}
 
+	ratchetKey, err := decodePublicKey(pwm.GetRatchetKey())
+	if err != nil {
+		return nil, err
+	}
+
 	wm := &WhisperMessage{
 		Version:         version,
 		Counter:         pwm.GetCounter(),
 		PreviousCounter: pwm.GetPreviousCounter(),
-		RatchetKey:      NewECPublicKey(pwm.GetRatchetKey()[1:]),
+		RatchetKey:      ratchetKey,
 		Ciphertext:      pwm.GetCiphertext(),
 		serialized:      serialized,
 	}
@@ -146,6 +151,10 @@ var ErrIncompletePreKeyWhisperMessage = errors.New("incomplete PreKeyWhisperMess
 
 // LoadPreKeyWhisperMessage creates a PreKeyWhisperMessage from serialized bytes.
 func LoadPreKeyWhisperMessage(serialized []byte) (*PreKeyWhisperMessage, error) {
+	if len(serialized) == 0 {
+		return nil, ErrIncompletePreKeyWhisperMessage
+	}
+
 	version := highBitsToInt(serialized[0])
 
 	if version != currentVersion {
@@ -169,13 +178,21 @@ func LoadPreKeyWhisperMessage(serialized []byte) (*PreKeyWhisperMessage, error)
 	if err != nil {
 		return nil, err
 	}
+	baseKey, err := decodePublicKey(ppkwm.GetBaseKey())
+	if err != nil {
+		return nil, err
+	}
+	identityKey, err := decodePublicKey(ppkwm.GetIdentityKey())
+	if err != nil {
+		return nil, err
+	}
 	pkwm := &PreKeyWhisperMessage{
 		Version:        version,
 		RegistrationID: ppkwm.GetRegistrationId(),
 		PreKeyID:       ppkwm.GetPreKeyId(),
 		SignedPreKeyID: ppkwm.GetSignedPreKeyId(),
-		BaseKey:        NewECPublicKey(ppkwm.GetBaseKey()[1:]),
-		IdentityKey:    NewIdentityKey(ppkwm.GetIdentityKey()[1:]),
+		BaseKey:        baseKey,
+		IdentityKey:    &IdentityKey{*identityKey},
 		Message:        wm,
 		serialized:     serialized,
 	}
diff --git a/crypto.go b/crypto.go
index fd29e93..a31b89e 100644
--- a/crypto.go
+++ b/crypto.go
@@ -93,6 +93,9 @@ func aesDecrypt(key, ciphertext []byte) ([]byte, error) {
 		log.Debugln("[textsecure] aesDecrypt ciphertext not multiple of AES blocksize", length)
 		return nil, errors.New("ciphertext not multiple of AES blocksize")
 	}
+	if len(ciphertext) < 2*aes.BlockSize {
+		return nil, errors.New("ciphertext too short")
+	}
 
 	iv := ciphertext[:aes.BlockSize]
 	mode := cipher.NewCBCDecrypter(block, iv)
-- 
2.43.0


From 8308bd9eda28e28d3b69572335d3fb5c39ecd100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 08/53] fix: do not mistake an unreadable record for a missing
 one

A session, remembered identity or salt that could not be read for any reason
was treated as if it did not exist: the session was replaced by a new one, any
identity was accepted and all records became undecryptable. Also remember the
identity of a key bundle before the session that uses it.
---
 axolotl/session.go | 10 +++++++---
 store.go           |  9 +++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index 3068fe9..c281728 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -276,6 +276,9 @@ func LoadSessionRecord(serialized []byte) (*SessionRecord, error) {
 	if err != nil {
 		return nil, err
 	}
+	if rs.CurrentSession == nil {
+		return nil, errors.New("session record without a session")
+	}
 	record := &SessionRecord{sessionState: newSessionState(rs.CurrentSession)}
 	for _, s := range rs.PreviousSessions {
 		record.PreviousStates = append(record.PreviousStates, newSessionState(s))
@@ -489,12 +492,13 @@ func (sb *SessionBuilder) BuildSenderSession(pkb *PreKeyBundle) error {
 	sr.sessionState.setRemoteRegistrationID(pkb.RegistrationID)
 	sr.sessionState.setAliceBaseKey(ourBaseKey.PublicKey.Serialize())
 
-	err = sb.sessionStore.StoreSession(sb.recipientID, sb.deviceID, sr)
+	// First remember the identity: a session that is used before that would
+	// let another identity take its place.
+	err = sb.identityStore.SaveIdentity(sb.recipientID, theirIdentityKey)
 	if err != nil {
 		return err
 	}
-	err = sb.identityStore.SaveIdentity(sb.recipientID, theirIdentityKey)
-	return err
+	return sb.sessionStore.StoreSession(sb.recipientID, sb.deviceID, sr)
 }
 
 // SessionCipher represents a peer and its persistent stored session.
diff --git a/store.go b/store.go
index 4955c8b..6367405 100644
--- a/store.go
+++ b/store.go
@@ -351,9 +351,11 @@ func (s *store) StoreSignedPreKey(id uint32, record *axolotl.SignedPreKeyRecord)
 	return s.writeFile(s.signedPreKeysFilePath(id), b)
 }
 
+// exists tells whether there is a file at path. A file that cannot be examined
+// counts as existing: it must not be mistaken for a missing one.
 func exists(path string) bool {
 	_, err := os.Stat(path)
-	return err == nil
+	return !os.IsNotExist(err)
 }
 
 func (s *store) valid() bool {
@@ -428,9 +430,12 @@ func (s *store) GetSubDeviceSessions(recipientID string) []uint32 {
 func (s *store) LoadSession(recipientID string, deviceID uint32) (*axolotl.SessionRecord, error) {
 	sfile := s.sessionFilePath(recipientID, deviceID)
 	b, err := s.readFile(sfile)
-	if err != nil {
+	if os.IsNotExist(err) {
 		return axolotl.NewSessionRecord(), nil
 	}
+	if err != nil {
+		return nil, err
+	}
 	record, err := axolotl.LoadSessionRecord(b)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 6df27f2e910b454b495ab2dc54fe64a099ded678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:27 +0000
Subject: [PATCH 09/53] fix: make concurrent sends, receives and session resets
 safe

The device lists were read and changed by concurrent sends without a lock and
could hold a device twice, sessions were built, read and deleted while they
were in use, and a session that was ended during a send crashed or failed it.
Also give up when the service keeps refusing the devices, and report a sync
message that could not be sent instead of crashing.
---
 axolotl/session.go |   6 +++
 sender.go          |  24 ++++-----
 server.go          | 129 +++++++++++++++++++++++++++++++++------------
 store.go           |   6 ++-
 textsecure.go      |   7 ++-
 5 files changed, 125 insertions(+), 47 deletions(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index c281728..ff16728 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -443,6 +443,9 @@ func (err InvalidSignatureError) Error() string {
 
 // BuildSenderSession creates a new session from a PreKeyBundle
 func (sb *SessionBuilder) BuildSenderSession(pkb *PreKeyBundle) error {
+	sb.sessionStore.Lock()
+	defer sb.sessionStore.Unlock()
+
 	theirIdentityKey := pkb.IdentityKey
 	if !sb.identityStore.IsTrustedIdentity(sb.recipientID, theirIdentityKey) {
 		return NotTrustedError{sb.recipientID}
@@ -579,6 +582,9 @@ func (sc *SessionCipher) SessionEncryptMessage(plaintext []byte) ([]byte, int32,
 
 // GetRemoteRegistrationID returns the registration ID of the peer.
 func (sc *SessionCipher) GetRemoteRegistrationID() (uint32, error) {
+	sc.SessionStore.Lock()
+	defer sc.SessionStore.Unlock()
+
 	sr, err := sc.SessionStore.LoadSession(sc.RecipientID, sc.DeviceID)
 	if err != nil {
 		return 0, err
diff --git a/sender.go b/sender.go
index 177a6ee..3f29e74 100644
--- a/sender.go
+++ b/sender.go
@@ -11,11 +11,15 @@ import (
 )
 
 func sendMessage(msg *outgoingMessage) (uint64, error) {
-	// todo use UnidentifiedSenderMessage
+	lock := sessionsLock(msg.destination)
+	lock.RLock()
+	defer lock.RUnlock()
+	return sendMessageLocked(msg)
+}
 
-	if _, ok := deviceLists[msg.destination]; !ok {
-		deviceLists[msg.destination] = []uint32{1}
-	}
+// sendMessageLocked sends a message while its recipient's sessions are locked.
+func sendMessageLocked(msg *outgoingMessage) (uint64, error) {
+	// todo use UnidentifiedSenderMessage
 
 	dm := createMessage(msg)
 
@@ -70,9 +74,6 @@ func sendSyncMessage(sm *signalservice.SyncMessage, timestamp *uint64) (uint64,
 	if config.ConfigFile.UUID != "" {
 		user = config.ConfigFile.UUID
 	}
-	if _, ok := deviceLists[user]; !ok {
-		deviceLists[user] = []uint32{1}
-	}
 
 	content := &signalservice.Content{
 		SyncMessage: sm,
@@ -84,7 +85,10 @@ func sendSyncMessage(sm *signalservice.SyncMessage, timestamp *uint64) (uint64,
 	}
 
 	resp, err := buildAndSendMessage(user, padMessage(b), true, timestamp)
-	return resp.Timestamp, err
+	if err != nil {
+		return 0, err
+	}
+	return resp.Timestamp, nil
 }
 
 func sendVerifiedMessage(verified *signalservice.Verified, unidentifiedAccess *unidentifiedAccess.UnidentifiedAccess) error {
@@ -104,10 +108,6 @@ type outgoingNullMessage struct {
 }
 
 func sendNullMessage(msg *outgoingNullMessage) (uint64, error) {
-	if _, ok := deviceLists[msg.destination]; !ok {
-		deviceLists[msg.destination] = []uint32{1}
-	}
-
 	content := &signalservice.Content{
 		NullMessage: msg.msg,
 	}
diff --git a/server.go b/server.go
index 9f23563..5d0372d 100644
--- a/server.go
+++ b/server.go
@@ -16,6 +16,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/signal-golang/textsecure/axolotl"
@@ -878,72 +879,134 @@ type sendMessageResponse struct {
 // ErrRemoteGone is returned when the peer reinstalled and lost its session state.
 var ErrRemoteGone = errors.New("the remote device is gone (probably reinstalled)")
 
-var deviceLists = map[string][]uint32{}
+// deviceLists remembers the devices of each recipient, guarded by deviceListsMutex.
+var (
+	deviceLists      = map[string][]uint32{}
+	deviceListsMutex sync.Mutex
+)
 
-func buildAndSendMessage(uuid string, paddedMessage []byte, isSync bool, timestamp *uint64) (*sendMessageResponse, error) {
+// knownDevices returns the devices of a recipient as far as they are known.
+func knownDevices(uuid string) []uint32 {
+	deviceListsMutex.Lock()
+	defer deviceListsMutex.Unlock()
+	devs, ok := deviceLists[uuid]
+	if !ok {
+		devs = []uint32{1}
+		deviceLists[uuid] = devs
+	}
+	return append([]uint32{}, devs...)
+}
+
+// updateDevices adds the missing devices of a recipient and removes the extra ones.
+func updateDevices(uuid string, missing, extra []uint32) {
+	deviceListsMutex.Lock()
+	defer deviceListsMutex.Unlock()
+	drop := map[uint32]bool{}
+	for _, id := range extra {
+		drop[id] = true
+	}
+	devs := []uint32{}
+	for _, id := range append(append([]uint32{}, deviceLists[uuid]...), missing...) {
+		if !drop[id] {
+			devs = append(devs, id)
+			drop[id] = true // only once
+		}
+	}
+	deviceLists[uuid] = devs
+}
 
-	bm, err := buildMessage(uuid, paddedMessage, deviceLists[uuid], isSync)
-	if err != nil {
-		return nil, err
+// sessionsInUse has a lock for each recipient, which is shared by the calls that
+// send to it and held alone while its sessions are being ended.
+var (
+	sessionsInUse      = map[string]*sync.RWMutex{}
+	sessionsInUseMutex sync.Mutex
+)
+
+func sessionsLock(uuid string) *sync.RWMutex {
+	sessionsInUseMutex.Lock()
+	defer sessionsInUseMutex.Unlock()
+	l, ok := sessionsInUse[uuid]
+	if !ok {
+		l = &sync.RWMutex{}
+		sessionsInUse[uuid] = l
 	}
-	m := make(map[string]interface{})
-	m["messages"] = bm
+	return l
+}
+
+// maxSendAttempts limits how often a message is encrypted again because the
+// service knows of other devices or the session has been ended meanwhile.
+const maxSendAttempts = 8
+
+func buildAndSendMessage(uuid string, paddedMessage []byte, isSync bool, timestamp *uint64) (*sendMessageResponse, error) {
 	if timestamp == nil {
 		now := uint64(time.Now().UnixNano() / 1000000)
 		timestamp = &now
 	}
+	err := errors.New("no attempt to send")
+	for i := 0; i < maxSendAttempts; i++ {
+		var resp *sendMessageResponse
+		var retry bool
+		resp, retry, err = tryToSendMessage(uuid, paddedMessage, isSync, timestamp)
+		if err == nil {
+			return resp, nil
+		}
+		if !retry {
+			break
+		}
+	}
+	return nil, err
+}
+
+// tryToSendMessage encrypts and sends a message once. When that fails, it tells
+// whether another attempt can succeed.
+func tryToSendMessage(uuid string, paddedMessage []byte, isSync bool, timestamp *uint64) (*sendMessageResponse, bool, error) {
+	bm, err := buildMessage(uuid, paddedMessage, knownDevices(uuid), isSync)
+	if err != nil {
+		return nil, err == axolotl.ErrUninitializedSession, err
+	}
+	m := make(map[string]interface{})
+	m["messages"] = bm
 	m["timestamp"] = timestamp
 	m["destination"] = uuid
 	body, err := json.Marshal(m)
 	if err != nil {
-		return nil, err
+		return nil, false, err
 	}
 	// unidentifiedAccessKeyPair, err := unidentifiedAccess.GetAccessForUUID(contacts.GetContact(uuid))
-	if err != nil {
-		return nil, err
-	}
 	resp, err := transport.Transport.PutJSON(fmt.Sprintf(MESSAGE_PATH, uuid), body)
 	if err != nil {
-		return nil, err
+		return nil, false, err
 	}
+	defer resp.Body.Close()
 
 	if resp.Status == mismatchedDevicesStatus {
 		dec := json.NewDecoder(resp.Body)
 		var j jsonMismatchedDevices
-		dec.Decode(&j)
-		log.Debugf("[textsecure] Mismatched devices: %+v\n", j)
-		devs := []uint32{}
-		for _, id := range deviceLists[uuid] {
-			in := true
-			for _, eid := range j.ExtraDevices {
-				if id == eid {
-					in = false
-					break
-				}
-			}
-			if in {
-				devs = append(devs, id)
-			}
+		if err := dec.Decode(&j); err != nil {
+			return nil, false, err
 		}
-		deviceLists[uuid] = append(devs, j.MissingDevices...)
-		return buildAndSendMessage(uuid, paddedMessage, isSync, timestamp)
+		log.Debugf("[textsecure] Mismatched devices: %+v\n", j)
+		updateDevices(uuid, j.MissingDevices, j.ExtraDevices)
+		return nil, true, resp
 	}
 	if resp.Status == staleDevicesStatus {
 		dec := json.NewDecoder(resp.Body)
 		var j jsonStaleDevices
-		dec.Decode(&j)
+		if err := dec.Decode(&j); err != nil {
+			return nil, false, err
+		}
 		log.Debugf("[textsecure] Stale devices: %+v\n", j)
 		for _, id := range j.StaleDevices {
 			uuidCleanup, err := recID(uuid)
 			if err != nil {
-				return nil, err
+				return nil, false, err
 			}
 			textSecureStore.DeleteSession(uuidCleanup, id)
 		}
-		return buildAndSendMessage(uuid, paddedMessage, isSync, timestamp)
+		return nil, true, resp
 	}
 	if resp.IsError() {
-		return nil, resp
+		return nil, false, resp
 	}
 
 	var smRes sendMessageResponse
@@ -952,5 +1015,5 @@ func buildAndSendMessage(uuid string, paddedMessage []byte, isSync bool, timesta
 	smRes.Timestamp = *timestamp
 
 	log.Debugf("[textsecure] SendMessageResponse: %+v\n", smRes)
-	return &smRes, nil
+	return &smRes, false, nil
 }
diff --git a/store.go b/store.go
index 6367405..a5c0e58 100644
--- a/store.go
+++ b/store.go
@@ -417,7 +417,7 @@ func (s *store) GetSubDeviceSessions(recipientID string) []uint32 {
 	sessions := []uint32{}
 
 	filepath.Walk(s.sessionsDir, func(path string, fi os.FileInfo, err error) error {
-		if !fi.IsDir() {
+		if err == nil && !fi.IsDir() {
 			i := strings.LastIndex(path, "_")
 			id, _ := strconv.Atoi(path[i+1:])
 			sessions = append(sessions, uint32(id))
@@ -459,12 +459,16 @@ func (s *store) ContainsSession(recipientID string, deviceID uint32) bool {
 }
 
 func (s *store) DeleteSession(recipientID string, deviceID uint32) {
+	s.Lock()
+	defer s.Unlock()
 	sfile := s.sessionFilePath(recipientID, deviceID)
 	_ = os.Remove(sfile)
 }
 
 func (s *store) DeleteAllSessions(recipientID string) {
 	log.Debugf("Deleting all sessions for %s\n", recipientID)
+	s.Lock()
+	defer s.Unlock()
 	sessions := s.GetSubDeviceSessions(recipientID)
 	for _, dev := range sessions {
 		_ = os.Remove(s.sessionFilePath(recipientID, dev))
diff --git a/textsecure.go b/textsecure.go
index 0dc7701..fc396bd 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -189,7 +189,12 @@ func EndSession(uuid string, msg string) (uint64, error) {
 		msg:         msg,
 		flags:       uint32(signalservice.DataMessage_END_SESSION),
 	}
-	ts, err := sendMessage(omsg)
+	// No other message may be sent between the last one of the old sessions
+	// and their end.
+	lock := sessionsLock(uuid)
+	lock.Lock()
+	defer lock.Unlock()
+	ts, err := sendMessageLocked(omsg)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From ddc2695947b53fcaee3c824093fce174dc8eb958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 10/53] fix: survive incomplete envelopes and contents, report
 calls and receipts

Envelopes that cannot be parsed or lack their type, data messages without a
timestamp and receipts without type or timestamps crashed the client. Receipts
for several messages were reported for the first one only, and call messages
went to the handler of text messages instead of their own.
---
 handler.go    | 40 +++++++++++++++++++++++++---------------
 textsecure.go |  9 ++++++---
 websocket.go  |  4 +---
 3 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/handler.go b/handler.go
index c931b58..cc62126 100644
--- a/handler.go
+++ b/handler.go
@@ -1,6 +1,8 @@
 package textsecure
 
 import (
+	"errors"
+
 	"github.com/golang/protobuf/proto"
 	"github.com/signal-golang/textsecure/groupsv2"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
@@ -52,20 +54,23 @@ func handleTypingMessage(src string, srcUUID string, timestamp uint64, cm *signa
 	return nil
 }
 func handleReceiptMessage(src string, srcUUID string, timestamp uint64, cm *signalservice.ReceiptMessage) error {
-	msg := &Message{
-		source:     src,
-		sourceUUID: srcUUID,
-		message:    "sentReceiptMessage",
-		timestamp:  cm.GetTimestamp()[0],
-	}
-	if *cm.Type == signalservice.ReceiptMessage_READ {
-		msg.message = "readReceiptMessage"
-	}
-	if *cm.Type == signalservice.ReceiptMessage_DELIVERY {
-		msg.message = "deliveryReceiptMessage"
-	}
-	if client.ReceiptMessageHandler != nil {
-		client.ReceiptMessageHandler(msg)
+	// One receipt can cover several messages
+	for _, ts := range cm.GetTimestamp() {
+		msg := &Message{
+			source:     src,
+			sourceUUID: srcUUID,
+			message:    "sentReceiptMessage",
+			timestamp:  ts,
+		}
+		if cm.GetType() == signalservice.ReceiptMessage_READ {
+			msg.message = "readReceiptMessage"
+		}
+		if cm.GetType() == signalservice.ReceiptMessage_DELIVERY {
+			msg.message = "deliveryReceiptMessage"
+		}
+		if client.ReceiptMessageHandler != nil {
+			client.ReceiptMessageHandler(msg)
+		}
 	}
 
 	return nil
@@ -73,6 +78,9 @@ func handleReceiptMessage(src string, srcUUID string, timestamp uint64, cm *sign
 
 // handleDataMessage handles an incoming DataMessage and calls client callbacks
 func handleDataMessage(src string, srcUUID string, timestamp uint64, dm *signalservice.DataMessage) error {
+	if dm.Timestamp == nil {
+		return errors.New("data message without a timestamp")
+	}
 	flags, err := handleFlags(srcUUID, dm)
 	if err != nil {
 		return err
@@ -144,7 +152,9 @@ func handleCallMessage(src string, srcUUID string, timestamp uint64, cm *signals
 		timestamp:  timestamp,
 	}
 
-	if client.MessageHandler != nil {
+	if client.CallMessageHandler != nil {
+		client.CallMessageHandler(msg)
+	} else if client.MessageHandler != nil {
 		client.MessageHandler(msg)
 	}
 	return nil
diff --git a/textsecure.go b/textsecure.go
index fc396bd..1da1cf4 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -533,6 +533,9 @@ var ErrInvalidMACForMessage = errors.New("invalid MAC for incoming message")
 func decryptReceivedMessage(msg []byte) ([]byte, error) {
 	// decrypt signalservice envelope
 	macpos := len(msg) - 10
+	if macpos < 1 {
+		return msg, nil
+	}
 	tmac := msg[macpos:]
 	aesKey := registration.Registration.SignalingKey[:32]
 	macKey := registration.Registration.SignalingKey[32:]
@@ -572,7 +575,7 @@ func handleReceivedMessage(env *signalservice.Envelope) error {
 	recid := env.GetSourceUuid()
 
 	sc := axolotl.NewSessionCipher(textSecureStore, textSecureStore, textSecureStore, textSecureStore, recid, env.GetSourceDevice())
-	switch *env.Type {
+	switch env.GetType() {
 	case signalservice.Envelope_RECEIPT:
 		handleReceipt(env)
 		return nil
@@ -649,7 +652,7 @@ func handleReceivedMessage(env *signalservice.Envelope) error {
 		}
 
 		p, _ := proto.Marshal(env)
-		log.Debugf("[textsecure] Incoming UnidentifiedSenderMessage %s.\n", *env.DestinationUuid)
+		log.Debugf("[textsecure] Incoming UnidentifiedSenderMessage %s.\n", env.GetDestinationUuid())
 		data, err := crayfish.Instance.HandleEnvelope(p)
 		if err != nil {
 			return err
@@ -671,7 +674,7 @@ func handleReceivedMessage(env *signalservice.Envelope) error {
 		}
 
 	default:
-		return MessageTypeNotImplementedError{uint32(*env.Type)}
+		return MessageTypeNotImplementedError{uint32(env.GetType())}
 	}
 
 	return nil
diff --git a/websocket.go b/websocket.go
index a687768..fd8fd32 100644
--- a/websocket.go
+++ b/websocket.go
@@ -195,9 +195,7 @@ func StartListening() error {
 					log.WithFields(log.Fields{
 						"error": err,
 					}).Error("[textsecure] Failed to create envelope")
-				}
-				err = handleReceivedMessage(env)
-				if err != nil {
+				} else if err = handleReceivedMessage(env); err != nil {
 					log.Debugf("[textsecure] Failed to handle received message: %+v", env)
 					log.WithFields(log.Fields{
 						"error": err,
-- 
2.43.0


From 5c236156513d6f4f201eece393be617066c648b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 11/53] fix: accept sync messages from the own account only

Anybody could have the client send its contacts, report read and sent messages
to the application or end sessions. Transcripts that name their recipient by
UUID only are handled as well, and the own profile key in them is no longer
stored as the recipient's.
---
 sync.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/sync.go b/sync.go
index d764ac7..1b0afb6 100644
--- a/sync.go
+++ b/sync.go
@@ -17,6 +17,9 @@ import (
 // handleSyncMessage handles an incoming SyncMessage.
 func handleSyncMessage(src string, srcUUID string, timestamp uint64, sm *signalservice.SyncMessage) error {
 	log.Debugf("[textsecure] SyncMessage recieved at %d", timestamp)
+	if srcUUID == "" || srcUUID != config.ConfigFile.UUID {
+		return fmt.Errorf("sync message from another account: %s", srcUUID)
+	}
 	if sm.GetSent() != nil {
 		log.Debugln("[textsecure] SyncMessage getSent")
 		return handleSyncSent(sm.GetSent(), timestamp)
@@ -91,10 +94,21 @@ func handleSyncSent(s *signalservice.SyncMessage_Sent, ts uint64) error {
 	if dm == nil {
 		return fmt.Errorf("DataMessage was nil for SyncMessage_Sent")
 	}
+	if dm.Timestamp == nil {
+		return fmt.Errorf("DataMessage without a timestamp for SyncMessage_Sent")
+	}
 
-	flags, err := handleFlags(dest, dm)
-	if err != nil {
-		return err
+	// The recipient's sessions end with this message. A profile key in it is our own.
+	flags := uint32(0)
+	if dm.GetFlags() == uint32(signalservice.DataMessage_END_SESSION) {
+		flags = EndSessionFlag
+		for _, id := range []string{dest, destUUID} {
+			if idClean, err := recID(id); err == nil {
+				textSecureStore.DeleteAllSessions(idClean)
+			}
+		}
+	} else if dm.GetFlags() == uint32(signalservice.DataMessage_PROFILE_KEY_UPDATE) {
+		flags = uint32(signalservice.DataMessage_PROFILE_KEY_UPDATE)
 	}
 
 	atts, err := handleAttachments(dm)
-- 
2.43.0


From 01854eccf9235056bfd44655be5e5aa4ed80e0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 12/53] fix: check attachments against their digest, status and
 size

An error page or truncated answer crashed the client or was decrypted, the
digest was not compared, padding was handed to the application, a download
could last forever, and a refused upload request crashed the client.
---
 attachments.go | 61 +++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 8 deletions(-)

diff --git a/attachments.go b/attachments.go
index 6f098df..1ec26ea 100644
--- a/attachments.go
+++ b/attachments.go
@@ -13,6 +13,7 @@ import (
 	"io"
 	"net/http"
 	"strings"
+	"time"
 
 	signalservice "github.com/signal-golang/textsecure/protobuf"
 	textsecure "github.com/signal-golang/textsecure/protobuf"
@@ -20,12 +21,18 @@ import (
 	log "github.com/sirupsen/logrus"
 )
 
+// attachmentTimeout limits the time a download takes
+const attachmentTimeout = 2 * time.Minute
+
 // getAttachment downloads an encrypted attachment blob from the given URL
 func getAttachment(url string) (io.ReadCloser, error) {
 	customTransport := http.DefaultTransport.(*http.Transport).Clone()
 	customTransport.TLSClientConfig = &tls.Config{InsecureSkipVerify: true}
-	c := &http.Client{Transport: customTransport}
+	c := &http.Client{Transport: customTransport, Timeout: attachmentTimeout}
 	req, err := http.NewRequest("GET", url, nil)
+	if err != nil {
+		return nil, err
+	}
 	req.Header.Add("Host", SERVICE_REFLECTOR_HOST)
 	req.Header.Add("Content-Type", "application/octet-stream")
 
@@ -33,6 +40,10 @@ func getAttachment(url string) (io.ReadCloser, error) {
 	if err != nil {
 		return nil, err
 	}
+	if resp.StatusCode < 200 || resp.StatusCode >= 300 {
+		resp.Body.Close()
+		return nil, fmt.Errorf("getting attachment: status code %d", resp.StatusCode)
+	}
 
 	return resp.Body, nil
 }
@@ -95,7 +106,13 @@ func uploadVoiceNote(r io.Reader, ct string) (*attachmentPointerV3, error) {
 // ErrInvalidMACForAttachment signals that the downloaded attachment has an invalid MAC.
 var ErrInvalidMACForAttachment = errors.New("invalid MAC for attachment")
 
+// ErrInvalidDigestForAttachment signals that the downloaded attachment is not the one in the message.
+var ErrInvalidDigestForAttachment = errors.New("invalid digest for attachment")
+
 func handleSingleAttachment(a *textsecure.AttachmentPointer) (*Attachment, error) {
+	if len(a.Key) != 64 {
+		return nil, fmt.Errorf("attachment key is %d, not 64 bytes", len(a.Key))
+	}
 	loc, err := getAttachmentLocation(a.GetCdnId(), a.GetCdnKey(), a.GetCdnNumber())
 	if err != nil {
 		return nil, err
@@ -112,6 +129,15 @@ func handleSingleAttachment(a *textsecure.AttachmentPointer) (*Attachment, error
 	}
 
 	l := len(b) - 32
+	if l < 0 {
+		return nil, ErrInvalidMACForAttachment
+	}
+	if len(a.Digest) > 0 {
+		digest := sha256.Sum256(b)
+		if !bytes.Equal(digest[:], a.Digest) {
+			return nil, ErrInvalidDigestForAttachment
+		}
+	}
 	if !verifyMAC(a.Key[32:], b[:l], b[l:]) {
 		return nil, ErrInvalidMACForAttachment
 	}
@@ -121,7 +147,13 @@ func handleSingleAttachment(a *textsecure.AttachmentPointer) (*Attachment, error
 		return nil, err
 	}
 
-	// TODO: verify digest
+	// The attachment may be padded
+	if a.GetSize() > 0 {
+		if len(b) < int(a.GetSize()) {
+			return nil, fmt.Errorf("attachment is %d, not %d bytes", len(b), a.GetSize())
+		}
+		b = b[:a.GetSize()]
+	}
 
 	return &Attachment{bytes.NewReader(b), a.GetContentType(), a.GetFileName()}, nil
 }
@@ -180,6 +212,9 @@ func getAttachmentV3UploadAttributes() (*attachmentV3UploadAttributes, error) {
 	if err != nil {
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 	dec := json.NewDecoder(resp.Body)
 	var a attachmentV3UploadAttributes
 	err = dec.Decode(&a)
@@ -189,12 +224,15 @@ func getAttachmentV3UploadAttributes() (*attachmentV3UploadAttributes, error) {
 	return &a, nil
 }
 
-func relativePath(url string) string {
+func relativePath(url string) (string, error) {
 	parts := strings.Split(url, "/")
-	return "/" + strings.Join(parts[3:], "/")
+	if len(parts) < 4 {
+		return "", fmt.Errorf("no upload location: %q", url)
+	}
+	return "/" + strings.Join(parts[3:], "/"), nil
 }
 
-func (a *attachmentV3UploadAttributes) relativeSignedUploadLocation() string {
+func (a *attachmentV3UploadAttributes) relativeSignedUploadLocation() (string, error) {
 	return relativePath(a.SignedUploadLocation)
 }
 
@@ -203,8 +241,12 @@ func allocateAttachmentV3() (string, *attachmentV3UploadAttributes, error) {
 	if err != nil {
 		return "", nil, err
 	}
+	signedLocation, err := uploadAttributes.relativeSignedUploadLocation()
+	if err != nil {
+		return "", nil, err
+	}
 	resp, err := transport.CdnTransport.PostWithHeaders(
-		uploadAttributes.relativeSignedUploadLocation(),
+		signedLocation,
 		[]byte{},
 		"application/octet-stream",
 		uploadAttributes.Headers)
@@ -215,8 +257,11 @@ func allocateAttachmentV3() (string, *attachmentV3UploadAttributes, error) {
 		log.Debug("[textsecure] allocateAttachmentV3 error response ", resp.Body)
 		return "", nil, resp
 	}
-	location := resp.Header.Get("Location")
-	return relativePath(location), uploadAttributes, nil
+	location, err := relativePath(resp.Header.Get("Location"))
+	if err != nil {
+		return "", nil, err
+	}
+	return location, uploadAttributes, nil
 }
 
 func getAttachmentLocation(id uint64, key string, cdnNumber uint32) (string, error) {
-- 
2.43.0


From 43c84a6573563a2c0eca811a2c3ec4b249013b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 13/53] fix: give helper requests their own answer or an error

Requests to crayfish crashed before the connection was up, missed answers that
came quickly, took the answers of overlapping requests, and waited forever when
the connection broke. Answers without a type crashed the client, empty ones
were taken as valid, stopping did not end a connection being made, and after
registering envelopes were still handed over without the account's id.
---
 crayfish/avatar.go   |  14 ++---
 crayfish/backend.go  | 128 +++++++++++++++++++++++++++++--------------
 crayfish/envelope.go |  17 +++---
 crayfish/register.go |  15 ++---
 crayfish/request.go  | 119 ++++++++++++++++++++++++++++++++++++++++
 textsecure.go        |   4 +-
 6 files changed, 225 insertions(+), 72 deletions(-)
 create mode 100644 crayfish/request.go

diff --git a/crayfish/avatar.go b/crayfish/avatar.go
index 6893154..9185138 100644
--- a/crayfish/avatar.go
+++ b/crayfish/avatar.go
@@ -34,20 +34,14 @@ func (c *CrayfishInstance) DecryptAvatar(avatar, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	log.Debugf("[textsecure-crayfish-ws] avatar send")
-	c.wsconn.send <- m
-	c.receiveChannel = make(chan *CrayfishWebSocketResponseMessage, 1)
-	response := <-c.receiveChannel
-	log.Debugf("[textsecure-crayfish-ws] avatar recieved an response")
-	rm, err := json.Marshal(response.Message)
-	if err != nil {
-		log.Errorln("[textsecure-crayfish-ws] failed to marshal response message", response.Message)
-		return nil, err
-	}
 	var data CrayfishWebSocketResponse_AVATAR_MESSAGE
-	err = json.Unmarshal(rm, &data)
+	err = c.request(m, CrayfishWebSocketResponseMessageTyp_DECRYPT_AVATAR, &data)
 	if err != nil {
 		return nil, err
 	}
+	if data.Avatar == "" {
+		return nil, ErrBadResponse
+	}
 	decodedAvatar, err := b64.StdEncoding.DecodeString(data.Avatar)
 	if err != nil {
 		return nil, err
diff --git a/crayfish/backend.go b/crayfish/backend.go
index 40551fe..39e3fec 100644
--- a/crayfish/backend.go
+++ b/crayfish/backend.go
@@ -30,12 +30,13 @@ var (
 )
 
 type CrayfishInstance struct {
-	wsconn         *Conn
-	cmd            *exec.Cmd
-	stopping       bool
-	receiveChannel chan *CrayfishWebSocketResponseMessage
-	LocalUUID      string
-	LocalDeviceID  int32
+	mutex         sync.Mutex // guards wsconn, stopping and the connections' answers
+	wsconn        *Conn      // nil while not connected
+	stopping      bool
+	requestMutex  sync.Mutex // held during a request
+	cmd           *exec.Cmd
+	LocalUUID     string
+	LocalDeviceID int32
 }
 
 const (
@@ -109,13 +110,25 @@ type Conn struct {
 
 	// Buffered channel of outbound messages
 	send chan []byte
+
+	// Closed at the end of the connection
+	done chan struct{}
+
+	// Where the request waiting for an answer gets it
+	answer     chan *CrayfishWebSocketResponseMessage
+	answerType CrayfishWebSocketResponseMessageType
 }
 
-func Run() {
+// Setup creates the instance that Run connects to the backend.
+func Setup() {
 	Instance = &CrayfishInstance{
 		LocalUUID:     config.ConfigFile.UUID,
 		LocalDeviceID: 0,
 	}
+}
+
+// Run starts the backend and keeps connected to it.
+func Run() {
 	log.Infoln("[textsecure-crayfish] Starting crayfish-backend")
 	path, err := exec.LookPath("crayfish")
 	if err != nil {
@@ -194,16 +207,19 @@ func copyAndCapture(w io.Writer, r io.Reader) ([]byte, error) {
 
 // Connect to Signal websocket API at originURL with user and pass credentials
 func (c *Conn) connect(originURL string) error {
-	u, _ := url.Parse(originURL)
+	u, err := url.Parse(originURL)
+	if err != nil {
+		return err
+	}
 
 	log.Debugf("[textsecure-crayfish-ws] websocket connecting to crayfish-server")
 
-	var err error
 	d := &websocket.Dialer{
-		ReadBufferSize:  1024,
-		WriteBufferSize: 1024,
+		ReadBufferSize:   1024,
+		WriteBufferSize:  1024,
+		HandshakeTimeout: connectWait,
 	}
-	d.NetDial = func(network, addr string) (net.Conn, error) { return net.Dial(network, u.Host) }
+	d.NetDial = func(network, addr string) (net.Conn, error) { return net.DialTimeout(network, u.Host, connectWait) }
 	d.TLSClientConfig = &tls.Config{
 		RootCAs: rootCa.RootCA,
 	}
@@ -220,7 +236,9 @@ func (c *Conn) connect(originURL string) error {
 
 // write writes a message with the given message type and payload.
 func (c *Conn) write(mt int, payload []byte) error {
-	Instance.cmd.Process.Signal(syscall.SIGCONT)
+	if Instance.cmd != nil && Instance.cmd.Process != nil {
+		Instance.cmd.Process.Signal(syscall.SIGCONT)
+	}
 	c.ws.SetWriteDeadline(time.Now().Add(writeWait))
 	return c.ws.WriteMessage(mt, payload)
 }
@@ -250,6 +268,8 @@ func (c *Conn) writeWorker() {
 				}).Error("[textsecure-crayfish-ws] Failed to send websocket message")
 				return
 			}
+		case <-c.done:
+			return
 		case <-ticker.C:
 			log.Debugf("[textsecure-crayfish-ws] Sending websocket ping message")
 			if err := c.write(websocket.PingMessage, nil); err != nil {
@@ -267,9 +287,9 @@ func (c *CrayfishInstance) StartListening() error {
 	defer func() {
 		log.Debugf("[textsecure-crayfish-ws] BackendStartListening")
 		for {
-			if !c.stopping {
+			if !c.isStopping() {
 				err := c.StartWebsocket()
-				if err != nil && !c.stopping {
+				if err != nil && !c.isStopping() {
 					log.WithFields(log.Fields{
 						"error": err,
 					}).Error("[textsecure-crayfish-ws] Failed to start listening")
@@ -286,29 +306,36 @@ func (c *CrayfishInstance) StartListening() error {
 
 // BackendStartWebsocket connects to the server and handles incoming websocket messages.
 func (c *CrayfishInstance) StartWebsocket() error {
-	var err error
-
-	c.wsconn = &Conn{send: make(chan []byte, 256)}
-	err = c.wsconn.connect(serverAdress + websocketPath)
+	conn := &Conn{send: make(chan []byte, 256), done: make(chan struct{})}
+	err := conn.connect(serverAdress + websocketPath)
 	if err != nil {
 		log.Errorf(err.Error())
 		return err
 	}
 
-	defer c.wsconn.ws.Close()
+	defer close(conn.done)
+	defer c.drop(conn)
 
 	// Can only have a single goroutine call write methods
-	go c.wsconn.writeWorker()
+	go conn.writeWorker()
 
-	c.wsconn.ws.SetReadDeadline(time.Now().Add(pongWait))
-	c.wsconn.ws.SetPongHandler(func(string) error {
+	conn.ws.SetReadDeadline(time.Now().Add(pongWait))
+	conn.ws.SetPongHandler(func(string) error {
 		log.Debugf("[textsecure-crayfish-ws] Received websocket pong message")
-		c.wsconn.ws.SetReadDeadline(time.Now().Add(pongWait))
+		conn.ws.SetReadDeadline(time.Now().Add(pongWait))
 		return nil
 	})
 
+	c.mutex.Lock()
+	if c.stopping {
+		c.mutex.Unlock()
+		return ErrNotConnected
+	}
+	c.wsconn = conn
+	c.mutex.Unlock()
+
 	for {
-		_, bmsg, err := c.wsconn.ws.ReadMessage()
+		_, bmsg, err := conn.ws.ReadMessage()
 		if err != nil {
 			if websocket.IsUnexpectedCloseError(err, websocket.CloseGoingAway, websocket.CloseAbnormalClosure) {
 				log.Debugf("[textsecure-crayfish-ws] Websocket UnexpectedCloseError: %s", err)
@@ -334,7 +361,7 @@ func (c *CrayfishInstance) StartWebsocket() error {
 				}).Error("[textsecure-crayfish-ws] Failed to handle received request message")
 			}
 		} else if *csm.Type == CrayfishWebSocketMessage_RESPONSE {
-			err = c.handleCrayfishResponseMessage(csm.Response)
+			err = c.handleCrayfishResponseMessage(conn, csm.Response)
 			if err != nil {
 				log.WithFields(log.Fields{
 					"error": err,
@@ -349,39 +376,58 @@ func (c *CrayfishInstance) StartWebsocket() error {
 
 // StopListening disables the receiving of messages.
 func (c *CrayfishInstance) StopListening() error {
-	if c.wsconn == nil {
+	if c == nil {
 		return ErrNotListening
 	}
-	if c.wsconn.ws != nil {
-		c.wsconn.ws.Close()
+	c.mutex.Lock()
+	conn := c.wsconn
+	c.mutex.Unlock()
+	if conn == nil {
+		return ErrNotListening
 	}
+	conn.ws.Close()
 	return nil
 }
 
+func (c *CrayfishInstance) isStopping() bool {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	return c.stopping
+}
+
 func handleCrayfishRequestMessage(request *CrayfishWebSocketRequestMessage) error {
-	log.Debugln("[textsecure-crayfish-ws] Received websocket request message", *request.Type)
+	log.Debugln("[textsecure-crayfish-ws] Received websocket request message")
 	return nil
 }
 
-func (c *CrayfishInstance) handleCrayfishResponseMessage(response *CrayfishWebSocketResponseMessage) error {
+// handleCrayfishResponseMessage hands an answer to the request waiting for it.
+func (c *CrayfishInstance) handleCrayfishResponseMessage(conn *Conn, response *CrayfishWebSocketResponseMessage) error {
+	if response == nil || response.Type == nil {
+		return errors.New("response without a type")
+	}
 	log.Debugln("[textsecure-crayfish-ws] Received websocket response message", *response.Type)
-	if c.receiveChannel != nil && *response.Type > 1 {
-		c.receiveChannel <- response
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if conn.answer != nil && *response.Type == conn.answerType {
+		conn.answer <- response
+		conn.answer = nil
 	}
 	return nil
 }
 
 func (c *CrayfishInstance) Stop() error {
+	if c == nil {
+		return ErrNotListening
+	}
+	c.mutex.Lock()
 	c.stopping = true
+	c.mutex.Unlock()
 	err := c.StopListening()
-	if err != nil {
-		return err
-	}
-	if c.cmd != nil {
-		err = c.cmd.Process.Signal(os.Interrupt)
-		if err != nil {
-			return err
+	if c.cmd != nil && c.cmd.Process != nil {
+		serr := c.cmd.Process.Signal(os.Interrupt)
+		if err == nil {
+			err = serr
 		}
 	}
-	return nil
+	return err
 }
diff --git a/crayfish/envelope.go b/crayfish/envelope.go
index b7c2833..2159d92 100644
--- a/crayfish/envelope.go
+++ b/crayfish/envelope.go
@@ -8,6 +8,9 @@ import (
 )
 
 func (c *CrayfishInstance) HandleEnvelope(msg []byte) (*CrayfishWebSocketResponse_HANDLE_ENVELOPE_MESSAGE, error) {
+	if c == nil {
+		return nil, ErrNotConnected
+	}
 	messageType := CrayfishWebSocketMessage_REQUEST
 	requestType := CrayfishWebSocketRequestMessageTyp_HANDLE_ENVELOPE
 	sEnc := b64.StdEncoding.EncodeToString(msg)
@@ -31,20 +34,14 @@ func (c *CrayfishInstance) HandleEnvelope(msg []byte) (*CrayfishWebSocketRespons
 		return nil, err
 	}
 	log.Debugf("[textsecure-crayfish-ws] HandleEnvelope send")
-	c.wsconn.send <- m
-	c.receiveChannel = make(chan *CrayfishWebSocketResponseMessage, 1)
-	response := <-c.receiveChannel
-	log.Debugf("[textsecure-crayfish-ws] HandleEnvelope recieved an response")
-	rm, err := json.Marshal(response.Message)
-	if err != nil {
-		log.Errorln("[textsecure-crayfish-ws] failed to marshal response message", response.Message)
-		return nil, err
-	}
 	var data CrayfishWebSocketResponse_HANDLE_ENVELOPE_MESSAGE
-	err = json.Unmarshal(rm, &data)
+	err = c.request(m, CrayfishWebSocketResponseMessageTyp_HANDLE_ENVELOPE, &data)
 	if err != nil {
 		return nil, err
 	}
+	if data.Message == "" || data.Sender.UUID == "" {
+		return nil, ErrBadResponse
+	}
 
 	return &data, nil
 }
diff --git a/crayfish/register.go b/crayfish/register.go
index ae8fddc..8ea0343 100644
--- a/crayfish/register.go
+++ b/crayfish/register.go
@@ -34,8 +34,7 @@ func (c *CrayfishInstance) CrayfishRegister(registrationInfo *registration.Regis
 		return err
 	}
 	log.Debugf("[textsecure-crayfish-ws] Registering via crayfish send")
-	c.wsconn.send <- m
-	return nil
+	return c.post(m)
 }
 func (c *CrayfishInstance) CrayfishRegisterWithCode(registrationInfo *registration.RegistrationInfo,
 	phoneNumber string,
@@ -69,18 +68,14 @@ func (c *CrayfishInstance) CrayfishRegisterWithCode(registrationInfo *registrati
 		return nil, err
 	}
 	log.Debugf("[textsecure-crayfish-ws] Registering via crayfish send verification")
-	c.wsconn.send <- mv
-	c.receiveChannel = make(chan *CrayfishWebSocketResponseMessage, 1)
-	response := <-c.receiveChannel
-	rm, err := json.Marshal(response.Message)
-	if err != nil {
-		return nil, err
-	}
 	var data CrayfishWebSocketResponse_VERIFY_REGISTER_MESSAGE
-	err = json.Unmarshal(rm, &data)
+	err = c.request(mv, CrayfishWebSocketResponseMessageTyp_VERIFY_REGISTRATION, &data)
 	if err != nil {
 		return nil, err
 	}
+	if data.UUID == [16]byte{} {
+		return nil, ErrBadResponse
+	}
 	uuidString, err := uuid.FromBytes(data.UUID[:])
 	if err != nil {
 		return nil, err
diff --git a/crayfish/request.go b/crayfish/request.go
new file mode 100644
index 0000000..9bc4a1e
--- /dev/null
+++ b/crayfish/request.go
@@ -0,0 +1,119 @@
+package crayfish
+
+import (
+	"encoding/json"
+	"errors"
+	"time"
+)
+
+const (
+	// Time to wait for a connection to the crayfish-backend
+	connectWait = 15 * time.Second
+
+	// Time allowed for the answer to a request
+	requestWait = 30 * time.Second
+)
+
+var (
+	// ErrNotConnected is returned by requests when there is no connection to the crayfish-backend
+	ErrNotConnected = errors.New("[textsecure-crayfish-ws] not connected")
+	// ErrConnectionLost is returned when the connection broke before a request was answered
+	ErrConnectionLost = errors.New("[textsecure-crayfish-ws] connection lost")
+	// ErrTimeout is returned when a request is not answered in time
+	ErrTimeout = errors.New("[textsecure-crayfish-ws] request timed out")
+	// ErrBadResponse is returned when an answer lacks what was asked for
+	ErrBadResponse = errors.New("[textsecure-crayfish-ws] incomplete response")
+)
+
+// connection returns the connection to the backend, for which it waits a while.
+func (c *CrayfishInstance) connection() (*Conn, error) {
+	if c == nil {
+		return nil, ErrNotConnected
+	}
+	for waited := time.Duration(0); ; waited += connectPoll {
+		c.mutex.Lock()
+		conn, stopping := c.wsconn, c.stopping
+		c.mutex.Unlock()
+		if stopping {
+			return nil, ErrNotConnected
+		}
+		if conn != nil {
+			return conn, nil
+		}
+		if waited >= connectWait {
+			return nil, ErrNotConnected
+		}
+		time.Sleep(connectPoll)
+	}
+}
+
+const connectPoll = 100 * time.Millisecond
+
+// post sends a message that is not answered.
+func (c *CrayfishInstance) post(m []byte) error {
+	conn, err := c.connection()
+	if err != nil {
+		return err
+	}
+	return conn.post(m)
+}
+
+func (conn *Conn) post(m []byte) error {
+	select {
+	case conn.send <- m:
+		return nil
+	case <-conn.done:
+		return ErrConnectionLost
+	}
+}
+
+// request sends a message, waits for the answer of the given type, and decodes it into data.
+func (c *CrayfishInstance) request(m []byte, answerType CrayfishWebSocketResponseMessageType, data interface{}) error {
+	if c == nil {
+		return ErrNotConnected
+	}
+	// Answers do not tell which request they belong to, so there is one request
+	// at a time, and a connection is given up when its answer does not come.
+	c.requestMutex.Lock()
+	defer c.requestMutex.Unlock()
+
+	conn, err := c.connection()
+	if err != nil {
+		return err
+	}
+	answer := make(chan *CrayfishWebSocketResponseMessage, 1)
+	c.mutex.Lock()
+	conn.answer, conn.answerType = answer, answerType
+	c.mutex.Unlock()
+
+	err = conn.post(m)
+	if err != nil {
+		return err
+	}
+	timeout := time.NewTimer(requestWait)
+	defer timeout.Stop()
+	select {
+	case response := <-answer:
+		rm, err := json.Marshal(response.Message)
+		if err != nil {
+			return err
+		}
+		return json.Unmarshal(rm, data)
+	case <-conn.done:
+		return ErrConnectionLost
+	case <-timeout.C:
+		c.drop(conn)
+		return ErrTimeout
+	}
+}
+
+// drop gives up a connection.
+func (c *CrayfishInstance) drop(conn *Conn) {
+	c.mutex.Lock()
+	conn.answer = nil
+	if c.wsconn == conn {
+		c.wsconn = nil
+	}
+	c.mutex.Unlock()
+	conn.ws.Close()
+}
diff --git a/textsecure.go b/textsecure.go
index 1da1cf4..9e5e0bc 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -270,10 +270,11 @@ func Setup(c *Client) error {
 	client = c
 
 	config.ConfigFile, err = loadConfig()
-	go crayfish.Run()
 	if err != nil {
 		return err
 	}
+	crayfish.Setup()
+	go crayfish.Run()
 
 	setupLogging()
 	err = setupStore()
@@ -428,6 +429,7 @@ func registerDevice() error {
 	}
 	config.ConfigFile.Tel = crayfishRegistration.Tel
 	config.ConfigFile.UUID = crayfishRegistration.UUID
+	crayfish.Instance.LocalUUID = crayfishRegistration.UUID
 	config.ConfigFile.Name = name
 	config.ConfigFile.AccountCapabilities = config.AccountCapabilities{
 		// Uuid:              false,
-- 
2.43.0


From 91d4e245261400c468314c2ea97d3707a4005d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 14/53] fix: stop listening in any state, keep busy
 connections, do not leak workers

Stopping while connecting had no effect, the connection attempt could last
forever, a worker and full acknowledgement queue outlived the connection or
blocked it, and a connection was given up when handling a message took longer
than the time to the next pong. Only requests are acknowledged.
---
 websocket.go | 100 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 76 insertions(+), 24 deletions(-)

diff --git a/websocket.go b/websocket.go
index fd8fd32..7a6a710 100644
--- a/websocket.go
+++ b/websocket.go
@@ -1,11 +1,13 @@
 package textsecure
 
 import (
+	"context"
 	"crypto/tls"
 	"errors"
 	"net"
 	"net/url"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/golang/protobuf/proto"
@@ -24,6 +26,9 @@ const (
 	// Time allowed to read the next pong message from the peer.
 	pongWait = 60 * time.Second
 
+	// Time allowed to establish a connection
+	handshakeWait = 30 * time.Second
+
 	// Send pings to peer with this period. Must be less than pongWait.
 	pingPeriod = (pongWait * 9) / 10
 
@@ -38,9 +43,23 @@ type Conn struct {
 
 	// Buffered channel of outbound messages
 	send chan []byte
+
+	// Ends the connection, also while it is being established
+	ctx  context.Context
+	stop context.CancelFunc
 }
 
-var wsconn *Conn
+// wsconn is the current listening connection, guarded by wsconnMutex.
+var (
+	wsconn      *Conn
+	wsconnMutex sync.Mutex
+)
+
+func newConn() *Conn {
+	c := &Conn{send: make(chan []byte, 256)}
+	c.ctx, c.stop = context.WithCancel(context.Background())
+	return c
+}
 
 // Connect to Signal websocket API at originURL with user and pass credentials
 func (c *Conn) connect(originURL, user, pass string) error {
@@ -49,22 +68,37 @@ func (c *Conn) connect(originURL, user, pass string) error {
 	v.Set("password", pass)
 	params := v.Encode()
 	wsURL := strings.Replace(originURL, "http", "ws", 1) + "?" + params
-	u, _ := url.Parse(wsURL)
+	u, err := url.Parse(wsURL)
+	if err != nil {
+		return err
+	}
 
 	log.Debugf("[textsecure] Websocket Connecting to signal-server")
 	// log.Debugf("Websocket Connecting to %s with user %s and pass %s", originURL, user, pass)
 
-	var err error
 	d := &websocket.Dialer{
-		ReadBufferSize:  1024,
-		WriteBufferSize: 1024,
+		ReadBufferSize:   1024,
+		WriteBufferSize:  1024,
+		HandshakeTimeout: handshakeWait,
+	}
+	d.NetDialContext = func(ctx context.Context, network, addr string) (net.Conn, error) {
+		nd := &net.Dialer{}
+		conn, err := nd.DialContext(ctx, network, u.Host)
+		if err != nil {
+			return nil, err
+		}
+		// The handshake and reading messages end with the connection.
+		go func() {
+			<-c.ctx.Done()
+			conn.Close()
+		}()
+		return conn, nil
 	}
-	d.NetDial = func(network, addr string) (net.Conn, error) { return net.Dial(network, u.Host) }
 	d.TLSClientConfig = &tls.Config{
 		RootCAs: rootCa.RootCA,
 	}
 
-	c.ws, _, err = d.Dial(u.String(), nil)
+	c.ws, _, err = d.DialContext(c.ctx, u.String(), nil)
 	if err != nil {
 		return err
 	}
@@ -94,8 +128,12 @@ func (c *Conn) sendAck(id uint64) error {
 		return err
 	}
 
-	c.send <- b
-	return nil
+	select {
+	case c.send <- b:
+		return nil
+	case <-c.ctx.Done():
+		return errors.New("[textsecure] websocket connection closed")
+	}
 }
 
 // write writes a message with the given message type and payload.
@@ -110,6 +148,7 @@ func (c *Conn) writeWorker() {
 	defer func() {
 		log.Debugf("[textsecure] Closing writeWorker")
 		ticker.Stop()
+		c.stop()
 		c.ws.Close()
 	}()
 	for {
@@ -128,6 +167,8 @@ func (c *Conn) writeWorker() {
 				}).Error("[textsecure] Failed to send websocket message")
 				return
 			}
+		case <-c.ctx.Done():
+			return
 		case <-ticker.C:
 			log.Debugf("[textsecure] Sending websocket ping message")
 			if err := c.write(websocket.PingMessage, nil); err != nil {
@@ -142,29 +183,34 @@ func (c *Conn) writeWorker() {
 
 // StartListening connects to the server and handles incoming websocket messages.
 func StartListening() error {
-	var err error
+	c := newConn()
+	defer c.stop()
 
-	wsconn = &Conn{send: make(chan []byte, 256)}
-	err = wsconn.connect(config.ConfigFile.Server+websocketPath, config.ConfigFile.UUID, registration.Registration.Password)
+	wsconnMutex.Lock()
+	wsconn = c
+	wsconnMutex.Unlock()
+
+	err := c.connect(config.ConfigFile.Server+websocketPath, config.ConfigFile.UUID, registration.Registration.Password)
 	if err != nil {
-		log.Errorf(err.Error())
+		log.Errorln("[textsecure] Failed to connect websocket", err)
 		return err
 	}
 
-	defer wsconn.ws.Close()
+	defer c.ws.Close()
 
 	// Can only have a single goroutine call write methods
-	go wsconn.writeWorker()
+	go c.writeWorker()
 
-	wsconn.ws.SetReadDeadline(time.Now().Add(pongWait))
-	wsconn.ws.SetPongHandler(func(string) error {
+	c.ws.SetPongHandler(func(string) error {
 		log.Debugf("[textsecure] Received websocket pong message")
-		wsconn.ws.SetReadDeadline(time.Now().Add(pongWait))
+		c.ws.SetReadDeadline(time.Now().Add(pongWait))
 		return nil
 	})
 
 	for {
-		_, bmsg, err := wsconn.ws.ReadMessage()
+		// Handling a message may have taken long
+		c.ws.SetReadDeadline(time.Now().Add(pongWait))
+		_, bmsg, err := c.ws.ReadMessage()
 		if err != nil {
 			if websocket.IsUnexpectedCloseError(err, websocket.CloseGoingAway, websocket.CloseAbnormalClosure) {
 				log.Debugf("[textsecure] Websocket UnexpectedCloseError: %s", err)
@@ -181,6 +227,11 @@ func StartListening() error {
 			return err
 		}
 
+		if wsm.GetRequest() == nil {
+			log.Debugln("[textsecure] Websocket message is not a request. Ignoring")
+			continue
+		}
+
 		m := wsm.GetRequest().GetBody()
 
 		if len(m) > 0 {
@@ -214,7 +265,7 @@ func StartListening() error {
 
 		}
 
-		err = wsconn.sendAck(wsm.GetRequest().GetId())
+		err = c.sendAck(wsm.GetRequest().GetId())
 		if err != nil {
 			log.WithFields(log.Fields{
 				"error": err,
@@ -232,13 +283,14 @@ var ErrNotListening = errors.New("[textsecure] there is no listening connection
 
 // StopListening disables the receiving of messages.
 func StopListening() error {
-	if wsconn == nil {
+	wsconnMutex.Lock()
+	c := wsconn
+	wsconnMutex.Unlock()
+	if c == nil {
 		return ErrNotListening
 	}
 
-	if wsconn.ws != nil {
-		wsconn.ws.Close()
-	}
+	c.stop()
 
 	return nil
 }
-- 
2.43.0


From 7b4c41da3553f13a53e460d5e35a38e581468347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:45 +0000
Subject: [PATCH 15/53] fix: only trust the own identity key in messages of the
 own account

Whoever delivers messages could otherwise make up a device of the account,
whose sync messages would be obeyed.
---
 store.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/store.go b/store.go
index a5c0e58..db5e68e 100644
--- a/store.go
+++ b/store.go
@@ -225,6 +225,11 @@ func (s *store) SaveIdentity(id string, key *axolotl.IdentityKey) error {
 }
 
 func (s *store) IsTrustedIdentity(id string, key *axolotl.IdentityKey) bool {
+	if id != "" && id == config.ConfigFile.UUID {
+		// All devices of the own account share its identity key
+		ikp, err := s.GetIdentityKeyPair()
+		return err == nil && *ikp.PublicKey.Key() == *key.Key()
+	}
 	if config.ConfigFile.AlwaysTrustPeerID {
 		// Workaround until we handle peer reregistering situations
 		// more securely and with a better UI.
-- 
2.43.0


From d143f09aecd6e410e61b14c30fb9c21c3e3d48c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:02 +0000
Subject: [PATCH 16/53] fix: survive malformed group contexts and keep known
 group state

A group context with an empty or odd master key, a change without signature,
empty ciphertexts from the storage service and a failed first update crashed
the client. Failed or garbled updates replaced the known members with nothing,
members that could not be decrypted were dropped silently, an unreadable file
made the group a new one, and errors of the storage service and of saving were
ignored.
---
 groups.go                     |  15 ++---
 groupsv2/createGroupChange.go |  14 ++--
 groupsv2/decrypt.go           |  62 +++++++++++++-----
 groupsv2/groupActions.go      |   7 +-
 groupsv2/groupsv2.go          | 118 +++++++++++++++++++++++++---------
 groupsv2/groupsv2api.go       |   2 +-
 6 files changed, 155 insertions(+), 63 deletions(-)

diff --git a/groups.go b/groups.go
index f71dfee..fffd79b 100644
--- a/groups.go
+++ b/groups.go
@@ -209,20 +209,19 @@ func sendGroupV2Helper(hexid string, msg string, attachmentPointer *attachmentPo
 	if g == nil {
 		return 0, fmt.Errorf("group not found %s", hexid)
 	}
-	g.CheckJoinStatus()
-	if g == nil {
-		log.Infoln("[textsecure] sendGroupv2Helper unknown group id")
-		return 0, UnknownGroupIDError{hexid}
-	}
-	if g.JoinStatus != groupsV2.GroupV2JoinsStatusMember {
-		return 0, fmt.Errorf("Sending messages to a invited group is not allowed.")
-	}
 	if g.DecryptedGroup == nil {
 		err = g.UpdateGroupFromServer()
 		if err != nil {
 			return 0, err
 		}
 	}
+	err = g.CheckJoinStatus()
+	if err != nil {
+		return 0, err
+	}
+	if g.JoinStatus != groupsV2.GroupV2JoinsStatusMember {
+		return 0, fmt.Errorf("Sending messages to a invited group is not allowed.")
+	}
 	if len(g.DecryptedGroup.Members) == 0 {
 		return 0, fmt.Errorf("[textsecure] sendGroupV2Helper empty members list")
 	}
diff --git a/groupsv2/createGroupChange.go b/groupsv2/createGroupChange.go
index 8de5607..2723193 100644
--- a/groupsv2/createGroupChange.go
+++ b/groupsv2/createGroupChange.go
@@ -24,9 +24,10 @@ func randBytes(data []byte) {
 }
 func createGroupContextForGroup(hexid string) *signalservice.GroupContextV2 {
 	var revision uint32
-	revision = groupsV2[hexid].GroupContext.Revision + 1
+	group := knownGroup(hexid)
+	revision = group.GroupContext.Revision + 1
 	return &signalservice.GroupContextV2{
-		MasterKey: groupsV2[hexid].MasterKey,
+		MasterKey: group.MasterKey,
 		Revision:  &revision,
 	}
 }
@@ -77,6 +78,9 @@ func (g *GroupV2) AddPendingMembers(uuid []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(config.ConfigFile.ProfileKeyCredential) == 0 {
+		return fmt.Errorf("no profile key credential")
+	}
 	presentation, err := serverPublicParams.CreateProfileKeyCredentialPresentation(groupSecretParams, config.ConfigFile.ProfileKeyCredential)
 	if err != nil {
 		return err
@@ -102,10 +106,10 @@ func (g *GroupV2) AddPendingMembers(uuid []byte) error {
 	}
 	err = PatchGroupV2(out, auth)
 	if err != nil {
+		return err
 	}
 	g.JoinStatus = GroupV2JoinsStatusMember
-	g.UpdateGroupFromServer()
-	return nil
+	return g.UpdateGroupFromServer()
 }
 func (g *GroupV2) EncryptUUID(uuid []byte) ([]byte, error) {
 	if g.cipher == nil {
@@ -119,7 +123,7 @@ func (g *GroupV2) EncryptUUID(uuid []byte) ([]byte, error) {
 }
 func (g *GroupV2) findMemberByUuid(uuid string) (*signalservice.Member, error) {
 	for _, member := range g.GroupContext.PendingMembers {
-		d, err := g.decryptUUID(member.Member.UserId)
+		d, err := g.decryptUUID(member.GetMember().GetUserId())
 		if err != nil {
 			return nil, err
 		} else {
diff --git a/groupsv2/decrypt.go b/groupsv2/decrypt.go
index 1b3df34..ac2ea07 100644
--- a/groupsv2/decrypt.go
+++ b/groupsv2/decrypt.go
@@ -1,6 +1,7 @@
 package groupsv2
 
 import (
+	"errors"
 	"strings"
 	"unicode"
 
@@ -9,16 +10,23 @@ import (
 	log "github.com/sirupsen/logrus"
 )
 
+const (
+	masterKeyLength = 32
+	blobOverhead    = 29 // added to a blob by its encryption
+)
+
 func (g *GroupV2) decryptGroupFromServer(group *signalservice.Group) error {
 	newGroup := &GroupV2{
 		MasterKey:    g.MasterKey,
 		GroupContext: *group,
 	}
 	decryptedGroup, err := newGroup.decryptGroup()
+	if err != nil {
+		return err
+	}
 	g.GroupContext = newGroup.GroupContext
 	g.DecryptedGroup = decryptedGroup
-	g.CheckJoinStatus()
-	return err
+	return g.CheckJoinStatus()
 }
 func (g *GroupV2) decryptGroup() (*signalservice.DecryptedGroup, error) {
 	log.Debugln("[textsecure][groupsv2] decrypt group")
@@ -34,13 +42,14 @@ func (g *GroupV2) decryptGroup() (*signalservice.DecryptedGroup, error) {
 	decryptedMembers := []*signalservice.DecryptedMember{}
 	for _, member := range membersList {
 		decryptedMember, err := g.decryptMember(member)
-		if err == nil {
-			decryptedMembers = append(decryptedMembers, decryptedMember)
+		if err != nil {
+			return nil, err
 		}
+		decryptedMembers = append(decryptedMembers, decryptedMember)
 	}
 	// TODO: decrypt pending and requesting members
 	decryptedGroup := &signalservice.DecryptedGroup{}
-	title, err := g.cipher.DecryptBlob(g.GroupContext.GetTitle())
+	title, err := g.decryptBlob(g.GroupContext.GetTitle())
 	log.Debugln("[textsecure][groupsv2] decrypt group title", string(title))
 	if err != nil {
 		return nil, err
@@ -80,7 +89,7 @@ func (g *GroupV2) decryptMember(member *signalservice.Member) (*signalservice.De
 		if err != nil {
 			return nil, err
 		}
-		decryptedMember.ProfileKey, err = g.cipher.DecryptProfileKey(member.GetProfileKey(), decryptedMember.Uuid)
+		decryptedMember.ProfileKey, err = g.decryptProfileKey(member.GetProfileKey(), decryptedMember.Uuid)
 
 	} else {
 		//TODO: check valid presentation
@@ -100,7 +109,7 @@ func (g *GroupV2) decryptMember(member *signalservice.Member) (*signalservice.De
 		if err != nil {
 			return nil, err
 		}
-		decryptedMember.ProfileKey, err = g.cipher.DecryptProfileKey(profileKeyCiphertext, decryptedMember.Uuid)
+		decryptedMember.ProfileKey, err = g.decryptProfileKey(profileKeyCiphertext, decryptedMember.Uuid)
 		if err != nil {
 			return nil, err
 		}
@@ -111,27 +120,48 @@ func (g *GroupV2) decryptMember(member *signalservice.Member) (*signalservice.De
 }
 
 func (g *GroupV2) decryptUUID(uuid []byte) ([]byte, error) {
-	if g.cipher == nil {
-		groupSecretParams, err := zkgroup.NewGroupSecretParams(g.MasterKey)
-		if err != nil {
-			return nil, err
-		}
-		g.cipher = zkgroup.NewClientZkGroupCipher(groupSecretParams)
+	if err := g.checkCipher(); err != nil {
+		return nil, err
+	}
+	// the zkgroup library cannot handle empty input
+	if len(uuid) == 0 {
+		return nil, errors.New("empty encrypted uuid")
 	}
 	return g.cipher.DecryptUUID(uuid)
 }
 
+func (g *GroupV2) decryptBlob(blob []byte) ([]byte, error) {
+	if err := g.checkCipher(); err != nil {
+		return nil, err
+	}
+	// the zkgroup library cannot handle input shorter than what encryption adds
+	if len(blob) <= blobOverhead {
+		return nil, errors.New("encrypted blob too short")
+	}
+	return g.cipher.DecryptBlob(blob)
+}
+
+func (g *GroupV2) decryptProfileKey(profileKey []byte, uuid []byte) ([]byte, error) {
+	if err := g.checkCipher(); err != nil {
+		return nil, err
+	}
+	if len(profileKey) == 0 || len(uuid) == 0 {
+		return nil, errors.New("empty encrypted profile key")
+	}
+	return g.cipher.DecryptProfileKey(profileKey, uuid)
+}
+
 func (g *GroupV2) decryptPendingMembers(pendingMembers []*signalservice.GroupChange_Actions_AddPendingMemberAction) []*signalservice.DecryptedPendingMember {
 	var decryptedPendingMembers []*signalservice.DecryptedPendingMember
 	for _, pendingMember := range pendingMembers {
 		added := pendingMember.GetAdded()
 		member := added.GetMember()
 		uuidCipherText := member.GetUserId()
-		uuid, err := g.cipher.DecryptUUID(uuidCipherText)
+		uuid, err := g.decryptUUID(uuidCipherText)
 		if err != nil {
 			log.Errorln(err)
 		}
-		addedByUuid, err := g.cipher.DecryptUUID(added.GetAddedByUserId())
+		addedByUuid, err := g.decryptUUID(added.GetAddedByUserId())
 		if err != nil {
 			log.Errorln(err)
 		}
@@ -153,7 +183,7 @@ func (g *GroupV2) decryptDeletePendingMembers(deletedPendingMembers []*signalser
 	pendingMembersRemoval := []*signalservice.DecryptedPendingMemberRemoval{}
 	for _, deletedPendingMember := range deletedPendingMembers {
 
-		uuid, err := g.cipher.DecryptUUID(deletedPendingMember.DeletedUserId)
+		uuid, err := g.decryptUUID(deletedPendingMember.DeletedUserId)
 		if err != nil {
 			log.Errorln(err)
 		}
diff --git a/groupsv2/groupActions.go b/groupsv2/groupActions.go
index b54cacb..01522e7 100644
--- a/groupsv2/groupActions.go
+++ b/groupsv2/groupActions.go
@@ -1,6 +1,8 @@
 package groupsv2
 
 import (
+	"errors"
+
 	zkgroup "github.com/nanu-c/zkgroup"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
 	log "github.com/sirupsen/logrus"
@@ -9,6 +11,9 @@ import (
 
 func (g *GroupV2) decryptGroupJoinInfo(groupJoinInfo *signalservice.GroupJoinInfo, groupSecretParams zkgroup.GroupSecretParams) (*signalservice.DecryptedGroupJoinInfo, error) {
 	decryptedGroupJoinInfo := new(signalservice.DecryptedGroupJoinInfo)
+	if len(groupJoinInfo.GetTitle()) <= blobOverhead {
+		return nil, errors.New("encrypted title too short")
+	}
 	clientZkGroupCipher := zkgroup.NewClientZkGroupCipher(groupSecretParams)
 	title, err := clientZkGroupCipher.DecryptBlob(groupJoinInfo.GetTitle())
 	if err != nil {
@@ -46,7 +51,7 @@ func (g *GroupV2) decryptGroupChangeActions(groupActions *signalservice.GroupCha
 		Revision: groupActions.GetRevision(),
 	}
 	if groupActions.SourceUuid != nil {
-		uuid, err := g.cipher.DecryptUUID(groupActions.SourceUuid)
+		uuid, err := g.decryptUUID(groupActions.SourceUuid)
 		log.Debugln("[textsecure][groupsv2] SourceUuid", idToHex(uuid), err)
 	}
 	log.Debugln("[textsecure][groupsv2] Revision", groupActions.Revision)
diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index 7f4c5fe..de3ab6c 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -1,13 +1,15 @@
 package groupsv2
 
 import (
-	"bytes"
 	"encoding/base64"
 	"encoding/hex"
+	"errors"
 	"fmt"
+	"io"
 	"net/url"
 	"os"
 	"path/filepath"
+	"sync"
 
 	zkgroup "github.com/nanu-c/zkgroup"
 	uuidUtil "github.com/satori/go.uuid"
@@ -38,6 +40,7 @@ var (
 	groupURLPrefix = "https://" + groupURLHost + "/#"
 	groupV2Dir     string
 	groupsV2       = map[string]*GroupV2{}
+	groupsMutex    sync.Mutex // guards groupsV2
 )
 
 // GroupV2 holds group metadata.
@@ -101,17 +104,30 @@ func createAcceptInviteChange() {
 
 }
 func FindGroup(hexid string) *GroupV2 {
-	if len(groupsV2) == 0 {
-		group, err := loadGroupV2(hexid)
+	group := knownGroup(hexid)
+	if group == nil {
+		var err error
+		group, err = loadGroupV2(hexid)
 		if err != nil {
 			log.Debugln("[textsecure][groupsv2] FindGroup", err)
 			return nil
 		}
-		return group
 	}
+	return group
+}
+
+func knownGroup(hexid string) *GroupV2 {
+	groupsMutex.Lock()
+	defer groupsMutex.Unlock()
 	return groupsV2[hexid]
 }
 
+func rememberGroup(hexid string, group *GroupV2) {
+	groupsMutex.Lock()
+	defer groupsMutex.Unlock()
+	groupsV2[hexid] = group
+}
+
 // GroupV2Message defines a group v2 message type
 type GroupV2MessageContext struct {
 	MasterKey   []byte // Masterkey is the unique identifier
@@ -147,10 +163,12 @@ func (g *GroupV2) getGroupJoinInfoFromServer(masterKey, groupLinkPassword []byte
 	if resp.IsError() {
 		return nil, fmt.Errorf(fmt.Sprintf("getGroupJoinInfoFromServer %s", resp.Status))
 	}
-	buf := new(bytes.Buffer)
-	buf.ReadFrom(resp.Body)
+	buf, err := io.ReadAll(resp.Body)
+	if err != nil {
+		return nil, err
+	}
 	groupJoinInfo := &signalservice.GroupJoinInfo{}
-	err = proto.Unmarshal(buf.Bytes(), groupJoinInfo)
+	err = proto.Unmarshal(buf, groupJoinInfo)
 	if err != nil {
 		return nil, err
 	}
@@ -184,11 +202,16 @@ func (g *GroupV2) queryGroupChangeFromServer() (*signalservice.Group, error) {
 		}
 		return nil, resp
 	}
-	buf := new(bytes.Buffer)
-	buf.ReadFrom(resp.Body)
+	buf, err := io.ReadAll(resp.Body)
+	if err != nil {
+		return nil, err
+	}
 
 	group := &signalservice.Group{}
-	err = proto.Unmarshal(buf.Bytes(), group)
+	err = proto.Unmarshal(buf, group)
+	if err != nil {
+		return nil, err
+	}
 	g.cipher = zkgroup.NewClientZkGroupCipher(groupSecretParams)
 
 	log.Debugln("[textsecure][groupsv2] queryGroupChangeFromServer group")
@@ -198,11 +221,9 @@ func (g *GroupV2) queryGroupChangeFromServer() (*signalservice.Group, error) {
 func (g *GroupV2) UpdateGroupFromServer() error {
 	log.Debugln("[textsecure][groupsv2] update group from server")
 	hexid := idToHex(g.MasterKey)
-	group := &GroupV2{
-		MasterKey: g.MasterKey,
-	}
-	if groupsV2[hexid] != nil {
-		group = groupsV2[hexid]
+	group := knownGroup(hexid)
+	if group == nil {
+		group = g
 	}
 	// decryptedGroupChange, err := getDecryptedGroupChange(signedGroupChange, groupSecretParams)
 	// if err != nil {
@@ -217,10 +238,17 @@ func (g *GroupV2) UpdateGroupFromServer() error {
 		log.Debugln("[textsecure][groupsv2] decryptGroupFromServer", err)
 		return err
 	}
-	groupsV2[hexid] = group
-	saveGroupV2(hexid)
+	if group != g {
+		g.GroupContext = group.GroupContext
+		g.DecryptedGroup = group.DecryptedGroup
+		g.JoinStatus = group.JoinStatus
+	}
+	rememberGroup(hexid, group)
+	err = saveGroupV2(hexid)
+	if err != nil {
+		return err
+	}
 	log.Debugln("[textsecure][groupsv2] update group from server")
-	g = group
 
 	return nil
 }
@@ -233,6 +261,9 @@ func GetGroupV2MembersForGroup(group string) ([]*signalservice.DecryptedMember,
 	if err != nil {
 		log.Debugln("[textsecure] could not update group from server")
 	}
+	if g.DecryptedGroup == nil {
+		return nil, fmt.Errorf("members of the group are not known")
+	}
 
 	return g.DecryptedGroup.Members, nil
 }
@@ -241,10 +272,13 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 	if groupContext == nil {
 		return nil, nil
 	}
+	if len(groupContext.GetMasterKey()) != masterKeyLength {
+		return nil, fmt.Errorf("invalid group master key")
+	}
 	hexid := idToHex(groupContext.GetMasterKey())
 	// search for group
 	group, err := loadGroupV2(hexid)
-	if err != nil {
+	if errors.Is(err, os.ErrNotExist) {
 		// group not found, create group
 		log.Debugln("[textsecure][groupsv2] handle groupv2", err)
 		group = &GroupV2{
@@ -253,7 +287,7 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 			Revision:  groupContext.GetRevision(),
 		}
 		// TODO: get members from server
-		groupsV2[hexid] = group
+		rememberGroup(hexid, group)
 		err = saveGroupV2(hexid)
 		if err != nil {
 			log.Error("[textsecure][groupsv2] handle groupv2 save", err)
@@ -263,8 +297,22 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 			log.Error("[textsecure][groupsv2] error updating group change from server", err)
 		}
 		// TODO only update group on wrong revision
+	} else if err != nil {
+		// the stored state cannot be read now, so it must not be replaced
+		log.Error("[textsecure][groupsv2] handle groupv2 load", err)
+		group = knownGroup(hexid)
+		if group == nil {
+			return &GroupV2{
+				MasterKey: groupContext.GetMasterKey(),
+				Hexid:     hexid,
+				Revision:  groupContext.GetRevision(),
+			}, nil
+		}
 	} else if string(group.GroupContext.Title) == "" {
 		err = group.UpdateGroupFromServer()
+		if err != nil {
+			log.Error("[textsecure][groupsv2] error updating group from server", err)
+		}
 	}
 	// handle group changes
 	if len(groupContext.GroupChange) > 0 {
@@ -278,15 +326,18 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 		serverPublicParams, err := zkgroup.NewServerPublicParams(zkGroupServerPublicParams)
 		if err != nil {
 			log.Errorln("[textsecure][groupsv2] server public params", err)
-		} else {
-			if len(groupChange.GetActions()) != 0 {
-				err = serverPublicParams.VerifySignature(groupChange.GetActions(), groupChange.GetServerSignature())
-				if err != nil {
-					log.Errorln("[textsecure][groupsv2] signature verification failed", err)
-					return nil, err
-				}
-				log.Debugln("[textsecure][groupsv2] signature verification succesful")
+			return nil, err
+		}
+		if len(groupChange.GetActions()) != 0 {
+			if len(groupChange.GetServerSignature()) == 0 {
+				return nil, fmt.Errorf("group change without a signature")
 			}
+			err = serverPublicParams.VerifySignature(groupChange.GetActions(), groupChange.GetServerSignature())
+			if err != nil {
+				log.Errorln("[textsecure][groupsv2] signature verification failed", err)
+				return nil, err
+			}
+			log.Debugln("[textsecure][groupsv2] signature verification succesful")
 		}
 
 		log.Debugln("[textsecure][groupsv2] handle group action ", hexid)
@@ -310,7 +361,7 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 		} else {
 			group.GroupAction = nil
 		}
-	} else if group.DecryptedGroup.Revision != groupContext.GetRevision() {
+	} else if group.DecryptedGroup == nil || group.DecryptedGroup.Revision != groupContext.GetRevision() {
 		log.Debugln("[textsecure][groupsv2] outdated group, update")
 		group.UpdateGroupFromServer()
 	}
@@ -345,7 +396,7 @@ func decryptUuidOrUnknown(uuidCipherTex []byte) *[]byte {
 
 // saveGroup stores a group's state in a file.
 func saveGroupV2(hexid string) error {
-	b, err := yaml.Marshal(groupsV2[hexid])
+	b, err := yaml.Marshal(knownGroup(hexid))
 	if err != nil {
 		return err
 	}
@@ -358,7 +409,7 @@ func loadGroupV2(hexid string) (*GroupV2, error) {
 	path := idToPath(hexid)
 	b, err := os.ReadFile(path)
 	if err != nil {
-		return nil, fmt.Errorf("group not found %s %s", err.Error(), path)
+		return nil, fmt.Errorf("group not found %w %s", err, path)
 	}
 
 	group := &GroupV2{}
@@ -366,7 +417,10 @@ func loadGroupV2(hexid string) (*GroupV2, error) {
 	if err != nil {
 		return nil, err
 	}
-	groupsV2[hexid] = group
+	if idToHex(group.MasterKey) != hexid {
+		return nil, fmt.Errorf("invalid group file %s", path)
+	}
+	rememberGroup(hexid, group)
 	return group, nil
 }
 
diff --git a/groupsv2/groupsv2api.go b/groupsv2/groupsv2api.go
index 28299e0..12646e9 100644
--- a/groupsv2/groupsv2api.go
+++ b/groupsv2/groupsv2api.go
@@ -16,7 +16,7 @@ type GroupsV2Authorization struct {
 }
 
 func NewGroupsV2AuthorizationForGroup(uuid []byte, hexid string) (*GroupsV2Authorization, error) {
-	group := groupsV2[hexid]
+	group := knownGroup(hexid)
 	groupSecretParams, err := zkgroup.NewGroupSecretParams(group.MasterKey)
 	if err != nil {
 		log.Warnln("[textsecure] NewGroupsV2AuthorizationForGroup", err.Error())
-- 
2.43.0


From b841bb818fc63b31776d82d7378dd42d7e0a177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:05 +0000
Subject: [PATCH 17/53] fix: fetch group credentials for the day they are
 needed

The credentials were fetched once and never again, so a client that ran for
longer than a week could not use groups any more. A failed decoding replaced
good credentials, errors on the way were only logged, and an empty credential
crashed the client. They are now fetched again when the day is not among them
or when they turn out unusable.
---
 groupsv2/credentials.go | 49 ++++++++++++++++++++++++++++++++---------
 groupsv2/groupsv2api.go | 20 +++++++++++++----
 2 files changed, 55 insertions(+), 14 deletions(-)

diff --git a/groupsv2/credentials.go b/groupsv2/credentials.go
index ed64565..339885d 100644
--- a/groupsv2/credentials.go
+++ b/groupsv2/credentials.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"sync"
 	"time"
 
 	signalservice "github.com/signal-golang/textsecure/protobuf"
@@ -30,26 +31,49 @@ type GroupExternalCredential struct {
 	Token []byte `json:"token"`
 }
 
-var Credentials *GroupCredentials
+var (
+	Credentials      *GroupCredentials
+	credentialsMutex sync.Mutex // guards Credentials
+)
 
 func getToday() int64 {
 	return time.Now().UnixNano() / int64(time.Millisecond) / (1000 * 60 * 60 * 24)
 }
 
-func GetCredentialForRedemption(day int64) (*GroupCredential, error) {
+func cachedCredential(day int64) *GroupCredential {
+	credentialsMutex.Lock()
+	defer credentialsMutex.Unlock()
 	if Credentials == nil {
-		today := getToday()
-		err := GetGroupAuthCredentials(today, today+7)
-		if err != nil {
-			log.Errorln("[textsecure] get groupCredentials ", err)
-			return nil, err
-		}
+		return nil
 	}
 	for _, credential := range Credentials.Credentials {
 		if credential.RedemptionTime == day {
-			return &credential, nil
+			return &credential
 		}
 	}
+	return nil
+}
+
+// forgetCredentials makes the next request fetch the credentials anew.
+func forgetCredentials() {
+	credentialsMutex.Lock()
+	defer credentialsMutex.Unlock()
+	Credentials = nil
+}
+
+func GetCredentialForRedemption(day int64) (*GroupCredential, error) {
+	if credential := cachedCredential(day); credential != nil {
+		return credential, nil
+	}
+	// nothing fetched yet, or the day is past what was fetched
+	err := GetGroupAuthCredentials(day, day+7)
+	if err != nil {
+		log.Errorln("[textsecure] get groupCredentials ", err)
+		return nil, err
+	}
+	if credential := cachedCredential(day); credential != nil {
+		return credential, nil
+	}
 	return nil, fmt.Errorf("failed to get group credentials")
 }
 
@@ -74,8 +98,13 @@ func GetGroupAuthCredentials(startDay int64, endDay int64) error {
 	}
 	dec := json.NewDecoder(resp.Body)
 	var response GroupCredentials
-	dec.Decode(&response)
+	err = dec.Decode(&response)
+	if err != nil {
+		return err
+	}
+	credentialsMutex.Lock()
 	Credentials = &response
+	credentialsMutex.Unlock()
 	return nil
 }
 
diff --git a/groupsv2/groupsv2api.go b/groupsv2/groupsv2api.go
index 12646e9..d11ab52 100644
--- a/groupsv2/groupsv2api.go
+++ b/groupsv2/groupsv2api.go
@@ -17,10 +17,13 @@ type GroupsV2Authorization struct {
 
 func NewGroupsV2AuthorizationForGroup(uuid []byte, hexid string) (*GroupsV2Authorization, error) {
 	group := knownGroup(hexid)
+	if group == nil || len(group.MasterKey) == 0 {
+		return nil, fmt.Errorf("group not found")
+	}
 	groupSecretParams, err := zkgroup.NewGroupSecretParams(group.MasterKey)
 	if err != nil {
 		log.Warnln("[textsecure] NewGroupsV2AuthorizationForGroup", err.Error())
-
+		return nil, err
 	}
 
 	return NewGroupsV2Authorization(uuid, groupSecretParams)
@@ -28,31 +31,40 @@ func NewGroupsV2AuthorizationForGroup(uuid []byte, hexid string) (*GroupsV2Autho
 
 func NewGroupsV2Authorization(uuid []byte, groupSecretParams zkgroup.GroupSecretParams) (*GroupsV2Authorization, error) {
 	publicGroupParams, err := groupSecretParams.PublicParams()
+	if err != nil {
+		return nil, err
+	}
 	today := time.Now().Unix() / 86400
 	credential, err := GetCredentialForRedemption(today)
 	if err != nil {
 		return nil, err
 
 	}
+	if len(credential.Credential) == 0 {
+		forgetCredentials()
+		return nil, fmt.Errorf("empty group credential")
+	}
 	authCredentialResponse, err := zkgroup.NewAuthCredentialResponse(credential.Credential)
 	if err != nil {
 		log.Warnln("[textsecure] NewGroupsV2AuthorizationForGroup2", err.Error())
-
+		return nil, err
 	}
 	zkGroupServerPublicParams, _ := base64.StdEncoding.DecodeString(config.ZKGROUP_SERVER_PUBLIC_PARAMS)
 	serverPublicParams, err := zkgroup.NewServerPublicParams(zkGroupServerPublicParams)
 	if err != nil {
 		log.Warnln("[textsecure] NewGroupsV2AuthorizationForGroup1", err.Error())
-
+		return nil, err
 	}
 	clientZkAuthOperations, err := zkgroup.NewClientZkAuthOperations(serverPublicParams)
 	if err != nil {
 		log.Warnln("[textsecure] NewGroupsV2AuthorizationForGroup2", err.Error())
-
+		return nil, err
 	}
 	authCredential, err := clientZkAuthOperations.ReceiveAuthCredential(uuid, (uint32)(today), authCredentialResponse)
 	if err != nil {
 		log.Warnln("[textsecure] NewGroupsV2AuthorizationForGroup3", err.Error(), uuid)
+		// do not use it again
+		forgetCredentials()
 		return nil, err
 	}
 	authCredentialPresentation, err := clientZkAuthOperations.CreateAuthCredentialPresentation(groupSecretParams, authCredential)
-- 
2.43.0


From 471fe703d4e30e7a2a57e92b21f4688b20f6ef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:32 +0000
Subject: [PATCH 18/53] fix: refuse messages from sources that are no account
 ids

The source of an envelope names the files of its session and identity, so a
source with path separators let the service create files anywhere, and an
empty one was a valid sender.
---
 textsecure.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/textsecure.go b/textsecure.go
index 9e5e0bc..f1639d9 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -575,6 +575,13 @@ func createEnvelope(plaintext []byte) (*signalservice.Envelope, error) {
 func handleReceivedMessage(env *signalservice.Envelope) error {
 
 	recid := env.GetSourceUuid()
+	switch env.GetType() {
+	case signalservice.Envelope_CIPHERTEXT, signalservice.Envelope_PREKEY_BUNDLE:
+		// sessions and identities are kept in files named after the source
+		if recid == "" || strings.ContainsAny(recid, "/\\\x00") {
+			return fmt.Errorf("invalid message source %q", recid)
+		}
+	}
 
 	sc := axolotl.NewSessionCipher(textSecureStore, textSecureStore, textSecureStore, textSecureStore, recid, env.GetSourceDevice())
 	switch env.GetType() {
-- 
2.43.0


From aba1c055a056121631ca1459ff7837b824b315a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 19/53] fix: refuse public keys with the highest bit set

Curve25519 ignores that bit, so a first message whose base key had it flipped
was accepted, but the session was then kept under the altered base key and the
sender's next messages were lost.
---
 axolotl/keys.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/axolotl/keys.go b/axolotl/keys.go
index 070d92e..3490f30 100644
--- a/axolotl/keys.go
+++ b/axolotl/keys.go
@@ -4,6 +4,7 @@
 package axolotl
 
 import (
+	"errors"
 	"fmt"
 
 	"golang.org/x/crypto/curve25519"
@@ -57,6 +58,11 @@ func decodePublicKey(b []byte) (*ECPublicKey, error) {
 	if len(b) != 33 || b[0] != djbType {
 		return nil, fmt.Errorf("malformed public key of %d bytes", len(b))
 	}
+	// Curve25519 ignores the highest bit, so a key with it set would be
+	// another encoding of the same key.
+	if b[32]&0x80 != 0 {
+		return nil, errors.New("public key with its highest bit set")
+	}
 	return NewECPublicKey(b[1:]), nil
 }
 
-- 
2.43.0


From 88c854d23e85dc519add59364d2198fd49b5cf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 20/53] fix: remove a used one-time prekey after a crash

A process that died between storing the session started by a prekey message
and removing the one-time prekey kept the prekey for good: the redelivered
message found its session and never removed it. After the session was ended,
the same message could be replayed and was handed to the user again.
---
 axolotl/session.go | 65 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 16 deletions(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index ff16728..6e7d3b7 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -388,17 +388,43 @@ func (sb *SessionBuilder) BuildReceiverSession(sr *SessionRecord, pkwm *PreKeyWh
 		return 0, NotTrustedError{sb.recipientID}
 	}
 	if sr.hasSessionState(uint32(pkwm.Version), pkwm.BaseKey.Serialize()) {
+		sb.removeUsedPreKey(pkwm)
 		return 0, nil
 	}
-	ourSignedPreKey, err := sb.signedPreKeyStore.LoadSignedPreKey(pkwm.SignedPreKeyID)
+	bob, err := sb.receiverParameters(pkwm)
 	if err != nil {
 		return 0, err
 	}
-	ourIdentityKey, err := sb.identityStore.GetIdentityKeyPair()
+	if !sr.Fresh {
+		sr.archiveCurrentState()
+	}
+	err = initializeReceiverSession(sr.sessionState, pkwm.Version, *bob)
+	if err != nil {
+		return 0, err
+	}
+
+	regID, err := sb.identityStore.GetLocalRegistrationID()
 	if err != nil {
 		return 0, err
 	}
-	bob := bobAxolotlParameters{
+	sr.sessionState.setLocalRegistrationID(regID)
+	sr.sessionState.setRemoteRegistrationID(pkwm.RegistrationID)
+	sr.sessionState.setAliceBaseKey(pkwm.BaseKey.Serialize())
+
+	return pkwm.PreKeyID, nil
+}
+
+// receiverParameters collects the keys for a session started by the message.
+func (sb *SessionBuilder) receiverParameters(pkwm *PreKeyWhisperMessage) (*bobAxolotlParameters, error) {
+	ourSignedPreKey, err := sb.signedPreKeyStore.LoadSignedPreKey(pkwm.SignedPreKeyID)
+	if err != nil {
+		return nil, err
+	}
+	ourIdentityKey, err := sb.identityStore.GetIdentityKeyPair()
+	if err != nil {
+		return nil, err
+	}
+	bob := &bobAxolotlParameters{
 		TheirBaseKey:    pkwm.BaseKey,
 		TheirIdentity:   pkwm.IdentityKey,
 		OurIdentityKey:  ourIdentityKey,
@@ -408,27 +434,34 @@ func (sb *SessionBuilder) BuildReceiverSession(sr *SessionRecord, pkwm *PreKeyWh
 	if pkwm.PreKeyID != 0 {
 		pk, err := sb.preKeyStore.LoadPreKey(pkwm.PreKeyID)
 		if err != nil {
-			return 0, PreKeyNotFoundError{pkwm.PreKeyID, err}
+			return nil, PreKeyNotFoundError{pkwm.PreKeyID, err}
 		}
 		bob.OurOneTimePreKey = pk.getKeyPair()
 	}
-	if !sr.Fresh {
-		sr.archiveCurrentState()
+	return bob, nil
+}
+
+// removeUsedPreKey removes the one-time prekey of an existing session, which is
+// still there if the process died between storing the session and removing it.
+// The id in the message is not authenticated, so the prekey is only removed if
+// the message can be decrypted with it.
+func (sb *SessionBuilder) removeUsedPreKey(pkwm *PreKeyWhisperMessage) {
+	if pkwm.PreKeyID == 0 || pkwm.PreKeyID == maxValue || !sb.preKeyStore.ContainsPreKey(pkwm.PreKeyID) {
+		return
 	}
-	err = initializeReceiverSession(sr.sessionState, pkwm.Version, bob)
+	bob, err := sb.receiverParameters(pkwm)
 	if err != nil {
-		return 0, err
+		return
 	}
-
-	regID, err := sb.identityStore.GetLocalRegistrationID()
+	state := NewSessionRecord().sessionState
+	err = initializeReceiverSession(state, pkwm.Version, *bob)
 	if err != nil {
-		return 0, err
+		return
+	}
+	_, err = state.decrypt(pkwm.Message)
+	if err == nil {
+		sb.preKeyStore.RemovePreKey(pkwm.PreKeyID)
 	}
-	sr.sessionState.setLocalRegistrationID(regID)
-	sr.sessionState.setRemoteRegistrationID(pkwm.RegistrationID)
-	sr.sessionState.setAliceBaseKey(pkwm.BaseKey.Serialize())
-
-	return pkwm.PreKeyID, nil
 }
 
 // InvalidSignatureError represents the error situation where the verification
-- 
2.43.0


From cdfeb5728877a3b6157a68b4c90849a843594dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:30 +0000
Subject: [PATCH 21/53] fix: make removed sessions and prekeys stay removed
 after a power loss

The removal of a file was not made durable. After a power loss an ended
session came back and was used for messages the peer could not read any more,
and a used one-time prekey could be used again.
---
 helpers/file.go | 11 ++++++++++-
 store.go        | 18 +++++++++++++-----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/helpers/file.go b/helpers/file.go
index e313c81..c1b53e6 100644
--- a/helpers/file.go
+++ b/helpers/file.go
@@ -37,7 +37,16 @@ func WriteFile(path, tmp string, data []byte, perm os.FileMode) error {
 	return syncDir(filepath.Dir(path))
 }
 
-// syncDir makes a rename in the directory durable.
+// RemoveFile removes the file and makes that durable.
+func RemoveFile(path string) error {
+	err := os.Remove(path)
+	if err != nil {
+		return err
+	}
+	return syncDir(filepath.Dir(path))
+}
+
+// syncDir makes a change of the directory durable.
 func syncDir(path string) error {
 	d, err := os.Open(path)
 	if err != nil {
diff --git a/store.go b/store.go
index db5e68e..0aef889 100644
--- a/store.go
+++ b/store.go
@@ -376,11 +376,20 @@ func (s *store) ContainsSignedPreKey(id uint32) bool {
 }
 
 func (s *store) RemovePreKey(id uint32) {
-	_ = os.Remove(s.preKeysFilePath(id))
+	removeRecord(s.preKeysFilePath(id))
 }
 
 func (s *store) RemoveSignedPreKey(id uint32) {
-	_ = os.Remove(s.signedPreKeysFilePath(id))
+	removeRecord(s.signedPreKeysFilePath(id))
+}
+
+// removeRecord removes a record for good, so that it does not come back after a
+// power loss.
+func removeRecord(path string) {
+	err := helpers.RemoveFile(path)
+	if err != nil && !os.IsNotExist(err) {
+		log.Errorln("[textsecure] removing a record failed", err)
+	}
 }
 
 // HTTP API store
@@ -466,8 +475,7 @@ func (s *store) ContainsSession(recipientID string, deviceID uint32) bool {
 func (s *store) DeleteSession(recipientID string, deviceID uint32) {
 	s.Lock()
 	defer s.Unlock()
-	sfile := s.sessionFilePath(recipientID, deviceID)
-	_ = os.Remove(sfile)
+	removeRecord(s.sessionFilePath(recipientID, deviceID))
 }
 
 func (s *store) DeleteAllSessions(recipientID string) {
@@ -476,7 +484,7 @@ func (s *store) DeleteAllSessions(recipientID string) {
 	defer s.Unlock()
 	sessions := s.GetSubDeviceSessions(recipientID)
 	for _, dev := range sessions {
-		_ = os.Remove(s.sessionFilePath(recipientID, dev))
+		removeRecord(s.sessionFilePath(recipientID, dev))
 	}
 }
 
-- 
2.43.0


From 109aa881af453e3a744086f760e398e2866671d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 22/53] fix: publish prekeys with valid ids and stored private
 halves

A failing store of the signed prekey was ignored, the last resort key was taken
by its position among the files, which is wrong for a batch starting near the
end of the range, keys left over from an earlier attempt were published again,
and unreadable records were dereferenced.
---
 prekeys.go    | 59 +++++++++++++++++++--------------------------------
 textsecure.go |  5 +----
 2 files changed, 23 insertions(+), 41 deletions(-)

diff --git a/prekeys.go b/prekeys.go
index 0e01116..8cac5c4 100644
--- a/prekeys.go
+++ b/prekeys.go
@@ -7,7 +7,6 @@ package textsecure
 import (
 	"fmt"
 	"os"
-	"path/filepath"
 	"strconv"
 	"time"
 
@@ -70,19 +69,24 @@ func generateSignedPreKeyEntity(record *axolotl.SignedPreKeyRecord) *signedPreKe
 
 var preKeyRecords []*axolotl.PreKeyRecord
 
-func generatePreKey(id uint32) error {
+func generatePreKey(id uint32) (*axolotl.PreKeyRecord, error) {
 	kp := axolotl.NewECKeyPair()
 	record := axolotl.NewPreKeyRecord(id, kp)
 	err := textSecureStore.StorePreKey(id, record)
-	return err
+	if err != nil {
+		return nil, err
+	}
+	return record, nil
 }
 
 var signedKey *axolotl.SignedPreKeyRecord
 
 var preKeyBatchSize = 100
 
+// getNextPreKeyID returns the id of the first prekey of a batch. No id of the
+// batch is 0 or reaches that of the last resort key.
 func getNextPreKeyID() uint32 {
-	return randID()
+	return 1 + randID()%(lastResortPreKeyID-uint32(preKeyBatchSize))
 }
 
 func generatePreKeys() error {
@@ -90,26 +94,29 @@ func generatePreKeys() error {
 		return err
 	}
 
+	preKeyRecords = []*axolotl.PreKeyRecord{}
 	startID := getNextPreKeyID()
 	for i := 0; i < preKeyBatchSize; i++ {
-		err := generatePreKey(startID + uint32(i))
+		record, err := generatePreKey(startID + uint32(i))
 		if err != nil {
 			return err
 		}
+		preKeyRecords = append(preKeyRecords, record)
 	}
-	err := generatePreKey(lastResortPreKeyID)
+	record, err := generatePreKey(lastResortPreKeyID)
 	if err != nil {
 		return err
 	}
-	signedKey = generateSignedPreKey()
-	return nil
+	preKeyRecords = append(preKeyRecords, record)
+	signedKey, err = generateSignedPreKey()
+	return err
 }
 
 func getNextSignedPreKeyID() uint32 {
 	return randID()
 }
 
-func generateSignedPreKey() *axolotl.SignedPreKeyRecord {
+func generateSignedPreKey() (*axolotl.SignedPreKeyRecord, error) {
 	kp := axolotl.NewECKeyPair()
 	id := getNextSignedPreKeyID()
 	var random [64]byte
@@ -117,15 +124,14 @@ func generateSignedPreKey() *axolotl.SignedPreKeyRecord {
 	priv := identityKey.PrivateKey.Key()
 	signature := curve25519sign.Sign(priv, kp.PublicKey.Serialize(), random)
 	record := axolotl.NewSignedPreKeyRecord(id, uint64(time.Now().UnixNano()*1000), kp, signature[:])
-	textSecureStore.StoreSignedPreKey(id, record)
-	return record
-}
-
-func generatePreKeyState() error {
-	err := loadPreKeys()
+	err := textSecureStore.StoreSignedPreKey(id, record)
 	if err != nil {
-		return err
+		return nil, err
 	}
+	return record, nil
+}
+
+func generatePreKeyState() {
 	preKeys = &preKeyState{}
 	npkr := len(preKeyRecords)
 	preKeys.PreKeys = make([]*preKeyEntity, npkr-1)
@@ -135,27 +141,6 @@ func generatePreKeyState() error {
 	preKeys.LastResortKey = generatepreKeyEntity(preKeyRecords[npkr-1])
 	preKeys.IdentityKey = helpers.Base64EncWithoutPadding(identityKey.PublicKey.Serialize())
 	preKeys.SignedPreKey = generateSignedPreKeyEntity(signedKey)
-	return nil
-}
-
-func loadPreKeys() error {
-	preKeyRecords = []*axolotl.PreKeyRecord{}
-	count := 0
-	err := filepath.Walk(textSecureStore.preKeysDir, func(path string, fi os.FileInfo, err error) error {
-		if !fi.IsDir() {
-			preKeyRecords = append(preKeyRecords, &axolotl.PreKeyRecord{})
-			_, fname := filepath.Split(path)
-			id, err := filenameToID(fname)
-			if err != nil {
-				return err
-			}
-			preKeyRecords[count], _ = textSecureStore.LoadPreKey(uint32(id))
-			count++
-		}
-		return nil
-
-	})
-	return err
 }
 
 func makePreKeyBundle(UUID string, deviceID uint32) (*axolotl.PreKeyBundle, error) {
diff --git a/textsecure.go b/textsecure.go
index f1639d9..7308d7e 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -453,10 +453,7 @@ func registerDevice() error {
 	if err != nil {
 		return err
 	}
-	err = generatePreKeyState()
-	if err != nil {
-		return err
-	}
+	generatePreKeyState()
 	err = registerPreKeys()
 	if err != nil {
 		return err
-- 
2.43.0


From a92be698b32d084adc48616c978bd84186e55888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 23/53] fix: complete or repeat an interrupted registration

A device counted as registered as soon as its prekeys had been written, although
nothing had been published yet, and failing writes of the records it needs were
ignored. A durable marker now tells that a registration is going on. The sender
certificate and the profile key credential of an earlier attempt are dropped.
RegistrationDone is optional.
---
 store.go      | 41 +++++++++++++++++++++++++++++----------
 textsecure.go | 53 ++++++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 73 insertions(+), 21 deletions(-)

diff --git a/store.go b/store.go
index 0aef889..0c42005 100644
--- a/store.go
+++ b/store.go
@@ -124,9 +124,9 @@ func (s *store) readNumFromFile(path string) (uint32, error) {
 	return uint32(num), nil
 }
 
-func (s *store) writeNumToFile(path string, num uint32) {
+func (s *store) writeNumToFile(path string, num uint32) error {
 	b := []byte(strconv.Itoa(int(num)))
-	s.writeFile(path, b)
+	return s.writeFile(path, b)
 }
 
 func (s *store) genKeys(password string, salt []byte, count int) {
@@ -194,9 +194,9 @@ func (s *store) GetLocalRegistrationID() (uint32, error) {
 	return s.readNumFromFile(regidfile)
 }
 
-func (s *store) SetLocalRegistrationID(id uint32) {
+func (s *store) SetLocalRegistrationID(id uint32) error {
 	regidfile := filepath.Join(s.identityDir, "regid")
-	s.writeNumToFile(regidfile, id)
+	return s.writeNumToFile(regidfile, id)
 }
 
 func (s *store) GetIdentityKeyPair() (*axolotl.IdentityKeyPair, error) {
@@ -363,8 +363,29 @@ func exists(path string) bool {
 	return !os.IsNotExist(err)
 }
 
-func (s *store) valid() bool {
-	return s.ContainsPreKey(lastResortPreKeyID)
+// registeringFile marks a registration that has been started, but not completed.
+func (s *store) registeringFile() string {
+	return filepath.Join(s.identityDir, "registering")
+}
+
+func (s *store) startRegistration() error {
+	return s.writeFile(s.registeringFile(), []byte{})
+}
+
+func (s *store) endRegistration() error {
+	return helpers.RemoveFile(s.registeringFile())
+}
+
+// valid tells whether the store belongs to a registered device.
+func (s *store) valid() (bool, error) {
+	_, err := os.Stat(s.registeringFile())
+	if err == nil {
+		return false, nil
+	}
+	if !os.IsNotExist(err) {
+		return false, err
+	}
+	return s.ContainsPreKey(lastResortPreKeyID), nil
 }
 
 func (s *store) ContainsPreKey(id uint32) bool {
@@ -393,9 +414,9 @@ func removeRecord(path string) {
 }
 
 // HTTP API store
-func (s *store) storeHTTPPassword(password string) {
+func (s *store) storeHTTPPassword(password string) error {
 	passFile := filepath.Join(s.identityDir, "http_password")
-	s.writeFile(passFile, []byte(password))
+	return s.writeFile(passFile, []byte(password))
 }
 
 func (s *store) loadHTTPPassword() (string, error) {
@@ -407,9 +428,9 @@ func (s *store) loadHTTPPassword() (string, error) {
 	return string(b), nil
 }
 
-func (s *store) storeHTTPSignalingKey(key []byte) {
+func (s *store) storeHTTPSignalingKey(key []byte) error {
 	keyFile := filepath.Join(s.identityDir, "http_signaling_key")
-	s.writeFile(keyFile, key)
+	return s.writeFile(keyFile, key)
 }
 
 func (s *store) loadHTTPSignalingKey() ([]byte, error) {
diff --git a/textsecure.go b/textsecure.go
index 7308d7e..4231dc6 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -84,8 +84,9 @@ func decodeSignature(s string) ([]byte, error) {
 	return b, nil
 }
 
-func needsRegistration() bool {
-	return !textSecureStore.valid()
+func needsRegistration() (bool, error) {
+	valid, err := textSecureStore.valid()
+	return !valid, err
 }
 
 var identityKey *axolotl.IdentityKeyPair
@@ -282,20 +283,37 @@ func Setup(c *Client) error {
 		return err
 	}
 
-	if needsRegistration() {
+	register, err := needsRegistration()
+	if err != nil {
+		return err
+	}
+	if register {
+		err := textSecureStore.startRegistration()
+		if err != nil {
+			return err
+		}
 		registration.Registration = registration.RegistrationInfo{
 			RegistrationID: generateRegistrationID(),
 		}
-		textSecureStore.SetLocalRegistrationID(registration.Registration.RegistrationID)
+		err = textSecureStore.SetLocalRegistrationID(registration.Registration.RegistrationID)
+		if err != nil {
+			return err
+		}
 
 		registration.Registration.Password = generatePassword()
-		textSecureStore.storeHTTPPassword(registration.Registration.Password)
+		err = textSecureStore.storeHTTPPassword(registration.Registration.Password)
+		if err != nil {
+			return err
+		}
 
 		registration.Registration.SignalingKey = generateSignalingKey()
-		textSecureStore.storeHTTPSignalingKey(registration.Registration.SignalingKey)
+		err = textSecureStore.storeHTTPSignalingKey(registration.Registration.SignalingKey)
+		if err != nil {
+			return err
+		}
 
 		identityKey = axolotl.GenerateIdentityKeyPair()
-		err := textSecureStore.SetIdentityKeyPair(identityKey)
+		err = textSecureStore.SetIdentityKeyPair(identityKey)
 		if err != nil {
 			return err
 		}
@@ -318,7 +336,9 @@ func Setup(c *Client) error {
 		return err
 	}
 
-	client.RegistrationDone()
+	if client.RegistrationDone != nil {
+		client.RegistrationDone()
+	}
 	rootCa.SetupCA(config.ConfigFile.RootCA)
 	transport.SetupTransporter(config.ConfigFile.Server, config.ConfigFile.UUID, registration.Registration.Password, config.ConfigFile.UserAgent, config.ConfigFile.ProxyServer)
 	transport.SetupCDNTransporter(SIGNAL_CDN2_URL, config.ConfigFile.UUID, registration.Registration.Password, config.ConfigFile.UserAgent, config.ConfigFile.ProxyServer)
@@ -326,6 +346,9 @@ func Setup(c *Client) error {
 	transport.SetupStorageTransporter(STORAGE_URL, config.ConfigFile.UUID, registration.Registration.Password, config.ConfigFile.UserAgent, config.ConfigFile.ProxyServer)
 	transport.SetupServiceTransporter(SIGNAL_SERVICE_URL, config.ConfigFile.UUID, registration.Registration.Password, config.ConfigFile.UserAgent, config.ConfigFile.ProxyServer)
 	identityKey, err = textSecureStore.GetIdentityKeyPair()
+	if err != nil {
+		return err
+	}
 	// check if we have a uuid and if not get it
 	// config.ConfigFile = checkUUID(config.ConfigFile)
 	profileChanged := false
@@ -411,7 +434,6 @@ func registerDevice() error {
 	rootCa.SetupCA(config.ConfigFile.RootCA)
 
 	log.Debugln("[textsecure] Crayfish registration starting")
-	client.GetConfig()
 	phoneNumber := client.GetPhoneNumber()
 	captcha := client.GetCaptchaToken()
 	name := client.GetUsername()
@@ -459,10 +481,19 @@ func registerDevice() error {
 		return err
 	}
 	config.ConfigFile.ProfileKey = profiles.GenerateProfileKey()
+	// these were issued for an earlier registration
+	config.ConfigFile.Certificate = nil
+	config.ConfigFile.ProfileKeyCredential = nil
 	// config.ConfigFile = checkUUID(config.ConfigFile)
-	saveConfig(config.ConfigFile)
+	err = saveConfig(config.ConfigFile)
+	if err != nil {
+		return err
+	}
+	err = textSecureStore.endRegistration()
+	if err != nil {
+		return err
+	}
 
-	client.RegistrationDone()
 	if client.RegistrationDone != nil {
 		log.Infoln("[textsecure] RegistrationDone")
 
-- 
2.43.0


From b83b6be3b45381e2cfcde8c37e34745ce095f221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 24/53] fix: renew expired sender certificates and never store
 bad ones

The expiry time is in milliseconds and was compared with seconds, so that an
expired certificate was kept for ever; an unreadable one ended the process. The
status and decoding errors of the request were ignored and whatever came was
stored. A certificate of another account is not used.
---
 textsecure.go                            |  9 ++++++++-
 transport/unidentifiedCert.go            |  8 ++++++--
 unidentifiedAccess/unidentifiedAccess.go | 20 ++++++++++++--------
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/textsecure.go b/textsecure.go
index 4231dc6..ad99cd8 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -409,8 +409,15 @@ func renewSenderCertificate() error {
 	if err != nil {
 		return err
 	}
+	err = unidentifiedAccess.CheckCertificate(cert.Certificate)
+	if err != nil {
+		return err
+	}
 	config.ConfigFile.Certificate = cert.Certificate
-	saveConfig(config.ConfigFile)
+	err = saveConfig(config.ConfigFile)
+	if err != nil {
+		return err
+	}
 	log.Debug(fmt.Sprintf("[textsecure] Sender certificate: %s", cert))
 	return nil
 
diff --git a/transport/unidentifiedCert.go b/transport/unidentifiedCert.go
index bc21a5b..96edaa3 100644
--- a/transport/unidentifiedCert.go
+++ b/transport/unidentifiedCert.go
@@ -23,10 +23,14 @@ func GetSenderCertificate() (*SenderCertificate, error) {
 		return nil, err
 	}
 
+	if resp.IsError() {
+		return nil, resp
+	}
+
 	dec := json.NewDecoder(resp.Body)
-	err = dec.Decode(&certificates)
+	err = dec.Decode(certificates)
 	if err != nil {
-		return certificates, nil
+		return nil, err
 	}
 
 	return certificates, nil
diff --git a/unidentifiedAccess/unidentifiedAccess.go b/unidentifiedAccess/unidentifiedAccess.go
index 593b9e2..bd6158d 100644
--- a/unidentifiedAccess/unidentifiedAccess.go
+++ b/unidentifiedAccess/unidentifiedAccess.go
@@ -40,17 +40,21 @@ func CheckCertificate(certificate []byte) error {
 	if len(certificate) == 0 {
 		return ErrCertificateEmpty
 	}
-	serverCert := &signalservice.ServerCertificate{}
-	if err := proto.Unmarshal(certificate, serverCert); err != nil {
-		log.Fatalln("Failed to parse certificate:", err)
+	senderCert := &signalservice.SenderCertificate{}
+	if err := proto.Unmarshal(certificate, senderCert); err != nil {
+		log.Errorln("Failed to parse certificate:", err)
 		return err
 	}
-	senderCertificate := &signalservice.SenderCertificate_Certificate{}
-	if err := proto.Unmarshal(serverCert.Certificate, senderCertificate); err != nil {
-		log.Fatalln("Failed to parse sender certificate:", err)
+	cert := &signalservice.SenderCertificate_Certificate{}
+	if err := proto.Unmarshal(senderCert.Certificate, cert); err != nil {
+		log.Errorln("Failed to parse sender certificate:", err)
 		return err
 	}
-	if *senderCertificate.Expires < uint64(time.Now().Unix()) {
+	if cert.GetSenderUuid() != config.ConfigFile.UUID {
+		return errors.New("certificate of another account")
+	}
+	// the certificate expires at a time in milliseconds
+	if cert.GetExpires() <= uint64(time.Now().UnixNano()/int64(time.Millisecond)) {
 		log.Errorln("Certificate expired")
 		return errors.New("certificate expired")
 	}
@@ -147,7 +151,7 @@ func GetOurCertificate() ([]byte, error) {
 	log.Infoln("[textsecure] Getting our certificate")
 	cert := &signalservice.ServerCertificate{}
 	if err := proto.Unmarshal(config.ConfigFile.Certificate, cert); err != nil {
-		log.Fatalln("Failed to parse certificate:", err)
+		log.Errorln("Failed to parse certificate:", err)
 		return nil, err
 	}
 	return cert.Certificate, nil
-- 
2.43.0


From 98da486d47790f0522c8ba1a25139f49564fdde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 25/53] fix: choose an unpredictable profile key once

The profile key came from math/rand and was replaced at every start, which made
the credential and everything published under it worthless. It is now drawn from
the system's secure randomness and kept; the profile is published again at every
start, and a start without a credential fails when that is not possible.
---
 profiles/profile.go | 10 +++++++---
 textsecure.go       | 41 +++++++++++++++++++++++++----------------
 2 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/profiles/profile.go b/profiles/profile.go
index 092628b..523681e 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -2,13 +2,13 @@ package profiles
 
 import (
 	"bytes"
+	"crypto/rand"
 	"encoding/base64"
 	"encoding/hex"
 	"encoding/json"
 	"errors"
 	"fmt"
 	"io"
-	"math/rand"
 
 	zkgroup "github.com/nanu-c/zkgroup"
 	uuidUtil "github.com/satori/go.uuid"
@@ -43,7 +43,9 @@ type ProfileSettings struct {
 // GenerateProfileKey generates a new ProfileKey
 func GenerateProfileKey() []byte {
 	profileKey := make([]byte, 32)
-	rand.Read(profileKey)
+	if _, err := io.ReadFull(rand.Reader, profileKey); err != nil {
+		panic(err)
+	}
 	return profileKey
 }
 func uuidToByte(id string) []byte {
@@ -108,7 +110,9 @@ func encryptName(key, input []byte, paddedLength int) ([]byte, error) {
 	}
 	padded := append(input, make([]byte, paddedLength-inputLength)...)
 	nonce := make([]byte, 12)
-	rand.Read(nonce)
+	if _, err := io.ReadFull(rand.Reader, nonce); err != nil {
+		return nil, err
+	}
 	ciphertext, err := crypto.AesgcmEncrypt(key, nonce, padded)
 	if err != nil {
 		return nil, err
diff --git a/textsecure.go b/textsecure.go
index ad99cd8..42cb8b5 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -351,25 +351,27 @@ func Setup(c *Client) error {
 	}
 	// check if we have a uuid and if not get it
 	// config.ConfigFile = checkUUID(config.ConfigFile)
-	profileChanged := false
 	// check for a profileKey
 	if len(config.ConfigFile.ProfileKey) == 0 {
 		config.ConfigFile.ProfileKey = profiles.GenerateProfileKey()
-		saveConfig(config.ConfigFile)
-		profileChanged = true
+		// a credential is only good for the key it was issued for
+		config.ConfigFile.ProfileKeyCredential = nil
+		err = saveConfig(config.ConfigFile)
+		if err != nil {
+			return err
+		}
 	}
 	// check if a username is set
 	if config.ConfigFile.Name == "" {
 		config.ConfigFile.Name = client.GetUsername()
-		profileChanged = true
-		saveConfig(config.ConfigFile)
+		err = saveConfig(config.ConfigFile)
+		if err != nil {
+			return err
+		}
 	}
-	if profileChanged {
-		profiles.UpdateProfile(config.ConfigFile.ProfileKey, config.ConfigFile.UUID, config.ConfigFile.Name)
-	} else {
-		config.ConfigFile.ProfileKey = profiles.GenerateProfileKey()
-		saveConfig(config.ConfigFile)
-		profiles.UpdateProfile(config.ConfigFile.ProfileKey, config.ConfigFile.UUID, config.ConfigFile.Name)
+	err = profiles.UpdateProfile(config.ConfigFile.ProfileKey, config.ConfigFile.UUID, config.ConfigFile.Name)
+	if err != nil {
+		log.Errorln("[textsecure] failed to update the profile", err)
 	}
 
 	// check for unidentified access
@@ -389,19 +391,24 @@ func Setup(c *Client) error {
 	}
 	if len(config.ConfigFile.ProfileKeyCredential) == 0 {
 		log.Infoln("[textsecure] Generating profile key credential")
-		profiles.UpdateProfile(config.ConfigFile.ProfileKey, config.ConfigFile.UUID, config.ConfigFile.Name)
+		err = profiles.UpdateProfile(config.ConfigFile.ProfileKey, config.ConfigFile.UUID, config.ConfigFile.Name)
+		if err != nil {
+			return err
+		}
 		profile, err := profiles.GetProfileAndCredential(config.ConfigFile.UUID, config.ConfigFile.ProfileKey)
 		if err != nil {
 			return err
 		}
 		config.ConfigFile.ProfileKeyCredential = []byte(profile.Credential)
-		saveConfig(config.ConfigFile)
-
+		err = saveConfig(config.ConfigFile)
+		if err != nil {
+			return err
+		}
 	} else {
 		log.Infoln("[textsecure] Using existing profile key credential", len(config.ConfigFile.ProfileKeyCredential))
 	}
 
-	return err
+	return nil
 }
 func renewSenderCertificate() error {
 	log.Infoln("Get new uidentified sender certificate")
@@ -487,7 +494,9 @@ func registerDevice() error {
 	if err != nil {
 		return err
 	}
-	config.ConfigFile.ProfileKey = profiles.GenerateProfileKey()
+	if len(config.ConfigFile.ProfileKey) == 0 {
+		config.ConfigFile.ProfileKey = profiles.GenerateProfileKey()
+	}
 	// these were issued for an earlier registration
 	config.ConfigFile.Certificate = nil
 	config.ConfigFile.ProfileKeyCredential = nil
-- 
2.43.0


From 524f9a66a1505d7a5fe4bf2acefa9c8595038908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 26/53] fix: never choose 0 as the id of the signed prekey

Messages that start a session with it are refused as incomplete.
---
 prekeys.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prekeys.go b/prekeys.go
index 8cac5c4..54ef96c 100644
--- a/prekeys.go
+++ b/prekeys.go
@@ -112,8 +112,10 @@ func generatePreKeys() error {
 	return err
 }
 
+// getNextSignedPreKeyID returns a random id. It is not 0, which means a missing
+// id in the messages that start a session.
 func getNextSignedPreKeyID() uint32 {
-	return randID()
+	return 1 + randID()%0xffffff
 }
 
 func generateSignedPreKey() (*axolotl.SignedPreKeyRecord, error) {
-- 
2.43.0


From f11cde81da36f9fe81141a85eaabcc89f3ffc227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 27/53] fix: report an unreadable group directory instead of
 crashing

---
 groups.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/groups.go b/groups.go
index fffd79b..0d59993 100644
--- a/groups.go
+++ b/groups.go
@@ -97,7 +97,10 @@ func setupGroups() error {
 	if err := os.MkdirAll(groupDir, 0700); err != nil {
 		return err
 	}
-	filepath.Walk(groupDir, func(path string, fi os.FileInfo, err error) error {
+	return filepath.Walk(groupDir, func(path string, fi os.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
 		if !fi.IsDir() {
 			if !strings.Contains(path, "avatar") {
 				loadGroup(path)
@@ -106,7 +109,6 @@ func setupGroups() error {
 		return nil
 
 	})
-	return nil
 }
 
 // removeMember removes a given number from a list.
-- 
2.43.0


From 6d6ac06473c066583a1f8595575b4acb6a18a25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 28/53] fix: keep a session that a peer starts while its old
 ones are being ended

EndSession deletes the sessions after the service has accepted the message.
A new session the peer started in the meantime was deleted with them and its
messages were lost.
---
 textsecure.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/textsecure.go b/textsecure.go
index 42cb8b5..d358baf 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -677,7 +677,12 @@ func handleReceivedMessage(env *signalservice.Envelope) error {
 		if err != nil {
 			return err
 		}
+		// A session that the peer starts while its old ones are being ended
+		// must not end with them.
+		lock := sessionsLock(recid)
+		lock.RLock()
 		b, err := sc.SessionDecryptPreKeyWhisperMessage(pkwm)
+		lock.RUnlock()
 		if _, ok := err.(axolotl.DuplicateMessageError); ok {
 			log.Infof("[textsecure] Incoming PreKeyWhisperMessage %s. Ignoring.\n", err)
 			return nil
-- 
2.43.0


From cdb8f29af7af9720799b7cce105eaf7506821ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:38 +0000
Subject: [PATCH 29/53] fix: an unusable prekey of a bundle is an error, not a
 crash

makePreKeyBundle built the one-time prekey before it looked at the error of
decoding it, and so panicked when the service answered with an empty or
garbled key.
---
 prekeys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prekeys.go b/prekeys.go
index 54ef96c..872860e 100644
--- a/prekeys.go
+++ b/prekeys.go
@@ -163,10 +163,10 @@ func makePreKeyBundle(UUID string, deviceID uint32) (*axolotl.PreKeyBundle, erro
 	} else {
 		preKeyId = d.PreKey.ID
 		decPK, err := decodeKey(d.PreKey.PublicKey)
-		preKey = axolotl.NewECPublicKey(decPK)
 		if err != nil {
 			return nil, err
 		}
+		preKey = axolotl.NewECPublicKey(decPK)
 	}
 
 	if d.SignedPreKey == nil {
-- 
2.43.0


From 185b42427fd2a0b7df052310668357e209a30c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 30/53] fix: a removed device does not block all sends to its
 account

When a device was removed after the service had told about it and before
its keys were fetched, it stayed in the list of devices and every later
send to the account failed with status 404 until the next restart. It is
now dropped from the list; should it still exist the service reports it
as missing.
---
 server.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/server.go b/server.go
index 5d0372d..4cf62ce 100644
--- a/server.go
+++ b/server.go
@@ -572,6 +572,9 @@ func getPreKeys(UUID string, deviceID string) (*preKeyResponse, error) {
 	if err != nil {
 		return nil, err
 	}
+	if resp.Status == unknownDeviceStatus {
+		return nil, errUnknownDevice
+	}
 	if resp.IsError() {
 		return nil, resp
 	}
@@ -823,6 +826,12 @@ func buildMessage(reciever string, paddedMessage []byte, devices []uint32, isSyn
 	for _, devid := range devices {
 		if !textSecureStore.ContainsSession(recid, devid) {
 			pkb, err := makePreKeyBundle(reciever, devid)
+			if err == errUnknownDevice {
+				// It was removed after the service told about it. Otherwise
+				// the service will report it as missing.
+				updateDevices(reciever, nil, []uint32{devid})
+				continue
+			}
 			if err != nil {
 				return nil, err
 			}
@@ -857,6 +866,7 @@ func buildMessage(reciever string, paddedMessage []byte, devices []uint32, isSyn
 }
 
 var (
+	unknownDeviceStatus     = 404
 	mismatchedDevicesStatus = 409
 	staleDevicesStatus      = 410
 	rateLimitExceededStatus = 413
@@ -879,6 +889,9 @@ type sendMessageResponse struct {
 // ErrRemoteGone is returned when the peer reinstalled and lost its session state.
 var ErrRemoteGone = errors.New("the remote device is gone (probably reinstalled)")
 
+// errUnknownDevice is returned when the service has no keys of a device.
+var errUnknownDevice = errors.New("the service does not know the device")
+
 // deviceLists remembers the devices of each recipient, guarded by deviceListsMutex.
 var (
 	deviceLists      = map[string][]uint32{}
-- 
2.43.0


From 89c2c5f673febba9558006480d86fb102e847df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:26 +0000
Subject: [PATCH 31/53] fix: a late answer about stale devices does not delete
 the new session

When two overlapping sends were both told that a device was reinstalled,
the second answer deleted the session the first send had just started,
and messages the peer sent on it could not be decrypted any more.
---
 axolotl/session.go |  5 +++++
 server.go          |  6 +++++-
 store.go           | 12 ++++++++++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index 6e7d3b7..8fa97db 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -625,6 +625,11 @@ func (sc *SessionCipher) GetRemoteRegistrationID() (uint32, error) {
 	return sr.sessionState.getRemoteRegistrationID(), nil
 }
 
+// RemoteRegistrationID returns the registration ID the peer had when the session started.
+func (record *SessionRecord) RemoteRegistrationID() uint32 {
+	return record.sessionState.getRemoteRegistrationID()
+}
+
 // ErrUninitializedSession occurs when there is no session matching the incoming message.
 var ErrUninitializedSession = errors.New("uninitialized session")
 
diff --git a/server.go b/server.go
index 4cf62ce..b3779f6 100644
--- a/server.go
+++ b/server.go
@@ -1014,7 +1014,11 @@ func tryToSendMessage(uuid string, paddedMessage []byte, isSync bool, timestamp
 			if err != nil {
 				return nil, false, err
 			}
-			textSecureStore.DeleteSession(uuidCleanup, id)
+			for _, jmsg := range bm {
+				if jmsg.DestDeviceID == id {
+					textSecureStore.deleteStaleSession(uuidCleanup, id, jmsg.DestRegistrationID)
+				}
+			}
 		}
 		return nil, true, resp
 	}
diff --git a/store.go b/store.go
index 0c42005..edb25c2 100644
--- a/store.go
+++ b/store.go
@@ -499,6 +499,18 @@ func (s *store) DeleteSession(recipientID string, deviceID uint32) {
 	removeRecord(s.sessionFilePath(recipientID, deviceID))
 }
 
+// deleteStaleSession deletes a session with a former installation of a device,
+// unless another call has already replaced it.
+func (s *store) deleteStaleSession(recipientID string, deviceID, registrationID uint32) {
+	s.Lock()
+	defer s.Unlock()
+	record, err := s.LoadSession(recipientID, deviceID)
+	if err != nil || record.RemoteRegistrationID() != registrationID {
+		return
+	}
+	removeRecord(s.sessionFilePath(recipientID, deviceID))
+}
+
 func (s *store) DeleteAllSessions(recipientID string) {
 	log.Debugf("Deleting all sessions for %s\n", recipientID)
 	s.Lock()
-- 
2.43.0


From 011d495ef8aa0dedc41d778f6726bf24d9513083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:07 +0000
Subject: [PATCH 32/53] fix: the first sending chain key is not kept as a
 receiving chain key

A session that this side starts stored the initial chain key of its own
sending chain as receiving chain as well, where it stayed for five ratchet
steps. Whoever got hold of the storage could decrypt the messages sent
first. The receiving chain begins with the chain key both sides derive from
the key agreement, as in the protocol.
---
 axolotl/ratchet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/axolotl/ratchet.go b/axolotl/ratchet.go
index 9a0d29e..49585a3 100644
--- a/axolotl/ratchet.go
+++ b/axolotl/ratchet.go
@@ -198,7 +198,7 @@ func initializeSenderSession(ss *sessionState, version byte, parameters aliceAxo
 		return err
 	}
 
-	ss.addReceiverChain(parameters.TheirRatchetKey, &sendingChain.chainKey)
+	ss.addReceiverChain(parameters.TheirRatchetKey, &dk.chainKey)
 	ss.setSenderChain(sendingRatchetKey, &sendingChain.chainKey)
 	ss.setRootKey(&sendingChain.rootKey)
 
-- 
2.43.0


From 620dcd0cf1a86e1f5e6d9049e88b05bb617d011e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:11 +0000
Subject: [PATCH 33/53] fix: hand over the contacts of a message sent from
 another device

HandleContacts returned nothing, so the contacts in a transcript were lost.
---
 contacts/contacts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contacts/contacts.go b/contacts/contacts.go
index 00c2a05..ae3bf8d 100644
--- a/contacts/contacts.go
+++ b/contacts/contacts.go
@@ -157,7 +157,7 @@ func HandleContacts(src string, dm *signalservice.DataMessage) ([]*signalservice
 
 		log.Debugln("[textsecure] handle Contact", c.GetName())
 	}
-	return nil, nil
+	return cs, nil
 }
 
 func UpdateProfileKey(src string, profileKey []byte) error {
-- 
2.43.0


From 80ed8fea6d0528dd423c428e265e2779645aa509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:56 +0000
Subject: [PATCH 34/53] fix: report a file that cannot be read while its type
 is looked up

MIMETypeFromReader dropped an error within the first 1024 bytes and returned
a reader that ended there, so that the attachment was sent truncated.
---
 textsecure.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/textsecure.go b/textsecure.go
index d358baf..d63b0db 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -145,11 +145,19 @@ func SendMessage(uuid, msg string, timer uint32) (uint64, error) {
 // MIMETypeFromReader returns the mime type that is inside the reader
 func MIMETypeFromReader(r io.Reader) (mime string, reader io.Reader) {
 	var buf bytes.Buffer
-	io.CopyN(&buf, r, 1024)
+	_, err := io.CopyN(&buf, r, 1024)
 	mime = mimemagic.Match("", buf.Bytes())
+	if err != nil && err != io.EOF {
+		return mime, io.MultiReader(&buf, failedReader{err})
+	}
 	return mime, io.MultiReader(&buf, r)
 }
 
+// failedReader returns the error that reading ended with.
+type failedReader struct{ err error }
+
+func (r failedReader) Read([]byte) (int, error) { return 0, r.err }
+
 // SendAttachment sends the contents of a reader, along
 // with an optional message to a given contact.
 func SendAttachment(uuid string, msg string, r io.Reader, timer uint32) (uint64, error) {
-- 
2.43.0


From b6755375785161f5d7e430e9c3092cd3c5276469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:17 +0000
Subject: [PATCH 35/53] fix: replace a stored group credential that cannot be
 used

A credential which the service sent broken stayed in the cache, so that all
group operations failed until a restart. Forget it on any failure, and fetch
it once more if it was fetched earlier.
---
 groupsv2/groupsv2api.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/groupsv2/groupsv2api.go b/groupsv2/groupsv2api.go
index d11ab52..060c430 100644
--- a/groupsv2/groupsv2api.go
+++ b/groupsv2/groupsv2api.go
@@ -30,18 +30,40 @@ func NewGroupsV2AuthorizationForGroup(uuid []byte, hexid string) (*GroupsV2Autho
 }
 
 func NewGroupsV2Authorization(uuid []byte, groupSecretParams zkgroup.GroupSecretParams) (*GroupsV2Authorization, error) {
-	publicGroupParams, err := groupSecretParams.PublicParams()
-	if err != nil {
-		return nil, err
-	}
 	today := time.Now().Unix() / 86400
+	fetched := cachedCredential(today) == nil
 	credential, err := GetCredentialForRedemption(today)
 	if err != nil {
 		return nil, err
+	}
+	auth, err := authorizeWithCredential(uuid, groupSecretParams, credential, today)
+	if err != nil {
+		// do not use it again
+		forgetCredentials()
+		if fetched {
+			return nil, err
+		}
+		// it was fetched long ago, so the service may give a good one now
+		credential, err = GetCredentialForRedemption(today)
+		if err != nil {
+			return nil, err
+		}
+		auth, err = authorizeWithCredential(uuid, groupSecretParams, credential, today)
+		if err != nil {
+			forgetCredentials()
+			return nil, err
+		}
+	}
+	return auth, nil
+}
 
+// authorizeWithCredential proves that the account has a credential for the day.
+func authorizeWithCredential(uuid []byte, groupSecretParams zkgroup.GroupSecretParams, credential *GroupCredential, day int64) (*GroupsV2Authorization, error) {
+	publicGroupParams, err := groupSecretParams.PublicParams()
+	if err != nil {
+		return nil, err
 	}
 	if len(credential.Credential) == 0 {
-		forgetCredentials()
 		return nil, fmt.Errorf("empty group credential")
 	}
 	authCredentialResponse, err := zkgroup.NewAuthCredentialResponse(credential.Credential)
@@ -60,11 +82,9 @@ func NewGroupsV2Authorization(uuid []byte, groupSecretParams zkgroup.GroupSecret
 		log.Warnln("[textsecure] NewGroupsV2AuthorizationForGroup2", err.Error())
 		return nil, err
 	}
-	authCredential, err := clientZkAuthOperations.ReceiveAuthCredential(uuid, (uint32)(today), authCredentialResponse)
+	authCredential, err := clientZkAuthOperations.ReceiveAuthCredential(uuid, (uint32)(day), authCredentialResponse)
 	if err != nil {
 		log.Warnln("[textsecure] NewGroupsV2AuthorizationForGroup3", err.Error(), uuid)
-		// do not use it again
-		forgetCredentials()
 		return nil, err
 	}
 	authCredentialPresentation, err := clientZkAuthOperations.CreateAuthCredentialPresentation(groupSecretParams, authCredential)
-- 
2.43.0


From 0cde380509a3f93ccff7d5c5fc91f53a4721d2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:21 +0000
Subject: [PATCH 36/53] fix: refuse a group whose member's profile key cannot
 be decrypted

The error was ignored, and the state was kept with the empty key.
---
 groupsv2/decrypt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/groupsv2/decrypt.go b/groupsv2/decrypt.go
index ac2ea07..a46b09b 100644
--- a/groupsv2/decrypt.go
+++ b/groupsv2/decrypt.go
@@ -90,7 +90,9 @@ func (g *GroupV2) decryptMember(member *signalservice.Member) (*signalservice.De
 			return nil, err
 		}
 		decryptedMember.ProfileKey, err = g.decryptProfileKey(member.GetProfileKey(), decryptedMember.Uuid)
-
+		if err != nil {
+			return nil, err
+		}
 	} else {
 		//TODO: check valid presentation
 		profileKeyCredentialPresentation, err := zkgroup.NewAuthCredentialPresentation(member.GetPresentation())
-- 
2.43.0


From d091338bc1a6a6871611e78c322dfb2b751b8894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:24 +0000
Subject: [PATCH 37/53] fix: never replace a group's state by an older one

A message for the group loaded the stored state over a newer one, and an older
answer of the service that came late overwrote a newer one.
---
 groups.go            |  8 +++++---
 groupsv2/decrypt.go  | 25 ++++++++++++++++++++++---
 groupsv2/groupsv2.go | 37 ++++++++++++++++++++++++-------------
 3 files changed, 51 insertions(+), 19 deletions(-)

diff --git a/groups.go b/groups.go
index 0d59993..06d5feb 100644
--- a/groups.go
+++ b/groups.go
@@ -224,15 +224,17 @@ func sendGroupV2Helper(hexid string, msg string, attachmentPointer *attachmentPo
 	if g.JoinStatus != groupsV2.GroupV2JoinsStatusMember {
 		return 0, fmt.Errorf("Sending messages to a invited group is not allowed.")
 	}
-	if len(g.DecryptedGroup.Members) == 0 {
+	// the group may be updated meanwhile
+	group := g.DecryptedGroup
+	if len(group.Members) == 0 {
 		return 0, fmt.Errorf("[textsecure] sendGroupV2Helper empty members list")
 	}
 	timestamp := uint64(time.Now().UnixNano() / 1000000)
 	groupsV2Context := &signalservice.GroupContextV2{
 		MasterKey: g.MasterKey,
-		Revision:  &g.DecryptedGroup.Revision,
+		Revision:  &group.Revision,
 	}
-	for _, m := range g.DecryptedGroup.Members {
+	for _, m := range group.Members {
 		omsg := &outgoingMessage{
 			destination: idToHexUUID(m.Uuid),
 			msg:         msg,
diff --git a/groupsv2/decrypt.go b/groupsv2/decrypt.go
index a46b09b..7801221 100644
--- a/groupsv2/decrypt.go
+++ b/groupsv2/decrypt.go
@@ -24,9 +24,28 @@ func (g *GroupV2) decryptGroupFromServer(group *signalservice.Group) error {
 	if err != nil {
 		return err
 	}
-	g.GroupContext = newGroup.GroupContext
-	g.DecryptedGroup = decryptedGroup
-	return g.CheckJoinStatus()
+	newGroup.DecryptedGroup = decryptedGroup
+	err = newGroup.CheckJoinStatus()
+	if err != nil {
+		return err
+	}
+	g.adoptState(newGroup)
+	return nil
+}
+
+// adoptState takes the state of the group over unless it is older.
+func (g *GroupV2) adoptState(group *GroupV2) {
+	if group == g || group.DecryptedGroup == nil {
+		return
+	}
+	groupsMutex.Lock()
+	defer groupsMutex.Unlock()
+	if g.DecryptedGroup != nil && g.DecryptedGroup.Revision > group.DecryptedGroup.Revision {
+		return
+	}
+	g.GroupContext = group.GroupContext
+	g.DecryptedGroup = group.DecryptedGroup
+	g.JoinStatus = group.JoinStatus
 }
 func (g *GroupV2) decryptGroup() (*signalservice.DecryptedGroup, error) {
 	log.Debugln("[textsecure][groupsv2] decrypt group")
diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index de3ab6c..d388ef0 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -40,7 +40,8 @@ var (
 	groupURLPrefix = "https://" + groupURLHost + "/#"
 	groupV2Dir     string
 	groupsV2       = map[string]*GroupV2{}
-	groupsMutex    sync.Mutex // guards groupsV2
+	groupsMutex    sync.Mutex // guards groupsV2 and the state of its groups
+	saveMutex      sync.Mutex // held while a group is saved
 )
 
 // GroupV2 holds group metadata.
@@ -122,10 +123,16 @@ func knownGroup(hexid string) *GroupV2 {
 	return groupsV2[hexid]
 }
 
-func rememberGroup(hexid string, group *GroupV2) {
+// rememberGroup returns the known group, which is the given one if there was
+// none.
+func rememberGroup(hexid string, group *GroupV2) *GroupV2 {
 	groupsMutex.Lock()
 	defer groupsMutex.Unlock()
+	if known := groupsV2[hexid]; known != nil {
+		return known
+	}
 	groupsV2[hexid] = group
+	return group
 }
 
 // GroupV2Message defines a group v2 message type
@@ -238,12 +245,9 @@ func (g *GroupV2) UpdateGroupFromServer() error {
 		log.Debugln("[textsecure][groupsv2] decryptGroupFromServer", err)
 		return err
 	}
-	if group != g {
-		g.GroupContext = group.GroupContext
-		g.DecryptedGroup = group.DecryptedGroup
-		g.JoinStatus = group.JoinStatus
-	}
-	rememberGroup(hexid, group)
+	known := rememberGroup(hexid, group)
+	known.adoptState(group)
+	g.adoptState(known)
 	err = saveGroupV2(hexid)
 	if err != nil {
 		return err
@@ -277,7 +281,11 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 	}
 	hexid := idToHex(groupContext.GetMasterKey())
 	// search for group
-	group, err := loadGroupV2(hexid)
+	var err error
+	group := knownGroup(hexid)
+	if group == nil {
+		group, err = loadGroupV2(hexid)
+	}
 	if errors.Is(err, os.ErrNotExist) {
 		// group not found, create group
 		log.Debugln("[textsecure][groupsv2] handle groupv2", err)
@@ -287,7 +295,7 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 			Revision:  groupContext.GetRevision(),
 		}
 		// TODO: get members from server
-		rememberGroup(hexid, group)
+		group = rememberGroup(hexid, group)
 		err = saveGroupV2(hexid)
 		if err != nil {
 			log.Error("[textsecure][groupsv2] handle groupv2 save", err)
@@ -396,7 +404,11 @@ func decryptUuidOrUnknown(uuidCipherTex []byte) *[]byte {
 
 // saveGroup stores a group's state in a file.
 func saveGroupV2(hexid string) error {
-	b, err := yaml.Marshal(knownGroup(hexid))
+	saveMutex.Lock()
+	defer saveMutex.Unlock()
+	groupsMutex.Lock()
+	b, err := yaml.Marshal(groupsV2[hexid])
+	groupsMutex.Unlock()
 	if err != nil {
 		return err
 	}
@@ -420,8 +432,7 @@ func loadGroupV2(hexid string) (*GroupV2, error) {
 	if idToHex(group.MasterKey) != hexid {
 		return nil, fmt.Errorf("invalid group file %s", path)
 	}
-	rememberGroup(hexid, group)
-	return group, nil
+	return rememberGroup(hexid, group), nil
 }
 
 // idToPath returns the path of the file for storing a group's state
-- 
2.43.0


From 42a4b401e1e485e482103287d9f0ab8390c5d211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:01 +0000
Subject: [PATCH 38/53] fix: do not replace a contacts file that could not be
 read

A contacts file that exists but could not be read was taken for a
missing one, and the next change replaced it by a nearly empty one.
---
 contacts/contacts.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/contacts/contacts.go b/contacts/contacts.go
index ae3bf8d..683e377 100644
--- a/contacts/contacts.go
+++ b/contacts/contacts.go
@@ -4,6 +4,7 @@
 package contacts
 
 import (
+	"errors"
 	"os"
 
 	"github.com/signal-golang/textsecure/helpers"
@@ -68,10 +69,11 @@ var filePath string
 func ReadContacts(fileName string) ([]Contact, error) {
 	log.Debug("[textsecure] read contacts from ", fileName)
 	b, err := os.ReadFile(fileName)
-	filePath = fileName
 	contactsYaml := &yamlContacts{}
-	if err != nil {
+	if os.IsNotExist(err) {
 		log.Debugln("[textsecure] ReadContacts: there is no contact file", err)
+	} else if err != nil {
+		return nil, err
 	} else {
 		// only read the contacts file if it exists
 		err = yaml.Unmarshal(b, contactsYaml)
@@ -79,6 +81,8 @@ func ReadContacts(fileName string) ([]Contact, error) {
 			return nil, err
 		}
 	}
+	// a file that could not be read must not be replaced
+	filePath = fileName
 	LoadContacts(contactsYaml)
 	return contactsYaml.Contacts, nil
 }
@@ -98,6 +102,9 @@ func WriteContacts(filename string, contacts []Contact) error {
 // WriteContactsToPath saves a list of contacts to a file at the standard location
 func WriteContactsToPath() error {
 	log.Debugln("[textsecure] write contacts to path ", filePath)
+	if filePath == "" {
+		return errors.New("the contacts have not been read")
+	}
 	c := contactsToYaml()
 	b, err := yaml.Marshal(c)
 	if err != nil {
-- 
2.43.0


From 7f8495b48e95f398e0ae4785731d719e06064925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:05 +0000
Subject: [PATCH 39/53] fix: guard the contacts against concurrent changes

The map was changed and iterated by several goroutines without a lock,
a list marshalled earlier could be written after a newer one, and
GetProfileUUID stored the contact as it was before the request. Failing
writes of a fetched profile are now reported.
---
 contacts/contacts.go | 58 +++++++++++++++++++++++++++++++++-----------
 groups.go            |  7 +-----
 profiles/profile.go  | 53 +++++++++++++++++++++-------------------
 3 files changed, 73 insertions(+), 45 deletions(-)

diff --git a/contacts/contacts.go b/contacts/contacts.go
index 683e377..afb52db 100644
--- a/contacts/contacts.go
+++ b/contacts/contacts.go
@@ -6,6 +6,7 @@ package contacts
 import (
 	"errors"
 	"os"
+	"sync"
 
 	"github.com/signal-golang/textsecure/helpers"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
@@ -47,12 +48,16 @@ type yamlContacts struct {
 }
 
 var (
-	contactsFile string
-	Contacts     = map[string]Contact{}
+	contactsFile  string
+	Contacts      = map[string]Contact{}
+	contactsMutex sync.Mutex // guards Contacts
+	saveMutex     sync.Mutex // held while the contacts are saved
 )
 
 // LoadContacts reads a YAML contacts file
 func LoadContacts(contactsYaml *yamlContacts) {
+	contactsMutex.Lock()
+	defer contactsMutex.Unlock()
 	for _, c := range contactsYaml.Contacts {
 		if c.UUID != "" && c.UUID != "0" && (c.UUID[0] != 0 || c.UUID[len(c.UUID)-1] != 0) {
 			Contacts[c.UUID] = c
@@ -105,6 +110,8 @@ func WriteContactsToPath() error {
 	if filePath == "" {
 		return errors.New("the contacts have not been read")
 	}
+	saveMutex.Lock()
+	defer saveMutex.Unlock()
 	c := contactsToYaml()
 	b, err := yaml.Marshal(c)
 	if err != nil {
@@ -113,6 +120,8 @@ func WriteContactsToPath() error {
 	return helpers.WriteFile(filePath, filePath+".tmp", b, 0600)
 }
 func contactsToYaml() *yamlContacts {
+	contactsMutex.Lock()
+	defer contactsMutex.Unlock()
 	c := &yamlContacts{}
 	for _, co := range Contacts {
 		c.Contacts = append(c.Contacts, co)
@@ -136,6 +145,7 @@ func updateContact(c *signalservice.ContactDetails) error {
 	// }
 	// avatar, _ := io.ReadAll(buf)
 
+	contactsMutex.Lock()
 	Contacts[c.GetUuid()] = Contact{
 		Tel:  c.GetNumber(),
 		UUID: c.GetUuid(),
@@ -150,6 +160,7 @@ func updateContact(c *signalservice.ContactDetails) error {
 		InboxPosition: c.GetInboxPosition(),
 		Archived:      c.GetArchived(),
 	}
+	contactsMutex.Unlock()
 	// log.Debugln("[textsecure] avatar", c.GetAvatar())
 	return WriteContactsToPath()
 }
@@ -169,21 +180,40 @@ func HandleContacts(src string, dm *signalservice.DataMessage) ([]*signalservice
 
 func UpdateProfileKey(src string, profileKey []byte) error {
 	log.Println("[textsecure] update profile key", src)
-	if contact, ok := Contacts[src]; ok {
-		contact.ProfileKey = profileKey
-		Contacts[src] = contact
-		return WriteContactsToPath()
-	}
-	// create new contact
-	Contacts[src] = Contact{
-		UUID:       src,
-		Name:       src,
-		ProfileKey: profileKey,
-	}
-	return WriteContactsToPath()
+	return UpdateContact(src, func(c *Contact) {
+		if c.UUID == "" && c.Tel == "" && c.Name == "" {
+			// create new contact
+			c.UUID = src
+			c.Name = src
+		}
+		c.ProfileKey = profileKey
+	})
+}
 
+// UpdateContact changes the contact, or a new one, and saves the contacts.
+func UpdateContact(key string, change func(c *Contact)) error {
+	contactsMutex.Lock()
+	contact := Contacts[key]
+	change(&contact)
+	Contacts[key] = contact
+	contactsMutex.Unlock()
+	return WriteContactsToPath()
 }
 
 func GetContact(uuid string) Contact {
+	contactsMutex.Lock()
+	defer contactsMutex.Unlock()
 	return Contacts[uuid]
 }
+
+// GetContactForTel returns the contact with the phone number, or nil.
+func GetContactForTel(tel string) *Contact {
+	contactsMutex.Lock()
+	defer contactsMutex.Unlock()
+	for _, c := range Contacts {
+		if c.Tel == tel {
+			return &c
+		}
+	}
+	return nil
+}
diff --git a/groups.go b/groups.go
index 06d5feb..b8e27dc 100644
--- a/groups.go
+++ b/groups.go
@@ -197,12 +197,7 @@ type groupMessage struct {
 }
 
 func GetContactForTel(tel string) *contacts.Contact {
-	for _, c := range contacts.Contacts {
-		if c.Tel == tel {
-			return &c
-		}
-	}
-	return nil
+	return contacts.GetContactForTel(tel)
 }
 func sendGroupV2Helper(hexid string, msg string, attachmentPointer *attachmentPointerV3, timer uint32) (uint64, error) {
 	var ts uint64
diff --git a/profiles/profile.go b/profiles/profile.go
index 523681e..b25c493 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -365,7 +365,6 @@ func GetProfileE164(tel string) (contacts.Contact, error) {
 	buf := new(bytes.Buffer)
 	buf.ReadFrom(avatar)
 
-	c := contacts.Contacts[profile.UUID]
 	avatarDecrypted, err := decryptAvatar(buf.Bytes(), []byte(profile.IdentityKey))
 	if err != nil {
 		log.Errorln("[textsecure] GetProfileE164 ", err)
@@ -374,19 +373,19 @@ func GetProfileE164(tel string) (contacts.Contact, error) {
 	if err != nil {
 		log.Errorln("[textsecure] GetProfileE164 saving avatar failed ", err)
 	}
-	c.Name = profile.Name
-	c.UUID = profile.UUID
-	c.HasAvatar = true
-	c.AvatarImg = avatarDecrypted
-	contacts.Contacts[c.UUID] = c
-	contacts.WriteContactsToPath()
-	return c, nil
+	err = contacts.UpdateContact(profile.UUID, func(c *contacts.Contact) {
+		c.Name = profile.Name
+		c.UUID = profile.UUID
+		c.HasAvatar = true
+		c.AvatarImg = avatarDecrypted
+	})
+	return contacts.GetContact(profile.UUID), err
 }
 
 // GetProfileUUID get a profile by a phone number
 func GetProfileUUID(uuid string) (*Profile, error) {
 	log.Debugln("[textsecure] GetProfileUUID", uuid)
-	c := contacts.Contacts[uuid]
+	c := contacts.GetContact(uuid)
 	profile := &Profile{}
 	var err error
 	if len(c.ProfileKey) > 0 {
@@ -450,22 +449,26 @@ func GetProfileUUID(uuid string) (*Profile, error) {
 	// 	return nil, err
 	// }
 
-	c.Username = profile.Name
-	if c.Name == "" {
-		c.Name = profile.Name
-	}
-	c.UUID = profile.UUID
-	if profile.Avatar != "" {
-		c.HasAvatar = true
-		c.AvatarImg = avatarDecrypted
-	}
-	if profile.About != "" {
-		c.About = profile.About
-	}
-	if profile.AboutEmoji != "" {
-		c.AboutEmoji = profile.AboutEmoji
+	// the contact may have changed meanwhile
+	err = contacts.UpdateContact(profile.UUID, func(c *contacts.Contact) {
+		c.Username = profile.Name
+		if c.Name == "" {
+			c.Name = profile.Name
+		}
+		c.UUID = profile.UUID
+		if profile.Avatar != "" {
+			c.HasAvatar = true
+			c.AvatarImg = avatarDecrypted
+		}
+		if profile.About != "" {
+			c.About = profile.About
+		}
+		if profile.AboutEmoji != "" {
+			c.AboutEmoji = profile.AboutEmoji
+		}
+	})
+	if err != nil {
+		return nil, err
 	}
-	contacts.Contacts[c.UUID] = c
-	contacts.WriteContactsToPath()
 	return profile, nil
 }
-- 
2.43.0


From 382882a5fb756a3b70968903c3b4ba06e0c7da78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 40/53] fix: guard the groups against concurrent changes and
 report failing writes

The map was used by several goroutines without a lock, UpdateGroup did
not report that the group could not be stored, and LeaveGroup not that
its file could not be removed durably.
---
 groups.go | 60 ++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/groups.go b/groups.go
index b8e27dc..0133bfa 100644
--- a/groups.go
+++ b/groups.go
@@ -11,6 +11,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"sync"
 	"time"
 
 	log "github.com/sirupsen/logrus"
@@ -35,10 +36,24 @@ type Group struct {
 }
 
 var (
-	groupDir string
-	groups   = map[string]*Group{}
+	groupDir    string
+	groups      = map[string]*Group{}
+	groupsMutex sync.Mutex // guards groups
 )
 
+func knownGroup(hexid string) (*Group, bool) {
+	groupsMutex.Lock()
+	defer groupsMutex.Unlock()
+	g, ok := groups[hexid]
+	return g, ok
+}
+
+func rememberGroup(hexid string, g *Group) {
+	groupsMutex.Lock()
+	defer groupsMutex.Unlock()
+	groups[hexid] = g
+}
+
 // idToHex returns the hex representation of the group id byte-slice
 // to be used as both keys in the map and for naming the files.
 func idToHex(id []byte) string {
@@ -56,7 +71,8 @@ func idToPath(hexid string) string {
 // saveGroup stores a group's state in a file.
 func saveGroup(hexid string) error {
 	log.Debugln("[textsecure] save groupv1 ", hexid)
-	b, err := yaml.Marshal(groups[hexid])
+	g, _ := knownGroup(hexid)
+	b, err := yaml.Marshal(g)
 	if err != nil {
 		return err
 	}
@@ -76,7 +92,7 @@ func loadGroup(path string) error {
 	if err != nil {
 		return err
 	}
-	groups[hexid] = group
+	rememberGroup(hexid, group)
 	return nil
 }
 
@@ -139,13 +155,13 @@ func updateGroup(gr *signalservice.GroupContext) error {
 		buf.ReadFrom(r)
 	}
 
-	groups[hexid] = &Group{
+	rememberGroup(hexid, &Group{
 		ID:      gr.GetId(),
 		Hexid:   hexid,
 		Name:    gr.GetName(),
 		Members: gr.GetMembersE164(),
 		Avatar:  buf.Bytes(),
-	}
+	})
 	return saveGroup(hexid)
 }
 
@@ -160,7 +176,7 @@ func (err UnknownGroupIDError) Error() string {
 
 // quitGroup removes a quitting member from the local group state.
 func quitGroup(src string, hexid string) error {
-	gr, ok := groups[hexid]
+	gr, ok := knownGroup(hexid)
 	if !ok {
 		return UnknownGroupIDError{hexid}
 	}
@@ -251,7 +267,7 @@ func sendGroupV2Helper(hexid string, msg string, attachmentPointer *attachmentPo
 func sendGroupHelper(hexid string, msg string, attachmentPointer *attachmentPointerV3, timer uint32) (uint64, error) {
 	var ts uint64
 	var err error
-	g, ok := groups[hexid]
+	g, ok := knownGroup(hexid)
 	if !ok {
 		log.Infoln("[textsecure] sendGroupHelper unknown group id")
 		ts, err = sendGroupV2Helper(hexid, msg, attachmentPointer, timer)
@@ -334,29 +350,33 @@ func newGroupID() []byte {
 
 func newPartlyGroup(id []byte) (*Group, error) {
 	hexid := idToHex(id)
-	groups[hexid] = &Group{
+	group := &Group{
 		ID:      id,
 		Hexid:   hexid,
 		Name:    "",
 		Members: nil,
 		Avatar:  nil,
 	}
+	rememberGroup(hexid, group)
 	err := saveGroup(hexid)
 	if err != nil {
 		return nil, err
 	}
-	return groups[hexid], nil
+	return group, nil
 }
 
 func changeGroup(hexid, name string, members []string) (*Group, error) {
-	g, ok := groups[hexid]
+	g, ok := knownGroup(hexid)
 	if !ok {
 		return nil, UnknownGroupIDError{hexid}
 	}
 
 	g.Name = name
 	g.Members = append(members, config.ConfigFile.Tel)
-	saveGroup(hexid)
+	err := saveGroup(hexid)
+	if err != nil {
+		return nil, err
+	}
 
 	return g, nil
 }
@@ -385,17 +405,18 @@ func newGroup(name string, members []string) (*Group, error) {
 	id := newGroupID()
 	hexid := idToHex(id)
 	log.Debugln("[textsecure] create new group v1 ", hexid)
-	groups[hexid] = &Group{
+	group := &Group{
 		ID:      id,
 		Hexid:   hexid,
 		Name:    name,
 		Members: append(members, config.ConfigFile.Tel),
 	}
+	rememberGroup(hexid, group)
 	err := saveGroup(hexid)
 	if err != nil {
 		return nil, err
 	}
-	return groups[hexid], nil
+	return group, nil
 }
 
 // RequestGroupInfo updates the info for the group like members or the avatat
@@ -454,8 +475,8 @@ func UpdateGroup(hexid, name string, members []string) (*Group, error) {
 
 func removeGroup(id []byte) error {
 	hexid := idToHex(id)
-	err := os.Remove(idToPath(hexid))
-	if err != nil {
+	err := helpers.RemoveFile(idToPath(hexid))
+	if err != nil && !os.IsNotExist(err) {
 		return err
 	}
 	return nil
@@ -463,7 +484,7 @@ func removeGroup(id []byte) error {
 
 // GetGroupById returns a group by it's id
 func GetGroupById(hexID string) (*Group, error) {
-	g, ok := groups[hexID]
+	g, ok := knownGroup(hexID)
 	if !ok {
 		return nil, UnknownGroupIDError{hexID}
 	}
@@ -472,7 +493,7 @@ func GetGroupById(hexID string) (*Group, error) {
 
 // LeaveGroup sends a group quit message to the other members of the given group.
 func LeaveGroup(hexid string) error {
-	g, ok := groups[hexid]
+	g, ok := knownGroup(hexid)
 	if !ok {
 		return UnknownGroupIDError{hexid}
 	}
@@ -492,8 +513,7 @@ func LeaveGroup(hexid string) error {
 			}
 		}
 	}
-	removeGroup(g.ID)
-	return nil
+	return removeGroup(g.ID)
 }
 
 func JoinGroup(hexID string) (*groupsv2.GroupV2, error) {
-- 
2.43.0


From 5444a82f87e38046bc70515324096a64284fd547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:13 +0000
Subject: [PATCH 41/53] fix: report that the account capabilities could not be
 stored

---
 server.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/server.go b/server.go
index b3779f6..82178a1 100644
--- a/server.go
+++ b/server.go
@@ -357,8 +357,7 @@ func setAccountAttributes(attributes *UpdateAccountAttributes) error {
 		return err
 	}
 	config.ConfigFile.AccountCapabilities = attributes.Capabilities
-	saveConfig(config.ConfigFile)
-	return nil
+	return saveConfig(config.ConfigFile)
 }
 
 type whoAmIResponse struct {
-- 
2.43.0


From a9f5c0dcfe2c6c14eb45f7824582c26fd788babc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:17 +0000
Subject: [PATCH 42/53] fix: never replace the settings by older ones

The settings were marshalled without a lock and could be written after
newer ones.
---
 config.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/config.go b/config.go
index dd565c5..4f0be14 100644
--- a/config.go
+++ b/config.go
@@ -5,6 +5,7 @@ package textsecure
 
 import (
 	"os"
+	"sync"
 
 	"github.com/go-yaml/yaml"
 	"github.com/signal-golang/textsecure/config"
@@ -60,7 +61,13 @@ func WriteConfig(filename string, cfg *config.Config) error {
 	return helpers.WriteFile(filename, filename+".tmp", b, 0600)
 }
 
+// configMutex is held while the config is saved, so that an older state
+// never replaces a newer one.
+var configMutex sync.Mutex
+
 func saveConfig(cfg *config.Config) error {
+	configMutex.Lock()
+	defer configMutex.Unlock()
 
 	log.Debugln("[textsecure] saving config", cfg.Tel)
 	err := WriteConfig(configFile, cfg)
-- 
2.43.0


From cb3cbafb2b5e244ed847ca65b6a323783a08462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:21 +0000
Subject: [PATCH 43/53] fix: report malformed attestations and discovery
 answers

Missing attestations, keys or answers and nonces of a wrong length made
the client panic.
---
 contactDiscoveryCrypto/contactDiscoveryCrypto.go | 3 +++
 contactsDiscovery/remoteAttestationUtil.go       | 9 +++++++++
 crypto/aesgcm.go                                 | 6 +++++-
 server.go                                        | 2 +-
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/contactDiscoveryCrypto/contactDiscoveryCrypto.go b/contactDiscoveryCrypto/contactDiscoveryCrypto.go
index d8136f6..9fbb28e 100644
--- a/contactDiscoveryCrypto/contactDiscoveryCrypto.go
+++ b/contactDiscoveryCrypto/contactDiscoveryCrypto.go
@@ -195,6 +195,9 @@ func aesDecrypt(key, nonce, data, mac, aad []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(nonce) != aesgcm.NonceSize() {
+		return nil, errors.New("wrong nonce length")
+	}
 	ciphertext := append(data, mac...)
 	return aesgcm.Open(nil, nonce, ciphertext, aad)
 }
diff --git a/contactsDiscovery/remoteAttestationUtil.go b/contactsDiscovery/remoteAttestationUtil.go
index 41a0309..97cdf73 100644
--- a/contactsDiscovery/remoteAttestationUtil.go
+++ b/contactsDiscovery/remoteAttestationUtil.go
@@ -80,6 +80,9 @@ func (r *RemoteAttestation) GetAndVerifyMultiRemoteAttestation(
 		return nil, err
 	}
 
+	if resp.IsError() {
+		return nil, resp
+	}
 	multiRemoteAttestationResponse := &MultiRemoteAttestationResponse{}
 	dec := json.NewDecoder(resp.Body)
 	// log.Debugln("[textsecure] GetAndVerifyMultiRemoteAttestation resp", resp)
@@ -87,6 +90,9 @@ func (r *RemoteAttestation) GetAndVerifyMultiRemoteAttestation(
 	if err != nil {
 		return nil, err
 	}
+	if multiRemoteAttestationResponse == nil {
+		return nil, fmt.Errorf("no attestations")
+	}
 	if len(multiRemoteAttestationResponse.Attestations) < 1 || len(multiRemoteAttestationResponse.Attestations) > 3 {
 		return nil, fmt.Errorf("Incorrect number of attestations: " + fmt.Sprint(len(multiRemoteAttestationResponse.Attestations)))
 	}
@@ -119,6 +125,9 @@ func validateAndBuildRemoteAttestation(
 	keyPair *axolotl.ECKeyPair,
 	enclaveName string,
 ) (*RemoteAttestation, error) {
+	if remoteAttestation == nil || len(remoteAttestation.ServerEphemeralPublic) != 32 || len(remoteAttestation.ServerStaticPublic) != 32 {
+		return nil, fmt.Errorf("attestation without keys")
+	}
 	keys, err := remoteAttestationKeys(keyPair, remoteAttestation.ServerEphemeralPublic, remoteAttestation.ServerStaticPublic)
 	log.Debugln("[textsecure] validateAndBuildRemoteAttestation ")
 	if err != nil {
diff --git a/crypto/aesgcm.go b/crypto/aesgcm.go
index 5891af8..d418812 100644
--- a/crypto/aesgcm.go
+++ b/crypto/aesgcm.go
@@ -3,6 +3,7 @@ package crypto
 import (
 	"crypto/aes"
 	"crypto/cipher"
+	"fmt"
 )
 
 const TAG_LENGTH_BYTES = 16
@@ -18,6 +19,9 @@ func AesgcmDecrypt(key, nonce, data, mac []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(nonce) != aesgcm.NonceSize() {
+		return nil, fmt.Errorf("nonce of %d bytes", len(nonce))
+	}
 	ciphertext := append(data, mac...)
 
 	return aesgcm.Open(nil, nonce, ciphertext, nil)
@@ -25,7 +29,7 @@ func AesgcmDecrypt(key, nonce, data, mac []byte) ([]byte, error) {
 
 //indirect tested by profile_cipher_test.go
 
-//AesgcmEncrypt ...
+// AesgcmEncrypt ...
 func AesgcmEncrypt(key, nonce, input []byte) ([]byte, error) {
 	block, err := aes.NewCipher(key)
 	if err != nil {
diff --git a/server.go b/server.go
index 82178a1..1bd20b8 100644
--- a/server.go
+++ b/server.go
@@ -606,7 +606,7 @@ func getContactDiscoveryRegisteredUsers(authorization string, request *contactDi
 	discoveryResponse := &contactDiscoveryCrypto.DiscoveryResponse{}
 	dec := json.NewDecoder(resp.Body)
 	log.Debugln("[textsecure] GetAndVerifyMultiRemoteAttestation resp")
-	err = dec.Decode(&discoveryResponse)
+	err = dec.Decode(discoveryResponse)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From cad9a6de105c0d791a6479a57ca15c04a6b6ee96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 44/53] fix: report that the directory credentials could not be
 fetched

---
 transport/credentials.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/transport/credentials.go b/transport/credentials.go
index 8e9cad3..7c29eca 100644
--- a/transport/credentials.go
+++ b/transport/credentials.go
@@ -33,9 +33,15 @@ func GetCredendtails(path string) (*AuthCredentials, error) {
 	if err != nil {
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 	dec := json.NewDecoder(resp.Body)
 	var a AuthCredentials
-	dec.Decode(&a)
+	err = dec.Decode(&a)
+	if err != nil {
+		return nil, err
+	}
 	log.Debugln("[textsecure] getCredentials ")
 	return &a, nil
 
-- 
2.43.0


From 7bd1898431090210ecda117942c8e7cc2b371f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:29 +0000
Subject: [PATCH 45/53] fix: replace the contacts only after a complete
 discovery

A short answer made the client panic after it had dropped the contacts,
a number that cannot be asked for failed the whole discovery, further
contacts with the same number were not marked, and a contacts file that
could not be written was not reported.
---
 contacts/contacts.go | 15 +++++++++++++++
 server.go            | 42 +++++++++++++++++++++++-------------------
 2 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/contacts/contacts.go b/contacts/contacts.go
index afb52db..0d9757b 100644
--- a/contacts/contacts.go
+++ b/contacts/contacts.go
@@ -129,6 +129,21 @@ func contactsToYaml() *yamlContacts {
 	return c
 }
 
+// ReplaceContacts makes the given contacts the known ones and saves them.
+func ReplaceContacts(known map[string]Contact) error {
+	contactsMutex.Lock()
+	old := Contacts
+	Contacts = known
+	contactsMutex.Unlock()
+	err := WriteContactsToPath()
+	if err != nil {
+		contactsMutex.Lock()
+		Contacts = old
+		contactsMutex.Unlock()
+	}
+	return err
+}
+
 func updateContact(c *signalservice.ContactDetails) error {
 	log.Debugln("[textsecure] updateContact ", c.GetUuid())
 
diff --git a/server.go b/server.go
index 1bd20b8..bf4d6ab 100644
--- a/server.go
+++ b/server.go
@@ -620,14 +620,6 @@ func idToHexUUID(id []byte) string {
 	lsbHex := hex.EncodeToString(lsb)
 	return msbHex[:8] + "-" + msbHex[8:12] + "-" + msbHex[12:] + "-" + lsbHex[:4] + "-" + lsbHex[4:]
 }
-func findIndexByE147(phone string, contacts []contacts.Contact) int {
-	for i, c := range contacts {
-		if c.Tel == phone {
-			return i
-		}
-	}
-	return -1
-}
 
 // GetRegisteredContacts returns the subset of the local contacts
 // that are also registered with the server
@@ -647,7 +639,8 @@ func GetRegisteredContacts() ([]contacts.Contact, error) {
 	for _, c := range localContacts {
 		t := c.Tel
 		// check if the contact is a valid phone number and if it is not a duplicate
-		if t != "" && re.MatchString(t) && tokensMap[t] == nil {
+		_, err := strconv.ParseInt(t, 10, 64)
+		if t != "" && err == nil && re.MatchString(t) && tokensMap[t] == nil {
 			tokens = append(tokens, t)
 			tokensMap[t] = &t
 		} else {
@@ -685,13 +678,20 @@ func GetRegisteredContacts() ([]contacts.Contact, error) {
 		return nil, fmt.Errorf("could not get get ContactDiscovery data %v", err)
 	}
 	uuidlength := 16
-	ind := 0
-
-	contacts.Contacts = map[string]contacts.Contact{}
-	for _, phone := range tokens {
+	if len(responseData) != len(tokens)*uuidlength {
+		return nil, fmt.Errorf("got %d bytes for %d contacts", len(responseData), len(tokens))
+	}
+	uuids := map[string]string{}
+	for ind, phone := range tokens {
+		uuids[phone] = idToHexUUID(responseData[ind*uuidlength : (ind+1)*uuidlength])
+	}
 
-		UUID := idToHexUUID(responseData[ind*uuidlength : (ind+1)*uuidlength])
-		index := findIndexByE147(phone, localContacts)
+	known := map[string]contacts.Contact{}
+	for index := range localContacts {
+		UUID, ok := uuids[localContacts[index].Tel]
+		if !ok {
+			continue
+		}
 		if strings.Count(localContacts[index].Name, "=") > 2 {
 			decodedName, err := io.ReadAll(quotedprintable.NewReader(strings.NewReader(localContacts[index].Name)))
 			if err != nil {
@@ -705,17 +705,21 @@ func GetRegisteredContacts() ([]contacts.Contact, error) {
 			// add registered contact by UUID
 			localContacts[index].Registered = true
 			// add registered contact by UUID
-			contacts.Contacts[localContacts[index].UUID] = localContacts[index]
+			if _, ok := known[UUID]; !ok {
+				known[UUID] = localContacts[index]
+			}
 		} else {
 			localContacts[index].Registered = false
 			// add unregistered contacts by phone number
-			contacts.Contacts[localContacts[index].Tel] = localContacts[index]
+			if _, ok := known[localContacts[index].Tel]; !ok {
+				known[localContacts[index].Tel] = localContacts[index]
+			}
 		}
-		ind++
 	}
-	err = contacts.WriteContactsToPath()
+	err = contacts.ReplaceContacts(known)
 	if err != nil {
 		log.Debugln("[textsecure] writing contacts failed", err)
+		return nil, err
 	}
 	log.Debug("[textsecure] GetRegisteredContacts synchronizing contacts finished")
 	return localContacts, nil
-- 
2.43.0


From 40be86940c41436a78d8aae1e81148d09a80d46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:32 +0000
Subject: [PATCH 46/53] fix: keep unregistered contacts apart when the contacts
 are loaded

They were all loaded under the zero account id, so all but one were lost.
---
 contacts/contacts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contacts/contacts.go b/contacts/contacts.go
index 0d9757b..aaf7b23 100644
--- a/contacts/contacts.go
+++ b/contacts/contacts.go
@@ -59,7 +59,7 @@ func LoadContacts(contactsYaml *yamlContacts) {
 	contactsMutex.Lock()
 	defer contactsMutex.Unlock()
 	for _, c := range contactsYaml.Contacts {
-		if c.UUID != "" && c.UUID != "0" && (c.UUID[0] != 0 || c.UUID[len(c.UUID)-1] != 0) {
+		if c.UUID != "" && c.UUID != "0" && c.UUID != "00000000-0000-0000-0000-000000000000" && (c.UUID[0] != 0 || c.UUID[len(c.UUID)-1] != 0) {
 			Contacts[c.UUID] = c
 
 		} else {
-- 
2.43.0


From b300b0ad57a31dcaa49a679b41636ff53975adc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:49 +0000
Subject: [PATCH 47/53] fix: refuse linking keys with a shared secret everybody
 knows

With a low-order public key the shared secret of the provisioning message is
all zeros, and the account's identity key was sent where anybody could read it.
---
 crypto.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crypto.go b/crypto.go
index a31b89e..caee243 100644
--- a/crypto.go
+++ b/crypto.go
@@ -135,9 +135,12 @@ func provisioningCipher(pm *signalservice.ProvisionMessage, theirPublicKey *axol
 	ourKeyPair := axolotl.GenerateIdentityKeyPair()
 
 	version := []byte{0x01}
-	var sharedKey [32]byte
-	curve25519.ScalarMult(&sharedKey, ourKeyPair.PrivateKey.Key(), theirPublicKey.Key())
-	derivedSecret, err := axolotl.DeriveSecrets(sharedKey[:], nil, []byte("TextSecure Provisioning Message"), 64)
+	// X25519 refuses keys that lead to a shared secret everybody knows.
+	sharedKey, err := curve25519.X25519(ourKeyPair.PrivateKey.Key()[:], theirPublicKey.Key()[:])
+	if err != nil {
+		return nil, err
+	}
+	derivedSecret, err := axolotl.DeriveSecrets(sharedKey, nil, []byte("TextSecure Provisioning Message"), 64)
 
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 064851f36d81c6e985444771b7aa0cda4eb28ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:52 +0000
Subject: [PATCH 48/53] fix: fetch a fresh verification code for every link
 attempt

The code was kept for later attempts until ten seconds after a success: for
ever when the attempt failed, so that later ones sent a dead code.
---
 link.go | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/link.go b/link.go
index c39b679..6535510 100644
--- a/link.go
+++ b/link.go
@@ -3,33 +3,22 @@
 package textsecure
 
 import (
-	"time"
-
 	log "github.com/sirupsen/logrus"
 )
 
-var code2 string
-
 // AddNewLinkedDevice adds a new signal desktop client
 func AddNewLinkedDevice(uuid string, publicKey string) error {
 	log.Printf("AddNewLinkedDevice")
-	if code2 == "" {
-		code, err := getNewDeviceVerificationCode()
-		if err != nil {
-			return err
-		}
-		code2 = code
+	// A verification code links one device only and expires.
+	code, err := getNewDeviceVerificationCode()
+	if err != nil {
+		return err
 	}
 
-	err := addNewDevice(uuid, publicKey, code2)
+	err = addNewDevice(uuid, publicKey, code)
 	if err != nil {
 		log.Errorf(err.Error())
 		return err
 	}
-	timer := time.NewTimer(10 * time.Second)
-	go func() {
-		<-timer.C
-		code2 = ""
-	}()
 	return nil
 }
-- 
2.43.0


From 9a9ea37c1f7a96dbb886bf8571546601443b13e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:56 +0000
Subject: [PATCH 49/53] fix: report that no verification code could be fetched

An error of the service or an answer without a code counted as an empty code.
---
 server.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index bf4d6ab..da8ff82 100644
--- a/server.go
+++ b/server.go
@@ -426,11 +426,19 @@ func getNewDeviceVerificationCode() (string, error) {
 	if err != nil {
 		return "", err
 	}
+	if resp.IsError() {
+		return "", resp
+	}
 	dec := json.NewDecoder(resp.Body)
 	var c jsonDeviceCode
-	dec.Decode(&c)
+	err = dec.Decode(&c)
+	if err != nil {
+		return "", err
+	}
+	if c.VerificationCode == "" {
+		return "", errors.New("the server sent no verification code")
+	}
 	return c.VerificationCode, nil
-
 }
 
 type DeviceInfo struct {
-- 
2.43.0


From b13d044af808c55ddaae9177d437c08841ca89fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:00 +0000
Subject: [PATCH 50/53] fix: report failures to list and to unlink devices

---
 server.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/server.go b/server.go
index da8ff82..b3abb97 100644
--- a/server.go
+++ b/server.go
@@ -459,21 +459,30 @@ func getLinkedDevices() ([]DeviceInfo, error) {
 	if err != nil {
 		return devices.DeviceList, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 
 	dec := json.NewDecoder(resp.Body)
-	err = dec.Decode(&devices)
+	err = dec.Decode(devices)
 	if err != nil {
-		return devices.DeviceList, nil
+		return nil, err
+	}
+	if devices.DeviceList == nil {
+		return nil, errors.New("the server sent no list of devices")
 	}
 
 	return devices.DeviceList, nil
 }
 
 func unlinkDevice(id int) error {
-	_, err := transport.Transport.Del(fmt.Sprintf(devicePath, strconv.Itoa(id)))
+	resp, err := transport.Transport.Del(fmt.Sprintf(devicePath, strconv.Itoa(id)))
 	if err != nil {
 		return err
 	}
+	if resp.IsError() {
+		return resp
+	}
 	return nil
 }
 
-- 
2.43.0


From 8f6f54f9b9a9cc24924f36bb61b508575b2d12c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:08 +0000
Subject: [PATCH 51/53] fix: check an avatar's download status and length

GetRemoteAvatar returned the body of an error answer as the avatar, and
decryptAvatar panicked on data shorter than its nonce or key.
---
 profiles/avatars.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/profiles/avatars.go b/profiles/avatars.go
index 448a5ea..f72abd3 100644
--- a/profiles/avatars.go
+++ b/profiles/avatars.go
@@ -34,6 +34,10 @@ func GetRemoteAvatar(avatarURL string) (io.ReadCloser, error) {
 
 		return nil, err
 	}
+	if resp.IsError() {
+		resp.Body.Close()
+		return nil, resp
+	}
 
 	return resp.Body, nil
 }
@@ -118,6 +122,12 @@ func setupAvatarsPath() error {
 }
 
 func decryptAvatar(avatar []byte, identityKey []byte) ([]byte, error) {
+	if len(avatar) < NONCE_LEN {
+		return nil, fmt.Errorf("avatar too short: %d bytes", len(avatar))
+	}
+	if len(identityKey) < 32 {
+		return nil, fmt.Errorf("avatar key too short: %d bytes", len(identityKey))
+	}
 	nonce := avatar[:NONCE_LEN]
 	encrypted_avatar := avatar[NONCE_LEN:]
 	decryptedAvatar, err := decrypt(identityKey[:32], encrypted_avatar, nonce)
-- 
2.43.0


From b547bc293c1a647fb8ddd7ba5018f2b143829a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:12 +0000
Subject: [PATCH 52/53] fix: report failures to fetch a profile

The profile calls decoded error answers as profiles: with a JSON error
body they succeeded with an empty profile, and GetProfileUUID and
GetProfileE164 then stored a contact without uuid. GetProfileE164 also
went on after a failed request (nil dereference).
---
 profiles/profile.go | 97 +++++++++++++++++++++++++--------------------
 1 file changed, 54 insertions(+), 43 deletions(-)

diff --git a/profiles/profile.go b/profiles/profile.go
index b25c493..2a5beb1 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -1,7 +1,6 @@
 package profiles
 
 import (
-	"bytes"
 	"crypto/rand"
 	"encoding/base64"
 	"encoding/hex"
@@ -170,6 +169,9 @@ func GetProfile(UUID string, profileKey []byte) (*Profile, error) {
 	if err != nil {
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 	profile := &Profile{}
 	bytes, err := io.ReadAll(resp.Body)
 	if err != nil {
@@ -190,6 +192,9 @@ func GetProfile(UUID string, profileKey []byte) (*Profile, error) {
 		if err != nil {
 			return profile, err
 		}
+		if resp.IsError() {
+			return profile, resp
+		}
 		bytes, err := io.ReadAll(resp.Body)
 		if err != nil {
 			return nil, err
@@ -241,6 +246,9 @@ func GetProfileAndCredential(UUID string, profileKey []byte) (*Profile, error) {
 		log.Debugln("[textsecure] GetProfileAndCredential", err)
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 	profile := &Profile{}
 	bytes, err := io.ReadAll(resp.Body)
 	if err != nil {
@@ -345,39 +353,60 @@ func createProfileCredentialRequest(uuid, profileKey []byte) (zkgroup.ProfileKey
 	return requestContext.ProfileKeyCredentialRequestContextGetRequest()
 }
 
+// fetchAvatar gets an avatar from the CDN and decrypts it.
+func fetchAvatar(avatarURL string, key []byte) ([]byte, error) {
+	avatar, err := GetRemoteAvatar(avatarURL)
+	if err != nil {
+		return nil, err
+	}
+	defer avatar.Close()
+	encrypted, err := io.ReadAll(avatar)
+	if err != nil {
+		return nil, err
+	}
+	return decryptAvatar(encrypted, key)
+}
+
 // GetProfileE164 get a profile by a phone number
 func GetProfileE164(tel string) (contacts.Contact, error) {
 
 	resp, err := transport.Transport.Get(fmt.Sprintf(PROFILE_PATH, tel))
 	if err != nil {
 		log.Errorln("[textsecure] GetProfileE164 ", err)
+		return contacts.Contact{}, err
+	}
+	if resp.IsError() {
+		return contacts.Contact{}, resp
 	}
 
 	profile := &Profile{}
 	dec := json.NewDecoder(resp.Body)
-	err = dec.Decode(&profile)
+	err = dec.Decode(profile)
 
 	if err != nil {
 		log.Errorln("[textsecure] GetProfileE164 ", err)
+		return contacts.Contact{}, err
 	}
-
-	avatar, _ := GetRemoteAvatar(profile.Avatar)
-	buf := new(bytes.Buffer)
-	buf.ReadFrom(avatar)
-
-	avatarDecrypted, err := decryptAvatar(buf.Bytes(), []byte(profile.IdentityKey))
-	if err != nil {
-		log.Errorln("[textsecure] GetProfileE164 ", err)
+	if profile.UUID == "" {
+		return contacts.Contact{}, errors.New("profile without uuid")
 	}
-	err = saveLocalAvatar(profile.UUID, avatarDecrypted)
-	if err != nil {
-		log.Errorln("[textsecure] GetProfileE164 saving avatar failed ", err)
+
+	var avatarDecrypted []byte
+	if profile.Avatar != "" {
+		avatarDecrypted, err = fetchAvatar(profile.Avatar, []byte(profile.IdentityKey))
+		if err != nil {
+			log.Errorln("[textsecure] GetProfileE164 avatar", err)
+		} else if err = saveLocalAvatar(profile.UUID, avatarDecrypted); err != nil {
+			log.Errorln("[textsecure] GetProfileE164 saving avatar failed ", err)
+		}
 	}
 	err = contacts.UpdateContact(profile.UUID, func(c *contacts.Contact) {
 		c.Name = profile.Name
 		c.UUID = profile.UUID
-		c.HasAvatar = true
-		c.AvatarImg = avatarDecrypted
+		if len(avatarDecrypted) > 0 {
+			c.HasAvatar = true
+			c.AvatarImg = avatarDecrypted
+		}
 	})
 	return contacts.GetContact(profile.UUID), err
 }
@@ -399,48 +428,30 @@ func GetProfileUUID(uuid string) (*Profile, error) {
 			log.Errorln("[textsecure] GetProfileUuid fetch profile:", err)
 			return nil, err
 		}
+		if resp.IsError() {
+			return nil, resp
+		}
 
 		dec := json.NewDecoder(resp.Body)
-		err = dec.Decode(&profile)
+		err = dec.Decode(profile)
 		if err != nil {
 			log.Errorln("[textsecure] GetProfileUuid decode", err)
 			return nil, err
 		}
 	}
+	if profile.UUID == "" {
+		return nil, errors.New("profile without uuid")
+	}
 	var avatarDecrypted []byte
 
 	if profile.Avatar != "" {
-		avatar, err := GetRemoteAvatar("/" + profile.Avatar)
+		avatarDecrypted, err = fetchAvatar("/"+profile.Avatar, c.ProfileKey)
 		if err != nil {
 			log.Errorln("[textsecure] GetProfileUuid getting Avatar failed: ", err)
 			profile.Avatar = ""
-		} else {
-			buf := new(bytes.Buffer)
-			buf.ReadFrom(avatar)
-			key := c.ProfileKey
-			if len(key) == 0 {
-				log.Errorln("[textsecure] GetProfileUuid decrypting avatar failed: profile key doesn't exists")
-				profile.Avatar = ""
-			} else {
-				avatar := buf.Bytes()
-				if len(avatar) > 0 {
-					avatarDecrypted, err = decryptAvatar(buf.Bytes(), key)
-					if err != nil {
-						log.Errorln("[textsecure] GetProfileUuid Avatar decryption failed", err)
-						profile.Avatar = ""
-
-					}
-					err = saveLocalAvatar(profile.UUID, avatarDecrypted)
-					if err != nil {
-						log.Errorln("[textsecure] GetProfileE164 saving avatar failed ", err)
-					}
-				} else {
-					log.Errorln("[textsecure] GetProfileUuid decrypting avatar failed: avatar is empty")
-
-				}
-			}
+		} else if err = saveLocalAvatar(profile.UUID, avatarDecrypted); err != nil {
+			log.Errorln("[textsecure] GetProfileUuid saving avatar failed ", err)
 		}
-
 	}
 
 	// err = decryptProfile(c.ProfileKey, profile)
-- 
2.43.0


From 8bac45337b722968d2f323d2e0ee1e8e606f1dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:15 +0000
Subject: [PATCH 53/53] fix: report an answer without uuid

GetMyUUID ignored errors when decoding the answer and returned an empty
uuid as success.
---
 server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index b3abb97..1a513d5 100644
--- a/server.go
+++ b/server.go
@@ -413,7 +413,12 @@ func GetMyUUID() (string, error) {
 	}
 	dec := json.NewDecoder(resp.Body)
 	var response whoAmIResponse
-	dec.Decode(&response)
+	if err := dec.Decode(&response); err != nil {
+		return "", err
+	}
+	if response.UUID == "" {
+		return "", errors.New("the server's answer lacks the uuid")
+	}
 	return response.UUID, nil
 }
 
-- 
2.43.0

