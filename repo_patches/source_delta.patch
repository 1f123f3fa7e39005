From 5e6ca06c4d137a376f2ac08a5d95a3473f76563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 01/43] fix: reject empty WAMP message lists instead of
 panicking

---
 serializers/helpers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serializers/helpers.go b/serializers/helpers.go
index 239f08f..fcc0f51 100644
--- a/serializers/helpers.go
+++ b/serializers/helpers.go
@@ -8,6 +8,10 @@ import (
 )
 
 func ToMessage(wampMsg []any) (messages.Message, error) {
+	if len(wampMsg) == 0 {
+		return nil, fmt.Errorf("invalid message: empty list")
+	}
+
 	messageType, _ := util.AsUInt64(wampMsg[0])
 	var msg messages.Message
 	switch messageType {
-- 
2.43.0


From ee940fccc5421c7d8633483b997e6eb7867b6c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 02/43] fix: HELLO and AUTHENTICATE without details/extra no
 longer panic the parser

---
 messages/authenticate.go | 2 +-
 messages/hello.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/messages/authenticate.go b/messages/authenticate.go
index 90979c2..f85162b 100644
--- a/messages/authenticate.go
+++ b/messages/authenticate.go
@@ -8,7 +8,7 @@ const MessageTypeAuthenticate uint64 = 5
 const MessageNameAuthenticate = "AUTHENTICATE"
 
 var authenticateValidationSpec = ValidationSpec{ //nolint:gochecknoglobals
-	MinLength: 2,
+	MinLength: 3,
 	MaxLength: 3,
 	Message:   MessageNameAuthenticate,
 	Spec: Spec{
diff --git a/messages/hello.go b/messages/hello.go
index 245408b..9bd213b 100644
--- a/messages/hello.go
+++ b/messages/hello.go
@@ -10,7 +10,7 @@ const MessageTypeHello uint64 = 1
 const MessageNameHello = "HELLO"
 
 var helloValidationSpec = ValidationSpec{ //nolint:gochecknoglobals
-	MinLength: 2,
+	MinLength: 3,
 	MaxLength: 3,
 	Message:   MessageNameHello,
 	Spec: Spec{
-- 
2.43.0


From eec60640ec9ffbfaf60ba9b669078fb62a29ab19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 03/43] fix: encode absent ABORT args as an empty list when
 kwargs are present

---
 messages/abort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages/abort.go b/messages/abort.go
index e3dfd86..2fca397 100644
--- a/messages/abort.go
+++ b/messages/abort.go
@@ -95,7 +95,7 @@ func (a *Abort) Marshal() []any {
 
 	if a.KwArgs() != nil {
 		if a.Args() == nil {
-			payload = append(payload, a.Args())
+			payload = append(payload, []any{})
 		}
 
 		payload = append(payload, a.KwArgs())
-- 
2.43.0


From 48d93cfe0200ca962364b703563972769b98b5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 04/43] fix: WELCOME and CHALLENGE built without details/extra
 encode an empty map

---
 messages/challenge.go | 4 ++++
 messages/welcome.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/messages/challenge.go b/messages/challenge.go
index 60d354f..61f2340 100644
--- a/messages/challenge.go
+++ b/messages/challenge.go
@@ -42,6 +42,10 @@ func NewChallengeWithFields(fields ChallengeFields) *Challenge {
 }
 
 func NewChallenge(authMethod string, extra map[string]any) *Challenge {
+	if extra == nil {
+		extra = make(map[string]any)
+	}
+
 	return &Challenge{ChallengeFields: &challengeFields{authMethod: authMethod, extra: extra}}
 }
 
diff --git a/messages/welcome.go b/messages/welcome.go
index a22bc83..fe26505 100644
--- a/messages/welcome.go
+++ b/messages/welcome.go
@@ -38,6 +38,10 @@ type Welcome struct {
 }
 
 func NewWelcome(sessionID uint64, details map[string]any) *Welcome {
+	if details == nil {
+		details = make(map[string]any)
+	}
+
 	return &Welcome{WelcomeFields: &welcomeFields{sessionID: sessionID, details: details}}
 }
 
-- 
2.43.0


From 25d4b13bc9110eee5cb6689dd7f56a6db3b1137f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 05/43] fix: a RESULT with a raw binary payload reports itself
 as binary

---
 messages/result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages/result.go b/messages/result.go
index 25980dc..1b5f082 100644
--- a/messages/result.go
+++ b/messages/result.go
@@ -54,7 +54,7 @@ func (e *resultFields) KwArgs() map[string]any {
 }
 
 func (e *resultFields) PayloadIsBinary() bool {
-	return e.serializer != 0
+	return e.binary
 }
 
 func (e *resultFields) Payload() []byte {
-- 
2.43.0


From a915a23a022f1ac026efecefb7acb68d4dcfc85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 06/43] fix: accept 16-bit signed integers, which MessagePack
 peers may use for ids

---
 util/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/util.go b/util/util.go
index f09eba5..2d0d54b 100644
--- a/util/util.go
+++ b/util/util.go
@@ -59,6 +59,8 @@ func AsUInt64(i any) (uint64, bool) {
 		return uint64(v), true // #nosec
 	case int8:
 		return uint64(v), true // #nosec
+	case int16:
+		return uint64(v), true // #nosec
 	case int32:
 		return uint64(v), true // #nosec
 	case uint:
@@ -90,6 +92,8 @@ func AsFloat64(v interface{}) (float64, bool) {
 		return float64(v), true
 	case int8:
 		return float64(v), true
+	case int16:
+		return float64(v), true
 	case int32:
 		return float64(v), true
 	case uint:
-- 
2.43.0


From f48efad1a6748aafd8f84184c5431688e4463e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 07/43] fix: reject ids and message types that are negative or
 fractional

---
 messages/validator.go  |  2 +-
 serializers/helpers.go |  2 +-
 util/util.go           | 19 +++++++++++++++++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/messages/validator.go b/messages/validator.go
index b0f5169..b475d5e 100644
--- a/messages/validator.go
+++ b/messages/validator.go
@@ -63,7 +63,7 @@ func sanityCheck(wampMsg []any, minLength, maxLength int) error {
 }
 
 func validateID(wampMsg []any, index int) (uint64, error) {
-	item, ok := util.AsUInt64(wampMsg[index])
+	item, ok := util.AsID(wampMsg[index])
 	if !ok {
 		return 0, fmt.Errorf(errString, index, "uint64", wampMsg[index])
 	}
diff --git a/serializers/helpers.go b/serializers/helpers.go
index fcc0f51..a484ffd 100644
--- a/serializers/helpers.go
+++ b/serializers/helpers.go
@@ -12,7 +12,7 @@ func ToMessage(wampMsg []any) (messages.Message, error) {
 		return nil, fmt.Errorf("invalid message: empty list")
 	}
 
-	messageType, _ := util.AsUInt64(wampMsg[0])
+	messageType, _ := util.AsID(wampMsg[0])
 	var msg messages.Message
 	switch messageType {
 	case messages.MessageTypeAbort:
diff --git a/util/util.go b/util/util.go
index 2d0d54b..f67de4d 100644
--- a/util/util.go
+++ b/util/util.go
@@ -78,6 +78,25 @@ func AsUInt64(i any) (uint64, bool) {
 	return 0, false
 }
 
+// AsID is like AsUInt64 but refuses values that are not non-negative integers
+// instead of wrapping or truncating them.
+func AsID(i any) (uint64, bool) {
+	switch v := i.(type) {
+	case float64:
+		if v != math.Trunc(v) || v >= 1<<64 {
+			return 0, false
+		}
+	case float32:
+		return AsID(float64(v))
+	}
+
+	if f, ok := AsFloat64(i); ok && f < 0 {
+		return 0, false
+	}
+
+	return AsUInt64(i)
+}
+
 func AsFloat64(v interface{}) (float64, bool) {
 	switch v := v.(type) {
 	case float64:
-- 
2.43.0


From 5ccf691aed477eb176ffbcab048ed51bd7631b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 08/43] fix: DecodeCBOR rejects lists that are not pairs,
 EncodeCBOR encodes nil as empty

---
 serializers/cbor.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/serializers/cbor.go b/serializers/cbor.go
index a0c8a06..70645a6 100644
--- a/serializers/cbor.go
+++ b/serializers/cbor.go
@@ -47,6 +47,13 @@ func (c *CBORSerializer) Static() bool {
 }
 
 func EncodeCBOR(args []any, kwargs map[string]any) ([]byte, error) {
+	if args == nil {
+		args = []any{}
+	}
+	if kwargs == nil {
+		kwargs = map[string]any{}
+	}
+
 	var payload []any
 	payload = append(payload, args)
 	payload = append(payload, kwargs)
@@ -64,6 +71,10 @@ func DecodeCBOR(data []byte) ([]any, map[string]any, error) {
 		return nil, nil, fmt.Errorf("failed to unmarshal cbor payload: %w", err)
 	}
 
+	if len(payload) != 2 {
+		return nil, nil, fmt.Errorf("invalid payload length: expected 2, got %d", len(payload))
+	}
+
 	args, ok := payload[0].([]any)
 	if !ok {
 		return nil, nil, fmt.Errorf("invalid args type: %T", payload[0])
-- 
2.43.0


From 54bc7f3fc01b404d187b696b7e0a345ca6183cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 09/43] fix: an empty payload, the encoding of no arguments,
 decodes to no arguments

---
 serializers/payload.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/serializers/payload.go b/serializers/payload.go
index 1029194..d7c3ace 100644
--- a/serializers/payload.go
+++ b/serializers/payload.go
@@ -64,6 +64,10 @@ func CBOREncodePayload(args []any, kwargs map[string]any) ([]byte, error) {
 }
 
 func CBORDecodePayload(b []byte) ([]any, map[string]any, error) {
+	if len(b) == 0 {
+		return nil, nil, nil
+	}
+
 	var arr []any
 	if err := cborEncoder.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
@@ -82,6 +86,10 @@ func MsgPackEncodePayload(args []any, kwargs map[string]any) ([]byte, error) {
 }
 
 func MsgPackDecodePayload(b []byte) ([]any, map[string]any, error) {
+	if len(b) == 0 {
+		return nil, nil, nil
+	}
+
 	var arr []any
 	if err := msgpack.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
@@ -100,6 +108,10 @@ func JSONEncodePayload(args []any, kwargs map[string]any) ([]byte, error) {
 }
 
 func JSONDecodePayload(b []byte) ([]any, map[string]any, error) {
+	if len(b) == 0 {
+		return nil, nil, nil
+	}
+
 	var arr []any
 	if err := json.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
-- 
2.43.0


From 4e1c272b43072791b3b77ef9e570d79006950c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 10/43] fix: refuse handshakes with non-positive sizes (panic)
 or serializers that do not fit

---
 transports/rawsocket.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/transports/rawsocket.go b/transports/rawsocket.go
index 149d69d..952728c 100644
--- a/transports/rawsocket.go
+++ b/transports/rawsocket.go
@@ -48,6 +48,14 @@ func SendHandshake(hs *Handshake) ([]byte, error) {
 		return nil, errors.New("maxMessageSize must not be more than 16 megabytes")
 	}
 
+	if hs.MaxMessageSize() < 1<<9 {
+		return nil, errors.New("maxMessageSize must be a power of 2 and >= 512")
+	}
+
+	if hs.Serializer() < 1 || hs.Serializer() > 0x0F {
+		return nil, fmt.Errorf("serializer must be between 1 and 15, got %d", hs.Serializer())
+	}
+
 	log2 := int(math.Log2(float64(hs.MaxMessageSize())))
 	if (1<<log2) != hs.MaxMessageSize() || log2 < 9 {
 		return nil, errors.New("maxMessageSize must be a power of 2 and >= 512")
-- 
2.43.0


From 1a94a65106075138cc338beeea1560bbbcb5ef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 11/43] fix: refuse frame headers that are not 4 bytes

---
 transports/rawsocket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transports/rawsocket.go b/transports/rawsocket.go
index 952728c..78c3e11 100644
--- a/transports/rawsocket.go
+++ b/transports/rawsocket.go
@@ -114,6 +114,10 @@ func SendMessageHeader(header *MessageHeader) []byte {
 }
 
 func ReceiveMessageHeader(data []byte) (*MessageHeader, error) {
+	if len(data) != 4 {
+		return nil, fmt.Errorf("expected 4 bytes for message header, got %d", len(data))
+	}
+
 	return NewMessageHeader(Message(data[0]), BytesToInt(data[1:])), nil
 }
 
-- 
2.43.0


From e9f0c3a0f4ac7bca3f6f82115663f45ab19535bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 12/43] fix: cryptosign answers must sign the challenge issued
 in this handshake

---
 acceptor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acceptor.go b/acceptor.go
index 6dd80e7..e72c0fe 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -1,9 +1,11 @@
 package wampproto
 
 import (
+	"crypto/ed25519"
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"strings"
 
 	"github.com/xconnio/wampproto-go/auth"
 	"github.com/xconnio/wampproto-go/messages"
@@ -240,7 +242,8 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			}
 
 			verified, _ := auth.VerifyCryptoSignSignature(authenticate.Signature(), key)
-			if !verified {
+			// the signed message, which follows the signature, must be the challenge issued in this handshake
+			if !verified || !strings.EqualFold(authenticate.Signature()[2*ed25519.SignatureSize:], a.challenge) {
 				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", nil, nil)
 				return abort, nil
 			}
-- 
2.43.0


From ecf59d3fe7aacc451fc1577b75490b2cdc9654a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 13/43] fix: refuse cryptosign keys of the wrong length instead
 of panicking or padding them

---
 auth/cryptosign.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/auth/cryptosign.go b/auth/cryptosign.go
index 4e62fce..d1e17bb 100644
--- a/auth/cryptosign.go
+++ b/auth/cryptosign.go
@@ -25,7 +25,7 @@ func NewCryptoSignAuthenticator(authID string, privateKeyHex string,
 	authExtra map[string]any) (ClientAuthenticator, error) {
 
 	privateKeyRaw, err := hex.DecodeString(privateKeyHex)
-	if err != nil {
+	if err != nil || len(privateKeyRaw) != ed25519.SeedSize {
 		return nil, errors.New("invalid private key")
 	}
 
@@ -96,6 +96,11 @@ func VerifyCryptoSignSignature(signature string, publicKey []byte) (bool, error)
 		return false, fmt.Errorf("signed message has invalid length (was %v, but should have been 96)", len(signatureBytes))
 	}
 
+	if len(publicKey) != ed25519.PublicKeySize {
+		return false, fmt.Errorf("public key has invalid length (was %v, but should have been %v)", len(publicKey),
+			ed25519.PublicKeySize)
+	}
+
 	signedOut := make([]byte, 32)
 	var pubkey [32]byte
 	copy(pubkey[:], publicKey)
-- 
2.43.0


From cd9206fe4c03d52dec933f4b80400e90cd4026eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 14/43] fix: an empty method list selects anonymous only if the
 router allows it

---
 auth/helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auth/helpers.go b/auth/helpers.go
index d12a558..e4d4f17 100644
--- a/auth/helpers.go
+++ b/auth/helpers.go
@@ -11,7 +11,7 @@ func SelectAuthMethod(allowedMethods []Method, proposedMethods []string) (Method
 	var method Method
 
 	if len(proposedMethods) == 0 {
-		return Anonymous, nil
+		proposedMethods = []string{string(Anonymous)}
 	}
 
 	for _, proposed := range proposedMethods {
-- 
2.43.0


From 46db8269c48e80c6fd039c6e74438d9e7206fd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 15/43] fix: CRA challenges with a negative or absurd key
 length no longer panic the client

---
 auth/wampcra.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/auth/wampcra.go b/auth/wampcra.go
index 5452db2..9527250 100644
--- a/auth/wampcra.go
+++ b/auth/wampcra.go
@@ -16,6 +16,9 @@ import (
 
 const MethodCRA = "wampcra"
 
+// maxCRAKeyLength is the longest derived key, in bytes, that a router can make the client compute.
+const maxCRAKeyLength = 1 << 16
+
 type wampcraAuthenticator struct {
 	authID    string
 	authExtra map[string]any
@@ -57,6 +60,9 @@ func (a *wampcraAuthenticator) Authenticate(challenge messages.Challenge) (*mess
 		// If salting info give, then compute a derived key using PBKDF2.
 		iters, _ := util.AsInt(challenge.Extra()["iterations"])
 		keylen, _ := util.AsInt(challenge.Extra()["keylen"])
+		if keylen > maxCRAKeyLength {
+			return nil, fmt.Errorf("key length %d in the challenge is too large", keylen)
+		}
 
 		rawSecret = DeriveWAMPCRAKey(saltStr, a.secret, iters, keylen)
 	} else {
@@ -85,10 +91,10 @@ func DeriveWAMPCRAKey(saltStr string, secret string, iterations int, keyLength i
 	// If salting info give, then compute a derived key using PBKDF2.
 	salt := []byte(saltStr)
 
-	if iterations == 0 {
+	if iterations <= 0 {
 		iterations = 1000
 	}
-	if keyLength == 0 {
+	if keyLength <= 0 {
 		keyLength = 32
 	}
 
-- 
2.43.0


From 65fe55d2472c5df84c4d437bd3958957d744e2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 16/43] fix: an acceptor that sent ABORT accepts no further
 messages

---
 acceptor.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/acceptor.go b/acceptor.go
index e72c0fe..b78832a 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -18,6 +18,7 @@ const (
 	AcceptorStateNone acceptorState = iota
 	AcceptorStateChallengeSent
 	AcceptorStateWelcomeSent
+	AcceptorStateAborted
 )
 
 var RouterRoles = map[string]any{ //nolint:gochecknoglobals
@@ -102,6 +103,19 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 		return nil, errors.New("session was established, not expecting any new messages")
 	}
 
+	if a.state == AcceptorStateAborted {
+		return nil, errors.New("handshake was aborted, not expecting any new messages")
+	}
+
+	toSend, err := a.handleMessage(msg)
+	if err == nil && toSend.Type() == messages.MessageTypeAbort {
+		a.state = AcceptorStateAborted
+	}
+
+	return toSend, err
+}
+
+func (a *Acceptor) handleMessage(msg messages.Message) (messages.Message, error) {
 	if msg.Type() == messages.MessageTypeHello {
 		if a.state != AcceptorStateNone {
 			return nil, fmt.Errorf("state must be %d when processing HELLO but was %d", AcceptorStateNone, a.state)
-- 
2.43.0


From def4cd605dba554e108985bcd6c602a237b683f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 17/43] fix: a WELCOME without authid or authrole no longer
 panics the joiner

---
 joiner.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/joiner.go b/joiner.go
index 09bc3ff..06d6300 100644
--- a/joiner.go
+++ b/joiner.go
@@ -122,8 +122,10 @@ func (j *Joiner) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		welcome := msg.(*messages.Welcome)
 		roles, _ := welcome.Details()["roles"].(map[string]any)
 		authMethod, _ := welcome.Details()["authmethod"].(string)
-		j.sessionDetails = NewSessionDetails(welcome.SessionID(), j.realm, welcome.Details()["authid"].(string),
-			welcome.Details()["authrole"].(string), authMethod, j.serializer.Static(), roles, nil)
+		authID, _ := welcome.Details()["authid"].(string)
+		authRole, _ := welcome.Details()["authrole"].(string)
+		j.sessionDetails = NewSessionDetails(welcome.SessionID(), j.realm, authID, authRole, authMethod,
+			j.serializer.Static(), roles, nil)
 		j.state = joinerStateJoined
 
 		return nil, nil
-- 
2.43.0


From 0f45c43d8a2749ef515ad6387a6fdb3adf239f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:02 +0000
Subject: [PATCH 18/43] fix: a joiner that received ABORT no longer accepts a
 WELCOME

---
 joiner.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/joiner.go b/joiner.go
index 06d6300..30d5194 100644
--- a/joiner.go
+++ b/joiner.go
@@ -40,6 +40,7 @@ const (
 	joinerStateHelloSent
 	joinerStateAuthenticateSent
 	joinerStateJoined
+	joinerStateAborted
 )
 
 type Joiner struct {
@@ -161,6 +162,11 @@ func (j *Joiner) ReceiveMessage(msg messages.Message) (messages.Message, error)
 			errStr += ": " + strings.Join(kwargs, ", ")
 		}
 
+		// the session was refused, only an established one is left as it is
+		if j.state != joinerStateJoined {
+			j.state = joinerStateAborted
+		}
+
 		return nil, errors.New(errStr)
 	} else {
 		return nil, errors.New("received unknown message")
-- 
2.43.0


From ec2a99eb6a53e3dff1bb1961c769cdf20ab7cb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 19/43] fix: WELCOME announces the auth method as a string,
 also to in-process joiners

---
 acceptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acceptor.go b/acceptor.go
index b78832a..67e4488 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -277,7 +277,7 @@ func (a *Acceptor) sendWelcome(sessionID uint64, response auth.Response, authExt
 		"roles":      RouterRoles,
 		"authid":     response.AuthID(),
 		"authrole":   response.AuthRole(),
-		"authmethod": a.authMethod,
+		"authmethod": string(a.authMethod),
 	})
 
 	a.sessionDetails = NewSessionDetails(sessionID, a.hello.Realm(), response.AuthID(), response.AuthRole(),
-- 
2.43.0


From 95739520c167969b4f7732465fab84f9b9e4cf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 20/43] fix: seed the generator GenerateID uses, ids were the
 same in every run

---
 idgen.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/idgen.go b/idgen.go
index d986cdb..1ac8771 100644
--- a/idgen.go
+++ b/idgen.go
@@ -12,8 +12,7 @@ import (
 const maxID uint64 = 1 << 53
 
 func init() {
-	source := rand.NewSource(uint64(time.Now().UnixNano())) // #nosec
-	rand.New(source)
+	rand.Seed(uint64(time.Now().UnixNano())) // #nosec
 }
 
 // GenerateID generates a random WAMP ID.
-- 
2.43.0


From 55b2d87fdc58b973e2dffae6ff34c87676fe3a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 21/43] fix: GenerateID never returns 0, ids start at 1

---
 idgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/idgen.go b/idgen.go
index 1ac8771..4f1a68d 100644
--- a/idgen.go
+++ b/idgen.go
@@ -17,7 +17,7 @@ func init() {
 
 // GenerateID generates a random WAMP ID.
 func GenerateID() uint64 {
-	id, _ := util.AsUInt64(rand.Int63n(int64(maxID)))
+	id, _ := util.AsUInt64(rand.Int63n(int64(maxID)-1) + 1)
 	return id
 }
 
-- 
2.43.0


From cc5ec6d0beb780cb57a71c30a5442d9e7d81b908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 22/43] fix: a prefix or wildcard subscription outlives holders
 other than its last

---
 broker.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/broker.go b/broker.go
index daf09e1..7974d92 100644
--- a/broker.go
+++ b/broker.go
@@ -69,14 +69,14 @@ func (b *Broker) RemoveSession(id uint64) error {
 
 		if len(subscription.Subscribers) == 0 {
 			delete(b.subscriptionsByTopic, v.Topic)
-		}
 
-		if subscription.Match == MatchPrefix {
-			b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
-		}
+			if subscription.Match == MatchPrefix {
+				b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
+			}
 
-		if subscription.Match == MatchWildcard {
-			delete(b.wcSubscriptionsByTopic, v.Topic)
+			if subscription.Match == MatchWildcard {
+				delete(b.wcSubscriptionsByTopic, v.Topic)
+			}
 		}
 	}
 
@@ -155,12 +155,12 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		delete(subscription.Subscribers, sessionID)
 		if len(subscription.Subscribers) == 0 {
 			delete(b.subscriptionsByTopic, subscription.Topic)
-		}
-		if subscription.Match == MatchPrefix {
-			b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
-		}
-		if subscription.Match == MatchWildcard {
-			delete(b.wcSubscriptionsByTopic, subscription.Topic)
+			if subscription.Match == MatchPrefix {
+				b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
+			}
+			if subscription.Match == MatchWildcard {
+				delete(b.wcSubscriptionsByTopic, subscription.Topic)
+			}
 		}
 
 		delete(b.subscriptionsBySession[sessionID], subscription.ID)
-- 
2.43.0


From 2ed4a4687b36ba5c0ff72524841f3a16c3a3e2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 23/43] fix: subscriptions that differ in match policy no
 longer share an id or each other's events

---
 broker.go | 68 +++++++++++++++++++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 27 deletions(-)

diff --git a/broker.go b/broker.go
index 7974d92..e3cf426 100644
--- a/broker.go
+++ b/broker.go
@@ -62,21 +62,9 @@ func (b *Broker) RemoveSession(id uint64) error {
 
 	delete(b.subscriptionsBySession, id)
 	for _, v := range subscriptions {
-		subscription, ok := b.subscriptionsByTopic[v.Topic]
-		if ok {
-			delete(subscription.Subscribers, id)
-		}
-
-		if len(subscription.Subscribers) == 0 {
-			delete(b.subscriptionsByTopic, v.Topic)
-
-			if subscription.Match == MatchPrefix {
-				b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
-			}
-
-			if subscription.Match == MatchWildcard {
-				delete(b.wcSubscriptionsByTopic, v.Topic)
-			}
+		delete(v.Subscribers, id)
+		if len(v.Subscribers) == 0 {
+			b.drop(v)
 		}
 	}
 
@@ -89,8 +77,40 @@ func (b *Broker) HasSubscription(topic string) bool {
 	b.Lock()
 	defer b.Unlock()
 
-	_, exists := b.subscriptionsByTopic[topic]
-	return exists
+	for _, match := range []string{MatchExact, MatchPrefix, MatchWildcard} {
+		if _, exists := b.lookup(topic, match); exists {
+			return true
+		}
+	}
+
+	return false
+}
+
+// lookup finds the subscription to the given topic with the given match policy, which are kept apart
+// as the same topic may be subscribed to with several policies.
+func (b *Broker) lookup(topic, match string) (*Subscription, bool) {
+	switch match {
+	case MatchPrefix:
+		return b.prefixTree.Get([]byte(topic))
+	case MatchWildcard:
+		subscription, exists := b.wcSubscriptionsByTopic[topic]
+		return subscription, exists
+	default:
+		subscription, exists := b.subscriptionsByTopic[topic]
+		return subscription, exists
+	}
+}
+
+// drop forgets a subscription without subscribers.
+func (b *Broker) drop(subscription *Subscription) {
+	switch subscription.Match {
+	case MatchPrefix:
+		b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
+	case MatchWildcard:
+		delete(b.wcSubscriptionsByTopic, subscription.Topic)
+	default:
+		delete(b.subscriptionsByTopic, subscription.Topic)
+	}
 }
 
 func (b *Broker) AutoDisclosePublisher(disclose bool) {
@@ -111,7 +131,8 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		subscribe := msg.(*messages.Subscribe)
-		subscription, exists := b.subscriptionsByTopic[subscribe.Topic()]
+		match := util.ToString(subscribe.Options()[OptionMatch])
+		subscription, exists := b.lookup(subscribe.Topic(), match)
 		if exists {
 			subscription.Subscribers[sessionID] = sessionID
 		} else {
@@ -120,7 +141,6 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				Topic:       subscribe.Topic(),
 				Subscribers: map[uint64]uint64{sessionID: sessionID},
 			}
-			match := util.ToString(subscribe.Options()[OptionMatch])
 			switch match {
 			case MatchPrefix:
 				subscription.Match = match
@@ -130,8 +150,8 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				b.wcSubscriptionsByTopic[subscription.Topic] = subscription
 			default:
 				subscription.Match = MatchExact
+				b.subscriptionsByTopic[subscription.Topic] = subscription
 			}
-			b.subscriptionsByTopic[subscribe.Topic()] = subscription
 		}
 
 		b.subscriptionsBySession[sessionID][subscription.ID] = subscription
@@ -154,13 +174,7 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 
 		delete(subscription.Subscribers, sessionID)
 		if len(subscription.Subscribers) == 0 {
-			delete(b.subscriptionsByTopic, subscription.Topic)
-			if subscription.Match == MatchPrefix {
-				b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
-			}
-			if subscription.Match == MatchWildcard {
-				delete(b.wcSubscriptionsByTopic, subscription.Topic)
-			}
+			b.drop(subscription)
 		}
 
 		delete(b.subscriptionsBySession[sessionID], subscription.ID)
-- 
2.43.0


From 7f5cdd22db79f782a845d9d2382a0c6c69a5e23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 24/43] fix: exclude the publisher from its own events unless
 exclude_me is false, as announced

---
 broker.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/broker.go b/broker.go
index e3cf426..137a27c 100644
--- a/broker.go
+++ b/broker.go
@@ -12,6 +12,7 @@ import (
 
 const (
 	OptAcknowledge = "acknowledge"
+	OptExcludeMe   = "exclude_me"
 )
 
 type Broker struct {
@@ -220,7 +221,19 @@ func (b *Broker) ReceivePublish(sessionID uint64, publish *messages.Publish) (*P
 			}
 		}
 	}
-	if exists && len(subscription.Subscribers) > 0 {
+
+	// publisher exclusion: the publisher does not receive its own event unless it asks to
+	excludeMe, ok := publish.Options()[OptExcludeMe].(bool)
+	excludeMe = excludeMe || !ok
+	if exists {
+		for _, subscriber := range subscription.Subscribers {
+			if subscriber != sessionID || !excludeMe {
+				result.Recipients = append(result.Recipients, subscriber)
+			}
+		}
+	}
+
+	if len(result.Recipients) > 0 {
 		details := map[string]any{}
 		if b.details {
 			publisher := b.sessions[sessionID]
@@ -232,9 +245,6 @@ func (b *Broker) ReceivePublish(sessionID uint64, publish *messages.Publish) (*P
 
 		event := messages.NewEvent(subscription.ID, publicationID, details, publish.Args(), publish.KwArgs())
 		result.Event = event
-		for _, subscriber := range subscription.Subscribers {
-			result.Recipients = append(result.Recipients, subscriber)
-		}
 	}
 
 	ack, ok := publish.Options()[OptAcknowledge].(bool)
-- 
2.43.0


From b37ea1f57039cc75e48901d0932655fc92359fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 25/43] fix: a prefix or wildcard registration ends with its
 last callee, not before and not after

---
 dealer.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/dealer.go b/dealer.go
index 2836a0d..8e4fb84 100644
--- a/dealer.go
+++ b/dealer.go
@@ -118,13 +118,14 @@ func (d *Dealer) RemoveSession(id uint64) error {
 		delete(registration.Registrants, id)
 		if len(registration.Registrants) == 0 {
 			delete(d.registrationsByProcedure, registration.Procedure)
-		}
-		if registration.Match == MatchPrefix {
-			d.prefixTree.Delete([]byte(registration.Procedure))
-		}
 
-		if registration.Match == MatchWildcard {
-			delete(d.wcRegistrationsByProcedure, registration.Procedure)
+			if registration.Match == MatchPrefix {
+				d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
+			}
+
+			if registration.Match == MatchWildcard {
+				delete(d.wcRegistrationsByProcedure, registration.Procedure)
+			}
 		}
 
 		for i, callee := range registration.callees {
@@ -353,7 +354,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			delete(registrations, unregister.RegistrationID())
 			delete(d.registrationsByProcedure, registration.Procedure)
 			if registration.Match == MatchPrefix {
-				d.prefixTree.Delete([]byte(registration.Procedure))
+				d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
 			}
 			if registration.Match == MatchWildcard {
 				delete(d.wcRegistrationsByProcedure, registration.Procedure)
-- 
2.43.0


From 89f0213c3ed05f5c7a9f1f1e587917a860097108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 26/43] fix: no call is routed to a session that has
 unregistered from a shared registration

---
 dealer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dealer.go b/dealer.go
index 8e4fb84..ca29b5d 100644
--- a/dealer.go
+++ b/dealer.go
@@ -349,9 +349,15 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 
 		registration := registrations[unregister.RegistrationID()]
 		delete(registration.Registrants, sessionID)
+		delete(registrations, unregister.RegistrationID())
+		for i, callee := range registration.callees {
+			if callee == sessionID {
+				registration.callees = append(registration.callees[:i], registration.callees[i+1:]...)
+				break
+			}
+		}
 
 		if len(registration.Registrants) == 0 {
-			delete(registrations, unregister.RegistrationID())
 			delete(d.registrationsByProcedure, registration.Procedure)
 			if registration.Match == MatchPrefix {
 				d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
-- 
2.43.0


From 243b7c21373f9847ae3fada8cc4dfa9c352387df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 27/43] fix: unregistering an unknown registration is an error,
 it panicked

---
 dealer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dealer.go b/dealer.go
index ca29b5d..30d7382 100644
--- a/dealer.go
+++ b/dealer.go
@@ -341,13 +341,13 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		return &MessageWithRecipient{Message: registered, Recipient: sessionID}, nil
 	case messages.MessageTypeUnregister:
 		unregister := msg.(*messages.Unregister)
-		registrations, exists := d.registrationsBySession[sessionID]
-		if !exists || len(registrations) == 0 {
+		registrations := d.registrationsBySession[sessionID]
+		registration, exists := registrations[unregister.RegistrationID()]
+		if !exists {
 			return nil, fmt.Errorf("unregister: session %d has no registration %d", sessionID,
 				unregister.RegistrationID())
 		}
 
-		registration := registrations[unregister.RegistrationID()]
 		delete(registration.Registrants, sessionID)
 		delete(registrations, unregister.RegistrationID())
 		for i, callee := range registration.callees {
-- 
2.43.0


From 8eae4fa03bd6bdfa5f47c6b9c3f93a76656b7cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 28/43] fix: registering a shared procedure again gives the
 session no second share

---
 dealer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dealer.go b/dealer.go
index 30d7382..b30967d 100644
--- a/dealer.go
+++ b/dealer.go
@@ -309,9 +309,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 					"wamp.error.procedure_already_exists", nil, nil)
 				return &MessageWithRecipient{Message: err, Recipient: sessionID}, nil
 			}
-			registration.Registrants[sessionID] = sessionID
-			registration.callees = append(registration.callees, sessionID)
-
+			if _, registered := registration.Registrants[sessionID]; !registered {
+				registration.Registrants[sessionID] = sessionID
+				registration.callees = append(registration.callees, sessionID)
+			}
 		} else {
 			registration = &Registration{
 				ID:               d.idGen.NextID(),
-- 
2.43.0


From 3b1dd3a0f9726687bbdd15f72a22deded464b1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 29/43] fix: registrations that differ in match policy are
 different registrations

---
 dealer.go | 67 ++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 41 insertions(+), 26 deletions(-)

diff --git a/dealer.go b/dealer.go
index b30967d..b897cb1 100644
--- a/dealer.go
+++ b/dealer.go
@@ -110,22 +110,10 @@ func (d *Dealer) RemoveSession(id uint64) error {
 	}
 
 	registrations := d.registrationsBySession[id]
-	for _, reg := range registrations {
-		registration, ok := d.registrationsByProcedure[reg.Procedure]
-		if !ok {
-			continue
-		}
+	for _, registration := range registrations {
 		delete(registration.Registrants, id)
 		if len(registration.Registrants) == 0 {
-			delete(d.registrationsByProcedure, registration.Procedure)
-
-			if registration.Match == MatchPrefix {
-				d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
-			}
-
-			if registration.Match == MatchWildcard {
-				delete(d.wcRegistrationsByProcedure, registration.Procedure)
-			}
+			d.drop(registration)
 		}
 
 		for i, callee := range registration.callees {
@@ -149,8 +137,41 @@ func (d *Dealer) HasProcedure(procedure string) bool {
 	d.Lock()
 	defer d.Unlock()
 
-	reg, exists := d.registrationsByProcedure[procedure]
-	return exists && len(reg.Registrants) > 0
+	for _, match := range []string{MatchExact, MatchPrefix, MatchWildcard} {
+		reg, exists := d.lookup(procedure, match)
+		if exists && len(reg.Registrants) > 0 {
+			return true
+		}
+	}
+
+	return false
+}
+
+// lookup finds the registration of the given procedure with the given match policy, which are kept apart
+// as the same procedure may be registered with several policies.
+func (d *Dealer) lookup(procedure, match string) (*Registration, bool) {
+	switch match {
+	case MatchPrefix:
+		return d.prefixTree.Get([]byte(procedure))
+	case MatchWildcard:
+		registration, exists := d.wcRegistrationsByProcedure[procedure]
+		return registration, exists
+	default:
+		registration, exists := d.registrationsByProcedure[procedure]
+		return registration, exists
+	}
+}
+
+// drop forgets a registration without registrants.
+func (d *Dealer) drop(registration *Registration) {
+	switch registration.Match {
+	case MatchPrefix:
+		d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
+	case MatchWildcard:
+		delete(d.wcRegistrationsByProcedure, registration.Procedure)
+	default:
+		delete(d.registrationsByProcedure, registration.Procedure)
+	}
 }
 
 func (d *Dealer) AutoDiscloseCaller(disclose bool) {
@@ -301,7 +322,8 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		invokePolicy := util.ToString(register.Options()[OptionInvoke])
-		registration, exists := d.registrationsByProcedure[register.Procedure()]
+		match := util.ToString(register.Options()[OptionMatch])
+		registration, exists := d.lookup(register.Procedure(), match)
 		if exists {
 			if registration.InvocationPolicy == "" || registration.InvocationPolicy == InvokeSingle ||
 				registration.InvocationPolicy != invokePolicy {
@@ -322,7 +344,6 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				InvocationPolicy: invokePolicy,
 			}
 
-			match := util.ToString(register.Options()[OptionMatch])
 			switch match {
 			case MatchPrefix:
 				registration.Match = match
@@ -332,10 +353,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				d.wcRegistrationsByProcedure[registration.Procedure] = registration
 			default:
 				registration.Match = MatchExact
+				d.registrationsByProcedure[registration.Procedure] = registration
 			}
 		}
 
-		d.registrationsByProcedure[register.Procedure()] = registration
 		d.registrationsBySession[sessionID][registration.ID] = registration
 
 		registered := messages.NewRegistered(register.RequestID(), registration.ID)
@@ -359,13 +380,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		if len(registration.Registrants) == 0 {
-			delete(d.registrationsByProcedure, registration.Procedure)
-			if registration.Match == MatchPrefix {
-				d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
-			}
-			if registration.Match == MatchWildcard {
-				delete(d.wcRegistrationsByProcedure, registration.Procedure)
-			}
+			d.drop(registration)
 		}
 
 		unregistered := messages.NewUnregistered(unregister.RequestID())
-- 
2.43.0


From ce6f6bf17425631460fa1eba6f7ad952514fb46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 30/43] fix: a call by a session that is not attached is an
 error, it panicked or could not be answered

---
 dealer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dealer.go b/dealer.go
index b897cb1..bb38def 100644
--- a/dealer.go
+++ b/dealer.go
@@ -186,6 +186,11 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 
 	switch msg.Type() {
 	case messages.MessageTypeCall:
+		_, exists := d.sessions[sessionID]
+		if !exists {
+			return nil, fmt.Errorf("cannot call procedure for non-existent session %d", sessionID)
+		}
+
 		call := msg.(*messages.Call)
 		var regs *Registration
 		var found bool
-- 
2.43.0


From 01040c249b04ddc8f090b25e5cad75030e0ce8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 31/43] fix: all chunks of a progressive call reach the same
 callee under the same invocation id

---
 dealer.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/dealer.go b/dealer.go
index bb38def..2029b03 100644
--- a/dealer.go
+++ b/dealer.go
@@ -42,6 +42,7 @@ type PendingInvocation struct {
 	CalleeID        uint64
 	Progress        bool
 	ReceiveProgress bool
+	registration    *Registration
 }
 
 type Registration struct {
@@ -214,14 +215,21 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			}
 		}
 
-		if !found || len(regs.Registrants) == 0 {
+		// further chunks of a progressive call, including the last, belong to the invocation it started
+		pending, continued := d.pendingCalls[d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}]]
+		continued = continued && pending.Progress
+		if continued {
+			regs = pending.registration
+		} else if !found || len(regs.Registrants) == 0 {
 			callErr := messages.NewError(messages.MessageTypeCall, call.RequestID(), map[string]any{},
 				"wamp.error.no_such_procedure", nil, nil)
 			return &MessageWithRecipient{Message: callErr, Recipient: sessionID}, nil
 		}
 
 		var calleeID uint64
-		if len(regs.callees) > 1 {
+		if continued {
+			calleeID = pending.CalleeID
+		} else if len(regs.callees) > 1 {
 			switch regs.InvocationPolicy {
 			case InvokeFirst:
 				calleeID = regs.callees[0]
@@ -247,8 +255,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		receiveProgress, _ := call.Options()[OptionReceiveProgress].(bool)
 		progress, _ := call.Options()[OptionProgress].(bool)
 
-		invocationID, ok := d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}]
-		if !ok || !progress {
+		invocationID := d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}]
+		if continued {
+			pending.Progress = progress
+		} else {
 			invocationID = d.idGen.NextID()
 			d.pendingCalls[invocationID] = &PendingInvocation{
 				RequestID:       call.RequestID(),
@@ -256,6 +266,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				CalleeID:        calleeID,
 				ReceiveProgress: receiveProgress,
 				Progress:        progress,
+				registration:    regs,
 			}
 			d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}] = invocationID
 		}
-- 
2.43.0


From 764abd82a98fc64484c197c560e6d2c64139be39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 32/43] fix: the dealer forgets calls that have ended or whose
 caller or callee has left

---
 dealer.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/dealer.go b/dealer.go
index 2029b03..3efcacc 100644
--- a/dealer.go
+++ b/dealer.go
@@ -128,12 +128,27 @@ func (d *Dealer) RemoveSession(id uint64) error {
 		}
 	}
 
+	// nobody is left to answer or to be answered
+	for invocationID, pending := range d.pendingCalls {
+		if pending.CallerID == id || pending.CalleeID == id {
+			d.endInvocation(invocationID, pending)
+		}
+	}
+
 	delete(d.registrationsBySession, id)
 	delete(d.sessions, id)
 
 	return nil
 }
 
+func (d *Dealer) endInvocation(invocationID uint64, pending *PendingInvocation) {
+	delete(d.pendingCalls, invocationID)
+	callMap := CallMap{CallerID: pending.CallerID, CallID: pending.RequestID}
+	if d.invocationIDbyCall[callMap] == invocationID {
+		delete(d.invocationIDbyCall, callMap)
+	}
+}
+
 func (d *Dealer) HasProcedure(procedure string) bool {
 	d.Lock()
 	defer d.Unlock()
@@ -314,7 +329,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		if pending.ReceiveProgress && progress {
 			details = map[string]any{OptionProgress: progress}
 		} else {
-			delete(d.pendingCalls, yield.RequestID())
+			d.endInvocation(yield.RequestID(), pending)
 		}
 
 		var result *messages.Result
@@ -412,7 +427,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			return nil, fmt.Errorf("dealer: no pending invocation for %d", wErr.RequestID())
 		}
 
-		delete(d.pendingCalls, wErr.RequestID())
+		d.endInvocation(wErr.RequestID(), pending)
 
 		wErr = messages.NewError(messages.MessageTypeCall, pending.RequestID, wErr.Details(), wErr.URI(),
 			wErr.Args(), wErr.KwArgs())
-- 
2.43.0


From 68f630baa4ca72eb4380cfffdeaabf23885a4e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 33/43] fix: only the session an invocation was sent to can
 answer it

---
 dealer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dealer.go b/dealer.go
index 3efcacc..e30891b 100644
--- a/dealer.go
+++ b/dealer.go
@@ -324,6 +324,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			return nil, fmt.Errorf("yield: not pending calls for session %d", sessionID)
 		}
 
+		if sessionID != pending.CalleeID && sessionID != pending.CallerID {
+			return nil, fmt.Errorf("yield: invocation %d was not sent to session %d", yield.RequestID(), sessionID)
+		}
+
 		progress, _ := yield.Options()[OptionProgress].(bool)
 		var details map[string]any
 		if pending.ReceiveProgress && progress {
@@ -427,6 +431,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			return nil, fmt.Errorf("dealer: no pending invocation for %d", wErr.RequestID())
 		}
 
+		if sessionID != pending.CalleeID {
+			return nil, fmt.Errorf("dealer: invocation %d was not sent to session %d", wErr.RequestID(), sessionID)
+		}
+
 		d.endInvocation(wErr.RequestID(), pending)
 
 		wErr = messages.NewError(messages.MessageTypeCall, pending.RequestID, wErr.Details(), wErr.URI(),
-- 
2.43.0


From 26ce0d985d4dd752ac89253f3f6c752b750c4ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 34/43] fix: of final results received at once for the same
 call only one is accepted

---
 session.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/session.go b/session.go
index 35e63a3..1a1eb7e 100644
--- a/session.go
+++ b/session.go
@@ -128,14 +128,14 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 	switch msg.Type() {
 	case messages.MessageTypeResult:
 		result := msg.(*messages.Result)
+		progress, _ := result.Details()[OptionProgress].(bool)
 		_, exists := w.callRequests.Load(result.RequestID())
-		if !exists {
-			return nil, fmt.Errorf("received RESULT for invalid requestID")
+		if !progress {
+			_, exists = w.callRequests.LoadAndDelete(result.RequestID())
 		}
 
-		progress, _ := result.Details()[OptionProgress].(bool)
-		if !progress {
-			w.callRequests.Delete(result.RequestID())
+		if !exists {
+			return nil, fmt.Errorf("received RESULT for invalid requestID")
 		}
 
 		return result, nil
-- 
2.43.0


From a85880a37df80bb6c44e57848375c4d208fa9fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 35/43] fix: SUBSCRIBED, UNSUBSCRIBED and UNREGISTERED are
 accepted once per request

---
 session.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/session.go b/session.go
index 1a1eb7e..1606fa3 100644
--- a/session.go
+++ b/session.go
@@ -150,7 +150,7 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return registered, nil
 	case messages.MessageTypeUnregistered:
 		unregistered := msg.(*messages.Unregistered)
-		registrationID, exists := w.unregisterRequests.Load(unregistered.RequestID())
+		registrationID, exists := w.unregisterRequests.LoadAndDelete(unregistered.RequestID())
 		if !exists {
 			return nil, fmt.Errorf("received UNREGISTERED for invalid requestID")
 		}
@@ -181,7 +181,7 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return published, nil
 	case messages.MessageTypeSubscribed:
 		subscribed := msg.(*messages.Subscribed)
-		_, exists := w.subscribeRequests.Load(subscribed.RequestID())
+		_, exists := w.subscribeRequests.LoadAndDelete(subscribed.RequestID())
 		if !exists {
 			return nil, fmt.Errorf("received SUBSCRIBED for invalid requestID")
 		}
@@ -191,7 +191,7 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return subscribed, nil
 	case messages.MessageTypeUnsubscribed:
 		unsubscribed := msg.(*messages.Unsubscribed)
-		subscriptionID, exists := w.unsubscribeRequests.Load(unsubscribed.RequestID())
+		subscriptionID, exists := w.unsubscribeRequests.LoadAndDelete(unsubscribed.RequestID())
 		if !exists {
 			return nil, fmt.Errorf("received UNSUBSCRIBED for invalid requestID")
 		}
-- 
2.43.0


From c393988de186e01b3fab7fe0bcc315cf21bdd14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 36/43] fix: deeply nested MessagePack no longer overflows the
 stack

---
 serializers/msgpack.go | 88 ++++++++++++++++++++++++++++++++++++++++++
 serializers/payload.go |  4 ++
 2 files changed, 92 insertions(+)

diff --git a/serializers/msgpack.go b/serializers/msgpack.go
index d52d452..9dc4072 100644
--- a/serializers/msgpack.go
+++ b/serializers/msgpack.go
@@ -1,6 +1,9 @@
 package serializers
 
 import (
+	"encoding/binary"
+	"fmt"
+
 	"github.com/vmihailenco/msgpack/v5"
 
 	"github.com/xconnio/wampproto-go/messages"
@@ -8,6 +11,9 @@ import (
 
 const MsgPackSerializerID = 2
 
+// maxMsgPackDepth limits the nesting of lists and maps, the decoder recurses without limit.
+const maxMsgPackDepth = 10000
+
 type MsgPackSerializer struct{}
 
 func (m *MsgPackSerializer) Serialize(message messages.Message) ([]byte, error) {
@@ -15,6 +21,10 @@ func (m *MsgPackSerializer) Serialize(message messages.Message) ([]byte, error)
 }
 
 func (m *MsgPackSerializer) Deserialize(payload []byte) (messages.Message, error) {
+	if err := checkMsgPackDepth(payload); err != nil {
+		return nil, err
+	}
+
 	var msgRaw []any
 	if err := msgpack.Unmarshal(payload, &msgRaw); err != nil {
 		return nil, err
@@ -35,3 +45,81 @@ func (m *MsgPackSerializer) Deserialize(payload []byte) (messages.Message, error
 func (m *MsgPackSerializer) Static() bool {
 	return false
 }
+
+// checkMsgPackDepth refuses data whose lists and maps are nested too deeply to be decoded. It only follows
+// the structure, whatever else may be wrong with the data is left for the decoder to report.
+func checkMsgPackDepth(data []byte) error {
+	// number of items left in each of the lists and maps around the current item
+	var left []uint64
+
+	for len(data) > 0 {
+		code := data[0]
+		data = data[1:]
+
+		length := func(bytes int) uint64 {
+			if len(data) < bytes {
+				data = nil
+				return 0
+			}
+
+			number := append(make([]byte, 8-bytes, 8), data[:bytes]...)
+			data = data[bytes:]
+			return binary.BigEndian.Uint64(number)
+		}
+
+		var skip, items uint64
+		switch {
+		case code >= 0x80 && code <= 0x8f: // map
+			items = 2 * uint64(code&0x0f)
+		case code >= 0x90 && code <= 0x9f: // list
+			items = uint64(code & 0x0f)
+		case code >= 0xa0 && code <= 0xbf: // string
+			skip = uint64(code & 0x1f)
+		case code >= 0xc4 && code <= 0xc6: // binary
+			skip = length(1 << (code - 0xc4))
+		case code >= 0xc7 && code <= 0xc9: // extension
+			skip = length(1<<(code-0xc7)) + 1
+		case code == 0xca || code == 0xcb: // float
+			skip = 4 << (code - 0xca)
+		case code >= 0xcc && code <= 0xcf: // unsigned integer
+			skip = 1 << (code - 0xcc)
+		case code >= 0xd0 && code <= 0xd3: // signed integer
+			skip = 1 << (code - 0xd0)
+		case code >= 0xd4 && code <= 0xd8: // extension of fixed length
+			skip = 1<<(code-0xd4) + 1
+		case code >= 0xd9 && code <= 0xdb: // string
+			skip = length(1 << (code - 0xd9))
+		case code == 0xdc || code == 0xdd: // list
+			items = length(2 << (code - 0xdc))
+		case code == 0xde || code == 0xdf: // map
+			items = 2 * length(2<<(code-0xde))
+		}
+
+		if skip > uint64(len(data)) {
+			return nil
+		}
+		data = data[skip:]
+
+		if items > 0 {
+			left = append(left, items)
+			if len(left) > maxMsgPackDepth {
+				return fmt.Errorf("msgpack: exceeded max depth %d", maxMsgPackDepth)
+			}
+			continue
+		}
+
+		for len(left) > 0 {
+			left[len(left)-1]--
+			if left[len(left)-1] > 0 {
+				break
+			}
+			left = left[:len(left)-1]
+		}
+
+		if len(left) == 0 {
+			return nil
+		}
+	}
+
+	return nil
+}
diff --git a/serializers/payload.go b/serializers/payload.go
index d7c3ace..761e88e 100644
--- a/serializers/payload.go
+++ b/serializers/payload.go
@@ -90,6 +90,10 @@ func MsgPackDecodePayload(b []byte) ([]any, map[string]any, error) {
 		return nil, nil, nil
 	}
 
+	if err := checkMsgPackDepth(b); err != nil {
+		return nil, nil, err
+	}
+
 	var arr []any
 	if err := msgpack.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
-- 
2.43.0


From e3eec976cc8f75eb78e84043768a64f89ba083b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 37/43] fix: MessagePack announcing more data than it holds no
 longer exhausts memory

---
 serializers/msgpack.go | 30 +++++++++++++++++++-----------
 serializers/payload.go |  2 +-
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/serializers/msgpack.go b/serializers/msgpack.go
index 9dc4072..bf4b35a 100644
--- a/serializers/msgpack.go
+++ b/serializers/msgpack.go
@@ -21,7 +21,7 @@ func (m *MsgPackSerializer) Serialize(message messages.Message) ([]byte, error)
 }
 
 func (m *MsgPackSerializer) Deserialize(payload []byte) (messages.Message, error) {
-	if err := checkMsgPackDepth(payload); err != nil {
+	if err := checkMsgPack(payload); err != nil {
 		return nil, err
 	}
 
@@ -46,11 +46,14 @@ func (m *MsgPackSerializer) Static() bool {
 	return false
 }
 
-// checkMsgPackDepth refuses data whose lists and maps are nested too deeply to be decoded. It only follows
-// the structure, whatever else may be wrong with the data is left for the decoder to report.
-func checkMsgPackDepth(data []byte) error {
+// checkMsgPack refuses data whose lists and maps are nested too deeply, or which announces more items or bytes
+// than follow, as the decoder would allocate memory for them. It only follows the structure, whatever else may be wrong
+// with the data is left for the decoder to report.
+func checkMsgPack(data []byte) error {
 	// number of items left in each of the lists and maps around the current item
 	var left []uint64
+	// sum of left, each item takes at least one byte
+	var total uint64
 
 	for len(data) > 0 {
 		code := data[0]
@@ -96,23 +99,28 @@ func checkMsgPackDepth(data []byte) error {
 		}
 
 		if skip > uint64(len(data)) {
-			return nil
+			return fmt.Errorf("msgpack: %d bytes announced but only %d left", skip, len(data))
 		}
 		data = data[skip:]
 
+		if len(left) > 0 {
+			left[len(left)-1]--
+			total--
+		}
+
+		total += items
+		if total > uint64(len(data)) {
+			return fmt.Errorf("msgpack: %d items announced but only %d bytes left", total, len(data))
+		}
+
 		if items > 0 {
 			left = append(left, items)
 			if len(left) > maxMsgPackDepth {
 				return fmt.Errorf("msgpack: exceeded max depth %d", maxMsgPackDepth)
 			}
-			continue
 		}
 
-		for len(left) > 0 {
-			left[len(left)-1]--
-			if left[len(left)-1] > 0 {
-				break
-			}
+		for len(left) > 0 && left[len(left)-1] == 0 {
 			left = left[:len(left)-1]
 		}
 
diff --git a/serializers/payload.go b/serializers/payload.go
index 761e88e..25b83a1 100644
--- a/serializers/payload.go
+++ b/serializers/payload.go
@@ -90,7 +90,7 @@ func MsgPackDecodePayload(b []byte) ([]any, map[string]any, error) {
 		return nil, nil, nil
 	}
 
-	if err := checkMsgPackDepth(b); err != nil {
+	if err := checkMsgPack(b); err != nil {
 		return nil, nil, err
 	}
 
-- 
2.43.0


From 9daa2e0c249792f2cfbe05b95193af725e878ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 38/43] fix: a WAMP-CRA challenge names the session that
 WELCOME grants

---
 acceptor.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/acceptor.go b/acceptor.go
index 67e4488..1671242 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -59,6 +59,7 @@ type Acceptor struct {
 	request    auth.Request
 	response   auth.Response
 	challenge  string
+	sessionID  uint64
 
 	sessionDetails *SessionDetails
 }
@@ -157,7 +158,9 @@ func (a *Acceptor) handleMessage(msg messages.Message) (messages.Message, error)
 				return nil, errors.New("internal response for WAMPCRA auth was of invalid type")
 			}
 
-			chStr, err := auth.GenerateWAMPCRAChallenge(GenerateID(), response.AuthID(), response.AuthRole(), "dynamic")
+			// the challenge names the session that the client gets if it answers it
+			sessionID := GenerateID()
+			chStr, err := auth.GenerateWAMPCRAChallenge(sessionID, response.AuthID(), response.AuthRole(), "dynamic")
 			if err != nil {
 				return nil, err
 			}
@@ -173,6 +176,7 @@ func (a *Acceptor) handleMessage(msg messages.Message) (messages.Message, error)
 			}
 
 			a.challenge = chStr
+			a.sessionID = sessionID
 			a.response = response
 			a.state = AcceptorStateChallengeSent
 
@@ -246,7 +250,7 @@ func (a *Acceptor) handleMessage(msg messages.Message) (messages.Message, error)
 				return abort, nil
 			}
 
-			return a.sendWelcome(GenerateID(), a.response, authenticate.Extra()), nil
+			return a.sendWelcome(a.sessionID, a.response, authenticate.Extra()), nil
 		case auth.CryptoSign:
 			authenticate := msg.(*messages.Authenticate)
 			request := a.request.(*auth.RequestCryptoSign)
-- 
2.43.0


From 8ec09d98121f2687ea418f0c6c98a5911e8b9e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 39/43] fix: HELLO without auth methods or roles carries empty
 ones instead of null

---
 messages/hello.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/messages/hello.go b/messages/hello.go
index 9bd213b..033aea9 100644
--- a/messages/hello.go
+++ b/messages/hello.go
@@ -118,11 +118,21 @@ func (h *Hello) Marshal() []any {
 		authExtra = h.AuthExtra()
 	}
 
+	authMethods := []string{}
+	if h.AuthMethods() != nil {
+		authMethods = h.AuthMethods()
+	}
+
+	roles := map[string]any{}
+	if h.Roles() != nil {
+		roles = h.Roles()
+	}
+
 	details := map[string]any{
 		"authid":      h.AuthID(),
-		"authmethods": h.AuthMethods(),
+		"authmethods": authMethods,
 		"authextra":   authExtra,
-		"roles":       h.Roles(),
+		"roles":       roles,
 	}
 
 	return []any{MessageTypeHello, h.Realm(), details}
-- 
2.43.0


From b0cd83283ba0db6f7a7ba2e464936f01e39b3c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 40/43] fix: CBOR messages with large or deeply nested values
 can be decoded, as they can be encoded

---
 serializers/cbor.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/serializers/cbor.go b/serializers/cbor.go
index 70645a6..aeb2065 100644
--- a/serializers/cbor.go
+++ b/serializers/cbor.go
@@ -2,6 +2,7 @@ package serializers
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 
 	"github.com/fxamacker/cbor/v2"
@@ -16,7 +17,13 @@ var cborEncoder cbor.DecMode //nolint:gochecknoglobals
 type CBORSerializer struct{}
 
 func init() {
-	opt := cbor.DecOptions{DefaultMapType: reflect.TypeOf(map[string]any(nil))}
+	opt := cbor.DecOptions{
+		DefaultMapType: reflect.TypeOf(map[string]any(nil)),
+		// what can be encoded can be decoded, the defaults allow less than the other serializers do
+		MaxNestedLevels:  10000,
+		MaxArrayElements: math.MaxInt32,
+		MaxMapPairs:      math.MaxInt32,
+	}
 	cborEncoder, _ = opt.DecMode()
 }
 
-- 
2.43.0


From c4d425f0f4839aa20e93eced9d5f269c2c482fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 41/43] fix: a cryptosign authenticator no longer writes its
 public key into the caller's map

---
 auth/cryptosign.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/auth/cryptosign.go b/auth/cryptosign.go
index d1e17bb..7a2ad3c 100644
--- a/auth/cryptosign.go
+++ b/auth/cryptosign.go
@@ -33,13 +33,15 @@ func NewCryptoSignAuthenticator(authID string, privateKeyHex string,
 	publicKey := privateKey.Public().(ed25519.PublicKey)
 	publicKeyHex := hex.EncodeToString(publicKey)
 
-	if authExtra == nil {
-		authExtra = map[string]any{}
+	// the map belongs to the caller, who may use it for other keys as well
+	extra := make(map[string]any, len(authExtra)+1)
+	for key, value := range authExtra {
+		extra[key] = value
 	}
 
-	if authExtra["pubkey"] == nil {
-		authExtra["pubkey"] = publicKeyHex
-	} else if val, ok := authExtra["pubkey"].(string); ok {
+	if extra["pubkey"] == nil {
+		extra["pubkey"] = publicKeyHex
+	} else if val, ok := extra["pubkey"].(string); ok {
 		if val != publicKeyHex {
 			return nil, errors.New("provided pubkey does not correspond to the private key")
 		}
@@ -47,7 +49,7 @@ func NewCryptoSignAuthenticator(authID string, privateKeyHex string,
 
 	return &cryptoSignAuthenticator{
 		authID:     authID,
-		authExtra:  authExtra,
+		authExtra:  extra,
 		privateKey: privateKey,
 	}, nil
 }
-- 
2.43.0


From 9e5dd934b39e2e800f4eaac6e60827f5f5e327fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 42/43] fix: AsInt refuses floats just beyond the largest int
 instead of wrapping them

---
 util/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/util.go b/util/util.go
index f67de4d..a2dea44 100644
--- a/util/util.go
+++ b/util/util.go
@@ -36,11 +36,11 @@ func AsInt(i any) (int, bool) {
 			return int(v), true
 		}
 	case float32:
-		if v >= float32(intMin) && v <= float32(intMax) {
+		if v >= float32(intMin) && v < -float32(intMin) {
 			return int(v), true
 		}
 	case float64:
-		if v >= float64(intMin) && v <= float64(intMax) {
+		if v >= float64(intMin) && v < -float64(intMin) {
 			return int(v), true
 		}
 	}
-- 
2.43.0


From 610d3b7a9a6d2a2466b264034f5a4824d224bcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:58 +0000
Subject: [PATCH 43/43] fix: binary messages leave the options and details they
 are given alone

---
 messages/call.go       |  8 +-------
 messages/invocation.go |  8 +-------
 messages/message.go    | 13 +++++++++++++
 messages/result.go     |  8 +-------
 messages/yield.go      |  8 +-------
 5 files changed, 17 insertions(+), 28 deletions(-)

diff --git a/messages/call.go b/messages/call.go
index 8fd924d..c502aae 100644
--- a/messages/call.go
+++ b/messages/call.go
@@ -94,15 +94,9 @@ func NewCallWithFields(fields CallFields) *Call { return &Call{CallFields: field
 
 func NewCallBinary(requestID uint64, options map[string]any, procedure string, payload []byte,
 	serializer uint64) *Call {
-	if options == nil {
-		options = make(map[string]any)
-	}
-
-	options["x_payload_serializer"] = serializer
-
 	return &Call{CallFields: &callFields{
 		requestID:  requestID,
-		options:    options,
+		options:    withPayloadSerializer(options, serializer),
 		procedure:  procedure,
 		binary:     true,
 		payload:    payload,
diff --git a/messages/invocation.go b/messages/invocation.go
index f964940..105d39f 100644
--- a/messages/invocation.go
+++ b/messages/invocation.go
@@ -101,16 +101,10 @@ func NewInvocationWithFields(fields InvocationFields) *Invocation {
 func NewInvocationBinary(requestID, registrationID uint64, details map[string]any, payload []byte,
 	serializer uint64) *Invocation {
 
-	if details == nil {
-		details = make(map[string]any)
-	}
-
-	details["x_payload_serializer"] = serializer
-
 	return &Invocation{InvocationFields: &invocationFields{
 		requestID:      requestID,
 		registrationID: registrationID,
-		details:        details,
+		details:        withPayloadSerializer(details, serializer),
 		binary:         true,
 		serializer:     serializer,
 		payload:        payload,
diff --git a/messages/message.go b/messages/message.go
index ca87ad1..3eb05ac 100644
--- a/messages/message.go
+++ b/messages/message.go
@@ -11,3 +11,16 @@ type BinaryPayload interface {
 	Payload() []byte
 	PayloadSerializer() uint64
 }
+
+// withPayloadSerializer returns the given options or details along with the serializer of the binary payload,
+// the map itself belongs to the caller, who may use it for other messages as well.
+func withPayloadSerializer(dict map[string]any, serializer uint64) map[string]any {
+	result := make(map[string]any, len(dict)+1)
+	for key, value := range dict {
+		result[key] = value
+	}
+
+	result["x_payload_serializer"] = serializer
+
+	return result
+}
diff --git a/messages/result.go b/messages/result.go
index 1b5f082..e21ec77 100644
--- a/messages/result.go
+++ b/messages/result.go
@@ -82,15 +82,9 @@ func NewResultWithFields(field ResultFields) *Result {
 }
 
 func NewResultBinary(requestID uint64, details map[string]any, payload []byte, serializer uint64) *Result {
-	if details == nil {
-		details = make(map[string]any)
-	}
-
-	details["x_payload_serializer"] = serializer
-
 	return &Result{ResultFields: &resultFields{
 		requestID:  requestID,
-		details:    details,
+		details:    withPayloadSerializer(details, serializer),
 		binary:     true,
 		serializer: serializer,
 		payload:    payload,
diff --git a/messages/yield.go b/messages/yield.go
index 88b9162..6341126 100644
--- a/messages/yield.go
+++ b/messages/yield.go
@@ -82,15 +82,9 @@ func NewYieldWithFields(fields YieldFields) *Yield {
 }
 
 func NewYieldBinary(requestID uint64, options map[string]any, payload []byte, serializer uint64) *Yield {
-	if options == nil {
-		options = make(map[string]any)
-	}
-
-	options["x_payload_serializer"] = serializer
-
 	return &Yield{YieldFields: &yieldFields{
 		requestID:  requestID,
-		options:    options,
+		options:    withPayloadSerializer(options, serializer),
 		binary:     true,
 		serializer: serializer,
 		payload:    payload,
-- 
2.43.0

