From 62d3e08fd23c6c7eb6d002980c37f311a77cebfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 01/27] fix: use the hash as challenge of the proof of
 knowledge

h.Sum appends to its argument, so SetUniformBytes got 128 bytes, refused
them (the error was ignored) and the challenge was always 0: every proof
verified for every identifier, context and key.
---
 pkg/internal/zk/schnorr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/internal/zk/schnorr.go b/pkg/internal/zk/schnorr.go
index 24470d0..dccf4c2 100644
--- a/pkg/internal/zk/schnorr.go
+++ b/pkg/internal/zk/schnorr.go
@@ -85,7 +85,7 @@ func challenge(partyID party.ID, context []byte, public, M *ristretto.Element) *
 
 	buffer := make([]byte, 64)
 	// SetUniformBytes only returns an error when the length is wrong so we're okay here
-	_, _ = S.SetUniformBytes(h.Sum(buffer))
+	_, _ = S.SetUniformBytes(h.Sum(buffer[:0]))
 	return &S
 }
 
-- 
2.43.0


From b7b91f8d87149c303eff14bc7dfdeae64b577f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 02/27] fix: accept messages of later rounds, once per sender

A message for a later round was refused as a duplicate as soon as the
sender's message of the current round had arrived, and every message was
refused before the first call of ProcessAll, so that the session could
never complete. Queued messages on the other hand were not checked for
duplicates: the last one won and the queue grew without bound.
---
 pkg/state/state.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 924fbc8..8ae1113 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -107,9 +107,14 @@ func (s *State) HandleMessage(msg *messages.Message) error {
 
 	// Check if we have already received a message from this party.
 	// exists should never be false, but you never know
-	if _, exists := s.receivedMessages[senderID]; exists {
+	if _, exists := s.receivedMessages[senderID]; exists && msg.Type == s.acceptedTypes[0] {
 		return s.wrapError(errors.New("message from this party was already received"), senderID)
 	}
+	for _, queued := range s.queue {
+		if queued.From == senderID && queued.Type == msg.Type {
+			return s.wrapError(errors.New("message from this party was already received"), senderID)
+		}
+	}
 
 	if !s.isAcceptedType(msg.Type) {
 		return s.wrapError(errors.New("message type is not accepted for this type of round"), senderID)
-- 
2.43.0


From fd62b30bc455bfdcb86e865accfcb41c1caf7baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 03/27] fix: process all rounds whose messages have already
 arrived

ProcessAll handled a single round. When the messages of the next round were
already queued, no further message arrived to trigger another call and the
session stalled.
---
 pkg/state/state.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 8ae1113..5c3b32e 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -141,6 +141,20 @@ func (s *State) ProcessAll() []*messages.Message {
 	s.mtx.Lock()
 	defer s.mtx.Unlock()
 
+	// The messages for the following rounds may already be there,
+	// so we continue as long as a round was completed.
+	var allMessages []*messages.Message
+	for {
+		roundNumber := s.roundNumber
+		allMessages = append(allMessages, s.processRound()...)
+		if s.done || s.roundNumber == roundNumber {
+			return allMessages
+		}
+	}
+}
+
+// processRound processes the current round if all its messages have been received.
+func (s *State) processRound() []*messages.Message {
 	if s.done {
 		return nil
 	}
-- 
2.43.0


From b3aee1d37daffd908142c74d8a733b6b0875da03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 04/27] fix: report messages whose content does not decode

Message.UnmarshalBinary returned nil when the content was invalid, which
left a message without content. HandleMessage accepted it and ProcessAll
dereferenced the missing content and panicked.
---
 pkg/messages/messages.go | 17 ++++++++++++++++-
 pkg/state/state.go       |  4 ++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/pkg/messages/messages.go b/pkg/messages/messages.go
index d5b6967..88b30e0 100644
--- a/pkg/messages/messages.go
+++ b/pkg/messages/messages.go
@@ -119,7 +119,22 @@ func (m *Message) UnmarshalBinary(data []byte) error {
 		return errors.New("messages.UnmarshalBinary: invalid message type")
 	}
 
-	return nil
+	return err
+}
+
+// HasContent returns true if the message carries the content its type requires.
+func (m *Message) HasContent() bool {
+	switch m.Type {
+	case MessageTypeKeyGen1:
+		return m.KeyGen1 != nil && m.KeyGen1.Proof != nil && m.KeyGen1.Commitments != nil
+	case MessageTypeKeyGen2:
+		return m.KeyGen2 != nil
+	case MessageTypeSign1:
+		return m.Sign1 != nil
+	case MessageTypeSign2:
+		return m.Sign2 != nil
+	}
+	return false
 }
 
 func (m *Message) Equal(other interface{}) bool {
diff --git a/pkg/state/state.go b/pkg/state/state.go
index 5c3b32e..2c93fb2 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -120,6 +120,10 @@ func (s *State) HandleMessage(msg *messages.Message) error {
 		return s.wrapError(errors.New("message type is not accepted for this type of round"), senderID)
 	}
 
+	if !msg.HasContent() {
+		return s.wrapError(errors.New("message does not contain any data"), senderID)
+	}
+
 	s.ackMessage()
 
 	if msg.Type == s.acceptedTypes[0] {
-- 
2.43.0


From 59d3e7f105f59f543ceb6ba76f1751afc99d5a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 05/27] fix: reject committed polynomials of degree 65535

The number of coefficients overflowed to 0 and the decoded polynomial was
empty, so that Constant() panicked.
---
 pkg/internal/polynomial/exponent.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/internal/polynomial/exponent.go b/pkg/internal/polynomial/exponent.go
index 1689224..1641359 100644
--- a/pkg/internal/polynomial/exponent.go
+++ b/pkg/internal/polynomial/exponent.go
@@ -188,6 +188,9 @@ func (p *Exponent) UnmarshalBinary(data []byte) error {
 		return err
 	}
 	coefficientCount := degree + 1
+	if coefficientCount == 0 {
+		return errors.New("degree is too large")
+	}
 	remaining := data[party.IDByteSize:]
 
 	count := len(remaining)
-- 
2.43.0


From c56a56ea532cadf473539bb588033f39a961c2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 06/27] fix: blame senders of commitments of the wrong degree

The error of Add was ignored. The sender's contribution was then missing
from the public data but not from the secret shares.
---
 pkg/frost/keygen/round1.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/frost/keygen/round1.go b/pkg/frost/keygen/round1.go
index 512f21d..a24298d 100644
--- a/pkg/frost/keygen/round1.go
+++ b/pkg/frost/keygen/round1.go
@@ -20,7 +20,9 @@ func (round *round1) ProcessMessage(msg *messages.Message) *state.Error {
 	round.Commitments[from] = msg.KeyGen1.Commitments
 
 	// Add the commitments to our own, so that we can interpolate the final polynomial
-	_ = round.CommitmentsSum.Add(msg.KeyGen1.Commitments)
+	if err := round.CommitmentsSum.Add(msg.KeyGen1.Commitments); err != nil {
+		return state.NewError(from, err)
+	}
 	return nil
 }
 
-- 
2.43.0


From 956f3e2425cf5d4ecc4d5720f976c41ba0d3ff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 07/27] fix: do not crash when key generation ends before it
 started

Polynomial and CommitmentsSum are nil until the first call of ProcessAll, so
a timeout before that crashed the process.
---
 pkg/frost/keygen/base.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/frost/keygen/base.go b/pkg/frost/keygen/base.go
index 5564bc1..f384175 100644
--- a/pkg/frost/keygen/base.go
+++ b/pkg/frost/keygen/base.go
@@ -69,8 +69,12 @@ func NewRound(selfID party.ID, partyIDs party.IDSlice, threshold party.Size) (st
 
 func (round *round0) Reset() {
 	round.Secret.Set(ristretto.NewScalar())
-	round.Polynomial.Reset()
-	round.CommitmentsSum.Reset()
+	if round.Polynomial != nil {
+		round.Polynomial.Reset()
+	}
+	if round.CommitmentsSum != nil {
+		round.CommitmentsSum.Reset()
+	}
 	for _, p := range round.Commitments {
 		p.Reset()
 	}
-- 
2.43.0


From 7459bd45b293bd7e49c2af090a8032e5f1dfa539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 08/27] fix: do not share commitments with messages

The first message returned by key generation aliased the sum of all
commitments and changed while the session went on, and the end of the
session zeroed the commitments of the messages it was given, which may have
been given to other sessions too.
---
 pkg/frost/keygen/round0.go | 2 +-
 pkg/frost/keygen/round1.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/frost/keygen/round0.go b/pkg/frost/keygen/round0.go
index 6dc4f13..f96aac7 100644
--- a/pkg/frost/keygen/round0.go
+++ b/pkg/frost/keygen/round0.go
@@ -35,7 +35,7 @@ func (round *round0) GenerateMessages() ([]*messages.Message, *state.Error) {
 	// Bonus, we overwrite the original secret which is no longer needed.
 	round.Secret.Set(round.Polynomial.Evaluate(round.SelfID().Scalar()))
 
-	msg := messages.NewKeyGen1(round.SelfID(), proof, round.CommitmentsSum)
+	msg := messages.NewKeyGen1(round.SelfID(), proof, round.CommitmentsSum.Copy())
 	return []*messages.Message{msg}, nil
 }
 
diff --git a/pkg/frost/keygen/round1.go b/pkg/frost/keygen/round1.go
index a24298d..8d29aa9 100644
--- a/pkg/frost/keygen/round1.go
+++ b/pkg/frost/keygen/round1.go
@@ -17,7 +17,7 @@ func (round *round1) ProcessMessage(msg *messages.Message) *state.Error {
 		return state.NewError(from, errors.New("ZK Schnorr failed"))
 	}
 
-	round.Commitments[from] = msg.KeyGen1.Commitments
+	round.Commitments[from] = msg.KeyGen1.Commitments.Copy()
 
 	// Add the commitments to our own, so that we can interpolate the final polynomial
 	if err := round.CommitmentsSum.Add(msg.KeyGen1.Commitments); err != nil {
-- 
2.43.0


From 2026341299b44f54ef43213317541b352b13756b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 09/27] fix: copy the message and the party list of a session

Both were kept by reference, so that a session depended on the caller not
reusing its buffers.
---
 pkg/frost/sign/base.go  | 2 +-
 pkg/state/base_round.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/frost/sign/base.go b/pkg/frost/sign/base.go
index 97f6e52..a1af8f1 100644
--- a/pkg/frost/sign/base.go
+++ b/pkg/frost/sign/base.go
@@ -58,7 +58,7 @@ func NewRound(partyIDs party.IDSlice, secret *eddsa.SecretShare, shares *eddsa.P
 
 	round := &round0{
 		BaseRound: baseRound,
-		Message:   message,
+		Message:   append([]byte(nil), message...),
 		Parties:   make(map[party.ID]*signer, partyIDs.N()),
 		GroupKey:  *shares.GroupKey,
 		Output:    &Output{},
diff --git a/pkg/state/base_round.go b/pkg/state/base_round.go
index bcdd754..d708420 100644
--- a/pkg/state/base_round.go
+++ b/pkg/state/base_round.go
@@ -18,7 +18,7 @@ func NewBaseRound(selfID party.ID, partyIDs party.IDSlice) (*BaseRound, error) {
 	}
 	return &BaseRound{
 		selfID:   selfID,
-		partyIDs: partyIDs,
+		partyIDs: partyIDs.Copy(),
 	}, nil
 }
 
-- 
2.43.0


From 4ae9d94123d5ed5038de00fe73618d3055adac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 10/27] fix: read all bytes of a random scalar

Reader.Read may return fewer bytes than asked without an error, which left
the rest of the nonce or secret zero.
---
 pkg/internal/scalar/scalar.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/internal/scalar/scalar.go b/pkg/internal/scalar/scalar.go
index 7cab383..8d6e07e 100644
--- a/pkg/internal/scalar/scalar.go
+++ b/pkg/internal/scalar/scalar.go
@@ -3,6 +3,7 @@ package scalar
 import (
 	"crypto/rand"
 	"fmt"
+	"io"
 
 	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
 )
@@ -11,7 +12,7 @@ import (
 func SetScalarRandom(s *ristretto.Scalar) *ristretto.Scalar {
 	bytes := make([]byte, 64)
 
-	_, err := rand.Reader.Read(bytes)
+	_, err := io.ReadFull(rand.Reader, bytes)
 	if err != nil {
 		panic(fmt.Errorf("edwards25519: failed to generate random Scalar: %w", err))
 	}
-- 
2.43.0


From efcf5e4c4a685119620d22255c890daf1bbeed26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 11/27] fix: data races of Err, WaitForError, IsFinished and
 the timer

They read done and err without holding the mutex, and the timer could fire
while the constructor was still storing it and filling the state.
---
 pkg/state/state.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 2c93fb2..66e0024 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -42,6 +42,10 @@ func NewBaseState(round Round, timeout time.Duration) (*State, error) {
 		doneChan:         make(chan struct{}),
 	}
 
+	// the timer may fire before it is stored
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
 	s.timer = newTimer(timeout, func() {
 		s.mtx.Lock()
 		s.reportError(NewError(0, errors.New("message timeout")))
@@ -260,6 +264,8 @@ func (s *State) Done() <-chan struct{} {
 }
 
 func (s *State) Err() error {
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
 	if s.err != nil {
 		return s.err
 	}
@@ -270,14 +276,14 @@ func (s *State) Err() error {
 // This happens either when the protocol has finished correctly,
 // or if an error has been detected.
 func (s *State) WaitForError() error {
-	if !s.done {
-		<-s.doneChan
-	}
+	<-s.doneChan
 	return s.Err()
 }
 
 // IsFinished returns true if the protocol has aborted or successfully finished.
 func (s *State) IsFinished() bool {
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
 	return s.done
 }
 
-- 
2.43.0


From 65320260416bb355f189917fd096680086de21a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 12/27] fix: do not swap round and culprit in error messages

---
 pkg/state/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 66e0024..f38e863 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -65,7 +65,7 @@ func (s *State) wrapError(err error, culprit party.ID) error {
 	if culprit == 0 {
 		return fmt.Errorf("party %d, round %d: %w", s.round.SelfID(), s.roundNumber, err)
 	}
-	return fmt.Errorf("party %d, round %d, culprit %d: %w", s.round.SelfID(), culprit, s.roundNumber, err)
+	return fmt.Errorf("party %d, round %d, culprit %d: %w", s.round.SelfID(), s.roundNumber, culprit, err)
 }
 
 // HandleMessage should be called on an unmarshalled messages.Message appropriate for the protocol execution.
-- 
2.43.0


From fdfc09f621d769d140832102e25f238fbeebb1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 13/27] fix: refuse party lists with 0, duplicates or out of
 order

Key generation accepted them and later panicked (0), hung (duplicates) or
refused messages of participants (unsorted).
---
 pkg/state/base_round.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/state/base_round.go b/pkg/state/base_round.go
index d708420..71b630f 100644
--- a/pkg/state/base_round.go
+++ b/pkg/state/base_round.go
@@ -16,6 +16,14 @@ func NewBaseRound(selfID party.ID, partyIDs party.IDSlice) (*BaseRound, error) {
 	if !partyIDs.Contains(selfID) {
 		return nil, errors.New("PartyIDs should contain selfID")
 	}
+	for i, id := range partyIDs {
+		if id == 0 {
+			return nil, errors.New("PartyIDs should not contain 0")
+		}
+		if i > 0 && partyIDs[i-1] >= id {
+			return nil, errors.New("PartyIDs should be sorted and not contain duplicates")
+		}
+	}
 	return &BaseRound{
 		selfID:   selfID,
 		partyIDs: partyIDs.Copy(),
-- 
2.43.0


From 31488097ff6065beda1a4a63725b2838cff17848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 14/27] fix: refuse damaged stored keys

Reading public data panicked when a share or the group key was missing or an
identifier was 0, and accepted thresholds after truncating them to 16 bits
(65535 passed the check against the number of parties). Secret shares with
an identifier above 65535 were silently given another one.
---
 pkg/eddsa/public.go       | 13 +++++++++++++
 pkg/eddsa/secret_share.go |  4 ++++
 2 files changed, 17 insertions(+)

diff --git a/pkg/eddsa/public.go b/pkg/eddsa/public.go
index 3bebb78..01e0036 100644
--- a/pkg/eddsa/public.go
+++ b/pkg/eddsa/public.go
@@ -3,6 +3,7 @@ package eddsa
 import (
 	"encoding/json"
 	"errors"
+	"math"
 
 	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
 	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
@@ -30,8 +31,14 @@ func NewPublic(shares map[party.ID]*ristretto.Element, threshold party.Size) (*P
 	n := len(shares)
 	IDs := make([]party.ID, 0, n)
 	for id := range shares {
+		if id == 0 || shares[id] == nil {
+			return nil, errors.New("PublicShares: missing share or invalid ID")
+		}
 		IDs = append(IDs, id)
 	}
+	if int(threshold)+1 > n {
+		return nil, errors.New("PublicShares: Threshold should be < N - 1")
+	}
 
 	set := party.NewIDSlice(IDs)
 
@@ -85,6 +92,12 @@ func (s *Public) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	if out.Threshold < 0 || out.Threshold > math.MaxUint16 {
+		return errors.New("PublicShares: invalid threshold")
+	}
+	if out.GroupKey == nil {
+		return errors.New("PublicShares: missing group key")
+	}
 	newS, err := NewPublic(out.Shares, party.Size(out.Threshold))
 	if err != nil {
 		return err
diff --git a/pkg/eddsa/secret_share.go b/pkg/eddsa/secret_share.go
index 1f7217f..dedb718 100644
--- a/pkg/eddsa/secret_share.go
+++ b/pkg/eddsa/secret_share.go
@@ -3,6 +3,7 @@ package eddsa
 import (
 	"encoding/json"
 	"errors"
+	"math"
 
 	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
 	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
@@ -75,6 +76,9 @@ func (sk *SecretShare) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &out); err != nil {
 		return err
 	}
+	if out.ID < 0 || out.ID > math.MaxUint16 {
+		return errors.New("SecretShare: invalid ID")
+	}
 	sk.ID = party.ID(out.ID)
 	if _, err := sk.Secret.SetCanonicalBytes(out.SecretShare); err != nil {
 		return err
-- 
2.43.0


From 07fd5b6244baf878adba16dd05a88521165ac2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 15/27] fix: NewPartySlice does not terminate for 65535 parties

---
 pkg/helpers/parties.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/helpers/parties.go b/pkg/helpers/parties.go
index 9685737..5ada3e0 100644
--- a/pkg/helpers/parties.go
+++ b/pkg/helpers/parties.go
@@ -13,6 +13,9 @@ func NewPartySlice(n party.Size) party.IDSlice {
 	partyIDs := make([]party.ID, 0, n)
 	for i := party.ID(1); i <= n; i++ {
 		partyIDs = append(partyIDs, i)
+		if i == n {
+			break // i++ would overflow for the largest n
+		}
 	}
 	return partyIDs
 }
-- 
2.43.0


From 311f874369978831f974ccb0304c8e7a4fdd9ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 16/27] fix: keygen does not report success when the file was
 not written

---
 cmd/keygen/keygen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/keygen/keygen.go b/cmd/keygen/keygen.go
index 0ab011e..1002863 100644
--- a/cmd/keygen/keygen.go
+++ b/cmd/keygen/keygen.go
@@ -137,7 +137,10 @@ func main() {
 
 	filename := "keygenout.json"
 
-	_ = ioutil.WriteFile(filename, jsonData, 0644)
+	if err = ioutil.WriteFile(filename, jsonData, 0644); err != nil {
+		fmt.Println(err)
+		return
+	}
 
 	fmt.Printf("Success: output written to %v\n", filename)
 }
-- 
2.43.0


From 6dfef880e60802abd78995b56832bcfd97151396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 17/27] fix: drop unprocessed messages when the session ends

After an abort they kept the secret shares sent to us reachable.
---
 pkg/state/state.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index f38e863..091ceb1 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -235,6 +235,9 @@ func (s *State) finish() {
 	}
 	s.done = true
 	s.round.Reset()
+	// unprocessed messages may contain shares meant for us
+	s.receivedMessages = nil
+	s.queue = nil
 	s.stopTimer()
 	close(s.doneChan)
 }
-- 
2.43.0


From dce1b7d54209d38baefb811b2258a954d952c898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 18/27] fix: report an incomplete keygen message as an error
 when encoding

---
 pkg/messages/messages.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/messages/messages.go b/pkg/messages/messages.go
index 88b30e0..e68d86e 100644
--- a/pkg/messages/messages.go
+++ b/pkg/messages/messages.go
@@ -31,6 +31,9 @@ func (m *Message) BytesAppend(existing []byte) (data []byte, err error) {
 	if err != nil {
 		return nil, fmt.Errorf("message.BytesAppend: %w", err)
 	}
+	if !m.HasContent() {
+		return nil, errors.New("message does not contain any data")
+	}
 
 	switch m.Type {
 	case MessageTypeKeyGen1:
@@ -56,6 +59,9 @@ func (m *Message) BytesAppend(existing []byte) (data []byte, err error) {
 
 func (m *Message) Size() int {
 	var size int
+	if !m.HasContent() {
+		return m.Header.Size()
+	}
 	switch m.Type {
 	case MessageTypeKeyGen1:
 		if m.KeyGen1 != nil {
-- 
2.43.0


From ef058e42b7f444a5445cb852ec039996c4111929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:39 +0000
Subject: [PATCH 19/27] fix: MultiScalarMult does not add to the receiver's old
 value

---
 pkg/ristretto/ristretto.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ristretto/ristretto.go b/pkg/ristretto/ristretto.go
index b4c0aee..a99cecd 100644
--- a/pkg/ristretto/ristretto.go
+++ b/pkg/ristretto/ristretto.go
@@ -373,7 +373,9 @@ func (e *Element) MultiScalarMult(s []*Scalar, p []*Element) *Element {
 	for i := range s {
 		points[i] = &p[i].r
 	}
-	e.r.MultiScalarMult(s, points)
+	// edwards25519 adds the sum to the receiver's previous value
+	sum := edwards25519.NewIdentityPoint()
+	e.r.Set(sum.MultiScalarMult(s, points))
 	return e
 }
 
-- 
2.43.0


From 331a7ea04c636c3d0e710ff706a4e3ea02069e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:11 +0000
Subject: [PATCH 20/27] fix: refuse stored key shares with ID 0

---
 pkg/eddsa/secret_share.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/eddsa/secret_share.go b/pkg/eddsa/secret_share.go
index dedb718..db9c5ab 100644
--- a/pkg/eddsa/secret_share.go
+++ b/pkg/eddsa/secret_share.go
@@ -48,6 +48,9 @@ func (sk *SecretShare) UnmarshalBinary(data []byte) error {
 	if sk.ID, err = party.FromBytes(data); err != nil {
 		return err
 	}
+	if sk.ID == 0 {
+		return errors.New("SecretShare: invalid ID")
+	}
 	data = data[party.IDByteSize:]
 
 	if _, err = sk.Secret.SetCanonicalBytes(data); err != nil {
@@ -76,7 +79,7 @@ func (sk *SecretShare) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &out); err != nil {
 		return err
 	}
-	if out.ID < 0 || out.ID > math.MaxUint16 {
+	if out.ID <= 0 || out.ID > math.MaxUint16 {
 		return errors.New("SecretShare: invalid ID")
 	}
 	sk.ID = party.ID(out.ID)
-- 
2.43.0


From c39b13fb17b67bbee97a00326e0215de3b471833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:11 +0000
Subject: [PATCH 21/27] fix: refuse stored public data without a threshold

---
 pkg/eddsa/public.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/eddsa/public.go b/pkg/eddsa/public.go
index 01e0036..3f58679 100644
--- a/pkg/eddsa/public.go
+++ b/pkg/eddsa/public.go
@@ -70,15 +70,16 @@ func computeGroupKey(partyIDs party.IDSlice, shares map[party.ID]*ristretto.Elem
 }
 
 type sharesJSON struct {
-	Threshold int                             `json:"t"`
+	Threshold *int                            `json:"t"`
 	GroupKey  *PublicKey                      `json:"groupkey"`
 	Shares    map[party.ID]*ristretto.Element `json:"shares"`
 }
 
 // MarshalJSON implements the json.Marshaler interface.
 func (s *Public) MarshalJSON() ([]byte, error) {
+	threshold := int(s.Threshold)
 	return json.Marshal(sharesJSON{
-		Threshold: int(s.Threshold),
+		Threshold: &threshold,
 		Shares:    s.Shares,
 		GroupKey:  s.GroupKey,
 	})
@@ -92,13 +93,13 @@ func (s *Public) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
-	if out.Threshold < 0 || out.Threshold > math.MaxUint16 {
+	if out.Threshold == nil || *out.Threshold < 0 || *out.Threshold > math.MaxUint16 {
 		return errors.New("PublicShares: invalid threshold")
 	}
 	if out.GroupKey == nil {
 		return errors.New("PublicShares: missing group key")
 	}
-	newS, err := NewPublic(out.Shares, party.Size(out.Threshold))
+	newS, err := NewPublic(out.Shares, party.Size(*out.Threshold))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From f7eb56b0dccb25c8e5b752979bf6f797b6b12751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:11 +0000
Subject: [PATCH 22/27] fix: refuse null as a stored group key

---
 pkg/eddsa/public_key.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/eddsa/public_key.go b/pkg/eddsa/public_key.go
index 87d9816..ce6c90c 100644
--- a/pkg/eddsa/public_key.go
+++ b/pkg/eddsa/public_key.go
@@ -3,6 +3,7 @@ package eddsa
 import (
 	"crypto/ed25519"
 	"encoding/json"
+	"errors"
 
 	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
 )
@@ -47,5 +48,13 @@ func (pk PublicKey) MarshalJSON() ([]byte, error) {
 
 // UnmarshalJSON implements the json.Unmarshaler interface.
 func (pk *PublicKey) UnmarshalJSON(data []byte) error {
-	return json.Unmarshal(data, &pk.pk)
+	var public *ristretto.Element
+	if err := json.Unmarshal(data, &public); err != nil {
+		return err
+	}
+	if public == nil {
+		return errors.New("PublicKey: missing key")
+	}
+	pk.pk.Set(public)
+	return nil
 }
-- 
2.43.0


From e0830d061970475a206337b8136db5226d4ba576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:04 +0000
Subject: [PATCH 23/27] fix: a timeout overtaken by an accepted message does
 not abort the session

The timer may have fired while its function is still waiting for the lock.
A message accepted meanwhile restarts the time, but Stop could no longer
prevent the pending expiration, which then aborted the session although a
message had just been accepted. Such expirations are now counted and ignored.
---
 pkg/state/state.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 091ceb1..7732a6f 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -48,7 +48,9 @@ func NewBaseState(round Round, timeout time.Duration) (*State, error) {
 
 	s.timer = newTimer(timeout, func() {
 		s.mtx.Lock()
-		s.reportError(NewError(0, errors.New("message timeout")))
+		if s.expired() {
+			s.reportError(NewError(0, errors.New("message timeout")))
+		}
 		s.mtx.Unlock()
 	})
 
@@ -297,6 +299,9 @@ func (s *State) IsFinished() bool {
 type timer struct {
 	t *time.Timer
 	d time.Duration
+
+	// stale counts the expirations that were overtaken by an accepted message
+	stale int
 }
 
 func newTimer(d time.Duration, f func()) timer {
@@ -312,11 +317,23 @@ func newTimer(d time.Duration, f func()) timer {
 
 func (t *timer) ackMessage() {
 	if t.t != nil {
-		t.t.Stop()
+		if !t.t.Stop() {
+			// the timer has already fired, but its function is still waiting for the lock
+			t.stale++
+		}
 		t.t.Reset(t.d)
 	}
 }
 
+// expired reports whether an expiration of the timer counts.
+func (t *timer) expired() bool {
+	if t.stale > 0 {
+		t.stale--
+		return false
+	}
+	return true
+}
+
 func (t *timer) stopTimer() {
 	if t.t != nil {
 		t.t.Stop()
-- 
2.43.0


From d97561e062ed268f71cd7e68c1ba8cdecf7ed2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 24/27] fix: keygen refuses a threshold that is not positive

---
 cmd/keygen/keygen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/keygen/keygen.go b/cmd/keygen/keygen.go
index 1002863..2800b77 100644
--- a/cmd/keygen/keygen.go
+++ b/cmd/keygen/keygen.go
@@ -45,7 +45,7 @@ func main() {
 		usage()
 		return
 	}
-	if (n > maxN) || (t >= n) {
+	if (n > maxN) || (t <= 0) || (t >= n) {
 		usage()
 		return
 	}
-- 
2.43.0


From c405a88894801a3921b27138af66202fad228c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 25/27] fix: the command-line tools exit with status 1 when
 they fail

---
 cmd/keygen/keygen.go | 24 ++++++++++++------------
 cmd/signer/signer.go | 26 ++++++++++++++++----------
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/cmd/keygen/keygen.go b/cmd/keygen/keygen.go
index 2800b77..5433f82 100644
--- a/cmd/keygen/keygen.go
+++ b/cmd/keygen/keygen.go
@@ -26,7 +26,7 @@ func usage() {
 func main() {
 	if len(os.Args) != 3 {
 		usage()
-		return
+		os.Exit(1)
 	}
 
 	var err error
@@ -37,17 +37,17 @@ func main() {
 	if err != nil {
 		fmt.Println(err)
 		usage()
-		return
+		os.Exit(1)
 	}
 	n, err = strconv.Atoi(os.Args[2])
 	if err != nil {
 		fmt.Println(err)
 		usage()
-		return
+		os.Exit(1)
 	}
 	if (n > maxN) || (t <= 0) || (t >= n) {
 		usage()
-		return
+		os.Exit(1)
 	}
 
 	partyIDs := helpers.GenerateSet(party.ID(n))
@@ -61,7 +61,7 @@ func main() {
 		states[id], outputs[id], err = frost.NewKeygenState(id, partyIDs, party.Size(t), 0)
 		if err != nil {
 			fmt.Println(err)
-			return
+			os.Exit(1)
 		}
 	}
 
@@ -72,7 +72,7 @@ func main() {
 		msgs1, err := helpers.PartyRoutine(nil, s)
 		if err != nil {
 			fmt.Println(err)
-			return
+			os.Exit(1)
 		}
 		msgsOut1 = append(msgsOut1, msgs1...)
 	}
@@ -81,7 +81,7 @@ func main() {
 		msgs2, err := helpers.PartyRoutine(msgsOut1, s)
 		if err != nil {
 			fmt.Println(err)
-			return
+			os.Exit(1)
 		}
 		msgsOut2 = append(msgsOut2, msgs2...)
 	}
@@ -90,7 +90,7 @@ func main() {
 		_, err := helpers.PartyRoutine(msgsOut2, s)
 		if err != nil {
 			fmt.Println(err)
-			return
+			os.Exit(1)
 		}
 	}
 
@@ -99,7 +99,7 @@ func main() {
 	id0 := partyIDs[0]
 	if err = states[id0].WaitForError(); err != nil {
 		fmt.Println(err)
-		return
+		os.Exit(1)
 	}
 	public := outputs[id0].Public
 	secrets := make(map[party.ID]*eddsa.SecretShare, n)
@@ -109,7 +109,7 @@ func main() {
 	for _, id := range partyIDs {
 		if err := states[id].WaitForError(); err != nil {
 			fmt.Println(err)
-			return
+			os.Exit(1)
 		}
 		shareSecret := outputs[id].SecretKey
 		sharePublic := public.Shares[id]
@@ -132,14 +132,14 @@ func main() {
 	jsonData, err = json.MarshalIndent(kgOutput, "", " ")
 	if err != nil {
 		fmt.Println(err)
-		return
+		os.Exit(1)
 	}
 
 	filename := "keygenout.json"
 
 	if err = ioutil.WriteFile(filename, jsonData, 0644); err != nil {
 		fmt.Println(err)
-		return
+		os.Exit(1)
 	}
 
 	fmt.Printf("Success: output written to %v\n", filename)
diff --git a/cmd/signer/signer.go b/cmd/signer/signer.go
index 2bf688c..b8eb8dc 100644
--- a/cmd/signer/signer.go
+++ b/cmd/signer/signer.go
@@ -25,7 +25,7 @@ func main() {
 
 	if len(os.Args) != 3 {
 		usage()
-		return
+		os.Exit(1)
 	}
 
 	filename := os.Args[1]
@@ -44,13 +44,18 @@ func main() {
 	jsonData, err = ioutil.ReadFile(filename)
 	if err != nil {
 		fmt.Println(err)
-		return
+		os.Exit(1)
 	}
 
 	err = json.Unmarshal(jsonData, &kgOutput)
 	if err != nil {
 		fmt.Println(err)
-		return
+		os.Exit(1)
+	}
+
+	if kgOutput.Shares == nil {
+		fmt.Println("missing public shares")
+		os.Exit(1)
 	}
 
 	// get n and t from the keygen output
@@ -76,7 +81,8 @@ func main() {
 	for _, id := range partyIDs {
 		states[id], outputs[id], err = frost.NewSignState(partyIDs, secretShares[id], publicShares, message, 0)
 		if err != nil {
-			fmt.Println()
+			fmt.Println(err)
+			os.Exit(1)
 		}
 	}
 
@@ -86,7 +92,7 @@ func main() {
 		msgs1, err := helpers.PartyRoutine(nil, s)
 		if err != nil {
 			fmt.Println(err)
-			return
+			os.Exit(1)
 		}
 		msgsOut1 = append(msgsOut1, msgs1...)
 	}
@@ -95,7 +101,7 @@ func main() {
 		msgs2, err := helpers.PartyRoutine(msgsOut1, s)
 		if err != nil {
 			fmt.Println(err)
-			return
+			os.Exit(1)
 		}
 		msgsOut2 = append(msgsOut2, msgs2...)
 	}
@@ -104,7 +110,7 @@ func main() {
 		_, err := helpers.PartyRoutine(msgsOut2, s)
 		if err != nil {
 			fmt.Println(err)
-			return
+			os.Exit(1)
 		}
 	}
 
@@ -112,17 +118,17 @@ func main() {
 	sig := outputs[id0].Signature
 	if sig == nil {
 		fmt.Println("null signature")
-		return
+		os.Exit(1)
 	}
 
 	if !ed25519.Verify(pk.ToEd25519(), message, sig.ToEd25519()) {
 		fmt.Println("signature verification failed (ed25519)")
-		return
+		os.Exit(1)
 	}
 
 	if !pk.Verify(message, sig) {
 		fmt.Println("signature verification failed")
-		return
+		os.Exit(1)
 	}
 
 	fmt.Printf("Success: signature is\nr: %x\ns: %x\n", sig.R.Bytes(), sig.S.Bytes())
-- 
2.43.0


From 73ffdbcc11f0ad5aa1297a5403f85a71f43655b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 26/27] fix: signer prints the signature in the Ed25519 form it
 verified

---
 cmd/signer/signer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/signer/signer.go b/cmd/signer/signer.go
index b8eb8dc..faa8497 100644
--- a/cmd/signer/signer.go
+++ b/cmd/signer/signer.go
@@ -131,5 +131,5 @@ func main() {
 		os.Exit(1)
 	}
 
-	fmt.Printf("Success: signature is\nr: %x\ns: %x\n", sig.R.Bytes(), sig.S.Bytes())
+	fmt.Printf("Success: signature is\nr: %x\ns: %x\n", sig.R.BytesEd25519(), sig.S.Bytes())
 }
-- 
2.43.0


From f47b4ad84c50b2f498cab0b99906af977cfe812d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:11 +0000
Subject: [PATCH 27/27] fix: refuse missing key material when creating a
 signing session

---
 pkg/frost/sign/base.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/frost/sign/base.go b/pkg/frost/sign/base.go
index a1af8f1..ebc4d9a 100644
--- a/pkg/frost/sign/base.go
+++ b/pkg/frost/sign/base.go
@@ -44,6 +44,9 @@ type (
 )
 
 func NewRound(partyIDs party.IDSlice, secret *eddsa.SecretShare, shares *eddsa.Public, message []byte) (state.Round, *Output, error) {
+	if secret == nil || shares == nil || shares.GroupKey == nil {
+		return nil, nil, errors.New("base.NewRound: SecretShare or public shares are missing")
+	}
 	if !partyIDs.Contains(secret.ID) {
 		return nil, nil, errors.New("base.NewRound: owner of SecretShare is not contained in partyIDs")
 	}
@@ -71,6 +74,9 @@ func NewRound(partyIDs party.IDSlice, secret *eddsa.SecretShare, shares *eddsa.P
 			return nil, nil, errors.New("base.NewRound: id 0 is not valid")
 		}
 		originalShare := shares.Shares[id]
+		if originalShare == nil {
+			return nil, nil, fmt.Errorf("base.NewRound: public share of party %d is missing", id)
+		}
 		lagrange, err := id.Lagrange(partyIDs)
 		if err != nil {
 			return nil, nil, fmt.Errorf("base.NewRound: %w", err)
-- 
2.43.0

