From f61b24bb91236bb048aea71c553c45d882c99630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:28 +0000
Subject: [PATCH 01/21] fix: encode metadata maps in a fixed order

The encoder followed Go's random map iteration order, so the auxiliary data
hash, the transaction hash that was signed and the bytes that were sent could
all disagree for the same transaction.
---
 tx/tx.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/tx/tx.go b/tx/tx.go
index ca4d583..dc72ac0 100644
--- a/tx/tx.go
+++ b/tx/tx.go
@@ -9,6 +9,16 @@ import (
 	"golang.org/x/crypto/blake2b"
 )
 
+// encMode encodes maps with sorted keys, so that the same content always has the
+// same bytes and hash.
+var encMode = func() cbor.EncMode {
+	em, err := cbor.EncOptions{Sort: cbor.SortCanonical}.EncMode()
+	if err != nil {
+		panic(err)
+	}
+	return em
+}()
+
 type Tx struct {
 	_        struct{} `cbor:",toarray"`
 	Body     *TxBody
@@ -31,7 +41,7 @@ func (t *Tx) Bytes() ([]byte, error) {
 	if err := t.CalculateAuxiliaryDataHash(); err != nil {
 		return nil, err
 	}
-	bytes, err := cbor.Marshal(t)
+	bytes, err := encMode.Marshal(t)
 	return bytes, err
 }
 
@@ -49,7 +59,7 @@ func (t *Tx) Hash() ([32]byte, error) {
 	if err := t.CalculateAuxiliaryDataHash(); err != nil {
 		return [32]byte{}, err
 	}
-	txBody, err := cbor.Marshal(t.Body)
+	txBody, err := encMode.Marshal(t.Body)
 	if err != nil {
 		var bt [32]byte
 		return bt, err
@@ -65,7 +75,7 @@ func (t *Tx) Fee(lfee *fees.LinearFee) (uint, error) {
 	if err := t.CalculateAuxiliaryDataHash(); err != nil {
 		return 0, err
 	}
-	txCbor, err := cbor.Marshal(t)
+	txCbor, err := encMode.Marshal(t)
 	if err != nil {
 		return 0, err
 	}
@@ -82,7 +92,7 @@ func (t *Tx) SetFee(fee uint) {
 
 func (t *Tx) CalculateAuxiliaryDataHash() error {
 	if t.Metadata != nil {
-		mdBytes, err := cbor.Marshal(&t.Metadata)
+		mdBytes, err := encMode.Marshal(&t.Metadata)
 		if err != nil {
 			return fmt.Errorf("cannot serialize metadata: %w", err)
 		}
-- 
2.43.0


From ca72216fbda3e02f475d73a22f82951fc0c605ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:28 +0000
Subject: [PATCH 02/21] fix: drop the auxiliary data hash when metadata is
 removed

---
 tx/tx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tx/tx.go b/tx/tx.go
index dc72ac0..fda6396 100644
--- a/tx/tx.go
+++ b/tx/tx.go
@@ -91,6 +91,7 @@ func (t *Tx) SetFee(fee uint) {
 }
 
 func (t *Tx) CalculateAuxiliaryDataHash() error {
+	t.Body.AuxiliaryDataHash = nil
 	if t.Metadata != nil {
 		mdBytes, err := encMode.Marshal(&t.Metadata)
 		if err != nil {
-- 
2.43.0


From f2a821c19ca5511d9c43727e66fe45f1c196dc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:28 +0000
Subject: [PATCH 03/21] fix: return an independent transaction from Build

The returned value shared its body with the builder, so later calls on the
builder changed a transaction that had already been signed.
---
 tx/tx.go         | 24 ++++++++++++++++++++++++
 tx/tx_builder.go |  2 +-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/tx/tx.go b/tx/tx.go
index fda6396..56691dd 100644
--- a/tx/tx.go
+++ b/tx/tx.go
@@ -36,6 +36,30 @@ func NewTx() *Tx {
 	}
 }
 
+// copy returns a transaction that shares no inputs, outputs or witnesses with t.
+func (t *Tx) copy() Tx {
+	c := *t
+	body := *t.Body
+	c.Body = &body
+	body.Inputs = make([]*TxInput, 0, len(t.Body.Inputs))
+	for _, in := range t.Body.Inputs {
+		input := *in
+		body.Inputs = append(body.Inputs, &input)
+	}
+	body.Outputs = make([]*TxOutput, 0, len(t.Body.Outputs))
+	for _, out := range t.Body.Outputs {
+		output := *out
+		body.Outputs = append(body.Outputs, &output)
+	}
+	keys := make([]*VKeyWitness, 0, len(t.Witness.Keys))
+	for _, key := range t.Witness.Keys {
+		witness := *key
+		keys = append(keys, &witness)
+	}
+	c.Witness = NewTXWitness(keys...)
+	return c
+}
+
 // Bytes returns a slice of cbor marshalled bytes
 func (t *Tx) Bytes() ([]byte, error) {
 	if err := t.CalculateAuxiliaryDataHash(); err != nil {
diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 0293270..6123c41 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -38,7 +38,7 @@ func (tb *TxBuilder) Build() (tx Tx, err error) {
 		txKeys...,
 	)
 
-	return *tb.tx, nil
+	return tb.tx.copy(), nil
 }
 
 // Tx returns a pointer to the transaction
-- 
2.43.0


From 90caae83b8ef8a1282af2af7cb4ea6e357d99832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:28 +0000
Subject: [PATCH 04/21] fix: give each builder its own list of signing keys

Sign appended to the caller's slice, so two builders made from the same slice
could overwrite each other's keys.
---
 tx/tx_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 6123c41..77d02cc 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -130,7 +130,7 @@ func (tb *TxBuilder) AddOutputs(outputs ...*TxOutput) {
 func NewTxBuilder(pr protocol.Protocol, xprvs []bip32.XPrv) *TxBuilder {
 	return &TxBuilder{
 		tx:       NewTx(),
-		xprvs:    xprvs,
+		xprvs:    append([]bip32.XPrv{}, xprvs...),
 		protocol: pr,
 	}
 }
-- 
2.43.0


From fb38bfe158759b37a6d35889036ebf85d7dbf22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:24 +0000
Subject: [PATCH 05/21] fix: fund fee and change from what the inputs hold

AddChangeIfNeeded computed the fee for one witness, for a change amount that
could wrap around and for the test address instead of the real change address,
and added a wrapped change output when the inputs did not cover the outputs.
The fee is now computed for the finished transaction, with one witness per
signing key, and change is added only if the inputs pay for it.
---
 tx/tx_builder.go | 78 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 51 insertions(+), 27 deletions(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 77d02cc..67286da 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -49,16 +49,24 @@ func (tb *TxBuilder) Tx() (tx *Tx) {
 // AddChangeIfNeeded calculates the excess change from UTXO inputs - outputs and adds it to the transaction body.
 func (tb *TxBuilder) AddChangeIfNeeded(addr address.Address) {
 	// change is amount in utxo minus outputs minus fee
-	tb.tx.SetFee(tb.MinFee())
-	totalI, totalO := tb.getTotalInputOutputs()
-
-	change := totalI - totalO - uint(tb.tx.Body.Fee)
-	tb.tx.AddOutputs(
-		NewTxOutput(
-			addr,
-			change,
-		),
-	)
+	tb.tx.SetFee(0)
+	fee := tb.minFee(nil)
+	excess, ok := tb.getExcess()
+	if ok && excess >= fee {
+		change := NewTxOutput(addr, excess)
+		if feeWithChange := tb.minFee(change); excess > feeWithChange {
+			change.Amount = excess - feeWithChange
+			tb.tx.AddOutputs(change)
+			fee = feeWithChange
+		} else {
+			// what is left does not pay for an output of its own
+			tb.tx.SetFee(excess)
+			if fee = tb.minFee(nil); fee < excess {
+				fee = excess
+			}
+		}
+	}
+	tb.tx.SetFee(fee)
 }
 
 // SetTTL sets the time to live for the transaction.
@@ -66,32 +74,51 @@ func (tb *TxBuilder) SetTTL(ttl uint32) {
 	tb.tx.Body.TTL = ttl
 }
 
-func (tb TxBuilder) getTotalInputOutputs() (inputs, outputs uint) {
+// getExcess returns the amount by which the inputs exceed the outputs. ok is false if
+// the inputs do not cover the outputs.
+func (tb TxBuilder) getExcess() (excess uint, ok bool) {
 	for _, inp := range tb.tx.Body.Inputs {
-		inputs += inp.Amount
+		excess += inp.Amount
 	}
 	for _, out := range tb.tx.Body.Outputs {
-		outputs += uint(out.Amount)
+		if out.Amount > excess {
+			return 0, false
+		}
+		excess -= out.Amount
 	}
 
-	return
+	return excess, true
 }
 
 // MinFee calculates the minimum fee for the provided transaction.
 func (tb TxBuilder) MinFee() (fee uint) {
+	excess, ok := tb.getExcess()
+
+	if ok && excess != 0 {
+		inner_addr, _ := address.NewAddress("addr_test1qqe6zztejhz5hq0xghlf72resflc4t2gmu9xjlf73x8dpf88d78zlt4rng3ccw8g5vvnkyrvt96mug06l5eskxh8rcjq2wyd63")
+
+		return tb.minFee(NewTxOutput(inner_addr, excess))
+	}
+
+	return tb.minFee(nil)
+}
+
+// minFee calculates the minimum fee for the transaction once it is signed and, unless
+// change is nil, has the change output added.
+func (tb TxBuilder) minFee(change *TxOutput) (fee uint) {
 	feeTx := Tx{
 		Body: &TxBody{
 			Inputs:  tb.tx.Body.Inputs,
-			Outputs: tb.tx.Body.Outputs,
+			Outputs: append([]*TxOutput{}, tb.tx.Body.Outputs...),
 			Fee:     tb.tx.Body.Fee,
 			TTL:     tb.tx.Body.TTL,
 		},
-		Witness:  tb.tx.Witness,
+		Witness:  NewTXWitness(),
 		Valid:    true,
 		Metadata: tb.tx.Metadata,
 	}
 	feeTx.CalculateAuxiliaryDataHash()
-	if len(feeTx.Witness.Keys) == 0 {
+	for len(feeTx.Witness.Keys) == 0 || len(feeTx.Witness.Keys) < len(tb.xprvs) {
 		vWitness := NewVKeyWitness(
 			make([]byte, 32),
 			make([]byte, 64),
@@ -99,19 +126,16 @@ func (tb TxBuilder) MinFee() (fee uint) {
 		feeTx.Witness.Keys = append(feeTx.Witness.Keys, vWitness)
 	}
 
-	totalI, totalO := tb.getTotalInputOutputs()
-
-	if totalI != (totalO) {
-		inner_addr, _ := address.NewAddress("addr_test1qqe6zztejhz5hq0xghlf72resflc4t2gmu9xjlf73x8dpf88d78zlt4rng3ccw8g5vvnkyrvt96mug06l5eskxh8rcjq2wyd63")
-
-		feeTx.Body.Outputs = append(feeTx.Body.Outputs, NewTxOutput(inner_addr, (totalI-totalO-200000)))
-
+	if change != nil {
+		feeTx.Body.Outputs = append(feeTx.Body.Outputs, change)
 	}
 	lfee := fees.NewLinearFee(tb.protocol.TxFeePerByte, tb.protocol.TxFeeFixed)
-	// The fee may have increased enough to increase the number of bytes, so do one more pass
-	fee, _ = feeTx.Fee(lfee)
-	feeTx.Body.Fee = uint64(fee)
 	fee, _ = feeTx.Fee(lfee)
+	// The fee may have increased enough to increase the number of bytes, so repeat until it fits
+	for uint64(fee) > feeTx.Body.Fee {
+		feeTx.Body.Fee = uint64(fee)
+		fee, _ = feeTx.Fee(lfee)
+	}
 
 	return
 }
-- 
2.43.0


From 41546ab465e2267d98417140a235e59d9579b0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:02 +0000
Subject: [PATCH 06/21] fix: encode the bytes of a reward address

MarshalCBOR passed the method value instead of calling it and always failed.
---
 address/reward.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/reward.go b/address/reward.go
index 3d43b08..68c01e3 100644
--- a/address/reward.go
+++ b/address/reward.go
@@ -30,7 +30,7 @@ func (r *RewardAddress) String() string {
 
 // MarshalCBOR returns a cbor encoded byte slice of the base address.
 func (r *RewardAddress) MarshalCBOR() ([]byte, error) {
-	return cbor.Marshal(r.Bytes)
+	return cbor.Marshal(r.Bytes())
 }
 
 // NetworkInfo returns pointer to NetworkInfo{ProtocolMagigic and NetworkId}.
-- 
2.43.0


From 56b7e8db1fc5bd03af9ec2c761a89fe6ece8b983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:04 +0000
Subject: [PATCH 07/21] fix: encode byron addresses as a byte string in outputs

The ledger takes every output address as a byte string; a Byron address was
written as a bare array, so such an output could not be submitted.
---
 address/byron.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/address/byron.go b/address/byron.go
index a315579..e78a89a 100644
--- a/address/byron.go
+++ b/address/byron.go
@@ -27,7 +27,14 @@ type ByronAddress struct {
 
 // Bytes returns byte slice represantation of the Address.
 func (b *ByronAddress) Bytes() (bytes []byte) {
-	bytes, _ = b.MarshalCBOR()
+	raw, err := cbor.Marshal([]interface{}{b.Hash, b.Attributes, b.Tag})
+	if err != nil {
+		return nil
+	}
+	bytes, _ = cbor.Marshal([]interface{}{
+		cbor.Tag{Number: 24, Content: raw},
+		uint64(crc32.ChecksumIEEE(raw)),
+	})
 	return bytes
 }
 
@@ -46,14 +53,7 @@ func (b *ByronAddress) NetworkInfo() (ni *network.NetworkInfo) {
 
 // MarshalCBOR returns a cbor encoded byte slice of the base address.
 func (b *ByronAddress) MarshalCBOR() (bytes []byte, err error) {
-	raw, err := cbor.Marshal([]interface{}{b.Hash, b.Attributes, b.Tag})
-	if err != nil {
-		return nil, err
-	}
-	return cbor.Marshal([]interface{}{
-		cbor.Tag{Number: 24, Content: raw},
-		uint64(crc32.ChecksumIEEE(raw)),
-	})
+	return cbor.Marshal(b.Bytes())
 }
 
 // UnmarshalCBOR deserializes raw byron address, encoded in cbor, into a Byron Address.
@@ -66,6 +66,15 @@ func (b *ByronAddress) UnmarshalCBOR(data []byte) error {
 
 	var rawAddr RawAddr
 
+	// 010: byte string holding the address, as written by MarshalCBOR
+	if len(data) > 0 && data[0]>>5 == 0b010 {
+		var inner []byte
+		if err := cbor.Unmarshal(data, &inner); err != nil {
+			return err
+		}
+		data = inner
+	}
+
 	if err := cbor.Unmarshal(data, &rawAddr); err != nil {
 		return err
 	}
-- 
2.43.0


From 17e37525a7df229e15d4024659d9f8e66a6f17f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:05 +0000
Subject: [PATCH 08/21] fix: read byron addresses completely or refuse them

The network attribute is a byte string, so test network addresses could not be
read. Other attributes and encodings were dropped silently, which yields a
different address.
---
 address/byron.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/address/byron.go b/address/byron.go
index e78a89a..d1f45e0 100644
--- a/address/byron.go
+++ b/address/byron.go
@@ -1,6 +1,7 @@
 package address
 
 import (
+	"bytes"
 	"errors"
 	"hash/crc32"
 
@@ -16,7 +17,7 @@ var (
 
 type ByronAddressAttributes struct {
 	Payload []byte `cbor:"1,keyasint,omitempty"`
-	Network *uint8 `cbor:"2,keyasint,omitempty"`
+	Network []byte `cbor:"2,keyasint,omitempty"`
 }
 
 type ByronAddress struct {
@@ -104,11 +105,16 @@ func (b *ByronAddress) UnmarshalCBOR(data []byte) error {
 		return errors.New("")
 	}
 
-	*b = ByronAddress{
+	addr := ByronAddress{
 		Hash:       byron.Hashed,
 		Attributes: byron.Attrs,
 		Tag:        byron.Tag,
 	}
+	if !bytes.Equal(addr.Bytes(), data) {
+		// attributes or encodings that would be lost
+		return ErrInvalidByronAddress
+	}
+	*b = addr
 
 	return nil
 }
-- 
2.43.0


From 13be0bd8ca652f0e58d84e1d1f9ab8a51f6b8d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:07 +0000
Subject: [PATCH 09/21] fix: print pointer addresses

String passed eight-bit data to a five-bit bech32 encoder and returned an empty
string. The prefix follows the network id as for the other kinds.
---
 address/pointer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/address/pointer.go b/address/pointer.go
index 969a300..84e249d 100644
--- a/address/pointer.go
+++ b/address/pointer.go
@@ -4,7 +4,7 @@ import (
 	"errors"
 	"reflect"
 
-	"github.com/btcsuite/btcutil/bech32"
+	"github.com/fivebinaries/go-cardano-serialization/internal/bech32"
 	"github.com/fivebinaries/go-cardano-serialization/network"
 	"github.com/fxamacker/cbor/v2"
 )
@@ -82,7 +82,7 @@ func (p *PointerAddress) String() string {
 
 // Prefix returns the string prefix for the base address. Prefix `addr` for mainnet addresses and `addr_test` for testnet.
 func (p *PointerAddress) Prefix() string {
-	if p.Network == *network.TestNet() {
+	if p.Network.NetworkId == network.TestNet().NetworkId {
 		return "addr_test"
 	}
 	return "addr"
-- 
2.43.0


From 25ee3ff90161fc39e307e7bdee161c70b5089125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:08 +0000
Subject: [PATCH 10/21] fix: refuse damaged address bytes

Empty and truncated data panicked, trailing bytes of a base address, unknown
network ids and pointers beyond 64 bits were accepted as a different address.
---
 address/address.go | 14 ++++++++++++++
 address/pointer.go |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/address/address.go b/address/address.go
index f438de8..9b948e1 100644
--- a/address/address.go
+++ b/address/address.go
@@ -55,6 +55,9 @@ func NewAddressFromHex(hexAddr string) (addr Address, err error) {
 }
 
 func NewAddressFromBytes(data []byte) (addr Address, err error) {
+	if len(data) == 0 {
+		return nil, ErrUnsupportedAddress
+	}
 	header := data[0]
 	netId := header & 0x0F
 
@@ -63,6 +66,10 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 		byte(0): *network.TestNet(),
 	}
 
+	if _, ok := networks[netId]; !ok && header>>4 != 0b1000 {
+		return nil, ErrUnsupportedAddress
+	}
+
 	switch (header & 0xF0) >> 4 {
 	// 1000: byron address
 	case 0b1000:
@@ -80,6 +87,13 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 	// 0010: base address: keyhash28,scripthash28
 	// 0011: base address: scripthash28,scripthash28
 	case 0b0000, 0b0001, 0b0010, 0b0011:
+		const baseAddrSize = 1 + 28 + 28
+		if len(data) < baseAddrSize {
+			return nil, errors.New("cbor not enough error")
+		}
+		if len(data) > baseAddrSize {
+			return nil, errors.New("cbor trailing data error")
+		}
 		baseAddr := BaseAddress{
 			Network: networks[netId],
 			Payment: *readAddrCred(data, header, 4, 1),
diff --git a/address/pointer.go b/address/pointer.go
index 84e249d..902e1d1 100644
--- a/address/pointer.go
+++ b/address/pointer.go
@@ -39,6 +39,9 @@ func VariableNatDecode(raw []byte) (uint64, int, error) {
 	output = 0
 	bytes_read := 0
 	for _, rbyte := range raw {
+		if output>>57 != 0 {
+			return 0, 0, errors.New("number out of range")
+		}
 		output = (output << 7) | uint64(rbyte&0x7F)
 		bytes_read += 1
 		if (rbyte & 0x80) == 0 {
-- 
2.43.0


From d6926fc4db92d6b914e2021ddd11509e99b6e451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:10 +0000
Subject: [PATCH 11/21] fix: copy credentials out of the receive buffer

---
 address/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index 9b948e1..3b23376 100644
--- a/address/address.go
+++ b/address/address.go
@@ -167,7 +167,7 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 }
 
 func readAddrCred(data []byte, header byte, bit byte, pos int) *StakeCredential {
-	hashBytes := data[pos : pos+28]
+	hashBytes := append([]byte{}, data[pos:pos+28]...)
 
 	if header&(1<<bit) == 0 {
 		return NewKeyStakeCredential(
-- 
2.43.0


From 7108ff6b46e64a62c4d551e79d72f2d81df40a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:44 +0000
Subject: [PATCH 12/21] fix: fetch all pages of unspent outputs from blockfrost

Only the first hundred unspent outputs of an address were returned.
---
 node/blockfrost.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 9b89d3f..7998ed0 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -34,13 +34,18 @@ func (b *blockfrostNode) getNetwork() (serverUrl string) {
 
 // UTXOs queries the network for Unspent Transaction Outputs belonging to an address.
 func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err error) {
-	utxos, err := b.client.AddressUTXOs(
-		context.TODO(),
-		addr.String(),
-		blockfrost.APIQueryParams{},
-	)
-	if err != nil {
-		return
+	const pageSize = 100
+	var utxos []blockfrost.AddressUTXO
+	for page := 1; len(utxos) == (page-1)*pageSize; page++ {
+		part, err := b.client.AddressUTXOs(
+			context.TODO(),
+			addr.String(),
+			blockfrost.APIQueryParams{Count: pageSize, Page: page},
+		)
+		if err != nil {
+			return nil, err
+		}
+		utxos = append(utxos, part...)
 	}
 
 	for _, utxo := range utxos {
-- 
2.43.0


From a0dbe3d8961ec23497d4e9953fe696207359bad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:46 +0000
Subject: [PATCH 13/21] fix: return the transaction id from blockfrost
 submissions

The id was returned with the quotes of its JSON encoding, a 200 answer that is
not the id of the transaction (an error page, a cut answer) was reported as
success, an error page was returned as the id, and the body was never closed.
---
 node/blockfrost.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 7998ed0..4c0cd04 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -3,6 +3,8 @@ package node
 import (
 	"bytes"
 	"context"
+	"encoding/hex"
+	"encoding/json"
 	"errors"
 	"fmt"
 	"io/ioutil"
@@ -117,16 +119,30 @@ func (b *blockfrostNode) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 		return
 	}
 
+	defer res.Body.Close()
+
 	resb, err := ioutil.ReadAll(res.Body)
 	if err != nil {
 		return "", err
 	}
 
 	if res.StatusCode != 200 {
-		err = errors.New(string(resb))
+		return "", errors.New(string(resb))
+	}
+
+	if err = json.Unmarshal(resb, &txHash); err != nil {
+		return "", err
+	}
+
+	hash, err := txFinal.Hash()
+	if err != nil {
+		return "", err
+	}
+	if txHash != hex.EncodeToString(hash[:]) {
+		return "", errors.New("unexpected response from server: " + string(resb))
 	}
 
-	return string(resb), err
+	return txHash, nil
 }
 
 // NewBlockfrostClient returns a wrapper for the blockfrost API/SDK with Node interface
-- 
2.43.0


From 3274d4c1695c6757b5e67cc319195edb9d84ac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:47 +0000
Subject: [PATCH 14/21] fix: pass the network to cardano-cli

The flags for the main and test networks were swapped, and the test network
flag and its value were passed as a single argument.
---
 node/cardano-cli.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index f93dcdc..6706d80 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -23,15 +23,15 @@ type cardanoCli struct {
 
 func (cli *cardanoCli) execCommand(args ...string) (data []byte, err error) {
 	buf := &bytes.Buffer{}
-	var cmdSuffix string
+	var cmdSuffix []string
 
 	if cli.network.NetworkId == 0 {
-		cmdSuffix = "--mainnet"
+		cmdSuffix = []string{"--testnet-magic", fmt.Sprint(cli.network.ProtocolMagic)}
 	} else {
-		cmdSuffix = fmt.Sprintf("--testnet-magic %d", cli.network.ProtocolMagic)
+		cmdSuffix = []string{"--mainnet"}
 	}
 
-	args = append(args, cmdSuffix)
+	args = append(args, cmdSuffix...)
 	cmd := exec.Command(cli.cliPath, args...)
 	cmd.Stdout = buf
 	cmd.Stderr = os.Stderr
-- 
2.43.0


From dc526e8778203016dd1e508daed5dd8d1d9c4ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:48 +0000
Subject: [PATCH 15/21] fix: read the unspent outputs that cardano-cli lists

The command was misspelt, its address argument malformed, and the table was cut
by its length in bytes, which panicked on every listing. Listings that are not
complete are refused.
---
 node/cardano-cli.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index 6706d80..0bd830b 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -2,7 +2,9 @@ package node
 
 import (
 	"bytes"
+	"encoding/hex"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io/ioutil"
 	"os"
@@ -16,6 +18,8 @@ import (
 	"github.com/fivebinaries/go-cardano-serialization/tx"
 )
 
+var errInvalidUTXOs = errors.New("unexpected output of cardano-cli query utxo")
+
 type cardanoCli struct {
 	cliPath string
 	network *network.NetworkInfo
@@ -55,30 +59,37 @@ func (cli *cardanoCli) ProtocolParameters() (p protocol.Protocol, err error) {
 }
 
 func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error) {
-	data, err := cli.execCommand("query", "utxos", fmt.Sprintf("--address %s", addr))
+	data, err := cli.execCommand("query", "utxo", "--address", addr.String())
 	if err != nil {
 		return
 	}
 
+	// two lines of heading, one line per unspent output, every line terminated
 	ldata := strings.Split(string(data), "\n")
-	lenData := len(data)
+	lenData := len(ldata)
 
-	if lenData < 3 {
-		return
+	if lenData < 3 || ldata[lenData-1] != "" || !strings.Contains(ldata[0], "TxHash") {
+		return nil, errInvalidUTXOs
 	}
 
 	for _, it := range ldata[2 : lenData-1] {
 		sec := strings.Fields(it)
+		if len(sec) < 4 || sec[3] != "lovelace" {
+			return nil, errInvalidUTXOs
+		}
+
+		if hash, err := hex.DecodeString(sec[0]); err != nil || len(hash) != 32 {
+			return nil, errInvalidUTXOs
+		}
+
 		txIx, err := strconv.ParseUint(sec[1], 10, 16)
 		if err != nil {
-			return txIs, err
+			return nil, err
 		}
 
-		amSec := strings.Fields(sec[2])
-
-		amount, err := strconv.Atoi(amSec[0])
+		amount, err := strconv.ParseUint(sec[2], 10, 64)
 		if err != nil {
-			return txIs, err
+			return nil, err
 		}
 
 		utxo := *tx.NewTxInput(
-- 
2.43.0


From 58d5e1395e6e83b48b7464f13a22f42baa15ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:49 +0000
Subject: [PATCH 16/21] fix: submit transactions through cardano-cli

The command was incomplete and its file argument malformed, the file was still
open while the command read it, and the text printed by the command was
returned as the transaction id.
---
 node/cardano-cli.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index 0bd830b..2735e1b 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -141,20 +141,25 @@ func (cli *cardanoCli) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 	}
 
 	if _, err := tmpFile.Write((data)); err != nil {
+		tmpFile.Close()
 		return txHash, err
 	}
 
-	cliData, err := cli.execCommand("submit", fmt.Sprintf("--tx-file %s", tmpFile.Name()))
-	if err != nil {
-		return
+	// the file is complete only once it is closed
+	if err := tmpFile.Close(); err != nil {
+		return txHash, err
 	}
 
-	txHash = string(cliData)
-
-	if err := tmpFile.Close(); err != nil {
+	if _, err := cli.execCommand("transaction", "submit", "--tx-file", tmpFile.Name()); err != nil {
 		return txHash, err
 	}
-	return
+
+	hash, err := txFinal.Hash()
+	if err != nil {
+		return
+	}
+
+	return hex.EncodeToString(hash[:]), nil
 }
 
 // NewCardanoCliNode returns a wrapper for the cardano-cli with the Node interface
-- 
2.43.0


From 6e9a3fad0cc2d4dcca2de0e86115cd6c9fbf88fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:52 +0000
Subject: [PATCH 17/21] fix: leave a finished transaction untouched when it is
 encoded

Encoding or hashing a transaction rewrote the auxiliary data hash of its body,
so goroutines that submit the same transaction could see each other's
intermediate state.
---
 tx/tx.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tx/tx.go b/tx/tx.go
index 56691dd..14780e9 100644
--- a/tx/tx.go
+++ b/tx/tx.go
@@ -1,6 +1,7 @@
 package tx
 
 import (
+	"bytes"
 	"encoding/hex"
 	"fmt"
 
@@ -115,14 +116,17 @@ func (t *Tx) SetFee(fee uint) {
 }
 
 func (t *Tx) CalculateAuxiliaryDataHash() error {
-	t.Body.AuxiliaryDataHash = nil
+	var auxHash []byte
 	if t.Metadata != nil {
 		mdBytes, err := encMode.Marshal(&t.Metadata)
 		if err != nil {
 			return fmt.Errorf("cannot serialize metadata: %w", err)
 		}
-		auxHash := blake2b.Sum256(mdBytes)
-		t.Body.AuxiliaryDataHash = auxHash[:]
+		sum := blake2b.Sum256(mdBytes)
+		auxHash = sum[:]
+	}
+	if !bytes.Equal(auxHash, t.Body.AuxiliaryDataHash) {
+		t.Body.AuxiliaryDataHash = auxHash
 	}
 	return nil
 }
-- 
2.43.0


From efea7f11a03fcb85451253909b52e24d00fa5252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:26 +0000
Subject: [PATCH 18/21] fix: refuse trailing data after a byron address

cbor.Unmarshal ignores bytes that follow the first item.
---
 address/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index 3b23376..00bf4fe 100644
--- a/address/address.go
+++ b/address/address.go
@@ -75,7 +75,7 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 	case 0b1000:
 		var byron ByronAddress
 
-		if err := cbor.Unmarshal(data, &byron); err != nil {
+		if err := byron.UnmarshalCBOR(data); err != nil {
 			log.Println(err)
 			return &byron, err
 		}
-- 
2.43.0


From c12c9b1dd6e0b5844ede76ea430f71d0d5feda92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:26 +0000
Subject: [PATCH 19/21] fix: refuse blockfrost answers that lack the data asked
 for

A well-formed answer to some other question was read as an empty list, an
output without hash or a tip at block 0.
---
 node/blockfrost.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 4c0cd04..0b20261 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -47,10 +47,16 @@ func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err err
 		if err != nil {
 			return nil, err
 		}
+		if part == nil {
+			return nil, errors.New("unexpected response from server: no list of unspent outputs")
+		}
 		utxos = append(utxos, part...)
 	}
 
 	for _, utxo := range utxos {
+		if len(utxo.TxHash) != 64 {
+			return nil, fmt.Errorf("unexpected response from server: transaction hash %q", utxo.TxHash)
+		}
 		var amount uint
 		for _, am := range utxo.Amount {
 			if am.Unit == "lovelace" {
@@ -178,6 +184,9 @@ func (b *blockfrostNode) QueryTip() (nt NetworkTip, err error) {
 	if err != nil {
 		return
 	}
+	if block.Hash == "" {
+		return nt, errors.New("unexpected response from server: no block")
+	}
 
 	nt = NetworkTip{
 		Slot:  uint(block.Slot),
-- 
2.43.0


From 4e8eca2cfbe1923ac14b7428ae98add88b92331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:05 +0000
Subject: [PATCH 20/21] fix: take base58 text only for Byron addresses

---
 address/address.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/address/address.go b/address/address.go
index 00bf4fe..f4c1951 100644
--- a/address/address.go
+++ b/address/address.go
@@ -36,6 +36,10 @@ func NewAddress(raw string) (addr Address, err error) {
 		_, data, err = bech32.Decode(raw)
 	} else {
 		data = base58.Decode(raw)
+		// base58 is the text form of Byron addresses only
+		if len(data) > 0 && data[0]>>4 != 0b1000 {
+			return nil, ErrUnsupportedAddress
+		}
 	}
 
 	if err != nil {
-- 
2.43.0


From cd3bab8e248d40c796e899c625b357464ba6e7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:06 +0000
Subject: [PATCH 21/21] fix: a built transaction shares no bytes with the
 builder

The hash bytes of the inputs and the key and signature bytes of the witnesses
were shared between the builder's transaction and the ones it had returned, so
an edit through Tx() reached transactions that were already built.
---
 tx/tx.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tx/tx.go b/tx/tx.go
index 14780e9..43435ad 100644
--- a/tx/tx.go
+++ b/tx/tx.go
@@ -45,6 +45,7 @@ func (t *Tx) copy() Tx {
 	body.Inputs = make([]*TxInput, 0, len(t.Body.Inputs))
 	for _, in := range t.Body.Inputs {
 		input := *in
+		input.TxHash = copyBytes(in.TxHash)
 		body.Inputs = append(body.Inputs, &input)
 	}
 	body.Outputs = make([]*TxOutput, 0, len(t.Body.Outputs))
@@ -54,13 +55,19 @@ func (t *Tx) copy() Tx {
 	}
 	keys := make([]*VKeyWitness, 0, len(t.Witness.Keys))
 	for _, key := range t.Witness.Keys {
-		witness := *key
-		keys = append(keys, &witness)
+		keys = append(keys, NewVKeyWitness(copyBytes(key.VKey), copyBytes(key.Signature)))
 	}
 	c.Witness = NewTXWitness(keys...)
 	return c
 }
 
+func copyBytes(b []byte) []byte {
+	if b == nil {
+		return nil
+	}
+	return append([]byte{}, b...)
+}
+
 // Bytes returns a slice of cbor marshalled bytes
 func (t *Tx) Bytes() ([]byte, error) {
 	if err := t.CalculateAuxiliaryDataHash(); err != nil {
-- 
2.43.0

