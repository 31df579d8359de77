From 14332ba46203b48fc00abb983a83819c5cf009c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:33 +0000
Subject: [PATCH 01/65] fix: parse Liquid mainnet prefix as Liquid mainnet

---
 invoice/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invoice/src/parse.rs b/invoice/src/parse.rs
index 08e4a37..90e74c6 100644
--- a/invoice/src/parse.rs
+++ b/invoice/src/parse.rs
@@ -228,7 +228,7 @@ impl FromStr for ChainNet {
             x if ChainNet::BitcoinTestnet.to_string() == x => Ok(ChainNet::BitcoinTestnet),
             x if ChainNet::BitcoinSignet.to_string() == x => Ok(ChainNet::BitcoinSignet),
             x if ChainNet::BitcoinRegtest.to_string() == x => Ok(ChainNet::BitcoinRegtest),
-            x if ChainNet::LiquidMainnet.to_string() == x => Ok(ChainNet::BitcoinMainnet),
+            x if ChainNet::LiquidMainnet.to_string() == x => Ok(ChainNet::LiquidMainnet),
             x if ChainNet::LiquidTestnet.to_string() == x => Ok(ChainNet::LiquidTestnet),
             _ => Err(InvoiceParseError::Beneficiary(s.to_owned())),
         }
-- 
2.43.0


From 9034723f99164170ef90801054358c080b2275e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:33 +0000
Subject: [PATCH 02/65] fix: percent-encode all characters not permitted in an
 invoice query

---
 invoice/src/parse.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/invoice/src/parse.rs b/invoice/src/parse.rs
index 90e74c6..f41f0a0 100644
--- a/invoice/src/parse.rs
+++ b/invoice/src/parse.rs
@@ -51,7 +51,14 @@ const QUERY_ENCODE: &AsciiSet = &CONTROLS
     .add(b'[')
     .add(b']')
     .add(b'&')
-    .add(b'=');
+    .add(b'=')
+    .add(b'%')
+    .add(b'\\')
+    .add(b'^')
+    .add(b'`')
+    .add(b'{')
+    .add(b'|')
+    .add(b'}');
 
 #[derive(Clone, PartialEq, Eq, Debug, Display, Error, From)]
 #[display(inner)]
-- 
2.43.0


From 04b86888d582ab5786becd87e49edd9641cf892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:41 +0000
Subject: [PATCH 03/65] fix: parse operation and assignment names of an invoice

---
 invoice/src/parse.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/invoice/src/parse.rs b/invoice/src/parse.rs
index f41f0a0..10e84d2 100644
--- a/invoice/src/parse.rs
+++ b/invoice/src/parse.rs
@@ -31,7 +31,7 @@ use indexmap::IndexMap;
 use invoice::{AddressPayload, UnknownNetwork};
 use percent_encoding::{utf8_percent_encode, AsciiSet, CONTROLS};
 use rgb::{ContractId, SecretSeal};
-use strict_encoding::{InvalidRString, TypeName};
+use strict_encoding::{FieldName, InvalidRString, TypeName};
 
 use crate::invoice::{
     Beneficiary, ChainNet, InvoiceState, Pay2Vout, RgbInvoice, RgbTransport, XChainNet,
@@ -110,6 +110,9 @@ pub enum InvoiceParseError {
     /// invalid interface {0}.
     InvalidIface(String),
 
+    /// invalid operation or assignment name {0}.
+    InvalidName(String),
+
     /// invalid expiration timestamp {0}.
     InvalidExpiration(String),
 
@@ -318,6 +321,8 @@ impl Display for RgbInvoice {
         }
         if let Some(ref op) = self.operation {
             write!(f, "{op}/")?;
+        } else if self.assignment.is_some() {
+            write!(f, "{OMITTED}/")?;
         }
         if let Some(ref assignment_name) = self.assignment {
             write!(f, "{assignment_name}/")?;
@@ -396,9 +401,22 @@ impl FromStr for RgbInvoice {
             return Err(InvoiceParseError::ContractIdNoIface);
         }
 
-        let Some(assignment) = path.next() else {
+        let mut path = path.collect::<Vec<_>>();
+        let Some(assignment) = path.pop() else {
             return Err(InvoiceParseError::AssignmentMissed);
         };
+        if path.len() > 2 {
+            return Err(InvoiceParseError::Invalid);
+        }
+        let parse_name = |pos: usize| match path.get(pos).map(|name| name.as_str()) {
+            None | Some(OMITTED) => Ok(None),
+            Some(name) => FieldName::try_from(name.to_owned())
+                .map(Some)
+                .map_err(|_| InvoiceParseError::InvalidName(name.to_owned())),
+        };
+        let operation = parse_name(0)?;
+        let assignment_name = parse_name(1)?;
+
         let (amount, beneficiary) = assignment
             .as_str()
             .split_once('+')
@@ -443,8 +461,8 @@ impl FromStr for RgbInvoice {
             transports,
             contract,
             iface,
-            operation: None,
-            assignment: None,
+            operation,
+            assignment: assignment_name,
             beneficiary,
             owned_state: value,
             expiry,
-- 
2.43.0


From 4b8f8a29395c335ff49312b1fe189f624585afaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:36 +0000
Subject: [PATCH 04/65] fix: omit mnemonic from attachment ids in invoices

---
 invoice/src/invoice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/invoice/src/invoice.rs b/invoice/src/invoice.rs
index 853bd70..df4a9f8 100644
--- a/invoice/src/invoice.rs
+++ b/invoice/src/invoice.rs
@@ -57,7 +57,8 @@ pub enum InvoiceState {
     Amount(Amount),
     #[display(inner)]
     Data(NonFungible),
-    #[display(inner)]
+    // Mnemonic suffix must be omitted since it is a fragment delimiter in URIs
+    #[display("{0:#}")]
     Attach(AttachId),
 }
 
-- 
2.43.0


From 68ad238452acd5b3f1df0290656abfac44140f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:34 +0000
Subject: [PATCH 05/65] fix: keep invoice transport list well-formed when built
 from empty or unspecified transports

---
 invoice/src/builder.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/invoice/src/builder.rs b/invoice/src/builder.rs
index 17f2da3..eb57571 100644
--- a/invoice/src/builder.rs
+++ b/invoice/src/builder.rs
@@ -126,9 +126,13 @@ impl RgbInvoiceBuilder {
         self
     }
 
-    fn drop_unspecified_transport(&mut self) {
-        if self.0.transports.len() == 1 && self.0.transports[0] == RgbTransport::UnspecifiedMeans {
-            self.0.transports = vec![];
+    /// Unspecified means are meaningful only when no other transport is given.
+    fn normalize_transports(&mut self) {
+        self.0
+            .transports
+            .retain(|transport| *transport != RgbTransport::UnspecifiedMeans);
+        if self.0.transports.is_empty() {
+            self.0.transports.push(RgbTransport::UnspecifiedMeans);
         }
     }
 
@@ -141,8 +145,8 @@ impl RgbInvoiceBuilder {
     }
 
     pub fn add_transport_raw(mut self, transport: RgbTransport) -> Self {
-        self.drop_unspecified_transport();
         self.0.transports.push(transport);
+        self.normalize_transports();
         self
     }
 
@@ -165,8 +169,8 @@ impl RgbInvoiceBuilder {
         mut self,
         transports: impl IntoIterator<Item = RgbTransport>,
     ) -> Self {
-        self.drop_unspecified_transport();
         self.0.transports.extend(transports);
+        self.normalize_transports();
         self
     }
 
-- 
2.43.0


From 9972719952f66a3eb70c5a0c6abbe8bef92f3446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:34 +0000
Subject: [PATCH 06/65] fix: refuse transport hosts containing the transport
 list separator

---
 invoice/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invoice/src/parse.rs b/invoice/src/parse.rs
index 10e84d2..dc44317 100644
--- a/invoice/src/parse.rs
+++ b/invoice/src/parse.rs
@@ -201,7 +201,7 @@ impl FromStr for RgbTransport {
             return Err(TransportParseError::InvalidTransport(s.to_string()));
         }
         let (trans_type, host) = tokens.unwrap();
-        if host.is_empty() {
+        if host.is_empty() || host.contains(TRANSPORT_SEP) {
             return Err(TransportParseError::InvalidTransportHost(host.to_string()));
         }
         let host = host.to_string();
-- 
2.43.0


From 127c0493b60c81996a5add9364d8cdca9cec5696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:34 +0000
Subject: [PATCH 07/65] fix: refuse invoice amounts overflowing 64 bits instead
 of panicking

---
 invoice/src/amount.rs  | 15 +++------------
 invoice/src/builder.rs | 11 ++++++-----
 2 files changed, 9 insertions(+), 17 deletions(-)

diff --git a/invoice/src/amount.rs b/invoice/src/amount.rs
index 9007f08..cdbe0bb 100644
--- a/invoice/src/amount.rs
+++ b/invoice/src/amount.rs
@@ -335,19 +335,10 @@ impl CoinAmount {
         })
     }
 
-    pub(crate) fn to_amount_unchecked(self) -> Amount {
-        // 2^64 ~ 10^19 < 10^18 (18 is max value for Precision enum)
-        let pow = 10u64.pow(self.precision.decimals() as u32);
-        // number of decimals can't be larger than the smallest possible integer
-        self.int
-            .checked_mul(pow)
-            .expect("CoinAmount type garantees are broken")
+    pub(crate) fn to_amount_checked(self) -> Option<Amount> {
+        self.precision
+            .checked_convert(self.int)?
             .checked_add(self.fract)
-            .expect(
-                "integer has at least the same number of zeros in the lowest digits as much as \
-                 decimals has digits at most, so overflow is not possible",
-            )
-            .into()
     }
 }
 
diff --git a/invoice/src/builder.rs b/invoice/src/builder.rs
index eb57571..b8d5e14 100644
--- a/invoice/src/builder.rs
+++ b/invoice/src/builder.rs
@@ -89,11 +89,12 @@ impl RgbInvoiceBuilder {
         decimals: u64,
         precision: Precision,
     ) -> Result<Self, Self> {
-        let amount = match CoinAmount::with(integer, decimals, precision) {
-            Ok(amount) => amount,
-            Err(_) => return Err(self),
-        }
-        .to_amount_unchecked();
+        let amount = CoinAmount::with(integer, decimals, precision)
+            .ok()
+            .and_then(CoinAmount::to_amount_checked);
+        let Some(amount) = amount else {
+            return Err(self);
+        };
         self.0.owned_state = InvoiceState::Amount(amount);
         Ok(self)
     }
-- 
2.43.0


From c8cda08d20888ebb389bb93eb21e51417fb37eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:34 +0000
Subject: [PATCH 08/65] fix: keep the fractional part of approximate invoice
 amounts

---
 invoice/src/builder.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/invoice/src/builder.rs b/invoice/src/builder.rs
index b8d5e14..b4e6856 100644
--- a/invoice/src/builder.rs
+++ b/invoice/src/builder.rs
@@ -114,12 +114,17 @@ impl RgbInvoiceBuilder {
     /// amount of the asset, since f64 type doesn't provide full precision
     /// required for that.
     pub unsafe fn set_amount_approx(self, amount: f64, precision: Precision) -> Result<Self, Self> {
-        if amount <= 0.0 {
+        if !amount.is_finite() || amount <= 0.0 || amount >= u64::MAX as f64 {
             return Err(self);
         }
-        let coins = amount.floor();
-        let cents = amount - coins;
-        self.set_amount(coins as u64, cents as u64, precision)
+        let multiplier = precision.multiplier();
+        let mut coins = amount.floor() as u64;
+        let mut cents = (amount.fract() * multiplier as f64).round() as u64;
+        if cents >= multiplier {
+            coins += 1;
+            cents = 0;
+        }
+        self.set_amount(coins, cents, precision)
     }
 
     pub fn set_expiry_timestamp(mut self, expiry: i64) -> Self {
-- 
2.43.0


From ea33508f1a1ea7c8f1f42845d595e1f869a713c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:16 +0000
Subject: [PATCH 09/65] fix: do not panic on alternate formatting of
 indivisible coin amounts

---
 invoice/src/amount.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invoice/src/amount.rs b/invoice/src/amount.rs
index cdbe0bb..95ceec5 100644
--- a/invoice/src/amount.rs
+++ b/invoice/src/amount.rs
@@ -371,7 +371,7 @@ impl Display for CoinAmount {
             int = to_chunks(&int);
         }
         f.write_str(&int)?;
-        if self.fract > 0 || f.alternate() {
+        if self.fract > 0 || (f.alternate() && self.precision != Precision::Indivisible) {
             f.write_char('.')?;
             let mut float = self.fract.to_string();
             let len = float.len();
-- 
2.43.0


From d0227200f060846dcef7251dd7aeadfba9666a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:16 +0000
Subject: [PATCH 10/65] fix: parse coin amounts exactly as they are displayed

---
 invoice/src/amount.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/invoice/src/amount.rs b/invoice/src/amount.rs
index 95ceec5..0d28f54 100644
--- a/invoice/src/amount.rs
+++ b/invoice/src/amount.rs
@@ -404,6 +404,9 @@ pub enum AmountParseError {
     InvalidInt(ParseIntError),
     /// invalid amount fractional part - {0}
     InvalidFract(ParseIntError),
+    /// amount fractional part {0} must consist of digits not exceeding {1:?}
+    /// precision
+    FractMismatch(String, Precision),
     /// invalid amount precision - {0}
     InvalidPrecision(ParseIntError),
 
@@ -421,22 +424,36 @@ impl FromStr for CoinAmount {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let s = s.replace([' ', '_'], "");
-        let (int, remain) = s.split_once('.').unwrap_or_else(|| (&s, "0"));
-        let (fract, precision) = remain.split_once('~').unwrap_or((remain, ""));
+        let (number, precision) = s.split_once('~').unwrap_or((&s, ""));
+        let (int, fract) = match number.split_once('.') {
+            Some((int, fract)) => (int, Some(fract)),
+            None => (number, None),
+        };
         let precision = if precision.is_empty() {
-            fract.len() as u64
+            fract.unwrap_or_default().len() as u64
         } else {
             precision
                 .parse()
                 .map_err(AmountParseError::InvalidPrecision)?
         };
+        let precision = Precision::try_from(u8::try_from(precision)?)?;
         let int: u64 = int.parse().map_err(AmountParseError::InvalidInt)?;
-        let fract: u64 = fract.parse().map_err(AmountParseError::InvalidFract)?;
-        let precision = u8::try_from(precision)?;
+        let fract: u64 = match fract {
+            None => 0,
+            Some(fract) => {
+                let value: u64 = fract.parse().map_err(AmountParseError::InvalidFract)?;
+                // fraction may be given without its trailing zeros
+                let zeros = (precision.decimals() as usize)
+                    .checked_sub(fract.len())
+                    .filter(|_| fract.bytes().all(|c| c.is_ascii_digit()))
+                    .ok_or_else(|| AmountParseError::FractMismatch(fract.to_owned(), precision))?;
+                value * 10u64.pow(zeros as u32)
+            }
+        };
         Ok(CoinAmount {
             int,
             fract,
-            precision: Precision::try_from(precision)?,
+            precision,
         })
     }
 }
-- 
2.43.0


From 72e54576b84354857dba68c0e814215c948d15c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:56 +0000
Subject: [PATCH 11/65] fix: include history of all transitions of a bundle
 into consignments

---
 src/persistence/stock.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index b43427e..96d1ce7 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -769,7 +769,6 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
 
         // 1.3. Collect all state transitions assigning state to the provided outpoints
         let mut anchored_bundles = BTreeMap::<BundleId, ClientBundle>::new();
-        let mut transitions = BTreeMap::<OpId, Transition>::new();
         let mut terminals = BTreeMap::<BundleId, XChain<SecretSeal>>::new();
         for opout in opouts {
             if opout.op == contract_id {
@@ -777,8 +776,6 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             }
 
             let transition = self.transition(opout.op)?;
-            transitions.insert(opout.op, transition.clone());
-
             let bundle_id = self.index.bundle_id_for_op(transition.id())?;
             // 2. Collect secret seals from terminal transitions to add to the consignment terminals
             for typed_assignments in transition.assignments.values() {
@@ -796,23 +793,26 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             }
         }
 
-        // 2. Collect all state transitions between terminals and genesis
+        // 2. Collect all state transitions between terminals and genesis. A bundle is
+        // validated as a whole, so the history of each of its transitions is required.
         let mut ids = vec![];
-        for transition in transitions.values() {
-            ids.extend(transition.inputs().iter().map(|input| input.prev_out.op));
+        for bundle_id in anchored_bundles.keys() {
+            for transition in self.stash.bundle(*bundle_id)?.known_transitions.values() {
+                ids.extend(transition.inputs().iter().map(|input| input.prev_out.op));
+            }
         }
         while let Some(id) = ids.pop() {
             if id == contract_id {
                 continue; // we skip genesis since it will be present anywhere
             }
             let transition = self.transition(id)?;
-            ids.extend(transition.inputs().iter().map(|input| input.prev_out.op));
-            transitions.insert(id, transition.clone());
             let bundle_id = self.index.bundle_id_for_op(transition.id())?;
-            anchored_bundles
-                .entry(bundle_id)
-                .or_insert(self.client_bundle(bundle_id)?.clone())
-                .reveal_transition(transition.clone())?;
+            if let Entry::Vacant(entry) = anchored_bundles.entry(bundle_id) {
+                entry.insert(self.client_bundle(bundle_id)?);
+                for transition in self.stash.bundle(bundle_id)?.known_transitions.values() {
+                    ids.extend(transition.inputs().iter().map(|input| input.prev_out.op));
+                }
+            }
         }
 
         let genesis = self.stash.genesis(contract_id)?.clone();
-- 
2.43.0


From 0cda8fdcaf7054129c1a5c3ad6e8ca052d0b351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:38 +0000
Subject: [PATCH 12/65] fix: do not panic exporting several assignments of one
 blinded bundle

---
 src/persistence/stock.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 96d1ce7..5419902 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -782,8 +782,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 for index in 0..typed_assignments.len_u16() {
                     let seal = typed_assignments.to_confidential_seals()[index as usize];
                     if secret_seal == Some(seal) {
-                        let res = terminals.insert(bundle_id, seal);
-                        assert_eq!(res, None);
+                        terminals.insert(bundle_id, seal);
                     }
                 }
             }
-- 
2.43.0


From 86314d5025448385d3fc2d1a67e3ee92431afcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:38 +0000
Subject: [PATCH 13/65] fix: find operations of all closing methods at an
 outpoint

---
 src/persistence/memory.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 4126daa..43f5d34 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -1315,13 +1315,19 @@ impl IndexReadProvider for MemIndex {
             .ok_or(IndexInconsistency::ContractAbsent(contract_id))?;
         let mut opouts = BTreeSet::new();
         for output in outpoints.into_iter().map(|o| o.into()) {
-            let set = index
+            // The same outpoint may be used by seals with different closing methods
+            let mut known = false;
+            for (_, set) in index
                 .outpoint_opouts
                 .iter()
-                .find(|(seal, _)| seal.to_outpoint() == output)
-                .map(|(_, set)| set.to_unconfined())
-                .ok_or(IndexInconsistency::OutpointUnknown(output, contract_id))?;
-            opouts.extend(set)
+                .filter(|(seal, _)| seal.to_outpoint() == output)
+            {
+                known = true;
+                opouts.extend(set.iter().copied());
+            }
+            if !known {
+                return Err(IndexInconsistency::OutpointUnknown(output, contract_id).into());
+            }
         }
         Ok(opouts)
     }
-- 
2.43.0


From b7ad7a66cae7c53218ad0b2b4f77f1a82d2ab2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:56 +0000
Subject: [PATCH 14/65] fix: compose schema-conforming operations for inputs
 without the invoiced state

---
 src/persistence/stock.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 5419902..45ecd1c 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1030,9 +1030,24 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 None
             };
 
-        for (output, list) in
-            self.contract_assignments_for(contract_id, prev_outputs.iter().copied())?
-        {
+        let assignments =
+            self.contract_assignments_for(contract_id, prev_outputs.iter().copied())?;
+        // The operation requested by the invoice can be performed only with the inputs
+        // having the required state; everything else is moved by a blank transition.
+        let has_state = |main: bool| {
+            assignments.iter().any(|(output, list)| {
+                (output.method() == method) == main
+                    && list.keys().any(|opout| opout.ty == assignment_id)
+            })
+        };
+        if !has_state(true) {
+            main_builder = self.blank_builder(contract_id, iface.clone())?;
+        }
+        if !has_state(false) {
+            alt_builder = self.blank_builder(contract_id, iface.clone())?;
+        }
+
+        for (output, list) in assignments {
             if output.method() == method {
                 main_inputs.push(output)
             } else {
-- 
2.43.0


From c08280c53039b800b5bdd936784bdcb8a1631509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:48 +0000
Subject: [PATCH 15/65] fix: do not count failed witness queries as succeeded

---
 src/persistence/memory.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 43f5d34..4aef20a 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -664,12 +664,14 @@ impl StateWriteProvider for MemState {
                 continue;
             }
             match resolver.resolve_pub_witness_ord(*id) {
-                Ok(new) => *ord = new,
+                Ok(new) => {
+                    *ord = new;
+                    succeeded += 1;
+                }
                 Err(err) => {
                     failed.insert(*id, err.to_string());
                 }
             }
-            succeeded += 1;
         }
         let mut witnesses =
             LargeOrdMap::try_from(witnesses).inspect_err(|_| self.rollback_transaction())?;
-- 
2.43.0


From 4c316000997228a646dd6805cb2c0ee484d7189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:02 +0000
Subject: [PATCH 16/65] fix: keep state visible while any of its witness
 transactions is valid

---
 src/contract/assignments.rs | 21 ++++++++++-------
 src/persistence/memory.rs   | 47 ++++++++++++++++++++++++++++++-------
 2 files changed, 51 insertions(+), 17 deletions(-)

diff --git a/src/contract/assignments.rs b/src/contract/assignments.rs
index d496752..82bb1e2 100644
--- a/src/contract/assignments.rs
+++ b/src/contract/assignments.rs
@@ -100,11 +100,14 @@ pub struct OutputAssignment<State: KnownState> {
 
 impl<State: KnownState> PartialEq for OutputAssignment<State> {
     fn eq(&self, other: &Self) -> bool {
-        // We ignore difference in witness transactions, state and seal definitions here
-        // in order to support updates from the ephemeral state of the lightning
-        // channels. See <https://github.com/RGB-WG/rgb-std/issues/238#issuecomment-2283822128>
-        // for the details.
-        let res = self.opout == other.opout && self.seal == other.seal;
+        // We ignore difference in state definitions here in order to support updates from
+        // the ephemeral state of the lightning channels.
+        // See <https://github.com/RGB-WG/rgb-std/issues/238#issuecomment-2283822128>
+        // for the details. The same assignment with different witness transactions must be
+        // kept for each of them, since any of the transactions may become (in)valid later.
+        let res = self.opout == other.opout
+            && self.seal == other.seal
+            && self.witness == other.witness;
         #[cfg(debug_assertions)]
         if res {
             debug_assert_eq!(self.state, other.state);
@@ -122,10 +125,10 @@ impl<State: KnownState> Ord for OutputAssignment<State> {
         if self == other {
             return Ordering::Equal;
         }
-        match self.opout.cmp(&other.opout) {
-            Ordering::Equal => self.seal.cmp(&other.seal),
-            ordering => ordering,
-        }
+        self.opout
+            .cmp(&other.opout)
+            .then_with(|| self.seal.cmp(&other.seal))
+            .then_with(|| self.witness.cmp(&other.witness))
     }
 }
 
diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 4aef20a..09ff049 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -873,6 +873,21 @@ impl<M: Borrow<MemContractState>> Debug for MemContract<M> {
     }
 }
 
+/// Checks that the assignment has a valid witness. If the same assignment is
+/// confirmed by multiple valid witnesses, only the first one is accepted.
+fn is_unique_valid<State: KnownState>(
+    set: &BTreeSet<OutputAssignment<State>>,
+    assignment: &OutputAssignment<State>,
+    filter: &HashMap<XWitnessId, WitnessOrd>,
+) -> bool {
+    assignment.check_witness(filter)
+        && !set
+            .range(..assignment)
+            .rev()
+            .take_while(|other| other.opout == assignment.opout && other.seal == assignment.seal)
+            .any(|other| other.check_witness(filter))
+}
+
 impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
     fn global(
         &self,
@@ -974,7 +989,9 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
             .filter(|assignment| {
                 assignment.seal.to_outpoint() == outpoint && assignment.opout.ty == ty
             })
-            .filter(|assignment| assignment.check_witness(&self.filter))
+            .filter(|assignment| {
+                is_unique_valid(&self.unfiltered.borrow().rights, assignment, &self.filter)
+            })
             .count() as u32
     }
 
@@ -990,7 +1007,9 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
             .filter(move |assignment| {
                 assignment.seal.to_outpoint() == outpoint && assignment.opout.ty == ty
             })
-            .filter(|assignment| assignment.check_witness(&self.filter))
+            .filter(|assignment| {
+                is_unique_valid(&self.unfiltered.borrow().fungibles, assignment, &self.filter)
+            })
             .map(|assignment| assignment.state.value)
     }
 
@@ -1006,7 +1025,9 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
             .filter(move |assignment| {
                 assignment.seal.to_outpoint() == outpoint && assignment.opout.ty == ty
             })
-            .filter(|assignment| assignment.check_witness(&self.filter))
+            .filter(|assignment| {
+                is_unique_valid(&self.unfiltered.borrow().data, assignment, &self.filter)
+            })
             .map(|assignment| &assignment.state.value)
     }
 
@@ -1022,7 +1043,9 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
             .filter(move |assignment| {
                 assignment.seal.to_outpoint() == outpoint && assignment.opout.ty == ty
             })
-            .filter(|assignment| assignment.check_witness(&self.filter))
+            .filter(|assignment| {
+                is_unique_valid(&self.unfiltered.borrow().attach, assignment, &self.filter)
+            })
             .map(|assignment| &assignment.state.file)
     }
 }
@@ -1095,7 +1118,9 @@ impl<M: Borrow<MemContractState>> ContractStateRead for MemContract<M> {
             .borrow()
             .rights
             .iter()
-            .filter(|assignment| assignment.check_witness(&self.filter))
+            .filter(|assignment| {
+                is_unique_valid(&self.unfiltered.borrow().rights, assignment, &self.filter)
+            })
     }
 
     #[inline]
@@ -1104,7 +1129,9 @@ impl<M: Borrow<MemContractState>> ContractStateRead for MemContract<M> {
             .borrow()
             .fungibles
             .iter()
-            .filter(|assignment| assignment.check_witness(&self.filter))
+            .filter(|assignment| {
+                is_unique_valid(&self.unfiltered.borrow().fungibles, assignment, &self.filter)
+            })
     }
 
     #[inline]
@@ -1113,7 +1140,9 @@ impl<M: Borrow<MemContractState>> ContractStateRead for MemContract<M> {
             .borrow()
             .data
             .iter()
-            .filter(|assignment| assignment.check_witness(&self.filter))
+            .filter(|assignment| {
+                is_unique_valid(&self.unfiltered.borrow().data, assignment, &self.filter)
+            })
     }
 
     #[inline]
@@ -1122,7 +1151,9 @@ impl<M: Borrow<MemContractState>> ContractStateRead for MemContract<M> {
             .borrow()
             .attach
             .iter()
-            .filter(|assignment| assignment.check_witness(&self.filter))
+            .filter(|assignment| {
+                is_unique_valid(&self.unfiltered.borrow().attach, assignment, &self.filter)
+            })
     }
 }
 
-- 
2.43.0


From 1b796617c72f5ef4f9f0ef69fa5cd5eb2b296a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:40 +0000
Subject: [PATCH 17/65] fix: list global state in consensus order and skip
 archived values

---
 src/persistence/memory.rs | 71 ++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 39 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 09ff049..dffdb52 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -20,12 +20,11 @@
 // limitations under the License.
 
 use std::borrow::Borrow;
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::convert::Infallible;
 use std::fmt::{Debug, Formatter};
+use std::mem;
 use std::num::NonZeroU32;
-use std::{iter, mem};
 
 use aluvm::library::{Lib, LibId};
 use amplify::confinement::{
@@ -902,17 +901,10 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
             depth: u24,
             constructor: Box<dyn Fn(Src<'a>) -> FilteredIter<'a> + 'a>,
         }
-        impl<'a> Iter<'a> {
-            fn swap(&mut self) -> FilteredIter<'a> {
-                let mut iter = (self.constructor)(self.src);
-                mem::swap(&mut iter, &mut self.iter);
-                iter
-            }
-        }
         impl<'a> GlobalStateIter for Iter<'a> {
             type Data = &'a DataState;
             fn size(&mut self) -> u24 {
-                let iter = self.swap();
+                let iter = (self.constructor)(self.src);
                 // TODO: Consuming iterator just to count items is highly inefficient, but I do
                 //       not know any other way of computing this value
                 let size = iter.count();
@@ -925,18 +917,9 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
             }
             fn last(&mut self) -> Option<(GlobalOrd, Self::Data)> { self.last }
             fn reset(&mut self, depth: u24) {
-                match self.depth.cmp(&depth) {
-                    Ordering::Less => {
-                        let mut iter = Box::new(iter::empty()) as FilteredIter;
-                        mem::swap(&mut self.iter, &mut iter);
-                        self.iter = Box::new(iter.skip(depth.to_usize() - depth.to_usize()))
-                    }
-                    Ordering::Equal => {}
-                    Ordering::Greater => {
-                        let iter = self.swap();
-                        self.iter = Box::new(iter.skip(depth.to_usize()));
-                    }
-                }
+                let iter = (self.constructor)(self.src);
+                self.iter = Box::new(iter.skip(depth.to_usize()));
+                self.depth = depth;
             }
         }
         // We need this due to the limitations of the rust compiler to enforce lifetimes
@@ -951,24 +934,34 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
             .ok_or(UnknownGlobalStateType(ty))?;
 
         let constructor = constrained(move |src: Src<'_>| -> FilteredIter<'_> {
+            let mut known = src
+                .iter()
+                .filter_map(|(out, data)| {
+                    let ord = match out.op_witness {
+                        OpWitness::Genesis => GlobalOrd::genesis(out.index),
+                        OpWitness::Transition(id, ty) => {
+                            let ord = self.filter.get(&id)?;
+                            GlobalOrd::transition(out.opid, out.index, ty, out.nonce, *ord)
+                        }
+                        OpWitness::Extension(id, ty) => {
+                            let ord = self.filter.get(&id)?;
+                            GlobalOrd::extension(out.opid, out.index, ty, out.nonce, *ord)
+                        }
+                    };
+                    (!ord.op_ord.is_archived()).then_some((ord, out, data))
+                })
+                .collect::<Vec<_>>();
+            known.sort_by_key(|(ord, ..)| *ord);
+            // An operation may be committed by several alternative witness transactions
+            let mut unique = BTreeSet::new();
+            known.retain(|(_, out, _)| unique.insert((out.opid, out.index)));
+            // Only the most recent items fit the limit
+            let outdated = known.len().saturating_sub(state.limit.to_usize());
             Box::new(
-                src.iter()
-                    .rev()
-                    .filter_map(|(out, data)| {
-                        let ord = match out.op_witness {
-                            OpWitness::Genesis => GlobalOrd::genesis(out.index),
-                            OpWitness::Transition(id, ty) => {
-                                let ord = self.filter.get(&id)?;
-                                GlobalOrd::transition(out.opid, out.index, ty, out.nonce, *ord)
-                            }
-                            OpWitness::Extension(id, ty) => {
-                                let ord = self.filter.get(&id)?;
-                                GlobalOrd::extension(out.opid, out.index, ty, out.nonce, *ord)
-                            }
-                        };
-                        Some((ord, data))
-                    })
-                    .take(state.limit.to_usize()),
+                known
+                    .into_iter()
+                    .skip(outdated)
+                    .map(|(ord, _, data)| (ord, data)),
             )
         });
         let iter = Iter {
-- 
2.43.0


From fe7826c25b07f0dbf385fc44cf0e88b06ba902cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:39 +0000
Subject: [PATCH 18/65] fix: report each contract assigning to a set of
 outpoints once

---
 src/persistence/memory.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index dffdb52..b16b418 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -1304,19 +1304,13 @@ impl IndexReadProvider for MemIndex {
         Ok(self
             .contract_index
             .iter()
-            .flat_map(move |(contract_id, index)| {
-                outpoints.clone().into_iter().filter_map(|outpoint| {
-                    if index
-                        .outpoint_opouts
-                        .keys()
-                        .any(|seal| seal.to_outpoint() == outpoint)
-                    {
-                        Some(*contract_id)
-                    } else {
-                        None
-                    }
-                })
-            }))
+            .filter(move |(_, index)| {
+                index
+                    .outpoint_opouts
+                    .keys()
+                    .any(|seal| outpoints.contains(&seal.to_outpoint()))
+            })
+            .map(|(contract_id, _)| *contract_id))
     }
 
     fn public_opouts(
-- 
2.43.0


From 5c92ffc5275c6c257ae04ad3663911768513b91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:59 +0000
Subject: [PATCH 19/65] fix: report wallet history of several fungible types
 separately

---
 src/interface/contract.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/interface/contract.rs b/src/interface/contract.rs
index 2709a05..446f7e3 100644
--- a/src/interface/contract.rs
+++ b/src/interface/contract.rs
@@ -20,7 +20,7 @@
 // limitations under the License.
 
 use std::borrow::Borrow;
-use std::collections::{BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 
 use invoice::{Allocation, Amount};
 use rgb::{
@@ -134,6 +134,16 @@ fn reduce_to_ty(allocations: impl IntoIterator<Item = OwnedAllocation>) -> Assig
         .expect("empty list of allocations")
 }
 
+fn split_by_ty(
+    allocations: HashSet<OwnedAllocation>,
+) -> impl Iterator<Item = HashSet<OwnedAllocation>> {
+    let mut split = BTreeMap::<AssignmentType, HashSet<_>>::new();
+    for a in allocations {
+        split.entry(a.opout.ty).or_default().insert(a);
+    }
+    split.into_values()
+}
+
 impl ContractOp {
     fn non_fungible_genesis(
         our_allocations: HashSet<OwnedAllocation>,
@@ -429,7 +439,7 @@ impl<S: ContractStateRead> ContractIface<S> {
         // add allocations with no witness to the beginning of the history
         if let Some(genesis_allocations) = allocations_our_outpoint.remove(&None) {
             if T::IS_FUNGIBLE {
-                ops.push(ContractOp::fungible_genesis(genesis_allocations));
+                ops.extend(split_by_ty(genesis_allocations).map(ContractOp::fungible_genesis));
             } else {
                 ops.extend(ContractOp::non_fungible_genesis(genesis_allocations));
             }
@@ -455,7 +465,10 @@ impl<S: ContractStateRead> ContractIface<S> {
                         continue;
                     }
                     if T::IS_FUNGIBLE {
-                        ops.push(ContractOp::fungible_sent(witness_info, ext_allocations))
+                        ops.extend(
+                            split_by_ty(ext_allocations)
+                                .map(|a| ContractOp::fungible_sent(witness_info, a)),
+                        )
                     } else {
                         ops.extend(ContractOp::non_fungible_sent(witness_info, ext_allocations))
                     }
@@ -463,7 +476,10 @@ impl<S: ContractStateRead> ContractIface<S> {
                 // the same as above, but the payment has no change
                 (None, Some(ext_allocations)) => {
                     if T::IS_FUNGIBLE {
-                        ops.push(ContractOp::fungible_sent(witness_info, ext_allocations))
+                        ops.extend(
+                            split_by_ty(ext_allocations)
+                                .map(|a| ContractOp::fungible_sent(witness_info, a)),
+                        )
                     } else {
                         ops.extend(ContractOp::non_fungible_sent(witness_info, ext_allocations))
                     }
@@ -472,7 +488,10 @@ impl<S: ContractStateRead> ContractIface<S> {
                 // this is an incoming payment to us.
                 (Some(our_allocations), None) => {
                     if T::IS_FUNGIBLE {
-                        ops.push(ContractOp::fungible_received(witness_info, our_allocations))
+                        ops.extend(
+                            split_by_ty(our_allocations)
+                                .map(|a| ContractOp::fungible_received(witness_info, a)),
+                        )
                     } else {
                         ops.extend(ContractOp::non_fungible_received(witness_info, our_allocations))
                     }
-- 
2.43.0


From 94f5899d1b00cfe6c6be6de9751d6e2ec04b010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:07 +0000
Subject: [PATCH 20/65] fix: export by a secret seal only the state of the
 contract

---
 src/persistence/stock.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 45ecd1c..00647c3 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -776,6 +776,9 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             }
 
             let transition = self.transition(opout.op)?;
+            if transition.contract_id != contract_id {
+                continue; // the same secret seal may be used by other contracts
+            }
             let bundle_id = self.index.bundle_id_for_op(transition.id())?;
             // 2. Collect secret seals from terminal transitions to add to the consignment terminals
             for typed_assignments in transition.assignments.values() {
-- 
2.43.0


From 6f06b3fcf774a2ef90e7878d0c1e6432e8cd9689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:46 +0000
Subject: [PATCH 21/65] fix: merge a full witness transaction with its id in
 either order

---
 src/containers/anchors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/containers/anchors.rs b/src/containers/anchors.rs
index 2c7c167..b608044 100644
--- a/src/containers/anchors.rs
+++ b/src/containers/anchors.rs
@@ -154,7 +154,7 @@ impl PubWitness {
     pub fn merge_reveal(self, other: Self) -> Result<Self, MergeRevealError> {
         match (self, other) {
             (Self::Txid(txid1), Self::Txid(txid2)) if txid1 == txid2 => Ok(Self::Txid(txid1)),
-            (Self::Txid(txid), Self::Tx(tx)) | (Self::Txid(txid), Self::Tx(tx))
+            (Self::Txid(txid), Self::Tx(tx)) | (Self::Tx(tx), Self::Txid(txid))
                 if txid == tx.txid() =>
             {
                 Ok(Self::Tx(tx))
-- 
2.43.0


From 59097ba06170090148672411180515d8f2e0f4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:48 +0000
Subject: [PATCH 22/65] fix: keep operation ids of a batch when its priority
 changes

---
 src/containers/partials.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/containers/partials.rs b/src/containers/partials.rs
index 8bdf33d..fdd9b26 100644
--- a/src/containers/partials.rs
+++ b/src/containers/partials.rs
@@ -245,13 +245,17 @@ impl Batch {
 
     pub fn set_priority(&mut self, priority: u64) {
         self.main.first.transition.nonce = priority;
+        self.main.first.id = self.main.first.transition.id();
         if let Some(info) = &mut self.main.second {
             info.transition.nonce = priority;
+            info.id = info.transition.id();
         }
         for info in &mut self.blanks {
             info.first.transition.nonce = priority;
+            info.first.id = info.first.transition.id();
             if let Some(info) = &mut info.second {
                 info.transition.nonce = priority;
+                info.id = info.transition.id();
             }
         }
     }
-- 
2.43.0


From e2ffc53b0258f5aeb6c7f4460e7595f503548b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:51 +0000
Subject: [PATCH 23/65] fix: do not require an output for change when there is
 no change

---
 src/persistence/stock.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 00647c3..8fd4d73 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1114,10 +1114,10 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 }
 
                 let blinding_change = pedersen_blinder(contract_id, assignment_id);
-                let change_seal = output_for_assignment(contract_id, assignment_id)?;
 
                 // Pay change
                 if sum_main > paid_main {
+                    let change_seal = output_for_assignment(contract_id, assignment_id)?;
                     main_builder = main_builder.add_fungible_state_raw(
                         assignment_id,
                         change_seal,
@@ -1126,6 +1126,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                     )?;
                 }
                 if sum_alt > paid_alt {
+                    let change_seal = output_for_assignment(contract_id, assignment_id)?;
                     alt_builder = alt_builder.add_fungible_state_raw(
                         assignment_id,
                         change_seal,
-- 
2.43.0


From 3d41841c2b6009795bd030a114b6d63a62d71270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:51 +0000
Subject: [PATCH 24/65] fix: refuse invoices for unsupported state instead of
 panicking

---
 src/persistence/stock.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 8fd4d73..e15e826 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -235,6 +235,10 @@ pub enum ComposeError {
     /// smart contract state.
     InsufficientState,
 
+    /// the invoice requests state which is neither fungible nor a token
+    /// allocation; paying such invoices is not supported yet.
+    UnsupportedState,
+
     /// the spent UTXOs contain too many seals which can't fit the state
     /// transition input limit.
     TooManyInputs,
@@ -1160,12 +1164,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                     }
                 }
             },
-            _ => {
-                todo!(
-                    "only PersistedState::Amount and PersistedState::Allocation are currently \
-                     supported"
-                )
-            }
+            _ => return Err(ComposeError::UnsupportedState.into()),
         }
 
         // 3. Prepare other transitions
-- 
2.43.0


From 66b9635554babe5ecf8be5f43f4e81ca9bc99a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:51 +0000
Subject: [PATCH 25/65] fix: refuse spending amounts overflowing 64 bits
 instead of panicking

---
 src/persistence/stock.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index e15e826..0d9009c 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -239,6 +239,9 @@ pub enum ComposeError {
     /// allocation; paying such invoices is not supported yet.
     UnsupportedState,
 
+    /// total amount of the state in the spent UTXOs overflows 64 bits.
+    AmountOverflow,
+
     /// the spent UTXOs contain too many seals which can't fit the state
     /// transition input limit.
     TooManyInputs,
@@ -1075,7 +1078,8 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                         alt_builder = alt_builder.add_owned_state_raw(opout.ty, seal, state)?;
                     }
                 } else if let PersistedState::Amount(value, _, _) = state {
-                    sum_inputs += value;
+                    sum_inputs =
+                        sum_inputs.checked_add(value).ok_or(ComposeError::AmountOverflow)?;
                     if output.method() != method {
                         sum_alt += value;
                     }
-- 
2.43.0


From 6f0d78c19377dc19276ab9273972e98d7fc665c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:51 +0000
Subject: [PATCH 26/65] fix: do not panic composing when a contract has only
 archived state in inputs

---
 src/persistence/stock.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 0d9009c..3bdcda4 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1216,6 +1216,11 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 }
             }
 
+            // The contract may have no valid state in the spent outputs
+            if !blank_builder_tapret.has_inputs() && !blank_builder_opret.has_inputs() {
+                continue;
+            }
+
             let mut dicho = vec![];
             for (blank_builder, outputs) in
                 [(blank_builder_tapret, outputs_tapret), (blank_builder_opret, outputs_opret)]
-- 
2.43.0


From 48858c1ee4bf526e2242964aa1361111eeb1b2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:51 +0000
Subject: [PATCH 27/65] fix: keep other data of the invoiced type when paying a
 data invoice

---
 src/persistence/stock.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 3bdcda4..5b3c2c1 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1031,7 +1031,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
         let mut main_inputs = Vec::<XOutputSeal>::new();
         let mut sum_inputs = Amount::ZERO;
         let mut sum_alt = Amount::ZERO;
-        let mut data_inputs = vec![];
+        let mut data_found = false;
         let mut data_main = true;
         let lookup_state =
             if let InvoiceState::Data(NonFungible::RGB21(allocation)) = &invoice.owned_state {
@@ -1083,11 +1083,20 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                     if output.method() != method {
                         sum_alt += value;
                     }
-                } else if let PersistedState::Data(value, _) = state {
-                    if lookup_state.as_ref() == Some(&value) && output.method() != method {
-                        data_main = false;
+                } else if let PersistedState::Data(value, salt) = state {
+                    if lookup_state.as_ref() == Some(&value) && !data_found {
+                        data_found = true;
+                        data_main = output.method() == method;
+                        continue;
+                    }
+                    // All other state of the same type is kept
+                    let seal = output_for_assignment(contract_id, opout.ty)?;
+                    let state = PersistedState::Data(value, salt);
+                    if output.method() == method {
+                        main_builder = main_builder.add_owned_state_raw(opout.ty, seal, state)?;
+                    } else {
+                        alt_builder = alt_builder.add_owned_state_raw(opout.ty, seal, state)?;
                     }
-                    data_inputs.push(value);
                 }
             }
         }
@@ -1145,8 +1154,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             }
             InvoiceState::Data(data) => match data {
                 NonFungible::RGB21(allocation) => {
-                    let lookup_state = DataState::from(allocation);
-                    if !data_inputs.into_iter().any(|x| x == lookup_state) {
+                    if !data_found {
                         return Err(ComposeError::InsufficientState.into());
                     }
 
-- 
2.43.0


From 6a443b585ac92e2e414bef75b2e767159203e7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:39 +0000
Subject: [PATCH 28/65] fix: keep all states assigned to one seal by an
 operation builder

---
 src/interface/builder.rs | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index eb8a01c..c78723a 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -21,7 +21,7 @@
 
 #![allow(clippy::result_large_err)]
 
-use std::collections::{BTreeMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet};
 
 use amplify::confinement::{Confined, SmallOrdSet, TinyOrdMap, U16};
 use amplify::{confinement, Wrapper};
@@ -822,6 +822,9 @@ impl TransitionBuilder {
     }
 }
 
+/// Seal with a sequence number, allowing to assign several states to it.
+type SealNo<Seal> = (BuilderSeal<Seal>, u16);
+
 #[derive(Clone, Debug)]
 pub struct OperationBuilder<Seal: ExposedSeal> {
     // TODO: use references instead of owned values
@@ -833,12 +836,12 @@ pub struct OperationBuilder<Seal: ExposedSeal> {
 
     global: GlobalState,
     meta: Metadata,
-    rights: TinyOrdMap<AssignmentType, Confined<HashSet<BuilderSeal<Seal>>, 1, U16>>,
+    rights: TinyOrdMap<AssignmentType, Confined<BTreeSet<SealNo<Seal>>, 1, U16>>,
     fungible:
-        TinyOrdMap<AssignmentType, Confined<BTreeMap<BuilderSeal<Seal>, RevealedValue>, 1, U16>>,
-    data: TinyOrdMap<AssignmentType, Confined<BTreeMap<BuilderSeal<Seal>, RevealedData>, 1, U16>>,
+        TinyOrdMap<AssignmentType, Confined<BTreeMap<SealNo<Seal>, RevealedValue>, 1, U16>>,
+    data: TinyOrdMap<AssignmentType, Confined<BTreeMap<SealNo<Seal>, RevealedData>, 1, U16>>,
     attachments:
-        TinyOrdMap<AssignmentType, Confined<BTreeMap<BuilderSeal<Seal>, RevealedAttach>, 1, U16>>,
+        TinyOrdMap<AssignmentType, Confined<BTreeMap<SealNo<Seal>, RevealedAttach>, 1, U16>>,
     // TODO: add valencies
     types: TypeSystem,
 }
@@ -1113,10 +1116,10 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         let seal = seal.into();
         match self.rights.get_mut(&type_id) {
             Some(assignments) => {
-                assignments.push(seal)?;
+                assignments.push((seal, assignments.len() as u16))?;
             }
             None => {
-                self.rights.insert(type_id, Confined::with(seal))?;
+                self.rights.insert(type_id, Confined::with((seal, 0)))?;
             }
         }
 
@@ -1179,11 +1182,11 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         let seal = seal.into();
         match self.fungible.get_mut(&type_id) {
             Some(assignments) => {
-                assignments.insert(seal, state)?;
+                assignments.insert((seal, assignments.len() as u16), state)?;
             }
             None => {
                 self.fungible
-                    .insert(type_id, Confined::with((seal, state)))?;
+                    .insert(type_id, Confined::with(((seal, 0), state)))?;
             }
         }
 
@@ -1243,10 +1246,10 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             let seal = seal.into();
             match self.data.get_mut(&type_id) {
                 Some(assignments) => {
-                    assignments.insert(seal, state)?;
+                    assignments.insert((seal, assignments.len() as u16), state)?;
                 }
                 None => {
-                    self.data.insert(type_id, Confined::with((seal, state)))?;
+                    self.data.insert(type_id, Confined::with(((seal, 0), state)))?;
                 }
             }
         } else {
@@ -1311,11 +1314,11 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             let seal = seal.into();
             match self.attachments.get_mut(&type_id) {
                 Some(assignments) => {
-                    assignments.insert(seal, state)?;
+                    assignments.insert((seal, assignments.len() as u16), state)?;
                 }
                 None => {
                     self.attachments
-                        .insert(type_id, Confined::with((seal, state)))?;
+                        .insert(type_id, Confined::with(((seal, 0), state)))?;
                 }
             }
         } else {
@@ -1332,7 +1335,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             let mut blindings = Vec::with_capacity(vec.len());
             let mut vec = vec
                 .into_iter()
-                .map(|(seal, value)| {
+                .map(|((seal, _), value)| {
                     blindings.push(value.blinding);
                     match seal {
                         BuilderSeal::Revealed(seal) => Assign::Revealed {
@@ -1376,7 +1379,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             (id, state)
         });
         let owned_data = self.data.into_iter().map(|(id, vec)| {
-            let vec_data = vec.into_iter().map(|(seal, value)| match seal {
+            let vec_data = vec.into_iter().map(|((seal, _), value)| match seal {
                 BuilderSeal::Revealed(seal) => Assign::Revealed {
                     seal,
                     state: value,
@@ -1393,7 +1396,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             (id, state_data)
         });
         let owned_rights = self.rights.into_iter().map(|(id, vec)| {
-            let vec_data = vec.into_iter().map(|seal| match seal {
+            let vec_data = vec.into_iter().map(|(seal, _)| match seal {
                 BuilderSeal::Revealed(seal) => Assign::Revealed {
                     seal,
                     state: none!(),
@@ -1410,7 +1413,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             (id, state_data)
         });
         let owned_attachments = self.attachments.into_iter().map(|(id, vec)| {
-            let vec_data = vec.into_iter().map(|(seal, value)| match seal {
+            let vec_data = vec.into_iter().map(|((seal, _), value)| match seal {
                 BuilderSeal::Revealed(seal) => Assign::Revealed {
                     seal,
                     state: value,
-- 
2.43.0


From d9ce28a1aa25ce6c1c1540c7bac2b2ed9f2fc43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:14 +0000
Subject: [PATCH 29/65] fix: report unknown operation names instead of
 panicking

---
 src/persistence/stash.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/persistence/stash.rs b/src/persistence/stash.rs
index c42764e..27442d3 100644
--- a/src/persistence/stash.rs
+++ b/src/persistence/stash.rs
@@ -47,7 +47,8 @@ use crate::containers::{
     SigBlob, Supplement, TrustLevel, WitnessBundle,
 };
 use crate::interface::{
-    ContractBuilder, Iface, IfaceClass, IfaceId, IfaceImpl, IfaceRef, TransitionBuilder,
+    BuilderError, ContractBuilder, Iface, IfaceClass, IfaceId, IfaceImpl, IfaceRef,
+    TransitionBuilder,
 };
 use crate::persistence::{ContractIfaceError, StoreTransaction};
 use crate::{MergeReveal, MergeRevealError, SecretSeal, LIB_NAME_RGB_STD};
@@ -160,6 +161,10 @@ pub enum StashDataError {
     #[from]
     #[display(inner)]
     NoAbstractIface(ContractIfaceError),
+
+    #[from]
+    #[display(inner)]
+    Builder(BuilderError),
 }
 
 #[derive(Clone, Eq, PartialEq, Debug)]
@@ -377,7 +382,7 @@ impl<P: StashProvider> Stash<P> {
                 types,
             )
         }
-        .expect("internal inconsistency");
+        .map_err(StashDataError::from)?;
 
         for (assignment_type, asset_tag) in genesis.asset_tags.iter() {
             builder = builder
-- 
2.43.0


From c3bcb6577c15459001415b62eb2b7dca2d02a725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:04 +0000
Subject: [PATCH 30/65] fix: refuse paying an invoice when the spent state is
 of another kind

---
 src/persistence/stock.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 5b3c2c1..f5f61d8 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1097,6 +1097,8 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                     } else {
                         alt_builder = alt_builder.add_owned_state_raw(opout.ty, seal, state)?;
                     }
+                } else {
+                    return Err(ComposeError::UnsupportedState.into());
                 }
             }
         }
-- 
2.43.0


From 3b2d3b9fcd71908a8c93bd6f65ed9038493fec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:03 +0000
Subject: [PATCH 31/65] fix: revert all changes of a refused stock operation

Failed imports, acceptances and disclosures left the stock with a part of
the data, and failures to save panicked in the rollback. The in-memory
providers now keep a snapshot taken when a transaction begins and restore
it on rollback, and the stock rolls back whenever an operation fails.
---
 src/persistence/memory.rs | 60 ++++++++++++++++++++++++++++++++++-----
 src/persistence/stash.rs  |  3 +-
 src/persistence/stock.rs  | 14 ++++-----
 3 files changed, 62 insertions(+), 15 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index b16b418..b90c1c4 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -87,6 +87,10 @@ pub struct MemStash {
     #[getter(skip)]
     #[strict_type(skip)]
     persistence: Option<Persistence<Self>>,
+    /// Data before the latest transaction, used for its rollback.
+    #[getter(skip)]
+    #[strict_type(skip)]
+    snapshot: Option<Box<Self>>,
 
     schemata: TinyOrdMap<SchemaId, SchemaIfaces>,
     ifaces: TinyOrdMap<IfaceId, Iface>,
@@ -110,6 +114,7 @@ impl MemStash {
     pub fn in_memory() -> Self {
         Self {
             persistence: none!(),
+            snapshot: none!(),
             schemata: empty!(),
             ifaces: empty!(),
             geneses: empty!(),
@@ -131,6 +136,7 @@ impl CloneNoPersistence for MemStash {
     fn clone_no_persistence(&self) -> Self {
         Self {
             persistence: None,
+            snapshot: None,
             schemata: self.schemata.clone(),
             ifaces: self.ifaces.clone(),
             geneses: self.geneses.clone(),
@@ -161,13 +167,22 @@ impl StoreTransaction for MemStash {
     type TransactionErr = MemError;
     #[inline]
     fn begin_transaction(&mut self) -> Result<(), Self::TransactionErr> {
+        self.snapshot = Some(Box::new(self.clone_no_persistence()));
         self.mark_dirty();
         Ok(())
     }
     #[inline]
     fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }
-    #[inline]
-    fn rollback_transaction(&mut self) { unreachable!() }
+    fn rollback_transaction(&mut self) {
+        // The snapshot is kept after the commit, since the transaction has to be
+        // reverted if it can't be committed by other providers.
+        if let Some(snapshot) = self.snapshot.take() {
+            let persistence = self.persistence.take();
+            *self = *snapshot;
+            self.persistence = persistence;
+            self.mark_dirty();
+        }
+    }
 }
 
 impl StashProvider for MemStash {}
@@ -491,6 +506,10 @@ pub struct MemState {
     #[getter(skip)]
     #[strict_type(skip)]
     persistence: Option<Persistence<Self>>,
+    /// Data before the latest transaction, used for its rollback.
+    #[getter(skip)]
+    #[strict_type(skip)]
+    snapshot: Option<Box<Self>>,
 
     witnesses: LargeOrdMap<XWitnessId, WitnessOrd>,
     contracts: TinyOrdMap<ContractId, MemContractState>,
@@ -503,6 +522,7 @@ impl MemState {
     pub fn in_memory() -> Self {
         Self {
             persistence: none!(),
+            snapshot: none!(),
             witnesses: empty!(),
             contracts: empty!(),
         }
@@ -513,6 +533,7 @@ impl CloneNoPersistence for MemState {
     fn clone_no_persistence(&self) -> Self {
         Self {
             persistence: None,
+            snapshot: None,
             witnesses: self.witnesses.clone(),
             contracts: self.contracts.clone(),
         }
@@ -532,13 +553,22 @@ impl StoreTransaction for MemState {
     type TransactionErr = MemError;
     #[inline]
     fn begin_transaction(&mut self) -> Result<(), Self::TransactionErr> {
+        self.snapshot = Some(Box::new(self.clone_no_persistence()));
         self.mark_dirty();
         Ok(())
     }
     #[inline]
     fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }
-    #[inline]
-    fn rollback_transaction(&mut self) { unreachable!() }
+    fn rollback_transaction(&mut self) {
+        // The snapshot is kept after the commit, since the transaction has to be
+        // reverted if it can't be committed by other providers.
+        if let Some(snapshot) = self.snapshot.take() {
+            let persistence = self.persistence.take();
+            *self = *snapshot;
+            self.persistence = persistence;
+            self.mark_dirty();
+        }
+    }
 }
 
 impl StateProvider for MemState {}
@@ -675,7 +705,8 @@ impl StateWriteProvider for MemState {
         let mut witnesses =
             LargeOrdMap::try_from(witnesses).inspect_err(|_| self.rollback_transaction())?;
         mem::swap(&mut self.witnesses, &mut witnesses);
-        self.commit_transaction()?;
+        self.commit_transaction()
+            .inspect_err(|_| self.rollback_transaction())?;
         Ok(UpdateRes { succeeded, failed })
     }
 }
@@ -1233,6 +1264,10 @@ pub struct MemIndex {
     #[getter(skip)]
     #[strict_type(skip)]
     persistence: Option<Persistence<Self>>,
+    /// Data before the latest transaction, used for its rollback.
+    #[getter(skip)]
+    #[strict_type(skip)]
+    snapshot: Option<Box<Self>>,
 
     op_bundle_index: MediumOrdMap<OpId, BundleId>,
     bundle_contract_index: MediumOrdMap<BundleId, ContractId>,
@@ -1248,6 +1283,7 @@ impl MemIndex {
     pub fn in_memory() -> Self {
         Self {
             persistence: None,
+            snapshot: None,
             op_bundle_index: empty!(),
             bundle_contract_index: empty!(),
             bundle_witness_index: empty!(),
@@ -1261,6 +1297,7 @@ impl CloneNoPersistence for MemIndex {
     fn clone_no_persistence(&self) -> Self {
         Self {
             persistence: None,
+            snapshot: None,
             op_bundle_index: self.op_bundle_index.clone(),
             bundle_contract_index: self.bundle_contract_index.clone(),
             bundle_witness_index: self.bundle_witness_index.clone(),
@@ -1283,13 +1320,22 @@ impl StoreTransaction for MemIndex {
     type TransactionErr = MemError;
     #[inline]
     fn begin_transaction(&mut self) -> Result<(), Self::TransactionErr> {
+        self.snapshot = Some(Box::new(self.clone_no_persistence()));
         self.mark_dirty();
         Ok(())
     }
     #[inline]
     fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }
-    #[inline]
-    fn rollback_transaction(&mut self) { unreachable!() }
+    fn rollback_transaction(&mut self) {
+        // The snapshot is kept after the commit, since the transaction has to be
+        // reverted if it can't be committed by other providers.
+        if let Some(snapshot) = self.snapshot.take() {
+            let persistence = self.persistence.take();
+            *self = *snapshot;
+            self.persistence = persistence;
+            self.mark_dirty();
+        }
+    }
 }
 
 impl IndexProvider for MemIndex {}
diff --git a/src/persistence/stash.rs b/src/persistence/stash.rs
index 27442d3..434dd2b 100644
--- a/src/persistence/stash.rs
+++ b/src/persistence/stash.rs
@@ -687,7 +687,8 @@ impl<P: StashProvider> Stash<P> {
             .add_secret_seal(seal)
             .inspect_err(|_| self.rollback_transaction())
             .map_err(StashError::WriteProvider)?;
-        self.commit_transaction()?;
+        self.commit_transaction()
+            .inspect_err(|_| self.rollback_transaction())?;
         Ok(seal)
     }
 }
diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index f5f61d8..c1ceb60 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1293,15 +1293,13 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
         self.state.begin_transaction()?;
         self.stash
             .begin_transaction()
-            .inspect_err(|_| self.stash.rollback_transaction())?;
+            .inspect_err(|_| self.state.rollback_transaction())?;
         self.index.begin_transaction().inspect_err(|_| {
             self.state.rollback_transaction();
             self.stash.rollback_transaction();
         })?;
-        f(&mut self.stash, &mut self.state, &mut self.index)?;
-        self.index
-            .commit_transaction()
-            .map_err(StockError::from)
+        f(&mut self.stash, &mut self.state, &mut self.index)
+            .and_then(|_| self.index.commit_transaction().map_err(StockError::from))
             .and_then(|_| self.state.commit_transaction().map_err(StockError::from))
             .and_then(|_| self.stash.commit_transaction().map_err(StockError::from))
             .inspect_err(|_| {
@@ -1314,8 +1312,10 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
     pub fn import_kit(&mut self, kit: ValidKit) -> Result<validation::Status, StockError<S, H, P>> {
         let (kit, status) = kit.split();
         self.stash.begin_transaction()?;
-        self.stash.consume_kit(kit)?;
-        self.stash.commit_transaction()?;
+        self.stash
+            .consume_kit(kit)
+            .and_then(|_| self.stash.commit_transaction())
+            .inspect_err(|_| self.stash.rollback_transaction())?;
         Ok(status)
     }
 
-- 
2.43.0


From 91425f9ef8531ee59d9620d5c1e58da09167a07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:03 +0000
Subject: [PATCH 32/65] fix: refuse kits with implementations of unknown
 schemata or interfaces

Importing such a kit panicked.
---
 src/persistence/memory.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index b90c1c4..94fd02f 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -72,6 +72,9 @@ pub enum MemError {
 
     #[from]
     Confinement(confinement::Error),
+
+    #[from]
+    Stash(StashInconsistency),
 }
 
 //////////
@@ -395,8 +398,11 @@ impl StashWriteProvider for MemStash {
         let schema_ifaces = self
             .schemata
             .get_mut(&iimpl.schema_id)
-            .expect("unknown schema");
-        let iface = self.ifaces.get(&iimpl.iface_id).expect("unknown interface");
+            .ok_or(StashInconsistency::SchemaAbsent(iimpl.schema_id))?;
+        let iface = self
+            .ifaces
+            .get(&iimpl.iface_id)
+            .ok_or_else(|| StashInconsistency::IfaceAbsent(iimpl.iface_id.into()))?;
         let iface_name = iface.name.clone();
         let present = schema_ifaces.iimpls.contains_key(&iface_name);
         schema_ifaces.iimpls.insert(iface_name, iimpl)?;
@@ -1116,7 +1122,9 @@ impl ContractStateEvolve for MemContract<MemContractState> {
         .map_err(|err| {
             // TODO: remove once evolve_state would accept arbitrary errors
             match err {
-                MemError::Persistence(_) => unreachable!("only confinement errors are possible"),
+                MemError::Persistence(_) | MemError::Stash(_) => {
+                    unreachable!("only confinement errors are possible")
+                }
                 MemError::Confinement(e) => e,
             }
         })?;
-- 
2.43.0


From b11be249622b7631e4f7a94c25d51fe081796427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:21 +0000
Subject: [PATCH 33/65] fix: save stocks which do not use autosave

Explicit saving of a stock, or making it persistent, with autosave turned
off wrote nothing, since the state was never seen as changed.
---
 src/persistence/memory.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 94fd02f..0664ff5 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -164,6 +164,9 @@ impl Persisting for MemStash {
     fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.persistence.as_mut() }
     #[inline]
     fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { &mut self.persistence }
+    // The default implementation returns the autosave flag
+    #[inline]
+    fn is_dirty(&self) -> bool { self.persistence.as_ref().map(|p| p.dirty).unwrap_or(true) }
 }
 
 impl StoreTransaction for MemStash {
@@ -174,8 +177,12 @@ impl StoreTransaction for MemStash {
         self.mark_dirty();
         Ok(())
     }
-    #[inline]
-    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }
+    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> {
+        if self.is_autosave() {
+            self.store()?;
+        }
+        Ok(())
+    }
     fn rollback_transaction(&mut self) {
         // The snapshot is kept after the commit, since the transaction has to be
         // reverted if it can't be committed by other providers.
@@ -553,6 +560,9 @@ impl Persisting for MemState {
     fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.persistence.as_mut() }
     #[inline]
     fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { &mut self.persistence }
+    // The default implementation returns the autosave flag
+    #[inline]
+    fn is_dirty(&self) -> bool { self.persistence.as_ref().map(|p| p.dirty).unwrap_or(true) }
 }
 
 impl StoreTransaction for MemState {
@@ -563,8 +573,12 @@ impl StoreTransaction for MemState {
         self.mark_dirty();
         Ok(())
     }
-    #[inline]
-    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }
+    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> {
+        if self.is_autosave() {
+            self.store()?;
+        }
+        Ok(())
+    }
     fn rollback_transaction(&mut self) {
         // The snapshot is kept after the commit, since the transaction has to be
         // reverted if it can't be committed by other providers.
@@ -1322,6 +1336,9 @@ impl Persisting for MemIndex {
     fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.persistence.as_mut() }
     #[inline]
     fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { &mut self.persistence }
+    // The default implementation returns the autosave flag
+    #[inline]
+    fn is_dirty(&self) -> bool { self.persistence.as_ref().map(|p| p.dirty).unwrap_or(true) }
 }
 
 impl StoreTransaction for MemIndex {
@@ -1332,8 +1349,12 @@ impl StoreTransaction for MemIndex {
         self.mark_dirty();
         Ok(())
     }
-    #[inline]
-    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }
+    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> {
+        if self.is_autosave() {
+            self.store()?;
+        }
+        Ok(())
+    }
     fn rollback_transaction(&mut self) {
         // The snapshot is kept after the commit, since the transaction has to be
         // reverted if it can't be committed by other providers.
-- 
2.43.0


From 2129c75f152bf14e8dd1400c33777517d8fc98d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:47:27 +0000
Subject: [PATCH 34/65] fix: keep the saved stock when saving is interrupted

Files of the stock were truncated and written in place, such that a crash
or a write failure destroyed everything saved before.
---
 src/persistence/fs.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/persistence/fs.rs b/src/persistence/fs.rs
index 600cb21..c707211 100644
--- a/src/persistence/fs.rs
+++ b/src/persistence/fs.rs
@@ -19,7 +19,8 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-use std::path::PathBuf;
+use std::io::Write;
+use std::path::{Path, PathBuf};
 use std::{fs, io};
 
 use amplify::confinement::U32 as U32MAX;
@@ -53,6 +54,23 @@ impl FsBinStore {
         })
     }
 }
+
+/// Writes an object to the file such that an interruption or a failure leaves
+/// the previous content of the file intact.
+fn store_file(object: &impl StrictSerialize, path: &Path) -> Result<(), PersistenceError> {
+    let data = object
+        .to_strict_serialized::<U32MAX>()
+        .map_err(PersistenceError::with)?;
+    let tmp = path.with_extension("tmp");
+    let write = || {
+        let mut file = fs::File::create(&tmp)?;
+        file.write_all(&data)?;
+        file.sync_all()?;
+        fs::rename(&tmp, path)
+    };
+    write().map_err(PersistenceError::with)
+}
+
 impl PersistenceProvider<MemStash> for FsBinStore {
     fn load(&self) -> Result<MemStash, PersistenceError> {
         MemStash::strict_deserialize_from_file::<U32MAX>(&self.stash)
@@ -60,9 +78,7 @@ impl PersistenceProvider<MemStash> for FsBinStore {
     }
 
     fn store(&self, object: &MemStash) -> Result<(), PersistenceError> {
-        object
-            .strict_serialize_to_file::<U32MAX>(&self.stash)
-            .map_err(PersistenceError::with)
+        store_file(object, &self.stash)
     }
 }
 
@@ -73,9 +89,7 @@ impl PersistenceProvider<MemState> for FsBinStore {
     }
 
     fn store(&self, object: &MemState) -> Result<(), PersistenceError> {
-        object
-            .strict_serialize_to_file::<U32MAX>(&self.state)
-            .map_err(PersistenceError::with)
+        store_file(object, &self.state)
     }
 }
 
@@ -86,8 +100,6 @@ impl PersistenceProvider<MemIndex> for FsBinStore {
     }
 
     fn store(&self, object: &MemIndex) -> Result<(), PersistenceError> {
-        object
-            .strict_serialize_to_file::<U32MAX>(&self.index)
-            .map_err(PersistenceError::with)
+        store_file(object, &self.index)
     }
 }
-- 
2.43.0


From 1246b1095eb02bed8884da87048d272894b5ea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:02 +0000
Subject: [PATCH 35/65] fix: keep transitions known only to one of the merged
 bundles

---
 src/contract/merge_reveal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/contract/merge_reveal.rs b/src/contract/merge_reveal.rs
index b662f5a..555b00c 100644
--- a/src/contract/merge_reveal.rs
+++ b/src/contract/merge_reveal.rs
@@ -223,6 +223,8 @@ impl MergeReveal for TransitionBundle {
             if let Some(mut transition) = self_transitions.remove(&opid) {
                 transition = transition.merge_reveal(other_transition)?;
                 self_transitions.insert(opid, transition);
+            } else {
+                self_transitions.insert(opid, other_transition);
             }
         }
         self.known_transitions = Confined::from_checked(self_transitions);
-- 
2.43.0


From 31189c73c0649a74beb68a476c232f4e5112065f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:02 +0000
Subject: [PATCH 36/65] fix: report an error on merging different bundles

---
 src/contract/merge_reveal.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/contract/merge_reveal.rs b/src/contract/merge_reveal.rs
index 555b00c..119e6cf 100644
--- a/src/contract/merge_reveal.rs
+++ b/src/contract/merge_reveal.rs
@@ -38,6 +38,10 @@ pub enum MergeRevealError {
     /// error which should be reported to the software vendor.
     OperationMismatch(OpId, OpId),
 
+    /// bundles {0} and {1} has different commitment ids and can't be
+    /// merge-revealed.
+    BundleMismatch(BundleId, BundleId),
+
     /// mismatch in anchor chains: one grip references bitcoin transaction
     /// {bitcoin} and the other merged part references liquid transaction
     /// {liquid}.
@@ -216,7 +220,11 @@ impl<Seal: ExposedSeal> MergeReveal for Assignments<Seal> {
 
 impl MergeReveal for TransitionBundle {
     fn merge_reveal(mut self, other: Self) -> Result<Self, MergeRevealError> {
-        debug_assert_eq!(self.bundle_id(), other.bundle_id());
+        let self_id = self.bundle_id();
+        let other_id = other.bundle_id();
+        if self_id != other_id {
+            return Err(MergeRevealError::BundleMismatch(self_id, other_id));
+        }
 
         let mut self_transitions = self.known_transitions.release();
         for (opid, other_transition) in other.known_transitions {
-- 
2.43.0


From a74941a3d32db889a70fb84ed489e59d377675cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:03:18 +0000
Subject: [PATCH 37/65] fix: read armored containers with headers spanning
 multiple lines

---
 src/containers/consignment.rs |  3 ++-
 src/containers/file.rs        |  4 +++-
 src/containers/kit.rs         |  5 ++++-
 src/containers/util.rs        | 20 ++++++++++++++++++++
 4 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index d1e85fc..da4dd8e 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -42,6 +42,7 @@ use rgbcore::validation::ConsignmentApi;
 use strict_encoding::{StrictDeserialize, StrictDumb, StrictSerialize};
 use strict_types::TypeSystem;
 
+use super::util::unfold_armor_headers;
 use super::{
     ContainerVer, ContentId, ContentSigs, IndexedConsignment, Supplement, WitnessBundle,
     ASCII_ARMOR_CONSIGNMENT_TYPE, ASCII_ARMOR_CONTRACT, ASCII_ARMOR_IFACE, ASCII_ARMOR_SCHEMA,
@@ -436,7 +437,7 @@ pub enum ConsignmentParseError {
 impl<const TRANSFER: bool> FromStr for Consignment<TRANSFER> {
     type Err = ConsignmentParseError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let consignment = Self::from_ascii_armored_str(s)?;
+        let consignment = Self::from_ascii_armored_str(&unfold_armor_headers(s))?;
 
         if consignment.transfer != TRANSFER {
             return Err(ConsignmentParseError::Type);
diff --git a/src/containers/file.rs b/src/containers/file.rs
index 4cd722c..a99d5d3 100644
--- a/src/containers/file.rs
+++ b/src/containers/file.rs
@@ -26,6 +26,8 @@ use amplify::confinement::U32 as FILE_MAX_LEN;
 use armor::{AsciiArmor, StrictArmor};
 use strict_encoding::{StreamReader, StreamWriter, StrictDecode, StrictEncode};
 
+#[cfg(feature = "fs")]
+use super::util::unfold_armor_headers;
 use crate::containers::{Contract, Kit, Transfer};
 
 const RGB_PREFIX: [u8; 4] = *b"RGB\x00";
@@ -91,7 +93,7 @@ pub trait FileContent: StrictArmor {
     #[cfg(feature = "fs")]
     fn load_armored(path: impl AsRef<std::path::Path>) -> Result<Self, LoadError> {
         let armor = std::fs::read_to_string(path)?;
-        let content = Self::from_ascii_armored_str(&armor)?;
+        let content = Self::from_ascii_armored_str(&unfold_armor_headers(&armor))?;
         Ok(content)
     }
 
diff --git a/src/containers/kit.rs b/src/containers/kit.rs
index 4316f83..3db15b0 100644
--- a/src/containers/kit.rs
+++ b/src/containers/kit.rs
@@ -34,6 +34,7 @@ use rgb::{validation, Schema};
 use strict_encoding::{StrictDeserialize, StrictSerialize};
 use strict_types::TypeSystem;
 
+use super::util::unfold_armor_headers;
 use super::{
     ContentRef, Supplement, ASCII_ARMOR_IFACE, ASCII_ARMOR_IIMPL, ASCII_ARMOR_SCHEMA,
     ASCII_ARMOR_SCRIPT, ASCII_ARMOR_TYPE_SYSTEM, ASCII_ARMOR_VERSION,
@@ -266,7 +267,9 @@ impl StrictArmor for Kit {
 
 impl FromStr for Kit {
     type Err = armor::StrictArmorError;
-    fn from_str(s: &str) -> Result<Self, Self::Err> { Self::from_ascii_armored_str(s) }
+    fn from_str(s: &str) -> Result<Self, Self::Err> {
+        Self::from_ascii_armored_str(&unfold_armor_headers(s))
+    }
 }
 
 #[cfg(test)]
diff --git a/src/containers/util.rs b/src/containers/util.rs
index 92b6804..032e436 100644
--- a/src/containers/util.rs
+++ b/src/containers/util.rs
@@ -97,6 +97,26 @@ pub enum ContentId {
     Suppl(SupplId),
 }
 
+/// Joins the lines of the headers written over multiple lines: the armor parser
+/// supports only a single line per header.
+pub(super) fn unfold_armor_headers(armor: &str) -> String {
+    let mut unfolded = String::with_capacity(armor.len());
+    for line in armor.lines() {
+        match line.strip_prefix('\t') {
+            Some(rest) => {
+                if unfolded.ends_with('\n') {
+                    unfolded.pop();
+                }
+                unfolded.push(' ');
+                unfolded.push_str(rest);
+            }
+            None => unfolded.push_str(line),
+        }
+        unfolded.push('\n');
+    }
+    unfolded
+}
+
 #[derive(Wrapper, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, From, Display)]
 #[wrapper(Deref, AsSlice, BorrowSlice, Hex)]
 #[display(LowerHex)]
-- 
2.43.0


From b0d3b7bf306062659947ace963df8bb14a5435fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:41 +0000
Subject: [PATCH 38/65] fix: refuse files with a consignment of another type

---
 src/containers/file.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/containers/file.rs b/src/containers/file.rs
index a99d5d3..8413eab 100644
--- a/src/containers/file.rs
+++ b/src/containers/file.rs
@@ -39,6 +39,9 @@ pub enum LoadError {
     /// invalid file data.
     InvalidMagic,
 
+    /// the type of the consignment doesn't match the type of the file.
+    InvalidType,
+
     #[display(inner)]
     #[from]
     #[from(io::Error)]
@@ -53,6 +56,9 @@ pub trait FileContent: StrictArmor {
     /// Magic bytes used in saving/restoring container from a file.
     const MAGIC: [u8; MAGIC_LEN];
 
+    /// Checks that the content has the type expected for the container.
+    fn check_type(self) -> Result<Self, LoadError> { Ok(self) }
+
     fn load(mut data: impl Read) -> Result<Self, LoadError> {
         let mut rgb = [0u8; 4];
         let mut magic = [0u8; MAGIC_LEN];
@@ -65,7 +71,7 @@ pub trait FileContent: StrictArmor {
         let reader = StreamReader::new::<FILE_MAX_LEN>(data);
         let me = Self::strict_read(reader)?;
 
-        Ok(me)
+        me.check_type()
     }
 
     fn save(&self, mut writer: impl Write) -> Result<(), io::Error> {
@@ -94,7 +100,7 @@ pub trait FileContent: StrictArmor {
     fn load_armored(path: impl AsRef<std::path::Path>) -> Result<Self, LoadError> {
         let armor = std::fs::read_to_string(path)?;
         let content = Self::from_ascii_armored_str(&unfold_armor_headers(&armor))?;
-        Ok(content)
+        content.check_type()
     }
 
     #[cfg(feature = "fs")]
@@ -109,10 +115,24 @@ impl FileContent for Kit {
 
 impl FileContent for Contract {
     const MAGIC: [u8; MAGIC_LEN] = *b"CON";
+
+    fn check_type(self) -> Result<Self, LoadError> {
+        match !self.transfer {
+            true => Ok(self),
+            false => Err(LoadError::InvalidType),
+        }
+    }
 }
 
 impl FileContent for Transfer {
     const MAGIC: [u8; MAGIC_LEN] = *b"TFR";
+
+    fn check_type(self) -> Result<Self, LoadError> {
+        match self.transfer {
+            true => Ok(self),
+            false => Err(LoadError::InvalidType),
+        }
+    }
 }
 
 // TODO: Add disclosure
@@ -149,8 +169,8 @@ impl UniversalFile {
         let mut reader = StreamReader::new::<FILE_MAX_LEN>(data);
         Ok(match magic {
             x if x == Kit::MAGIC => Kit::strict_read(&mut reader)?.into(),
-            x if x == Contract::MAGIC => Contract::strict_read(&mut reader)?.into(),
-            x if x == Transfer::MAGIC => Transfer::strict_read(&mut reader)?.into(),
+            x if x == Contract::MAGIC => Contract::strict_read(&mut reader)?.check_type()?.into(),
+            x if x == Transfer::MAGIC => Transfer::strict_read(&mut reader)?.check_type()?.into(),
             _ => return Err(LoadError::InvalidMagic),
         })
     }
-- 
2.43.0


From f2d182bc01d03b970c3a50a6f613def2068ebc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:12 +0000
Subject: [PATCH 39/65] fix: commit to the content of attachments in the
 consignment id

---
 src/containers/consignment.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index da4dd8e..d7d6408 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -32,7 +32,9 @@ use amplify::confinement::{
 use amplify::{ByteArray, Bytes32};
 use armor::{ArmorHeader, AsciiArmor, StrictArmor, StrictArmorError};
 use baid64::{Baid64ParseError, DisplayBaid64, FromBaid64Str};
-use commit_verify::{CommitEncode, CommitEngine, CommitId, CommitmentId, DigestExt, Sha256};
+use commit_verify::{
+    CommitEncode, CommitEngine, CommitId, CommitmentId, DigestExt, Sha256, StrictHash,
+};
 use rgb::validation::{ResolveWitness, Validator, Validity, Warning, CONSIGNMENT_MAX_LIBS};
 use rgb::{
     impl_serde_baid64, validation, AttachId, BundleId, ContractId, Extension, Genesis, GraphSeal,
@@ -248,7 +250,13 @@ impl<const TRANSFER: bool> CommitEncode for Consignment<TRANSFER> {
         ));
         e.commit_to_map(&self.terminals);
 
-        e.commit_to_set(&SmallOrdSet::from_iter_checked(self.attachments.keys().copied()));
+        e.commit_to_map(&SmallOrdMap::from_iter_checked(self.attachments.iter().map(
+            |(id, data)| {
+                let mut hasher = Sha256::default();
+                hasher.input_raw(data);
+                (*id, StrictHash::from(hasher))
+            },
+        )));
         e.commit_to_set(&TinyOrdSet::from_iter_checked(
             self.supplements.iter().map(|suppl| suppl.suppl_id()),
         ));
-- 
2.43.0


From 45f15d4988f212387c34096914111b63d3479299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:19 +0000
Subject: [PATCH 40/65] fix: keep metadata added to contract and transition
 builders

---
 src/interface/builder.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index c78723a..d878059 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -382,7 +382,7 @@ impl ContractBuilder {
     }
 
     fn issue_contract_raw(self, timestamp: i64) -> Result<ValidConsignment<false>, BuilderError> {
-        let (schema, iface, iimpl, global, assignments, types, asset_tags) =
+        let (schema, iface, iimpl, metadata, global, assignments, types, asset_tags) =
             self.builder.complete(None);
 
         let genesis = Genesis {
@@ -393,7 +393,7 @@ impl ContractBuilder {
             testnet: self.testnet,
             alt_layers1: self.alt_layers1,
             asset_tags,
-            metadata: empty!(),
+            metadata,
             globals: global,
             assignments,
             valencies: none!(),
@@ -800,14 +800,14 @@ impl TransitionBuilder {
     pub fn has_inputs(&self) -> bool { !self.inputs.is_empty() }
 
     pub fn complete_transition(self) -> Result<Transition, BuilderError> {
-        let (_, _, _, global, assignments, _, _) = self.builder.complete(Some(&self.inputs));
+        let (_, _, _, metadata, global, assignments, _, _) = self.builder.complete(Some(&self.inputs));
 
         let transition = Transition {
             ffv: none!(),
             contract_id: self.contract_id,
             nonce: self.nonce,
             transition_type: self.transition_type,
-            metadata: empty!(),
+            metadata,
             globals: global,
             inputs: SmallOrdSet::from_iter_checked(self.inputs.into_keys()).into(),
             assignments,
@@ -1330,7 +1330,8 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
     fn complete(
         self,
         inputs: Option<&TinyOrdMap<Input, PersistedState>>,
-    ) -> (Schema, Iface, IfaceImpl, GlobalState, Assignments<Seal>, TypeSystem, AssetTags) {
+    ) -> (Schema, Iface, IfaceImpl, Metadata, GlobalState, Assignments<Seal>, TypeSystem, AssetTags)
+    {
         let owned_state = self.fungible.into_iter().map(|(id, vec)| {
             let mut blindings = Vec::with_capacity(vec.len());
             let mut vec = vec
@@ -1446,6 +1447,15 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             .extend(Assignments::from_inner(owned_attachments).into_inner())
             .expect("too many assignments");
 
-        (self.schema, self.iface, self.iimpl, self.global, assignments, self.types, self.asset_tags)
+        (
+            self.schema,
+            self.iface,
+            self.iimpl,
+            self.meta,
+            self.global,
+            assignments,
+            self.types,
+            self.asset_tags,
+        )
     }
 }
-- 
2.43.0


From b9b4f97e4df74b416446899ffa1ec87e8b00e3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:52 +0000
Subject: [PATCH 41/65] fix: refuse owned data not matching its type in
 operation builders

---
 src/interface/builder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index d878059..e694058 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -1242,7 +1242,11 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         state: RevealedData,
     ) -> Result<Self, BuilderError> {
         let state_schema = self.state_schema(type_id);
-        if let OwnedStateSchema::Structured(_) = *state_schema {
+        if let OwnedStateSchema::Structured(sem_id) = *state_schema {
+            // Check value matches type requirements
+            self.types
+                .strict_deserialize_type(sem_id, state.value.as_ref())?;
+
             let seal = seal.into();
             match self.data.get_mut(&type_id) {
                 Some(assignments) => {
-- 
2.43.0


From 6d1491ac373c1a5432f7efd2f1230e5fd16f2226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:52 +0000
Subject: [PATCH 42/65] fix: report error on state types unknown to the schema
 in operation builders

---
 src/interface/builder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index e694058..9aa8c7e 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -918,11 +918,11 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
     }
 
     #[inline]
-    fn state_schema(&self, type_id: AssignmentType) -> &OwnedStateSchema {
+    fn state_schema(&self, type_id: AssignmentType) -> Result<&OwnedStateSchema, BuilderError> {
         self.schema
             .owned_types
             .get(&type_id)
-            .expect("schema should match interface: must be checked by the constructor")
+            .ok_or(BuilderError::InvalidStateType(type_id))
     }
 
     #[inline]
@@ -1108,7 +1108,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         type_id: AssignmentType,
         seal: impl Into<BuilderSeal<Seal>>,
     ) -> Result<Self, BuilderError> {
-        let state_schema = self.state_schema(type_id);
+        let state_schema = self.state_schema(type_id)?;
         if *state_schema != OwnedStateSchema::Declarative {
             return Err(BuilderError::InvalidStateType(type_id));
         }
@@ -1174,7 +1174,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         seal: impl Into<BuilderSeal<Seal>>,
         state: RevealedValue,
     ) -> Result<Self, BuilderError> {
-        let state_schema = self.state_schema(type_id);
+        let state_schema = self.state_schema(type_id)?;
         if *state_schema != OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit) {
             return Err(BuilderError::InvalidStateType(type_id));
         }
@@ -1241,7 +1241,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         seal: impl Into<BuilderSeal<Seal>>,
         state: RevealedData,
     ) -> Result<Self, BuilderError> {
-        let state_schema = self.state_schema(type_id);
+        let state_schema = self.state_schema(type_id)?;
         if let OwnedStateSchema::Structured(sem_id) = *state_schema {
             // Check value matches type requirements
             self.types
@@ -1313,7 +1313,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         seal: impl Into<BuilderSeal<Seal>>,
         state: RevealedAttach,
     ) -> Result<Self, BuilderError> {
-        let state_schema = self.state_schema(type_id);
+        let state_schema = self.state_schema(type_id)?;
         if let OwnedStateSchema::Attachment(_) = *state_schema {
             let seal = seal.into();
             match self.attachments.get_mut(&type_id) {
-- 
2.43.0


From 2635bf274eac5e9667227981056b12b48f9a6d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:03:03 +0000
Subject: [PATCH 43/65] fix: refuse transition inputs with a state of another
 kind

---
 src/interface/builder.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index 9aa8c7e..9101296 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -32,7 +32,7 @@ use rgb::{
     validation, AltLayer1, AltLayer1Set, AssetTag, AssetTags, Assign, AssignmentType, Assignments,
     AttachState, BlindingFactor, ContractId, DataState, ExposedSeal, FungibleType, Genesis,
     GenesisSeal, GlobalState, GraphSeal, Identity, Input, Layer1, MetadataError, Opout,
-    OwnedStateSchema, RevealedAttach, RevealedData, RevealedValue, Schema, Transition,
+    OwnedStateSchema, RevealedAttach, RevealedData, RevealedValue, Schema, StateType, Transition,
     TransitionType, TypedAssigns, XChain, XOutpoint,
 };
 use rgbcore::{GlobalStateSchema, GlobalStateType, MetaType, Metadata, ValencyType};
@@ -609,6 +609,15 @@ impl TransitionBuilder {
     }
 
     pub fn add_input(mut self, opout: Opout, state: PersistedState) -> Result<Self, BuilderError> {
+        let state_type = match state {
+            PersistedState::Void => StateType::Void,
+            PersistedState::Amount(..) => StateType::Fungible,
+            PersistedState::Data(..) => StateType::Structured,
+            PersistedState::Attachment(..) => StateType::Attachment,
+        };
+        if self.builder.state_schema(opout.ty)?.state_type() != state_type {
+            return Err(BuilderError::InvalidStateType(opout.ty));
+        }
         self.inputs.insert(Input::with(opout), state)?;
         Ok(self)
     }
-- 
2.43.0


From 8de0963ddfe26a03b9acddd7422f52468709265b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:03:03 +0000
Subject: [PATCH 44/65] fix: report error on a default assignment of a blank
 transition

---
 src/interface/builder.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index 9101296..ddc81de 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -625,8 +625,7 @@ impl TransitionBuilder {
     pub fn default_assignment(&self) -> Result<&FieldName, BuilderError> {
         self.builder
             .transition_iface(self.transition_type)
-            .default_assignment
-            .as_ref()
+            .and_then(|iface| iface.default_assignment.as_ref())
             .ok_or(BuilderError::NoDefaultAssignment)
     }
 
@@ -896,12 +895,11 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
 
     fn type_system(&self) -> &TypeSystem { &self.types }
 
-    fn transition_iface(&self, ty: TransitionType) -> &TransitionIface {
-        let transition_name = self.iimpl.transition_name(ty).expect("reverse type");
-        self.iface
-            .transitions
-            .get(transition_name)
-            .expect("internal inconsistency")
+    /// Returns `None` for the transitions which are not a part of the
+    /// interface, including the blank one.
+    fn transition_iface(&self, ty: TransitionType) -> Option<&TransitionIface> {
+        let transition_name = self.iimpl.transition_name(ty)?;
+        self.iface.transitions.get(transition_name)
     }
 
     fn assignments_type(&self, name: &FieldName) -> Option<AssignmentType> {
-- 
2.43.0


From 0b66f0fb443264e503f3400a0458e0ebbdaea8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:13:20 +0000
Subject: [PATCH 45/65] fix: report interface implementation fields repeated
 twice

---
 src/interface/iimpl.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/interface/iimpl.rs b/src/interface/iimpl.rs
index 1e528ed..f381b68 100644
--- a/src/interface/iimpl.rs
+++ b/src/interface/iimpl.rs
@@ -421,7 +421,7 @@ impl IfaceImpl {
             dup_metadata
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
             if !schema.meta_types.contains_key(&field.id) {
                 errors.push(ImplInconsistency::SchemaMetaAbsent(field.name.clone(), field.id));
             }
@@ -443,7 +443,7 @@ impl IfaceImpl {
             dup_global_state
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
             if !schema.global_types.contains_key(&field.id) {
                 errors.push(ImplInconsistency::SchemaGlobalAbsent(field.name.clone(), field.id));
             }
@@ -465,7 +465,7 @@ impl IfaceImpl {
             dup_assignments
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
             if !schema.owned_types.contains_key(&field.id) {
                 errors
                     .push(ImplInconsistency::SchemaAssignmentAbsent(field.name.clone(), field.id));
@@ -488,7 +488,7 @@ impl IfaceImpl {
             dup_valencies
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
 
             if !schema.valency_types.contains(&field.id) {
                 errors.push(ImplInconsistency::SchemaValencyAbsent(field.name.clone(), field.id));
@@ -510,7 +510,7 @@ impl IfaceImpl {
             dup_transitions
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
 
             if !schema.transitions.contains_key(&field.id) {
                 errors
@@ -534,7 +534,7 @@ impl IfaceImpl {
             dup_extensions
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
 
             if !schema.extensions.contains_key(&field.id) {
                 errors.push(ImplInconsistency::SchemaExtensionAbsent(field.name.clone(), field.id));
-- 
2.43.0


From 0ea2590d1aaf9e0fba57c94f86a582531fed283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:13:20 +0000
Subject: [PATCH 46/65] fix: let interface implementations omit optional
 operations

---
 src/interface/iimpl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interface/iimpl.rs b/src/interface/iimpl.rs
index f381b68..dd7e57c 100644
--- a/src/interface/iimpl.rs
+++ b/src/interface/iimpl.rs
@@ -501,8 +501,8 @@ impl IfaceImpl {
                 errors.push(ImplInconsistency::RepeatedValencies(field_name.clone(), count));
             });
 
-        for name in iface.transitions.keys() {
-            if self.transitions.iter().all(|field| &field.name != name) {
+        for (name, op) in &iface.transitions {
+            if !op.optional && self.transitions.iter().all(|field| &field.name != name) {
                 errors.push(ImplInconsistency::IfaceTransitionAbsent(name.clone()));
             }
         }
@@ -525,8 +525,8 @@ impl IfaceImpl {
                 errors.push(ImplInconsistency::RepeatedTransitions(field_name.clone(), count));
             });
 
-        for name in iface.extensions.keys() {
-            if self.extensions.iter().all(|field| &field.name != name) {
+        for (name, op) in &iface.extensions {
+            if !op.optional && self.extensions.iter().all(|field| &field.name != name) {
                 errors.push(ImplInconsistency::IfaceExtensionAbsent(name.clone()));
             }
         }
-- 
2.43.0


From f91a481f2f2986a5f92db6ee498f8d4f7f75cec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:13:20 +0000
Subject: [PATCH 47/65] fix: keep valencies in implementations derived for
 parent interfaces

---
 src/interface/inheritance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index 518c059..3b98c0b 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -708,7 +708,7 @@ impl IfaceImpl {
                     .cloned()
             }));
 
-        self.valencies = Confined::from_iter_checked(base.assignments.keys().filter_map(|name| {
+        self.valencies = Confined::from_iter_checked(base.valencies.keys().filter_map(|name| {
             self.valencies
                 .iter()
                 .find(|i| parent.valencies.contains_key(name) && &i.name == name)
-- 
2.43.0


From 05c710c75753cd972ef579b5512bfb2243687641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:13:21 +0000
Subject: [PATCH 48/65] fix: drop errors unknown to parent interface from
 derived implementations

---
 src/interface/inheritance.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index 3b98c0b..c4642d0 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -730,6 +730,13 @@ impl IfaceImpl {
                 .cloned()
         }));
 
+        self.errors = Confined::from_iter_checked(base.errors.keys().filter_map(|name| {
+            self.errors
+                .iter()
+                .find(|i| parent.errors.contains_key(name) && &i.name == name)
+                .cloned()
+        }));
+
         self.iface_id = parent_id;
 
         Some(self)
-- 
2.43.0


From 3ac53e6d3c8d568a8a48517853b2dd05b34c7469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:21:06 +0000
Subject: [PATCH 49/65] fix: refuse interface extensions changing type of
 metadata

---
 src/interface/inheritance.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index c4642d0..8a3269a 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -232,6 +232,8 @@ pub struct InheritError {
 pub enum ExtensionError {
     /// too many metadata fields defined.
     MetaOverflow,
+    /// metadata '{0}' has different data type from the parent interface.
+    MetaType(FieldName),
     /// too many global state types defined.
     GlobalOverflow,
     /// global state '{0}' has different data type from the parent interface.
@@ -359,10 +361,22 @@ impl Iface {
 
         let mut errors = vec![];
 
-        self.metadata
-            .extend(ext.metadata)
-            .map_err(|_| errors.push(ExtensionError::MetaOverflow))
-            .ok();
+        for (name, sem_id) in ext.metadata {
+            match self.metadata.get(&name) {
+                None => {
+                    if self
+                        .metadata
+                        .insert(name, sem_id)
+                        .map_err(|_| errors.push(ExtensionError::MetaOverflow))
+                        .is_err()
+                    {
+                        break;
+                    }
+                }
+                Some(orig) if *orig != sem_id => errors.push(ExtensionError::MetaType(name)),
+                Some(_) => {}
+            }
+        }
 
         for (name, e) in ext.global_state {
             match self.global_state.get_mut(&name) {
-- 
2.43.0


From 811a9a3411145254bd1c03332a71e2f472708471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:21:06 +0000
Subject: [PATCH 50/65] fix: keep final operations of interface extensions
 final

---
 src/interface/inheritance.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index 8a3269a..be97fcc 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -590,6 +590,7 @@ impl GenesisIface {
         } else if !self.modifier.can_be_overridden_by(ext.modifier) {
             errors.push(ExtensionError::OpNoOverride(op.clone()));
         }
+        self.modifier = ext.modifier;
 
         self.metadata
             .extend(ext.metadata)
@@ -619,6 +620,7 @@ impl TransitionIface {
         } else if !self.modifier.can_be_overridden_by(ext.modifier) {
             errors.push(ExtensionError::OpNoOverride(op.clone()));
         }
+        self.modifier = ext.modifier;
         self.optional = self.optional.max(ext.optional);
 
         self.metadata
@@ -660,6 +662,7 @@ impl ExtensionIface {
         } else if !self.modifier.can_be_overridden_by(ext.modifier) {
             errors.push(ExtensionError::OpNoOverride(op.clone()));
         }
+        self.modifier = ext.modifier;
         self.optional = self.optional.max(ext.optional);
 
         self.metadata
-- 
2.43.0


From 7d616f7aa098069b1926cdb6385239f8956859e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:21:06 +0000
Subject: [PATCH 51/65] fix: keep operations required by parent interface
 required in extensions

---
 src/interface/inheritance.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index be97fcc..8815c19 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -621,7 +621,7 @@ impl TransitionIface {
             errors.push(ExtensionError::OpNoOverride(op.clone()));
         }
         self.modifier = ext.modifier;
-        self.optional = self.optional.max(ext.optional);
+        self.optional = self.optional.min(ext.optional);
 
         self.metadata
             .extend(ext.metadata)
@@ -663,7 +663,7 @@ impl ExtensionIface {
             errors.push(ExtensionError::OpNoOverride(op.clone()));
         }
         self.modifier = ext.modifier;
-        self.optional = self.optional.max(ext.optional);
+        self.optional = self.optional.min(ext.optional);
 
         self.metadata
             .extend(ext.metadata)
-- 
2.43.0


From 77f80d077d3bee89d4b7687adbe32ce3927cd0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:21:06 +0000
Subject: [PATCH 52/65] fix: name state extensions in interface extension
 errors

---
 src/interface/inheritance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index 8815c19..420aa07 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -656,7 +656,7 @@ impl ExtensionIface {
     pub fn extended(mut self, ext: Self, op_name: FieldName) -> Result<Self, Vec<ExtensionError>> {
         let mut errors = vec![];
 
-        let op = OpName::Transition(op_name);
+        let op = OpName::Extension(op_name);
         if self.modifier.is_final() {
             errors.push(ExtensionError::OpFinal(op.clone()));
         } else if !self.modifier.can_be_overridden_by(ext.modifier) {
-- 
2.43.0


From ebdffa11080dbeb4bbe1062eec5fefa0d0b11bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:21:06 +0000
Subject: [PATCH 53/65] fix: refuse interface extensions using name of other
 kind of operation

---
 src/interface/inheritance.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index 420aa07..415bcca 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -256,6 +256,8 @@ pub enum ExtensionError {
     TransitionOverflow,
     /// too many state extensions.
     ExtensionOverflow,
+    /// operation name '{0}' is used by both state transition and extension.
+    RepeatedOperationName(FieldName),
     /// too many error types defined.
     ErrorOverflow,
     /// inherited interface tries to override the parent default operation.
@@ -458,6 +460,10 @@ impl Iface {
             .ok();
 
         for (name, op) in ext.transitions {
+            if self.extensions.contains_key(&name) {
+                errors.push(ExtensionError::RepeatedOperationName(name));
+                continue;
+            }
             match self.transitions.remove(&name) {
                 Ok(None) if op.optional => continue,
                 Ok(None) => {
@@ -481,6 +487,10 @@ impl Iface {
         }
 
         for (name, op) in ext.extensions {
+            if self.transitions.contains_key(&name) {
+                errors.push(ExtensionError::RepeatedOperationName(name));
+                continue;
+            }
             match self.extensions.remove(&name) {
                 Ok(None) if op.optional => continue,
                 Ok(None) => {
-- 
2.43.0


From 8d76abf79648bd74c90c632d8073cccc8ce12f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:40 +0000
Subject: [PATCH 54/65] fix: refuse control characters in names

---
 src/stl/specs.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/stl/specs.rs b/src/stl/specs.rs
index f51afc5..63873aa 100644
--- a/src/stl/specs.rs
+++ b/src/stl/specs.rs
@@ -30,8 +30,8 @@ use amplify::Bytes32;
 use invoice::Precision;
 use strict_encoding::stl::{Alpha, AlphaNum, AsciiPrintable};
 use strict_encoding::{
-    InvalidRString, RString, StrictDeserialize, StrictDumb, StrictEncode, StrictSerialize,
-    StrictType,
+    DecodeError, InvalidRString, RString, StrictDecode, StrictDeserialize, StrictDumb,
+    StrictEncode, StrictSerialize, StrictType, TypedRead,
 };
 use strict_types::StrictVal;
 
@@ -106,16 +106,36 @@ impl_ident_type!(Ticker);
 impl_ident_subtype!(Ticker);
 
 #[derive(Wrapper, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, From)]
-#[wrapper(Deref, Display, FromStr)]
-#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
+#[wrapper(Deref, Display)]
+#[derive(StrictType, StrictDumb, StrictEncode)]
 #[strict_type(lib = LIB_NAME_RGB_CONTRACT)]
 #[cfg_attr(
     feature = "serde",
     derive(Serialize, Deserialize),
-    serde(crate = "serde_crate", transparent)
+    serde(crate = "serde_crate", try_from = "String", into = "String")
 )]
 pub struct Name(RString<AsciiPrintable, AsciiPrintable, 1, 40>);
 
+impl FromStr for Name {
+    type Err = InvalidRString;
+
+    fn from_str(s: &str) -> Result<Self, Self::Err> {
+        // `AsciiPrintable` doesn't filter out control characters
+        if let Some((pos, ch)) = s.char_indices().find(|(_, ch)| ch.is_ascii_control()) {
+            return Err(InvalidRString::InvalidChar(s.to_owned(), ch, pos));
+        }
+        RString::from_str(s).map(Self)
+    }
+}
+
+impl StrictDecode for Name {
+    fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
+        let name = reader.read_newtype::<Self>()?;
+        Self::from_str(name.as_str())
+            .map_err(|err| DecodeError::DataIntegrityError(err.to_string()))
+    }
+}
+
 impl StrictSerialize for Name {}
 impl StrictDeserialize for Name {}
 
-- 
2.43.0


From c96bfe32022f5557d337f4820cc4e16ad5e82d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:41 +0000
Subject: [PATCH 55/65] fix: check length of details and contract texts read
 with serde

---
 src/stl/specs.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/stl/specs.rs b/src/stl/specs.rs
index 63873aa..d3a0bae 100644
--- a/src/stl/specs.rs
+++ b/src/stl/specs.rs
@@ -155,12 +155,16 @@ impl Name {
 #[cfg_attr(
     feature = "serde",
     derive(Serialize, Deserialize),
-    serde(crate = "serde_crate", transparent)
+    serde(crate = "serde_crate", try_from = "String", into = "String")
 )]
 pub struct Details(NonEmptyString<U8>);
 impl StrictSerialize for Details {}
 impl StrictDeserialize for Details {}
 
+impl From<Details> for String {
+    fn from(details: Details) -> Self { details.0.release() }
+}
+
 impl AsRef<str> for Details {
     #[inline]
     fn as_ref(&self) -> &str { self.0.as_str() }
@@ -353,12 +357,25 @@ impl ContractSpec {
 #[cfg_attr(
     feature = "serde",
     derive(Serialize, Deserialize),
-    serde(crate = "serde_crate", transparent)
+    serde(crate = "serde_crate", try_from = "String", into = "String")
 )]
 pub struct RicardianContract(SmallString);
 impl StrictSerialize for RicardianContract {}
 impl StrictDeserialize for RicardianContract {}
 
+impl From<RicardianContract> for String {
+    fn from(text: RicardianContract) -> Self { text.0.release() }
+}
+
+impl TryFrom<String> for RicardianContract {
+    type Error = InvalidRString;
+
+    fn try_from(text: String) -> Result<Self, InvalidRString> {
+        let s = Confined::try_from(text)?;
+        Ok(Self(s))
+    }
+}
+
 impl AsRef<str> for RicardianContract {
     #[inline]
     fn as_ref(&self) -> &str { self.0.as_str() }
-- 
2.43.0


From c2b60a36e8aa6f3a7fc55738ec2517bbf40c651b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:33:55 +0000
Subject: [PATCH 56/65] fix: make order of tickers agree with their equality

---
 src/stl/specs.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/stl/specs.rs b/src/stl/specs.rs
index d3a0bae..d177823 100644
--- a/src/stl/specs.rs
+++ b/src/stl/specs.rs
@@ -21,6 +21,7 @@
 
 #![allow(unused_braces)] // caused by rustc unable to understand strict_dumb
 
+use std::cmp::Ordering;
 use std::fmt::{self, Debug, Formatter};
 use std::hash::{Hash, Hasher};
 use std::str::FromStr;
@@ -79,7 +80,7 @@ pub struct Article(RString<Alpha, AlphaNum, 1, 32>);
 impl_ident_type!(Article);
 impl_ident_subtype!(Article);
 
-#[derive(Wrapper, Clone, Ord, PartialOrd, Eq, From)]
+#[derive(Wrapper, Clone, Eq, From)]
 #[wrapper(Deref, Display, FromStr)]
 #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
 #[strict_type(lib = LIB_NAME_RGB_CONTRACT, dumb = { Ticker::from("DUMB") })]
@@ -98,6 +99,18 @@ impl PartialEq for Ticker {
     }
 }
 
+impl Ord for Ticker {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.as_str()
+            .to_uppercase()
+            .cmp(&other.as_str().to_uppercase())
+    }
+}
+
+impl PartialOrd for Ticker {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> { Some(self.cmp(other)) }
+}
+
 impl Hash for Ticker {
     fn hash<H: Hasher>(&self, state: &mut H) { self.as_str().to_uppercase().hash(state) }
 }
-- 
2.43.0


From 8c8fcc49bc4a0fdc7158d41622e9838848c01040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:51:23 +0000
Subject: [PATCH 57/65] fix: keep annotations of a supplement when a new one
 can't be added

---
 src/containers/suppl.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/containers/suppl.rs b/src/containers/suppl.rs
index 5da0ea8..d5dcf2e 100644
--- a/src/containers/suppl.rs
+++ b/src/containers/suppl.rs
@@ -19,6 +19,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+use std::collections::btree_map::Entry;
 use std::fmt;
 use std::fmt::{Display, Formatter};
 use std::str::FromStr;
@@ -276,18 +277,18 @@ impl Supplement {
         name: impl Into<AnnotationName>,
         data: &impl StrictSerialize,
     ) -> Result<bool, SerializeError> {
-        let mut a = self
-            .annotations
-            .remove(&sub)
-            .expect("zero items allowed")
-            .unwrap_or_default();
-        let mut b = a
-            .remove(&item)
-            .expect("zero items allowed")
-            .unwrap_or_default();
-        let prev = b.insert(name.into(), data.to_strict_serialized()?)?;
-        a.insert(item, b)?;
-        self.annotations.insert(sub, a)?;
+        let data = data.to_strict_serialized()?;
+        // The existing annotations must not be lost if the new one doesn't fit
+        let mut a = self.annotations.clone();
+        let b = a.entry(sub)?.or_default().entry(item)?.or_default();
+        let prev = match b.entry(name.into())? {
+            Entry::Occupied(mut entry) => Some(entry.insert(data)),
+            Entry::Vacant(entry) => {
+                entry.insert(data);
+                None
+            }
+        };
+        self.annotations = a;
         Ok(prev.is_some())
     }
 }
-- 
2.43.0


From f697b71e8a6a0f451345dddc60a97cb6af0223d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:58:08 +0000
Subject: [PATCH 58/65] fix: export implementations together with the
 interfaces they implement

---
 src/persistence/stash.rs | 5 ++---
 src/persistence/stock.rs | 8 ++++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/persistence/stash.rs b/src/persistence/stash.rs
index 434dd2b..a6398e5 100644
--- a/src/persistence/stash.rs
+++ b/src/persistence/stash.rs
@@ -417,9 +417,8 @@ impl<P: StashProvider> Stash<P> {
                 types,
             )
         } else {
-            let (default_iface_name, default_iimpl) =
-                schema_ifaces.iimpls.first_key_value().unwrap();
-            let default_iface = self.iface(default_iface_name.clone())?;
+            let (_, default_iimpl) = schema_ifaces.iimpls.first_key_value().unwrap();
+            let default_iface = self.iface(default_iimpl.iface_id)?;
 
             TransitionBuilder::blank_transition(
                 contract_id,
diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index c1ceb60..31b9b56 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -708,8 +708,8 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
         kit.schemata
             .push(schema_ifaces.schema.clone())
             .expect("single item");
-        for name in schema_ifaces.iimpls.keys() {
-            let iface = self.stash.iface(name.clone())?;
+        for iimpl in schema_ifaces.iimpls.values() {
+            let iface = self.stash.iface(iimpl.iface_id)?;
             kit.ifaces.push(iface.clone()).expect("type guarantees");
         }
         kit.iimpls
@@ -838,8 +838,8 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
 
         let schema_ifaces = self.stash.schema(genesis.schema_id)?.clone();
         let mut ifaces = BTreeMap::new();
-        for (iface_id, iimpl) in schema_ifaces.iimpls {
-            let iface = self.stash.iface(iface_id)?;
+        for iimpl in schema_ifaces.iimpls.release().into_values() {
+            let iface = self.stash.iface(iimpl.iface_id)?;
             // Get iface and iimpl signatures by iface id and iimpl id
             self.stash
                 .sigs_for(&ContentId::Iface(iface.iface_id()))?
-- 
2.43.0


From a239de8dad4e45f62498a76ca2b9fb69b6dd74f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:20 +0000
Subject: [PATCH 59/65] fix: refuse consignments with repeated bundles

---
 src/containers/consignment.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index d7d6408..39efe7b 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -35,7 +35,9 @@ use baid64::{Baid64ParseError, DisplayBaid64, FromBaid64Str};
 use commit_verify::{
     CommitEncode, CommitEngine, CommitId, CommitmentId, DigestExt, Sha256, StrictHash,
 };
-use rgb::validation::{ResolveWitness, Validator, Validity, Warning, CONSIGNMENT_MAX_LIBS};
+use rgb::validation::{
+    Failure, ResolveWitness, Validator, Validity, Warning, CONSIGNMENT_MAX_LIBS,
+};
 use rgb::{
     impl_serde_baid64, validation, AttachId, BundleId, ContractId, Extension, Genesis, GraphSeal,
     Operation, Schema, SchemaId, XChain,
@@ -346,6 +348,21 @@ impl<const TRANSFER: bool> Consignment<TRANSFER> {
             (&self.schema, self.contract_id()),
         );
 
+        // check that operations are provided only once: the index given to the validator keeps a
+        // single bundle per id, while the others will stay unchecked
+        let mut bundle_ids = BTreeSet::new();
+        for bundle_id in self.bundles.iter().flat_map(|witness_bundle| {
+            witness_bundle
+                .anchored_bundles()
+                .map(|(_, bundle)| bundle.bundle_id())
+        }) {
+            if !bundle_ids.insert(bundle_id) {
+                status.add_failure(Failure::Custom(format!(
+                    "bundle {bundle_id} is present in the consignment multiple times"
+                )));
+            }
+        }
+
         let validity = status.validity();
 
         if self.transfer != TRANSFER {
-- 
2.43.0


From ba2214260b993e686e591fbd0fa40b69d8b5456a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:12:05 +0000
Subject: [PATCH 60/65] fix: refuse consignments with transitions not committed
 by bundles

---
 src/containers/consignment.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index 39efe7b..e0c7fd2 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -351,16 +351,23 @@ impl<const TRANSFER: bool> Consignment<TRANSFER> {
         // check that operations are provided only once: the index given to the validator keeps a
         // single bundle per id, while the others will stay unchecked
         let mut bundle_ids = BTreeSet::new();
-        for bundle_id in self.bundles.iter().flat_map(|witness_bundle| {
-            witness_bundle
-                .anchored_bundles()
-                .map(|(_, bundle)| bundle.bundle_id())
-        }) {
+        for (_, bundle) in self
+            .bundles
+            .iter()
+            .flat_map(WitnessBundle::anchored_bundles)
+        {
+            let bundle_id = bundle.bundle_id();
             if !bundle_ids.insert(bundle_id) {
                 status.add_failure(Failure::Custom(format!(
                     "bundle {bundle_id} is present in the consignment multiple times"
                 )));
             }
+            // bundle id doesn't commit to the transitions missed from the input map
+            for opid in bundle.known_transitions.keys() {
+                if bundle.input_map.values().all(|id| id != opid) {
+                    status.add_failure(Failure::BundleExtraTransition(bundle_id, *opid));
+                }
+            }
         }
 
         let validity = status.validity();
-- 
2.43.0


From 3c32da3a7041d1db56c6c5731ebffdc69998f393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:15:37 +0000
Subject: [PATCH 61/65] fix: refuse consignments spending state twice in a
 bundle

---
 src/containers/consignment.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index e0c7fd2..0ce0b6a 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -368,6 +368,19 @@ impl<const TRANSFER: bool> Consignment<TRANSFER> {
                     status.add_failure(Failure::BundleExtraTransition(bundle_id, *opid));
                 }
             }
+            let mut inputs = BTreeSet::new();
+            for input in bundle
+                .known_transitions
+                .values()
+                .flat_map(|transition| &transition.inputs)
+            {
+                if !inputs.insert(input.prev_out) {
+                    status.add_failure(Failure::Custom(format!(
+                        "state {} is spent by multiple transitions of bundle {bundle_id}",
+                        input.prev_out
+                    )));
+                }
+            }
         }
 
         let validity = status.validity();
-- 
2.43.0


From 62bc2fa99eb4662a9c033ba5d16ddfb477b17bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:16:22 +0000
Subject: [PATCH 62/65] fix: report unknown global state of consignments
 instead of panicking

---
 src/persistence/memory.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 0664ff5..20c40d9 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -802,10 +802,11 @@ impl MemContractState {
         let opid = op.id();
 
         for (ty, state) in op.globals() {
-            let map = self
-                .global
-                .get_mut(ty)
-                .expect("global map must be initialized from the schema");
+            // The global map is initialized from the schema; state of a type unknown to the schema
+            // is reported as a failure during the validation
+            let Some(map) = self.global.get_mut(ty) else {
+                continue;
+            };
             for (idx, s) in state.iter().enumerate() {
                 let out = GlobalOut {
                     opid,
-- 
2.43.0


From 1d75ae08e8aa1f7680dde0f049e04bfbba5d8c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:19:56 +0000
Subject: [PATCH 63/65] fix: export libraries called by other libraries

---
 src/persistence/stash.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/persistence/stash.rs b/src/persistence/stash.rs
index a6398e5..7ba652b 100644
--- a/src/persistence/stash.rs
+++ b/src/persistence/stash.rs
@@ -312,8 +312,14 @@ impl<P: StashProvider> Stash<P> {
             .extract(type_iter)?;
 
         let mut scripts = BTreeMap::new();
-        for id in schema.libs() {
+        let mut queue = schema.libs().collect::<Vec<_>>();
+        while let Some(id) = queue.pop() {
+            if scripts.contains_key(&id) {
+                continue;
+            }
             let lib = self.provider.lib(id)?;
+            // Libraries may call other libraries
+            queue.extend(lib.libs.iter().copied());
             scripts.insert(id, lib.clone());
         }
         let scripts = Scripts::try_from(scripts)
-- 
2.43.0


From 12fafc89d146777db9c8a0de008aff82e8c3be2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:22:54 +0000
Subject: [PATCH 64/65] fix: refuse consignments lacking script libraries

---
 src/containers/consignment.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index 0ce0b6a..3eafda6 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -19,7 +19,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-use std::collections::BTreeSet;
+use std::collections::{BTreeMap, BTreeSet};
 use std::fmt;
 use std::fmt::{Display, Formatter};
 use std::ops::Deref;
@@ -383,6 +383,25 @@ impl<const TRANSFER: bool> Consignment<TRANSFER> {
             }
         }
 
+        // check that all scripts are present: the virtual machine skips code of unknown libraries
+        let libs = self
+            .scripts
+            .iter()
+            .map(|lib| (lib.id(), lib))
+            .collect::<BTreeMap<_, _>>();
+        for lib_id in self
+            .schema
+            .libs()
+            .chain(libs.values().flat_map(|lib| lib.libs.iter().copied()))
+            .collect::<BTreeSet<_>>()
+        {
+            if !libs.contains_key(&lib_id) {
+                status.add_failure(Failure::Custom(format!(
+                    "script library {lib_id} is not present in the consignment"
+                )));
+            }
+        }
+
         let validity = status.validity();
 
         if self.transfer != TRANSFER {
-- 
2.43.0


From e80b8979ad5ce92044670789cedcc6e7b0c38725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:33:10 +0000
Subject: [PATCH 65/65] fix: refuse consignments with witness outputs on
 another layer

---
 src/containers/consignment.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index 3eafda6..5ae60ae 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -340,6 +340,31 @@ impl<const TRANSFER: bool> Consignment<TRANSFER> {
         //_: &impl SigValidator,
         testnet: bool,
     ) -> Result<ValidConsignment<TRANSFER>, (validation::Status, Consignment<TRANSFER>)> {
+        // check that outputs of witness transactions are used only on their own layer, since
+        // otherwise the validator won't be able to compute the contract state
+        let mut status = validation::Status::new();
+        for witness_bundle in &self.bundles {
+            let witness_id = witness_bundle.witness_id();
+            for seal in witness_bundle
+                .known_transitions()
+                .flat_map(|transition| transition.assignments.values())
+                .flat_map(|assigns| {
+                    (0..assigns.len_u16())
+                        .filter_map(|no| assigns.revealed_seal_at(no).ok().flatten())
+                })
+            {
+                if seal.try_to_output_seal(witness_id).is_err() {
+                    status.add_failure(Failure::SealWitnessLayer1Mismatch {
+                        seal: seal.layer1(),
+                        anchor: witness_id.layer1(),
+                    });
+                }
+            }
+        }
+        if status.validity() == Validity::Invalid {
+            return Err((status, self));
+        }
+
         let index = IndexedConsignment::new(&self);
         let mut status = Validator::<MemContract<MemContractState>, _, _>::validate(
             &index,
-- 
2.43.0

