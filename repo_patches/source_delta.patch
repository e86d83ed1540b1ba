From 5970bb187eb2fecc6156b1c312fb999b5b86ba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 01/35] fix: read each map key with its own type byte, followed
 by its value

A map was read back with the map's own type byte standing in for its keys'
type bytes, and without asking for the value after a key, so no non-empty map
(and so no store) could be deserialised.
---
 crates/sourisdb/src/values.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 62d9588..b2b9a91 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1147,7 +1147,7 @@ impl Value {
             FoundValue(Value),
             JsonNeeded,
             TimezoneNeeded,
-            Map(HashMap<String, Value>, usize, u8),
+            Map(HashMap<String, Value>, usize),
             FoundKey(String),
             FoundKeyValue(String, Value),
             Array(Vec<Value>, usize),
@@ -1156,7 +1156,7 @@ impl Value {
         enum ParseResult {
             Value(Value),
             NewArray(usize),
-            NewMap(usize, u8),
+            NewMap(usize),
             Json,
             Timezone,
         }
@@ -1247,7 +1247,7 @@ impl Value {
                 }
                 ValueTy::Map => {
                     let len = Value::deser_array_or_map_len(byte, bytes, ty)?;
-                    return Ok(ParseResult::NewMap(len, byte));
+                    return Ok(ParseResult::NewMap(len));
                 }
                 ValueTy::Array => {
                     let len = Value::deser_array_or_map_len(byte, bytes, ty)?;
@@ -1286,7 +1286,7 @@ impl Value {
                     let to_be_added_to_stack = match parse_primitive(bytes, huffman)? {
                         ParseResult::Value(val) => DeserialisationState::FoundValue(val),
                         ParseResult::NewArray(len) => DeserialisationState::Array(Vec::with_capacity(len), len),
-                        ParseResult::NewMap(len, byte) => DeserialisationState::Map(HashMap::with_capacity(len), len, byte),
+                        ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::with_capacity(len), len),
                         ParseResult::Json => {
                             stack.push(DeserialisationState::JsonNeeded);
                             DeserialisationState::ValueNeeded
@@ -1305,7 +1305,7 @@ impl Value {
                         }
                         Some(next_stack_frame) => {
                             match next_stack_frame {
-                                DeserialisationState::ValueNeeded | DeserialisationState::FoundValue(_) | DeserialisationState::Map(_, _, _) | DeserialisationState::FoundKeyValue(_, _) => return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::InvalidStackAfterValue)),
+                                DeserialisationState::ValueNeeded | DeserialisationState::FoundValue(_) | DeserialisationState::Map(_, _) | DeserialisationState::FoundKeyValue(_, _) => return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::InvalidStackAfterValue)),
                                 DeserialisationState::FoundKey(key) => {
                                     stack.push(DeserialisationState::FoundKeyValue(key, val));
                                 }
@@ -1345,18 +1345,29 @@ impl Value {
                     stack.push(DeserialisationState::Array(so_far, left));
                     stack.push(DeserialisationState::ValueNeeded);
                 }
-                DeserialisationState::Map(so_far, left, byte) => {
-                    let key = parse_string(byte, bytes, huffman)?;
-                    stack.push(DeserialisationState::Map(so_far, left, byte));
+                DeserialisationState::Map(so_far, left) => {
+                    //keys are serialised as complete strings, so they come with their own type byte
+                    let key_byte = bytes.next().ok_or(ValueSerError::NotEnoughBytes).copied()?;
+                    let key_ty = ValueTy::try_from((key_byte & 0b1111_0000) >> 4)?;
+                    if key_ty != ValueTy::String {
+                        return Err(ValueSerError::UnexpectedValueType {
+                            found: key_ty,
+                            expected: ValueTy::String,
+                        });
+                    }
+
+                    let key = parse_string(key_byte, bytes, huffman)?;
+                    stack.push(DeserialisationState::Map(so_far, left));
                     stack.push(DeserialisationState::FoundKey(key));
+                    stack.push(DeserialisationState::ValueNeeded);
                 },
                 DeserialisationState::FoundKeyValue(key, val) => {
-                    if let Some(DeserialisationState::Map(mut so_far, left, byte)) = stack.pop() {
+                    if let Some(DeserialisationState::Map(mut so_far, left)) = stack.pop() {
                         so_far.insert(key, val);
                         if left <= 1 {
                             stack.push(DeserialisationState::FoundValue(Value::Map(so_far)));
                         } else {
-                            stack.push(DeserialisationState::Map(so_far, left - 1, byte));
+                            stack.push(DeserialisationState::Map(so_far, left - 1));
                         }
                     } else {
                         return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::FoundKeyValueWithoutMap));
-- 
2.43.0


From 51d6f0e31123b7dfd86e04754a5506201c325d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 02/35] fix: deserialise empty arrays and maps

An empty array or map took the value after it as its element, or failed at the
end of the input: an empty database could not be read back, and a daemon that
had saved an empty list of databases could not start again.
---
 crates/sourisdb/src/values.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index b2b9a91..2f52776 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1285,6 +1285,8 @@ impl Value {
                 DeserialisationState::ValueNeeded => {
                     let to_be_added_to_stack = match parse_primitive(bytes, huffman)? {
                         ParseResult::Value(val) => DeserialisationState::FoundValue(val),
+                        ParseResult::NewArray(0) => DeserialisationState::FoundValue(Value::Array(Vec::new())),
+                        ParseResult::NewMap(0) => DeserialisationState::FoundValue(Value::Map(HashMap::new())),
                         ParseResult::NewArray(len) => DeserialisationState::Array(Vec::with_capacity(len), len),
                         ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::with_capacity(len), len),
                         ParseResult::Json => {
-- 
2.43.0


From 58933da0c61e6d0d45f6aba59402ee6485b07e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 03/35] fix: do not allocate for an array or map length before
 its contents are seen

A length of 2^60 in nine bytes of input panicked with a capacity overflow.
---
 crates/sourisdb/src/values.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 2f52776..27e449a 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1287,8 +1287,8 @@ impl Value {
                         ParseResult::Value(val) => DeserialisationState::FoundValue(val),
                         ParseResult::NewArray(0) => DeserialisationState::FoundValue(Value::Array(Vec::new())),
                         ParseResult::NewMap(0) => DeserialisationState::FoundValue(Value::Map(HashMap::new())),
-                        ParseResult::NewArray(len) => DeserialisationState::Array(Vec::with_capacity(len), len),
-                        ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::with_capacity(len), len),
+                        ParseResult::NewArray(len) => DeserialisationState::Array(Vec::new(), len),
+                        ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::new(), len),
                         ParseResult::Json => {
                             stack.push(DeserialisationState::JsonNeeded);
                             DeserialisationState::ValueNeeded
-- 
2.43.0


From f2554cf720abfd3ddf1421036710a4f8a5fef160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 04/35] fix: encode repeats of a single symbol with one bit
 each

With only one distinct symbol the code was empty, so any text made of it
decoded to the empty string, and decoding any bits with such a tree panicked.
---
 crates/sourisdb/src/utilities/huffman.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index 9d06040..0aa8fa7 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -361,7 +361,13 @@ impl<T: Eq + Hash + Clone> Huffman<T> {
     ) {
         match node {
             Node::Leaf(ch) => {
-                to_bits.insert(ch.clone(), bits_so_far);
+                //if the only node is a leaf, each item still needs a bit to be counted by
+                let bits = if bits_so_far.is_empty() {
+                    bits_so_far.push_into_new(false)
+                } else {
+                    bits_so_far
+                };
+                to_bits.insert(ch.clone(), bits);
             }
             Node::Branch { left, right } => {
                 let mut left_bits = bits_so_far.clone();
@@ -421,7 +427,10 @@ impl<T: Eq + Hash + Clone> Huffman<T> {
         for next_direction in bits {
             let new_node;
             match current_node {
-                Node::Leaf(_) => unreachable!(),
+                Node::Leaf(t) => {
+                    new_node = &self.root;
+                    result.push(t.clone());
+                }
                 Node::Branch { left, right } => {
                     let found = if next_direction { left } else { right };
                     if let Some(t) = found.leaf_contents().cloned() {
-- 
2.43.0


From 2e3ed2be41ae55e3a609b168a574e5a8dea60930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 05/35] fix: refuse a huffman tree leaf of zero instead of
 underflowing

---
 crates/sourisdb/src/utilities/huffman.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index 0aa8fa7..bdfed7f 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -198,8 +198,11 @@ impl Node<char> {
         } else {
             cursor.move_backwards(1);
             let ch: u32 = Integer::deser(SignedState::Unsigned, cursor)?.try_into()?;
-            let Ok(ch) = char::try_from(ch - 1) else {
-                return Err(HuffmanSerError::InvalidCharacter(ch - 1));
+            let Some(ch) = ch.checked_sub(1) else {
+                return Err(HuffmanSerError::InvalidCharacter(ch));
+            };
+            let Ok(ch) = char::try_from(ch) else {
+                return Err(HuffmanSerError::InvalidCharacter(ch));
             };
 
             Ok(Node::Leaf(ch))
-- 
2.43.0


From bb1ae34de3c87bfae27259e80fb22ffface84664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 06/35] fix: limit the depth of a huffman tree being
 deserialised

A run of zero bytes is a chain of branches: a few hundred kilobytes of them
overflowed the stack, which ends the whole process.
---
 crates/sourisdb/src/utilities/huffman.rs | 28 +++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index bdfed7f..02dc4f5 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -88,6 +88,9 @@ pub struct Huffman<T: Hash + Eq + Clone> {
 }
 //I tested tree traversal both ways, and in the end it made encoding like 2000% slower (300 nano -> 7 milli), but encoding like 90% faster (1 milli -> 100 nano), so that's the cause for the split approach
 
+///The deepest a node can be below the root of a tree being deserialised. A tree of all 256 [`u8`]s is never deeper than 255, and a tree of [`char`]s would need more text than fits in memory to get anywhere near.
+const MAX_TREE_DEPTH: usize = 256;
+
 ///A binary tree structure for use in creating the huffman encoding
 #[derive(Debug, Eq, PartialEq, Hash)]
 enum Node<T> {
@@ -151,15 +154,18 @@ impl Node<u8> {
         }
     }
 
-    pub fn deser(cursor: &mut Cursor<u8>) -> Result<Self, HuffmanSerError> {
+    pub fn deser(cursor: &mut Cursor<u8>, depth: usize) -> Result<Self, HuffmanSerError> {
+        if depth > MAX_TREE_DEPTH {
+            return Err(HuffmanSerError::TreeTooDeep);
+        }
         let Some(start) = cursor.next().copied() else {
             return Err(HuffmanSerError::NotEnoughBytes);
         };
 
         match start {
             0 => {
-                let left = Box::new(Self::deser(cursor)?);
-                let right = Box::new(Self::deser(cursor)?);
+                let left = Box::new(Self::deser(cursor, depth + 1)?);
+                let right = Box::new(Self::deser(cursor, depth + 1)?);
                 Ok(Node::Branch { left, right })
             }
             1 => {
@@ -186,14 +192,17 @@ impl Node<char> {
         }
     }
 
-    fn deser(cursor: &mut Cursor<u8>) -> Result<Self, HuffmanSerError> {
+    fn deser(cursor: &mut Cursor<u8>, depth: usize) -> Result<Self, HuffmanSerError> {
+        if depth > MAX_TREE_DEPTH {
+            return Err(HuffmanSerError::TreeTooDeep);
+        }
         let Some(ch) = cursor.next() else {
             return Err(HuffmanSerError::NotEnoughBytes);
         };
 
         if *ch == 0 {
-            let left = Box::new(Self::deser(cursor)?);
-            let right = Box::new(Self::deser(cursor)?);
+            let left = Box::new(Self::deser(cursor, depth + 1)?);
+            let right = Box::new(Self::deser(cursor, depth + 1)?);
             Ok(Node::Branch { left, right })
         } else {
             cursor.move_backwards(1);
@@ -227,6 +236,8 @@ pub enum HuffmanSerError {
     UnableToCode,
     ///In order to create a node tree, the provided list must not be empty
     UnableToCreateNodeTree,
+    ///We were deserialising a node tree that was deeper than any tree we could have serialised
+    TreeTooDeep,
 }
 
 impl From<IntegerSerError> for HuffmanSerError {
@@ -260,6 +271,7 @@ impl Display for HuffmanSerError {
             HuffmanSerError::UnableToCreateNodeTree => {
                 write!(f, "Unable to create node tree with empty input")
             }
+            HuffmanSerError::TreeTooDeep => write!(f, "Node tree was too deep"),
         }
     }
 }
@@ -469,7 +481,7 @@ impl Huffman<u8> {
     /// - [`IntegerSerError`] if there is an error deserialising one of the [`Integer`]s.
     /// - [`HuffmanSerError::InvalidDiscriminant`] if we find an invalid discriminant in the serialised node tree.
     pub fn deser(bytes: &mut Cursor<u8>) -> Result<Self, HuffmanSerError> {
-        let root = Node::<u8>::deser(bytes)?;
+        let root = Node::<u8>::deser(bytes, 0)?;
 
         let mut to_bits = HashMap::new();
         Self::add_node_to_table(&root, &mut to_bits, Bits::default());
@@ -634,7 +646,7 @@ impl Huffman<char> {
     /// - [`IntegerSerError`] if there is an error deserialising one of the [`Integer`]s.
     /// - [`HuffmanSerError::InvalidCharacter`] if we find an invalid character.
     pub fn deser(bytes: &mut Cursor<u8>) -> Result<Self, HuffmanSerError> {
-        let root = Node::<char>::deser(bytes)?;
+        let root = Node::<char>::deser(bytes, 0)?;
 
         let mut to_bits = HashMap::new();
         Self::add_node_to_table(&root, &mut to_bits, Bits::default());
-- 
2.43.0


From 5b93edc50e5e818c73f925e3c9a79ec229228a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 07/35] fix: report a repeat count that cannot be allocated as
 an error

---
 crates/sourisdb/src/types/binary/huffman.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/types/binary/huffman.rs b/crates/sourisdb/src/types/binary/huffman.rs
index bd6193d..1dafc60 100644
--- a/crates/sourisdb/src/types/binary/huffman.rs
+++ b/crates/sourisdb/src/types/binary/huffman.rs
@@ -44,7 +44,12 @@ pub fn un_huffman(cursor: &mut Cursor<u8>) -> Result<Vec<u8>, HuffmanSerError> {
                 .next()
                 .copied()
                 .ok_or(HuffmanSerError::NotEnoughBytes)?;
-            vec![element; count]
+            let mut elements = Vec::new();
+            elements
+                .try_reserve_exact(count)
+                .map_err(|_| HuffmanSerError::NotEnoughBytes)?;
+            elements.resize(count, element);
+            elements
         }
         _ => {
             let huffman = Huffman::<u8>::deser(cursor)?;
-- 
2.43.0


From cb75de2bcea3704cece0c047371d93db3413a51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 08/35] fix: refuse an LZ length that the compressed bytes
 cannot reach

---
 crates/sourisdb/src/types/binary/lz.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/types/binary/lz.rs b/crates/sourisdb/src/types/binary/lz.rs
index c61b3a3..0a4f129 100644
--- a/crates/sourisdb/src/types/binary/lz.rs
+++ b/crates/sourisdb/src/types/binary/lz.rs
@@ -35,11 +35,16 @@ pub fn un_lz(cursor: &mut Cursor<u8>) -> Result<Vec<u8>, BinarySerError> {
         return Ok(vec![]);
     }
 
-    let compressed_len = Integer::deser(SignedState::Unsigned, cursor)?.try_into()?;
+    let compressed_len: usize = Integer::deser(SignedState::Unsigned, cursor)?.try_into()?;
     let compressed = cursor
         .read(compressed_len)
         .ok_or(BinarySerError::NotEnoughBytes)?;
 
+    //each byte of LZ4 stands for at most 255 bytes of output, so this can't be a real length
+    if input_len / 255 > compressed_len {
+        return Err(BinarySerError::NotEnoughBytes);
+    }
+
     Ok(decompress(compressed, input_len)?)
 }
 
-- 
2.43.0


From ec0b3e97f2dd4f2a960755025481c6a6d7badc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 09/35] fix: count the bytes of a bit list exactly

An f32 cannot hold lengths above 2^24 exactly, so long bit lists (text of a few
megabytes) lost their last byte and panicked or decoded to something else.
---
 crates/sourisdb/src/utilities/bits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/utilities/bits.rs b/crates/sourisdb/src/utilities/bits.rs
index c1ae435..1b8e173 100644
--- a/crates/sourisdb/src/utilities/bits.rs
+++ b/crates/sourisdb/src/utilities/bits.rs
@@ -161,7 +161,7 @@ impl Bits {
     )]
     pub fn deser(bytes: &mut Cursor<u8>) -> Result<Self, IntegerSerError> {
         let valid_bits: usize = Integer::deser(SignedState::Unsigned, bytes)?.try_into()?;
-        let to_be_read = (valid_bits as f32 / 8.0).ceil() as usize;
+        let to_be_read = valid_bits.div_ceil(8);
         let Some(backing) = bytes.read(to_be_read).map(<[u8]>::to_vec) else {
             return Err(IntegerSerError::NotEnoughBytes);
         };
-- 
2.43.0


From d767a0862cd18ea5609bbf18d3cc8ac9d6c3ab49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 10/35] fix: ignore the unused bits of the last byte of a
 deserialised bit list

---
 crates/sourisdb/src/utilities/bits.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/sourisdb/src/utilities/bits.rs b/crates/sourisdb/src/utilities/bits.rs
index 1b8e173..635cb85 100644
--- a/crates/sourisdb/src/utilities/bits.rs
+++ b/crates/sourisdb/src/utilities/bits.rs
@@ -118,7 +118,7 @@ impl Bits {
             return self.backing.clone();
         }
 
-        let to_be_anded = (0..=interior_index).fold(0, |acc, i| acc | (1 << i));
+        let to_be_anded = (0..interior_index).fold(0, |acc, i| acc | (1 << i));
 
         let mut bytes = self.backing.clone();
         bytes[self.backing.len() - 1] &= to_be_anded;
@@ -166,10 +166,12 @@ impl Bits {
             return Err(IntegerSerError::NotEnoughBytes);
         };
 
-        Ok(Self {
+        let mut bits = Self {
             backing,
             valid_bits,
-        })
+        };
+        bits.backing = bits.get_proper_bytes(); //everything else relies on the unused bits being zero
+        Ok(bits)
     }
 }
 
-- 
2.43.0


From ea6f2b84d784d67df0cb595ded0cab54de12b488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:26 +0000
Subject: [PATCH 11/35] fix: give an unsigned zero the same form as every other
 zero

---
 crates/sourisdb/src/types/integer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index dee22ff..c4beab5 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -297,14 +297,14 @@ macro_rules! from_unsigned {
                 for (i, b) in n.to_le_bytes().into_iter().enumerate() {
                     content[i] = b;
                     if b != 0 {
-                        last_non_zero_byte = i;
+                        last_non_zero_byte = i + 1;
                     }
                 }
 
                 Self {
                     signed_state: SignedState::Unsigned,
                     content,
-                    number_of_bytes_used: last_non_zero_byte + 1
+                    number_of_bytes_used: last_non_zero_byte
                 }
             }
         }
-- 
2.43.0


From 3654303a89d8b48f82a2de10e9ce9b8ac55c634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:40 +0000
Subject: [PATCH 12/35] fix: refuse to fit an integer into a signed type that
 cannot hold its value

---
 crates/sourisdb/src/types/integer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index c4beab5..18c46f6 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -281,7 +281,11 @@ macro_rules! from_signed {
                     start
                 };
 
-                Ok(<$t>::from_le_bytes(out))
+                let out = <$t>::from_le_bytes(out);
+                if out.is_negative() != i.is_negative() {
+                    return Err(IntegerSerError::TooBigToFit);
+                }
+                Ok(out)
             }
         }
         )+
-- 
2.43.0


From 5aece98ceedb75342444c6bb9e1a3dfeb1f269ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 13/35] fix: refuse a serialised integer whose bytes contradict
 its sign

---
 crates/sourisdb/src/types/integer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index 18c46f6..9185936 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -727,6 +727,7 @@ impl Integer {
     ///
     /// ## Errors
     /// - [`IntegerSerError`] if there aren't enough bytes
+    /// - [`IntegerSerError::SignError`] if the sign of the bytes isn't the sign in `signed_state`
     pub fn deser(
         signed_state: SignedState,
         reader: &mut Cursor<u8>,
@@ -766,6 +767,13 @@ impl Integer {
             content[i] = b;
         }
 
+        let is_negative = BiggestIntButSigned::from_le_bytes(content).is_negative();
+        if signed_state != SignedState::Unsigned
+            && is_negative != (signed_state == SignedState::SignedNegative)
+        {
+            return Err(IntegerSerError::SignError);
+        }
+
         Ok(Self {
             signed_state,
             content,
-- 
2.43.0


From aacf7565acd96f6b21d2af89ce75337e141f9b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:18 +0000
Subject: [PATCH 14/35] fix: do not count the padding of a serialised integer
 as part of it

---
 crates/sourisdb/src/types/integer.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index 9185936..4a903c6 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -774,6 +774,17 @@ impl Integer {
             return Err(IntegerSerError::SignError);
         }
 
+        //padding isn't part of the number, so it isn't counted - otherwise equal integers wouldn't compare as equal
+        let padding = if signed_state == SignedState::SignedNegative {
+            u8::MAX
+        } else {
+            0
+        };
+        let number_of_bytes_used = content
+            .iter()
+            .rposition(|b| *b != padding)
+            .map_or(usize::from(is_negative), |i| i + 1);
+
         Ok(Self {
             signed_state,
             content,
-- 
2.43.0


From d0e8289a27712e3f356ebdbf430f38482440f7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 15/35] fix: convert whole negative and single precision floats
 to integers, and refuse negative fractions

---
 crates/sourisdb/src/types/integer.rs | 31 +++++++++++++++-------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index 4a903c6..2a610eb 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -416,22 +416,22 @@ impl TryFrom<f64> for Integer {
         if !value.is_finite() {
             return Err(FloatToIntegerConversionError::NotFinite);
         }
-        if value.fract() > f64::EPSILON {
+        if value.fract().abs() > f64::EPSILON {
             return Err(FloatToIntegerConversionError::DecimalsNotSupported(
                 value.fract(),
             ));
         }
 
-        let floored = value.floor();
-        if floored < 0.0 {
-            if floored > BiggestIntButSigned::MIN as f64 {
-                Ok((floored as BiggestIntButSigned).into())
+        let truncated = value.trunc();
+        if truncated < 0.0 {
+            if truncated >= BiggestIntButSigned::MIN as f64 {
+                Ok((truncated as BiggestIntButSigned).into())
             } else {
                 Err(FloatToIntegerConversionError::TooLarge)
             }
         } else {
-            if floored < BiggestInt::MAX as f64 {
-                Ok((floored as BiggestInt).into())
+            if truncated < BiggestInt::MAX as f64 {
+                Ok((truncated as BiggestInt).into())
             } else {
                 Err(FloatToIntegerConversionError::TooLarge)
             }
@@ -448,22 +448,25 @@ impl TryFrom<f32> for Integer {
         clippy::cast_sign_loss
     )]
     fn try_from(value: f32) -> Result<Self, Self::Error> {
-        if value.fract() > f32::EPSILON {
+        if !value.is_finite() {
+            return Err(FloatToIntegerConversionError::NotFinite);
+        }
+        if value.fract().abs() > f32::EPSILON {
             return Err(FloatToIntegerConversionError::DecimalsNotSupported(
                 f64::from(value.fract()),
             ));
         }
 
-        let floored = value.floor();
-        if floored < 0.0 {
-            if floored > i128::MIN as f32 {
-                Ok((floored as i128).into())
+        let truncated = value.trunc();
+        if truncated < 0.0 {
+            if truncated >= i128::MIN as f32 {
+                Ok((truncated as i128).into())
             } else {
                 Err(FloatToIntegerConversionError::TooLarge)
             }
         } else {
-            if floored > u128::MAX as f32 {
-                Ok((floored as u128).into())
+            if truncated < u128::MAX as f32 {
+                Ok((truncated as u128).into())
             } else {
                 Err(FloatToIntegerConversionError::TooLarge)
             }
-- 
2.43.0


From 5619e02f0801d9fa413db79ff1e7ef86d8c5e274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:43 +0000
Subject: [PATCH 16/35] fix: give zero an argument instead of NaN in polar form

---
 crates/sourisdb/src/types/imaginary.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/crates/sourisdb/src/types/imaginary.rs b/crates/sourisdb/src/types/imaginary.rs
index c4c7e2e..bccbd68 100644
--- a/crates/sourisdb/src/types/imaginary.rs
+++ b/crates/sourisdb/src/types/imaginary.rs
@@ -4,7 +4,6 @@
 
 use alloc::vec::Vec;
 use core::{
-    f64::consts::PI,
     fmt::{Display, Formatter},
     hash::Hash,
     num::FpCategory,
@@ -180,13 +179,7 @@ impl Imaginary {
     /// assert!((argument - expected_argument).abs() < f64::EPSILON);
     pub fn polar_from_cartesian(real: f64, imaginary: f64) -> Self {
         let modulus = real.hypot(imaginary);
-        let phi = (imaginary.abs() / real.abs()).atan();
-        let argument = match (real.is_sign_negative(), imaginary.is_sign_negative()) {
-            (true, true) => -PI + phi,
-            (true, false) => PI - phi,
-            (false, true) => -phi,
-            (false, false) => phi,
-        };
+        let argument = imaginary.atan2(real);
 
         Imaginary::PolarForm { modulus, argument }
     }
-- 
2.43.0


From 363b3c2b3f2d00bdc490692b3e5a0e4fa7f69096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 17/35] fix: seek a cursor to the position asked for

---
 crates/sourisdb/src/utilities/cursor.rs | 48 +++++++++----------------
 1 file changed, 17 insertions(+), 31 deletions(-)

diff --git a/crates/sourisdb/src/utilities/cursor.rs b/crates/sourisdb/src/utilities/cursor.rs
index 34d8dd4..666a4ce 100644
--- a/crates/sourisdb/src/utilities/cursor.rs
+++ b/crates/sourisdb/src/utilities/cursor.rs
@@ -208,38 +208,24 @@ impl<'a, T> core::iter::Iterator for Cursor<'a, T> {
 
 #[cfg(feature = "std")]
 impl<'a, T> std::io::Seek for Cursor<'a, T> {
-    #[allow(
-        clippy::collapsible_if,
-        clippy::cast_possible_truncation,
-        clippy::cast_sign_loss
-    )]
     fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
-        match pos {
-            std::io::SeekFrom::Current(offset) => {
-                if offset > 0 {
-                    if !self.move_forwards(offset as usize) {
-                        return Err(std::io::Error::new(
-                            std::io::ErrorKind::NotFound,
-                            "Goes out of bounds".to_string(),
-                        ));
-                    }
-                }
-            }
-            std::io::SeekFrom::End(offset) => {
-                if offset > 0 || !self.move_backwards((-offset) as usize) {
-                    return Err(std::io::Error::new(
-                        std::io::ErrorKind::NotFound,
-                        "Goes out of bounds".to_string(),
-                    ));
-                }
-            }
-            std::io::SeekFrom::Start(offset) => {
-                if !self.move_backwards(offset as usize) {
-                    return Err(std::io::Error::new(
-                        std::io::ErrorKind::NotFound,
-                        "Goes out of bounds".to_string(),
-                    ));
-                }
+        let new_pos = match pos {
+            std::io::SeekFrom::Start(offset) => usize::try_from(offset).ok(),
+            std::io::SeekFrom::End(offset) => isize::try_from(offset)
+                .ok()
+                .and_then(|offset| self.backing.len().checked_add_signed(offset)),
+            std::io::SeekFrom::Current(offset) => isize::try_from(offset)
+                .ok()
+                .and_then(|offset| self.pos.checked_add_signed(offset)),
+        };
+
+        match new_pos {
+            Some(new_pos) if new_pos <= self.backing.len() => self.pos = new_pos,
+            _ => {
+                return Err(std::io::Error::new(
+                    std::io::ErrorKind::NotFound,
+                    "Goes out of bounds".to_string(),
+                ))
             }
         }
 
-- 
2.43.0


From 5fbef549512204a4b4d49c3bc5e8aa61f0430d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 18/35] fix: import timestamps in the form they are exported to
 JSON

---
 crates/sourisdb/src/values.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 27e449a..3a367d0 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -810,7 +810,9 @@ impl Value {
                             }
                             ValueTy::Timestamp => {
                                 if let Some(SJValue::String(timestamp)) = obj.get("timestamp") {
-                                    if let Ok(timestamp) = NaiveDateTime::from_str(timestamp) {
+                                    //exported with a space between the date and the time, and parsed with a `T`
+                                    let timestamp = timestamp.replacen(' ', "T", 1);
+                                    if let Ok(timestamp) = NaiveDateTime::from_str(&timestamp) {
                                         Ok(Value::Timestamp(timestamp))
                                     } else {
                                         Err(ValueSerError::InvalidSourisType {
-- 
2.43.0


From 05018d9516c02c93a304b00db3056c452e5d58a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 19/35] fix: hash equal values equally

---
 crates/sourisdb/src/types/imaginary.rs |  5 +++--
 crates/sourisdb/src/values.rs          | 15 +++++++++------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/sourisdb/src/types/imaginary.rs b/crates/sourisdb/src/types/imaginary.rs
index bccbd68..689667b 100644
--- a/crates/sourisdb/src/types/imaginary.rs
+++ b/crates/sourisdb/src/types/imaginary.rs
@@ -44,6 +44,7 @@ impl Hash for Imaginary {
                 imaginary.hash(state);
             }
             Self::PolarForm { modulus, argument } => {
+                //adding zero gives both zeroes the same bytes, as they're equal
                 match modulus.classify() {
                     FpCategory::Nan => 0,
                     FpCategory::Infinite => 1,
@@ -52,7 +53,7 @@ impl Hash for Imaginary {
                     FpCategory::Normal => 4,
                 }
                 .hash(state);
-                modulus.to_le_bytes().hash(state);
+                (modulus + 0.0).to_le_bytes().hash(state);
 
                 match argument.classify() {
                     FpCategory::Nan => 0,
@@ -62,7 +63,7 @@ impl Hash for Imaginary {
                     FpCategory::Normal => 4,
                 }
                 .hash(state);
-                argument.to_le_bytes().hash(state);
+                (argument + 0.0).to_le_bytes().hash(state);
             }
         }
     }
diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 3a367d0..1e7ca4b 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -248,13 +248,14 @@ impl Hash for Value {
                 v.hash(state);
             }
             Value::JSON(j) => {
-                j.to_string().hash(state);
+                j.hash(state);
             }
             Value::Map(m) => {
-                for k in m.keys() {
+                //equal maps can have different orders of iteration
+                let mut entries = m.iter().collect::<Vec<_>>();
+                entries.sort_unstable_by_key(|(k, _)| *k);
+                for (k, v) in entries {
                     k.hash(state);
-                }
-                for v in m.values() {
                     v.hash(state);
                 }
             }
@@ -272,7 +273,8 @@ impl Hash for Value {
                     FpCategory::Normal => 4,
                 }
                 .hash(state);
-                f.to_le_bytes().hash(state);
+                //adding zero gives both zeroes the same bytes, as they're equal
+                (f + 0.0).to_le_bytes().hash(state);
             }
             Value::Null(()) => {}
             Value::Timezone(tz) => {
@@ -293,7 +295,8 @@ impl Hash for Value {
                     FpCategory::Normal => 4,
                 }
                 .hash(state);
-                f.to_le_bytes().hash(state);
+                //adding zero gives both zeroes the same bytes, as they're equal
+                (f + 0.0).to_le_bytes().hash(state);
             }
         }
     }
-- 
2.43.0


From 49fde33ae54bc2d97c5a2e301cfe956529673bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:02 +0000
Subject: [PATCH 20/35] fix: ask for a store by name in the async client

---
 crates/sourisdb/src/client/async_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/client/async_client.rs b/crates/sourisdb/src/client/async_client.rs
index e87a755..6ed1fa0 100644
--- a/crates/sourisdb/src/client/async_client.rs
+++ b/crates/sourisdb/src/client/async_client.rs
@@ -184,7 +184,7 @@ impl AsyncClient {
         let rsp = self
             .client
             .get(&format!("http://{}:{}/v1/get_db", self.path, self.port))
-            .query(&["db_name", db_name])
+            .query(&[("db_name", db_name)])
             .send()
             .await?;
         
-- 
2.43.0


From 5884f66851c0956bb7f58991e17c1a55b00da6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 21/35] fix: report whether a database with contents was
 created the right way around

---
 crates/sourisd/src/v1_routes/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 711d141..b8e07c9 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -89,7 +89,7 @@ impl SourisState {
         self.db_cache.invalidate(&name).await;
         let mut dbs = self.dbs.lock().await;
 
-        let created_new = dbs.contains_key(&name);
+        let created_new = !dbs.contains_key(&name);
         let current = dbs.entry(name).or_default();
         if overwrite_existing {
             *current = contents;
-- 
2.43.0


From 3c5eb4883441c5d08d114ac4119e1e1bf743e470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 22/35] fix: check the name of a database wherever one is
 created

---
 crates/sourisd/src/error.rs           |  2 +-
 crates/sourisd/src/v1_routes/db.rs    |  4 +--
 crates/sourisd/src/v1_routes/state.rs | 36 +++++++++++++++++++--------
 crates/sourisd/src/v1_routes/value.rs |  6 ++---
 4 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/crates/sourisd/src/error.rs b/crates/sourisd/src/error.rs
index d638bfb..998d976 100644
--- a/crates/sourisd/src/error.rs
+++ b/crates/sourisd/src/error.rs
@@ -64,7 +64,7 @@ impl Display for SourisError {
             Self::ValueError(e) => write!(f, "Error with value: {e}"),
             Self::InvalidDatabaseName => write!(
                 f,
-                "Invalid database name - database names must be ASCII and not equal to `meta`"
+                "Invalid database name - database names must be ASCII, not equal to `meta`, and able to be part of a file name"
             ),
             Self::IntegerSerError(e) => write!(f, "Error deserialising integer: {e:?}"),
         }
diff --git a/crates/sourisd/src/v1_routes/db.rs b/crates/sourisd/src/v1_routes/db.rs
index f69b819..7da287e 100644
--- a/crates/sourisd/src/v1_routes/db.rs
+++ b/crates/sourisd/src/v1_routes/db.rs
@@ -40,9 +40,9 @@ pub async fn add_db_with_content(
     body: Bytes,
 ) -> Result<StatusCode, SourisError> {
     let store = Store::deser(body.as_ref())?;
-    Ok(state
+    state
         .new_db_with_contents(name, overwrite_existing, store)
-        .await)
+        .await
 }
 
 pub async fn clear_db(
diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index b8e07c9..32ff094 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -32,6 +32,21 @@ use meta::{DB_FILE_NAMES_KEY, META_DB_FILE_NAME};
 use sourisdb::client::CreationResult;
 use crate::v1_routes::value::NewKeyArgs;
 
+///The longest file name that can be used, without the extensions added to the name of a database
+const MAX_NAME_LEN: usize = 255 - ".sdb.tmp".len();
+
+///Checks that a database with the given name could be saved, inside the base location and apart from the meta information.
+fn check_name(name: &str) -> Result<(), SourisError> {
+    if name == "meta"
+        || !name.is_ascii()
+        || name.contains(['/', '\0'])
+        || name.len() > MAX_NAME_LEN
+    {
+        return Err(SourisError::InvalidDatabaseName);
+    }
+    Ok(())
+}
+
 #[derive(Clone, Debug)]
 #[allow(clippy::module_name_repetitions)]
 pub struct SourisState {
@@ -48,16 +63,14 @@ impl SourisState {
     /// Returns [`StatusCode::OK`] if an existing database was present, or [`StatusCode::CREATED`] if a new database was created.
     ///
     /// ## Errors
-    /// - [`SourisError::InvalidDatabaseName`] if the name is not ASCII or the name is `meta`.
+    /// - [`SourisError::InvalidDatabaseName`] if the name is not ASCII, is `meta`, or can't be part of a file name.
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn new_db(
         &self,
         name: String,
         overwrite_existing: bool,
     ) -> Result<StatusCode, SourisError> {
-        if name == "meta" || !name.is_ascii() {
-            return Err(SourisError::InvalidDatabaseName);
-        }
+        check_name(&name)?;
 
         let mut dbs = self.dbs.lock().await;
         
@@ -85,7 +98,9 @@ impl SourisState {
         name: String,
         overwrite_existing: bool,
         contents: Store,
-    ) -> StatusCode {
+    ) -> Result<StatusCode, SourisError> {
+        check_name(&name)?;
+
         self.db_cache.invalidate(&name).await;
         let mut dbs = self.dbs.lock().await;
 
@@ -99,11 +114,11 @@ impl SourisState {
             }
         }
 
-        if created_new {
+        Ok(if created_new {
             StatusCode::CREATED
         } else {
             StatusCode::OK
-        }
+        })
     }
 
     ///returns whether it cleared a database
@@ -169,11 +184,11 @@ impl SourisState {
         &self,
         NewKeyArgs { db_name, key, create_new_database, overwrite_key }: NewKeyArgs,
         v: Value,
-    ) -> CreationResult {
+    ) -> Result<CreationResult, SourisError> {
         self.db_cache.invalidate(&db_name).await;
 
         let mut dbs = self.dbs.lock().await;
-        match dbs.entry(db_name) {
+        Ok(match dbs.entry(db_name) {
             SEntry::Occupied(mut occ) => {
                 let db = occ.get_mut();
                 match db.entry(key) {
@@ -193,6 +208,7 @@ impl SourisState {
             }
             SEntry::Vacant(vac) => {
                 if create_new_database {
+                    check_name(vac.key())?;
                     let db = vac.insert(Store::default());
                     db.insert(key, v);
                     CreationResult::InsertedKeyIntoNewDB
@@ -200,7 +216,7 @@ impl SourisState {
                     CreationResult::UnableToFindDB
                 }
             }
-        }
+        })
     }
 
     pub async fn get_value(
diff --git a/crates/sourisd/src/v1_routes/value.rs b/crates/sourisd/src/v1_routes/value.rs
index 6bfa84c..4c789bb 100644
--- a/crates/sourisd/src/v1_routes/value.rs
+++ b/crates/sourisd/src/v1_routes/value.rs
@@ -24,10 +24,10 @@ pub async fn add_kv(
     Query(nka): Query<NewKeyArgs>,
     State(state): State<SourisState>,
     value: Value,
-) -> Json<CreationResult> {
+) -> Result<Json<CreationResult>, SourisError> {
     info!(?value, "Adding value");
-    let cr = state.add_key_value_pair(nka, value).await;
-    Json(cr)
+    let cr = state.add_key_value_pair(nka, value).await?;
+    Ok(Json(cr))
 }
 
 #[axum::debug_handler]
-- 
2.43.0


From e0d90df99e773dfe0a201494038a8ba7f35c611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:33 +0000
Subject: [PATCH 23/35] fix: invalidate a cached database while it cannot be
 read and cached again

---
 crates/sourisd/src/v1_routes/state.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 32ff094..8944d80 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -101,8 +101,8 @@ impl SourisState {
     ) -> Result<StatusCode, SourisError> {
         check_name(&name)?;
 
-        self.db_cache.invalidate(&name).await;
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&name).await;
 
         let created_new = !dbs.contains_key(&name);
         let current = dbs.entry(name).or_default();
@@ -124,9 +124,8 @@ impl SourisState {
     ///returns whether it cleared a database
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn clear_db(&self, name: String) -> Result<(), SourisError> {
-        self.db_cache.invalidate(&name).await;
-
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&name).await;
 
         if let SEntry::Occupied(mut e) = dbs.entry(name) {
             e.insert(Store::default());
@@ -140,9 +139,8 @@ impl SourisState {
     ///returns whether it removed a database
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn remove_db(&self, name: String) -> Result<(), SourisError> {
-        self.db_cache.invalidate(&name).await;
-
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&name).await;
 
         if !dbs.contains_key(&name) {
             return Err(SourisError::DatabaseNotFound);
@@ -185,9 +183,9 @@ impl SourisState {
         NewKeyArgs { db_name, key, create_new_database, overwrite_key }: NewKeyArgs,
         v: Value,
     ) -> Result<CreationResult, SourisError> {
+        let mut dbs = self.dbs.lock().await;
         self.db_cache.invalidate(&db_name).await;
 
-        let mut dbs = self.dbs.lock().await;
         Ok(match dbs.entry(db_name) {
             SEntry::Occupied(mut occ) => {
                 let db = occ.get_mut();
@@ -236,8 +234,8 @@ impl SourisState {
     }
 
     pub async fn remove_key(&self, KeyAndDb { key, db_name }: KeyAndDb) -> Result<(), SourisError> {
-        self.db_cache.invalidate(&db_name).await;
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&db_name).await;
 
         let Some(db) = dbs.get_mut(&db_name) else {
             return Err(SourisError::DatabaseNotFound);
-- 
2.43.0


From 1a3949c46e744d93f280b4bdddb4db0561945867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:34 +0000
Subject: [PATCH 24/35] fix: delete the file of a removed database before it
 can be created again

---
 crates/sourisd/src/v1_routes/state.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 8944d80..db85018 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -147,7 +147,6 @@ impl SourisState {
         }
 
         dbs.remove(&name);
-        drop(dbs);
 
         let file_name = self.base_location.join(format!("{name}.sdb"));
 
-- 
2.43.0


From 5d52e66350ee5fa8fd26e5748391e3f06358265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:34 +0000
Subject: [PATCH 25/35] fix: keep a database that could not be saved in the
 list of databases

---
 crates/sourisd/src/v1_routes/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index db85018..69569c7 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -354,9 +354,9 @@ impl SourisState {
 
             if let Err(e) = write_to_file(&bytes, file_name, &self.base_location).await {
                 error!(?e, "Error writing out database");
-            } else {
-                names.push(Value::String(name.to_string()));
             }
+            //even if this time it couldn't be written out, it could've been before
+            names.push(Value::String(name.to_string()));
         }
 
         let mut meta = Store::default();
-- 
2.43.0


From bb27e28f0a9546e22a86a0d286bde4a62a71802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 26/35] fix: do not bring a removed database back as an empty
 one

---
 crates/sourisd/src/v1_routes/state.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 69569c7..b4817db 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -254,13 +254,13 @@ impl SourisState {
 impl SourisState {
     pub async fn new() -> color_eyre::Result<Self> {
         #[tracing::instrument(level = "trace")]
-        async fn get_store(location: PathBuf) -> color_eyre::Result<Store> {
+        async fn get_store(location: PathBuf) -> color_eyre::Result<Option<Store>> {
             let mut file = match File::open(&location).await {
                 Ok(f) => f,
                 Err(e) => {
                     return if e.kind() == ErrorKind::NotFound {
-                        trace!(?location, "File not found, getting empty store.");
-                        return Ok(Store::default());
+                        trace!(?location, "File not found.");
+                        return Ok(None);
                     } else {
                         Err(e.into())
                     };
@@ -279,7 +279,7 @@ impl SourisState {
                 }
             }
 
-            Ok(Store::deser(&contents)?)
+            Ok(Some(Store::deser(&contents)?))
         }
 
         #[tracing::instrument(level = "trace", skip(meta))]
@@ -301,9 +301,12 @@ impl SourisState {
                 };
 
                 match get_store(base.join(format!("{file_name}.sdb"))).await {
-                    Ok(s) => {
+                    Ok(Some(s)) => {
                         dbs.insert(file_name.to_string(), s);
                     }
+                    Ok(None) => {
+                        trace!(?file_name, "Database was removed, or never saved");
+                    }
                     Err(e) => {
                         trace!(?e, ?file_name, "Error getting database");
                         continue;
@@ -327,7 +330,9 @@ impl SourisState {
             base_location.join("souris/")
         };
 
-        let mut meta = get_store(base_location.join(META_DB_FILE_NAME)).await?;
+        let mut meta = get_store(base_location.join(META_DB_FILE_NAME))
+            .await?
+            .unwrap_or_default();
 
         let dbs = if let Some(dbs) = get_internal_stores(&meta, base_location.clone()).await {
             dbs
-- 
2.43.0


From aa3202f331e680ee886c5ee75457d21bd293ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 27/35] fix: replace the file of a database only once all of it
 is written

---
 crates/sourisd/src/v1_routes/state.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index b4817db..b6475ee 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -12,7 +12,7 @@ use std::{
 };
 use sourisdb::hashbrown::hash_map::Entry as HBEntry;
 use tokio::{
-    fs::{create_dir_all, File},
+    fs::{create_dir_all, rename, File},
     io::{AsyncReadExt, AsyncWriteExt, ErrorKind},
     sync::Mutex,
 };
@@ -378,7 +378,9 @@ async fn write_to_file(
     path: impl AsRef<Path> + Debug,
     base_location: impl AsRef<Path> + Debug,
 ) -> color_eyre::Result<()> {
-    let mut file = match File::create(&path).await {
+    //written to a temporary file first, so that what was saved before is kept until all of this is
+    let temporary = path.as_ref().with_extension("sdb.tmp");
+    let mut file = match File::create(&temporary).await {
         Ok(f) => f,
         Err(e) => {
             if e.kind() == ErrorKind::NotFound {
@@ -386,7 +388,7 @@ async fn write_to_file(
                 trace!(?path, ?base_location, "Unable to find folder, creating");
 
                 create_dir_all(&base_location).await?;
-                File::create(path).await?
+                File::create(&temporary).await?
             } else {
                 return Err(e.into());
             }
@@ -394,6 +396,9 @@ async fn write_to_file(
     };
 
     file.write_all(bytes).await?;
+    file.sync_all().await?;
+    drop(file);
+    rename(temporary, path).await?;
 
     Ok(())
 }
-- 
2.43.0


From f48a11b938144c7b316c5ee4c1d2b13fab39bc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 28/35] fix: save once every request has been answered, rather
 than before

---
 crates/sourisd/src/main.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/sourisd/src/main.rs b/crates/sourisd/src/main.rs
index e06e473..3aaebbc 100644
--- a/crates/sourisd/src/main.rs
+++ b/crates/sourisd/src/main.rs
@@ -15,8 +15,7 @@ use axum::{
 use tokio::{
     net::TcpListener,
     signal,
-    sync::{broadcast, broadcast::Sender},
-    task::JoinHandle,
+    sync::broadcast,
 };
 use tower_http::trace::TraceLayer;
 use tracing_subscriber::{prelude::*, EnvFilter};
@@ -54,7 +53,7 @@ fn setup() {
 }
 
 //from https://github.com/tokio-rs/axum/blob/main/examples/graceful-shutdown/src/main.rs
-async fn shutdown_signal(stop_signal: Sender<()>, saver: JoinHandle<()>) {
+async fn shutdown_signal() {
     let ctrl_c = async {
         signal::ctrl_c()
             .await
@@ -78,11 +77,6 @@ async fn shutdown_signal(stop_signal: Sender<()>, saver: JoinHandle<()>) {
     }
 
     info!("Gracefully Exiting");
-    stop_signal.send(()).expect("unable to send stop signal");
-
-    if let Err(e) = saver.await {
-        error!(?e, "Unable to join saver thread");
-    }
 }
 
 async fn healthcheck() -> StatusCode {
@@ -145,7 +139,14 @@ async fn main() {
     let http_listener = TcpListener::bind("0.0.0.0:7687").await.unwrap();
 
     axum::serve(http_listener, router)
-        .with_graceful_shutdown(shutdown_signal(stop_tx, saver))
+        .with_graceful_shutdown(shutdown_signal())
         .await
         .unwrap();
+
+    //every request has been answered by now, so this is the last save
+    stop_tx.send(()).expect("unable to send stop signal");
+
+    if let Err(e) = saver.await {
+        error!(?e, "Unable to join saver thread");
+    }
 }
-- 
2.43.0


From 88f03690c59b04424c9f4e3b6d8f9053a375a43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:50 +0000
Subject: [PATCH 29/35] fix: make a single float when asked for one in mouse

---
 crates/mouse/src/value_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mouse/src/value_utils.rs b/crates/mouse/src/value_utils.rs
index ca57116..e20b66c 100644
--- a/crates/mouse/src/value_utils.rs
+++ b/crates/mouse/src/value_utils.rs
@@ -300,8 +300,8 @@ pub fn get_value_from_stdin(prompt: impl Display, theme: &dyn Theme) -> Result<V
             Value::DoubleFloat(f)
         }
         ValueTy::SingleFloat => {
-            let f: f64 = Input::with_theme(theme).with_prompt("Value:").interact()?;
-            Value::DoubleFloat(f)
+            let f: f32 = Input::with_theme(theme).with_prompt("Value:").interact()?;
+            Value::SingleFloat(f)
         }
         ValueTy::Timezone => {
             let chosen_index = FuzzySelect::with_theme(theme)
-- 
2.43.0


From c9e09fd8d6696973f9716831722cc23c7f83ac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:05 +0000
Subject: [PATCH 30/35] fix: keep what was saved before when writing the new
 file failed

---
 crates/sourisd/src/v1_routes/state.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index b6475ee..c0a8314 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -396,6 +396,8 @@ async fn write_to_file(
     };
 
     file.write_all(bytes).await?;
+    //a write that failed is only reported by the next operation on the file, and `sync_all` isn't one that does
+    file.flush().await?;
     file.sync_all().await?;
     drop(file);
     rename(temporary, path).await?;
-- 
2.43.0


From 2c24070c6b8d4e5b3f1c65fb1d29fe42c949a890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:38 +0000
Subject: [PATCH 31/35] fix: keep a database whose file could not be removed

---
 crates/sourisd/src/v1_routes/state.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index c0a8314..700893a 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -142,16 +142,16 @@ impl SourisState {
         let mut dbs = self.dbs.lock().await;
         self.db_cache.invalidate(&name).await;
 
-        if !dbs.contains_key(&name) {
+        let Some(db) = dbs.remove(&name) else {
             return Err(SourisError::DatabaseNotFound);
-        }
-
-        dbs.remove(&name);
+        };
 
         let file_name = self.base_location.join(format!("{name}.sdb"));
 
         if let Err(e) = tokio::fs::remove_file(file_name).await {
             if e.kind() != ErrorKind::NotFound {
+                //it wasn't removed, so it is still there
+                dbs.insert(name, db);
                 return Err(e.into());
             }
         }
-- 
2.43.0


From c9e1e58fd0bf12c366d8b4dffab0a86caba0756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 32/35] fix: save a database called `.`

---
 crates/sourisd/src/v1_routes/state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 700893a..f7c4d20 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -379,7 +379,8 @@ async fn write_to_file(
     base_location: impl AsRef<Path> + Debug,
 ) -> color_eyre::Result<()> {
     //written to a temporary file first, so that what was saved before is kept until all of this is
-    let temporary = path.as_ref().with_extension("sdb.tmp");
+    let mut temporary = path.as_ref().as_os_str().to_owned();
+    temporary.push(".tmp");
     let mut file = match File::create(&temporary).await {
         Ok(f) => f,
         Err(e) => {
-- 
2.43.0


From 1cd0b9ea4606bfd69f90a1214c928596d30574b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 33/35] fix: report a failure status when listing databases
 asynchronously

---
 crates/sourisdb/src/client/async_client.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/sourisdb/src/client/async_client.rs b/crates/sourisdb/src/client/async_client.rs
index 6ed1fa0..16838f1 100644
--- a/crates/sourisdb/src/client/async_client.rs
+++ b/crates/sourisdb/src/client/async_client.rs
@@ -92,16 +92,17 @@ impl AsyncClient {
     /// - [`reqwest::Error`] if there is an error with the HTTP request, or we cannot get the raw bytes out
     /// - [`ClientError::HttpErrorCode`] if an HTTP Error status code is encountered.
     pub async fn get_all_dbs(&self) -> Result<Vec<String>, ClientError> {
-        Ok(self
+        let rsp = self
             .client
             .get(&format!(
                 "http://{}:{}/v1/get_all_db_names",
                 self.path, self.port
             ))
             .send()
-            .await?
-            .json()
-            .await?)
+            .await?;
+        rsp.error_for_status_to_client_error()?;
+
+        Ok(rsp.json().await?)
     }
 
     ///Creates a new [`Store`] in the connected database with the given name. Returns whether a new database had to be created.
-- 
2.43.0


From 277102a3de5acefca0ad9ca425ad677e5fc9b8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 34/35] fix: list exactly the databases that have been written
 out, unreadable ones included

A database that could not be read at a start was dropped from the list by the
next save, and one whose first save failed was listed without having been
saved, so that what an interrupted save had left in its place came back.
---
 crates/sourisd/src/v1_routes/state.rs | 34 +++++++++++++++++----------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index f7c4d20..ee067c8 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -4,11 +4,11 @@ use dirs::data_dir;
 use moka::future::Cache;
 use sourisdb::{store::Store, values::Value};
 use std::{
-    collections::{HashMap, hash_map::Entry as SEntry},
+    collections::{BTreeSet, HashMap, hash_map::Entry as SEntry},
     env::var,
     fmt::Debug,
     path::{Path, PathBuf},
-    sync::Arc,
+    sync::{Arc, Mutex as SyncMutex, PoisonError},
 };
 use sourisdb::hashbrown::hash_map::Entry as HBEntry;
 use tokio::{
@@ -55,6 +55,8 @@ pub struct SourisState {
     ///A map of all databases and their names
     dbs: Arc<Mutex<HashMap<String, Store>>>,
     db_cache: Cache<String, Bytes>,
+    ///The names of the databases that have been written out, including ones that couldn't be read back
+    written: Arc<SyncMutex<BTreeSet<String>>>,
 }
 
 impl SourisState {
@@ -155,6 +157,7 @@ impl SourisState {
                 return Err(e.into());
             }
         }
+        self.written.lock().unwrap_or_else(PoisonError::into_inner).remove(&name);
 
         Ok(())
     }
@@ -286,13 +289,14 @@ impl SourisState {
         async fn get_internal_stores(
             meta: &Store,
             base: PathBuf,
-        ) -> Option<HashMap<String, Store>> {
+        ) -> Option<(HashMap<String, Store>, BTreeSet<String>)> {
             let Some(Value::Array(values)) = meta.get(DB_FILE_NAMES_KEY) else {
                 trace!("Unable to find existing databases.");
                 return None;
             };
 
             let mut dbs = HashMap::new();
+            let mut written = BTreeSet::new();
 
             for val in values {
                 let Some(file_name) = val.as_str() else {
@@ -303,18 +307,20 @@ impl SourisState {
                 match get_store(base.join(format!("{file_name}.sdb"))).await {
                     Ok(Some(s)) => {
                         dbs.insert(file_name.to_string(), s);
+                        written.insert(file_name.to_string());
                     }
                     Ok(None) => {
                         trace!(?file_name, "Database was removed, or never saved");
                     }
                     Err(e) => {
-                        trace!(?e, ?file_name, "Error getting database");
-                        continue;
+                        //it's still there, and might be readable next time
+                        error!(?e, ?file_name, "Error getting database");
+                        written.insert(file_name.to_string());
                     }
                 }
             }
 
-            Some(dbs)
+            Some((dbs, written))
         }
 
         let base_location = if let Ok(loc) = var("BASE_LOCATION") {
@@ -334,36 +340,38 @@ impl SourisState {
             .await?
             .unwrap_or_default();
 
-        let dbs = if let Some(dbs) = get_internal_stores(&meta, base_location.clone()).await {
-            dbs
+        let (dbs, written) = if let Some(found) = get_internal_stores(&meta, base_location.clone()).await {
+            found
         } else {
             meta.insert(DB_FILE_NAMES_KEY.into(), Value::Array(vec![]));
-            HashMap::default()
+            (HashMap::default(), BTreeSet::default())
         };
 
         let s = Self {
             base_location,
             dbs: Arc::new(Mutex::new(dbs)),
             db_cache: Cache::new(200),
+            written: Arc::new(SyncMutex::new(written)),
         };
 
         Ok(s)
     }
 
     pub async fn save(&self) -> color_eyre::Result<()> {
-        let mut names = vec![];
-
         for (name, db) in self.dbs.lock().await.iter() {
             let file_name = self.base_location.join(format!("{name}.sdb"));
             let bytes = db.ser();
 
             if let Err(e) = write_to_file(&bytes, file_name, &self.base_location).await {
+                //it's only listed if it could be written out before
                 error!(?e, "Error writing out database");
+            } else {
+                self.written.lock().unwrap_or_else(PoisonError::into_inner).insert(name.clone());
             }
-            //even if this time it couldn't be written out, it could've been before
-            names.push(Value::String(name.to_string()));
         }
 
+        let names = self.written.lock().unwrap_or_else(PoisonError::into_inner).iter().cloned().map(Value::String).collect();
+
         let mut meta = Store::default();
         meta.insert(DB_FILE_NAMES_KEY.into(), Value::Array(names));
 
-- 
2.43.0


From 0cac3197b51a6296eee0f4bbe43f47d5e52d9c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:02 +0000
Subject: [PATCH 35/35] fix: write maps and arrays without copying all that
 they hold

---
 crates/sourisdb/src/values.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 1e7ca4b..0025ab2 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1092,8 +1092,8 @@ impl Value {
                     res.extend(integer_bytes);
                 }
 
-                for (k, v) in m.clone() {
-                    res.extend(Value::String(k).ser(huffman));
+                for (k, v) in m {
+                    res.extend(Value::String(k.clone()).ser(huffman));
                     res.extend(v.ser(huffman));
                 }
             }
@@ -1110,7 +1110,7 @@ impl Value {
                     res.extend(integer_bytes);
                 }
 
-                for v in a.clone() {
+                for v in a {
                     res.extend(v.ser(huffman));
                 }
             }
-- 
2.43.0

