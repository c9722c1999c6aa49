From 2952df810dbc9f8013baac4171416c75bb97a326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:39 +0000
Subject: [PATCH 01/19] fix: let the in-memory store learn the children of a
 node it only knew as a leaf

---
 src/memory.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/memory.rs b/src/memory.rs
index 5e20b53..66de1c7 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -258,9 +258,12 @@ impl<C: Construct> WriteBackend for InMemoryBackend<C> where
 		key: C::Value,
 		value: (C::Value, C::Value)
 	) -> Result<(), Self::Error> {
-		if self.0.contains_key(&key) {
-			return Ok(())
-		}
+		let count = match self.0.get(&key) {
+			Some((Some(_), _)) => return Ok(()),
+			// So far only known as a leaf: learn its children, keep its references.
+			Some((None, count)) => *count,
+			None => Some(0),
+		};
 
 		let (left, right) = value;
 
@@ -269,7 +272,7 @@ impl<C: Construct> WriteBackend for InMemoryBackend<C> where
 		self.0.entry(right.clone()).or_insert((None, Some(0))).1
 			.as_mut().map(|v| *v += 1);
 
-		self.0.insert(key, (Some((left, right)), Some(0)));
+		self.0.insert(key, (Some((left, right)), count));
 		Ok(())
 	}
 }
-- 
2.43.0


From 1b82233c8d006b2042cdf1ae71b86619d70a01d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:01 +0000
Subject: [PATCH 02/19] fix: accept a vector's initial length when it fits the
 capacity, not when it exceeds it

---
 src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index 08fcab1..2db43f9 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -234,7 +234,7 @@ impl<C: Construct> Vector<Owned, C> {
 		max_len: Option<u64>
 	) -> Result<Self, Error<DB::Error>> {
 		if let Some(max_len) = max_len {
-			if (len as u64) < max_len || max_len == 0 {
+			if (len as u64) > max_len || max_len == 0 {
 				return Err(Error::InvalidParameter)
 			}
 		}
-- 
2.43.0


From df625c5a1361def00792c9958f0f2a5adfe30190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:25 +0000
Subject: [PATCH 03/19] fix: compute depths and chunk counts without overflow,
 refuse trees too deep to index

---
 src/utils.rs  | 22 +++++++++++-----------
 src/vector.rs | 28 +++++++++-------------------
 2 files changed, 20 insertions(+), 30 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 575efd5..e4bc2e8 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -2,17 +2,16 @@
 
 use crate::{Construct, WriteBackend, Error};
 use alloc::collections::VecDeque;
+use core::cmp;
 use generic_array::ArrayLength;
 
 /// Required depth of given length.
 pub fn required_depth(len: u64) -> usize {
-	let mut max_len = 1;
-	let mut total_depth = 0;
-	while max_len < len {
-		max_len *= 2;
-		total_depth += 1;
+	if len <= 1 {
+		0
+	} else {
+		64 - (len - 1).leading_zeros() as usize
 	}
-	total_depth
 }
 
 /// Serialize a vector at given depth.
@@ -45,15 +44,16 @@ pub fn vector_tree<DB: WriteBackend>(values: &[<DB::Construct as Construct>::Val
 
 /// Get the host len of a packed vector.
 pub fn host_max_len<Host: ArrayLength<u8>, Value: ArrayLength<u8>>(value_len: u64) -> u64 {
-	let host_array_len = Host::to_u64();
-	let value_array_len = Value::to_u64();
+	let host_array_len = Host::to_u64() as u128;
+	let value_array_len = Value::to_u64() as u128;
 
-	let bytes = value_array_len * value_len;
-	if bytes % host_array_len == 0 {
+	let bytes = value_array_len * value_len as u128;
+	let host_len = if bytes % host_array_len == 0 {
 		bytes / host_array_len
 	} else {
 		bytes / host_array_len + 1
-	}
+	};
+	cmp::min(host_len, u64::max_value() as u128) as u64
 }
 
 /// Get the host len of a packed vector.
diff --git a/src/vector.rs b/src/vector.rs
index 2db43f9..223ec31 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1,7 +1,10 @@
 use crate::traits::{ReadBackend, WriteBackend, Construct, RootStatus, Owned, Dangling, Leak, Error, Tree, Sequence};
 use crate::raw::Raw;
 use crate::index::Index;
+use crate::utils::required_depth;
 
+/// Deepest tree whose leaves have an index.
+const MAX_DEPTH: usize = core::mem::size_of::<usize>() * 8 - 1;
 const ROOT_INDEX: Index = Index::root();
 const EXTEND_INDEX: Index = Index::root().left();
 const EMPTY_INDEX: Index = Index::root().right();
@@ -51,12 +54,8 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 
 	/// Current maximum length of the vector.
 	pub fn current_max_len(&self) -> u64 {
-		self.max_len.unwrap_or({
-			let mut max_len = 1;
-			while max_len < self.len as u64 {
-				max_len *= 2;
-			}
-			max_len
+		self.max_len.unwrap_or_else(|| {
+			1u64.checked_shl(required_depth(self.len as u64) as u32).unwrap_or(u64::max_value())
 		})
 	}
 
@@ -67,13 +66,7 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 
 	/// Depth of the vector.
 	pub fn depth(&self) -> usize {
-		let mut max_len = 1;
-		let mut depth = 0;
-		while max_len < self.current_max_len() {
-			max_len *= 2;
-			depth += 1;
-		}
-		depth
+		required_depth(self.current_max_len())
 	}
 
 	/// Get value at index.
@@ -241,12 +234,9 @@ impl<C: Construct> Vector<Owned, C> {
 
 		let mut raw = Raw::<Owned, C>::default();
 
-		let target_len = max_len.unwrap_or(len as u64);
-		let mut current_max_len = 1;
-		let mut depth = 0;
-		while current_max_len < target_len {
-			current_max_len *= 2;
-			depth += 1;
+		let depth = required_depth(max_len.unwrap_or(len as u64));
+		if depth > MAX_DEPTH {
+			return Err(Error::InvalidParameter)
 		}
 
 		let empty = C::empty_at(db, depth)?;
-- 
2.43.0


From 6862e43a3a831f03073f3faca4d7dc219263da54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:34 +0000
Subject: [PATCH 04/19] fix: keep a vector's root and length when a push or pop
 fails half-way

---
 src/vector.rs | 89 ++++++++++++++++++++-------------------------------
 1 file changed, 34 insertions(+), 55 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 223ec31..428e5d4 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -27,31 +27,6 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 		Index::from_depth(i, self.depth())
 	}
 
-	fn extend<DB: WriteBackend<Construct=C> + ?Sized>(
-		&mut self,
-		db: &mut DB
-	) -> Result<(), Error<DB::Error>> {
-		let root = self.root();
-		let mut new_raw = Raw::default();
-		let empty = C::empty_at(db, self.depth())?;
-		new_raw.set(db, EXTEND_INDEX, root)?;
-		new_raw.set(db, EMPTY_INDEX, empty)?;
-		self.raw.set(db, ROOT_INDEX, Default::default())?;
-		self.raw = new_raw;
-		Ok(())
-	}
-
-	fn shrink<DB: WriteBackend<Construct=C> + ?Sized>(
-		&mut self,
-		db: &mut DB
-	) -> Result<(), Error<DB::Error>> {
-		match self.raw.get(db, EXTEND_INDEX)? {
-			Some(extended_value) => { self.raw.set(db, ROOT_INDEX, extended_value)?; },
-			None => { self.raw.set(db, ROOT_INDEX, Default::default())?; },
-		}
-		Ok(())
-	}
-
 	/// Current maximum length of the vector.
 	pub fn current_max_len(&self) -> u64 {
 		self.max_len.unwrap_or_else(|| {
@@ -105,20 +80,24 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 		db: &mut DB,
 		value: C::Value
 	) -> Result<(), Error<DB::Error>> {
-		let old_len = self.len();
-		if (old_len as u64) == self.current_max_len() {
-			if self.max_len.is_some() {
-				return Err(Error::AccessOverflowed)
-			} else {
-				self.extend(db)?;
-			}
+		let index = self.len();
+		if (index as u64) < self.current_max_len() {
+			let raw_index = self.raw_index(index);
+			self.raw.set(db, raw_index, value)?;
+		} else if self.max_len.is_some() {
+			return Err(Error::AccessOverflowed)
+		} else {
+			// Only switch to the extended tree when it is complete.
+			let depth = self.depth();
+			let empty = C::empty_at(db, depth)?;
+			let mut extended = Raw::<R, C>::default();
+			extended.set(db, EXTEND_INDEX, self.root())?;
+			extended.set(db, EMPTY_INDEX, empty)?;
+			extended.set(db, Index::from_depth(index, depth + 1), value)?;
+			self.raw.set(db, ROOT_INDEX, Default::default())?;
+			self.raw = extended;
 		}
-		let len = old_len + 1;
-		let index = old_len;
-		self.len = len;
-
-		let raw_index = self.raw_index(index);
-		self.raw.set(db, raw_index, value)?;
+		self.len = index + 1;
 		Ok(())
 	}
 
@@ -137,27 +116,27 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 		let raw_index = self.raw_index(index);
 		let value = self.raw.get(db, raw_index)?.ok_or(Error::CorruptedDatabase)?;
 
-		let mut empty_depth_to_bottom = 0;
-		let mut replace_index = raw_index;
-		loop {
-			if let Some(parent) = replace_index.parent() {
-				if parent.left() == replace_index {
-					replace_index = parent;
-					empty_depth_to_bottom += 1;
+		if self.max_len.is_none() && len > 0 && (len as u64) <= self.current_max_len() / 2 {
+			// What remains is exactly the left subtree.
+			let shrunk = self.raw.get(db, EXTEND_INDEX)?.ok_or(Error::CorruptedDatabase)?;
+			self.raw.set(db, ROOT_INDEX, shrunk)?;
+		} else {
+			let mut empty_depth_to_bottom = 0;
+			let mut replace_index = raw_index;
+			loop {
+				if let Some(parent) = replace_index.parent() {
+					if parent.left() == replace_index {
+						replace_index = parent;
+						empty_depth_to_bottom += 1;
+					} else {
+						break
+					}
 				} else {
 					break
 				}
-			} else {
-				break
-			}
-		}
-		let empty = C::empty_at(db, empty_depth_to_bottom)?;
-		self.raw.set(db, replace_index, empty)?;
-
-		if (len as u64) <= self.current_max_len() / 2 {
-			if self.max_len.is_none() {
-				self.shrink(db)?;
 			}
+			let empty = C::empty_at(db, empty_depth_to_bottom)?;
+			self.raw.set(db, replace_index, empty)?;
 		}
 		self.len = len;
 		Ok(Some(value))
-- 
2.43.0


From d4f378fcfb9b6e7782d7d1a526f7174a1cdc540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 05/19] fix: free what a list's inner sequence replaces, keep
 the list unchanged when an operation fails

---
 src/length.rs | 33 +++++++++++++++++++++++++--------
 src/list.rs   |  6 +++---
 src/packed.rs |  6 +++---
 3 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/length.rs b/src/length.rs
index 723a380..c47d12f 100644
--- a/src/length.rs
+++ b/src/length.rs
@@ -52,20 +52,37 @@ impl<R: RootStatus, C: Construct, S> LengthMixed<R, C, S> where
 		f(&self.inner, db)
 	}
 
-	/// Call with a mutable reference to the inner sequence.
-	pub fn with_mut<DB: WriteBackend<Construct=C> + ?Sized, RT, F>(
+	/// Call with a mutable reference to the inner sequence. While it runs, the
+	/// inner sequence has the root status of the whole tree, so that what it
+	/// replaces can be freed. On error the whole tree is left unchanged.
+	pub fn with_mut<DB: WriteBackend<Construct=C> + ?Sized, IS, RT, F>(
 		&mut self,
 		db: &mut DB,
 		f: F
 	) -> Result<RT, Error<DB::Error>> where
-		F: FnOnce(&mut S, &mut DB) -> Result<RT, Error<DB::Error>>
+		F: FnOnce(&mut IS, &mut DB) -> Result<RT, Error<DB::Error>>,
+		IS: Sequence<Construct=C, RootStatus=R> + Leak<Metadata=S::Metadata>,
+		S: Leak,
 	{
-		let ret = f(&mut self.inner, db)?;
-		let new_len = self.inner.len();
-		let new_inner_root = self.inner.root();
+		// The pair being replaced is part of what is accessed.
+		self.raw.get(db, LEN_INDEX)?;
+
+		if R::is_owned() {
+			db.rootify(&self.inner.root())?;
+		}
+		let mut inner = IS::from_leaked(self.inner.metadata());
+		let mixed = f(&mut inner, db).and_then(|ret| {
+			let value = (inner.root(), inner.len().into());
+			let key = C::intermediate_of(&value.0, &value.1);
+			db.insert(key.clone(), value)?;
+			Ok((ret, key))
+		});
+		let metadata = inner.metadata();
+		inner.drop(db)?;
+		let (ret, root) = mixed?;
 
-		self.raw.set(db, ITEM_ROOT_INDEX, new_inner_root)?;
-		self.raw.set(db, LEN_INDEX, new_len.into())?;
+		self.raw.set(db, Index::root(), root)?;
+		self.inner = S::from_leaked(metadata);
 
 		Ok(ret)
 	}
diff --git a/src/list.rs b/src/list.rs
index abcee0f..9f4cd80 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -22,17 +22,17 @@ impl<R: RootStatus, C: Construct> List<R, C> where
 
 	/// Set value at index.
 	pub fn set<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, index: usize, value: C::Value) -> Result<(), Error<DB::Error>> {
-		self.0.with_mut(db, |tuple, db| tuple.set(db, index, value))
+		self.0.with_mut(db, |tuple: &mut Vector<R, C>, db| tuple.set(db, index, value))
 	}
 
 	/// Push a new value to the vector.
 	pub fn push<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, value: C::Value) -> Result<(), Error<DB::Error>> {
-		self.0.with_mut(db, |tuple, db| tuple.push(db, value))
+		self.0.with_mut(db, |tuple: &mut Vector<R, C>, db| tuple.push(db, value))
 	}
 
 	/// Pop a value from the vector.
 	pub fn pop<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB) -> Result<Option<C::Value>, Error<DB::Error>> {
-		self.0.with_mut(db, |tuple, db| tuple.pop(db))
+		self.0.with_mut(db, |tuple: &mut Vector<R, C>, db| tuple.pop(db))
 	}
 
 	/// Deconstruct the vector into one single hash value, and leak only the hash value.
diff --git a/src/packed.rs b/src/packed.rs
index 506bd61..4b8aa36 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -232,17 +232,17 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 
 	/// Set value at index.
 	pub fn set<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, index: usize, value: T) -> Result<(), Error<DB::Error>> {
-		self.0.with_mut(db, |tuple, db| tuple.set(db, index, value))
+		self.0.with_mut(db, |tuple: &mut PackedVector<R, C, T, H, V>, db| tuple.set(db, index, value))
 	}
 
 	/// Push a new value to the vector.
 	pub fn push<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, value: T) -> Result<(), Error<DB::Error>> {
-		self.0.with_mut(db, |tuple, db| tuple.push(db, value))
+		self.0.with_mut(db, |tuple: &mut PackedVector<R, C, T, H, V>, db| tuple.push(db, value))
 	}
 
 	/// Pop a value from the vector.
 	pub fn pop<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB) -> Result<Option<T>, Error<DB::Error>> {
-		self.0.with_mut(db, |tuple, db| tuple.pop(db))
+		self.0.with_mut(db, |tuple: &mut PackedVector<R, C, T, H, V>, db| tuple.pop(db))
 	}
 }
 
-- 
2.43.0


From 03c9b0d361c373ac5161fe68b7b81b10a9a100c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:48 +0000
Subject: [PATCH 06/19] fix: refuse to reconstruct a list longer than its
 maximum length

---
 src/list.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/list.rs b/src/list.rs
index 9f4cd80..3903778 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -40,9 +40,14 @@ impl<R: RootStatus, C: Construct> List<R, C> where
 		self.0.deconstruct(db)
 	}
 
-	/// Reconstruct the vector from a single hash value.
+	/// Reconstruct the vector from a single hash value. Fails if the length it
+	/// commits to exceeds the maximum length, or cannot be addressed.
 	pub fn reconstruct<DB: WriteBackend<Construct=C> + ?Sized>(root: C::Value, db: &mut DB, max_len: Option<u64>) -> Result<Self, Error<DB::Error>> {
 		Ok(Self(LengthMixed::reconstruct(root, db, |tuple_raw, _db, len| {
+			let addressable = !(usize::max_value() >> 1) as u64;
+			if len as u64 > max_len.unwrap_or(addressable) {
+				return Err(Error::CorruptedDatabase)
+			}
 			Ok(Vector::<Dangling, C>::from_raw(tuple_raw, len, max_len))
 		})?))
 	}
-- 
2.43.0


From 5892ab507ae8d3e61e2d518f089d8a43220c06d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:46 +0000
Subject: [PATCH 07/19] fix: bound reads and writes of a packed vector by its
 length, not by its chunks

---
 src/packed.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/packed.rs b/src/packed.rs
index 4b8aa36..114625c 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -51,6 +51,10 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 {
 	/// Get value at index.
 	pub fn get<DB: ReadBackend<Construct=C> + ?Sized>(&self, db: &mut DB, index: usize) -> Result<T, Error<DB::Error>> {
+		if index >= self.len {
+			return Err(Error::AccessOverflowed)
+		}
+
 		let mut ret = GenericArray::<u8, V>::default();
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
@@ -66,6 +70,15 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 
 	/// Set value at index.
 	pub fn set<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, index: usize, value: T) -> Result<(), Error<DB::Error>> {
+		if index >= self.len {
+			return Err(Error::AccessOverflowed)
+		}
+
+		self.write(db, index, value)
+	}
+
+	/// Write value at index, in chunks that already exist.
+	fn write<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, index: usize, value: T) -> Result<(), Error<DB::Error>> {
 		let value: GenericArray<u8, V> = value.into();
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
@@ -88,7 +101,7 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 		while self.tuple.len() < covering_base + covering_ranges.len() {
 			self.tuple.push(db, Default::default())?;
 		}
-		self.set(db, index, value)?;
+		self.write(db, index, value)?;
 		self.len += 1;
 		Ok(())
 	}
-- 
2.43.0


From 24062c500b8cdee96abceb8ce1df20af3c10f749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:47 +0000
Subject: [PATCH 08/19] fix: refuse to push to a packed vector that reached its
 maximum length

---
 src/packed.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/packed.rs b/src/packed.rs
index 114625c..169292b 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -96,6 +96,10 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 	/// Push a new value to the tuple.
 	pub fn push<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, value: T) -> Result<(), Error<DB::Error>> {
 		let index = self.len;
+		if self.max_len.map(|max_len| index as u64 >= max_len).unwrap_or(false) {
+			return Err(Error::AccessOverflowed)
+		}
+
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
 		while self.tuple.len() < covering_base + covering_ranges.len() {
-- 
2.43.0


From f4a300879015e06110cab6f5b363d44635c2871d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:49 +0000
Subject: [PATCH 09/19] fix: pop only the last element of a packed vector, not
 those sharing its chunk

---
 src/packed.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/packed.rs b/src/packed.rs
index 169292b..f4fca5e 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -119,22 +119,19 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 		let index = self.len - 1;
 		let ret = self.get(db, index)?;
 
-		if self.len == 1 {
-			while self.tuple.len() > 0 {
-				self.tuple.pop(db)?;
-			}
-		} else {
-			let last_index = index - 1;
-
-			let (covering_base, covering_ranges) = coverings::<H, V>(last_index);
-			while self.tuple.len() > covering_base + covering_ranges.len() {
-				self.tuple.pop(db)?;
-			}
-
-			let last_value = self.get(db, last_index)?;
+		// Drop the chunks nothing remains in, and clear the popped value's
+		// bytes in the chunk it shares with what remains.
+		let remaining = host_len::<H, V>(index);
+		while self.tuple.len() > remaining {
 			self.tuple.pop(db)?;
-			self.tuple.push(db, Default::default())?;
-			self.set(db, last_index, last_value)?;
+		}
+		let used = index * V::to_usize() % H::to_usize();
+		if used > 0 {
+			let mut last = self.tuple.get(db, remaining - 1)?;
+			for byte in &mut last.as_mut()[used..] {
+				*byte = 0;
+			}
+			self.tuple.set(db, remaining - 1, last)?;
 		}
 
 		self.len -= 1;
-- 
2.43.0


From f65d90aa58a88ca4fe5ffdb8ee1d791856a37d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:14 +0000
Subject: [PATCH 10/19] fix: refuse to create a packed vector longer than its
 maximum length

---
 src/packed.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/packed.rs b/src/packed.rs
index f4fca5e..c0f1264 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -209,6 +209,11 @@ impl<C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> PackedVector<Owned
 {
 	/// Create a new tuple.
 	pub fn create<DB: WriteBackend<Construct=C> + ?Sized>(db: &mut DB, value_len: usize, value_max_len: Option<u64>) -> Result<Self, Error<DB::Error>> {
+		// Whole chunks may hold more values than the maximum length.
+		if value_max_len.map(|max_len| value_len as u64 > max_len).unwrap_or(false) {
+			return Err(Error::InvalidParameter)
+		}
+
 		let host_max_len = value_max_len.map(|l| host_max_len::<H, V>(l));
 		let host_len = host_len::<H, V>(value_len);
 
-- 
2.43.0


From 549878689f8f151883ef7b0c1ca4c4a91581ec4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:25 +0000
Subject: [PATCH 11/19] fix: record reads of a node whose insertion failed in
 the proving backend

---
 src/proving.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/proving.rs b/src/proving.rs
index 94b8340..4801840 100644
--- a/src/proving.rs
+++ b/src/proving.rs
@@ -111,8 +111,9 @@ impl<'a, DB: WriteBackend + ?Sized> WriteBackend for ProvingBackend<'a, DB> wher
 		key: <DB::Construct as Construct>::Value,
 		value: (<DB::Construct as Construct>::Value, <DB::Construct as Construct>::Value)
 	) -> Result<(), Self::Error> {
-		self.state.inserts.insert(key.clone());
-		self.db.insert(key, value)
+		self.db.insert(key.clone(), value)?;
+		self.state.inserts.insert(key);
+		Ok(())
 	}
 }
 
-- 
2.43.0


From 45a969ac2f82be66afe6685ca47226418c08b478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 12/19] fix: decode all 64 bytes of an H512

---
 le/src/fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/le/src/fixed.rs b/le/src/fixed.rs
index b932c2b..bda7c0a 100644
--- a/le/src/fixed.rs
+++ b/le/src/fixed.rs
@@ -107,7 +107,7 @@ impl FromTree for H512 {
 	fn from_tree<DB: ReadBackend>(root: &<DB::Construct as Construct>::Value, db: &mut DB) -> Result<Self, Error<DB::Error>> where
 		DB::Construct: CompatibleConstruct,
 	{
-		let value = ElementalFixedVec::<u8>::from_compact_vector_tree(root, db, 32, None)?;
+		let value = ElementalFixedVec::<u8>::from_compact_vector_tree(root, db, 64, None)?;
 		Ok(Self::from_slice(value.0.as_ref()))
 	}
 }
-- 
2.43.0


From dffbf62ec0a3e9b24c816f6a011440ffc34bcf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 13/19] fix: decode compact U256 vectors as little-endian, as
 they are encoded

---
 le/src/elemental_fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/le/src/elemental_fixed.rs b/le/src/elemental_fixed.rs
index 4cfc61a..28b2a7c 100644
--- a/le/src/elemental_fixed.rs
+++ b/le/src/elemental_fixed.rs
@@ -161,7 +161,7 @@ impl FromCompactVectorTree for ElementalFixedVec<U256> {
 		let mut ret = Vec::new();
 		for i in 0..len {
 			let value = vector.get(db, i)?;
-			ret.push(U256::from(value.as_ref()));
+			ret.push(U256::from_little_endian(value.as_ref()));
 		}
 
 		Ok(Self(ret))
-- 
2.43.0


From 05ea06ecd8842000dc6c466eefbe7087217f48cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 14/19] fix: reject a decoded list longer than its maximum
 length

---
 le/src/elemental_fixed.rs    | 8 +++-----
 le/src/elemental_variable.rs | 9 +++++++++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/le/src/elemental_fixed.rs b/le/src/elemental_fixed.rs
index 28b2a7c..9d911e9 100644
--- a/le/src/elemental_fixed.rs
+++ b/le/src/elemental_fixed.rs
@@ -1,5 +1,5 @@
 use bm::{ReadBackend, WriteBackend, Construct, Error, DanglingPackedVector, DanglingVector, Leak, Sequence};
-use bm::utils::{vector_tree, host_max_len};
+use bm::utils::{vector_tree, host_len, host_max_len};
 use primitive_types::{H256, U256};
 use generic_array::GenericArray;
 use alloc::vec::Vec;
@@ -183,9 +183,7 @@ impl<'a> IntoCompactVectorTree for ElementalFixedVecRef<'a, bool> {
 			bytes[i / 8] |= (self.0[i] as u8) << (i % 8);
 		}
 
-		ElementalFixedVecRef(&bytes).into_compact_vector_tree(db, max_len.map(|l| {
-			(l + 7) / 8
-		}))
+		ElementalFixedVecRef(&bytes).into_compact_vector_tree(db, max_len.map(host_max_len::<typenum::U8, typenum::U1>))
 	}
 }
 
@@ -199,7 +197,7 @@ impl FromCompactVectorTree for ElementalFixedVec<bool> {
 		DB::Construct: CompatibleConstruct,
 	{
 		let packed = DanglingPackedVector::<DB::Construct, GenericArray<u8, typenum::U1>, typenum::U32, typenum::U1>::from_leaked(
-			(root.clone(), (len + 7) / 8, max_len.map(|l| (l + 7) / 8))
+			(root.clone(), host_len::<typenum::U8, typenum::U1>(len), max_len.map(host_max_len::<typenum::U8, typenum::U1>))
 		);
 
 		let mut bytes = Vec::new();
diff --git a/le/src/elemental_variable.rs b/le/src/elemental_variable.rs
index 857274e..c32a284 100644
--- a/le/src/elemental_variable.rs
+++ b/le/src/elemental_variable.rs
@@ -1,12 +1,16 @@
 use bm::{Error, ReadBackend, WriteBackend, Construct};
 use primitive_types::U256;
 use alloc::vec::Vec;
+use core::cmp;
 
 use crate::{ElementalFixedVec, FromCompactVectorTree, FromCompositeVectorTree,
 			ElementalFixedVecRef, IntoCompactVectorTree,
 			IntoCompositeVectorTree, CompatibleConstruct};
 use crate::utils::{mix_in_length, decode_with_length};
 
+/// Largest number of leaves of a tree that can be indexed.
+const MAX_LEN: u64 = 1 << 63;
+
 /// Traits for list converting into a tree structure.
 pub trait IntoCompositeListTree {
 	/// Convert this list into merkle tree, writing nodes into the
@@ -117,6 +121,11 @@ fn from_list_tree<T, F, DB: ReadBackend>(
 {
 	let (vector_root, len) = decode_with_length::<<DB::Construct as Construct>::Value, _>(root, db)?;
 
+	// Longer than the type allows, or than any tree can be indexed.
+	if len as u64 > cmp::min(max_len.unwrap_or(MAX_LEN), MAX_LEN) {
+		return Err(Error::CorruptedDatabase)
+	}
+
 	let vector = f(
 		&vector_root, db, len, max_len
 	)?;
-- 
2.43.0


From 2ca1253a9e75dc62294f2abec52213588704e8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 15/19] fix: refuse to encode a vector or list longer than its
 maximum length

---
 le/src/elemental_fixed.rs | 12 ++++++++++++
 src/utils.rs              |  9 +++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/le/src/elemental_fixed.rs b/le/src/elemental_fixed.rs
index 9d911e9..e990c7e 100644
--- a/le/src/elemental_fixed.rs
+++ b/le/src/elemental_fixed.rs
@@ -63,6 +63,14 @@ pub struct ElementalFixedVecRef<'a, T>(pub &'a [T]);
 /// Elemental `Vec` value. In ssz's definition, this is a basic "vector".
 pub struct ElementalFixedVec<T>(pub Vec<T>);
 
+/// Elements that share a chunk are not counted by `vector_tree`.
+fn ensure_max_len<E>(len: usize, max_len: Option<u64>) -> Result<(), Error<E>> {
+	match max_len {
+		Some(max_len) if len as u64 > max_len => Err(Error::InvalidParameter),
+		_ => Ok(()),
+	}
+}
+
 macro_rules! impl_builtin_fixed_uint_vector {
 	( $t:ty, $lt:ty ) => {
 		impl<'a> IntoCompactVectorTree for ElementalFixedVecRef<'a, $t> {
@@ -73,6 +81,8 @@ macro_rules! impl_builtin_fixed_uint_vector {
 			) -> Result<<DB::Construct as Construct>::Value, Error<DB::Error>> where
 				DB::Construct: CompatibleConstruct,
 			{
+				ensure_max_len(self.0.len(), max_len)?;
+
 				let mut chunks: Vec<Vec<u8>> = Vec::new();
 
 				for value in self.0 {
@@ -176,6 +186,8 @@ impl<'a> IntoCompactVectorTree for ElementalFixedVecRef<'a, bool> {
 	) -> Result<<DB::Construct as Construct>::Value, Error<DB::Error>> where
 		DB::Construct: CompatibleConstruct,
 	{
+		ensure_max_len(self.0.len(), max_len)?;
+
 		let mut bytes = Vec::new();
 		bytes.resize((self.0.len() + 7) / 8, 0u8);
 
diff --git a/src/utils.rs b/src/utils.rs
index e4bc2e8..872a3cc 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -14,9 +14,14 @@ pub fn required_depth(len: u64) -> usize {
 	}
 }
 
-/// Serialize a vector at given depth.
+/// Serialize a vector at given depth. Fails with `InvalidParameter` if it is
+/// longer than the maximum length.
 pub fn vector_tree<DB: WriteBackend>(values: &[<DB::Construct as Construct>::Value], db: &mut DB, max_len: Option<u64>) -> Result<<DB::Construct as Construct>::Value, Error<DB::Error>> {
-	let total_depth = required_depth(max_len.unwrap_or(values.len() as u64));
+	let max_len = max_len.unwrap_or(values.len() as u64);
+	if values.len() as u64 > max_len {
+		return Err(Error::InvalidParameter)
+	}
+	let total_depth = required_depth(max_len);
 
 	let mut current = values.iter().cloned().collect::<VecDeque<_>>();
 	let mut next = VecDeque::new();
-- 
2.43.0


From 1dff08ca1bb2d25dd8ae09f55bc5a7196fd979ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 16/19] fix: resolve items of a partial list beside its length,
 write pushed items back

---
 le/src/partial.rs | 45 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index 870556e..a2c443f 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -1,3 +1,4 @@
+use bm::utils::required_depth;
 use bm::{Index, Error, ReadBackend, RootStatus, Raw, DanglingList, Tree, WriteBackend};
 use primitive_types::{U256, H256};
 use core::mem;
@@ -71,9 +72,9 @@ impl PartialIndex {
 			None => Index::root(),
 		};
 
-		let (index, len) = match self.sub {
+		let (parent, index, len) = match self.sub {
 			PartialSubIndex::Raw(raw) => return Ok(parent.sub(raw)),
-			PartialSubIndex::Vector(index, len) => (index, len),
+			PartialSubIndex::Vector(index, len) => (parent, index, len),
 			PartialSubIndex::List(index) => {
 				let len_root = raw.get(db, parent.right())?.ok_or(Error::CorruptedDatabase)?;
 				let len = U256::from_tree(&len_root, db)?;
@@ -81,23 +82,34 @@ impl PartialIndex {
 				if len > U256::from(usize::max_value()) {
 					return Err(Error::CorruptedDatabase)
 				} else {
-					(index, len.as_usize())
+					// The items are on the left of the length.
+					(parent.left(), index, len.as_usize())
 				}
 			},
 		};
 
-		let mut max_len = 1;
-		let mut depth = 0;
-		while max_len < len {
-			max_len *= 2;
-			depth += 1;
+		if index >= len {
+			return Err(Error::AccessOverflowed)
 		}
-		let sub = Index::from_one((1 << depth) + index).expect("
-		  result is greater or equal to 1;
-		  Index::from_one always return Some; qed");
 
-		Ok(parent.sub(sub))
+		let depth = required_depth(len as u64);
+		if index_depth(parent) + depth >= 0usize.leading_zeros() as usize {
+			// No index reaches that deep.
+			return Err(Error::CorruptedDatabase)
+		}
+
+		Ok(parent.sub(Index::from_depth(index, depth)))
+	}
+}
+
+/// Number of selections from the root to the index.
+fn index_depth(mut index: Index) -> usize {
+	let mut depth = 0;
+	while let Some(parent) = index.parent() {
+		index = parent;
+		depth += 1;
 	}
+	depth
 }
 
 /// Basic partial values.
@@ -217,11 +229,18 @@ impl<T: Partialable + IntoTree> PartialItem for PartialVec<T> {
 
 		let mut pushed = Vec::default();
 		mem::swap(&mut pushed, &mut self.pushed);
-		let mut list = DanglingList::reconstruct(raw.root(), db, None)?;
+		if pushed.is_empty() {
+			return Ok(())
+		}
+
+		let index = self.index.resolve(raw, db)?;
+		let index_root = raw.get(db, index)?.ok_or(Error::CorruptedDatabase)?;
+		let mut list = DanglingList::reconstruct(index_root, db, None)?;
 		for value in pushed {
 			let value_root = value.into_tree(db)?;
 			list.push(db, value_root)?;
 		}
+		raw.set(db, index, list.root())?;
 
 		Ok(())
 	}
-- 
2.43.0


From 6fba7f52135cc7bbbe49a8d5db14a2b9cb1999af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 17/19] fix: do not truncate a length node that exceeds the
 machine word

---
 le/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/le/src/lib.rs b/le/src/lib.rs
index 378da09..83175b3 100644
--- a/le/src/lib.rs
+++ b/le/src/lib.rs
@@ -76,6 +76,11 @@ impl From<usize> for Value {
 
 impl Into<usize> for Value {
 	fn into(self) -> usize {
+		if self.0[8..].iter().any(|byte| *byte != 0) {
+			// Does not fit. No sequence is that long.
+			return usize::max_value()
+		}
+
 		let mut raw = [0u8; 8];
 		(&mut raw).copy_from_slice(&self.0[0..8]);
 		u64::from_le_bytes(raw) as usize
-- 
2.43.0


From f5d45eff30b26d47417df7bb476f2b48a6e57aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 18/19] fix: refuse to push to a vector whose tree cannot be
 indexed any deeper

---
 src/vector.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vector.rs b/src/vector.rs
index 428e5d4..6c571f9 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -86,6 +86,9 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 			self.raw.set(db, raw_index, value)?;
 		} else if self.max_len.is_some() {
 			return Err(Error::AccessOverflowed)
+		} else if self.depth() >= MAX_DEPTH {
+			// No index reaches the elements of a deeper tree.
+			return Err(Error::AccessOverflowed)
 		} else {
 			// Only switch to the extended tree when it is complete.
 			let depth = self.depth();
-- 
2.43.0


From 25d14bbe8a89e07ffdde964c6dd5f3641fed2c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:10 +0000
Subject: [PATCH 19/19] fix: locate the chunks of packed vectors longer than
 2^64 bytes, refuse to push past the largest length

---
 src/packed.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/packed.rs b/src/packed.rs
index c0f1264..e402599 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -14,9 +14,10 @@ fn coverings<Host: ArrayLength<u8>, Value: ArrayLength<u8>>(value_index: usize)
 	let host_len = Host::to_usize();
 	let value_len = Value::to_usize();
 
-	let bytes = value_len * value_index;
-	let host_index = bytes / host_len;
-	let offset = bytes - host_len * host_index;
+	// The bytes of a long vector are more than a machine word counts.
+	let bytes = value_len as u128 * value_index as u128;
+	let host_index = (bytes / host_len as u128) as usize;
+	let offset = (bytes % host_len as u128) as usize;
 
 	let mut ranges = Vec::new();
 	ranges.push(offset..cmp::min(offset + value_len, host_len));
@@ -102,6 +103,11 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
+		// Neither the length nor the chunks can be counted any further.
+		if index == usize::max_value() || covering_base + covering_ranges.len() > usize::max_value() / 2 + 1 {
+			return Err(Error::AccessOverflowed)
+		}
+
 		while self.tuple.len() < covering_base + covering_ranges.len() {
 			self.tuple.push(db, Default::default())?;
 		}
@@ -125,7 +131,7 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 		while self.tuple.len() > remaining {
 			self.tuple.pop(db)?;
 		}
-		let used = index * V::to_usize() % H::to_usize();
+		let used = (index as u128 * V::to_usize() as u128 % H::to_usize() as u128) as usize;
 		if used > 0 {
 			let mut last = self.tuple.get(db, remaining - 1)?;
 			for byte in &mut last.as_mut()[used..] {
-- 
2.43.0

