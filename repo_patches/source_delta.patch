From 0adc7c8893c88bdeed5934661c5c1100d87c54c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:56 +0000
Subject: [PATCH 01/35] fix: keep next_id when an empty LinkedMap is cloned or
 constructed

A list that had been emptied started again from ID 0 after a clone, so IDs
of removed items were given to new ones.
---
 dochy_core/src/imp/structs/linked_m.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/structs/linked_m.rs b/dochy_core/src/imp/structs/linked_m.rs
index f8087cd..3212025 100644
--- a/dochy_core/src/imp/structs/linked_m.rs
+++ b/dochy_core/src/imp/structs/linked_m.rs
@@ -81,7 +81,7 @@ impl<V> LinkedMap<V> {
     }
     pub fn construct(items : Vec<(u64,V)>, next_id : u64) -> LinkedMap<V>{
         if items.is_empty(){
-            return LinkedMap::new();
+            return LinkedMap { next_id, ..LinkedMap::new() };
         }
         let mut map : HashM<u64,Box<MutNode<V>>> = HashMt::with_capacity(items.len());
         let mut iter = items.into_iter();
@@ -388,7 +388,7 @@ impl<V> LinkedMap<V> {
 
 impl<V : Clone> Clone for LinkedMap<V>{
     fn clone(&self) -> Self {
-        if self.map.is_empty(){ return LinkedMap::new() }
+        if self.map.is_empty(){ return LinkedMap { next_id : self.next_id, ..LinkedMap::new() } }
         let mut map = self.map.clone();
         let first_node = map.get_mut(&self.first_id().unwrap()).unwrap().as_mut() as *mut _;
         let last_node = map.get_mut(&self.last_id().unwrap()).unwrap().as_mut() as *mut _;
-- 
2.43.0


From f0530ca50906c1ed4a406dedc1e3e634c0a34903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:56 +0000
Subject: [PATCH 02/35] fix: accept undefiable lists when the difference of a
 root is taken

The metadata of an undefiable MList is OptMil, and get_root_diff panicked on it.
---
 dochy_diff/src/imp/prepare/get_root_diff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_diff/src/imp/prepare/get_root_diff.rs b/dochy_diff/src/imp/prepare/get_root_diff.rs
index b2690b3..2e1aed6 100644
--- a/dochy_diff/src/imp/prepare/get_root_diff.rs
+++ b/dochy_diff/src/imp/prepare/get_root_diff.rs
@@ -50,7 +50,7 @@ pub(crate) fn get_root_diff<'a, 'b>(from : &'a RootObject, to : &'b RootObject)
                 let (&id, mdef) = if let Some((id, RootValue::MList(mdef))) = def.get(key) { (id, mdef) } else {
                     panic!("invalid def");
                 };
-                let meta = if let Some((_key, MetaValue::MList(meta))) = meta.get(id) { meta } else {
+                let meta = if let Some((_key, MetaValue::MList(meta) | MetaValue::OptMil(meta))) = meta.get(id) { meta } else {
                     panic!("invalid meta");
                 };
 
-- 
2.43.0


From 0d08b47b2926a1a6962f2a5cff1343abe0de977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:56 +0000
Subject: [PATCH 03/35] fix: read list items that store the IDs of inner lists
 as numbers

read_list_item2 refused every ID that is not a parameter, although the
lists are read right after the parameters. A saved item with many members
and a changed inner list could not be loaded.
---
 dochy_diff/src/imp/read/read_list.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dochy_diff/src/imp/read/read_list.rs b/dochy_diff/src/imp/read/read_list.rs
index 4aeacf0..559666c 100644
--- a/dochy_diff/src/imp/read/read_list.rs
+++ b/dochy_diff/src/imp/read/read_list.rs
@@ -87,8 +87,6 @@ fn read_list_item2(r : &mut Reader, meta : &MetaTables) -> Result<ListItemDiffR,
             for &id in &n{
                 if let Some((_,MetaValue::Param(p))) = meta.items().get(id){
                     params.push((id, read_param(p, r)?));
-                } else {
-                    Err("invalid meta read_list_item2")?
                 }
             }
             read_lists_numbers(r, meta.items(), &n, &mut lists)?;
-- 
2.43.0


From 6866290a1ae87d737f984937aec59023c4ec94aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:56 +0000
Subject: [PATCH 04/35] fix: compare floats by their bits when looking for
 changes

0.0 and -0.0 are equal, so a change from one to the other was not saved.
NaN is not equal to itself, so an unchanged NaN was always saved again.
---
 dochy_core/src/imp/structs/rust_array.rs                | 2 +-
 dochy_core/src/imp/structs/util/identity_equal_trait.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/structs/rust_array.rs b/dochy_core/src/imp/structs/rust_array.rs
index 98e0a76..b16c3a3 100644
--- a/dochy_core/src/imp/structs/rust_array.rs
+++ b/dochy_core/src/imp/structs/rust_array.rs
@@ -73,7 +73,7 @@ impl RustFloatArray{
 
 impl IdentityEqual for RustFloatArray{
     fn identity_eq(&self, other: &Self) -> bool {
-        self.b == other.b
+        self.b.len() == other.b.len() && self.b.iter().zip(other.b.iter()).all(|(a, b)| a.identity_eq(b))
     }
 }
 
diff --git a/dochy_core/src/imp/structs/util/identity_equal_trait.rs b/dochy_core/src/imp/structs/util/identity_equal_trait.rs
index 15de962..faffdd2 100644
--- a/dochy_core/src/imp/structs/util/identity_equal_trait.rs
+++ b/dochy_core/src/imp/structs/util/identity_equal_trait.rs
@@ -43,7 +43,7 @@ impl IdentityEqual for i64{
 
 impl IdentityEqual for f64{
     fn identity_eq(&self, other: &Self) -> bool {
-        self == other
+        self.to_bits() == other.to_bits()
     }
 }
 
-- 
2.43.0


From ad8d4815f084df6cb88e03babd126e761d948da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:56 +0000
Subject: [PATCH 05/35] fix: save next_id of a list even if its items are
 unchanged

After an item was added and removed between two saves, the loaded list gave
the ID of the removed item again.
---
 dochy_diff/src/imp/prepare/get_mlist_diff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_diff/src/imp/prepare/get_mlist_diff.rs b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
index bc8d9c3..fa419a6 100644
--- a/dochy_diff/src/imp/prepare/get_mlist_diff.rs
+++ b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
@@ -26,7 +26,7 @@ pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b Lin
         prev_id = Some(id)
     }
 
-    if result.len() == 0{
+    if result.len() == 0 && from.next_id() == to.next_id(){
         None
     } else {
         Some(ListDiffW::new(result, meta, to.next_id()))
-- 
2.43.0


From 58ffd44258a2e083e16bbf4f3777aa8a5b561511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:56 +0000
Subject: [PATCH 06/35] fix: save the new order when items of a list were moved

The difference of two lists had nothing for items that only changed their
position, so the loaded list was in the old order. Moved items are now
deleted and created again at their new position.
---
 dochy_diff/src/imp/prepare/get_mlist_diff.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/dochy_diff/src/imp/prepare/get_mlist_diff.rs b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
index fa419a6..5b67fd3 100644
--- a/dochy_diff/src/imp/prepare/get_mlist_diff.rs
+++ b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
@@ -2,13 +2,27 @@ use crate::imp::structs_write::{ListDiffW, ListItemDiffEnumW, BS};
 use dochy_core::structs::{ListDefObj, LinkedMap, MutItem, MetaTables};
 use crate::imp::prepare::compare_items::compare_items;
 use crate::imp::prepare::new_item::new_item;
+use std::collections::{BTreeMap, BTreeSet};
 
 pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b LinkedMap<MutItem>,
                               to_def : &'b ListDefObj, meta : &'b MetaTables) -> Option<ListDiffW<'b>>{
 
+    //diffにはアイテムの移動を表すものがないので、順番が前後したアイテムはDeleteしてCreateしなおす
+    let from_pos : BTreeMap<u64, usize> = from.iter().enumerate().map(|(pos, (&id, _))| (id, pos)).collect();
+    let mut kept : BTreeSet<u64> = BTreeSet::new();
+    let mut next_pos = 0;
+    for (&id, _) in to {
+        if let Some(&pos) = from_pos.get(&id) {
+            if next_pos <= pos {
+                kept.insert(id);
+                next_pos = pos + 1;
+            }
+        }
+    }
+
     let mut result : Vec<(u64, ListItemDiffEnumW)> = Vec::new();
     for (&id, from_item) in from {
-        if let Some(to_item) = to.get_item(id) {
+        if let Some(to_item) = to.get_item(id).filter(|_| kept.contains(&id)) {
             if let Some(diff) = compare_items(from_item, to_item, to_def, meta) {
                 result.push((id, ListItemDiffEnumW::Modify(diff)));
             }
@@ -19,7 +33,7 @@ pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b Lin
 
     let mut prev_id : Option<u64> = None;
     for (&id, to_item) in to{
-        if from.contains_key(id) == false{
+        if kept.contains(&id) == false{
             result.push((id, ListItemDiffEnumW::Create(
                 BS{ prev_id, diff : new_item(to_item, to_def, meta) })));
         }
-- 
2.43.0


From 7ed439f83797cea4b0c37466f166a73f193f35a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:56 +0000
Subject: [PATCH 07/35] fix: save that references of an item were cleared

set_enum clears the references of the item before it sets the new one. The
cleared ones were not in the difference, so the loaded item still had them
and get_enum returned the old value.
---
 dochy_diff/src/imp/prepare/get_mlist_diff.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dochy_diff/src/imp/prepare/get_mlist_diff.rs b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
index 5b67fd3..c47e457 100644
--- a/dochy_diff/src/imp/prepare/get_mlist_diff.rs
+++ b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
@@ -11,9 +11,11 @@ pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b Lin
     let from_pos : BTreeMap<u64, usize> = from.iter().enumerate().map(|(pos, (&id, _))| (id, pos)).collect();
     let mut kept : BTreeSet<u64> = BTreeSet::new();
     let mut next_pos = 0;
-    for (&id, _) in to {
-        if let Some(&pos) = from_pos.get(&id) {
-            if next_pos <= pos {
+    for (&id, to_item) in to {
+        if let (Some(&pos), Some(from_item)) = (from_pos.get(&id), from.get_item(id)) {
+            //refが消えたことを表すものもないので同様
+            let has_lost_ref = from_item.refs().keys().any(|key| to_item.refs().contains_key(key) == false);
+            if has_lost_ref == false && next_pos <= pos {
                 kept.insert(id);
                 next_pos = pos + 1;
             }
-- 
2.43.0


From b21f203d02b00c3caa649c94562ddb0afe7baa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:30 +0000
Subject: [PATCH 08/35] fix: read tags in the names of history files

The last character of the tag was cut off, so no file with a tag was listed
or loaded. An empty tag and a tag that ends with a multibyte character
panicked, and a tag that contains '#' could not be read.
---
 .../src/imp/history/file_name/analyze_file_name.rs     | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
index ccab0a8..3e1decd 100644
--- a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
+++ b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
@@ -97,12 +97,10 @@ fn get_tag(s : &str) -> Option<&str>{
     if first != '#' as u8{
         return None;
     }
-    for (i,c) in bytes.iter().skip(1).enumerate(){
-        if *c == '#' as u8{
-            return Some(&s[1..i])
-        }
-    }
-    return None;
+    //tagにも#が含まれうるが、tagの後に#は現れないので、最後の#までがtagである
+    let last = s.rfind('#')?;
+    if last == 0{ return None; }
+    return Some(&s[1..last]);
 }
 
 fn get_prev_ctl(s : &str) -> Option<&str>{
-- 
2.43.0


From a1d31e26628130a9fbbebce2e0ad61d131c31899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:30 +0000
Subject: [PATCH 09/35] fix: allow limit_nth to exceed the number of ancestors

The save panicked with a subtraction overflow.
---
 dochy_fs/src/imp/history/algo/phase_data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/algo/phase_data.rs b/dochy_fs/src/imp/history/algo/phase_data.rs
index cf74d7c..bac2745 100644
--- a/dochy_fs/src/imp/history/algo/phase_data.rs
+++ b/dochy_fs/src/imp/history/algo/phase_data.rs
@@ -77,7 +77,7 @@ impl PhaseData{
 
         sizes.sort_by_key(|a| *a);
 
-        sizes.get(sizes.len() - nth).map(|a| *a)
+        sizes.get(sizes.len().checked_sub(nth)?).map(|a| *a)
     }
 }
 
-- 
2.43.0


From 734c72e8b9dc9c77b67501b47e8169974c74ebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:30 +0000
Subject: [PATCH 10/35] fix: ignore 32-letter directories that are not hashes

folder_name_to_hash panicked with a subtraction overflow on letters below
'0' and between '9' and 'a'.
---
 dochy_fs/src/imp/common/path/hash.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_fs/src/imp/common/path/hash.rs b/dochy_fs/src/imp/common/path/hash.rs
index f7a44b7..6f5635e 100644
--- a/dochy_fs/src/imp/common/path/hash.rs
+++ b/dochy_fs/src/imp/common/path/hash.rs
@@ -17,11 +17,11 @@ fn hex_to_u64(s : &[u8]) -> Option<u64>{
     loop{
         r <<= 4;
         let b = s[index];
-        let num = b - '0' as u8;
+        let num = b.wrapping_sub('0' as u8);
         if num <= 9 {
             r += num as u64;
         } else{
-            let num = b - 'a' as u8;
+            let num = b.wrapping_sub('a' as u8);
             if num <= 5{
                 r += 10 + num as u64;
             } else{
-- 
2.43.0


From 8f2e6927585c3eeaab79891cbf73219ca0203719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:30 +0000
Subject: [PATCH 11/35] fix: keep the parent when the next file of the last
 phase is named

Without the cumulative option the new file depends on the parent of the
previous file, which has another control number if that file was derived.
The new file could not be loaded.
---
 dochy_fs/src/imp/history/file_hist/ancestors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/file_hist/ancestors.rs b/dochy_fs/src/imp/history/file_hist/ancestors.rs
index 6bff18c..6336d49 100644
--- a/dochy_fs/src/imp/history/file_hist/ancestors.rs
+++ b/dochy_fs/src/imp/history/file_hist/ancestors.rs
@@ -71,7 +71,7 @@ pub(crate) fn create_dependencies<'a,'b>(ancestors : &'b[&'a FileNameProps],
         prev_ctl = last_prop.control();
     } else if next_phase == max_phase{
         *order.last_mut().unwrap() += 1;
-        prev_ctl = last_prop.control();
+        prev_ctl = if cumulative{ last_prop.control() } else{ last_prop.prev_ctl() };
     } else {
         order = order[0..next_phase+1].to_vec();
         *order.last_mut().unwrap() += 1;
-- 
2.43.0


From 28aa4d8db31f3e45f05ab5d4d91719a3851b6445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:30 +0000
Subject: [PATCH 12/35] fix: keep the parents of the files to be kept

An item that has children was taken for a cumulative one if its children
are in the last phase. The preceding sibling was kept instead of its parent,
and the kept files could not be loaded.
---
 dochy_fs/src/imp/history/remove/history_remover_item.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/remove/history_remover_item.rs b/dochy_fs/src/imp/history/remove/history_remover_item.rs
index 6362c88..53a4c3a 100644
--- a/dochy_fs/src/imp/history/remove/history_remover_item.rs
+++ b/dochy_fs/src/imp/history/remove/history_remover_item.rs
@@ -81,7 +81,8 @@ impl<'a> HistoryRemoverItem<'a>{
                        cur_phase : usize, max_phase : usize, cumulative_option : bool) -> HistoryRemoverItem<'a>{
 
         let r = composite_remover(src.items(), src.children(), cur_phase, max_phase, cumulative_option);
-        let cumulative = cur_phase == max_phase && cumulative_option;
+        //cur_phaseは子のphaseなので、自分自身のphaseはcur_phase - 1
+        let cumulative = cur_phase == max_phase + 1 && cumulative_option;
         HistoryRemoverItem::new(cumulative, props,  r)
     }
 }
-- 
2.43.0


From f96b221d5a5478267b4bd59ec6c0e23d76b1ed56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:30 +0000
Subject: [PATCH 13/35] fix: look for the newest file in older hash directories
 too

If the newest hash directory has no file yet, get_newest_file_data returned
None although there are files.
---
 dochy_fs/src/imp/history/file_hist/file_histories.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/file_hist/file_histories.rs b/dochy_fs/src/imp/history/file_hist/file_histories.rs
index 3982a82..7bd60ec 100644
--- a/dochy_fs/src/imp/history/file_hist/file_histories.rs
+++ b/dochy_fs/src/imp/history/file_hist/file_histories.rs
@@ -26,7 +26,7 @@ impl FileHistories{
 
     /// gets the newest HisotryFileData
     pub fn get_newest_file_data(&self) -> Option<HistoryFileData>{
-        self.vec.last().and_then(|(hash, his)|
+        self.vec.iter().rev().find_map(|(hash, his)|
                                      his.get_newest_prop().map(|prop|
                                      HistoryFileData::new(*hash, his, prop)))
     }
-- 
2.43.0


From 9a4746dcfaad1024602a1caaa9d8620fb6dd2650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:30 +0000
Subject: [PATCH 14/35] fix: load history files of older sources

load_history_file_data looked for the file in the directory of the current
source, so a file saved under an older one was not found, or another file
with the same name was loaded.
---
 .../src/imp/history/pub_fn/load_history_file.rs    | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dochy_fs/src/imp/history/pub_fn/load_history_file.rs b/dochy_fs/src/imp/history/pub_fn/load_history_file.rs
index 5bbc963..83946cb 100644
--- a/dochy_fs/src/imp/history/pub_fn/load_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/load_history_file.rs
@@ -17,16 +17,24 @@ pub fn load_history_file(history_info : &HistoryInfo,
                          props : &FileNameProps,
                          history : &FileHistory,
                          validation : bool) -> FsResult<RootObject> {
+    load_with_hash(history_info, history_info.hash(), props, history, validation)
+}
+
+fn load_with_hash(history_info : &HistoryInfo,
+                  hash : u128,
+                  props : &FileNameProps,
+                  history : &FileHistory,
+                  validation : bool) -> FsResult<RootObject> {
 
     let mut guard = get_mutex(history_info.history_dir()).unwrap();
     let c = guard.peekable();
-    let hash = c.hash();
     let op = c.history_options().clone();
     let (cache,h) = guard.muts();
     match load_impl(history_info.history_dir(), hash,
                     props, history, cache, &op, validation){
         Ok(root) =>{
-            *h = Some(CurrentRootObjInfo::new(root.id(), props.clone()));
+            //旧バージョンのファイルからは派生できない
+            *h = if cache.hash() == hash{ Some(CurrentRootObjInfo::new(root.id(), props.clone())) } else{ None };
             Ok(root)
         },
         Err(e) => Err(e),
@@ -59,5 +67,5 @@ fn load_impl<P : AsRef<Path>>(history_dir : P,
 pub fn load_history_file_data(history_info : &HistoryInfo,
                               data : &HistoryFileData,
                               validation : bool) -> FsResult<RootObject> {
-    load_history_file(history_info, data.props(), data.history(), validation)
+    load_with_hash(history_info, data.hash(), data.props(), data.history(), validation)
 }
\ No newline at end of file
-- 
2.43.0


From 683f3600702850a089a91ef2eb3981c83830f39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:54 +0000
Subject: [PATCH 15/35] fix: report errors of multi-threaded loading

A file that could not be read or decoded made a thread of the pool panic,
which stops the whole process.
---
 dochy_fs/src/imp/common/apply_items.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dochy_fs/src/imp/common/apply_items.rs b/dochy_fs/src/imp/common/apply_items.rs
index fa0043b..05e2786 100644
--- a/dochy_fs/src/imp/common/apply_items.rs
+++ b/dochy_fs/src/imp/common/apply_items.rs
@@ -25,26 +25,31 @@ pub(crate) fn apply_items_mt<F : FnMut(&RootObject)>(mut root : RootObject,
                                                      mut func : F) -> FsResult<RootObject> {
 
 
-    let (sender, receiver): (Sender<(usize,RootDiffR)>, Receiver<(usize,RootDiffR)>) = std::sync::mpsc::channel();
+    let (sender, receiver): (Sender<FsResult<(usize,RootDiffR)>>, Receiver<FsResult<(usize,RootDiffR)>>) = std::sync::mpsc::channel();
     let meta_table_arc = root.meta_table_arc();
     let paths_len = paths.len();
 
     std::thread::spawn(move ||{
         for (i,path) in paths.iter().enumerate() {
-            let mut file = open_diff_file_without_metadata(path).unwrap();
-            let v = DochyDiff::read_value(&mut file).unwrap();
+            let v = match open_diff_file_without_metadata(path).and_then(|mut file| DochyDiff::read_value(&mut file)){
+                Ok(v) => v,
+                Err(e) =>{
+                    sender.send(Err(e)).ok();
+                    return;
+                }
+            };
             let sender = sender.clone();
             let meta_table_arc = meta_table_arc.clone();
             rayon::spawn_fifo(move ||{
-                let va = v.prepare(meta_table_arc.as_ref()).unwrap();
-                sender.send((i, va)).unwrap();
+                //失敗した場合受信側は既に終了しているかもしれない
+                sender.send(v.prepare(meta_table_arc.as_ref()).map(|va| (i, va))).ok();
             });
         }
     });
     let mut map : HashMap<usize, RootDiffR> = HashMap::new();
     let mut current_index = 0;
     for t_i in 0..paths_len {
-        let (i,va) = receiver.recv().or(Err(format!("preparing recv {} failed", t_i)))?;
+        let (i,va) = receiver.recv().or(Err(format!("preparing recv {} failed", t_i)))??;
         map.insert(i, va);
         apply_several_items(&mut root, &mut current_index, &mut map, &mut func)?;
     }
-- 
2.43.0


From b5acf542e172354cfadc7af83609dc68f923b858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:54 +0000
Subject: [PATCH 16/35] fix: save documents whose own file was removed

After remove_old_files had removed the file a document was saved in or
loaded from, every further save of the document failed.
---
 dochy_fs/src/imp/history/pub_fn/save_history_file.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
index 32dabea..d02878d 100644
--- a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
@@ -94,7 +94,10 @@ fn save_history_file_impl(history_info: &HistoryInfo,
     if let Some(info) = current_root_obj {
         if root_id.ptr_eq(info.current_root_id()) {
             let history = create_file_history(&history_hash_dir, opt.max_phase(), opt.is_cumulative())?;
-            if let Some(newest) = history.get_newest_prop() {
+            let base_file = info.current_base_file();
+            //古いファイルの削除により、派生元がなくなっている場合がある
+            let exists = history.get_props(base_file.control(), base_file.order()) == Some(base_file);
+            if let Some(newest) = history.get_newest_prop().filter(|_| exists) {
                 let from = if info.current_base_file().phase() == opt.max_phase() && info.current_base_file() != newest {
                     //最新ファイルからの派生でない場合、キャッシュに乗っていない可能性がより高いし、最終フェーズの計算が面倒でもあるので、親から派生する
                     history.get_parent(info.current_base_file()).ok_or("no parents found")?
-- 
2.43.0


From bfa959370db40b9e068fb5ae182af3df0cc4e40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:54 +0000
Subject: [PATCH 17/35] fix: save old files again if max_phase is 0

A document loaded from another file than the newest one is derived from the
parent of its file. There are no parents if max_phase is 0, and the save
failed.
---
 .../src/imp/history/pub_fn/save_history_file.rs     | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
index d02878d..801df49 100644
--- a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
@@ -100,15 +100,18 @@ fn save_history_file_impl(history_info: &HistoryInfo,
             if let Some(newest) = history.get_newest_prop().filter(|_| exists) {
                 let from = if info.current_base_file().phase() == opt.max_phase() && info.current_base_file() != newest {
                     //最新ファイルからの派生でない場合、キャッシュに乗っていない可能性がより高いし、最終フェーズの計算が面倒でもあるので、親から派生する
-                    history.get_parent(info.current_base_file()).ok_or("no parents found")?
+                    history.get_parent(info.current_base_file())
                 } else {
-                    info.current_base_file()
+                    Some(info.current_base_file())
                 };
 
-                let saved = derive_impl(tag, root, cache, &history_hash_dir, &history, from, opt)?;
-                *h = Some(CurrentRootObjInfo::new(root_id, saved.clone()));
+                //max_phaseが0の場合、親はない
+                if let Some(from) = from {
+                    let saved = derive_impl(tag, root, cache, &history_hash_dir, &history, from, opt)?;
+                    *h = Some(CurrentRootObjInfo::new(root_id, saved.clone()));
 
-                return Ok(saved);
+                    return Ok(saved);
+                }
             }
         }
     }
-- 
2.43.0


From a4cda794976649cc8f19c47ae1e7541ba9c163ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:14 +0000
Subject: [PATCH 18/35] fix: adjust inner lists with their own definition

The items of a list in a list were adjusted to the members of the outer
list, so they lost their values when the source was changed.
---
 .../src/imp/version_adjuster/adjust_mut_list_item_sabun.rs   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
index 94b8d4e..6fd614e 100644
--- a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
+++ b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
@@ -50,7 +50,10 @@ pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_sabun : &mut Has
             ListSabValue::Mil(op) =>{
                 match op{
                     Some(im) =>{
-                        let new = adjust_mut_list(def, im, &names.append(def_key))?;
+                        let mil_def = if let ListDefValue::MilDef(d) = def_v{ d.default() } else{
+                            Err(format!("{} {} is not a mut list", names, def_key))?
+                        };
+                        let new = adjust_mut_list(mil_def, im, &names.append(def_key))?;
                         result.insert(def_key.to_string(), ListSabValue::Mil(Some(new)));
                     },
                     None =>{
-- 
2.43.0


From 3931c511ca5810e4b6bcbe96612d2205fba203da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:14 +0000
Subject: [PATCH 19/35] fix: never leave half-written Dochy files

If saving was interrupted or the disk was full, the file had only a part of
the contents, and the old contents were lost if it was overwritten. The file
is now written under a reserved name and renamed.
---
 dochy_fs/src/imp/common/path/mod.rs           |  1 +
 .../src/imp/common/path/reserved_filename.rs  |  5 ++++-
 .../src/imp/common/path/write_and_rename.rs   | 20 +++++++++++++++++++
 dochy_fs/src/imp/filesys/save_dochy_file.rs   |  9 ++++++---
 4 files changed, 31 insertions(+), 4 deletions(-)
 create mode 100644 dochy_fs/src/imp/common/path/write_and_rename.rs

diff --git a/dochy_fs/src/imp/common/path/mod.rs b/dochy_fs/src/imp/common/path/mod.rs
index ffd26cb..0fb47f2 100644
--- a/dochy_fs/src/imp/common/path/mod.rs
+++ b/dochy_fs/src/imp/common/path/mod.rs
@@ -5,4 +5,5 @@ pub mod get_hash_times;
 pub mod reserved_filename;
 pub mod prepare_hash_dir;
 pub mod remove_hash_dir;
+pub mod write_and_rename;
 
diff --git a/dochy_fs/src/imp/common/path/reserved_filename.rs b/dochy_fs/src/imp/common/path/reserved_filename.rs
index d36492d..34ba9ff 100644
--- a/dochy_fs/src/imp/common/path/reserved_filename.rs
+++ b/dochy_fs/src/imp/common/path/reserved_filename.rs
@@ -6,6 +6,9 @@ pub const ARCHIVE_DEFAULT_NAME : &'static str = "src.archive";
 /// the file name of the files which contains "created time"
 pub const CREATED_TIME_FILE_NAME : &'static str = "created_time.dat";
 
+/// the file name used while a file is being written
+pub const TEMP_FILE_NAME : &'static str = "writing.tmp";
+
 pub(crate) fn is_reserved_filename(filename : &str) -> bool{
-    filename == ARCHIVE_DEFAULT_NAME || filename == CREATED_TIME_FILE_NAME
+    filename == ARCHIVE_DEFAULT_NAME || filename == CREATED_TIME_FILE_NAME || filename == TEMP_FILE_NAME
 }
\ No newline at end of file
diff --git a/dochy_fs/src/imp/common/path/write_and_rename.rs b/dochy_fs/src/imp/common/path/write_and_rename.rs
new file mode 100644
index 0000000..e2ace3e
--- /dev/null
+++ b/dochy_fs/src/imp/common/path/write_and_rename.rs
@@ -0,0 +1,20 @@
+use std::path::Path;
+use std::fs::File;
+use crate::error::FsResult;
+
+/// 書き込みの途中で失敗したり終了したりしても中途半端なファイルが残らないよう、temp_pathに書いてからrenameする
+pub(crate) fn write_and_rename<F : FnOnce(&mut File) -> FsResult<()>>(temp_path : &Path, path : &Path, write : F) -> FsResult<()>{
+    let result = write_temp(temp_path, path, write);
+    if result.is_err(){
+        std::fs::remove_file(temp_path).ok();
+    }
+    result
+}
+
+fn write_temp<F : FnOnce(&mut File) -> FsResult<()>>(temp_path : &Path, path : &Path, write : F) -> FsResult<()>{
+    let mut file = File::create(temp_path)?;
+    write(&mut file)?;
+    drop(file);
+    std::fs::rename(temp_path, path)?;
+    Ok(())
+}
diff --git a/dochy_fs/src/imp/filesys/save_dochy_file.rs b/dochy_fs/src/imp/filesys/save_dochy_file.rs
index 8ebcb68..c53120d 100644
--- a/dochy_fs/src/imp/filesys/save_dochy_file.rs
+++ b/dochy_fs/src/imp/filesys/save_dochy_file.rs
@@ -1,11 +1,12 @@
 use std::path::{PathBuf};
-use std::fs::File;
 use crate::error::FsResult;
 use std::io::Write;
 use dochy_core::structs::RootObject;
 use crate::imp::filesys::save_dir_info::SaveDirInfo;
 use crate::imp::filesys::save_cache_map::{get_mutex};
 use crate::imp::common::path::prepare_hash_dir::prepare_hash_dir;
+use crate::imp::common::path::reserved_filename::TEMP_FILE_NAME;
+use crate::imp::common::path::write_and_rename::write_and_rename;
 
 
 /// saves a Dochy file.
@@ -24,8 +25,10 @@ pub fn save_dochy_file(info : &SaveDirInfo,
         Err("file already exists")?
     }
     let diff = dochy_diff::get_diff(&src_root, &root)?;
-    let mut file = File::create(&file_path)?;
-    file.write_all(&diff)?;
+    write_and_rename(&hash_dir.join(TEMP_FILE_NAME), &file_path, |file|{
+        file.write_all(&diff)?;
+        Ok(())
+    })?;
     Ok(file_path)
 }
 
-- 
2.43.0


From 15a3ecf93c0436f33e2b758fc9e23354e889661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:14 +0000
Subject: [PATCH 20/35] fix: never leave half-written history files

If saving was interrupted or the disk was full, a file with only a part of
the contents was listed, and later files were derived from it.
---
 dochy_fs/src/imp/history/fs/write_phase_file.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dochy_fs/src/imp/history/fs/write_phase_file.rs b/dochy_fs/src/imp/history/fs/write_phase_file.rs
index 20569bc..69bee7c 100644
--- a/dochy_fs/src/imp/history/fs/write_phase_file.rs
+++ b/dochy_fs/src/imp/history/fs/write_phase_file.rs
@@ -2,12 +2,14 @@ use std::path::Path;
 use crate::error::FsResult;
 use crate::imp::history::algo::phase_data::PhaseData;
 use std::io::Write;
+use crate::imp::common::path::write_and_rename::write_and_rename;
 
 pub(crate) fn write_phase_file(data : &PhaseData, file_path : &Path, vec : &[u8]) -> FsResult<()>{
     let data_encoded = data.encode();
-    let mut file = std::fs::File::create(file_path)?;
-    dochy_compaction::enc_dec::encode::encode(&data_encoded, &mut file)?;
-    //let mut vec = vec;
-    file.write_all(vec)?;
-    Ok(())
+    write_and_rename(&file_path.with_extension("tmp"), file_path, |file|{
+        dochy_compaction::enc_dec::encode::encode(&data_encoded, file)?;
+        //let mut vec = vec;
+        file.write_all(vec)?;
+        Ok(())
+    })
 }
\ No newline at end of file
-- 
2.43.0


From 3f1bdac9aa24ffdbdd2910dc69de045c262eb8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:14 +0000
Subject: [PATCH 21/35] fix: never leave half-written source archives

An archive that was cut off by an interrupted first save was never written
again, so nothing saved with it could be loaded after the source had changed.
---
 dochy_fs/src/imp/common/path/prepare_hash_dir.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dochy_fs/src/imp/common/path/prepare_hash_dir.rs b/dochy_fs/src/imp/common/path/prepare_hash_dir.rs
index 6f94f7e..4d8b263 100644
--- a/dochy_fs/src/imp/common/path/prepare_hash_dir.rs
+++ b/dochy_fs/src/imp/common/path/prepare_hash_dir.rs
@@ -4,7 +4,8 @@ use crate::error::FsResult;
 use crate::imp::common::path::hash_dir_path::hash_dir_path;
 use std::fs::File;
 use crate::imp::common::path::reserved_filename::ARCHIVE_DEFAULT_NAME;
-use crate::common::reserved_filename::CREATED_TIME_FILE_NAME;
+use crate::common::reserved_filename::{CREATED_TIME_FILE_NAME, TEMP_FILE_NAME};
+use crate::imp::common::path::write_and_rename::write_and_rename;
 use crate::imp::common::path::created_time_file::create_time_dat;
 use std::time::SystemTime;
 
@@ -12,8 +13,7 @@ pub(crate) fn prepare_hash_dir(proj_dir: &Path, src : &CurrentSrc, hash : u128)
     let hash_dir = get_or_make_hash_dir_path(proj_dir, hash)?;
     let archive_path = hash_dir.join(ARCHIVE_DEFAULT_NAME);
     if archive_path.exists() == false{
-        let mut file = File::create(&archive_path)?;
-        src.create_archive(&mut file)?;
+        write_and_rename(&hash_dir.join(TEMP_FILE_NAME), &archive_path, |file| src.create_archive(file))?;
     }
     Ok(hash_dir)
 }
-- 
2.43.0


From c4cab0adf7de34076f3f59837245a82fd222079f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:14 +0000
Subject: [PATCH 22/35] fix: refuse to archive another source than the one in
 use

The source is read when the directory is opened, and again when the first
file is saved. If it was edited in between, the archive did not match the
saved files and they could not be loaded.
---
 dochy_fs/src/imp/common/path/prepare_hash_dir.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/common/path/prepare_hash_dir.rs b/dochy_fs/src/imp/common/path/prepare_hash_dir.rs
index 4d8b263..0eb6eb0 100644
--- a/dochy_fs/src/imp/common/path/prepare_hash_dir.rs
+++ b/dochy_fs/src/imp/common/path/prepare_hash_dir.rs
@@ -8,12 +8,22 @@ use crate::common::reserved_filename::{CREATED_TIME_FILE_NAME, TEMP_FILE_NAME};
 use crate::imp::common::path::write_and_rename::write_and_rename;
 use crate::imp::common::path::created_time_file::create_time_dat;
 use std::time::SystemTime;
+use dochy_core::archive_file_to_root_with_hash;
 
 pub(crate) fn prepare_hash_dir(proj_dir: &Path, src : &CurrentSrc, hash : u128) -> FsResult<PathBuf>{
     let hash_dir = get_or_make_hash_dir_path(proj_dir, hash)?;
     let archive_path = hash_dir.join(ARCHIVE_DEFAULT_NAME);
     if archive_path.exists() == false{
-        write_and_rename(&hash_dir.join(TEMP_FILE_NAME), &archive_path, |file| src.create_archive(file))?;
+        let temp_path = hash_dir.join(TEMP_FILE_NAME);
+        write_and_rename(&temp_path, &archive_path, |file|{
+            src.create_archive(file)?;
+            //起動後にソースが書き換えられていたら、hashと中身が一致しない
+            let (_, archived) = archive_file_to_root_with_hash(&temp_path, false)?;
+            if archived != hash{
+                Err(format!("The source was modified while running {:?}", src))?
+            }
+            Ok(())
+        })?;
     }
     Ok(hash_dir)
 }
-- 
2.43.0


From a7fee7a6d722fc4c7d3a2451c12799c46c27b59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:14 +0000
Subject: [PATCH 23/35] fix: refuse to save under the names of system files

Saving as src.archive replaced the source archive, and no file in the
directory could be loaded after the source had changed.
---
 dochy_fs/src/imp/filesys/save_dochy_file.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/filesys/save_dochy_file.rs b/dochy_fs/src/imp/filesys/save_dochy_file.rs
index c53120d..d501a6d 100644
--- a/dochy_fs/src/imp/filesys/save_dochy_file.rs
+++ b/dochy_fs/src/imp/filesys/save_dochy_file.rs
@@ -5,7 +5,7 @@ use dochy_core::structs::RootObject;
 use crate::imp::filesys::save_dir_info::SaveDirInfo;
 use crate::imp::filesys::save_cache_map::{get_mutex};
 use crate::imp::common::path::prepare_hash_dir::prepare_hash_dir;
-use crate::imp::common::path::reserved_filename::TEMP_FILE_NAME;
+use crate::imp::common::path::reserved_filename::{is_reserved_filename, TEMP_FILE_NAME};
 use crate::imp::common::path::write_and_rename::write_and_rename;
 
 
@@ -14,6 +14,9 @@ pub fn save_dochy_file(info : &SaveDirInfo,
                        file_name : &str,
                        root: &RootObject,
                        overwrite : bool) -> FsResult<PathBuf>{
+    if is_reserved_filename(file_name){
+        Err(format!("{} couldn't be saved. {} is a system file.", file_name, file_name))?
+    }
     let mutex = get_mutex(info.save_dir()).unwrap();
     let info = mutex.cache();
     let save_dir = info.save_dir();
-- 
2.43.0


From e75ab710700a5c48bcb2c17f14c9247715d81a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:18 +0000
Subject: [PATCH 24/35] fix: save a state that is older than the last saved one

If a non-blocking save is overtaken by another save of the same document, it
is derived from a newer state. Variables which had no value of their own yet
were not in the difference, and the loaded document had the newer values.
---
 dochy_diff/src/imp/prepare/get_mlist_diff.rs |  5 +++--
 dochy_diff/src/imp/prepare/get_root_diff.rs  | 10 +++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/dochy_diff/src/imp/prepare/get_mlist_diff.rs b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
index c47e457..bdd0228 100644
--- a/dochy_diff/src/imp/prepare/get_mlist_diff.rs
+++ b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
@@ -13,9 +13,10 @@ pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b Lin
     let mut next_pos = 0;
     for (&id, to_item) in to {
         if let (Some(&pos), Some(from_item)) = (from_pos.get(&id), from.get_item(id)) {
-            //refが消えたことを表すものもないので同様
+            //refやメンバが消えたことを表すものもないので同様
             let has_lost_ref = from_item.refs().keys().any(|key| to_item.refs().contains_key(key) == false);
-            if has_lost_ref == false && next_pos <= pos {
+            let has_lost_value = from_item.values().keys().any(|key| to_item.values().contains_key(key) == false);
+            if has_lost_ref == false && has_lost_value == false && next_pos <= pos {
                 kept.insert(id);
                 next_pos = pos + 1;
             }
diff --git a/dochy_diff/src/imp/prepare/get_root_diff.rs b/dochy_diff/src/imp/prepare/get_root_diff.rs
index 2e1aed6..66525cb 100644
--- a/dochy_diff/src/imp/prepare/get_root_diff.rs
+++ b/dochy_diff/src/imp/prepare/get_root_diff.rs
@@ -19,7 +19,15 @@ pub(crate) fn get_root_diff<'a, 'b>(from : &'a RootObject, to : &'b RootObject)
 
     //デフォルト値に書き換えられた場合もsabunからremoveしたりはしないので、
     //書き換えられたことがあるものは必ずsabunにメンバがある。
-    //なので変化の可能性があるものは全部toを調べればわかる
+    //なので変化の可能性があるものはtoを調べればわかる
+    //ただし、保存の順序が前後してfromの方が新しい場合、fromにだけあるものはデフォルト値に戻す必要がある
+    for (key, _) in f {
+        if t.contains_key(key) == false {
+            if let Some((id, RootValue::Param(p, _))) = def.get(key) {
+                params.insert(*id, p);
+            }
+        }
+    }
     for (key,to_val) in t {
         match to_val {
             RootSabValue::Param(p) => {
-- 
2.43.0


From 0570ec439845af61136a16db2efe98c53ae4f300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:09 +0000
Subject: [PATCH 25/35] fix: count saves waiting in the queue

A save accepted by save_history_file_nb was not counted until its thread had
taken the lock, so save_history_file_nb_if_vacant accepted another one.
---
 .../history/current_root_obj_info/mutex_g.rs   | 18 +++++++++++++++++-
 .../imp/history/pub_fn/save_history_file.rs    |  3 +++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/current_root_obj_info/mutex_g.rs b/dochy_fs/src/imp/history/current_root_obj_info/mutex_g.rs
index 66f25c7..eca6d5e 100644
--- a/dochy_fs/src/imp/history/current_root_obj_info/mutex_g.rs
+++ b/dochy_fs/src/imp/history/current_root_obj_info/mutex_g.rs
@@ -34,4 +34,20 @@ impl<'a> DerefMut for MutexG<'a> {
     fn deref_mut(&mut self) -> &mut Self::Target {
         DerefMut::deref_mut(&mut self.guard)
     }
-}
\ No newline at end of file
+}
+
+/// 順番待ち中の保存を数える
+pub(crate) struct QueuedG<'a>{
+    peekable: &'a PeekableCacheInfo,
+}
+impl<'a> QueuedG<'a>{
+    pub(crate) fn new(peekable : &PeekableCacheInfo) -> QueuedG{
+        peekable.queued_atomic().fetch_add(1, Ordering::AcqRel);
+        QueuedG{ peekable }
+    }
+}
+impl<'a> Drop for QueuedG<'a>{
+    fn drop(&mut self) {
+        self.peekable.queued_atomic().fetch_sub(1, Ordering::AcqRel);
+    }
+}
diff --git a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
index 801df49..5995fe6 100644
--- a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
@@ -8,6 +8,7 @@ use crate::imp::history::fs::derive_impl::derive_impl;
 use std::sync::Weak;
 use crate::imp::history::history_info::HistoryInfo;
 use crate::imp::history::current_root_obj_info::history_cache_map::get_mutex;
+use crate::imp::history::current_root_obj_info::mutex_g::QueuedG;
 use crate::imp::history::current_root_obj_info::current_root_obj_info::CurrentRootObjInfo;
 use crate::imp::common::path::prepare_hash_dir::prepare_hash_dir;
 
@@ -42,10 +43,12 @@ pub fn save_history_file_nb<
     let id = root.id();
     let clone = root.clone();
     let ft = history_info.fifo_thread();
+    let queued = QueuedG::new(get_peekable_info(history_info));
     let history_info = history_info.clone();
 
     ft.spawn_fifo(move || {
         let result = save_history_file_impl(&history_info, tag, &clone, id);
+        drop(queued);
         match result {
             Ok(r) => {
                 callback(Ok(r));
-- 
2.43.0


From 90659d4468df5b9e53aab1b59915c06e6bc8ba69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:09 +0000
Subject: [PATCH 26/35] fix: keep unmodified members of list items defined

When an old document is adjusted to a new source, members of list items which
exist in both sources became undefined if they had not been modified. Members
of the root are undefined only if the old source does not have them.
---
 .../src/imp/version_adjuster/adjust_mut_list.rs       | 10 +++++-----
 .../imp/version_adjuster/adjust_mut_list_item_ref.rs  |  4 ++--
 .../version_adjuster/adjust_mut_list_item_sabun.rs    | 11 +++++++----
 .../src/imp/version_adjuster/version_adjuster.rs      |  5 ++++-
 4 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/dochy_core/src/imp/version_adjuster/adjust_mut_list.rs b/dochy_core/src/imp/version_adjuster/adjust_mut_list.rs
index d69776c..c8688f0 100644
--- a/dochy_core/src/imp/version_adjuster/adjust_mut_list.rs
+++ b/dochy_core/src/imp/version_adjuster/adjust_mut_list.rs
@@ -8,14 +8,14 @@ use crate::imp::structs::linked_m::LinkedMap;
 use std::sync::Arc;
 
 
-pub(crate) fn adjust_mut(def : &ListDefObj, old_list : &mut LinkedMap<MutItem>, names : &Names) -> CoreResult<LinkedMap<MutItem>>{
+pub(crate) fn adjust_mut(def : &ListDefObj, old_def : &ListDefObj, old_list : &mut LinkedMap<MutItem>, names : &Names) -> CoreResult<LinkedMap<MutItem>>{
     let mut result : Vec<(u64, MutItem)> = Vec::with_capacity(old_list.len());
     let next_id = old_list.next_id();
     for (id, value) in old_list{
         let (sabun, refs) = value.muts();
 
-        let new_sabun = adjust_mut_list_item_sabun(def, sabun, names)?;
-        let new_refs = adjust_mut_list_item_ref(def.refs(), refs, names)?;
+        let new_sabun = adjust_mut_list_item_sabun(def, old_def, sabun, names)?;
+        let new_refs = adjust_mut_list_item_ref(def.refs(), old_def.refs(), refs, names)?;
         result.push((*id, MutItem::new(new_sabun, new_refs)));
     }
     return Ok(LinkedMap::construct(result, next_id));
@@ -29,11 +29,11 @@ pub(crate) fn adjust_mut(def : &ListDefObj, old_list : &mut LinkedMap<MutItem>,
 //     Ok(MutListVal::new(new_list))
 // }
 
-pub(crate) fn adjust_mut_list(def : &ListDefObj, old : MutListVal, names : &Names) -> CoreResult<MutListVal>{
+pub(crate) fn adjust_mut_list(def : &ListDefObj, old_def : &ListDefObj, old : MutListVal, names : &Names) -> CoreResult<MutListVal>{
     let mut old_list = old.deconstruct();
     let old_list = Arc::make_mut(&mut old_list);
 
-    let new_list = adjust_mut(def, old_list, names)?;
+    let new_list = adjust_mut(def, old_def, old_list, names)?;
     //let next_id = new_list.len() as u64;
     Ok(MutListVal::new(new_list))
 }
\ No newline at end of file
diff --git a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_ref.rs b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_ref.rs
index 499f6b2..217627b 100644
--- a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_ref.rs
+++ b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_ref.rs
@@ -6,14 +6,14 @@ use crate::imp::structs::ref_value::RefSabValue;
 use crate::imp::structs::qv::Qv;
 use crate::imp::structs::util::hash_m::{HashM, HashMt};
 
-pub(crate) fn adjust_mut_list_item_ref(def : &RefDefObj, old_ref : &mut HashM<String, RefSabValue>, _names : &Names) -> CoreResult<HashM<String, RefSabValue>>{
+pub(crate) fn adjust_mut_list_item_ref(def : &RefDefObj, old_def : &RefDefObj, old_ref : &mut HashM<String, RefSabValue>, _names : &Names) -> CoreResult<HashM<String, RefSabValue>>{
 
     //事前に大きさが決定できないが、refのusecaseだとundefinedは少なく、default値のままが多いと思うので、sabunのlenを使う
     let mut result : HashM<String, RefSabValue> = HashMt::with_capacity(old_ref.len());
 
     for (def_key,_, def_v) in def.refs(){
         let sabun_v = if let Some(v) = old_ref.remove(def_key){ v } else {
-            if def_v.var_type().undefiable(){
+            if def_v.var_type().undefiable() && old_def.refs().contains_key(def_key) == false{
                 RefSabValue::new(Qv::Undefined)
             } else{
                 continue;
diff --git a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
index 6fd614e..a07cd59 100644
--- a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
+++ b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
@@ -7,7 +7,7 @@ use crate::imp::structs::list_def_obj::ListDefObj;
 use crate::imp::structs::util::hash_m::{HashM, HashMt};
 use crate::imp::structs::list_sab_value::ListSabValue;
 
-pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_sabun : &mut HashM<String, ListSabValue>, names : &Names) -> CoreResult<HashM<String, ListSabValue>>{
+pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_def : &ListDefObj, old_sabun : &mut HashM<String, ListSabValue>, names : &Names) -> CoreResult<HashM<String, ListSabValue>>{
 
 
     //デフォルトから変化しない場合はsabunには加わらないが、sabun.len()だと、
@@ -24,14 +24,14 @@ pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_sabun : &mut Has
         let sabun_v = if let Some(v) = old_sabun.remove(def_key){ v } else {
             match def_v{
                 ListDefValue::Param(p, vt) =>{
-                    if vt.undefiable(){
+                    if vt.undefiable() && old_def.default().contains_key(def_key) == false{
                         ListSabValue::Param(p.to_undefined())
                     } else{
                         continue;
                     }
                 },
                 ListDefValue::MilDef(mut_def) =>{
-                    if mut_def.undefiable(){
+                    if mut_def.undefiable() && old_def.default().contains_key(def_key) == false{
                         ListSabValue::Mil(None)
                     } else{
                         continue;
@@ -53,7 +53,10 @@ pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_sabun : &mut Has
                         let mil_def = if let ListDefValue::MilDef(d) = def_v{ d.default() } else{
                             Err(format!("{} {} is not a mut list", names, def_key))?
                         };
-                        let new = adjust_mut_list(mil_def, im, &names.append(def_key))?;
+                        let old_mil_def = if let Some(ListDefValue::MilDef(d)) = old_def.default().get(def_key){ d.default() } else{
+                            Err(format!("{} {} was not a mut list", names, def_key))?
+                        };
+                        let new = adjust_mut_list(mil_def, old_mil_def, im, &names.append(def_key))?;
                         result.insert(def_key.to_string(), ListSabValue::Mil(Some(new)));
                     },
                     None =>{
diff --git a/dochy_core/src/imp/version_adjuster/version_adjuster.rs b/dochy_core/src/imp/version_adjuster/version_adjuster.rs
index 799ea62..cb99997 100644
--- a/dochy_core/src/imp/version_adjuster/version_adjuster.rs
+++ b/dochy_core/src/imp/version_adjuster/version_adjuster.rs
@@ -61,7 +61,10 @@ pub fn adjust_versions(new : RootObject, old : RootObject, validation : bool) ->
                 if undef == false {
                     if let Some(RootSabValue::Mut(m_val)) = old_sabun.remove(def_key) {
                         if let Some(m_val) = m_val {
-                            let new_m = adjust_mut_list(m.default(), m_val, &Names::new(def_key))?;
+                            let old_m = if let Some(RootValue::MList(m)) = old_def.get(def_key){ m.default() } else{
+                                Err(format!("{} was not a mut list", def_key))?
+                            };
+                            let new_m = adjust_mut_list(m.default(), old_m, m_val, &Names::new(def_key))?;
                             sabun.insert(def_key.to_string(),RootSabValue::Mut(Some(new_m)));
                         } else{
                             sabun.insert(def_key.to_string(),RootSabValue::Mut(None));
-- 
2.43.0


From 024a1d647566f807db5c794f27811678416d1622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:39 +0000
Subject: [PATCH 27/35] fix: do not free a definition still used by loading
 threads

The meta table points into the definition of the root. When multi-threaded
loading failed, the root was dropped while other threads were still reading
the table, which made them panic and the process abort.
---
 dochy_fs/src/imp/common/apply_items.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dochy_fs/src/imp/common/apply_items.rs b/dochy_fs/src/imp/common/apply_items.rs
index 05e2786..498845d 100644
--- a/dochy_fs/src/imp/common/apply_items.rs
+++ b/dochy_fs/src/imp/common/apply_items.rs
@@ -48,11 +48,19 @@ pub(crate) fn apply_items_mt<F : FnMut(&RootObject)>(mut root : RootObject,
     });
     let mut map : HashMap<usize, RootDiffR> = HashMap::new();
     let mut current_index = 0;
-    for t_i in 0..paths_len {
-        let (i,va) = receiver.recv().or(Err(format!("preparing recv {} failed", t_i)))??;
-        map.insert(i, va);
-        apply_several_items(&mut root, &mut current_index, &mut map, &mut func)?;
+    let result = (|| -> FsResult<()> {
+        for t_i in 0..paths_len {
+            let (i, va) = receiver.recv().or(Err(format!("preparing recv {} failed", t_i)))??;
+            map.insert(i, va);
+            apply_several_items(&mut root, &mut current_index, &mut map, &mut func)?;
+        }
+        Ok(())
+    })();
+    if result.is_err(){
+        //meta_tableはrootの定義へのポインタを持っているので、全スレッドが終了するまでrootを破棄できない
+        for _ in receiver{}
     }
+    result?;
     Ok(root)
 }
 
-- 
2.43.0


From e5d8924c7384e2bb9ce5207fe6f8d15bf31fbb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:35 +0000
Subject: [PATCH 28/35] fix: step backwards in MListIterMut::prev

The function advanced the cursor instead of moving it to the previous item.
---
 dochy_core/src/imp/intf/mlist_iter_mut.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/intf/mlist_iter_mut.rs b/dochy_core/src/imp/intf/mlist_iter_mut.rs
index b7c5660..699bde9 100644
--- a/dochy_core/src/imp/intf/mlist_iter_mut.rs
+++ b/dochy_core/src/imp/intf/mlist_iter_mut.rs
@@ -29,7 +29,7 @@ impl<'a, V : From<MItemPtr>> MListIterMut<'a, V>{
             MItemMut::from_phantom(v, self.phantom)))
     }
     pub fn prev(&mut self) -> Option<(u64, MItemMut<'a, V>)> {
-        self.ptr.next_mut().map(|(id, v)| (
+        self.ptr.prev_mut().map(|(id, v)| (
             id,
             MItemMut::from_phantom(v, self.phantom)))
     }
-- 
2.43.0


From 6590fe21a5c8ec08a2f5a70a8eab4ad8fa693684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:35 +0000
Subject: [PATCH 29/35] fix: report the last item in is_last of the list
 iterators

The function told whether the cursor is at the first item.
---
 dochy_core/src/imp/structs/linked_map_iter.rs     | 2 +-
 dochy_core/src/imp/structs/linked_map_iter_mut.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/structs/linked_map_iter.rs b/dochy_core/src/imp/structs/linked_map_iter.rs
index e3f8050..7af002f 100644
--- a/dochy_core/src/imp/structs/linked_map_iter.rs
+++ b/dochy_core/src/imp/structs/linked_map_iter.rs
@@ -39,7 +39,7 @@ impl<'a, V> LinkedMapIter<'a, V>{
         self.iter.is_first()
     }
     pub fn is_last(&self) -> bool {
-        self.iter.is_first()
+        self.iter.is_last()
     }
 }
 impl<'a,V> Iterator for LinkedMapIter<'a, V>{
diff --git a/dochy_core/src/imp/structs/linked_map_iter_mut.rs b/dochy_core/src/imp/structs/linked_map_iter_mut.rs
index 6d9754b..672200d 100644
--- a/dochy_core/src/imp/structs/linked_map_iter_mut.rs
+++ b/dochy_core/src/imp/structs/linked_map_iter_mut.rs
@@ -36,7 +36,7 @@ impl<'a, V> LinkedMapIterMut<'a, V>{
         self.iter.is_first()
     }
     pub fn is_last(&self) -> bool {
-        self.iter.is_first()
+        self.iter.is_last()
     }
 }
 impl<'a,V> Iterator for LinkedMapIterMut<'a, V>{
-- 
2.43.0


From afe844ca85b8860589f2de925b8fce559690f313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:35 +0000
Subject: [PATCH 30/35] fix: take the order of list items into account in
 contents_eq

Two documents whose lists hold the same items in a different order were
reported to have the same contents.
---
 dochy_core/src/imp/structs/util/identity_equal_trait.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/structs/util/identity_equal_trait.rs b/dochy_core/src/imp/structs/util/identity_equal_trait.rs
index faffdd2..75ad95e 100644
--- a/dochy_core/src/imp/structs/util/identity_equal_trait.rs
+++ b/dochy_core/src/imp/structs/util/identity_equal_trait.rs
@@ -59,6 +59,6 @@ impl<T : IdentityEqual> IdentityEqual for LinkedMap<T>{
             return false;
         }
 
-        self.iter().all(move |(key, value)| other.get_item(*key).map_or(false, |v| value.identity_eq(v)))
+        self.iter().zip(other.iter()).all(|((key, value), (k, v))| key == k && value.identity_eq(v))
     }
 }
\ No newline at end of file
-- 
2.43.0


From f29b1067ef32d287a4c2233db68945879c1a1f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:23 +0000
Subject: [PATCH 31/35] fix: save anew when an ancestor of the base version is
 gone

After a removal that failed halfway, the version a document was saved as
can still exist while one of its ancestors does not. Saving that document
failed from then on. It is now saved as a new version, as is done when the
base version itself is gone.
---
 dochy_fs/src/imp/history/pub_fn/save_history_file.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
index 5995fe6..8b517b9 100644
--- a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
@@ -3,6 +3,7 @@ use crate::history::{get_peekable_info};
 use dochy_core::structs::RootObject;
 use crate::imp::history::fs::start_new::start_new as fs_start_new;
 use crate::imp::history::file_name::file_name_props::FileNameProps;
+use crate::imp::history::file_hist::ancestors::create_ancestors;
 use crate::imp::history::file_hist::create_file_history::create_file_history;
 use crate::imp::history::fs::derive_impl::derive_impl;
 use std::sync::Weak;
@@ -99,7 +100,9 @@ fn save_history_file_impl(history_info: &HistoryInfo,
             let history = create_file_history(&history_hash_dir, opt.max_phase(), opt.is_cumulative())?;
             let base_file = info.current_base_file();
             //古いファイルの削除により、派生元がなくなっている場合がある
-            let exists = history.get_props(base_file.control(), base_file.order()) == Some(base_file);
+            //削除が途中で失敗した場合、派生元の祖先だけがなくなっていることもある
+            let exists = history.get_props(base_file.control(), base_file.order()) == Some(base_file) &&
+                create_ancestors(&history, base_file, opt.max_phase(), opt.is_cumulative()).is_ok();
             if let Some(newest) = history.get_newest_prop().filter(|_| exists) {
                 let from = if info.current_base_file().phase() == opt.max_phase() && info.current_base_file() != newest {
                     //最新ファイルからの派生でない場合、キャッシュに乗っていない可能性がより高いし、最終フェーズの計算が面倒でもあるので、親から派生する
-- 
2.43.0


From bbabcc8dfc5168bc8528c5134d81fe203a603919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:16 +0000
Subject: [PATCH 32/35] fix: report a directory that cannot be read when
 listing files

With a directory whose entries cannot be read, the listing of saved files
skipped the same error again and again and never returned.
---
 dochy_fs/src/imp/common/list/list_files.rs          | 10 +++++-----
 dochy_fs/src/imp/common/list/list_files_iterator.rs |  6 +++++-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/dochy_fs/src/imp/common/list/list_files.rs b/dochy_fs/src/imp/common/list/list_files.rs
index 055327d..c98906d 100644
--- a/dochy_fs/src/imp/common/list/list_files.rs
+++ b/dochy_fs/src/imp/common/list/list_files.rs
@@ -12,12 +12,12 @@ pub(crate) fn list_files<P : AsRef<Path>>(proj_dir: P) -> FsResult<Vec<FileData>
     let mut vec : Vec<FileData> = vec![];
 
     for item in iter{
-        if let Ok(data) = item {
-            if is_reserved_filename(data.name()){
-                continue;
-            }
-            vec.push(data);
+        //読めないディレクトリのエラーは繰り返し返ってくるので、無視すると終わらない
+        let data = item?;
+        if is_reserved_filename(data.name()){
+            continue;
         }
+        vec.push(data);
     }
 
     vec.sort_by_key(|a| a.modified());
diff --git a/dochy_fs/src/imp/common/list/list_files_iterator.rs b/dochy_fs/src/imp/common/list/list_files_iterator.rs
index ed76b25..3429e59 100644
--- a/dochy_fs/src/imp/common/list/list_files_iterator.rs
+++ b/dochy_fs/src/imp/common/list/list_files_iterator.rs
@@ -43,7 +43,11 @@ impl InnerIterator {
                 Ok(file_opt) => {
                     if let Some(file) = file_opt {
                         //found
-                        return Some(FileData::from(self.hex, &file));
+                        match FileData::from(self.hex, &file) {
+                            Ok(data) => return Some(Ok(data)),
+                            //the file is gone or can't be examined
+                            Err(_) => continue,
+                        }
                     }
                     //Couldn't find a file. Go to the next directory.
                 },
-- 
2.43.0


From 2c0a26553a888da3b697bf91a3c6cc3ff7f2ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:10 +0000
Subject: [PATCH 33/35] fix: do not overwrite a document file whose existence
 cannot be determined

---
 dochy_fs/src/imp/filesys/save_dochy_file.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dochy_fs/src/imp/filesys/save_dochy_file.rs b/dochy_fs/src/imp/filesys/save_dochy_file.rs
index d501a6d..b43324e 100644
--- a/dochy_fs/src/imp/filesys/save_dochy_file.rs
+++ b/dochy_fs/src/imp/filesys/save_dochy_file.rs
@@ -24,8 +24,13 @@ pub fn save_dochy_file(info : &SaveDirInfo,
     let src_root = info.clone_src_root();
 
     let file_path = hash_dir.join(file_name);
-    if file_path.exists() && overwrite == false {
-        Err("file already exists")?
+    if overwrite == false {
+        match std::fs::metadata(&file_path){
+            Ok(_) => Err("file already exists")?,
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => {},
+            //存在するかどうか分からない場合、上書きしてはならない
+            Err(e) => Err(e)?,
+        }
     }
     let diff = dochy_diff::get_diff(&src_root, &root)?;
     write_and_rename(&hash_dir.join(TEMP_FILE_NAME), &file_path, |file|{
-- 
2.43.0


From a589a13c828ee7851bacdb0dded99d0846e7b3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:01:11 +0000
Subject: [PATCH 34/35] fix: keep the files a kept version needs when max_phase
 is 0 and the phase is cumulative

---
 dochy_fs/src/imp/history/remove/history_remover.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dochy_fs/src/imp/history/remove/history_remover.rs b/dochy_fs/src/imp/history/remove/history_remover.rs
index 919ffe6..2ece72e 100644
--- a/dochy_fs/src/imp/history/remove/history_remover.rs
+++ b/dochy_fs/src/imp/history/remove/history_remover.rs
@@ -70,15 +70,13 @@ impl<'a> HistoryRemoverCtlItem<'a>{
     }
 
     pub(crate) fn get_item_from_cue(&self, cue_order : &[u32], cue_order_last : Option<u32>) -> Option<&'a HistoryRemoverItem>{
-        let mut item = self.items.get(cue_order.get(0)?)?;
+        //max_phaseが0の場合、cue_orderが空でcue_order_lastだけがある
+        let mut order = cue_order.iter().chain(cue_order_last.iter());
+        let mut item = self.items.get(order.next()?)?;
 
-        for ind in &cue_order[1..]{
+        for ind in order{
             item = item.children().get(ind)?;
         }
-
-        if let Some(ind) = cue_order_last{
-            item = item.children().get(&ind)?;
-        }
         Some(item)
     }
 
-- 
2.43.0


From 3f7fd0a56b5273e60b5e230bc99f6070d2ddeb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:06:33 +0000
Subject: [PATCH 35/35] fix: continue a loaded file of a cumulative phase on a
 branch

A document loaded from a file of the last phase that is not the newest one is
derived from the parent of its file. The parent was looked up under the
control number of the file before it in the cumulative phase. On a branch
that is not the number of the parent, so no parent was found and the document
was saved in phase 0 again, even if update_phase_0 is off. Look for the parent
among all the ancestors instead.
---
 dochy_fs/src/imp/history/pub_fn/save_history_file.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
index 8b517b9..2f23816 100644
--- a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
@@ -101,12 +101,13 @@ fn save_history_file_impl(history_info: &HistoryInfo,
             let base_file = info.current_base_file();
             //古いファイルの削除により、派生元がなくなっている場合がある
             //削除が途中で失敗した場合、派生元の祖先だけがなくなっていることもある
-            let exists = history.get_props(base_file.control(), base_file.order()) == Some(base_file) &&
-                create_ancestors(&history, base_file, opt.max_phase(), opt.is_cumulative()).is_ok();
-            if let Some(newest) = history.get_newest_prop().filter(|_| exists) {
+            let exists = history.get_props(base_file.control(), base_file.order()) == Some(base_file);
+            let ancestors = create_ancestors(&history, base_file, opt.max_phase(), opt.is_cumulative()).ok().filter(|_| exists);
+            if let (Some(newest), Some(ancestors)) = (history.get_newest_prop(), ancestors) {
                 let from = if info.current_base_file().phase() == opt.max_phase() && info.current_base_file() != newest {
                     //最新ファイルからの派生でない場合、キャッシュに乗っていない可能性がより高いし、最終フェーズの計算が面倒でもあるので、親から派生する
-                    history.get_parent(info.current_base_file())
+                    //最終フェーズが累積する場合、直接の親も最終フェーズでありうる
+                    ancestors.into_iter().rev().find(|a| a.phase() != opt.max_phase())
                 } else {
                     Some(info.current_base_file())
                 };
-- 
2.43.0

