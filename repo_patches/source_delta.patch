From b8c89d951b8ebf4924f12e6be97a9194a4e4cafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:47 +0000
Subject: [PATCH 01/57] fix: accept integer literals as IDs of mutable list
 items

An item ID had to be written as a floating point literal, so the ID of a printed
document or a plain 'ID: 3' was refused.
---
 dochy_core/src/imp/json_to_rust/get_id.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dochy_core/src/imp/json_to_rust/get_id.rs b/dochy_core/src/imp/json_to_rust/get_id.rs
index 52cd204..e889ed9 100644
--- a/dochy_core/src/imp/json_to_rust/get_id.rs
+++ b/dochy_core/src/imp/json_to_rust/get_id.rs
@@ -4,6 +4,7 @@ use dochy_json5::{JVal};
 pub(crate) fn get_id(v : &JVal) -> Option<IdValue> {
     match v {
         JVal::String(s, _) => Some(IdValue::Str(s.to_string())),
+        JVal::Int(i, _) if 0 <= *i => Some(IdValue::Num(*i as u64)),
         JVal::Double(d, _) => Some(IdValue::Num(*d as u64)),
         _ => None
     }
-- 
2.43.0


From 4d6bc6ed043027a92394fdad2068755cd66090ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:52 +0000
Subject: [PATCH 02/57] fix: make the mutable list iterators walk backwards

prev() moved forwards and is_last() answered for the first item.
---
 dochy_core/src/imp/intf/mlist_iter_mut.rs         | 2 +-
 dochy_core/src/imp/structs/linked_map_iter_mut.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/intf/mlist_iter_mut.rs b/dochy_core/src/imp/intf/mlist_iter_mut.rs
index b7c5660..699bde9 100644
--- a/dochy_core/src/imp/intf/mlist_iter_mut.rs
+++ b/dochy_core/src/imp/intf/mlist_iter_mut.rs
@@ -29,7 +29,7 @@ impl<'a, V : From<MItemPtr>> MListIterMut<'a, V>{
             MItemMut::from_phantom(v, self.phantom)))
     }
     pub fn prev(&mut self) -> Option<(u64, MItemMut<'a, V>)> {
-        self.ptr.next_mut().map(|(id, v)| (
+        self.ptr.prev_mut().map(|(id, v)| (
             id,
             MItemMut::from_phantom(v, self.phantom)))
     }
diff --git a/dochy_core/src/imp/structs/linked_map_iter_mut.rs b/dochy_core/src/imp/structs/linked_map_iter_mut.rs
index 6d9754b..672200d 100644
--- a/dochy_core/src/imp/structs/linked_map_iter_mut.rs
+++ b/dochy_core/src/imp/structs/linked_map_iter_mut.rs
@@ -36,7 +36,7 @@ impl<'a, V> LinkedMapIterMut<'a, V>{
         self.iter.is_first()
     }
     pub fn is_last(&self) -> bool {
-        self.iter.is_first()
+        self.iter.is_last()
     }
 }
 impl<'a,V> Iterator for LinkedMapIterMut<'a, V>{
-- 
2.43.0


From 064b88a746dc9544755fc44ed7b9ffdc609b327b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:58 +0000
Subject: [PATCH 03/57] fix: keep the next id of an empty list when it is
 copied or constructed

A copied or constructed list without items started again at id 0, so ids of
removed items were given a second time.
---
 dochy_core/src/imp/structs/linked_m.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/structs/linked_m.rs b/dochy_core/src/imp/structs/linked_m.rs
index f8087cd..3212025 100644
--- a/dochy_core/src/imp/structs/linked_m.rs
+++ b/dochy_core/src/imp/structs/linked_m.rs
@@ -81,7 +81,7 @@ impl<V> LinkedMap<V> {
     }
     pub fn construct(items : Vec<(u64,V)>, next_id : u64) -> LinkedMap<V>{
         if items.is_empty(){
-            return LinkedMap::new();
+            return LinkedMap { next_id, ..LinkedMap::new() };
         }
         let mut map : HashM<u64,Box<MutNode<V>>> = HashMt::with_capacity(items.len());
         let mut iter = items.into_iter();
@@ -388,7 +388,7 @@ impl<V> LinkedMap<V> {
 
 impl<V : Clone> Clone for LinkedMap<V>{
     fn clone(&self) -> Self {
-        if self.map.is_empty(){ return LinkedMap::new() }
+        if self.map.is_empty(){ return LinkedMap { next_id : self.next_id, ..LinkedMap::new() } }
         let mut map = self.map.clone();
         let first_node = map.get_mut(&self.first_id().unwrap()).unwrap().as_mut() as *mut _;
         let last_node = map.get_mut(&self.last_id().unwrap()).unwrap().as_mut() as *mut _;
-- 
2.43.0


From e568adf84d1de59c3bce1dc479fb12284739acd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:04 +0000
Subject: [PATCH 04/57] fix: refuse references to rows or tables that do not
 exist

set_ref and set_enum stored any name and any row and reported success; reading such
a reference failed or panicked later, and set_enum dropped the old variant first.
---
 dochy_core/src/imp/intf/mitem.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/intf/mitem.rs b/dochy_core/src/imp/intf/mitem.rs
index 6841811..919ee34 100644
--- a/dochy_core/src/imp/intf/mitem.rs
+++ b/dochy_core/src/imp/intf/mitem.rs
@@ -373,11 +373,27 @@ pub fn get_param_mut<'a>(ps : MItemPtr, name : &str) -> Option<&'a mut RustParam
 }
 
 pub fn set_ref(ps : MItemPtr, list_name : &str, id : Qv<String>) -> bool{
+    let val = RefSabValue::new(id);
+    if is_valid_ref(ps, list_name, &val) == false{ return false; }
     let item = unsafe{ ps.item_mut() };
-    item.refs_mut().insert(list_name.to_string(), RefSabValue::new(id));
+    item.refs_mut().insert(list_name.to_string(), val);
     return true;
 }
 
+/// Checks if the ref is defined, the value is acceptable and the row exists in the table
+fn is_valid_ref(ps : MItemPtr, list_name : &str, val : &RefSabValue) -> bool{
+    let list_def = unsafe{ &*ps.list_def };
+    match list_def.refs().refs().get(list_name){
+        Some(def) => if def.acceptable(val) == false{ return false; },
+        None => return false,
+    }
+    match val.value(){
+        Qv::Val(id) => super::root::get_table(ps.root_def, list_name)
+            .and_then(|table| super::table::get_value(table, id)).is_some(),
+        _ => true,
+    }
+}
+
 pub fn get_ref(ps : MItemPtr, list_name : &str) -> Option<Qv<CItemPtr>>{
     let qv = get_ref_id(ps, list_name)?;
     qv.opt_map(|id|{
@@ -397,9 +413,12 @@ pub fn get_enum(ps : MItemPtr) -> Option<(String, String)>{
 }
 
 pub fn set_enum(ps : MItemPtr, list_name : &str, id : &str) -> bool{
+    let val = RefSabValue::new(Qv::Val(id.to_string()));
+    if is_valid_ref(ps, list_name, &val) == false{ return false; }
     let item = unsafe{ ps.item_mut() };
     item.refs_mut().clear();
-    set_ref(ps, list_name, Qv::Val(id.to_string()))
+    item.refs_mut().insert(list_name.to_string(), val);
+    return true;
 }
 
 /// Sets itinital value(0, empty string, zero-filled vec) to the parameter.
-- 
2.43.0


From d232397496ad0557f74400868ad7e0c6c77c63a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:03 +0000
Subject: [PATCH 05/57] fix: convert inner lists with their own definition

Items of an inner list were converted with the definition of the outer list, so their
values and references were dropped or mixed up with outer members.
---
 .../src/imp/version_adjuster/adjust_mut_list_item_sabun.rs  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
index 94b8d4e..2c790d8 100644
--- a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
+++ b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
@@ -50,7 +50,11 @@ pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_sabun : &mut Has
             ListSabValue::Mil(op) =>{
                 match op{
                     Some(im) =>{
-                        let new = adjust_mut_list(def, im, &names.append(def_key))?;
+                        let inner_def = match def_v{
+                            ListDefValue::MilDef(mut_def) => mut_def.default(),
+                            _ => Err(format!("{} {} is not a Mil", names, def_key))?,
+                        };
+                        let new = adjust_mut_list(inner_def, im, &names.append(def_key))?;
                         result.insert(def_key.to_string(), ListSabValue::Mil(Some(new)));
                     },
                     None =>{
-- 
2.43.0


From 250765d94a994fa439d90f9bf6d8c8e6376ac68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:10 +0000
Subject: [PATCH 06/57] fix: keep unmodified item members that the old source
 already had

Converting a document made every unmodified undefiable member of a list item undefined,
even if the old source had that member, so loading with an unchanged source lost defaults.
---
 .../src/imp/version_adjuster/adjust_mut_list.rs       | 10 +++++-----
 .../imp/version_adjuster/adjust_mut_list_item_ref.rs  |  4 ++--
 .../version_adjuster/adjust_mut_list_item_sabun.rs    | 11 +++++++++--
 .../src/imp/version_adjuster/version_adjuster.rs      |  6 +++++-
 4 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/dochy_core/src/imp/version_adjuster/adjust_mut_list.rs b/dochy_core/src/imp/version_adjuster/adjust_mut_list.rs
index d69776c..4bdacb6 100644
--- a/dochy_core/src/imp/version_adjuster/adjust_mut_list.rs
+++ b/dochy_core/src/imp/version_adjuster/adjust_mut_list.rs
@@ -8,14 +8,14 @@ use crate::imp::structs::linked_m::LinkedMap;
 use std::sync::Arc;
 
 
-pub(crate) fn adjust_mut(def : &ListDefObj, old_list : &mut LinkedMap<MutItem>, names : &Names) -> CoreResult<LinkedMap<MutItem>>{
+pub(crate) fn adjust_mut(def : &ListDefObj, old_def : Option<&ListDefObj>, old_list : &mut LinkedMap<MutItem>, names : &Names) -> CoreResult<LinkedMap<MutItem>>{
     let mut result : Vec<(u64, MutItem)> = Vec::with_capacity(old_list.len());
     let next_id = old_list.next_id();
     for (id, value) in old_list{
         let (sabun, refs) = value.muts();
 
-        let new_sabun = adjust_mut_list_item_sabun(def, sabun, names)?;
-        let new_refs = adjust_mut_list_item_ref(def.refs(), refs, names)?;
+        let new_sabun = adjust_mut_list_item_sabun(def, old_def, sabun, names)?;
+        let new_refs = adjust_mut_list_item_ref(def.refs(), old_def.map(|d| d.refs()), refs, names)?;
         result.push((*id, MutItem::new(new_sabun, new_refs)));
     }
     return Ok(LinkedMap::construct(result, next_id));
@@ -29,11 +29,11 @@ pub(crate) fn adjust_mut(def : &ListDefObj, old_list : &mut LinkedMap<MutItem>,
 //     Ok(MutListVal::new(new_list))
 // }
 
-pub(crate) fn adjust_mut_list(def : &ListDefObj, old : MutListVal, names : &Names) -> CoreResult<MutListVal>{
+pub(crate) fn adjust_mut_list(def : &ListDefObj, old_def : Option<&ListDefObj>, old : MutListVal, names : &Names) -> CoreResult<MutListVal>{
     let mut old_list = old.deconstruct();
     let old_list = Arc::make_mut(&mut old_list);
 
-    let new_list = adjust_mut(def, old_list, names)?;
+    let new_list = adjust_mut(def, old_def, old_list, names)?;
     //let next_id = new_list.len() as u64;
     Ok(MutListVal::new(new_list))
 }
\ No newline at end of file
diff --git a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_ref.rs b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_ref.rs
index 499f6b2..e63ea08 100644
--- a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_ref.rs
+++ b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_ref.rs
@@ -6,14 +6,14 @@ use crate::imp::structs::ref_value::RefSabValue;
 use crate::imp::structs::qv::Qv;
 use crate::imp::structs::util::hash_m::{HashM, HashMt};
 
-pub(crate) fn adjust_mut_list_item_ref(def : &RefDefObj, old_ref : &mut HashM<String, RefSabValue>, _names : &Names) -> CoreResult<HashM<String, RefSabValue>>{
+pub(crate) fn adjust_mut_list_item_ref(def : &RefDefObj, old_def : Option<&RefDefObj>, old_ref : &mut HashM<String, RefSabValue>, _names : &Names) -> CoreResult<HashM<String, RefSabValue>>{
 
     //事前に大きさが決定できないが、refのusecaseだとundefinedは少なく、default値のままが多いと思うので、sabunのlenを使う
     let mut result : HashM<String, RefSabValue> = HashMt::with_capacity(old_ref.len());
 
     for (def_key,_, def_v) in def.refs(){
         let sabun_v = if let Some(v) = old_ref.remove(def_key){ v } else {
-            if def_v.var_type().undefiable(){
+            if def_v.var_type().undefiable() && old_def.map_or(true, |old_def| old_def.refs().contains_key(def_key) == false){
                 RefSabValue::new(Qv::Undefined)
             } else{
                 continue;
diff --git a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
index 2c790d8..567953a 100644
--- a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
+++ b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
@@ -7,7 +7,7 @@ use crate::imp::structs::list_def_obj::ListDefObj;
 use crate::imp::structs::util::hash_m::{HashM, HashMt};
 use crate::imp::structs::list_sab_value::ListSabValue;
 
-pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_sabun : &mut HashM<String, ListSabValue>, names : &Names) -> CoreResult<HashM<String, ListSabValue>>{
+pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_def : Option<&ListDefObj>, old_sabun : &mut HashM<String, ListSabValue>, names : &Names) -> CoreResult<HashM<String, ListSabValue>>{
 
 
     //デフォルトから変化しない場合はsabunには加わらないが、sabun.len()だと、
@@ -21,7 +21,10 @@ pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_sabun : &mut Has
     let mut result : HashM<String, ListSabValue> = HashMt::with_capacity(old_sabun.len());
 
     for (def_key,_, def_v) in def.default(){
+        let old_def_v = old_def.and_then(|old_def| old_def.default().get(def_key));
         let sabun_v = if let Some(v) = old_sabun.remove(def_key){ v } else {
+            //a member which the old source had isn't undefined, just unmodified
+            if old_def_v.is_some(){ continue; }
             match def_v{
                 ListDefValue::Param(p, vt) =>{
                     if vt.undefiable(){
@@ -54,7 +57,11 @@ pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_sabun : &mut Has
                             ListDefValue::MilDef(mut_def) => mut_def.default(),
                             _ => Err(format!("{} {} is not a Mil", names, def_key))?,
                         };
-                        let new = adjust_mut_list(inner_def, im, &names.append(def_key))?;
+                        let old_inner_def = match old_def_v{
+                            Some(ListDefValue::MilDef(mut_def)) => Some(mut_def.default()),
+                            _ => None,
+                        };
+                        let new = adjust_mut_list(inner_def, old_inner_def, im, &names.append(def_key))?;
                         result.insert(def_key.to_string(), ListSabValue::Mil(Some(new)));
                     },
                     None =>{
diff --git a/dochy_core/src/imp/version_adjuster/version_adjuster.rs b/dochy_core/src/imp/version_adjuster/version_adjuster.rs
index 799ea62..577f1a2 100644
--- a/dochy_core/src/imp/version_adjuster/version_adjuster.rs
+++ b/dochy_core/src/imp/version_adjuster/version_adjuster.rs
@@ -61,7 +61,11 @@ pub fn adjust_versions(new : RootObject, old : RootObject, validation : bool) ->
                 if undef == false {
                     if let Some(RootSabValue::Mut(m_val)) = old_sabun.remove(def_key) {
                         if let Some(m_val) = m_val {
-                            let new_m = adjust_mut_list(m.default(), m_val, &Names::new(def_key))?;
+                            let old_m = match old_def.get(def_key){
+                                Some(RootValue::MList(old_m)) => Some(old_m.default()),
+                                _ => None,
+                            };
+                            let new_m = adjust_mut_list(m.default(), old_m, m_val, &Names::new(def_key))?;
                             sabun.insert(def_key.to_string(),RootSabValue::Mut(Some(new_m)));
                         } else{
                             sabun.insert(def_key.to_string(),RootSabValue::Mut(None));
-- 
2.43.0


From d5778a259f45f223a59ac3e5338d7c7bdeb093c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:33 +0000
Subject: [PATCH 07/57] fix: keep item order, next id and cleared references in
 differences

A list difference only looked at items that were added, removed or given new
values. Reordered items, a next id changed without any item change, and
references cleared by set_enum were lost when the difference was applied.
Such items are now deleted and created again, which the format already allows.
---
 dochy_diff/src/imp/prepare/get_mlist_diff.rs | 59 +++++++++++++++++++-
 1 file changed, 56 insertions(+), 3 deletions(-)

diff --git a/dochy_diff/src/imp/prepare/get_mlist_diff.rs b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
index bc8d9c3..7514d97 100644
--- a/dochy_diff/src/imp/prepare/get_mlist_diff.rs
+++ b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
@@ -2,13 +2,17 @@ use crate::imp::structs_write::{ListDiffW, ListItemDiffEnumW, BS};
 use dochy_core::structs::{ListDefObj, LinkedMap, MutItem, MetaTables};
 use crate::imp::prepare::compare_items::compare_items;
 use crate::imp::prepare::new_item::new_item;
+use std::collections::{HashMap, HashSet};
 
 pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b LinkedMap<MutItem>,
                               to_def : &'b ListDefObj, meta : &'b MetaTables) -> Option<ListDiffW<'b>>{
 
+    let recreated = get_recreated_ids(from, to);
     let mut result : Vec<(u64, ListItemDiffEnumW)> = Vec::new();
     for (&id, from_item) in from {
-        if let Some(to_item) = to.get_item(id) {
+        if recreated.contains(&id){
+            result.push((id, ListItemDiffEnumW::Delete));
+        } else if let Some(to_item) = to.get_item(id) {
             if let Some(diff) = compare_items(from_item, to_item, to_def, meta) {
                 result.push((id, ListItemDiffEnumW::Modify(diff)));
             }
@@ -19,19 +23,68 @@ pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b Lin
 
     let mut prev_id : Option<u64> = None;
     for (&id, to_item) in to{
-        if from.contains_key(id) == false{
+        if from.contains_key(id) == false || recreated.contains(&id){
             result.push((id, ListItemDiffEnumW::Create(
                 BS{ prev_id, diff : new_item(to_item, to_def, meta) })));
         }
         prev_id = Some(id)
     }
 
-    if result.len() == 0{
+    if result.len() == 0 && from.next_id() == to.next_id(){
         None
     } else {
         Some(ListDiffW::new(result, meta, to.next_id()))
     }
 }
 
+/// Items which both lists have but "Modify" can't express the difference, so they are deleted and created again:
+/// the items whose order was changed, and the items which lost some members.
+fn get_recreated_ids(from : &LinkedMap<MutItem>, to : &LinkedMap<MutItem>) -> HashSet<u64>{
+    let mut recreated : HashSet<u64> = HashSet::new();
+    let mut from_order : Vec<u64> = Vec::new();
+    for (&id, from_item) in from{
+        if let Some(to_item) = to.get_item(id){
+            if lost_members(from_item, to_item){
+                recreated.insert(id);
+            } else {
+                from_order.push(id);
+            }
+        }
+    }
+    let to_order : Vec<u64> = to.iter().map(|(&id, _)| id)
+        .filter(|&id| from.contains_key(id) && recreated.contains(&id) == false).collect();
+    if from_order != to_order {
+        let kept = longest_kept_order(&from_order, &to_order);
+        recreated.extend(to_order.into_iter().filter(|id| kept.contains(id) == false));
+    }
+    recreated
+}
+
+fn lost_members(from : &MutItem, to : &MutItem) -> bool{
+    from.refs().keys().any(|key| to.refs().contains_key(key) == false) ||
+        from.values().keys().any(|key| to.values().contains_key(key) == false)
+}
+
+/// Gets the longest common order of two permutations
+fn longest_kept_order(from : &[u64], to : &[u64]) -> HashSet<u64>{
+    let positions : HashMap<u64, usize> = from.iter().enumerate().map(|(ind, &id)| (id, ind)).collect();
+    let seq : Vec<usize> = to.iter().map(|id| positions[id]).collect();
+    //longest increasing subsequence: tails[n] is the index of the smallest last value of the subsequences whose length is n + 1
+    let mut tails : Vec<usize> = Vec::new();
+    let mut prevs : Vec<Option<usize>> = Vec::with_capacity(seq.len());
+    for (ind, value) in seq.iter().enumerate(){
+        let len = tails.partition_point(|&tail| seq[tail] < *value);
+        prevs.push(if len == 0 { None } else { Some(tails[len - 1]) });
+        if len == tails.len(){ tails.push(ind); } else { tails[len] = ind; }
+    }
+    let mut kept : HashSet<u64> = HashSet::with_capacity(tails.len());
+    let mut cursor = tails.last().copied();
+    while let Some(ind) = cursor{
+        kept.insert(to[ind]);
+        cursor = prevs[ind];
+    }
+    kept
+}
+
 
 
-- 
2.43.0


From 189d99de639b99cac01f6b063b9b472dd6b3460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:38 +0000
Subject: [PATCH 08/57] fix: compute differences of root lists that may be
 undefined

The difference panicked for documents with a root list declared with '!'.
---
 dochy_diff/src/imp/prepare/get_root_diff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_diff/src/imp/prepare/get_root_diff.rs b/dochy_diff/src/imp/prepare/get_root_diff.rs
index b2690b3..2e1aed6 100644
--- a/dochy_diff/src/imp/prepare/get_root_diff.rs
+++ b/dochy_diff/src/imp/prepare/get_root_diff.rs
@@ -50,7 +50,7 @@ pub(crate) fn get_root_diff<'a, 'b>(from : &'a RootObject, to : &'b RootObject)
                 let (&id, mdef) = if let Some((id, RootValue::MList(mdef))) = def.get(key) { (id, mdef) } else {
                     panic!("invalid def");
                 };
-                let meta = if let Some((_key, MetaValue::MList(meta))) = meta.get(id) { meta } else {
+                let meta = if let Some((_key, MetaValue::MList(meta) | MetaValue::OptMil(meta))) = meta.get(id) { meta } else {
                     panic!("invalid meta");
                 };
 
-- 
2.43.0


From adcc4020834a58fa20eea4bf01857e328f9bf358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:43 +0000
Subject: [PATCH 09/57] fix: read item differences that store list members by
 number

An inner list whose member number is large is stored as a number, and the
reader refused numbers that are not plain parameters.
---
 dochy_diff/src/imp/read/read_list.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dochy_diff/src/imp/read/read_list.rs b/dochy_diff/src/imp/read/read_list.rs
index 4aeacf0..559666c 100644
--- a/dochy_diff/src/imp/read/read_list.rs
+++ b/dochy_diff/src/imp/read/read_list.rs
@@ -87,8 +87,6 @@ fn read_list_item2(r : &mut Reader, meta : &MetaTables) -> Result<ListItemDiffR,
             for &id in &n{
                 if let Some((_,MetaValue::Param(p))) = meta.items().get(id){
                     params.push((id, read_param(p, r)?));
-                } else {
-                    Err("invalid meta read_list_item2")?
                 }
             }
             read_lists_numbers(r, meta.items(), &n, &mut lists)?;
-- 
2.43.0


From 2c2bd7d185853537b10485603ec7ddfb350e956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:49 +0000
Subject: [PATCH 10/57] fix: tell 0.0 from -0.0 when documents are compared

A float changed from 0.0 to -0.0 was treated as unchanged and not saved.
---
 dochy_core/src/imp/structs/rust_array.rs                | 2 +-
 dochy_core/src/imp/structs/util/identity_equal_trait.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/structs/rust_array.rs b/dochy_core/src/imp/structs/rust_array.rs
index 98e0a76..2e81425 100644
--- a/dochy_core/src/imp/structs/rust_array.rs
+++ b/dochy_core/src/imp/structs/rust_array.rs
@@ -73,7 +73,7 @@ impl RustFloatArray{
 
 impl IdentityEqual for RustFloatArray{
     fn identity_eq(&self, other: &Self) -> bool {
-        self.b == other.b
+        self.b.len() == other.b.len() && self.b.iter().zip(other.b.iter()).all(|(l, r)| l.identity_eq(r))
     }
 }
 
diff --git a/dochy_core/src/imp/structs/util/identity_equal_trait.rs b/dochy_core/src/imp/structs/util/identity_equal_trait.rs
index 15de962..8ff4725 100644
--- a/dochy_core/src/imp/structs/util/identity_equal_trait.rs
+++ b/dochy_core/src/imp/structs/util/identity_equal_trait.rs
@@ -43,7 +43,8 @@ impl IdentityEqual for i64{
 
 impl IdentityEqual for f64{
     fn identity_eq(&self, other: &Self) -> bool {
-        self == other
+        //0.0 and -0.0 are not identical
+        self.to_bits() == other.to_bits()
     }
 }
 
-- 
2.43.0


From f5ccad62adc8be61eac29537d8ea27df22e6df48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:54 +0000
Subject: [PATCH 11/57] fix: consider item order and next id when lists are
 compared

contents_eq called two documents equal when the items of a list were in a
different order.
---
 dochy_core/src/imp/structs/util/identity_equal_trait.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/structs/util/identity_equal_trait.rs b/dochy_core/src/imp/structs/util/identity_equal_trait.rs
index 8ff4725..2abfc74 100644
--- a/dochy_core/src/imp/structs/util/identity_equal_trait.rs
+++ b/dochy_core/src/imp/structs/util/identity_equal_trait.rs
@@ -56,10 +56,10 @@ impl IdentityEqual for String{
 
 impl<T : IdentityEqual> IdentityEqual for LinkedMap<T>{
     fn identity_eq(&self, other: &Self) -> bool {
-        if self.len() != other.len() {
+        if self.len() != other.len() || self.next_id() != other.next_id() {
             return false;
         }
 
-        self.iter().all(move |(key, value)| other.get_item(*key).map_or(false, |v| value.identity_eq(v)))
+        self.iter().zip(other.iter()).all(|((id, value), (other_id, v))| id == other_id && value.identity_eq(v))
     }
 }
\ No newline at end of file
-- 
2.43.0


From d0d17fb69921f5d713b195509fad0a1c03b8cc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:43 +0000
Subject: [PATCH 12/57] fix: drop the padding byte when text is converted back
 to bytes

---
 dochy_compaction/src/url_string/b8s_and_b6s.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_compaction/src/url_string/b8s_and_b6s.rs b/dochy_compaction/src/url_string/b8s_and_b6s.rs
index b428b48..e71b237 100644
--- a/dochy_compaction/src/url_string/b8s_and_b6s.rs
+++ b/dochy_compaction/src/url_string/b8s_and_b6s.rs
@@ -48,5 +48,5 @@ pub fn to_b8s(b6s : &[u8]) -> Vec<u8>{
     if byte_size != vec.len(){
         vec.pop();
     }
-    result.to_bytes()
+    vec
 }
\ No newline at end of file
-- 
2.43.0


From 2d720cdcc503d4ef9b7d95a325d2f2219baca422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:48 +0000
Subject: [PATCH 13/57] fix: take only a dot as the decimal point of compacted
 strings

---
 dochy_compaction/src/string_compaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_compaction/src/string_compaction.rs b/dochy_compaction/src/string_compaction.rs
index 58fbc11..a9061a7 100644
--- a/dochy_compaction/src/string_compaction.rs
+++ b/dochy_compaction/src/string_compaction.rs
@@ -100,7 +100,7 @@ struct NumResult{
 }
 
 fn rex(s : &str) -> Option<regex::Captures>{
-    static RE: Lazy<Regex> = Lazy::new(|| regex::Regex::new(r#"^(-?)(([0-9]+)(.?)([0-9]*))$"#).unwrap());
+    static RE: Lazy<Regex> = Lazy::new(|| regex::Regex::new(r#"^(-?)(([0-9]+)(\.?)([0-9]*))$"#).unwrap());
 
     return RE.captures(s);
 }
-- 
2.43.0


From ac5d949508d6d0dcd49a64d70e98b344e28d44a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:09:58 +0000
Subject: [PATCH 14/57] fix: read tags from history file names

---
 dochy_fs/src/imp/history/file_name/analyze_file_name.rs | 2 +-
 dochy_fs/src/imp/history/pub_fn/save_history_file.rs    | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
index ccab0a8..a8c98ea 100644
--- a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
+++ b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
@@ -99,7 +99,7 @@ fn get_tag(s : &str) -> Option<&str>{
     }
     for (i,c) in bytes.iter().skip(1).enumerate(){
         if *c == '#' as u8{
-            return Some(&s[1..i])
+            return Some(&s[1..i+1])
         }
     }
     return None;
diff --git a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
index 32dabea..6e9a332 100644
--- a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
@@ -79,6 +79,10 @@ fn save_history_file_impl(history_info: &HistoryInfo,
                           tag : Option<String>,
                           root : &RootObject,
                           root_id : Weak<()>) -> FsResult<FileNameProps> {
+    if tag.as_ref().map_or(false, |t| t.contains('#')){
+        // '#' terminates the tag in the filename
+        Err(format!("The tag must not contain '#' {:?}", tag))?
+    }
     let history_dir = history_info.history_dir();
     let mut mutex = get_mutex(history_dir).unwrap();
     let p = mutex.peekable();
-- 
2.43.0


From 906ca22ab22bc500aa786a7a4469d1b08404f750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:02 +0000
Subject: [PATCH 15/57] fix: load history files from the directory of their own
 source

---
 .../src/imp/history/pub_fn/load_history_file.rs  | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/dochy_fs/src/imp/history/pub_fn/load_history_file.rs b/dochy_fs/src/imp/history/pub_fn/load_history_file.rs
index 5bbc963..ed41eb0 100644
--- a/dochy_fs/src/imp/history/pub_fn/load_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/load_history_file.rs
@@ -18,15 +18,25 @@ pub fn load_history_file(history_info : &HistoryInfo,
                          history : &FileHistory,
                          validation : bool) -> FsResult<RootObject> {
 
+    load_from_hash_dir(history_info, history_info.hash(), props, history, validation)
+}
+
+fn load_from_hash_dir(history_info : &HistoryInfo,
+                      hash : u128,
+                      props : &FileNameProps,
+                      history : &FileHistory,
+                      validation : bool) -> FsResult<RootObject> {
     let mut guard = get_mutex(history_info.history_dir()).unwrap();
     let c = guard.peekable();
-    let hash = c.hash();
+    let current_hash = c.hash();
     let op = c.history_options().clone();
     let (cache,h) = guard.muts();
     match load_impl(history_info.history_dir(), hash,
                     props, history, cache, &op, validation){
         Ok(root) =>{
-            *h = Some(CurrentRootObjInfo::new(root.id(), props.clone()));
+            if hash == current_hash {
+                *h = Some(CurrentRootObjInfo::new(root.id(), props.clone()));
+            }
             Ok(root)
         },
         Err(e) => Err(e),
@@ -59,5 +69,5 @@ fn load_impl<P : AsRef<Path>>(history_dir : P,
 pub fn load_history_file_data(history_info : &HistoryInfo,
                               data : &HistoryFileData,
                               validation : bool) -> FsResult<RootObject> {
-    load_history_file(history_info, data.props(), data.history(), validation)
+    load_from_hash_dir(history_info, data.hash(), data.props(), data.history(), validation)
 }
\ No newline at end of file
-- 
2.43.0


From 853a933904a9ebdaf4fa4d0bf085346c4d742f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:06 +0000
Subject: [PATCH 16/57] fix: name the right parent for files following a branch

---
 dochy_fs/src/imp/history/file_hist/ancestors.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/file_hist/ancestors.rs b/dochy_fs/src/imp/history/file_hist/ancestors.rs
index 6bff18c..00aaf91 100644
--- a/dochy_fs/src/imp/history/file_hist/ancestors.rs
+++ b/dochy_fs/src/imp/history/file_hist/ancestors.rs
@@ -71,7 +71,8 @@ pub(crate) fn create_dependencies<'a,'b>(ancestors : &'b[&'a FileNameProps],
         prev_ctl = last_prop.control();
     } else if next_phase == max_phase{
         *order.last_mut().unwrap() += 1;
-        prev_ctl = last_prop.control();
+        // if it's not cumulative, the next file depends on the parent of the last file
+        prev_ctl = if cumulative{ last_prop.control() } else{ last_prop.prev_ctl() };
     } else {
         order = order[0..next_phase+1].to_vec();
         *order.last_mut().unwrap() += 1;
-- 
2.43.0


From 48a499bb7473186b5316e3b72b8b48eaa7aadc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:25 +0000
Subject: [PATCH 17/57] fix: start a new series when the base file or its
 parent is gone

---
 .../imp/history/pub_fn/save_history_file.rs    | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
index 6e9a332..d7c4481 100644
--- a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
@@ -99,17 +99,23 @@ fn save_history_file_impl(history_info: &HistoryInfo,
         if root_id.ptr_eq(info.current_root_id()) {
             let history = create_file_history(&history_hash_dir, opt.max_phase(), opt.is_cumulative())?;
             if let Some(newest) = history.get_newest_prop() {
-                let from = if info.current_base_file().phase() == opt.max_phase() && info.current_base_file() != newest {
+                let base = info.current_base_file();
+                let from = if history.get_props(base.control(), base.order()) != Some(base) {
+                    //the base file was removed
+                    None
+                } else if base.phase() == opt.max_phase() && base != newest {
                     //最新ファイルからの派生でない場合、キャッシュに乗っていない可能性がより高いし、最終フェーズの計算が面倒でもあるので、親から派生する
-                    history.get_parent(info.current_base_file()).ok_or("no parents found")?
+                    history.get_parent(base)
                 } else {
-                    info.current_base_file()
+                    Some(base)
                 };
 
-                let saved = derive_impl(tag, root, cache, &history_hash_dir, &history, from, opt)?;
-                *h = Some(CurrentRootObjInfo::new(root_id, saved.clone()));
+                if let Some(from) = from {
+                    let saved = derive_impl(tag, root, cache, &history_hash_dir, &history, from, opt)?;
+                    *h = Some(CurrentRootObjInfo::new(root_id, saved.clone()));
 
-                return Ok(saved);
+                    return Ok(saved);
+                }
             }
         }
     }
-- 
2.43.0


From cbed58f4e87544f19930ed6a95edb2282eed7560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:39 +0000
Subject: [PATCH 18/57] fix: allow limit_nth above the number of phases

---
 dochy_fs/src/imp/history/algo/phase_data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/algo/phase_data.rs b/dochy_fs/src/imp/history/algo/phase_data.rs
index cf74d7c..bac2745 100644
--- a/dochy_fs/src/imp/history/algo/phase_data.rs
+++ b/dochy_fs/src/imp/history/algo/phase_data.rs
@@ -77,7 +77,7 @@ impl PhaseData{
 
         sizes.sort_by_key(|a| *a);
 
-        sizes.get(sizes.len() - nth).map(|a| *a)
+        sizes.get(sizes.len().checked_sub(nth)?).map(|a| *a)
     }
 }
 
-- 
2.43.0


From 27e2d3e2be190e80328620720ef1ca9b63a90e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:43 +0000
Subject: [PATCH 19/57] fix: ignore directories whose names are not hashes

---
 dochy_fs/src/imp/common/path/hash.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_fs/src/imp/common/path/hash.rs b/dochy_fs/src/imp/common/path/hash.rs
index f7a44b7..6f5635e 100644
--- a/dochy_fs/src/imp/common/path/hash.rs
+++ b/dochy_fs/src/imp/common/path/hash.rs
@@ -17,11 +17,11 @@ fn hex_to_u64(s : &[u8]) -> Option<u64>{
     loop{
         r <<= 4;
         let b = s[index];
-        let num = b - '0' as u8;
+        let num = b.wrapping_sub('0' as u8);
         if num <= 9 {
             r += num as u64;
         } else{
-            let num = b - 'a' as u8;
+            let num = b.wrapping_sub('a' as u8);
             if num <= 5{
                 r += 10 + num as u64;
             } else{
-- 
2.43.0


From fe97b64a4782e8c3710692361736218baf2e2fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:27 +0000
Subject: [PATCH 20/57] fix: replace saved files in one step

---
 dochy_fs/src/imp/common/path/mod.rs           |  1 +
 .../src/imp/common/path/prepare_hash_dir.rs   |  8 +++---
 dochy_fs/src/imp/common/path/write_file.rs    | 27 +++++++++++++++++++
 dochy_fs/src/imp/filesys/save_dochy_file.rs   |  5 ++--
 .../src/imp/history/fs/write_phase_file.rs    | 12 +++++----
 5 files changed, 40 insertions(+), 13 deletions(-)
 create mode 100644 dochy_fs/src/imp/common/path/write_file.rs

diff --git a/dochy_fs/src/imp/common/path/mod.rs b/dochy_fs/src/imp/common/path/mod.rs
index ffd26cb..e6403e5 100644
--- a/dochy_fs/src/imp/common/path/mod.rs
+++ b/dochy_fs/src/imp/common/path/mod.rs
@@ -5,4 +5,5 @@ pub mod get_hash_times;
 pub mod reserved_filename;
 pub mod prepare_hash_dir;
 pub mod remove_hash_dir;
+pub mod write_file;
 
diff --git a/dochy_fs/src/imp/common/path/prepare_hash_dir.rs b/dochy_fs/src/imp/common/path/prepare_hash_dir.rs
index 6f94f7e..15d6467 100644
--- a/dochy_fs/src/imp/common/path/prepare_hash_dir.rs
+++ b/dochy_fs/src/imp/common/path/prepare_hash_dir.rs
@@ -2,7 +2,7 @@ use std::path::{Path, PathBuf};
 use crate::common::CurrentSrc;
 use crate::error::FsResult;
 use crate::imp::common::path::hash_dir_path::hash_dir_path;
-use std::fs::File;
+use crate::imp::common::path::write_file::write_file;
 use crate::imp::common::path::reserved_filename::ARCHIVE_DEFAULT_NAME;
 use crate::common::reserved_filename::CREATED_TIME_FILE_NAME;
 use crate::imp::common::path::created_time_file::create_time_dat;
@@ -12,8 +12,7 @@ pub(crate) fn prepare_hash_dir(proj_dir: &Path, src : &CurrentSrc, hash : u128)
     let hash_dir = get_or_make_hash_dir_path(proj_dir, hash)?;
     let archive_path = hash_dir.join(ARCHIVE_DEFAULT_NAME);
     if archive_path.exists() == false{
-        let mut file = File::create(&archive_path)?;
-        src.create_archive(&mut file)?;
+        write_file(&archive_path, |file| src.create_archive(file))?;
     }
     Ok(hash_dir)
 }
@@ -25,7 +24,6 @@ fn get_or_make_hash_dir_path(proj_dir: &Path, hash : u128) -> FsResult<PathBuf>
     }
     std::fs::create_dir(&hash_dir_path)?;
     let time_file_path = hash_dir_path.join(CREATED_TIME_FILE_NAME);
-    let mut file = File::create(time_file_path)?;
-    create_time_dat(SystemTime::now(), &mut file)?;
+    write_file(&time_file_path, |file| create_time_dat(SystemTime::now(), file))?;
     Ok(hash_dir_path)
 }
diff --git a/dochy_fs/src/imp/common/path/write_file.rs b/dochy_fs/src/imp/common/path/write_file.rs
new file mode 100644
index 0000000..bcd6b8c
--- /dev/null
+++ b/dochy_fs/src/imp/common/path/write_file.rs
@@ -0,0 +1,27 @@
+use std::fs::File;
+use std::path::Path;
+use std::sync::atomic::{AtomicUsize, Ordering};
+use crate::error::FsResult;
+
+static COUNTER : AtomicUsize = AtomicUsize::new(0);
+
+/// Writes a file in a hash directory.
+/// The content is written to a temporary file in the project directory and renamed,
+/// so the file never exists with incomplete content.
+pub(crate) fn write_file<F : FnOnce(&mut File) -> FsResult<()>>(path : &Path, func : F) -> FsResult<()>{
+    let proj_dir = path.parent().and_then(|p| p.parent()).ok_or("not in a hash directory")?;
+    let tmp_path = proj_dir.join(format!(".{}_{}.tmp", std::process::id(), COUNTER.fetch_add(1, Ordering::Relaxed)));
+
+    let result = write_and_rename(&tmp_path, path, func);
+    if result.is_err(){
+        std::fs::remove_file(&tmp_path).ok();
+    }
+    result
+}
+
+fn write_and_rename<F : FnOnce(&mut File) -> FsResult<()>>(tmp_path : &Path, path : &Path, func : F) -> FsResult<()>{
+    let mut file = File::create(tmp_path)?;
+    func(&mut file)?;
+    drop(file);
+    Ok(std::fs::rename(tmp_path, path)?)
+}
diff --git a/dochy_fs/src/imp/filesys/save_dochy_file.rs b/dochy_fs/src/imp/filesys/save_dochy_file.rs
index 8ebcb68..f31383b 100644
--- a/dochy_fs/src/imp/filesys/save_dochy_file.rs
+++ b/dochy_fs/src/imp/filesys/save_dochy_file.rs
@@ -1,11 +1,11 @@
 use std::path::{PathBuf};
-use std::fs::File;
 use crate::error::FsResult;
 use std::io::Write;
 use dochy_core::structs::RootObject;
 use crate::imp::filesys::save_dir_info::SaveDirInfo;
 use crate::imp::filesys::save_cache_map::{get_mutex};
 use crate::imp::common::path::prepare_hash_dir::prepare_hash_dir;
+use crate::imp::common::path::write_file::write_file;
 
 
 /// saves a Dochy file.
@@ -24,8 +24,7 @@ pub fn save_dochy_file(info : &SaveDirInfo,
         Err("file already exists")?
     }
     let diff = dochy_diff::get_diff(&src_root, &root)?;
-    let mut file = File::create(&file_path)?;
-    file.write_all(&diff)?;
+    write_file(&file_path, |file| Ok(file.write_all(&diff)?))?;
     Ok(file_path)
 }
 
diff --git a/dochy_fs/src/imp/history/fs/write_phase_file.rs b/dochy_fs/src/imp/history/fs/write_phase_file.rs
index 20569bc..22955db 100644
--- a/dochy_fs/src/imp/history/fs/write_phase_file.rs
+++ b/dochy_fs/src/imp/history/fs/write_phase_file.rs
@@ -2,12 +2,14 @@ use std::path::Path;
 use crate::error::FsResult;
 use crate::imp::history::algo::phase_data::PhaseData;
 use std::io::Write;
+use crate::imp::common::path::write_file::write_file;
 
 pub(crate) fn write_phase_file(data : &PhaseData, file_path : &Path, vec : &[u8]) -> FsResult<()>{
     let data_encoded = data.encode();
-    let mut file = std::fs::File::create(file_path)?;
-    dochy_compaction::enc_dec::encode::encode(&data_encoded, &mut file)?;
-    //let mut vec = vec;
-    file.write_all(vec)?;
-    Ok(())
+    write_file(file_path, |file|{
+        dochy_compaction::enc_dec::encode::encode(&data_encoded, file)?;
+        //let mut vec = vec;
+        file.write_all(vec)?;
+        Ok(())
+    })
 }
\ No newline at end of file
-- 
2.43.0


From 433792fc9f2965c4f468f2e5440f5bfd558e0d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:56 +0000
Subject: [PATCH 21/57] fix: keep the parents of files in the last phase but
 one

---
 dochy_fs/src/imp/history/remove/history_remover_item.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/remove/history_remover_item.rs b/dochy_fs/src/imp/history/remove/history_remover_item.rs
index 6362c88..a8095e9 100644
--- a/dochy_fs/src/imp/history/remove/history_remover_item.rs
+++ b/dochy_fs/src/imp/history/remove/history_remover_item.rs
@@ -81,7 +81,8 @@ impl<'a> HistoryRemoverItem<'a>{
                        cur_phase : usize, max_phase : usize, cumulative_option : bool) -> HistoryRemoverItem<'a>{
 
         let r = composite_remover(src.items(), src.children(), cur_phase, max_phase, cumulative_option);
-        let cumulative = cur_phase == max_phase && cumulative_option;
+        // cur_phase is the phase of the children
+        let cumulative = cur_phase == max_phase + 1 && cumulative_option;
         HistoryRemoverItem::new(cumulative, props,  r)
     }
 }
-- 
2.43.0


From 858908ad29755b051c883bafd76dac3fc4bf444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:01 +0000
Subject: [PATCH 22/57] fix: refuse to save over the bookkeeping files

---
 dochy_fs/src/imp/common/path/reserved_filename.rs | 8 +++++++-
 dochy_fs/src/imp/filesys/remove_dochy_file.rs     | 4 ++--
 dochy_fs/src/imp/filesys/save_dochy_file.rs       | 4 ++++
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/dochy_fs/src/imp/common/path/reserved_filename.rs b/dochy_fs/src/imp/common/path/reserved_filename.rs
index d36492d..9ad8f6d 100644
--- a/dochy_fs/src/imp/common/path/reserved_filename.rs
+++ b/dochy_fs/src/imp/common/path/reserved_filename.rs
@@ -8,4 +8,10 @@ pub const CREATED_TIME_FILE_NAME : &'static str = "created_time.dat";
 
 pub(crate) fn is_reserved_filename(filename : &str) -> bool{
     filename == ARCHIVE_DEFAULT_NAME || filename == CREATED_TIME_FILE_NAME
-}
\ No newline at end of file
+}
+
+/// "filename" can contain directories like "./src.archive"
+pub(crate) fn is_reserved_path(filename : &str) -> bool{
+    std::path::Path::new(filename).file_name().and_then(|s| s.to_str())
+        .map_or(false, is_reserved_filename)
+}
diff --git a/dochy_fs/src/imp/filesys/remove_dochy_file.rs b/dochy_fs/src/imp/filesys/remove_dochy_file.rs
index 6dd2bfa..153c05b 100644
--- a/dochy_fs/src/imp/filesys/remove_dochy_file.rs
+++ b/dochy_fs/src/imp/filesys/remove_dochy_file.rs
@@ -1,11 +1,11 @@
 use std::path::Path;
 use crate::error::FsResult;
-use crate::imp::common::path::reserved_filename::is_reserved_filename;
+use crate::imp::common::path::reserved_filename::is_reserved_path;
 use crate::imp::common::path::hash_dir_path::hash_dir_path;
 
 ///Dochy files can be safely removed.
 pub fn remove_dochy_file<P : AsRef<Path>>(save_dir : P, hash : u128, filename : &str) -> FsResult<()>{
-    if is_reserved_filename(filename) == false{
+    if is_reserved_path(filename) == false{
         let dir = hash_dir_path(save_dir, hash);
         let file_path = dir.join(filename);
         Ok(std::fs::remove_file(file_path)?)
diff --git a/dochy_fs/src/imp/filesys/save_dochy_file.rs b/dochy_fs/src/imp/filesys/save_dochy_file.rs
index f31383b..15b00b2 100644
--- a/dochy_fs/src/imp/filesys/save_dochy_file.rs
+++ b/dochy_fs/src/imp/filesys/save_dochy_file.rs
@@ -5,6 +5,7 @@ use dochy_core::structs::RootObject;
 use crate::imp::filesys::save_dir_info::SaveDirInfo;
 use crate::imp::filesys::save_cache_map::{get_mutex};
 use crate::imp::common::path::prepare_hash_dir::prepare_hash_dir;
+use crate::imp::common::path::reserved_filename::is_reserved_path;
 use crate::imp::common::path::write_file::write_file;
 
 
@@ -13,6 +14,9 @@ pub fn save_dochy_file(info : &SaveDirInfo,
                        file_name : &str,
                        root: &RootObject,
                        overwrite : bool) -> FsResult<PathBuf>{
+    if is_reserved_path(file_name){
+        Err(format!("{} couldn't be saved. {} is a system file.", file_name, file_name))?
+    }
     let mutex = get_mutex(info.save_dir()).unwrap();
     let info = mutex.cache();
     let save_dir = info.save_dir();
-- 
2.43.0


From 3e32726a9e59d574ff16e8e2f7590e96900ce27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:05 +0000
Subject: [PATCH 23/57] fix: report unreadable files instead of aborting in
 multi-threaded loading

---
 dochy_fs/src/imp/common/apply_items.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dochy_fs/src/imp/common/apply_items.rs b/dochy_fs/src/imp/common/apply_items.rs
index fa0043b..af23318 100644
--- a/dochy_fs/src/imp/common/apply_items.rs
+++ b/dochy_fs/src/imp/common/apply_items.rs
@@ -25,19 +25,25 @@ pub(crate) fn apply_items_mt<F : FnMut(&RootObject)>(mut root : RootObject,
                                                      mut func : F) -> FsResult<RootObject> {
 
 
-    let (sender, receiver): (Sender<(usize,RootDiffR)>, Receiver<(usize,RootDiffR)>) = std::sync::mpsc::channel();
+    let (sender, receiver): (Sender<(usize,FsResult<RootDiffR>)>, Receiver<(usize,FsResult<RootDiffR>)>) = std::sync::mpsc::channel();
     let meta_table_arc = root.meta_table_arc();
     let paths_len = paths.len();
 
     std::thread::spawn(move ||{
         for (i,path) in paths.iter().enumerate() {
-            let mut file = open_diff_file_without_metadata(path).unwrap();
-            let v = DochyDiff::read_value(&mut file).unwrap();
+            let v = match open_diff_file_without_metadata(path).and_then(|mut file| DochyDiff::read_value(&mut file)){
+                Ok(v) => v,
+                Err(e) =>{
+                    sender.send((i, Err(e))).ok();
+                    return;
+                }
+            };
             let sender = sender.clone();
             let meta_table_arc = meta_table_arc.clone();
             rayon::spawn_fifo(move ||{
-                let va = v.prepare(meta_table_arc.as_ref()).unwrap();
-                sender.send((i, va)).unwrap();
+                let va = v.prepare(meta_table_arc.as_ref());
+                // the receiver stops receiving when an error occurs
+                sender.send((i, va)).ok();
             });
         }
     });
@@ -45,7 +51,7 @@ pub(crate) fn apply_items_mt<F : FnMut(&RootObject)>(mut root : RootObject,
     let mut current_index = 0;
     for t_i in 0..paths_len {
         let (i,va) = receiver.recv().or(Err(format!("preparing recv {} failed", t_i)))?;
-        map.insert(i, va);
+        map.insert(i, va?);
         apply_several_items(&mut root, &mut current_index, &mut map, &mut func)?;
     }
     Ok(root)
-- 
2.43.0


From ea272d92ab1a49da48f6f40ce4360e13039ffae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:09 +0000
Subject: [PATCH 24/57] fix: find the newest file when the last directory has
 no files

---
 dochy_fs/src/imp/history/file_hist/file_histories.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/file_hist/file_histories.rs b/dochy_fs/src/imp/history/file_hist/file_histories.rs
index 3982a82..7bd60ec 100644
--- a/dochy_fs/src/imp/history/file_hist/file_histories.rs
+++ b/dochy_fs/src/imp/history/file_hist/file_histories.rs
@@ -26,7 +26,7 @@ impl FileHistories{
 
     /// gets the newest HisotryFileData
     pub fn get_newest_file_data(&self) -> Option<HistoryFileData>{
-        self.vec.last().and_then(|(hash, his)|
+        self.vec.iter().rev().find_map(|(hash, his)|
                                      his.get_newest_prop().map(|prop|
                                      HistoryFileData::new(*hash, his, prop)))
     }
-- 
2.43.0


From d75732ac8ab29ce3abfa76b553b7862206d2597f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:47 +0000
Subject: [PATCH 25/57] fix: count background saves as queued from the call on

---
 .../history_cache_map.rs                      | 11 ++++++--
 .../history/current_root_obj_info/mutex_g.rs  | 28 +++++++++++++------
 .../imp/history/pub_fn/save_history_file.rs   | 13 +++++----
 3 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/dochy_fs/src/imp/history/current_root_obj_info/history_cache_map.rs b/dochy_fs/src/imp/history/current_root_obj_info/history_cache_map.rs
index b0b1833..6c621ef 100644
--- a/dochy_fs/src/imp/history/current_root_obj_info/history_cache_map.rs
+++ b/dochy_fs/src/imp/history/current_root_obj_info/history_cache_map.rs
@@ -7,7 +7,7 @@ use crate::error::FsResult;
 use crate::imp::history::history_info::HistoryInfo;
 use crate::imp::history::current_root_obj_info::current_root_obj_info::CurrentRootObjInfo;
 use crate::imp::history::current_root_obj_info::history_cache_item::{SyncedItem, HistoryCacheItem};
-use crate::imp::history::current_root_obj_info::mutex_g::MutexG;
+use crate::imp::history::current_root_obj_info::mutex_g::{MutexG, Queued};
 use crate::imp::history::diff_and_cache::dochy_cache::DochyCache;
 use crate::imp::history::current_root_obj_info::fifo_thread::FifoThread;
 use std::sync::{Mutex, MutexGuard};
@@ -75,10 +75,15 @@ pub(crate) fn get_map_item<'a>(history_dir : &Path) -> Option<&'a HistoryCacheIt
 
 pub(crate) fn get_mutex<'a>(history_dir : &Path) -> Option<MutexG<'a>>{
     let item = get_map_item(history_dir)?;
-    let peekable_info = item.peekable();
+    get_mutex_queued(history_dir, Queued::new(item.peekable()))
+}
+
+/// "queued" was created when the operation was requested
+pub(crate) fn get_mutex_queued<'a>(history_dir : &Path, queued : Queued<'a>) -> Option<MutexG<'a>>{
+    let item = get_map_item(history_dir)?;
     let guard = item.synced().lock().unwrap();
 
-    Some(MutexG::new(guard, peekable_info))
+    Some(MutexG::new(guard, queued))
 }
 
 /// You can peek the file to be derived in the next save, but the Mutex is needed for save and load.
diff --git a/dochy_fs/src/imp/history/current_root_obj_info/mutex_g.rs b/dochy_fs/src/imp/history/current_root_obj_info/mutex_g.rs
index 66f25c7..549eba3 100644
--- a/dochy_fs/src/imp/history/current_root_obj_info/mutex_g.rs
+++ b/dochy_fs/src/imp/history/current_root_obj_info/mutex_g.rs
@@ -4,22 +4,32 @@ use crate::imp::history::current_root_obj_info::history_cache_item::SyncedItem;
 use std::sync::atomic::Ordering;
 use std::sync::MutexGuard;
 
-pub(crate) struct MutexG<'a>{
-    guard : MutexGuard<'a, SyncedItem>,
+/// An operation is counted as queued from the creation of this struct to the drop
+pub(crate) struct Queued<'a>{
     peekable: &'a PeekableCacheInfo,
 }
-impl<'a> MutexG<'a>{
-    pub(crate) fn new<'b>(guard : MutexGuard<'b, SyncedItem>,
-                      peekable : &'b PeekableCacheInfo) -> MutexG<'b>{
+impl<'a> Queued<'a>{
+    pub(crate) fn new<'b>(peekable : &'b PeekableCacheInfo) -> Queued<'b>{
         peekable.queued_atomic().fetch_add(1, Ordering::AcqRel);
-        MutexG{ guard, peekable }
+        Queued{ peekable }
     }
-    pub(crate) fn peekable(&self) -> &PeekableCacheInfo{ &self.peekable }
 }
-impl<'a> Drop for MutexG<'a>{
+impl<'a> Drop for Queued<'a>{
     fn drop(&mut self) {
-        self.peekable().queued_atomic().fetch_sub(1, Ordering::AcqRel);
+        self.peekable.queued_atomic().fetch_sub(1, Ordering::AcqRel);
+    }
+}
+
+pub(crate) struct MutexG<'a>{
+    guard : MutexGuard<'a, SyncedItem>,
+    queued: Queued<'a>,
+}
+impl<'a> MutexG<'a>{
+    pub(crate) fn new<'b>(guard : MutexGuard<'b, SyncedItem>,
+                      queued : Queued<'b>) -> MutexG<'b>{
+        MutexG{ guard, queued }
     }
+    pub(crate) fn peekable(&self) -> &PeekableCacheInfo{ &self.queued.peekable }
 }
 
 impl<'a> Deref for MutexG<'a>{
diff --git a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
index d7c4481..b21e494 100644
--- a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
@@ -7,7 +7,8 @@ use crate::imp::history::file_hist::create_file_history::create_file_history;
 use crate::imp::history::fs::derive_impl::derive_impl;
 use std::sync::Weak;
 use crate::imp::history::history_info::HistoryInfo;
-use crate::imp::history::current_root_obj_info::history_cache_map::get_mutex;
+use crate::imp::history::current_root_obj_info::history_cache_map::get_mutex_queued;
+use crate::imp::history::current_root_obj_info::mutex_g::Queued;
 use crate::imp::history::current_root_obj_info::current_root_obj_info::CurrentRootObjInfo;
 use crate::imp::common::path::prepare_hash_dir::prepare_hash_dir;
 
@@ -23,7 +24,7 @@ use crate::imp::common::path::prepare_hash_dir::prepare_hash_dir;
 pub fn save_history_file(history_info : &HistoryInfo,
                          tag : Option<String>,
                          root : &RootObject) -> FsResult<FileNameProps> {
-    save_history_file_impl(history_info, tag, root, root.id())
+    save_history_file_impl(history_info, tag, root, root.id(), Queued::new(get_peekable_info(history_info)))
 }
 
 
@@ -43,9 +44,10 @@ pub fn save_history_file_nb<
     let clone = root.clone();
     let ft = history_info.fifo_thread();
     let history_info = history_info.clone();
+    let queued = Queued::new(get_peekable_info(&history_info));
 
     ft.spawn_fifo(move || {
-        let result = save_history_file_impl(&history_info, tag, &clone, id);
+        let result = save_history_file_impl(&history_info, tag, &clone, id, queued);
         match result {
             Ok(r) => {
                 callback(Ok(r));
@@ -78,13 +80,14 @@ pub fn save_history_file_nb_if_vacant<
 fn save_history_file_impl(history_info: &HistoryInfo,
                           tag : Option<String>,
                           root : &RootObject,
-                          root_id : Weak<()>) -> FsResult<FileNameProps> {
+                          root_id : Weak<()>,
+                          queued : Queued) -> FsResult<FileNameProps> {
     if tag.as_ref().map_or(false, |t| t.contains('#')){
         // '#' terminates the tag in the filename
         Err(format!("The tag must not contain '#' {:?}", tag))?
     }
     let history_dir = history_info.history_dir();
-    let mut mutex = get_mutex(history_dir).unwrap();
+    let mut mutex = get_mutex_queued(history_dir, queued).unwrap();
     let p = mutex.peekable();
 
 
-- 
2.43.0


From e640ea3d8a3a9e313cdd6eaa94e46644b95335de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:41 +0000
Subject: [PATCH 26/57] fix: don't take files like _00_0.his for history files

---
 dochy_fs/src/imp/history/file_name/analyze_file_name.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
index a8c98ea..f54c8a3 100644
--- a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
+++ b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
@@ -47,6 +47,7 @@ pub(crate) fn analyze_file_name(s : &str, hint_max_phase : Option<usize>) -> Opt
     if s.ends_with(".his") == false{
         return None;
     }
+    let filename = s;
 
     let tag = get_tag(s);
 
@@ -82,7 +83,10 @@ pub(crate) fn analyze_file_name(s : &str, hint_max_phase : Option<usize>) -> Opt
             if s == ".his" && order.len() != 0{
                 if let Ok(props) = FileNameProps::new(n, prev_ctl,
                                                       order, tag.map(|t| t.to_string())){
-                    return Some(props);
+                    // "_00_0.his" and the like aren't the names of history files
+                    if props.calc_filename() == filename {
+                        return Some(props);
+                    }
                 }
             }
             return None;
-- 
2.43.0


From 04c30dfd08c6047463360c15841cab726cfa9db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:45 +0000
Subject: [PATCH 27/57] fix: read history file names with numbers of more than
 8 digits

---
 dochy_fs/src/imp/history/file_name/analyze_file_name.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
index f54c8a3..51f351f 100644
--- a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
+++ b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
@@ -136,13 +136,11 @@ fn get_num(s : &[u8]) -> Option<(u32, usize)>{
 
         let b = s[i];
         if '0' as u8 <= b && b <= '9' as u8{
-            result *= 10;
-            result += (b - '0' as u8) as u32;
+            result = result.checked_mul(10)?.checked_add((b - '0' as u8) as u32)?;
         } else{
             return Some((result, i));
         }
         i += 1;
-        if i == 10{ return None; } //オーバーフローは避ける
     }
 
 
-- 
2.43.0


From e1032fa5c2b0e400f91904315d0c8c8b3965592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:23 +0000
Subject: [PATCH 28/57] fix: read histories of older sources with the options
 they were saved with

---
 dochy_fs/src/imp/history/file_hist/mod.rs     |  1 +
 .../history/file_hist/phase_options_file.rs   | 29 +++++++++++++++++++
 dochy_fs/src/imp/history/fs/load.rs           |  4 +--
 .../src/imp/history/pub_fn/list_histories.rs  |  8 ++++-
 .../imp/history/pub_fn/save_history_file.rs   |  2 ++
 5 files changed, 41 insertions(+), 3 deletions(-)
 create mode 100644 dochy_fs/src/imp/history/file_hist/phase_options_file.rs

diff --git a/dochy_fs/src/imp/history/file_hist/mod.rs b/dochy_fs/src/imp/history/file_hist/mod.rs
index 2a8971b..53ee8b6 100644
--- a/dochy_fs/src/imp/history/file_hist/mod.rs
+++ b/dochy_fs/src/imp/history/file_hist/mod.rs
@@ -5,3 +5,4 @@ pub mod ancestors;
 pub mod prepare_history_hash_dir;
 pub mod history_file_data;
 pub mod file_histories;
+pub(crate) mod phase_options_file;
diff --git a/dochy_fs/src/imp/history/file_hist/phase_options_file.rs b/dochy_fs/src/imp/history/file_hist/phase_options_file.rs
new file mode 100644
index 0000000..d2a6d24
--- /dev/null
+++ b/dochy_fs/src/imp/history/file_hist/phase_options_file.rs
@@ -0,0 +1,29 @@
+use std::path::Path;
+use crate::error::FsResult;
+use crate::imp::common::path::write_file::write_file;
+use crate::imp::history::algo::history_options::HistoryOptions;
+use std::io::Write;
+
+/// The file which contains the options needed to find the ancestors of the history files beside it.
+const PHASE_OPTIONS_FILE_NAME : &'static str = "phase_options.dat";
+
+/// Options can be changed when the source is changed, so they are recorded for each hash directory.
+pub(crate) fn prepare_phase_options(history_hash_dir : &Path, opt : &HistoryOptions) -> FsResult<()>{
+    if read_phase_options(history_hash_dir) == Some((opt.max_phase(), opt.is_cumulative())){
+        return Ok(());
+    }
+    write_file(&history_hash_dir.join(PHASE_OPTIONS_FILE_NAME), |file|{
+        file.write_all(&(opt.max_phase() as u64).to_le_bytes())?;
+        file.write_all(&[opt.is_cumulative() as u8])?;
+        Ok(())
+    })
+}
+
+/// (max_phase, cumulative)
+pub(crate) fn read_phase_options(history_hash_dir : &Path) -> Option<(usize, bool)>{
+    let data = std::fs::read(history_hash_dir.join(PHASE_OPTIONS_FILE_NAME)).ok()?;
+    if data.len() != 9{ return None; }
+    let mut max_phase = [0 as u8; 8];
+    max_phase.copy_from_slice(&data[0..8]);
+    Some((u64::from_le_bytes(max_phase) as usize, data[8] != 0))
+}
diff --git a/dochy_fs/src/imp/history/fs/load.rs b/dochy_fs/src/imp/history/fs/load.rs
index 2cbf73e..d82f82f 100644
--- a/dochy_fs/src/imp/history/fs/load.rs
+++ b/dochy_fs/src/imp/history/fs/load.rs
@@ -23,10 +23,10 @@ pub(crate) fn load<
     let opt = opt.as_ref();
     let dir_path = path.parent().ok_or_else(|| format!("No parent found {:?}", path))?;
     let filename = path.file_name().ok_or_else(|| format!("The filename couldn't be found {:?}", path))?.to_string_lossy().to_string();
-    let analyzed = analyze_file_name(&filename, Some(opt.max_phase()))
+    let analyzed = analyze_file_name(&filename, Some(history.max_phase()))
         .ok_or_else(|| format!("invalid file name {}", &filename))?;
 
-    let paths = create_ancestors_paths(history, &analyzed, opt.max_phase(), opt.is_cumulative(), dir_path)?;
+    let paths = create_ancestors_paths(history, &analyzed, history.max_phase(), history.cumulative(), dir_path)?;
 
     Ok(cache.apply_items_for_load(root, paths,  opt)?)
 }
\ No newline at end of file
diff --git a/dochy_fs/src/imp/history/pub_fn/list_histories.rs b/dochy_fs/src/imp/history/pub_fn/list_histories.rs
index 93cf9e1..2fda355 100644
--- a/dochy_fs/src/imp/history/pub_fn/list_histories.rs
+++ b/dochy_fs/src/imp/history/pub_fn/list_histories.rs
@@ -3,6 +3,8 @@ use crate::history::{FileHistory, HistoryInfo};
 use crate::common::get_hash_times;
 use crate::error::FsResult;
 use crate::imp::history::file_hist::file_histories::FileHistories;
+use crate::imp::history::file_hist::phase_options_file::read_phase_options;
+use crate::imp::common::path::hash_dir_path::hash_dir_path;
 
 
 pub fn list_histories(info : &HistoryInfo) -> FsResult<FileHistories>{
@@ -12,7 +14,11 @@ pub fn list_histories(info : &HistoryInfo) -> FsResult<FileHistories>{
 
     let mut vec : Vec<(u128, FileHistory)> = vec![];
     for (hash, _time) in hash_times{
-        if let Ok(history) = FileHistory::create(history_dir, hash, opt.max_phase(), opt.is_cumulative()){
+        let (max_phase, cumulative) = if hash == info.hash(){ None } else{
+            read_phase_options(&hash_dir_path(history_dir, hash))
+        }.unwrap_or((opt.max_phase(), opt.is_cumulative()));
+
+        if let Ok(history) = FileHistory::create(history_dir, hash, max_phase, cumulative){
             vec.push((hash, history));
         }
     }
diff --git a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
index b21e494..44eb969 100644
--- a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
@@ -11,6 +11,7 @@ use crate::imp::history::current_root_obj_info::history_cache_map::get_mutex_que
 use crate::imp::history::current_root_obj_info::mutex_g::Queued;
 use crate::imp::history::current_root_obj_info::current_root_obj_info::CurrentRootObjInfo;
 use crate::imp::common::path::prepare_hash_dir::prepare_hash_dir;
+use crate::imp::history::file_hist::phase_options_file::prepare_phase_options;
 
 /// calculates the diff from the latest save file(most of the time) and save the diff file.
 ///
@@ -96,6 +97,7 @@ fn save_history_file_impl(history_info: &HistoryInfo,
     let (cache, h) = mutex.muts();
     let hash = cache.hash();
     let history_hash_dir = prepare_hash_dir(history_dir, &src, hash)?;
+    prepare_phase_options(&history_hash_dir, &opt)?;
     let current_root_obj = h.clone();
 
     if let Some(info) = current_root_obj {
-- 
2.43.0


From 5405147f2a40234ba7dbb7e26517dc4e3f0d3341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:28 +0000
Subject: [PATCH 29/57] fix: keep cumulative ancestors when the max phase is 0

---
 dochy_fs/src/imp/history/remove/history_remover.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dochy_fs/src/imp/history/remove/history_remover.rs b/dochy_fs/src/imp/history/remove/history_remover.rs
index 919ffe6..35b8241 100644
--- a/dochy_fs/src/imp/history/remove/history_remover.rs
+++ b/dochy_fs/src/imp/history/remove/history_remover.rs
@@ -70,13 +70,11 @@ impl<'a> HistoryRemoverCtlItem<'a>{
     }
 
     pub(crate) fn get_item_from_cue(&self, cue_order : &[u32], cue_order_last : Option<u32>) -> Option<&'a HistoryRemoverItem>{
-        let mut item = self.items.get(cue_order.get(0)?)?;
+        // "cue_order" is empty when the max phase is 0
+        let mut indexes = cue_order.iter().copied().chain(cue_order_last);
+        let mut item = self.items.get(&indexes.next()?)?;
 
-        for ind in &cue_order[1..]{
-            item = item.children().get(ind)?;
-        }
-
-        if let Some(ind) = cue_order_last{
+        for ind in indexes{
             item = item.children().get(&ind)?;
         }
         Some(item)
-- 
2.43.0


From 57fa7eeaa96a4c9882e4c4aa0692f323bcf98301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:45:26 +0000
Subject: [PATCH 30/57] fix: a save without overwrite does not replace a file
 that could not be examined

---
 dochy_fs/src/imp/filesys/save_dochy_file.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dochy_fs/src/imp/filesys/save_dochy_file.rs b/dochy_fs/src/imp/filesys/save_dochy_file.rs
index 15b00b2..767a3c4 100644
--- a/dochy_fs/src/imp/filesys/save_dochy_file.rs
+++ b/dochy_fs/src/imp/filesys/save_dochy_file.rs
@@ -24,8 +24,12 @@ pub fn save_dochy_file(info : &SaveDirInfo,
     let src_root = info.clone_src_root();
 
     let file_path = hash_dir.join(file_name);
-    if file_path.exists() && overwrite == false {
-        Err("file already exists")?
+    if overwrite == false {
+        match file_path.metadata(){
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound =>{},
+            Err(e) => Err(e)?,
+            Ok(_) => Err("file already exists")?,
+        }
     }
     let diff = dochy_diff::get_diff(&src_root, &root)?;
     write_file(&file_path, |file| Ok(file.write_all(&diff)?))?;
-- 
2.43.0


From f8413a0648043c30133df28cda3a1bef5d0ca0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:33 +0000
Subject: [PATCH 31/57] fix: list histories while a save is running

---
 dochy_fs/src/imp/common/path/get_hash_times.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dochy_fs/src/imp/common/path/get_hash_times.rs b/dochy_fs/src/imp/common/path/get_hash_times.rs
index db50257..6e7fce7 100644
--- a/dochy_fs/src/imp/common/path/get_hash_times.rs
+++ b/dochy_fs/src/imp/common/path/get_hash_times.rs
@@ -14,11 +14,11 @@ pub fn get_hash_times<P : AsRef<Path>>(proj_dir : P) -> FsResult<Vec<(u128, Syst
 
     for entry in dir{
         let entry = entry?;
-        let meta = entry.metadata()?;
-        if meta.is_dir(){
-            //0-9A-Fで構成された32文字のフォルダは、ハッシュであると考えられる。
-            //そうじゃない場合困ったことになるので、そういう変なものをproj_dirに作らないように・・・
-            if let Some(hash) = folder_name_to_hash(&entry.file_name()){
+        //0-9A-Fで構成された32文字のフォルダは、ハッシュであると考えられる。
+        //そうじゃない場合困ったことになるので、そういう変なものをproj_dirに作らないように・・・
+        if let Some(hash) = folder_name_to_hash(&entry.file_name()){
+            let meta = entry.metadata()?;
+            if meta.is_dir(){
                 let file_path = entry.path().join(CREATED_TIME_FILE_NAME);
                 let time = get_folder_time(file_path, &meta);
                 r.push((hash, time));
-- 
2.43.0


From 43a63215f2906b93f967ab8eec6a9cd5b0eb217b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:38 +0000
Subject: [PATCH 32/57] fix: a background save overtaken by a later save is not
 derived from it

---
 .../current_root_obj_info/current_root_obj_info.rs     |  8 +++++++-
 .../src/imp/history/current_root_obj_info/mutex_g.rs   | 10 ++++++++--
 dochy_fs/src/imp/history/pub_fn/save_history_file.rs   |  8 +++++---
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/dochy_fs/src/imp/history/current_root_obj_info/current_root_obj_info.rs b/dochy_fs/src/imp/history/current_root_obj_info/current_root_obj_info.rs
index 56442ce..af6508b 100644
--- a/dochy_fs/src/imp/history/current_root_obj_info/current_root_obj_info.rs
+++ b/dochy_fs/src/imp/history/current_root_obj_info/current_root_obj_info.rs
@@ -5,13 +5,19 @@ use std::sync::Weak;
 pub struct CurrentRootObjInfo {
     current_root_id: Weak<()>,
     current_base_file: FileNameProps,
+    call : usize,
 }
 
 impl CurrentRootObjInfo {
     pub fn new(current_root_id: Weak<()>, current_base_file: FileNameProps) -> CurrentRootObjInfo {
-        CurrentRootObjInfo { current_root_id, current_base_file}
+        CurrentRootObjInfo::with_call(current_root_id, current_base_file, 0)
+    }
+    pub(crate) fn with_call(current_root_id: Weak<()>, current_base_file: FileNameProps, call : usize) -> CurrentRootObjInfo {
+        CurrentRootObjInfo { current_root_id, current_base_file, call }
     }
 
     pub fn current_root_id(&self) -> &Weak<()>{ &self.current_root_id }
     pub fn current_base_file(&self) -> &FileNameProps{ &self.current_base_file }
+    /// When the save of the base file was requested
+    pub(crate) fn call(&self) -> usize{ self.call }
 }
\ No newline at end of file
diff --git a/dochy_fs/src/imp/history/current_root_obj_info/mutex_g.rs b/dochy_fs/src/imp/history/current_root_obj_info/mutex_g.rs
index 549eba3..2f4eeae 100644
--- a/dochy_fs/src/imp/history/current_root_obj_info/mutex_g.rs
+++ b/dochy_fs/src/imp/history/current_root_obj_info/mutex_g.rs
@@ -1,17 +1,21 @@
 use crate::history::PeekableCacheInfo;
 use std::ops::{Deref, DerefMut};
 use crate::imp::history::current_root_obj_info::history_cache_item::SyncedItem;
-use std::sync::atomic::Ordering;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::MutexGuard;
 
+/// The number of the operations which have been requested
+static CALLS : AtomicUsize = AtomicUsize::new(0);
+
 /// An operation is counted as queued from the creation of this struct to the drop
 pub(crate) struct Queued<'a>{
     peekable: &'a PeekableCacheInfo,
+    call : usize,
 }
 impl<'a> Queued<'a>{
     pub(crate) fn new<'b>(peekable : &'b PeekableCacheInfo) -> Queued<'b>{
         peekable.queued_atomic().fetch_add(1, Ordering::AcqRel);
-        Queued{ peekable }
+        Queued{ peekable, call : CALLS.fetch_add(1, Ordering::AcqRel) }
     }
 }
 impl<'a> Drop for Queued<'a>{
@@ -30,6 +34,8 @@ impl<'a> MutexG<'a>{
         MutexG{ guard, queued }
     }
     pub(crate) fn peekable(&self) -> &PeekableCacheInfo{ &self.queued.peekable }
+    /// Operations requested later have larger numbers
+    pub(crate) fn call(&self) -> usize{ self.queued.call }
 }
 
 impl<'a> Deref for MutexG<'a>{
diff --git a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
index 44eb969..b330c57 100644
--- a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
@@ -90,6 +90,7 @@ fn save_history_file_impl(history_info: &HistoryInfo,
     let history_dir = history_info.history_dir();
     let mut mutex = get_mutex_queued(history_dir, queued).unwrap();
     let p = mutex.peekable();
+    let call = mutex.call();
 
 
     let opt = p.history_options().clone();
@@ -101,7 +102,8 @@ fn save_history_file_impl(history_info: &HistoryInfo,
     let current_root_obj = h.clone();
 
     if let Some(info) = current_root_obj {
-        if root_id.ptr_eq(info.current_root_id()) {
+        //a save requested later may have overtaken this one, and an older state can't be derived from a newer one
+        if root_id.ptr_eq(info.current_root_id()) && info.call() <= call {
             let history = create_file_history(&history_hash_dir, opt.max_phase(), opt.is_cumulative())?;
             if let Some(newest) = history.get_newest_prop() {
                 let base = info.current_base_file();
@@ -117,7 +119,7 @@ fn save_history_file_impl(history_info: &HistoryInfo,
 
                 if let Some(from) = from {
                     let saved = derive_impl(tag, root, cache, &history_hash_dir, &history, from, opt)?;
-                    *h = Some(CurrentRootObjInfo::new(root_id, saved.clone()));
+                    *h = Some(CurrentRootObjInfo::with_call(root_id, saved.clone(), call));
 
                     return Ok(saved);
                 }
@@ -126,6 +128,6 @@ fn save_history_file_impl(history_info: &HistoryInfo,
     }
 
     let saved = fs_start_new(tag, root, cache, &history_hash_dir, &opt, opt.is_cumulative())?;
-    *h = Some(CurrentRootObjInfo::new(root_id, saved.clone()));
+    *h = Some(CurrentRootObjInfo::with_call(root_id, saved.clone(), call));
     return Ok(saved);
 }
-- 
2.43.0


From 8c9b4cfc37107be36e3ccf7011cae8eb44116e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:33 +0000
Subject: [PATCH 33/57] fix: refuse values whose type changed when converting
 to a new source

---
 .../imp/version_adjuster/adjust_mut_list_item_sabun.rs    | 8 +++++++-
 dochy_core/src/imp/version_adjuster/version_adjuster.rs   | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
index 567953a..fdb6824 100644
--- a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
+++ b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
@@ -47,7 +47,10 @@ pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_def : Option<&Li
         };
         match sabun_v{
             ListSabValue::Param(p) =>{
-                //型チェックめんどいからなしでいいかな・・・？
+                match def_v{
+                    ListDefValue::Param(def_p, _) if def_p.acceptable(&p) =>{},
+                    _ => Err(format!("{} {}'s type was changed", names, def_key))?,
+                }
                 result.insert(def_key.to_string(), ListSabValue::Param(p));
             },
             ListSabValue::Mil(op) =>{
@@ -65,6 +68,9 @@ pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_def : Option<&Li
                         result.insert(def_key.to_string(), ListSabValue::Mil(Some(new)));
                     },
                     None =>{
+                        if !matches!(def_v, ListDefValue::MilDef(_)){
+                            Err(format!("{} {} is not a Mil", names, def_key))?
+                        }
                         result.insert(def_key.to_string(), ListSabValue::Mil(None));
                     }
                 }
diff --git a/dochy_core/src/imp/version_adjuster/version_adjuster.rs b/dochy_core/src/imp/version_adjuster/version_adjuster.rs
index 577f1a2..6a1113e 100644
--- a/dochy_core/src/imp/version_adjuster/version_adjuster.rs
+++ b/dochy_core/src/imp/version_adjuster/version_adjuster.rs
@@ -42,6 +42,10 @@ pub fn adjust_versions(new : RootObject, old : RootObject, validation : bool) ->
 
                 if undef == false {
                     if let Some(param) = old_sabun.remove(def_key) {
+                        match &param{
+                            RootSabValue::Param(old_p) if p.acceptable(old_p) =>{},
+                            _ => Err(format!("Root's member {}'s type was changed", def_key))?,
+                        }
                         sabun.insert(def_key.to_string(), param);
                     }
                 }
-- 
2.43.0


From c093def9c6f98df16d6e0aa68ea1d8d87cba313b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:39 +0000
Subject: [PATCH 34/57] fix: validate null and undefined of root members after
 a conversion

---
 dochy_core/src/imp/json_to_rust/validation/validate_root.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/json_to_rust/validation/validate_root.rs b/dochy_core/src/imp/json_to_rust/validation/validate_root.rs
index 9fd7f26..95eeecd 100644
--- a/dochy_core/src/imp/json_to_rust/validation/validate_root.rs
+++ b/dochy_core/src/imp/json_to_rust/validation/validate_root.rs
@@ -33,10 +33,10 @@ pub(crate) fn validate_root(root : &RootObject, can_use_old: bool) -> CoreResult
         //RootはOldでも値を入れざるを得ないので入れて良い
         //なのでここではOldは無視
         match val {
-            RootValue::Param(p, _) => {
+            RootValue::Param(p, vt) => {
                 if let Some(sab) = root.sabun().get(name) {
                     if let RootSabValue::Param(sab) = sab {
-                        if p.acceptable(sab) == false {
+                        if p.acceptable(sab) == false || vt.acceptable(&sab.qv_type()) == false {
                             Err(format!("Root's member {}'s sabun is invalid", name))?
                         }
                     } else {
-- 
2.43.0


From ddad77f2af63c838e6d22ea4e1bd91ab1895a39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:45 +0000
Subject: [PATCH 35/57] fix: a null is not a variant of an Enum

---
 dochy_core/src/imp/json_to_rust/validation/validate_refs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/json_to_rust/validation/validate_refs.rs b/dochy_core/src/imp/json_to_rust/validation/validate_refs.rs
index eff5404..bb3f1fd 100644
--- a/dochy_core/src/imp/json_to_rust/validation/validate_refs.rs
+++ b/dochy_core/src/imp/json_to_rust/validation/validate_refs.rs
@@ -11,7 +11,7 @@ use crate::imp::structs::util::hash_m::HashM;
 
 pub(crate) fn validate_refs(def : &RefDefObj, sabun : &HashM<String, RefSabValue>, root : &RootObject, can_use_old: bool, names : &Names) -> CoreResult<()>{
     if def.is_enum(){
-       if sabun.len() != 1{
+       if sabun.len() != 1 || sabun.values().all(|v| matches!(v.value(), Qv::Val(_))) == false{
            Err(format!("{} one of the Enum's member must be defined", names))?
        }
     } else{
-- 
2.43.0


From 998aab35db1999fd3afb3c7275efb12f91504189 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:51:36 +0000
Subject: [PATCH 36/57] fix: read Infinity and NaN in JSON5 texts

---
 dochy_json5/src/de.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dochy_json5/src/de.rs b/dochy_json5/src/de.rs
index fa2d5a4..39acbad 100644
--- a/dochy_json5/src/de.rs
+++ b/dochy_json5/src/de.rs
@@ -102,9 +102,9 @@ fn parse_char_escape_sequence(pair: &Pair<'_, Rule>) -> String {
 
 fn parse_number(pair: &Pair<'_, Rule>) -> Result<f64> {
     match pair.as_str() {
-        "Infinity" => Ok(f64::INFINITY),
+        "Infinity" | "+Infinity" => Ok(f64::INFINITY),
         "-Infinity" => Ok(f64::NEG_INFINITY),
-        "NaN" | "-NaN" => Ok(f64::NAN),
+        "NaN" | "+NaN" | "-NaN" => Ok(f64::NAN),
         s if is_hex_literal(s) => parse_hex(&s[2..], pair).map(f64::from),
         s => {
             if let Ok(r) = s.parse::<f64>() {
@@ -130,7 +130,7 @@ fn parse_integer(pair: &Pair<'_, Rule>) -> Result<i64> {
 }
 
 fn is_int(s: &str) -> bool {
-    !s.contains('.') && (is_hex_literal(s) || (!s.contains('e') && !s.contains('E')))
+    !s.contains('.') && !s.ends_with("Infinity") && !s.ends_with("NaN") && (is_hex_literal(s) || (!s.contains('e') && !s.contains('E')))
 }
 
 fn parse_hex(s: &str, p: &Pair<'_, Rule>) -> Result<u32> {
-- 
2.43.0


From c2cd5a26a455e83cf4c3563b97e7b583da2fc940 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:51:36 +0000
Subject: [PATCH 37/57] fix: read signed and large hexadecimal numbers

---
 dochy_json5/src/de.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dochy_json5/src/de.rs b/dochy_json5/src/de.rs
index 39acbad..3af1864 100644
--- a/dochy_json5/src/de.rs
+++ b/dochy_json5/src/de.rs
@@ -4,6 +4,7 @@ use pest_derive::Parser;
 use crate::error::{Result, MyError};
 use crate::deserialize_item::{get_unit, get_bool, get_string, get_f64, get_seq, get_map, get_undefined, get_i64};
 use crate::jval::JVal;
+use std::convert::TryFrom;
 use std::f64;
 use std::char;
 use std::rc::Rc;
@@ -105,7 +106,6 @@ fn parse_number(pair: &Pair<'_, Rule>) -> Result<f64> {
         "Infinity" | "+Infinity" => Ok(f64::INFINITY),
         "-Infinity" => Ok(f64::NEG_INFINITY),
         "NaN" | "+NaN" | "-NaN" => Ok(f64::NAN),
-        s if is_hex_literal(s) => parse_hex(&s[2..], pair).map(f64::from),
         s => {
             if let Ok(r) = s.parse::<f64>() {
                 if r.is_finite() {
@@ -122,7 +122,11 @@ fn parse_number(pair: &Pair<'_, Rule>) -> Result<f64> {
 
 fn parse_integer(pair: &Pair<'_, Rule>) -> Result<i64> {
     match pair.as_str() {
-        s if is_hex_literal(s) => Ok(parse_hex(&s[2..], pair)? as i64),
+        s if is_hex_literal(s) => {
+            let abs = u64::from_str_radix(&unsigned(s)[2..], 16).or(Err(create_err("error parsing hex", pair)))?;
+            let val = if s.starts_with('-') { -(abs as i128) } else { abs as i128 };
+            i64::try_from(val).or(Err(create_err("error parsing integer", pair)))
+        },
         s => s
             .parse()
             .or(Err(create_err("error parsing integer", pair)))
@@ -137,7 +141,12 @@ fn parse_hex(s: &str, p: &Pair<'_, Rule>) -> Result<u32> {
     u32::from_str_radix(s, 16).or(Err(create_err("error parsing hex", p)))
 }
 
+fn unsigned(s: &str) -> &str {
+    s.trim_start_matches(|c| c == '+' || c == '-')
+}
+
 fn is_hex_literal(s: &str) -> bool {
+    let s = unsigned(s);
     s.len() > 2 && (&s[..2] == "0x" || &s[..2] == "0X")
 }
 
-- 
2.43.0


From deeece4c361b2a21643fa38494094424b913c016 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:51:36 +0000
Subject: [PATCH 38/57] fix: read surrogate pairs in the escapes of a string

---
 dochy_json5/src/de.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/dochy_json5/src/de.rs b/dochy_json5/src/de.rs
index 3af1864..18f5b90 100644
--- a/dochy_json5/src/de.rs
+++ b/dochy_json5/src/de.rs
@@ -6,7 +6,6 @@ use crate::deserialize_item::{get_unit, get_bool, get_string, get_f64, get_seq,
 use crate::jval::JVal;
 use std::convert::TryFrom;
 use std::f64;
-use std::char;
 use std::rc::Rc;
 use anyhow::anyhow;
 
@@ -72,21 +71,20 @@ pub(crate) fn create_err_from_str(s : &str) -> MyError {
 
 
 fn parse_string(pair: Pair<'_, Rule>) -> Result<String> {
-    pair.into_inner()
-        .map(|component| match component.as_rule() {
-            Rule::char_literal => Ok(String::from(component.as_str())),
-            Rule::char_escape_sequence => Ok(parse_char_escape_sequence(&component)),
-            Rule::nul_escape_sequence => Ok(String::from("\u{0000}")),
+    //Two escapes can make up one character, so it's built from UTF-16 units
+    let mut units : Vec<u16> = vec![];
+    for component in pair.clone().into_inner() {
+        match component.as_rule() {
+            Rule::char_literal => units.extend(component.as_str().encode_utf16()),
+            Rule::char_escape_sequence => units.extend(parse_char_escape_sequence(&component).encode_utf16()),
+            Rule::nul_escape_sequence => units.push(0),
             Rule::hex_escape_sequence | Rule::unicode_escape_sequence => {
-                let hex_escape = parse_hex(component.as_str(), &component)?;
-                match char::from_u32(hex_escape) {
-                    Some(s) => Ok(s.to_string()),
-                    None => Err(create_err("error parsing hex prefix", &component)),
-                }
+                units.push(parse_hex(component.as_str(), &component)? as u16);
             }
             _ => unreachable!(),
-        })
-        .collect()
+        }
+    }
+    String::from_utf16(&units).or(Err(create_err("error parsing unicode escapes", &pair)))
 }
 
 fn parse_char_escape_sequence(pair: &Pair<'_, Rule>) -> String {
-- 
2.43.0


From 0da6eecfc40661122596bbb15e4fd6b7a50d0264 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:51:36 +0000
Subject: [PATCH 39/57] fix: accept line separators in strings and refuse octal
 escapes

---
 dochy_json5/src/json5.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_json5/src/json5.pest b/dochy_json5/src/json5.pest
index 0b90104..90c34ab 100644
--- a/dochy_json5/src/json5.pest
+++ b/dochy_json5/src/json5.pest
@@ -20,7 +20,7 @@ boolean = @{ "true" | "false" }
 
 char_escape_sequence = @{ single_escape_char | non_escape_char }
 
-char_literal = @{ !("\\" | line_terminator) ~ ANY }
+char_literal = @{ !("\\" | "\u{000A}" | "\u{000D}") ~ ANY }
 
 decimal_integer_literal = _{ "0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT* }
 
@@ -80,7 +80,7 @@ line_terminator_sequence = _{ "\u{000D}" ~ "\u{000A}" | line_terminator }
 
 non_escape_char = _{ !(escape_char | line_terminator) ~ ANY }
 
-nul_escape_sequence = @{ "0" }
+nul_escape_sequence = @{ "0" ~ !ASCII_DIGIT }
 
 null = @{ "null" }
 
-- 
2.43.0


From f59a6fb04a84e6a65739ffe7982b1369d14bd6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:51:36 +0000
Subject: [PATCH 40/57] fix: identifiers can contain spacing marks, not
 diacritics

---
 dochy_json5/src/json5.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_json5/src/json5.pest b/dochy_json5/src/json5.pest
index 90c34ab..68a8777 100644
--- a/dochy_json5/src/json5.pest
+++ b/dochy_json5/src/json5.pest
@@ -57,7 +57,7 @@ identifier_part = _{
   identifier_start |
   &(
     NONSPACING_MARK |
-    DIACRITIC | // not sure about this, spec says "Combining spacing mark (Mc)"
+    SPACING_MARK |
     DECIMAL_NUMBER |
     CONNECTOR_PUNCTUATION |
     "\u{200C}" |
-- 
2.43.0


From 9115a6a73e1c8f30da66bf948a18059feb8f3b4f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:51:36 +0000
Subject: [PATCH 41/57] fix: decode the escapes in the keys of objects

---
 dochy_json5/src/de.rs               | 13 ++++++++++++-
 dochy_json5/src/deserialize_item.rs |  9 +++------
 dochy_json5/src/json5.pest          |  2 ++
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/dochy_json5/src/de.rs b/dochy_json5/src/de.rs
index 18f5b90..bd2d373 100644
--- a/dochy_json5/src/de.rs
+++ b/dochy_json5/src/de.rs
@@ -70,7 +70,7 @@ pub(crate) fn create_err_from_str(s : &str) -> MyError {
 }
 
 
-fn parse_string(pair: Pair<'_, Rule>) -> Result<String> {
+pub(crate) fn parse_string(pair: Pair<'_, Rule>) -> Result<String> {
     //Two escapes can make up one character, so it's built from UTF-16 units
     let mut units : Vec<u16> = vec![];
     for component in pair.clone().into_inner() {
@@ -87,6 +87,17 @@ fn parse_string(pair: Pair<'_, Rule>) -> Result<String> {
     String::from_utf16(&units).or(Err(create_err("error parsing unicode escapes", &pair)))
 }
 
+pub(crate) fn parse_identifier(pair: Pair<'_, Rule>) -> Result<String> {
+    let s = pair.as_str();
+    let suffix = &s[s.trim_end_matches(|c| c == '!' || c == '?').len()..];
+    let name = parse_string(pair.clone())?;
+    //Escaped characters must be the ones which can be written directly
+    if s.contains('\\') && (name.contains('\\') || Parser::parse(Rule::identifier_name, &name).is_err()) {
+        return Err(create_err("error parsing escapes in an identifier", &pair));
+    }
+    Ok(name + suffix)
+}
+
 fn parse_char_escape_sequence(pair: &Pair<'_, Rule>) -> String {
     String::from(match pair.as_str() {
         "b" => "\u{0008}",
diff --git a/dochy_json5/src/deserialize_item.rs b/dochy_json5/src/deserialize_item.rs
index a91e74c..da989d9 100644
--- a/dochy_json5/src/deserialize_item.rs
+++ b/dochy_json5/src/deserialize_item.rs
@@ -1,6 +1,6 @@
 use crate::error::Result;
 use crate::jval::JVal;
-use crate::de::{deserialize_any, Seq, Map};
+use crate::de::{deserialize_any, parse_identifier, parse_string, Seq, Map};
 use pest::Span;
 use crate::de::Rule;
 use std::rc::Rc;
@@ -38,11 +38,8 @@ pub(crate) fn get_map(m: Map, span : Span, rc : Rc<String>) -> Result<JVal> {
         if op.is_none(){ break; }
         let p = op.unwrap();
         let ident = match p.as_rule(){
-            Rule::identifier =>{ p.as_str().to_string() },
-            Rule::string =>{
-                let s = p.as_str();
-                (&s[1..s.len()-1]).to_string()
-            },
+            Rule::identifier =>{ parse_identifier(p)? },
+            Rule::string =>{ parse_string(p)? },
             _ =>{
                 //println!("{:?}",p.as_rule());
                 //println!("{:?}",p.as_str());
diff --git a/dochy_json5/src/json5.pest b/dochy_json5/src/json5.pest
index 68a8777..857d321 100644
--- a/dochy_json5/src/json5.pest
+++ b/dochy_json5/src/json5.pest
@@ -53,6 +53,8 @@ hex_integer_literal = _{ ^"0x" ~ ASCII_HEX_DIGIT+ }
 
 identifier = ${ identifier_start ~ identifier_part* ~ "!"? ~ "?"? }
 
+identifier_name = @{ SOI ~ identifier_start ~ identifier_part* ~ EOI }
+
 identifier_part = _{
   identifier_start |
   &(
-- 
2.43.0


From fd65b889680bad6bc509cf75845aee7d7df1b23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:27 +0000
Subject: [PATCH 42/57] fix: keep the document alive while differences are
 prepared

---
 dochy_fs/src/imp/common/apply_items.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/dochy_fs/src/imp/common/apply_items.rs b/dochy_fs/src/imp/common/apply_items.rs
index af23318..81dbf25 100644
--- a/dochy_fs/src/imp/common/apply_items.rs
+++ b/dochy_fs/src/imp/common/apply_items.rs
@@ -47,14 +47,25 @@ pub(crate) fn apply_items_mt<F : FnMut(&RootObject)>(mut root : RootObject,
             });
         }
     });
+    let res = receive_items(&mut root, &receiver, paths_len, &mut func);
+    // the meta table points into the root, which must outlive every preparation
+    while receiver.recv().is_ok(){}
+    res?;
+    Ok(root)
+}
+
+fn receive_items<F : FnMut(&RootObject)>(root : &mut RootObject,
+                                         receiver : &Receiver<(usize,FsResult<RootDiffR>)>,
+                                         paths_len : usize,
+                                         func : &mut F) -> FsResult<()>{
     let mut map : HashMap<usize, RootDiffR> = HashMap::new();
     let mut current_index = 0;
     for t_i in 0..paths_len {
         let (i,va) = receiver.recv().or(Err(format!("preparing recv {} failed", t_i)))?;
         map.insert(i, va?);
-        apply_several_items(&mut root, &mut current_index, &mut map, &mut func)?;
+        apply_several_items(root, &mut current_index, &mut map, func)?;
     }
-    Ok(root)
+    Ok(())
 }
 
 fn apply_several_items<F : FnMut(&RootObject)>(root : &mut RootObject,
-- 
2.43.0


From ab8aa8cf3ca3dd1b1b0ac71af96fa41c25a2da7a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:19:00 +0000
Subject: [PATCH 43/57] fix: refuse sources that define a member twice

---
 dochy_core/src/imp/json_to_rust/construct_root.rs   | 3 +++
 dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/dochy_core/src/imp/json_to_rust/construct_root.rs b/dochy_core/src/imp/json_to_rust/construct_root.rs
index e4e9963..44e4c34 100644
--- a/dochy_core/src/imp/json_to_rust/construct_root.rs
+++ b/dochy_core/src/imp/json_to_rust/construct_root.rs
@@ -15,6 +15,9 @@ pub(crate) fn construct_root(root : RootObject, vec : Vec<(String, RootValue, Op
     let mut vec = vec;
     vec.sort_by(|(a,_,_),(b,_,_)| a.cmp(b));
     for (name, value, sab) in vec {
+        if default.contains_key(&name){
+            Err(format!("{} is defined multiple times", name))?
+        }
         let id = default.len();
         default.insert(name.to_string(), (id, value));
         if let Some(sab) = sab{
diff --git a/dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs b/dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs
index 591eea7..249bd61 100644
--- a/dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs
+++ b/dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs
@@ -29,6 +29,9 @@ pub(crate) fn json_obj_to_rust(v : &LinkedHashMap<String, JVal>, is_ref_obj : bo
                     json_item_to_rust(&name, vt,v, names)?
                 };
 
+                if r.default.contains_key(&name){
+                    Err(format!("{} {} is defined multiple times {}", span.line_str(), name, names))?
+                }
                 r.insert_default(name.to_string(), id, v);
                 counter += 1;
             },
-- 
2.43.0


From e5b1c078d47809285713783e386b3aec150c7aeb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:19:00 +0000
Subject: [PATCH 44/57] fix: refuse sources in which two items have the same id

---
 dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs b/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs
index 60f26bb..c810316 100644
--- a/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs
+++ b/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs
@@ -212,7 +212,11 @@ fn to_list_items(vec : Vec<TmpObj>) -> CoreResult<Vec<ConstItem>>{
 fn to_data_items(vec : Vec<TmpObj>) -> CoreResult<HashM<String, ConstItem>>{
     let mut result : HashM<String, ConstItem> = HashMt::with_capacity(vec.len());
     for item in vec{
+        let line = item.span.line_str();
         let (s,m) = item.into_list_item_with_id()?;
+        if result.contains_key(&s){
+            Err(format!("{} ID {} is used multiple times", line, s))?
+        }
         result.insert(s, m);
     }
     return Ok(result);
@@ -220,9 +224,13 @@ fn to_data_items(vec : Vec<TmpObj>) -> CoreResult<HashM<String, ConstItem>>{
 
 fn to_mut_list_items(vec : Vec<TmpObj>, next_id : u64) -> CoreResult<LinkedMap<MutItem>>{
     let mut result : Vec<(u64, MutItem)> = Vec::with_capacity(vec.len());
+    let mut ids : HashS<u64> = HashSt::with_capacity(vec.len());
     for (idx, tmp_item) in vec.into_iter().enumerate(){
-        //let span = tmp_item.span.clone();
+        let line = tmp_item.span.line_str();
         let pair = tmp_item.into_mut_list_item(idx)?;
+        if ids.insert(pair.0) == false{
+            Err(format!("{} ID {} is used multiple times", line, pair.0))?
+        }
         result.push(pair);
     }
     return Ok(LinkedMap::construct(result, next_id));
-- 
2.43.0


From f0cc459ac202f193f437ead16800ec6717f82caf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:19:00 +0000
Subject: [PATCH 45/57] fix: the next id of a list is larger than the ids of
 its items

---
 .../src/imp/json_to_rust/list/list_attribute.rs  |  2 +-
 dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs  | 16 +++++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/dochy_core/src/imp/json_to_rust/list/list_attribute.rs b/dochy_core/src/imp/json_to_rust/list/list_attribute.rs
index f9d1dd3..dc1bb9d 100644
--- a/dochy_core/src/imp/json_to_rust/list/list_attribute.rs
+++ b/dochy_core/src/imp/json_to_rust/list/list_attribute.rs
@@ -38,7 +38,7 @@ pub(crate) fn list_attribute(array : &Vec<JVal>, span : &Span, names : &Names) -
                 "NextID" =>{
                     if array.len() == 2{
                         match array[1]{
-                            JVal::Int(n, _) =>{
+                            JVal::Int(n, _) if 0 <= n =>{
                                 return Ok(ListAttribute::NextID(n as u64))
                             }
                             _ =>{}
diff --git a/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs b/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs
index c810316..e9e6f7c 100644
--- a/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs
+++ b/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs
@@ -136,9 +136,7 @@ impl TmpList{
             Err(format!("{} Default must be defined {}", self.span.line_str(), self.span.slice()))?
         }
 
-        let next_id = self.next_id.unwrap_or(self.vec.len() as u64);
-
-        let items = to_mut_list_items(self.vec, next_id)?;
+        let items = to_mut_list_items(self.vec, self.next_id)?;
         //let compatible = self.compatible.unwrap_or_else(|| HashSt::new());
         let def = self.default.unwrap();
         Ok((MutListDef::new(def, undefiable), Some(MutListVal::new(items))))
@@ -155,9 +153,7 @@ impl TmpList{
             Err(format!("{} Default must not be defined {}", self.span.line_str(), self.span.slice()))?
         }
 
-        let next_id = self.next_id.unwrap_or(self.vec.len() as u64);
-
-        let items = to_mut_list_items(self.vec, next_id)?;
+        let items = to_mut_list_items(self.vec, self.next_id)?;
 
         Ok(MutListVal::new(items))
     }
@@ -222,8 +218,9 @@ fn to_data_items(vec : Vec<TmpObj>) -> CoreResult<HashM<String, ConstItem>>{
     return Ok(result);
 }
 
-fn to_mut_list_items(vec : Vec<TmpObj>, next_id : u64) -> CoreResult<LinkedMap<MutItem>>{
+fn to_mut_list_items(vec : Vec<TmpObj>, next_id : Option<u64>) -> CoreResult<LinkedMap<MutItem>>{
     let mut result : Vec<(u64, MutItem)> = Vec::with_capacity(vec.len());
+    let mut min_next_id : u64 = 0;
     let mut ids : HashS<u64> = HashSt::with_capacity(vec.len());
     for (idx, tmp_item) in vec.into_iter().enumerate(){
         let line = tmp_item.span.line_str();
@@ -231,7 +228,12 @@ fn to_mut_list_items(vec : Vec<TmpObj>, next_id : u64) -> CoreResult<LinkedMap<M
         if ids.insert(pair.0) == false{
             Err(format!("{} ID {} is used multiple times", line, pair.0))?
         }
+        min_next_id = min_next_id.max(pair.0 + 1);
         result.push(pair);
     }
+    let next_id = next_id.unwrap_or(min_next_id);
+    if next_id < min_next_id{
+        Err(format!("NextID {} must be larger than the IDs of the items", next_id))?
+    }
     return Ok(LinkedMap::construct(result, next_id));
 }
\ No newline at end of file
-- 
2.43.0


From 9f5e34c1e882f580fab48ae53f6999871afe8c78 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:19:00 +0000
Subject: [PATCH 46/57] fix: refuse ids that are not whole numbers

---
 dochy_core/src/imp/json_to_rust/get_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/json_to_rust/get_id.rs b/dochy_core/src/imp/json_to_rust/get_id.rs
index e889ed9..ac05cb8 100644
--- a/dochy_core/src/imp/json_to_rust/get_id.rs
+++ b/dochy_core/src/imp/json_to_rust/get_id.rs
@@ -5,7 +5,7 @@ pub(crate) fn get_id(v : &JVal) -> Option<IdValue> {
     match v {
         JVal::String(s, _) => Some(IdValue::Str(s.to_string())),
         JVal::Int(i, _) if 0 <= *i => Some(IdValue::Num(*i as u64)),
-        JVal::Double(d, _) => Some(IdValue::Num(*d as u64)),
+        JVal::Double(d, _) if 0.0 <= *d && d.fract() == 0.0 && *d < i64::MAX as f64 => Some(IdValue::Num(*d as u64)),
         _ => None
     }
 }
\ No newline at end of file
-- 
2.43.0


From 81d264bb7cc7ec2a6828c10e0b8f2662698a1212 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:19:00 +0000
Subject: [PATCH 47/57] fix: validation refuses null and undefined as defaults
 of members that can't have them

---
 .../src/imp/json_to_rust/validation/validate_list_def.rs   | 6 +++++-
 .../src/imp/json_to_rust/validation/validate_ref_def.rs    | 7 +++++++
 .../src/imp/json_to_rust/validation/validate_root.rs       | 3 +++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs b/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs
index 1451db3..6c6f8ce 100644
--- a/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs
+++ b/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs
@@ -35,7 +35,11 @@ pub(crate) fn validate_list_def(def : &ListDefObj, root : &RootObject, can_use_o
                 }
                 validate_list_def(d, root, can_use_old, is_mut,&names.append(name))?;
             },
-            ListDefValue::Param(_,_) => {},
+            ListDefValue::Param(p, vt) => {
+                if vt.acceptable(&p.qv_type()) == false{
+                    Err(format!("{} {} the default value can't be null or undefined", names, name))?
+                }
+            },
             //_ => { Err(format!("{} {} can't be defined here", names, name))? }
         }
     }
diff --git a/dochy_core/src/imp/json_to_rust/validation/validate_ref_def.rs b/dochy_core/src/imp/json_to_rust/validation/validate_ref_def.rs
index 056830d..ca9aeb4 100644
--- a/dochy_core/src/imp/json_to_rust/validation/validate_ref_def.rs
+++ b/dochy_core/src/imp/json_to_rust/validation/validate_ref_def.rs
@@ -14,6 +14,13 @@ pub(crate) fn validate_ref_def(def : &RefDefObj, names : &Names) -> CoreResult<(
             }
         }
     }
+    else {
+        for (name, _, v) in def.refs() {
+            if v.var_type().acceptable(&v.value().qv_type()) == false{
+                Err(format!("{} {} the default value can't be null or undefined", names, name))?
+            }
+        }
+    }
     if def.is_enum() {
         validate_old_ref_def(def.old(), def.refs(), &names.append("Enum"))?;
     } else {
diff --git a/dochy_core/src/imp/json_to_rust/validation/validate_root.rs b/dochy_core/src/imp/json_to_rust/validation/validate_root.rs
index 95eeecd..d9e93be 100644
--- a/dochy_core/src/imp/json_to_rust/validation/validate_root.rs
+++ b/dochy_core/src/imp/json_to_rust/validation/validate_root.rs
@@ -34,6 +34,9 @@ pub(crate) fn validate_root(root : &RootObject, can_use_old: bool) -> CoreResult
         //なのでここではOldは無視
         match val {
             RootValue::Param(p, vt) => {
+                if vt.acceptable(&p.qv_type()) == false{
+                    Err(format!("Root's member {} can't be null or undefined", name))?
+                }
                 if let Some(sab) = root.sabun().get(name) {
                     if let RootSabValue::Param(sab) = sab {
                         if p.acceptable(sab) == false || vt.acceptable(&sab.qv_type()) == false {
-- 
2.43.0


From c335f5ee59d22b5688d1a388d33abfcb1d9e6c43 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:19:00 +0000
Subject: [PATCH 48/57] fix: validation refuses default references to missing
 rows

---
 .../json_to_rust/validation/validate_list_def.rs   |  2 +-
 .../json_to_rust/validation/validate_ref_def.rs    | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs b/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs
index 6c6f8ce..bd4ad10 100644
--- a/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs
+++ b/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs
@@ -10,7 +10,7 @@ use crate::imp::structs::list_def_obj::ListDefObj;
 /// Itemについて調べるvalidate_list/data/mut_listとは違う
 /// is_mutの場合、InnerMutしか認めない
 pub(crate) fn validate_list_def(def : &ListDefObj, root : &RootObject, can_use_old : bool, is_mut : bool, names : &Names) -> CoreResult<()> {
-    validate_ref_def(def.refs(), names)?;
+    validate_ref_def(def.refs(), root, names)?;
     validate_old_list_def_mem(def.old(), def.default(), names)?;
 
     for (name,_, val) in def.default().iter() {
diff --git a/dochy_core/src/imp/json_to_rust/validation/validate_ref_def.rs b/dochy_core/src/imp/json_to_rust/validation/validate_ref_def.rs
index ca9aeb4..bb6e0e0 100644
--- a/dochy_core/src/imp/json_to_rust/validation/validate_ref_def.rs
+++ b/dochy_core/src/imp/json_to_rust/validation/validate_ref_def.rs
@@ -3,9 +3,11 @@ use crate::error::CoreResult;
 use crate::imp::json_to_rust::validation::validate_old_def_mem::validate_old_ref_def;
 use crate::imp::structs::ref_def_obj::RefDefObj;
 use crate::imp::structs::qv::Qv;
+use crate::imp::structs::root_obj::RootObject;
+use crate::imp::structs::root_value::RootValue;
 
 
-pub(crate) fn validate_ref_def(def : &RefDefObj, names : &Names) -> CoreResult<()> {
+pub(crate) fn validate_ref_def(def : &RefDefObj, root : &RootObject, names : &Names) -> CoreResult<()> {
     if def.is_enum() {
         for (_, _, v) in def.refs() {
             match v.value() {
@@ -19,6 +21,16 @@ pub(crate) fn validate_ref_def(def : &RefDefObj, names : &Names) -> CoreResult<(
             if v.var_type().acceptable(&v.value().qv_type()) == false{
                 Err(format!("{} {} the default value can't be null or undefined", names, name))?
             }
+            //an empty default means that every item has its own value
+            if let Qv::Val(id) = v.value(){
+                let found = match root.default().get(name){
+                    Some(RootValue::Table(t)) => t.list().contains_key(id),
+                    _ => false,
+                };
+                if found == false && id.is_empty() == false{
+                    Err(format!("{} {}'s {} was not found", names, name, id))?
+                }
+            }
         }
     }
     if def.is_enum() {
-- 
2.43.0


From 685f97d461796ec458ba739b8647772857bc1e71 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:25:58 +0000
Subject: [PATCH 49/57] fix: escape strings when a document is printed

---
 dochy_core/src/imp/structs/my_json.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/dochy_core/src/imp/structs/my_json.rs b/dochy_core/src/imp/structs/my_json.rs
index da60408..207e239 100644
--- a/dochy_core/src/imp/structs/my_json.rs
+++ b/dochy_core/src/imp/structs/my_json.rs
@@ -23,7 +23,7 @@ impl Value{
 fn write(value : &Value, s : &mut String, indent_level : usize){
     match value{
         Value::Bool(b) => s.push_str(&b.to_string()),
-        Value::String(val) => s.push_str(&format!(r#""{}""#, val)),
+        Value::String(val) => write_str(val, s),
         Value::Null => s.push_str("null"),
         Value::Undefined => s.push_str("undefined"),
         Value::Number(f) => s.push_str(&f.to_string()),
@@ -32,6 +32,22 @@ fn write(value : &Value, s : &mut String, indent_level : usize){
     }
 }
 
+fn write_str(val : &str, s : &mut String){
+    s.push('"');
+    for c in val.chars(){
+        match c{
+            '"' => s.push_str("\\\""),
+            '\\' => s.push_str("\\\\"),
+            '\n' => s.push_str("\\n"),
+            '\r' => s.push_str("\\r"),
+            '\t' => s.push_str("\\t"),
+            c if c.is_control() => s.push_str(&format!("\\u{:04x}", c as u32)),
+            c => s.push(c),
+        }
+    }
+    s.push('"');
+}
+
 fn write_array(array : &Vec<Value>, s : &mut String, indent_level : usize){
     if array.len() == 0{
         s.push_str("[]");
@@ -74,7 +90,9 @@ fn write_map(map : &BTreeMap<String, Value>, s : &mut String, indent_level : usi
         s.push_str("{}");
     } else if map.len() == 1 {
         for (k,v) in map{
-            s.push_str(&format!("{} \"{}\" : ","{", k));
+            s.push_str("{ ");
+            write_str(k, s);
+            s.push_str(" : ");
             write(v, s, indent_level);
             s.push_str(" }");
         }
@@ -82,7 +100,8 @@ fn write_map(map : &BTreeMap<String, Value>, s : &mut String, indent_level : usi
         s.push_str("{\n");
         for (k,v) in map{
             s.push_str(&indent_str(indent_level));
-            s.push_str(&format!("\"{}\" : ", k));
+            write_str(k, s);
+            s.push_str(" : ");
             write(v, s, indent_level);
             s.push_str(",\n");
         }
-- 
2.43.0


From b60923b01fe614c1cb76a99778753be0602b2182 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:25:58 +0000
Subject: [PATCH 50/57] fix: print large integers exactly

---
 dochy_core/src/imp/rust_to_json/get_param.rs             | 2 +-
 dochy_core/src/imp/rust_to_json/list/tmp_list_to_json.rs | 2 +-
 dochy_core/src/imp/rust_to_json/list/tmp_obj_to_json.rs  | 2 +-
 dochy_core/src/imp/structs/my_json.rs                    | 2 ++
 4 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/dochy_core/src/imp/rust_to_json/get_param.rs b/dochy_core/src/imp/rust_to_json/get_param.rs
index 077cbcc..3a5e64d 100644
--- a/dochy_core/src/imp/rust_to_json/get_param.rs
+++ b/dochy_core/src/imp/rust_to_json/get_param.rs
@@ -9,7 +9,7 @@ pub(crate) fn get_param(v : &RustParam) -> Value{
         RustParam::String(s) => to(s, "Str", |s| Value::String(s.str().to_string())),
         RustParam::Float(n)=> to(n, "Float",
                                  |n| Value::Array(vec![Value::String("Float".to_string()), Value::Number(*n)])),
-        RustParam::Int(n)=> to(n, "Int", |n| Value::Number(*n as f64)),
+        RustParam::Int(n)=> to(n, "Int", |n| Value::Int(*n)),
         _ =>{
             let (array, at) = v.to_rust_array().unwrap();
             rust_array_to_json(&array, &at)
diff --git a/dochy_core/src/imp/rust_to_json/list/tmp_list_to_json.rs b/dochy_core/src/imp/rust_to_json/list/tmp_list_to_json.rs
index 1e94ecc..620838b 100644
--- a/dochy_core/src/imp/rust_to_json/list/tmp_list_to_json.rs
+++ b/dochy_core/src/imp/rust_to_json/list/tmp_list_to_json.rs
@@ -20,7 +20,7 @@ pub(crate) fn rust_list_to_json(l : &TmpJsonList, list_type : ListType) -> Value
    if let Some(next_id) = l.next_id {
       result.push(Value::Array(vec![
          val_str("NextID"),
-         Value::Number(next_id as f64)
+         Value::Int(next_id as i64)
       ]));
    }
    //余計な情報は上に持ってきて、defaultとvecの距離を近づけよう
diff --git a/dochy_core/src/imp/rust_to_json/list/tmp_obj_to_json.rs b/dochy_core/src/imp/rust_to_json/list/tmp_obj_to_json.rs
index 689a94e..7059852 100644
--- a/dochy_core/src/imp/rust_to_json/list/tmp_obj_to_json.rs
+++ b/dochy_core/src/imp/rust_to_json/list/tmp_obj_to_json.rs
@@ -9,7 +9,7 @@ pub(crate) fn tmp_obj_to_json(obj : &TmpJsonObj) -> Value{
     let mut result = value_map_to_json(&obj.default);
     if let Some(id) = &obj.id{
         match id{
-            IdValue::Num(id) =>{ result.insert("ID".to_string(), Value::Number(*id as f64)); },
+            IdValue::Num(id) =>{ result.insert("ID".to_string(), Value::Int(*id as i64)); },
             IdValue::Str(s) =>{ result.insert("ID".to_string(), Value::String(s.to_string())); },
         }
     }
diff --git a/dochy_core/src/imp/structs/my_json.rs b/dochy_core/src/imp/structs/my_json.rs
index 207e239..d68238a 100644
--- a/dochy_core/src/imp/structs/my_json.rs
+++ b/dochy_core/src/imp/structs/my_json.rs
@@ -4,6 +4,7 @@ use std::collections::{BTreeMap};
 pub enum Value{
     Bool(bool),
     String(String),
+    Int(i64),
     Number(f64),
     Array(Vec<Value>),
     ///HashMapだと毎回順序が変わるみたいなので、一応alphabetical orderにしておこう
@@ -26,6 +27,7 @@ fn write(value : &Value, s : &mut String, indent_level : usize){
         Value::String(val) => write_str(val, s),
         Value::Null => s.push_str("null"),
         Value::Undefined => s.push_str("undefined"),
+        Value::Int(n) => s.push_str(&n.to_string()),
         Value::Number(f) => s.push_str(&f.to_string()),
         Value::Array(v) => write_array(v, s, indent_level + 1),
         Value::Map(obj) => write_map(obj, s, indent_level + 1),
-- 
2.43.0


From f550ac9519ddab9ae06064e47f673a72c00a6d21 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:25:58 +0000
Subject: [PATCH 51/57] fix: print floats so that they can be read back

---
 dochy_core/src/imp/structs/my_json.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/structs/my_json.rs b/dochy_core/src/imp/structs/my_json.rs
index d68238a..04c0556 100644
--- a/dochy_core/src/imp/structs/my_json.rs
+++ b/dochy_core/src/imp/structs/my_json.rs
@@ -28,12 +28,20 @@ fn write(value : &Value, s : &mut String, indent_level : usize){
         Value::Null => s.push_str("null"),
         Value::Undefined => s.push_str("undefined"),
         Value::Int(n) => s.push_str(&n.to_string()),
-        Value::Number(f) => s.push_str(&f.to_string()),
+        Value::Number(f) => write_number(*f, s),
         Value::Array(v) => write_array(v, s, indent_level + 1),
         Value::Map(obj) => write_map(obj, s, indent_level + 1),
     }
 }
 
+fn write_number(f : f64, s : &mut String){
+    if f.is_infinite(){
+        s.push_str(if f < 0.0 { "-Infinity" } else { "Infinity" });
+    } else {
+        s.push_str(&format!("{:?}", f));
+    }
+}
+
 fn write_str(val : &str, s : &mut String){
     s.push('"');
     for c in val.chars(){
-- 
2.43.0


From de6820fe9b70e19f1406cba1dd5aaaae42d010d2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:25:58 +0000
Subject: [PATCH 52/57] fix: print tables and constant lists

---
 dochy_core/src/imp/rust_to_json/root_to_json.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/rust_to_json/root_to_json.rs b/dochy_core/src/imp/rust_to_json/root_to_json.rs
index e0b4fd9..861be2e 100644
--- a/dochy_core/src/imp/rust_to_json/root_to_json.rs
+++ b/dochy_core/src/imp/rust_to_json/root_to_json.rs
@@ -30,8 +30,14 @@ pub fn root_to_json_new_default(obj : &RootObject) -> CoreResult<Value> {
                 result.insert(name, RustValue::Param(p, vt));
             }
         } else{
-            if let Some(sab) = sabun.remove(&name) {
-                result.insert(name, val.into_rust_value(sab)?);
+            match val{
+                RootValue::Table(t) =>{ result.insert(name, RustValue::Table(t)); },
+                RootValue::CList(l) =>{ result.insert(name, RustValue::CList(l)); },
+                val =>{
+                    if let Some(sab) = sabun.remove(&name) {
+                        result.insert(name, val.into_rust_value(sab)?);
+                    }
+                },
             }
         }
     }
-- 
2.43.0


From 2cf61581730f8daee66a7f81f321c7892ab5cb53 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:25:58 +0000
Subject: [PATCH 53/57] fix: print the next id of inner lists

---
 dochy_core/src/imp/rust_to_json/list/tmp_json_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/rust_to_json/list/tmp_json_list.rs b/dochy_core/src/imp/rust_to_json/list/tmp_json_list.rs
index 2da154f..3c1efcf 100644
--- a/dochy_core/src/imp/rust_to_json/list/tmp_json_list.rs
+++ b/dochy_core/src/imp/rust_to_json/list/tmp_json_list.rs
@@ -106,7 +106,7 @@ impl TmpJsonList{
 
     pub(crate) fn from_inner_mut(l : &MutListVal) -> TmpJsonList{
         TmpJsonList{ vec : l.list().iter().map(|(id, item)| TmpJsonObj::from_mut_list_item(item, *id)).collect(),
-            next_id: None, old : None, default : None }
+            next_id: Some(l.list().next_id()), old : None, default : None }
     }
 }
 
-- 
2.43.0


From daa8168235aa0c959720fcce6d3b544075c4736d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:34:45 +0000
Subject: [PATCH 54/57] fix: the hash of a source doesn't depend on where its
 directory is

---
 .../src/imp/read_archive_data_from_directory.rs      | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dochy_archiver2/src/imp/read_archive_data_from_directory.rs b/dochy_archiver2/src/imp/read_archive_data_from_directory.rs
index 34de3ba..e292bf1 100644
--- a/dochy_archiver2/src/imp/read_archive_data_from_directory.rs
+++ b/dochy_archiver2/src/imp/read_archive_data_from_directory.rs
@@ -10,17 +10,19 @@ pub fn read_archive_data_from_directory<
                         opt : &ArchiveOptions,
                         converter : impl Fn(&str, &[u8]) -> T + Send + Sync + 'static) -> ArcResult<ArchiveData<T>>{
     let mut btree : BTreeSet<String> = BTreeSet::new();
-    get_paths_from_dir(path, opt, &mut btree)?;
+    let dir = path.as_ref();
+    get_paths_from_dir(dir, dir, opt, &mut btree)?;
     let mut archiver = Archiver::new(converter);
     for path in btree {
-        let data = std::fs::read(&path)?;
+        let data = std::fs::read(dir.join(&path))?;
         archiver.archive(path, data);
     }
     let hoge = archiver.finish();
     return hoge;
 }
 
-fn get_paths_from_dir<P : AsRef<Path>>(current_path : P, opt : &ArchiveOptions, btree : &mut BTreeSet<String>) -> ArcResult<()>{
+///paths are relative to base, so the result doesn't depend on where the directory is
+fn get_paths_from_dir<P : AsRef<Path>>(base : &Path, current_path : P, opt : &ArchiveOptions, btree : &mut BTreeSet<String>) -> ArcResult<()>{
     let dirs = std::fs::read_dir(current_path)?;
 
     for dir in dirs {
@@ -31,11 +33,11 @@ fn get_paths_from_dir<P : AsRef<Path>>(current_path : P, opt : &ArchiveOptions,
             let path = de.path();
             let ext = path.extension().map_or("", |e| e.to_str().unwrap_or(""));
             if opt.is_archived(ext){
-                btree.insert(path.to_string_lossy().to_string());
+                btree.insert(path.strip_prefix(base).unwrap_or(&path).to_string_lossy().to_string());
             }
         } else if meta.is_dir(){
             if opt.archive_subfolders(){
-                get_paths_from_dir(de.path(), opt, btree)?;
+                get_paths_from_dir(base, de.path(), opt, btree)?;
             }
         }
     }
-- 
2.43.0


From 2c6409012c55f63eaf30e614b0b8590d0f90500a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:26:07 +0000
Subject: [PATCH 55/57] fix: the interface generated for a table without rows
 compiles

---
 dochy_intf/src/imp/structs/table_source.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dochy_intf/src/imp/structs/table_source.rs b/dochy_intf/src/imp/structs/table_source.rs
index fdfe5fa..afc7116 100644
--- a/dochy_intf/src/imp/structs/table_source.rs
+++ b/dochy_intf/src/imp/structs/table_source.rs
@@ -115,7 +115,9 @@ impl TableSource {
         sb.push(0, "}");
 
 
-        sb.append(&format!("#[repr(u64)] pub enum {}{{ ", &ids_type_name));
+        //an enum without variants can't have repr(u64), and a reference to it can't be matched
+        let (repr, this) = if self.keys.is_empty(){ ("", "*self") } else{ ("#[repr(u64)] ", "self") };
+        sb.append(&format!("{}pub enum {}{{ ", repr, &ids_type_name));
         for key in &self.keys{
             sb.append(&format!("{}, ", &key.enum_name()))
         }
@@ -140,7 +142,7 @@ impl TableSource {
         sb.push(1, "}");
         sb.push(1, &format!("pub fn len() -> usize{{ {} }}", self.keys.len()));
         sb.push(1, &format!("pub fn to_num(&self) -> usize{{"));
-        sb.push(2, &format!("match self{{"));
+        sb.push(2, &format!("match {}{{", this));
         for (i, key) in self.keys.iter().enumerate() {
             sb.push(3, &format!(r#"{}::{} => {},"#, &ids_type_name, &key.enum_name(), i));
         }
-- 
2.43.0


From d364019736f2b2b56d914602b1571139705f8e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:26:23 +0000
Subject: [PATCH 56/57] fix: a save directory opened with another source is
 refused

---
 dochy_fs/src/imp/filesys/save_cache_map.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dochy_fs/src/imp/filesys/save_cache_map.rs b/dochy_fs/src/imp/filesys/save_cache_map.rs
index 867bbb6..b19a10f 100644
--- a/dochy_fs/src/imp/filesys/save_cache_map.rs
+++ b/dochy_fs/src/imp/filesys/save_cache_map.rs
@@ -19,6 +19,9 @@ pub(crate) fn cache_and_get_info(save_dir : &Path,
     let mut map = MAP.lock().unwrap();
     if let Some(item) = map.get(save_dir){
         let (cache, _) = item.as_ref();
+        if cache.current_src() != &current_src{
+            Err(format!("Source alternation while running is not supported {:?}", save_dir))?
+        }
         return Ok(cache.clone_dir_info());
     }
     let info = create_save_dir_info(save_dir, current_src)?;
-- 
2.43.0


From 2d324558d17e3a9a1a58459692ebd1aff7705dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:26:29 +0000
Subject: [PATCH 57/57] fix: a source modified while running isn't stored as
 the source of saved files

---
 .../src/imp/common/path/prepare_hash_dir.rs   | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/dochy_fs/src/imp/common/path/prepare_hash_dir.rs b/dochy_fs/src/imp/common/path/prepare_hash_dir.rs
index 15d6467..709b980 100644
--- a/dochy_fs/src/imp/common/path/prepare_hash_dir.rs
+++ b/dochy_fs/src/imp/common/path/prepare_hash_dir.rs
@@ -1,3 +1,4 @@
+use std::io::Write;
 use std::path::{Path, PathBuf};
 use crate::common::CurrentSrc;
 use crate::error::FsResult;
@@ -9,14 +10,27 @@ use crate::imp::common::path::created_time_file::create_time_dat;
 use std::time::SystemTime;
 
 pub(crate) fn prepare_hash_dir(proj_dir: &Path, src : &CurrentSrc, hash : u128) -> FsResult<PathBuf>{
-    let hash_dir = get_or_make_hash_dir_path(proj_dir, hash)?;
-    let archive_path = hash_dir.join(ARCHIVE_DEFAULT_NAME);
-    if archive_path.exists() == false{
-        write_file(&archive_path, |file| src.create_archive(file))?;
+    let archive_path = hash_dir_path(proj_dir, hash).join(ARCHIVE_DEFAULT_NAME);
+    if archive_path.exists(){
+        return get_or_make_hash_dir_path(proj_dir, hash);
     }
+    let archive = create_archive(src, hash)?;
+    let hash_dir = get_or_make_hash_dir_path(proj_dir, hash)?;
+    write_file(&archive_path, |file| Ok(file.write_all(&archive)?))?;
     Ok(hash_dir)
 }
 
+/// The src could be modified after the hash was calculated
+fn create_archive(src : &CurrentSrc, hash : u128) -> FsResult<Vec<u8>>{
+    let mut archive : Vec<u8> = vec![];
+    src.create_archive(&mut archive)?;
+    let (_root, archive_hash) = dochy_core::read_archive_to_root_with_hash(&mut archive.as_slice(), false)?;
+    if archive_hash != hash{
+        Err(format!("The source was modified while running {:?}", src))?
+    }
+    Ok(archive)
+}
+
 fn get_or_make_hash_dir_path(proj_dir: &Path, hash : u128) -> FsResult<PathBuf> {
     let hash_dir_path = hash_dir_path(proj_dir, hash);
     if hash_dir_path.exists() {
-- 
2.43.0

