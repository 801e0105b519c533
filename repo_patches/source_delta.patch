From aca0bc06cbf6c24c1217f6108d080ac8a951ebd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 01/61] fix: interval tree insertion recolours the parent
 black, and IntervalTree manager keeps its end points consistent

The red-black insertion coloured the parent of the inserted node red when the
uncle is red, which breaks the tree's invariants and corrupts it (or loops)
when nodes are removed.
---
 include/fcl/broadphase/detail/interval_tree-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/broadphase/detail/interval_tree-inl.h b/include/fcl/broadphase/detail/interval_tree-inl.h
index 5c93cc4..6f6b712 100644
--- a/include/fcl/broadphase/detail/interval_tree-inl.h
+++ b/include/fcl/broadphase/detail/interval_tree-inl.h
@@ -217,8 +217,8 @@ IntervalTreeNode<S>* IntervalTree<S>::insert(SimpleInterval<S>* new_interval)
       y = x->parent->parent->right;
       if(y->red)
       {
-        x->parent->red = true;
-        y->red = true;
+        x->parent->red = false;
+        y->red = false;
         x->parent->parent->red = true;
         x = x->parent->parent;
       }
-- 
2.43.0


From 265ce52780d78d2431487a833c4c72356610f385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 02/61] fix: IntervalTreeCollisionManager end point
 bookkeeping, repeated pairs and distance termination

- unregisterObject() dropped the last two end points instead of those of the
  object, leaving dangling objects in the manager
- update(obj) did not update the upper end points and needed setup() before
- setup() leaked intervals
- manager-vs-manager queries visited each object twice
- distance queries for a flat box or with no improving object never ended
---
 .../broadphase/broadphase_interval_tree-inl.h | 82 ++++++++++++-------
 1 file changed, 54 insertions(+), 28 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index dcc4f6d..d2c8eb7 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -55,8 +55,10 @@ void IntervalTreeCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
   setup();
 
   EndPoint p;
+  p.minmax = 0;
   p.value = obj->getAABB().min_[0];
   auto start1 = std::lower_bound(endpoints[0].begin(), endpoints[0].end(), p);
+  p.minmax = 1;
   p.value = obj->getAABB().max_[0];
   auto end1 = std::upper_bound(start1, endpoints[0].end(), p);
 
@@ -78,11 +80,13 @@ void IntervalTreeCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
       }
     }
     if(cur_id < end_id)
-      endpoints[0].resize(endpoints[0].size() - 2);
+      endpoints[0].erase(endpoints[0].begin() + cur_id, endpoints[0].begin() + end_id);
   }
 
+  p.minmax = 0;
   p.value = obj->getAABB().min_[1];
   auto start2 = std::lower_bound(endpoints[1].begin(), endpoints[1].end(), p);
+  p.minmax = 1;
   p.value = obj->getAABB().max_[1];
   auto end2 = std::upper_bound(start2, endpoints[1].end(), p);
 
@@ -104,12 +108,14 @@ void IntervalTreeCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
       }
     }
     if(cur_id < end_id)
-      endpoints[1].resize(endpoints[1].size() - 2);
+      endpoints[1].erase(endpoints[1].begin() + cur_id, endpoints[1].begin() + end_id);
   }
 
 
+  p.minmax = 0;
   p.value = obj->getAABB().min_[2];
   auto start3 = std::lower_bound(endpoints[2].begin(), endpoints[2].end(), p);
+  p.minmax = 1;
   p.value = obj->getAABB().max_[2];
   auto end3 = std::upper_bound(start3, endpoints[2].end(), p);
 
@@ -131,7 +137,7 @@ void IntervalTreeCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
       }
     }
     if(cur_id < end_id)
-      endpoints[2].resize(endpoints[2].size() - 2);
+      endpoints[2].erase(endpoints[2].begin() + cur_id, endpoints[2].begin() + end_id);
   }
 
   // update the interval tree
@@ -213,6 +219,16 @@ void IntervalTreeCollisionManager<S>::setup()
     for(int i = 0; i < 3; ++i)
       interval_trees[i] = new detail::IntervalTree<S>;
 
+    for(int i = 0; i < 3; ++i)
+    {
+      for(auto it = obj_interval_maps[i].cbegin(), end = obj_interval_maps[i].cend();
+          it != end; ++it)
+      {
+        delete it->second;
+      }
+      obj_interval_maps[i].clear();
+    }
+
     for(unsigned int i = 0, size = endpoints[0].size(); i < size; ++i)
     {
       EndPoint p = endpoints[0][i];
@@ -275,43 +291,25 @@ void IntervalTreeCollisionManager<S>::update()
 template <typename S>
 void IntervalTreeCollisionManager<S>::update(CollisionObject<S>* updated_obj)
 {
-  AABB<S> old_aabb;
+  // the interval trees must have been built before
+  setup();
+
   const AABB<S>& new_aabb = updated_obj->getAABB();
   for(int i = 0; i < 3; ++i)
   {
     const auto it = obj_interval_maps[i].find(updated_obj);
     interval_trees[i]->deleteNode(it->second);
-    old_aabb.min_[i] = it->second->low;
-    old_aabb.max_[i] = it->second->high;
     it->second->low = new_aabb.min_[i];
     it->second->high = new_aabb.max_[i];
     interval_trees[i]->insert(it->second);
   }
 
-  EndPoint dummy;
-  typename std::vector<EndPoint>::iterator it;
   for(int i = 0; i < 3; ++i)
   {
-    dummy.value = old_aabb.min_[i];
-    it = std::lower_bound(endpoints[i].begin(), endpoints[i].end(), dummy);
-    for(; it != endpoints[i].end(); ++it)
+    for(auto it = endpoints[i].begin(); it != endpoints[i].end(); ++it)
     {
-      if(it->obj == updated_obj && it->minmax == 0)
-      {
-        it->value = new_aabb.min_[i];
-        break;
-      }
-    }
-
-    dummy.value = old_aabb.max_[i];
-    it = std::lower_bound(endpoints[i].begin(), endpoints[i].end(), dummy);
-    for(; it != endpoints[i].end(); ++it)
-    {
-      if(it->obj == updated_obj && it->minmax == 0)
-      {
-        it->value = new_aabb.max_[i];
-        break;
-      }
+      if(it->obj == updated_obj)
+        it->value = (it->minmax == 0) ? new_aabb.min_[i] : new_aabb.max_[i];
     }
 
     std::sort(endpoints[i].begin(), endpoints[i].end());
@@ -430,6 +428,11 @@ bool IntervalTreeCollisionManager<S>::distance_(CollisionObject<S>* obj, void* c
   static const unsigned int CUTOFF = 100;
 
   Vector3<S> delta = (obj->getAABB().max_ - obj->getAABB().min_) * 0.5;
+  // a flat AABB has to be able to grow as well
+  for(int i = 0; i < 3; ++i)
+  {
+    if(!(delta[i] > 0)) delta[i] = 1;
+  }
   AABB<S> aabb = obj->getAABB();
   if(min_dist < std::numeric_limits<S>::max())
   {
@@ -479,6 +482,11 @@ bool IntervalTreeCollisionManager<S>::distance_(CollisionObject<S>* obj, void* c
 
     if(dist_res) return true;
 
+    // whether the search range already covers all the objects
+    const bool all_checked = results0.size() >= size() &&
+        (results0.size() <= CUTOFF || results1.size() >= size()) &&
+        (results0.size() <= CUTOFF || results1.size() <= CUTOFF || results2.size() >= size());
+
     results0.clear();
     results1.clear();
     results2.clear();
@@ -495,6 +503,8 @@ bool IntervalTreeCollisionManager<S>::distance_(CollisionObject<S>* obj, void* c
           aabb = AABB<S>(obj->getAABB(), min_dist_delta);
           status = 0;
         }
+        else if(all_checked)
+          break;
         else
         {
           if(aabb.equal(obj->getAABB()))
@@ -604,12 +614,18 @@ void IntervalTreeCollisionManager<S>::collide(BroadPhaseCollisionManager<S>* oth
   if(this->size() < other_manager->size())
   {
     for(size_t i = 0, size = endpoints[0].size(); i < size; ++i)
+    {
+      if(endpoints[0][i].minmax != 0) continue; // each object only once
       if(other_manager->collide_(endpoints[0][i].obj, cdata, callback)) return;
+    }
   }
   else
   {
     for(size_t i = 0, size = other_manager->endpoints[0].size(); i < size; ++i)
+    {
+      if(other_manager->endpoints[0][i].minmax != 0) continue; // each object only once
       if(collide_(other_manager->endpoints[0][i].obj, cdata, callback)) return;
+    }
   }
 }
 
@@ -632,12 +648,18 @@ void IntervalTreeCollisionManager<S>::distance(BroadPhaseCollisionManager<S>* ot
   if(this->size() < other_manager->size())
   {
     for(size_t i = 0, size = endpoints[0].size(); i < size; ++i)
+    {
+      if(endpoints[0][i].minmax != 0) continue; // each object only once
       if(other_manager->distance_(endpoints[0][i].obj, cdata, callback, min_dist)) return;
+    }
   }
   else
   {
     for(size_t i = 0, size = other_manager->endpoints[0].size(); i < size; ++i)
+    {
+      if(other_manager->endpoints[0][i].minmax != 0) continue; // each object only once
       if(distance_(other_manager->endpoints[0][i].obj, cdata, callback, min_dist)) return;
+    }
   }
 }
 
@@ -731,7 +753,11 @@ template <typename S>
 bool IntervalTreeCollisionManager<S>::EndPoint::operator<(
     const typename IntervalTreeCollisionManager<S>::EndPoint& p) const
 {
-  return value < p.value;
+  if(value != p.value) return value < p.value;
+
+  // closed intervals: for equal values a lower end point comes first, such that
+  // touching intervals and flat AABBs are handled correctly
+  return minmax < p.minmax;
 }
 
 //==============================================================================
-- 
2.43.0


From 8bd95f50bb665b7cdff120f1e0c8e7d5581db89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 03/61] fix: SSaPCollisionManager distance query of a flat box
 or without any improving object never ended

---
 include/fcl/broadphase/broadphase_SSaP-inl.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/fcl/broadphase/broadphase_SSaP-inl.h b/include/fcl/broadphase/broadphase_SSaP-inl.h
index ad859ea..cc9f210 100644
--- a/include/fcl/broadphase/broadphase_SSaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SSaP-inl.h
@@ -314,6 +314,11 @@ bool SSaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, Di
 {
   static const unsigned int CUTOFF = 100;
   Vector3<S> delta = (obj->getAABB().max_ - obj->getAABB().min_) * 0.5;
+  // a flat AABB has to be able to grow as well
+  for(int i = 0; i < 3; ++i)
+  {
+    if(!(delta[i] > 0)) delta[i] = 1;
+  }
   Vector3<S> dummy_vector = obj->getAABB().max_;
   if(min_dist < std::numeric_limits<S>::max())
     dummy_vector += Vector3<S>(min_dist, min_dist, min_dist);
@@ -386,6 +391,8 @@ bool SSaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, Di
           dummy_vector = obj->getAABB().max_ + Vector3<S>(min_dist, min_dist, min_dist);
           status = 0;
         }
+        else if(pos_end1 == objs_x.end() && pos_end2 == objs_y.end() && pos_end3 == objs_z.end())
+          break; // all the objects have been checked
         else // need more loop
         {
           if(dummy_vector.isApprox(obj->getAABB().max_, std::numeric_limits<S>::epsilon() * 100))
-- 
2.43.0


From e93b73205854e98d15b43ec80e8cf2827828f7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 04/61] fix: SaPCollisionManager sorted lists and overlap pairs

- unregisterObject() used freed memory, left the end point index stale, and
  broke for objects that are not registered
- registerObject(s)/update mishandled ties, enclosing boxes and boxes growing or
  shrinking, so overlapping pairs were missed, repeated or left behind
- empty() was inverted
- distance queries of flat boxes never ended
---
 include/fcl/broadphase/broadphase_SaP-inl.h | 273 +++++++++-----------
 include/fcl/broadphase/broadphase_SaP.h     |   9 +
 2 files changed, 137 insertions(+), 145 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index 7d201c7..e683585 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -58,14 +58,13 @@ void SaPCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
       break;
   }
 
-  AABB_arr.erase(it);
-  obj_aabb_map.erase(obj);
-
   if(it == AABB_arr.end())
     return;
 
   SaPAABB* curr = *it;
-  *it = nullptr;
+
+  AABB_arr.erase(it);
+  obj_aabb_map.erase(obj);
 
   for(int coord = 0; coord < 3; ++coord)
   {
@@ -92,8 +91,10 @@ void SaPCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
   delete curr;
 
   overlap_pairs.remove_if(isUnregistered(obj));
+
+  updateVelist();
 }
-\
+
 //==============================================================================
 template <typename S>
 SaPCollisionManager<S>::SaPCollisionManager()
@@ -145,10 +146,16 @@ void SaPCollisionManager<S>::registerObjects(const std::vector<CollisionObject<S
     S scale[3];
     for(size_t coord = 0; coord < 3; ++coord)
     {
+      // closed intervals: for equal values a lower end point comes first, such
+      // that touching intervals and flat AABBs are handled correctly
       std::sort(endpoints.begin(), endpoints.end(),
-                std::bind(std::less<S>(),
-                            std::bind(static_cast<S (EndPoint::*)(size_t) const >(&EndPoint::getVal), std::placeholders::_1, coord),
-                            std::bind(static_cast<S (EndPoint::*)(size_t) const >(&EndPoint::getVal), std::placeholders::_2, coord)));
+                [coord](const EndPoint* a, const EndPoint* b)
+                {
+                  const S a_val = a->getVal(coord);
+                  const S b_val = b->getVal(coord);
+                  if(a_val != b_val) return a_val < b_val;
+                  return a->minmax < b->minmax;
+                });
 
       endpoints[0]->prev[coord] = nullptr;
       endpoints[0]->next[coord] = endpoints[1];
@@ -258,24 +265,10 @@ void SaPCollisionManager<S>::registerObject(CollisionObject<S>* obj)
     EndPoint* curr_hi = curr->hi;
     S curr_hi_val = curr_hi->getVal()[coord];
 
-    if(coord == 0)
-    {
-      while((current->getVal()[coord] < curr_hi_val) && (current->next[coord] != nullptr))
-      {
-        if(current != curr->lo)
-          if(current->aabb->cached.overlap(curr->cached))
-            overlap_pairs.emplace_back(current->aabb->obj, obj);
-
-        current = current->next[coord];
-      }
-    }
-    else
-    {
-      while((current->getVal()[coord] < curr_hi_val) && (current->next[coord] != nullptr))
-        current = current->next[coord];
-    }
+    while((current->getVal()[coord] <= curr_hi_val) && (current->next[coord] != nullptr))
+      current = current->next[coord];
 
-    if(current->getVal()[coord] >= curr_hi_val)
+    if(current->getVal()[coord] > curr_hi_val)
     {
       curr_hi->prev[coord] = current->prev[coord];
       curr_hi->next[coord] = current;
@@ -294,6 +287,13 @@ void SaPCollisionManager<S>::registerObject(CollisionObject<S>* obj)
     }
   }
 
+  // every interval overlapping with the new one starts before the new one ends
+  for(EndPoint* pos = elist[0]; pos != curr->hi; pos = pos->next[0])
+  {
+    if((pos->minmax == 0) && (pos->aabb != curr) && pos->aabb->cached.overlap(curr->cached))
+      overlap_pairs.emplace_back(pos->aabb->obj, obj);
+  }
+
   AABB_arr.push_back(curr);
 
   obj_aabb_map[obj] = curr;
@@ -326,139 +326,115 @@ void SaPCollisionManager<S>::update_(SaPAABB* updated_aabb)
 
   SaPAABB* current = updated_aabb;
 
-  Vector3<S> new_min = current->obj->getAABB().min_;
-  Vector3<S> new_max = current->obj->getAABB().max_;
-
-  SaPAABB dummy;
-  dummy.cached = current->obj->getAABB();
+  const AABB<S> new_aabb = current->obj->getAABB();
 
   for(int coord = 0; coord < 3; ++coord)
   {
-    int direction; // -1 reverse, 0 nochange, 1 forward
-    EndPoint* temp;
-
-    if(current->lo->getVal(coord) > new_min[coord])
-      direction = -1;
-    else if(current->lo->getVal(coord) < new_min[coord])
-      direction = 1;
-    else direction = 0;
-
-    if(direction == -1)
+    const S new_min = new_aabb.min_[coord];
+    const S new_max = new_aabb.max_[coord];
+
+    // The two end points move independently of each other since the size of the
+    // AABB may change as well. The interval first grows and then shrinks, such
+    // that the lower end point never passes the upper one.
+    EndPoint* lo = current->lo;
+    EndPoint* hi = current->hi;
+    EndPoint* pos;
+
+    // lower end point moves backward, to before all the end points >= new_min
+    pos = lo;
+    while((pos->prev[coord] != nullptr) && (pos->prev[coord]->getVal(coord) >= new_min))
     {
-      //first update the "lo" endpoint of the interval
-      if(current->lo->prev[coord] != nullptr)
-      {
-        temp = current->lo;
-        while((temp != nullptr) && (temp->getVal(coord) > new_min[coord]))
-        {
-          if(temp->minmax == 1)
-            if(temp->aabb->cached.overlap(dummy.cached))
-              addToOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
-          temp = temp->prev[coord];
-        }
-
-        if(temp == nullptr)
-        {
-          current->lo->prev[coord]->next[coord] = current->lo->next[coord];
-          current->lo->next[coord]->prev[coord] = current->lo->prev[coord];
-          current->lo->prev[coord] = nullptr;
-          current->lo->next[coord] = elist[coord];
-          elist[coord]->prev[coord] = current->lo;
-          elist[coord] = current->lo;
-        }
-        else
-        {
-          current->lo->prev[coord]->next[coord] = current->lo->next[coord];
-          current->lo->next[coord]->prev[coord] = current->lo->prev[coord];
-          current->lo->prev[coord] = temp;
-          current->lo->next[coord] = temp->next[coord];
-          temp->next[coord]->prev[coord] = current->lo;
-          temp->next[coord] = current->lo;
-        }
-      }
-
-      current->lo->getVal(coord) = new_min[coord];
+      pos = pos->prev[coord];
+      if((pos->minmax == 1) && pos->aabb->cached.overlap(new_aabb))
+        addToOverlapPairs(SaPPair(pos->aabb->obj, current->obj));
+    }
+    if(pos != lo)
+    {
+      unlink(lo, coord);
+      linkBefore(lo, pos, coord);
+    }
 
-      // update hi end point
-      temp = current->hi;
-      while(temp->getVal(coord) > new_max[coord])
-      {
-        if((temp->minmax == 0) && (temp->aabb->cached.overlap(current->cached)))
-          removeFromOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
-        temp = temp->prev[coord];
-      }
+    // upper end point moves forward, to after all the end points <= new_max
+    pos = hi;
+    while((pos->next[coord] != nullptr) && (pos->next[coord]->getVal(coord) <= new_max))
+    {
+      pos = pos->next[coord];
+      if((pos->minmax == 0) && pos->aabb->cached.overlap(new_aabb))
+        addToOverlapPairs(SaPPair(pos->aabb->obj, current->obj));
+    }
+    if(pos != hi)
+    {
+      unlink(hi, coord);
+      linkAfter(hi, pos, coord);
+    }
 
-      current->hi->prev[coord]->next[coord] = current->hi->next[coord];
-      if(current->hi->next[coord] != nullptr)
-        current->hi->next[coord]->prev[coord] = current->hi->prev[coord];
-      current->hi->prev[coord] = temp;
-      current->hi->next[coord] = temp->next[coord];
-      if(temp->next[coord] != nullptr)
-        temp->next[coord]->prev[coord] = current->hi;
-      temp->next[coord] = current->hi;
+    // lower end point moves forward, to after all the end points < new_min
+    pos = lo;
+    while((pos->next[coord] != hi) && (pos->next[coord]->getVal(coord) < new_min))
+    {
+      pos = pos->next[coord];
+      if((pos->minmax == 1) && pos->aabb->cached.overlap(current->cached))
+        removeFromOverlapPairs(SaPPair(pos->aabb->obj, current->obj));
+    }
+    if(pos != lo)
+    {
+      unlink(lo, coord);
+      linkAfter(lo, pos, coord);
+    }
 
-      current->hi->getVal(coord) = new_max[coord];
+    // upper end point moves backward, to before all the end points > new_max
+    pos = hi;
+    while((pos->prev[coord] != lo) && (pos->prev[coord]->getVal(coord) > new_max))
+    {
+      pos = pos->prev[coord];
+      if((pos->minmax == 0) && pos->aabb->cached.overlap(current->cached))
+        removeFromOverlapPairs(SaPPair(pos->aabb->obj, current->obj));
     }
-    else if(direction == 1)
+    if(pos != hi)
     {
-      //here, we first update the "hi" endpoint.
-      if(current->hi->next[coord] != nullptr)
-      {
-        temp = current->hi;
-        while((temp->next[coord] != nullptr) && (temp->getVal(coord) < new_max[coord]))
-        {
-          if(temp->minmax == 0)
-            if(temp->aabb->cached.overlap(dummy.cached))
-              addToOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
-          temp = temp->next[coord];
-        }
+      unlink(hi, coord);
+      linkBefore(hi, pos, coord);
+    }
+  }
 
-        if(temp->getVal(coord) < new_max[coord])
-        {
-          current->hi->prev[coord]->next[coord] = current->hi->next[coord];
-          current->hi->next[coord]->prev[coord] = current->hi->prev[coord];
-          current->hi->prev[coord] = temp;
-          current->hi->next[coord] = nullptr;
-          temp->next[coord] = current->hi;
-        }
-        else
-        {
-          current->hi->prev[coord]->next[coord] = current->hi->next[coord];
-          current->hi->next[coord]->prev[coord] = current->hi->prev[coord];
-          current->hi->prev[coord] = temp->prev[coord];
-          current->hi->next[coord] = temp;
-          temp->prev[coord]->next[coord] = current->hi;
-          temp->prev[coord] = current->hi;
-        }
-      }
+  current->cached = new_aabb;
+}
 
-      current->hi->getVal(coord) = new_max[coord];
+//==============================================================================
+template <typename S>
+void SaPCollisionManager<S>::unlink(EndPoint* point, int coord)
+{
+  if(point->prev[coord] != nullptr)
+    point->prev[coord]->next[coord] = point->next[coord];
+  else
+    elist[coord] = point->next[coord];
 
-      //then, update the "lo" endpoint of the interval.
-      temp = current->lo;
+  if(point->next[coord] != nullptr)
+    point->next[coord]->prev[coord] = point->prev[coord];
+}
 
-      while(temp->getVal(coord) < new_min[coord])
-      {
-        if((temp->minmax == 1) && (temp->aabb->cached.overlap(current->cached)))
-          removeFromOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
-        temp = temp->next[coord];
-      }
+//==============================================================================
+template <typename S>
+void SaPCollisionManager<S>::linkBefore(EndPoint* point, EndPoint* pos, int coord)
+{
+  point->prev[coord] = pos->prev[coord];
+  point->next[coord] = pos;
+  if(pos->prev[coord] != nullptr)
+    pos->prev[coord]->next[coord] = point;
+  else
+    elist[coord] = point;
+  pos->prev[coord] = point;
+}
 
-      if(current->lo->prev[coord] != nullptr)
-        current->lo->prev[coord]->next[coord] = current->lo->next[coord];
-      else
-        elist[coord] = current->lo->next[coord];
-      current->lo->next[coord]->prev[coord] = current->lo->prev[coord];
-      current->lo->prev[coord] = temp->prev[coord];
-      current->lo->next[coord] = temp;
-      if(temp->prev[coord] != nullptr)
-        temp->prev[coord]->next[coord] = current->lo;
-      else
-        elist[coord] = current->lo;
-      temp->prev[coord] = current->lo;
-      current->lo->getVal(coord) = new_min[coord];
-    }
-  }
+//==============================================================================
+template <typename S>
+void SaPCollisionManager<S>::linkAfter(EndPoint* point, EndPoint* pos, int coord)
+{
+  point->prev[coord] = pos;
+  point->next[coord] = pos->next[coord];
+  if(pos->next[coord] != nullptr)
+    pos->next[coord]->prev[coord] = point;
+  pos->next[coord] = point;
 }
 
 //==============================================================================
@@ -651,6 +627,11 @@ template <typename S>
 bool SaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist) const
 {
   Vector3<S> delta = (obj->getAABB().max_ - obj->getAABB().min_) * 0.5;
+  // a flat AABB has to be able to grow as well
+  for(int i = 0; i < 3; ++i)
+  {
+    if(!(delta[i] > 0)) delta[i] = 1;
+  }
   AABB<S> aabb = obj->getAABB();
 
   if(min_dist < std::numeric_limits<S>::max())
@@ -738,6 +719,8 @@ bool SaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, Dis
           aabb = AABB<S>(obj->getAABB(), min_dist_delta);
           status = 0;
         }
+        else if(end_pos == nullptr && min_val <= start_pos->getVal(axis))
+          break; // all the objects have been checked
         else
         {
           if(aabb.equal(obj->getAABB()))
@@ -872,7 +855,7 @@ void SaPCollisionManager<S>::distance(BroadPhaseCollisionManager<S>* other_manag
 template <typename S>
 bool SaPCollisionManager<S>::empty() const
 {
-  return AABB_arr.size();
+  return AABB_arr.empty();
 }
 
 //==============================================================================
diff --git a/include/fcl/broadphase/broadphase_SaP.h b/include/fcl/broadphase/broadphase_SaP.h
index 8a6b611..f0d7a11 100644
--- a/include/fcl/broadphase/broadphase_SaP.h
+++ b/include/fcl/broadphase/broadphase_SaP.h
@@ -126,6 +126,15 @@ protected:
 
   void update_(SaPAABB* updated_aabb);
 
+  /// @brief Take an end point out of the end point list of one coordinate
+  void unlink(EndPoint* point, int coord);
+
+  /// @brief Insert an end point before another one in the list of one coordinate
+  void linkBefore(EndPoint* point, EndPoint* pos, int coord);
+
+  /// @brief Insert an end point after another one in the list of one coordinate
+  void linkAfter(EndPoint* point, EndPoint* pos, int coord);
+
   void updateVelist();
 
   /// @brief End point list for x, y, z coordinates
-- 
2.43.0


From 0b1be86ba36d585c765fea178dafa607f14fe239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 05/61] fix: SpatialHash cells are closed, clear() forgets
 partially penetrating objects, distance queries end

---
 include/fcl/broadphase/broadphase_spatialhash-inl.h | 12 +++++++++++-
 include/fcl/broadphase/detail/spatial_hash-inl.h    |  7 ++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_spatialhash-inl.h b/include/fcl/broadphase/broadphase_spatialhash-inl.h
index 12551ce..8203dac 100644
--- a/include/fcl/broadphase/broadphase_spatialhash-inl.h
+++ b/include/fcl/broadphase/broadphase_spatialhash-inl.h
@@ -284,6 +284,7 @@ void SpatialHashingCollisionManager<S, HashTable>::clear()
 {
   objs.clear();
   hash_table->clear();
+  objs_partially_penetrating_scene_limit.clear();
   objs_outside_scene_limit.clear();
   obj_aabb_map.clear();
 }
@@ -374,7 +375,12 @@ template<typename S, typename HashTable>
 bool SpatialHashingCollisionManager<S, HashTable>::distance_(
     CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist) const
 {
-  auto delta = (obj->getAABB().max_ - obj->getAABB().min_) * 0.5;
+  Vector3<S> delta = (obj->getAABB().max_ - obj->getAABB().min_) * 0.5;
+  // a flat AABB has to be able to grow as well
+  for(int i = 0; i < 3; ++i)
+  {
+    if(!(delta[i] > 0)) delta[i] = 1;
+  }
   auto aabb = obj->getAABB();
   if(min_dist < std::numeric_limits<S>::max())
   {
@@ -437,6 +443,10 @@ bool SpatialHashingCollisionManager<S, HashTable>::distance_(
           aabb = AABB<S>(obj->getAABB(), min_dist_delta);
           status = 0;
         }
+        else if(aabb.contain(scene_limit) && !scene_limit.contain(aabb))
+        {
+          break; // all the objects have been checked
+        }
         else
         {
           if(aabb.equal(obj->getAABB()))
diff --git a/include/fcl/broadphase/detail/spatial_hash-inl.h b/include/fcl/broadphase/detail/spatial_hash-inl.h
index 1d4985f..16eb96b 100644
--- a/include/fcl/broadphase/detail/spatial_hash-inl.h
+++ b/include/fcl/broadphase/detail/spatial_hash-inl.h
@@ -61,12 +61,13 @@ SpatialHash<S>::SpatialHash(const AABB<S>& scene_limit_, S cell_size_)
 template <typename S>
 std::vector<unsigned int> SpatialHash<S>::operator()(const AABB<S>& aabb) const
 {
+  // AABBs are closed: the cell starting at the upper bound is covered as well
   int min_x = std::floor((aabb.min_[0] - scene_limit.min_[0]) / cell_size);
-  int max_x = std::ceil((aabb.max_[0] - scene_limit.min_[0]) / cell_size);
+  int max_x = std::floor((aabb.max_[0] - scene_limit.min_[0]) / cell_size) + 1;
   int min_y = std::floor((aabb.min_[1] - scene_limit.min_[1]) / cell_size);
-  int max_y = std::ceil((aabb.max_[1] - scene_limit.min_[1]) / cell_size);
+  int max_y = std::floor((aabb.max_[1] - scene_limit.min_[1]) / cell_size) + 1;
   int min_z = std::floor((aabb.min_[2] - scene_limit.min_[2]) / cell_size);
-  int max_z = std::ceil((aabb.max_[2] - scene_limit.min_[2]) / cell_size);
+  int max_z = std::floor((aabb.max_[2] - scene_limit.min_[2]) / cell_size) + 1;
 
   std::vector<unsigned int> keys((max_x - min_x) * (max_y - min_y) * (max_z - min_z));
   int id = 0;
-- 
2.43.0


From 733366389027e0fa465f13ea163244c518ba30bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 06/61] fix: dynamic AABB tree managers queried against
 themselves report each pair once

and the array version rebuilds its object table after a top-down rebalance.
---
 .../broadphase_dynamic_AABB_tree-inl.h        | 14 +++++++++++++
 .../broadphase_dynamic_AABB_tree_array-inl.h  | 21 +++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
index 1a7341b..937347d 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
@@ -969,6 +969,13 @@ void DynamicAABBTreeCollisionManager<S>::collide(BroadPhaseCollisionManager<S>*
 {
   DynamicAABBTreeCollisionManager* other_manager = static_cast<DynamicAABBTreeCollisionManager*>(other_manager_);
   if((size() == 0) || (other_manager->size() == 0)) return;
+
+  if(this == other_manager)
+  {
+    collide(cdata, callback);
+    return;
+  }
+
   detail::dynamic_AABB_tree::collisionRecurse(dtree.getRoot(), other_manager->dtree.getRoot(), cdata, callback);
 }
 
@@ -979,6 +986,13 @@ void DynamicAABBTreeCollisionManager<S>::distance(BroadPhaseCollisionManager<S>*
 {
   DynamicAABBTreeCollisionManager* other_manager = static_cast<DynamicAABBTreeCollisionManager*>(other_manager_);
   if((size() == 0) || (other_manager->size() == 0)) return;
+
+  if(this == other_manager)
+  {
+    distance(cdata, callback);
+    return;
+  }
+
   S min_dist = std::numeric_limits<S>::max();
   detail::dynamic_AABB_tree::distanceRecurse(dtree.getRoot(), other_manager->dtree.getRoot(), cdata, callback, min_dist);
 }
diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
index 3cec23c..44a6c2d 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
@@ -818,8 +818,15 @@ void DynamicAABBTreeCollisionManager_Array<S>::setup()
     if(height - std::log((S)num) / std::log(2.0) < max_tree_nonbalanced_level)
       dtree.balanceIncremental(tree_incremental_balance_pass);
     else
+    {
       dtree.balanceTopdown();
 
+      // the leaves have been moved to the first nodes of the array
+      const DynamicAABBNode* nodes = dtree.getNodes();
+      for(int i = 0; i < num; ++i)
+        table[static_cast<CollisionObject<S>*>(nodes[i].data)] = i;
+    }
+
     setup_ = true;
   }
 }
@@ -973,6 +980,13 @@ void DynamicAABBTreeCollisionManager_Array<S>::collide(BroadPhaseCollisionManage
 {
   DynamicAABBTreeCollisionManager_Array* other_manager = static_cast<DynamicAABBTreeCollisionManager_Array*>(other_manager_);
   if((size() == 0) || (other_manager->size() == 0)) return;
+
+  if(this == other_manager)
+  {
+    collide(cdata, callback);
+    return;
+  }
+
   detail::dynamic_AABB_tree_array::collisionRecurse(dtree.getNodes(), dtree.getRoot(), other_manager->dtree.getNodes(), other_manager->dtree.getRoot(), cdata, callback);
 }
 
@@ -983,6 +997,13 @@ void DynamicAABBTreeCollisionManager_Array<S>::distance(BroadPhaseCollisionManag
 {
   DynamicAABBTreeCollisionManager_Array* other_manager = static_cast<DynamicAABBTreeCollisionManager_Array*>(other_manager_);
   if((size() == 0) || (other_manager->size() == 0)) return;
+
+  if(this == other_manager)
+  {
+    distance(cdata, callback);
+    return;
+  }
+
   S min_dist = std::numeric_limits<S>::max();
   detail::dynamic_AABB_tree_array::distanceRecurse(dtree.getNodes(), dtree.getRoot(), other_manager->dtree.getNodes(), other_manager->dtree.getRoot(), cdata, callback, min_dist);
 }
-- 
2.43.0


From ca17c40d155cb64dc1935021b8cbd9056955186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 07/61] fix: hierarchy tree array reallocation, single-leaf
 update, degenerate split, leaks

- createNode() read bounding volumes from an array it had just reallocated
- update of the only leaf lost the tree
- topdown split recursed forever when the centers coincide
- getMaxDepth() started from an uninitialised value
---
 .../broadphase/detail/hierarchy_tree-inl.h    |  6 +++++-
 .../detail/hierarchy_tree_array-inl.h         | 20 +++++++++++++------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree-inl.h b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
index 1438eb9..5be69f3 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
@@ -226,7 +226,7 @@ size_t HierarchyTree<BV>::getMaxDepth() const
 {
   if(!root_node) return 0;
 
-  size_t max_depth;
+  size_t max_depth = 0;
   getMaxDepth(root_node, 0, max_depth);
   return max_depth;
 }
@@ -514,6 +514,10 @@ typename HierarchyTree<BV>::NodeType* HierarchyTree<BV>::topdown_1(const NodeVec
         }
       }
 
+      // All the centers may fall on the same side (e.g., when they coincide).
+      if(lcenter == lbeg || lcenter == lend)
+        lcenter = lbeg + num_leaves / 2;
+
       NodeType* node = createNode(nullptr, vol, nullptr);
       node->children[0] = topdown_1(lbeg, lcenter);
       node->children[1] = topdown_1(lcenter, lend);
diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index b4edc40..8d414ec 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -372,7 +372,7 @@ size_t HierarchyTree<BV>::getMaxDepth() const
 {
   if(root_node == NULL_NODE) return 0;
 
-  size_t max_depth;
+  size_t max_depth = 0;
   getMaxDepth(root_node, 0, max_depth);
   return max_depth;
 }
@@ -388,6 +388,7 @@ void HierarchyTree<BV>::balanceBottomup()
     extractLeaves(root_node, leaves_);
     root_node = NULL_NODE;
     std::copy(leaves, leaves + n_leaves, nodes);
+    delete [] leaves;
     freelist = n_leaves;
     n_nodes = n_leaves;
     for(size_t i = n_leaves; i < n_nodes_alloc; ++i)
@@ -417,6 +418,7 @@ void HierarchyTree<BV>::balanceTopdown()
     extractLeaves(root_node, leaves_);
     root_node = NULL_NODE;
     std::copy(leaves, leaves + n_leaves, nodes);
+    delete [] leaves;
     freelist = n_leaves;
     n_nodes = n_leaves;
     for(size_t i = n_leaves; i < n_nodes_alloc; ++i)
@@ -538,7 +540,7 @@ void HierarchyTree<BV>::getMaxDepth(size_t node, size_t depth, size_t& max_depth
   if(!nodes[node].isLeaf())
   {
     getMaxDepth(nodes[node].children[0], depth+1, max_depth);
-    getmaxDepth(nodes[node].children[1], depth+1, max_depth);
+    getMaxDepth(nodes[node].children[1], depth+1, max_depth);
   }
   else
     max_depth = std::max(max_depth, depth);
@@ -690,6 +692,10 @@ size_t HierarchyTree<BV>::topdown_1(size_t* lbeg, size_t* lend)
         }
       }
 
+      // no split is possible if (almost) all the centers coincide
+      if(lcenter == lbeg || lcenter == lend)
+        lcenter = lbeg + num_leaves / 2;
+
       size_t node = createNode(NULL_NODE, vol, nullptr);
       nodes[node].children[0] = topdown_1(lbeg, lcenter);
       nodes[node].children[1] = topdown_1(lcenter, lend);
@@ -926,10 +932,10 @@ void HierarchyTree<BV>::update_(size_t leaf, const BV& bv)
       for(int i = 0; (i < max_lookahead_level) && (nodes[root].parent != NULL_NODE); ++i)
         root = nodes[root].parent;
     }
-
-    nodes[leaf].bv = bv;
-    insertLeaf(root, leaf);
   }
+
+  nodes[leaf].bv = bv;
+  insertLeaf(root, leaf);
 }
 
 //==============================================================================
@@ -973,10 +979,12 @@ size_t HierarchyTree<BV>::createNode(size_t parent,
                                      const BV& bv2,
                                      void* data)
 {
+  // allocateNode() may reallocate the nodes that bv1 and bv2 refer to
+  const BV bv = bv1 + bv2;
   size_t node = allocateNode();
   nodes[node].parent = parent;
   nodes[node].data = data;
-  nodes[node].bv = bv1 + bv2;
+  nodes[node].bv = bv;
   return node;
 }
 
-- 
2.43.0


From f249002a87c16967b1d7fcafc207d3ad0b9c541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 08/61] fix: GJKSolver_indep shape contacts give the world
 normal and a positive penetration depth

---
 include/fcl/narrowphase/detail/gjk_solver_indep-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
index fd78927..c347182 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
@@ -147,9 +147,9 @@ struct ShapeIntersectIndepImpl
           }
           if(contacts)
           {
-            Vector3<S> normal = epa.normal;
+            Vector3<S> normal = tf1.linear() * epa.normal;
             Vector3<S> point = tf1 * (w0 - epa.normal*(epa.depth *0.5));
-            S depth = -epa.depth;
+            S depth = epa.depth;
             contacts->emplace_back(normal, point, depth);
           }
           return true;
-- 
2.43.0


From be36ffc72c6f5c438819cab3cc15a89d15f096cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 09/61] fix: EPA edge distance and visibility test

---
 .../narrowphase/detail/convexity_based_algorithm/epa-inl.h    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h
index e9c667d..a82bce2 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h
@@ -145,7 +145,7 @@ bool EPA<S>::getEdgeDist(SimplexF* face, SimplexV* a, SimplexV* b, S& dist)
     else
     {
       S a_dot_b = a->w.dot(b->w);
-      dist = std::sqrt(std::max(a->w.squaredNorm() * b->w.squaredNorm() - a_dot_b * a_dot_b, (S)0));
+      dist = std::sqrt(std::max(a->w.squaredNorm() * b->w.squaredNorm() - a_dot_b * a_dot_b, (S)0) / ba.squaredNorm());
     }
 
     return true;
@@ -356,7 +356,7 @@ bool EPA<S>::expand(size_t pass, SimplexV* w, SimplexF* f, size_t e, SimplexHori
     const size_t e1 = nexti[e];
 
     // case 1: the new face is not degenerated, i.e., the new face is not coplanar with the old face f.
-    if(f->n.dot(w->w) - f->d < -tolerance)
+    if(f->n.dot(w->w - f->c[0]->w) < -tolerance)
     {
       SimplexF* nf = newFace(f->c[e1], f->c[e], w, false);
       if(nf)
-- 
2.43.0


From 71c6bb1671ea76809129ab022c6376791816facb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 10/61] fix: sphere-capsule contact position and normal of a
 sphere centered on the capsule's axis

---
 .../primitive_shape_algorithm/sphere_capsule-inl.h       | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
index c85d569..491f04c 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
@@ -106,12 +106,17 @@ bool sphereCapsuleIntersect(const Sphere<S>& s1, const Transform3<S>& tf1,
   if (distance > 0)
     return false;
 
-  const Vector3<S> local_normal = -diff.normalized();
+  // if the center of the sphere lies on the capsule's segment, every direction
+  // across the segment is as good as any other
+  Vector3<S> local_normal = -diff.normalized();
+  if (local_normal.isZero()) local_normal = Vector3<S>::UnitX();
 
   if (contacts)
   {
     const Vector3<S> normal = tf2.linear() * local_normal;
-    const Vector3<S> point = tf2 * (segment_point + local_normal * distance);
+    // the point of the sphere that is deepest in the capsule
+    const Vector3<S> point =
+        tf2 * (segment_point - local_normal * (s2.radius + distance));
     const S penetration_depth = -distance;
 
     contacts->emplace_back(normal, point, penetration_depth);
-- 
2.43.0


From e48a3429e2f2c93477e6e99f1974574e74935642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 11/61] fix: signed distance fallback uses all contacts,
 returns the result and survives touching objects

---
 include/fcl/narrowphase/distance-inl.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/fcl/narrowphase/distance-inl.h b/include/fcl/narrowphase/distance-inl.h
index 3244631..74cca31 100644
--- a/include/fcl/narrowphase/distance-inl.h
+++ b/include/fcl/narrowphase/distance-inl.h
@@ -155,28 +155,30 @@ typename NarrowPhaseSolver::S distance(
     }
 
     CollisionRequest<S> collision_request;
+    collision_request.num_max_contacts = std::numeric_limits<std::size_t>::max();
     collision_request.enable_contact = true;
 
     CollisionResult<S> collision_result;
 
     collide(o1, tf1, o2, tf2, nsolver, collision_request, collision_result);
-    assert(collision_result.isCollision());
 
+    // objects that merely touch may have no contact
     std::size_t index = static_cast<std::size_t>(-1);
-    S max_pen_depth = std::numeric_limits<S>::min();
+    S max_pen_depth = static_cast<S>(0);
     for (auto i = 0u; i < collision_result.numContacts(); ++i)
     {
       const auto& contact = collision_result.getContact(i);
-      if (max_pen_depth < contact.penetration_depth)
+      if (index == static_cast<std::size_t>(-1)
+          || max_pen_depth < contact.penetration_depth)
       {
         max_pen_depth = contact.penetration_depth;
         index = i;
       }
     }
     result.min_distance = -max_pen_depth;
-    assert(index != static_cast<std::size_t>(-1));
+    res = result.min_distance;
 
-    if (request.enable_nearest_points)
+    if (request.enable_nearest_points && index != static_cast<std::size_t>(-1))
     {
       const Vector3<S>& pos = collision_result.getContact(index).pos;
       result.nearest_points[0] = pos;
-- 
2.43.0


From 82791c7ab64c86a5f0f3e2bee529a92abdd3e8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 12/61] fix: libccd GJK distance ended at a support point that
 happened to be as far away as the last distance

---
 .../detail/convexity_based_algorithm/gjk_libccd-inl.h    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
index 3090fc7..647cd4a 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
@@ -2130,10 +2130,15 @@ static inline ccd_real_t _ccdDist(const void *obj1, const void *obj2,
 
     // check whether we improved for at least a minimum tolerance
     // this is here probably only for a degenerate cases when we got a
-    // point that is already in the simplex
+    // point that is already in the simplex. The support point's distance alone
+    // does not tell that: some other point may happen to be as far away. The
+    // Minkowski difference lies beyond the plane through the support point
+    // orthogonal to dir, so that the origin's distance to that plane bounds the
+    // distance from below; nothing is left to improve if it is reached.
     dist = ccdVec3Len2(&last.v);
     dist = CCD_SQRT(dist);
-    if (CCD_FABS(last_dist - dist) < ccd->dist_tolerance)
+    if (CCD_FABS(last_dist - dist) < ccd->dist_tolerance &&
+        last_dist + ccdVec3Dot(&dir, &last.v) < ccd->dist_tolerance)
     {
       extractClosestPoints(simplex, p1, p2, &closest_p);
       return last_dist;
-- 
2.43.0


From 330bf98e17fc79ed6ac837d467c8bb4d4dc53204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 13/61] fix: libccd EPA of round shapes with coinciding centers
 never ended

---
 .../detail/convexity_based_algorithm/gjk_libccd-inl.h    | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
index 647cd4a..67e1aea 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
@@ -1808,7 +1808,7 @@ static int __ccdEPA(const void *obj1, const void *obj2,
         return -2;
     }
 
-    while (1) {
+    for (unsigned long iterations = 1UL; ; ++iterations) {
       // get triangle nearest to origin
       *nearest = ccdPtNearest(polytope);
       if (polytope->nearest_type == CCD_PT_EDGE) {
@@ -1820,8 +1820,11 @@ static int __ccdEPA(const void *obj1, const void *obj2,
         *nearest = ccdPtNearest(polytope);
       }
 
-      // get next support point
-      if (nextSupport(polytope, obj1, obj2, ccd, *nearest, &supp) != 0) {
+      // get next support point; round objects whose centers (almost) coincide
+      // would refine the polytope everywhere, so that the number of iterations
+      // is limited
+      if (nextSupport(polytope, obj1, obj2, ccd, *nearest, &supp) != 0 ||
+          iterations >= ccd->max_iterations) {
         break;
       }
 
-- 
2.43.0


From be6b5436aea41fc6da91c549496d59ab36b73f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:15 +0000
Subject: [PATCH 14/61] fix: indep GJK gave up when a support point that had
 left the simplex returned

---
 .../detail/convexity_based_algorithm/gjk-inl.h     | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
index fa01dc3..3e25718 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
@@ -83,8 +83,6 @@ typename GJK<S>::Status GJK<S>::evaluate(const MinkowskiDiff<S>& shape_, const V
 {
   size_t iterations = 0;
   S alpha = 0;
-  Vector3<S> lastw[4];
-  size_t clastw = 0;
 
   free_v[0] = &store_v[0];
   free_v[1] = &store_v[1];
@@ -102,7 +100,6 @@ typename GJK<S>::Status GJK<S>::evaluate(const MinkowskiDiff<S>& shape_, const V
   appendVertex(simplices[0], (ray.squaredNorm() > 0) ? (-ray).eval() : Vector3<S>::UnitX());
   simplices[0].p[0] = 1;
   ray = simplices[0].c[0]->w;
-  lastw[0] = lastw[1] = lastw[2] = lastw[3] = ray; // cache previous support points, the new support point will compare with it to avoid too close support points
 
   do
   {
@@ -120,12 +117,13 @@ typename GJK<S>::Status GJK<S>::evaluate(const MinkowskiDiff<S>& shape_, const V
 
     appendVertex(curr_simplex, -ray); // see below, ray points away from origin
 
-    // check B: when the new support point is close to previous support points, stop (as the new simplex is degenerated)
+    // check B: when the new support point is close to a vertex of the simplex, stop (as the new simplex is degenerated).
+    // A support point that left the simplex before may well return.
     Vector3<S>& w = curr_simplex.c[curr_simplex.rank - 1]->w;
     bool found = false;
-    for(size_t i = 0; i < 4; ++i)
+    for(size_t i = 0; i + 1 < curr_simplex.rank; ++i)
     {
-      if((w - lastw[i]).squaredNorm() < tolerance)
+      if((w - curr_simplex.c[i]->w).squaredNorm() < tolerance)
       {
         found = true; break;
       }
@@ -136,10 +134,6 @@ typename GJK<S>::Status GJK<S>::evaluate(const MinkowskiDiff<S>& shape_, const V
       removeVertex(simplices[current]);
       break;
     }
-    else
-    {
-      lastw[clastw = (clastw+1)&3] = w;
-    }
 
     // check C: when the new support point is close to the sub-simplex where the ray point lies, stop (as the new simplex again is degenerated)
     S omega = ray.dot(w) / rl;
-- 
2.43.0


From 204a6f4605c8362f68837e0337018b9e1a99b360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:16 +0000
Subject: [PATCH 15/61] fix: sphere-capsule contact normal of centers that
 coincide up to rounding

---
 .../primitive_shape_algorithm/sphere_capsule-inl.h  | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
index 491f04c..0686226 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
@@ -40,6 +40,9 @@
 
 #include "fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule.h"
 
+#include "fcl/common/types.h"
+#include "fcl/math/constants.h"
+
 namespace fcl
 {
 
@@ -106,10 +109,12 @@ bool sphereCapsuleIntersect(const Sphere<S>& s1, const Transform3<S>& tf1,
   if (distance > 0)
     return false;
 
-  // if the center of the sphere lies on the capsule's segment, every direction
-  // across the segment is as good as any other
-  Vector3<S> local_normal = -diff.normalized();
-  if (local_normal.isZero()) local_normal = Vector3<S>::UnitX();
+  // if the center of the sphere lies on the capsule's segment (up to rounding),
+  // every direction across the segment is as good as any other
+  const S eps = 16 * constants<S>::eps()
+      * std::max(S(1), std::max(tf1.translation().norm(), s2.lz));
+  const Vector3<S> local_normal = (diff.norm() <= eps)
+      ? Vector3<S>(Vector3<S>::UnitX()) : Vector3<S>(-diff.normalized());
 
   if (contacts)
   {
-- 
2.43.0


From 9e616af515dd4fa5ec072d086db9d32cef3574eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 16/61] fix: cylinder-plane test used the cylinder's full
 length as its half length

---
 .../narrowphase/detail/primitive_shape_algorithm/plane-inl.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
index 1373dce..0b58933 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
@@ -399,7 +399,7 @@ bool cylinderPlaneIntersect(const Cylinder<S>& s1, const Transform3<S>& tf1,
 
   Vector3<S> Q = R.transpose() * new_s2.n;
 
-  S term = std::abs(Q[2]) * s1.lz + s1.radius * std::sqrt(Q[0] * Q[0] + Q[1] * Q[1]);
+  S term = std::abs(Q[2]) * (0.5 * s1.lz) + s1.radius * std::sqrt(Q[0] * Q[0] + Q[1] * Q[1]);
   S dist = new_s2.distance(T);
   S depth = term - dist;
 
-- 
2.43.0


From 4d901ec536746ffe5cc1708f57702f3646905fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 17/61] fix: cone-halfspace took every cone pointing into the
 halfspace for one lying along its border

---
 .../detail/primitive_shape_algorithm/halfspace-inl.h            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
index 09a86f5..29cde8d 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
@@ -441,7 +441,7 @@ bool coneHalfspaceIntersect(const Cone<S>& s1, const Transform3<S>& tf1,
   Vector3<S> dir_z = R.col(2);
   S cosa = dir_z.dot(new_s2.n);
 
-  if(cosa < halfspaceIntersectTolerance<S>())
+  if(std::abs(cosa) < halfspaceIntersectTolerance<S>())
   {
     S signed_dist = new_s2.signedDistance(T);
     S depth = s1.radius - signed_dist;
-- 
2.43.0


From bcf7b983abd9d8fc5fca5ec85d5b182cc7bfba5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 18/61] fix: BVHModel construction calls keep to their order,
 counts and memory

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 74 +++++++++++++++++++-----
 1 file changed, 58 insertions(+), 16 deletions(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 906a593..9d920ca 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -87,12 +87,13 @@ BVHModel<BV>::BVHModel(const BVHModel<BV>& other)
     build_state(other.build_state),
     bv_splitter(other.bv_splitter),
     bv_fitter(other.bv_fitter),
-    num_tris_allocated(other.num_tris),
-    num_vertices_allocated(other.num_vertices)
+    num_tris_allocated(other.num_tris_allocated),
+    num_vertices_allocated(other.num_vertices_allocated),
+    num_vertex_updated(other.num_vertex_updated)
 {
   if(other.vertices)
   {
-    vertices = new Vector3<S>[num_vertices];
+    vertices = new Vector3<S>[num_vertices_allocated];
     std::copy(other.vertices, other.vertices + num_vertices, vertices);
   }
   else
@@ -100,7 +101,7 @@ BVHModel<BV>::BVHModel(const BVHModel<BV>& other)
 
   if(other.tri_indices)
   {
-    tri_indices = new Triangle[num_tris];
+    tri_indices = new Triangle[num_tris_allocated];
     std::copy(other.tri_indices, other.tri_indices + num_tris, tri_indices);
   }
   else
@@ -206,16 +207,13 @@ NODE_TYPE BVHModel<BV>::getNodeType() const
 template <typename BV>
 int BVHModel<BV>::beginModel(int num_tris_, int num_vertices_)
 {
-  if(build_state != BVH_BUILD_STATE_EMPTY)
-  {
-    delete [] vertices; vertices = nullptr;
-    delete [] tri_indices; tri_indices = nullptr;
-    delete [] bvs; bvs = nullptr;
-    delete [] prev_vertices; prev_vertices = nullptr;
-    delete [] primitive_indices; primitive_indices = nullptr;
+  delete [] vertices; vertices = nullptr;
+  delete [] tri_indices; tri_indices = nullptr;
+  delete [] bvs; bvs = nullptr;
+  delete [] prev_vertices; prev_vertices = nullptr;
+  delete [] primitive_indices; primitive_indices = nullptr;
 
-    num_vertices_allocated = num_vertices = num_tris_allocated = num_tris = num_bvs_allocated = num_bvs = 0;
-  }
+  num_vertices_allocated = num_vertices = num_tris_allocated = num_tris = num_bvs_allocated = num_bvs = 0;
 
   if(num_tris_ < 0) num_tris_ = 8;
   if(num_vertices_ <= 0) num_vertices_ = 8;
@@ -287,7 +285,7 @@ int BVHModel<BV>::addVertex(const Vector3<S>& p)
 template <typename BV>
 int BVHModel<BV>::addTriangle(const Vector3<S>& p1, const Vector3<S>& p2, const Vector3<S>& p3)
 {
-  if(build_state == BVH_BUILD_STATE_PROCESSED)
+  if(build_state != BVH_BUILD_STATE_BEGUN)
   {
     std::cerr << "BVH Warning! Call addTriangle() in a wrong order. addTriangle() was ignored. Must do a beginModel() to clear the model for addition of new triangles.\n";
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
@@ -346,7 +344,7 @@ int BVHModel<BV>::addTriangle(const Vector3<S>& p1, const Vector3<S>& p2, const
 template <typename BV>
 int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps)
 {
-  if(build_state == BVH_BUILD_STATE_PROCESSED)
+  if(build_state != BVH_BUILD_STATE_BEGUN)
   {
     std::cerr << "BVH Warning! Call addSubModel() in a wrong order. addSubModel() was ignored. Must do a beginModel() to clear the model for addition of new vertices.\n";
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
@@ -382,7 +380,7 @@ int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps)
 template <typename BV>
 int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps, const std::vector<Triangle>& ts)
 {
-  if(build_state == BVH_BUILD_STATE_PROCESSED)
+  if(build_state != BVH_BUILD_STATE_BEGUN)
   {
     std::cerr << "BVH Warning! Call addSubModel() in a wrong order. addSubModel() was ignored. Must do a beginModel() to clear the model for addition of new vertices.\n";
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
@@ -461,6 +459,14 @@ int BVHModel<BV>::endModel()
     return BVH_ERR_BUILD_EMPTY_MODEL;
   }
 
+  if(num_tris == 0)
+  {
+    // a point cloud: the fitter and the splitter tell by the missing array
+    delete [] tri_indices;
+    tri_indices = nullptr;
+    num_tris_allocated = 0;
+  }
+
   if(num_tris_allocated > num_tris)
   {
     Triangle* new_tris = new(std::nothrow) Triangle[num_tris];
@@ -549,6 +555,12 @@ int BVHModel<BV>::replaceVertex(const Vector3<S>& p)
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  if(num_vertex_updated + 1 > num_vertices)
+  {
+    std::cerr << "BVH Error! The replaced model should have the same number of vertices as the old model.\n";
+    return BVH_ERR_INCORRECT_DATA;
+  }
+
   vertices[num_vertex_updated] = p;
   num_vertex_updated++;
 
@@ -565,6 +577,12 @@ int BVHModel<BV>::replaceTriangle(const Vector3<S>& p1, const Vector3<S>& p2, co
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  if(num_vertex_updated + 3 > num_vertices)
+  {
+    std::cerr << "BVH Error! The replaced model should have the same number of vertices as the old model.\n";
+    return BVH_ERR_INCORRECT_DATA;
+  }
+
   vertices[num_vertex_updated] = p1; num_vertex_updated++;
   vertices[num_vertex_updated] = p2; num_vertex_updated++;
   vertices[num_vertex_updated] = p3; num_vertex_updated++;
@@ -581,6 +599,12 @@ int BVHModel<BV>::replaceSubModel(const std::vector<Vector3<S>>& ps)
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  if(num_vertex_updated + (int)ps.size() > num_vertices)
+  {
+    std::cerr << "BVH Error! The replaced model should have the same number of vertices as the old model.\n";
+    return BVH_ERR_INCORRECT_DATA;
+  }
+
   for(unsigned int i = 0; i < ps.size(); ++i)
   {
     vertices[num_vertex_updated] = ps[i];
@@ -658,6 +682,12 @@ int BVHModel<BV>::updateVertex(const Vector3<S>& p)
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  if(num_vertex_updated + 1 > num_vertices)
+  {
+    std::cerr << "BVH Error! The updated model should have the same number of vertices as the old model.\n";
+    return BVH_ERR_INCORRECT_DATA;
+  }
+
   vertices[num_vertex_updated] = p;
   num_vertex_updated++;
 
@@ -674,6 +704,12 @@ int BVHModel<BV>::updateTriangle(const Vector3<S>& p1, const Vector3<S>& p2, con
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  if(num_vertex_updated + 3 > num_vertices)
+  {
+    std::cerr << "BVH Error! The updated model should have the same number of vertices as the old model.\n";
+    return BVH_ERR_INCORRECT_DATA;
+  }
+
   vertices[num_vertex_updated] = p1; num_vertex_updated++;
   vertices[num_vertex_updated] = p2; num_vertex_updated++;
   vertices[num_vertex_updated] = p3; num_vertex_updated++;
@@ -690,6 +726,12 @@ int BVHModel<BV>::updateSubModel(const std::vector<Vector3<S>>& ps)
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  if(num_vertex_updated + (int)ps.size() > num_vertices)
+  {
+    std::cerr << "BVH Error! The updated model should have the same number of vertices as the old model.\n";
+    return BVH_ERR_INCORRECT_DATA;
+  }
+
   for(unsigned int i = 0; i < ps.size(); ++i)
   {
     vertices[num_vertex_updated] = ps[i];
-- 
2.43.0


From 64a357d995e822333a809171b45a1b2e1486374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 19/61] fix: merged OBB encloses both boxes and has orthonormal
 axes

---
 include/fcl/math/bv/OBB-inl.h | 42 ++++++++++++++---------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/include/fcl/math/bv/OBB-inl.h b/include/fcl/math/bv/OBB-inl.h
index 4d5455f..4da2e39 100644
--- a/include/fcl/math/bv/OBB-inl.h
+++ b/include/fcl/math/bv/OBB-inl.h
@@ -274,36 +274,28 @@ OBB<S> merge_largedist(const OBB<S>& b1, const OBB<S>& b2)
   getCovariance<S>(vertex_proj, nullptr, nullptr, nullptr, 16, M);
   eigen_old(M, s, E);
 
-  int min, mid, max;
-  if (s[0] > s[1])
-  {
-    max = 0;
-    min = 1;
-  }
-  else
-  {
-    min = 0;
-    max = 1;
-  }
+  int max = (s[0] > s[1]) ? 0 : 1;
+  if (s[2] > s[max])
+    max = 2;
 
-  if (s[2] < s[min])
+  // the projected points may be collinear, in which case nothing keeps the
+  // eigenvectors apart from the direction between the centers
+  Vector3<S> axis1(E.col(0)[max], E.col(1)[max], E.col(2)[max]);
+  axis1 -= b.axis.col(0) * b.axis.col(0).dot(axis1);
+  const S axis1_norm = axis1.norm();
+  if (axis1_norm > 0.5)
   {
-    mid = min;
-    min = 2;
-  }
-  else if (s[2] > s[max])
-  {
-    mid = max;
-    max = 2;
+    axis1 /= axis1_norm;
+    axis1 -= b.axis.col(0) * b.axis.col(0).dot(axis1);
+    b.axis.col(1) = axis1.normalized();
+    b.axis.col(2) = b.axis.col(0).cross(b.axis.col(1));
   }
   else
   {
-    mid = 2;
+    const Vector3<S> axis0 = b.axis.col(0);
+    b.axis = generateCoordinateSystem(axis0);
   }
 
-  b.axis.col(1) << E.col(0)[max], E.col(1)[max], E.col(2)[max];
-  b.axis.col(2) << E.col(0)[mid], E.col(1)[mid], E.col(2)[mid];
-
   // set obb centers and extensions
   getExtentAndCenter<S>(
         vertex, nullptr, nullptr, nullptr, 16, b.axis, b.To, b.extent);
@@ -341,7 +333,7 @@ OBB<S> merge_smalldist(const OBB<S>& b1, const OBB<S>& b2)
       S dot = diff.dot(b.axis.col(j));
       if(dot > pmax[j])
         pmax[j] = dot;
-      else if(dot < pmin[j])
+      if(dot < pmin[j])
         pmin[j] = dot;
     }
   }
@@ -355,7 +347,7 @@ OBB<S> merge_smalldist(const OBB<S>& b1, const OBB<S>& b2)
       S dot = diff.dot(b.axis.col(j));
       if(dot > pmax[j])
         pmax[j] = dot;
-      else if(dot < pmin[j])
+      if(dot < pmin[j])
         pmin[j] = dot;
     }
   }
-- 
2.43.0


From 98e822e57043e0bf8553977e31c2e8da39659819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 20/61] fix: RSS union axes, growth by a point and point
 containment

---
 include/fcl/math/bv/RSS-inl.h | 189 ++++++++--------------------------
 1 file changed, 44 insertions(+), 145 deletions(-)

diff --git a/include/fcl/math/bv/RSS-inl.h b/include/fcl/math/bv/RSS-inl.h
index 2cbc7dd..41de1aa 100644
--- a/include/fcl/math/bv/RSS-inl.h
+++ b/include/fcl/math/bv/RSS-inl.h
@@ -134,32 +134,14 @@ bool RSS<S>::contain(const Vector3<S>& p) const
       axis.col(0).dot(local_p),
       axis.col(1).dot(local_p),
       axis.col(2).dot(local_p));
-  S abs_proj2 = fabs(proj[2]);
 
-  /// projection is within the rectangle
-  if((proj[0] < l[0]) && (proj[0] > 0) && (proj[1] < l[1]) && (proj[1] > 0))
-  {
-    return (abs_proj2 < r);
-  }
-  else if((proj[0] < l[0]) && (proj[0] > 0) && ((proj[1] < 0) || (proj[1] > l[1])))
-  {
-    S y = (proj[1] > 0) ? l[1] : 0;
-    Vector3<S> v(proj[0], y, 0);
-    return ((proj - v).squaredNorm() < r * r);
-  }
-  else if((proj[1] < l[1]) && (proj[1] > 0) && ((proj[0] < 0) || (proj[0] > l[0])))
-  {
-    S x = (proj[0] > 0) ? l[0] : 0;
-    Vector3<S> v(x, proj[1], 0);
-    return ((proj - v).squaredNorm() < r * r);
-  }
-  else
-  {
-    S x = (proj[0] > 0) ? l[0] : 0;
-    S y = (proj[1] > 0) ? l[1] : 0;
-    Vector3<S> v(x, y, 0);
-    return ((proj - v).squaredNorm() < r * r);
-  }
+  // the point of the rectangle closest to p
+  Vector3<S> v(
+      std::min(std::max(proj[0], (S)0), l[0]),
+      std::min(std::max(proj[1], (S)0), l[1]),
+      0);
+
+  return ((proj - v).squaredNorm() <= r * r);
 }
 
 //==============================================================================
@@ -172,129 +154,46 @@ RSS<S>& RSS<S>::operator +=(const Vector3<S>& p)
       axis.col(0).dot(local_p),
       axis.col(1).dot(local_p),
       axis.col(2).dot(local_p));
-  S abs_proj2 = fabs(proj[2]);
 
-  // projection is within the rectangle
-  if((proj[0] < l[0]) && (proj[0] > 0) && (proj[1] < l[1]) && (proj[1] > 0))
-  {
-    if(abs_proj2 < r)
-      ; // do nothing
-    else
-    {
-      r = 0.5 * (r + abs_proj2); // enlarge the r
-      // change RSS origin position
-      if(proj[2] > 0)
-        To[2] += 0.5 * (abs_proj2 - r);
-      else
-        To[2] -= 0.5 * (abs_proj2 - r);
-    }
-  }
-  else if((proj[0] < l[0]) && (proj[0] > 0) && ((proj[1] < 0) || (proj[1] > l[1])))
+  // the point of the rectangle closest to p
+  Vector3<S> v(
+      std::min(std::max(proj[0], (S)0), l[0]),
+      std::min(std::max(proj[1], (S)0), l[1]),
+      0);
+
+  if((proj - v).squaredNorm() <= r * r)
+    return *this;
+
+  // too far above or below the rectangle: enlarge the radius and move the
+  // rectangle along its normal, so that the sphere-swept slab between the old
+  // far side and p is covered
+  S abs_proj2 = fabs(proj[2]);
+  S slack = 0;
+  if(abs_proj2 > r)
   {
-    S y = (proj[1] > 0) ? l[1] : 0;
-    Vector3<S> v(proj[0], y, 0);
-    S new_r_sqr = (proj - v).squaredNorm();
-    if(new_r_sqr < r * r)
-      ; // do nothing
-    else
-    {
-      if(abs_proj2 < r)
-      {
-        S delta_y = - std::sqrt(r * r - proj[2] * proj[2]) + fabs(proj[1] - y);
-        l[1] += delta_y;
-        if(proj[1] < 0)
-          To[1] -= delta_y;
-      }
-      else
-      {
-        S delta_y = fabs(proj[1] - y);
-        l[1] += delta_y;
-        if(proj[1] < 0)
-          To[1] -= delta_y;
-
-        if(proj[2] > 0)
-          To[2] += 0.5 * (abs_proj2 - r);
-        else
-          To[2] -= 0.5 * (abs_proj2 - r);
-      }
-    }
+    const S shift = 0.5 * (abs_proj2 - r);
+    r += shift;
+    To += axis.col(2) * ((proj[2] > 0) ? shift : -shift);
   }
-  else if((proj[1] < l[1]) && (proj[1] > 0) && ((proj[0] < 0) || (proj[0] > l[0])))
+  else
   {
-    S x = (proj[0] > 0) ? l[0] : 0;
-    Vector3<S> v(x, proj[1], 0);
-    S new_r_sqr = (proj - v).squaredNorm();
-    if(new_r_sqr < r * r)
-      ; // do nothing
-    else
-    {
-      if(abs_proj2 < r)
-      {
-        S delta_x = - std::sqrt(r * r - proj[2] * proj[2]) + fabs(proj[0] - x);
-        l[0] += delta_x;
-        if(proj[0] < 0)
-          To[0] -= delta_x;
-      }
-      else
-      {
-        S delta_x = fabs(proj[0] - x);
-        l[0] += delta_x;
-        if(proj[0] < 0)
-          To[0] -= delta_x;
-
-        if(proj[2] > 0)
-          To[2] += 0.5 * (abs_proj2 - r);
-        else
-          To[2] -= 0.5 * (abs_proj2 - r);
-      }
-    }
+    slack = std::sqrt(r * r - abs_proj2 * abs_proj2);
   }
-  else
+
+  // extend the rectangle towards p by what the radius does not cover
+  const S dx = proj[0] - v[0];
+  const S dy = proj[1] - v[1];
+  const S diag = std::sqrt(dx * dx + dy * dy);
+  if(diag > slack)
   {
-    S x = (proj[0] > 0) ? l[0] : 0;
-    S y = (proj[1] > 0) ? l[1] : 0;
-    Vector3<S> v(x, y, 0);
-    S new_r_sqr = (proj - v).squaredNorm();
-    if(new_r_sqr < r * r)
-      ; // do nothing
-    else
-    {
-      if(abs_proj2 < r)
-      {
-        S diag = std::sqrt(new_r_sqr - proj[2] * proj[2]);
-        S delta_diag = - std::sqrt(r * r - proj[2] * proj[2]) + diag;
-
-        S delta_x = delta_diag / diag * fabs(proj[0] - x);
-        S delta_y = delta_diag / diag * fabs(proj[1] - y);
-        l[0] += delta_x;
-        l[1] += delta_y;
-
-        if(proj[0] < 0 && proj[1] < 0)
-        {
-          To[0] -= delta_x;
-          To[1] -= delta_y;
-        }
-      }
-      else
-      {
-        S delta_x = fabs(proj[0] - x);
-        S delta_y = fabs(proj[1] - y);
-
-        l[0] += delta_x;
-        l[1] += delta_y;
-
-        if(proj[0] < 0 && proj[1] < 0)
-        {
-          To[0] -= delta_x;
-          To[1] -= delta_y;
-        }
-
-        if(proj[2] > 0)
-          To[2] += 0.5 * (abs_proj2 - r);
-        else
-          To[2] -= 0.5 * (abs_proj2 - r);
-      }
-    }
+    const S delta_x = (diag - slack) / diag * fabs(dx);
+    const S delta_y = (diag - slack) / diag * fabs(dy);
+    l[0] += delta_x;
+    l[1] += delta_y;
+    if(dx < 0)
+      To -= axis.col(0) * delta_x;
+    if(dy < 0)
+      To -= axis.col(1) * delta_y;
   }
 
   return *this;
@@ -366,9 +265,9 @@ RSS<S> RSS<S>::operator +(const RSS<S>& other) const
   else { mid = 2; }
 
   // column first matrix, as the axis in RSS
-  bv.axis.col(0) = E.col(max);
-  bv.axis.col(1) = E.col(mid);
-  bv.axis.col(2).noalias() = axis.col(0).cross(axis.col(1));
+  bv.axis.col(0) = E.row(max);
+  bv.axis.col(1) = E.row(mid);
+  bv.axis.col(2).noalias() = bv.axis.col(0).cross(bv.axis.col(1));
 
   // set rss origin, rectangle size and radius
   getRadiusAndOriginAndRectangleSize<S>(v, nullptr, nullptr, nullptr, 16, bv.axis, bv.To, bv.l, bv.r);
-- 
2.43.0


From 33f1437a1e2f9b81fcbd7b6d1e91cf2edb7cb058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 21/61] fix: kIOS union in full precision, translated kIOS
 moves its box

---
 include/fcl/math/bv/kIOS-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/bv/kIOS-inl.h b/include/fcl/math/bv/kIOS-inl.h
index 81a802a..e060a08 100644
--- a/include/fcl/math/bv/kIOS-inl.h
+++ b/include/fcl/math/bv/kIOS-inl.h
@@ -64,7 +64,7 @@ typename kIOS<S>::kIOS_Sphere kIOS<S>::encloseSphere(
   }
   else /** spheres partially overlapping or disjoint */
   {
-    float dist = std::sqrt(dist2);
+    S dist = std::sqrt(dist2);
     kIOS_Sphere s;
     s.r = dist + s0.r + s1.r;
     if(dist > 0)
@@ -309,7 +309,7 @@ kIOS<S> translate(
     res.spheres[i].o += t;
   }
 
-  translate(res.obb, t);
+  res.obb = translate(res.obb, t);
   return res;
 }
 
-- 
2.43.0


From 1f4978d305e3388a2ccfe65cc99b0122a0b3a9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 22/61] fix: bounding volumes of degenerate triangles and of
 unordered rectangle bounds

---
 include/fcl/math/bv/utility-inl.h | 109 +++++++++++++++---------------
 include/fcl/math/geometry-inl.h   |  11 +++
 2 files changed, 64 insertions(+), 56 deletions(-)

diff --git a/include/fcl/math/bv/utility-inl.h b/include/fcl/math/bv/utility-inl.h
index 333ec15..e90c591 100644
--- a/include/fcl/math/bv/utility-inl.h
+++ b/include/fcl/math/bv/utility-inl.h
@@ -56,6 +56,48 @@ namespace fcl {
 namespace detail {
 //==============================================================================
 
+/// @brief The axes of the box fitted to a triangle: its longest edge, the
+/// direction in its plane orthogonal to that edge, and its normal. They are
+/// orthonormal also when the triangle is (almost) a segment or a point.
+template <typename S>
+FCL_EXPORT
+Matrix3<S> axisFromTriangle(
+    const Vector3<S>& p1, const Vector3<S>& p2, const Vector3<S>& p3)
+{
+  Vector3<S> e[3];
+  e[0] = p1 - p2;
+  e[1] = p2 - p3;
+  e[2] = p3 - p1;
+  S len[3];
+  len[0] = e[0].squaredNorm();
+  len[1] = e[1].squaredNorm();
+  len[2] = e[2].squaredNorm();
+
+  int imax = 0;
+  if(len[1] > len[0]) imax = 1;
+  if(len[2] > len[imax]) imax = 2;
+
+  Matrix3<S> axis;
+  axis.col(0) = e[imax].normalized();
+
+  // rounding errors dominate the normal of a triangle that is almost a segment
+  Vector3<S> normal = e[0].cross(e[1]);
+  normal -= axis.col(0) * axis.col(0).dot(normal);
+  if(normal.norm() > 1e-12 * len[imax])
+  {
+    normal.normalize();
+    normal -= axis.col(0) * axis.col(0).dot(normal);
+    axis.col(2) = normal.normalized();
+    axis.col(1).noalias() = axis.col(2).cross(axis.col(0));
+  }
+  else
+  {
+    axis = generateCoordinateSystem(e[imax]);
+  }
+
+  return axis;
+}
+
 //==============================================================================
 namespace OBB_fit_functions {
 //==============================================================================
@@ -91,27 +133,7 @@ template <typename S>
 FCL_EXPORT
 void fit3(const Vector3<S>* const ps, OBB<S>& bv)
 {
-  const Vector3<S>& p1 = ps[0];
-  const Vector3<S>& p2 = ps[1];
-  const Vector3<S>& p3 = ps[2];
-  Vector3<S> e[3];
-  e[0] = p1 - p2;
-  e[1] = p2 - p3;
-  e[2] = p3 - p1;
-  S len[3];
-  len[0] = e[0].squaredNorm();
-  len[1] = e[1].squaredNorm();
-  len[2] = e[2].squaredNorm();
-
-  int imax = 0;
-  if(len[1] > len[0]) imax = 1;
-  if(len[2] > len[imax]) imax = 2;
-
-  bv.axis.col(2).noalias() = e[0].cross(e[1]);
-  bv.axis.col(2).normalize();
-  bv.axis.col(0) = e[imax];
-  bv.axis.col(0).normalize();
-  bv.axis.col(1).noalias() = bv.axis.col(2).cross(bv.axis.col(0));
+  bv.axis = axisFromTriangle(ps[0], ps[1], ps[2]);
 
   getExtentAndCenter<S>(ps, nullptr, nullptr, nullptr, 3, bv.axis, bv.To, bv.extent);
 }
@@ -207,25 +229,7 @@ template <typename S>
 FCL_EXPORT
 void fit3(const Vector3<S>* const ps, RSS<S>& bv)
 {
-  const Vector3<S>& p1 = ps[0];
-  const Vector3<S>& p2 = ps[1];
-  const Vector3<S>& p3 = ps[2];
-  Vector3<S> e[3];
-  e[0] = p1 - p2;
-  e[1] = p2 - p3;
-  e[2] = p3 - p1;
-  S len[3];
-  len[0] = e[0].squaredNorm();
-  len[1] = e[1].squaredNorm();
-  len[2] = e[2].squaredNorm();
-
-  int imax = 0;
-  if(len[1] > len[0]) imax = 1;
-  if(len[2] > len[imax]) imax = 2;
-
-  bv.axis.col(2).noalias() = e[0].cross(e[1]).normalized();
-  bv.axis.col(0).noalias() = e[imax].normalized();
-  bv.axis.col(1).noalias() = bv.axis.col(2).cross(bv.axis.col(0));
+  bv.axis = axisFromTriangle(ps[0], ps[1], ps[2]);
 
   getRadiusAndOriginAndRectangleSize<S>(ps, nullptr, nullptr, nullptr, 3, bv.axis, bv.To, bv.l, bv.r);
 }
@@ -351,22 +355,7 @@ void fit3(const Vector3<S>* const ps, kIOS<S>& bv)
   const Vector3<S>& p1 = ps[0];
   const Vector3<S>& p2 = ps[1];
   const Vector3<S>& p3 = ps[2];
-  Vector3<S> e[3];
-  e[0] = p1 - p2;
-  e[1] = p2 - p3;
-  e[2] = p3 - p1;
-  S len[3];
-  len[0] = e[0].squaredNorm();
-  len[1] = e[1].squaredNorm();
-  len[2] = e[2].squaredNorm();
-
-  int imax = 0;
-  if(len[1] > len[0]) imax = 1;
-  if(len[2] > len[imax]) imax = 2;
-
-  bv.obb.axis.col(2).noalias() = e[0].cross(e[1]).normalized();
-  bv.obb.axis.col(0) = e[imax].normalized();
-  bv.obb.axis.col(1).noalias() = bv.obb.axis.col(2).cross(bv.obb.axis.col(0));
+  bv.obb.axis = axisFromTriangle(p1, p2, p3);
 
   getExtentAndCenter<S>(ps, nullptr, nullptr, nullptr, 3, bv.obb.axis, bv.obb.To, bv.obb.extent);
 
@@ -375,6 +364,14 @@ void fit3(const Vector3<S>* const ps, kIOS<S>& bv)
   Vector3<S> center;
   circumCircleComputation(p1, p2, p3, center, r0);
 
+  // the circle through the corners of a triangle that is almost a segment grows
+  // without bounds: use the one around its box
+  if(!(r0 <= 4 * bv.obb.extent[0]))
+  {
+    center = bv.obb.To;
+    r0 = maximumDistance<S>(ps, nullptr, nullptr, nullptr, 3, center);
+  }
+
   bv.spheres[0].o = center;
   bv.spheres[0].r = r0;
 
diff --git a/include/fcl/math/geometry-inl.h b/include/fcl/math/geometry-inl.h
index a9d3dc8..7694559 100644
--- a/include/fcl/math/geometry-inl.h
+++ b/include/fcl/math/geometry-inl.h
@@ -646,6 +646,9 @@ template <typename S>
 FCL_EXPORT
 Matrix3<S> generateCoordinateSystem(const Vector3<S>& x_axis)
 {
+  if(x_axis.squaredNorm() == 0)
+    return Matrix3<S>::Identity();
+
   Matrix3<S> axis;
   axis.col(0).noalias() = x_axis.normalized();
   axis.col(1).noalias() = axis.col(0).unitOrthogonal();
@@ -907,6 +910,10 @@ void getRadiusAndOriginAndRectangleSize(
     }
   }
 
+  // the spheres may leave an interval of choices for the rectangle
+  if(maxx < minx) minx = maxx = (S)0.5 * (minx + maxx);
+  if(maxy < miny) miny = maxy = (S)0.5 * (miny + maxy);
+
   // corners may have some points which are not covered - grow lengths if necessary
   // quite conservative (can be improved)
   S dx, dy, u, t;
@@ -1188,6 +1195,10 @@ void getRadiusAndOriginAndRectangleSize(
     }
   }
 
+  // the spheres may leave an interval of choices for the rectangle
+  if(maxx < minx) minx = maxx = (S)0.5 * (minx + maxx);
+  if(maxy < miny) miny = maxy = (S)0.5 * (miny + maxy);
+
   // corners may have some points which are not covered - grow lengths if necessary
   // quite conservative (can be improved)
   S dx, dy, u, t;
-- 
2.43.0


From c8c8f0fe8b9b33e96af95d0efb8751c9aa570248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:17 +0000
Subject: [PATCH 23/61] fix: kIOS conversion uses its box, kIOS nearest points
 use both volumes

---
 include/fcl/math/bv/kIOS-inl.h    |  6 +++---
 include/fcl/math/bv/utility-inl.h | 23 +++++++++++++++++++++++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/bv/kIOS-inl.h b/include/fcl/math/bv/kIOS-inl.h
index e060a08..9562dfd 100644
--- a/include/fcl/math/bv/kIOS-inl.h
+++ b/include/fcl/math/bv/kIOS-inl.h
@@ -232,12 +232,12 @@ S kIOS<S>::distance(
   {
     if(id_a != -1 && id_b != -1)
     {
-      Vector3<S> v = spheres[id_a].o - spheres[id_b].o;
+      Vector3<S> v = spheres[id_a].o - other.spheres[id_b].o;
       S len_v = v.norm();
       *P = spheres[id_a].o;
       (*P).noalias() -= v * (spheres[id_a].r / len_v);
-      *Q = spheres[id_b].o;
-      (*Q).noalias() += v * (spheres[id_b].r / len_v);
+      *Q = other.spheres[id_b].o;
+      (*Q).noalias() += v * (other.spheres[id_b].r / len_v);
     }
   }
 
diff --git a/include/fcl/math/bv/utility-inl.h b/include/fcl/math/bv/utility-inl.h
index e90c591..10ddc9c 100644
--- a/include/fcl/math/bv/utility-inl.h
+++ b/include/fcl/math/bv/utility-inl.h
@@ -822,6 +822,29 @@ public:
   }
 };
 
+//==============================================================================
+// The center of a kIOS is that of its first sphere, not of its box.
+template <typename S>
+class FCL_EXPORT ConvertBVImpl<S, kIOS<S>, AABB<S>>
+{
+public:
+  static void run(const kIOS<S>& bv1, const Transform3<S>& tf1, AABB<S>& bv2)
+  {
+    ConvertBVImpl<S, OBB<S>, AABB<S>>::run(bv1.obb, tf1, bv2);
+  }
+};
+
+//==============================================================================
+template <typename S>
+class FCL_EXPORT ConvertBVImpl<S, kIOS<S>, OBB<S>>
+{
+public:
+  static void run(const kIOS<S>& bv1, const Transform3<S>& tf1, OBB<S>& bv2)
+  {
+    ConvertBVImpl<S, OBB<S>, OBB<S>>::run(bv1.obb, tf1, bv2);
+  }
+};
+
 //==============================================================================
 template <typename S>
 class FCL_EXPORT ConvertBVImpl<S, OBB<S>, RSS<S>>
-- 
2.43.0


From fd316deab2d14425b01df38194e1d711f92cd4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:17 +0000
Subject: [PATCH 24/61] fix: nearest points of AABBs that meet along an axis
 lie in both

---
 include/fcl/math/bv/AABB-inl.h | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/include/fcl/math/bv/AABB-inl.h b/include/fcl/math/bv/AABB-inl.h
index 6738006..b47f01c 100644
--- a/include/fcl/math/bv/AABB-inl.h
+++ b/include/fcl/math/bv/AABB-inl.h
@@ -268,18 +268,10 @@ S AABB<S>::distance(const AABB<S>& other, Vector3<S>* P, Vector3<S>* Q) const
     {
       if(P && Q)
       {
-        if(bmin >= amin)
-        {
-          S t = 0.5 * (amax + bmin);
-          (*P)[i] = t;
-          (*Q)[i] = t;
-        }
-        else
-        {
-          S t = 0.5 * (amin + bmax);
-          (*P)[i] = t;
-          (*Q)[i] = t;
-        }
+        // the middle of the interval they share
+        S t = 0.5 * (std::max(amin, bmin) + std::min(amax, bmax));
+        (*P)[i] = t;
+        (*Q)[i] = t;
       }
     }
   }
-- 
2.43.0


From 9d179e7fbc2cb6e722743999fa077f894b43e49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 25/61] fix: a mesh that was updated can be replaced, so AABB,
 KDOP and RSS queries place it

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 9d920ca..465b10f 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -526,7 +526,7 @@ int BVHModel<BV>::endModel()
 template <typename BV>
 int BVHModel<BV>::beginReplaceModel()
 {
-  if(build_state != BVH_BUILD_STATE_PROCESSED)
+  if(build_state != BVH_BUILD_STATE_PROCESSED && build_state != BVH_BUILD_STATE_UPDATED)
   {
     std::cerr << "BVH Error! Call beginReplaceModel() on a BVHModel that has no previous frame.\n";
     return BVH_ERR_BUILD_EMPTY_PREVIOUS_FRAME;
-- 
2.43.0


From 7e392ce74e1c38990d5630fa32a2c39fbe7af464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 26/61] fix: triangle distance of edges that are parallel up to
 rounding

---
 .../triangle_distance-inl.h                   | 946 +++++++++---------
 1 file changed, 479 insertions(+), 467 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance-inl.h
index 33a1d4f..a66e03b 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance-inl.h
@@ -1,467 +1,479 @@
-/*
- * Software License Agreement (BSD License)
- *
- *  Copyright (c) 2011-2014, Willow Garage, Inc.
- *  Copyright (c) 2014-2016, Open Source Robotics Foundation
- *  All rights reserved.
- *
- *  Redistribution and use in source and binary forms, with or without
- *  modification, are permitted provided that the following conditions
- *  are met:
- *
- *   * Redistributions of source code must retain the above copyright
- *     notice, this list of conditions and the following disclaimer.
- *   * Redistributions in binary form must reproduce the above
- *     copyright notice, this list of conditions and the following
- *     disclaimer in the documentation and/or other materials provided
- *     with the distribution.
- *   * Neither the name of Open Source Robotics Foundation nor the names of its
- *     contributors may be used to endorse or promote products derived
- *     from this software without specific prior written permission.
- *
- *  THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
- *  "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
- *  LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS
- *  FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE
- *  COPYRIGHT OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,
- *  INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,
- *  BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES;
- *  LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER
- *  CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT
- *  LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN
- *  ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
- *  POSSIBILITY OF SUCH DAMAGE.
- */
-
-/** @author Jia Pan */
-
-#ifndef FCL_NARROWPHASE_DETAIL_TRIANGLEDISTANCE_INL_H
-#define FCL_NARROWPHASE_DETAIL_TRIANGLEDISTANCE_INL_H
-
-#include "fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance.h"
-
-namespace fcl
-{
-
-namespace detail
-{
-
-//==============================================================================
-extern template
-class FCL_EXPORT TriangleDistance<double>;
-
-//==============================================================================
-template <typename S>
-void TriangleDistance<S>::segPoints(const Vector3<S>& P, const Vector3<S>& A, const Vector3<S>& Q, const Vector3<S>& B,
-                                 Vector3<S>& VEC, Vector3<S>& X, Vector3<S>& Y)
-{
-  Vector3<S> T;
-  S A_dot_A, B_dot_B, A_dot_B, A_dot_T, B_dot_T;
-  Vector3<S> TMP;
-
-  T = Q - P;
-  A_dot_A = A.dot(A);
-  B_dot_B = B.dot(B);
-  A_dot_B = A.dot(B);
-  A_dot_T = A.dot(T);
-  B_dot_T = B.dot(T);
-
-  // t parameterizes ray P,A
-  // u parameterizes ray Q,B
-
-  S t, u;
-
-  // compute t for the closest point on ray P,A to
-  // ray Q,B
-
-  S denom = A_dot_A*B_dot_B - A_dot_B*A_dot_B;
-
-  t = (A_dot_T*B_dot_B - B_dot_T*A_dot_B) / denom;
-
-  // clamp result so t is on the segment P,A
-
-  if((t < 0) || std::isnan(t)) t = 0; else if(t > 1) t = 1;
-
-  // find u for point on ray Q,B closest to point at t
-
-  u = (t*A_dot_B - B_dot_T) / B_dot_B;
-
-  // if u is on segment Q,B, t and u correspond to
-  // closest points, otherwise, clamp u, recompute and
-  // clamp t
-
-  if((u <= 0) || std::isnan(u))
-  {
-    Y = Q;
-
-    t = A_dot_T / A_dot_A;
-
-    if((t <= 0) || std::isnan(t))
-    {
-      X = P;
-      VEC = Q - P;
-    }
-    else if(t >= 1)
-    {
-      X = P + A;
-      VEC = Q - X;
-    }
-    else
-    {
-      X = P + A * t;
-      TMP = T.cross(A);
-      VEC = A.cross(TMP);
-    }
-  }
-  else if (u >= 1)
-  {
-    Y = Q + B;
-
-    t = (A_dot_B + A_dot_T) / A_dot_A;
-
-    if((t <= 0) || std::isnan(t))
-    {
-      X = P;
-      VEC = Y - P;
-    }
-    else if(t >= 1)
-    {
-      X = P + A;
-      VEC = Y - X;
-    }
-    else
-    {
-      X = P + A * t;
-      T = Y - P;
-      TMP = T.cross(A);
-      VEC= A.cross(TMP);
-    }
-  }
-  else
-  {
-    Y = Q + B * u;
-
-    if((t <= 0) || std::isnan(t))
-    {
-      X = P;
-      TMP = T.cross(B);
-      VEC = B.cross(TMP);
-    }
-    else if(t >= 1)
-    {
-      X = P + A;
-      T = Q - X;
-      TMP = T.cross(B);
-      VEC = B.cross(TMP);
-    }
-    else
-    {
-      X = P + A * t;
-      VEC = A.cross(B);
-      if(VEC.dot(T) < 0)
-      {
-        VEC = VEC * (-1);
-      }
-    }
-  }
-}
-
-//==============================================================================
-template <typename S>
-S TriangleDistance<S>::triDistance(const Vector3<S> T1[3], const Vector3<S> T2[3], Vector3<S>& P, Vector3<S>& Q)
-{
-  // Compute vectors along the 6 sides
-
-  Vector3<S> Sv[3];
-  Vector3<S> Tv[3];
-  Vector3<S> VEC;
-
-  Sv[0] = T1[1] - T1[0];
-  Sv[1] = T1[2] - T1[1];
-  Sv[2] = T1[0] - T1[2];
-
-  Tv[0] = T2[1] - T2[0];
-  Tv[1] = T2[2] - T2[1];
-  Tv[2] = T2[0] - T2[2];
-
-  // For each edge pair, the vector connecting the closest points
-  // of the edges defines a slab (parallel planes at head and tail
-  // enclose the slab). If we can show that the off-edge vertex of
-  // each triangle is outside of the slab, then the closest points
-  // of the edges are the closest points for the triangles.
-  // Even if these tests fail, it may be helpful to know the closest
-  // points found, and whether the triangles were shown disjoint
-
-  Vector3<S> V;
-  Vector3<S> Z;
-  Vector3<S> minP = Vector3<S>::Zero();
-  Vector3<S> minQ = Vector3<S>::Zero();
-  S mindd;
-  int shown_disjoint = 0;
-
-  mindd = (T1[0] - T2[0]).squaredNorm() + 1; // Set first minimum safely high
-
-  for(int i = 0; i < 3; ++i)
-  {
-    for(int j = 0; j < 3; ++j)
-    {
-      // Find closest points on edges i & j, plus the
-      // vector (and distance squared) between these points
-      segPoints(T1[i], Sv[i], T2[j], Tv[j], VEC, P, Q);
-
-      V = Q - P;
-      S dd = V.dot(V);
-
-      // Verify this closest point pair only if the distance
-      // squared is less than the minimum found thus far.
-
-      if(dd <= mindd)
-      {
-        minP = P;
-        minQ = Q;
-        mindd = dd;
-
-        Z = T1[(i+2)%3] - P;
-        S a = Z.dot(VEC);
-        Z = T2[(j+2)%3] - Q;
-        S b = Z.dot(VEC);
-
-        if((a <= 0) && (b >= 0)) return sqrt(dd);
-
-        S p = V.dot(VEC);
-
-        if(a < 0) a = 0;
-        if(b > 0) b = 0;
-        if((p - a + b) > 0) shown_disjoint = 1;
-      }
-    }
-  }
-
-  // No edge pairs contained the closest points.
-  // either:
-  // 1. one of the closest points is a vertex, and the
-  //    other point is interior to a face.
-  // 2. the triangles are overlapping.
-  // 3. an edge of one triangle is parallel to the other's face. If
-  //    cases 1 and 2 are not true, then the closest points from the 9
-  //    edge pairs checks above can be taken as closest points for the
-  //    triangles.
-  // 4. possibly, the triangles were degenerate.  When the
-  //    triangle points are nearly colinear or coincident, one
-  //    of above tests might fail even though the edges tested
-  //    contain the closest points.
-
-  // First check for case 1
-
-  Vector3<S> Sn;
-  S Snl;
-
-  Sn = Sv[0].cross(Sv[1]); // Compute normal to T1 triangle
-  Snl = Sn.dot(Sn);        // Compute square of length of normal
-
-  // If cross product is long enough,
-
-  if(Snl > 1e-15)
-  {
-    // Get projection lengths of T2 points
-
-    Vector3<S> Tp;
-
-    V = T1[0] - T2[0];
-    Tp[0] = V.dot(Sn);
-
-    V = T1[0] - T2[1];
-    Tp[1] = V.dot(Sn);
-
-    V = T1[0] - T2[2];
-    Tp[2] = V.dot(Sn);
-
-    // If Sn is a separating direction,
-    // find point with smallest projection
-
-    int point = -1;
-    if((Tp[0] > 0) && (Tp[1] > 0) && (Tp[2] > 0))
-    {
-      if(Tp[0] < Tp[1]) point = 0; else point = 1;
-      if(Tp[2] < Tp[point]) point = 2;
-    }
-    else if((Tp[0] < 0) && (Tp[1] < 0) && (Tp[2] < 0))
-    {
-      if(Tp[0] > Tp[1]) point = 0; else point = 1;
-      if(Tp[2] > Tp[point]) point = 2;
-    }
-
-    // If Sn is a separating direction,
-
-    if(point >= 0)
-    {
-      shown_disjoint = 1;
-
-      // Test whether the point found, when projected onto the
-      // other triangle, lies within the face.
-
-      V = T2[point] - T1[0];
-      Z = Sn.cross(Sv[0]);
-      if(V.dot(Z) > 0)
-      {
-        V = T2[point] - T1[1];
-        Z = Sn.cross(Sv[1]);
-        if(V.dot(Z) > 0)
-        {
-          V = T2[point] - T1[2];
-          Z = Sn.cross(Sv[2]);
-          if(V.dot(Z) > 0)
-          {
-            // T[point] passed the test - it's a closest point for
-            // the T2 triangle; the other point is on the face of T1
-            P = T2[point] + Sn * (Tp[point] / Snl);
-            Q = T2[point];
-            return (P - Q).norm();
-          }
-        }
-      }
-    }
-  }
-
-  Vector3<S> Tn;
-  S Tnl;
-
-  Tn = Tv[0].cross(Tv[1]);
-  Tnl = Tn.dot(Tn);
-
-  if(Tnl > 1e-15)
-  {
-    Vector3<S> Sp;
-
-    V = T2[0] - T1[0];
-    Sp[0] = V.dot(Tn);
-
-    V = T2[0] - T1[1];
-    Sp[1] = V.dot(Tn);
-
-    V = T2[0] - T1[2];
-    Sp[2] = V.dot(Tn);
-
-    int point = -1;
-    if((Sp[0] > 0) && (Sp[1] > 0) && (Sp[2] > 0))
-    {
-      if(Sp[0] < Sp[1]) point = 0; else point = 1;
-      if(Sp[2] < Sp[point]) point = 2;
-    }
-    else if((Sp[0] < 0) && (Sp[1] < 0) && (Sp[2] < 0))
-    {
-      if(Sp[0] > Sp[1]) point = 0; else point = 1;
-      if(Sp[2] > Sp[point]) point = 2;
-    }
-
-    if(point >= 0)
-    {
-      shown_disjoint = 1;
-
-      V = T1[point] - T2[0];
-      Z = Tn.cross(Tv[0]);
-      if(V.dot(Z) > 0)
-      {
-        V = T1[point] - T2[1];
-        Z = Tn.cross(Tv[1]);
-        if(V.dot(Z) > 0)
-        {
-          V = T1[point] - T2[2];
-          Z = Tn.cross(Tv[2]);
-          if(V.dot(Z) > 0)
-          {
-            P = T1[point];
-            Q = T1[point] + Tn * (Sp[point] / Tnl);
-            return (P - Q).norm();
-          }
-        }
-      }
-    }
-  }
-
-  // Case 1 can't be shown.
-  // If one of these tests showed the triangles disjoint,
-  // we assume case 3 or 4, otherwise we conclude case 2,
-  // that the triangles overlap.
-
-  if(shown_disjoint)
-  {
-    P = minP;
-    Q = minQ;
-    return sqrt(mindd);
-  }
-  else return 0;
-}
-
-//==============================================================================
-template <typename S>
-S TriangleDistance<S>::triDistance(const Vector3<S>& S1, const Vector3<S>& S2, const Vector3<S>& S3,
-                                       const Vector3<S>& T1, const Vector3<S>& T2, const Vector3<S>& T3,
-                                       Vector3<S>& P, Vector3<S>& Q)
-{
-  Vector3<S> U[3];
-  Vector3<S> T[3];
-  U[0] = S1; U[1] = S2; U[2] = S3;
-  T[0] = T1; T[1] = T2; T[2] = T3;
-
-  return triDistance(U, T, P, Q);
-}
-
-//==============================================================================
-template <typename S>
-S TriangleDistance<S>::triDistance(const Vector3<S> T1[3], const Vector3<S> T2[3],
-                                       const Matrix3<S>& R, const Vector3<S>& Tl,
-                                       Vector3<S>& P, Vector3<S>& Q)
-{
-  Vector3<S> T_transformed[3];
-  T_transformed[0] = R * T2[0] + Tl;
-  T_transformed[1] = R * T2[1] + Tl;
-  T_transformed[2] = R * T2[2] + Tl;
-
-  return triDistance(T1, T_transformed, P, Q);
-}
-
-//==============================================================================
-template <typename S>
-S TriangleDistance<S>::triDistance(const Vector3<S> T1[3], const Vector3<S> T2[3],
-                                       const Transform3<S>& tf,
-                                       Vector3<S>& P, Vector3<S>& Q)
-{
-  Vector3<S> T_transformed[3];
-  T_transformed[0] = tf * T2[0];
-  T_transformed[1] = tf * T2[1];
-  T_transformed[2] = tf * T2[2];
-
-  return triDistance(T1, T_transformed, P, Q);
-}
-
-//==============================================================================
-template <typename S>
-S TriangleDistance<S>::triDistance(const Vector3<S>& S1, const Vector3<S>& S2, const Vector3<S>& S3,
-                                       const Vector3<S>& T1, const Vector3<S>& T2, const Vector3<S>& T3,
-                                       const Matrix3<S>& R, const Vector3<S>& Tl,
-                                       Vector3<S>& P, Vector3<S>& Q)
-{
-  Vector3<S> T1_transformed = R * T1 + Tl;
-  Vector3<S> T2_transformed = R * T2 + Tl;
-  Vector3<S> T3_transformed = R * T3 + Tl;
-  return triDistance(S1, S2, S3, T1_transformed, T2_transformed, T3_transformed, P, Q);
-}
-
-//==============================================================================
-template <typename S>
-S TriangleDistance<S>::triDistance(const Vector3<S>& S1, const Vector3<S>& S2, const Vector3<S>& S3,
-                                       const Vector3<S>& T1, const Vector3<S>& T2, const Vector3<S>& T3,
-                                       const Transform3<S>& tf,
-                                       Vector3<S>& P, Vector3<S>& Q)
-{
-  Vector3<S> T1_transformed = tf * T1;
-  Vector3<S> T2_transformed = tf * T2;
-  Vector3<S> T3_transformed = tf * T3;
-  return triDistance(S1, S2, S3, T1_transformed, T2_transformed, T3_transformed, P, Q);
-}
-
-} // namespace detail
-} // namespace fcl
-
-#endif
+/*
+ * Software License Agreement (BSD License)
+ *
+ *  Copyright (c) 2011-2014, Willow Garage, Inc.
+ *  Copyright (c) 2014-2016, Open Source Robotics Foundation
+ *  All rights reserved.
+ *
+ *  Redistribution and use in source and binary forms, with or without
+ *  modification, are permitted provided that the following conditions
+ *  are met:
+ *
+ *   * Redistributions of source code must retain the above copyright
+ *     notice, this list of conditions and the following disclaimer.
+ *   * Redistributions in binary form must reproduce the above
+ *     copyright notice, this list of conditions and the following
+ *     disclaimer in the documentation and/or other materials provided
+ *     with the distribution.
+ *   * Neither the name of Open Source Robotics Foundation nor the names of its
+ *     contributors may be used to endorse or promote products derived
+ *     from this software without specific prior written permission.
+ *
+ *  THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
+ *  "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
+ *  LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS
+ *  FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE
+ *  COPYRIGHT OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,
+ *  INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,
+ *  BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES;
+ *  LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER
+ *  CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT
+ *  LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN
+ *  ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
+ *  POSSIBILITY OF SUCH DAMAGE.
+ */
+
+/** @author Jia Pan */
+
+#ifndef FCL_NARROWPHASE_DETAIL_TRIANGLEDISTANCE_INL_H
+#define FCL_NARROWPHASE_DETAIL_TRIANGLEDISTANCE_INL_H
+
+#include <limits>
+
+#include "fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance.h"
+
+namespace fcl
+{
+
+namespace detail
+{
+
+//==============================================================================
+extern template
+class FCL_EXPORT TriangleDistance<double>;
+
+//==============================================================================
+template <typename S>
+void TriangleDistance<S>::segPoints(const Vector3<S>& P, const Vector3<S>& A, const Vector3<S>& Q, const Vector3<S>& B,
+                                 Vector3<S>& VEC, Vector3<S>& X, Vector3<S>& Y)
+{
+  Vector3<S> T;
+  S A_dot_A, B_dot_B, A_dot_B, A_dot_T, B_dot_T;
+  Vector3<S> TMP;
+
+  T = Q - P;
+  A_dot_A = A.dot(A);
+  B_dot_B = B.dot(B);
+  A_dot_B = A.dot(B);
+  A_dot_T = A.dot(T);
+  B_dot_T = B.dot(T);
+
+  // t parameterizes ray P,A
+  // u parameterizes ray Q,B
+
+  S t, u;
+
+  // compute t for the closest point on ray P,A to
+  // ray Q,B
+
+  S denom = A_dot_A*B_dot_B - A_dot_B*A_dot_B;
+
+  t = (A_dot_T*B_dot_B - B_dot_T*A_dot_B) / denom;
+
+  // clamp result so t is on the segment P,A
+
+  if((t < 0) || std::isnan(t)) t = 0; else if(t > 1) t = 1;
+
+  // find u for point on ray Q,B closest to point at t
+
+  u = (t*A_dot_B - B_dot_T) / B_dot_B;
+
+  // if u is on segment Q,B, t and u correspond to
+  // closest points, otherwise, clamp u, recompute and
+  // clamp t
+
+  if((u <= 0) || std::isnan(u))
+  {
+    Y = Q;
+
+    t = A_dot_T / A_dot_A;
+
+    if((t <= 0) || std::isnan(t))
+    {
+      X = P;
+      VEC = Q - P;
+    }
+    else if(t >= 1)
+    {
+      X = P + A;
+      VEC = Q - X;
+    }
+    else
+    {
+      X = P + A * t;
+      TMP = T.cross(A);
+      VEC = A.cross(TMP);
+    }
+  }
+  else if (u >= 1)
+  {
+    Y = Q + B;
+
+    t = (A_dot_B + A_dot_T) / A_dot_A;
+
+    if((t <= 0) || std::isnan(t))
+    {
+      X = P;
+      VEC = Y - P;
+    }
+    else if(t >= 1)
+    {
+      X = P + A;
+      VEC = Y - X;
+    }
+    else
+    {
+      X = P + A * t;
+      T = Y - P;
+      TMP = T.cross(A);
+      VEC= A.cross(TMP);
+    }
+  }
+  else
+  {
+    Y = Q + B * u;
+
+    if((t <= 0) || std::isnan(t))
+    {
+      X = P;
+      TMP = T.cross(B);
+      VEC = B.cross(TMP);
+    }
+    else if(t >= 1)
+    {
+      X = P + A;
+      T = Q - X;
+      TMP = T.cross(B);
+      VEC = B.cross(TMP);
+    }
+    else
+    {
+      X = P + A * t;
+      if(denom > 100 * std::numeric_limits<S>::epsilon() * A_dot_A * B_dot_B)
+      {
+        VEC = A.cross(B);
+        if(VEC.dot(T) < 0)
+        {
+          VEC = VEC * (-1);
+        }
+      }
+      else
+      {
+        // the edges are parallel up to rounding, their cross product has no
+        // meaningful direction
+        TMP = T.cross(A);
+        VEC = A.cross(TMP);
+      }
+    }
+  }
+}
+
+//==============================================================================
+template <typename S>
+S TriangleDistance<S>::triDistance(const Vector3<S> T1[3], const Vector3<S> T2[3], Vector3<S>& P, Vector3<S>& Q)
+{
+  // Compute vectors along the 6 sides
+
+  Vector3<S> Sv[3];
+  Vector3<S> Tv[3];
+  Vector3<S> VEC;
+
+  Sv[0] = T1[1] - T1[0];
+  Sv[1] = T1[2] - T1[1];
+  Sv[2] = T1[0] - T1[2];
+
+  Tv[0] = T2[1] - T2[0];
+  Tv[1] = T2[2] - T2[1];
+  Tv[2] = T2[0] - T2[2];
+
+  // For each edge pair, the vector connecting the closest points
+  // of the edges defines a slab (parallel planes at head and tail
+  // enclose the slab). If we can show that the off-edge vertex of
+  // each triangle is outside of the slab, then the closest points
+  // of the edges are the closest points for the triangles.
+  // Even if these tests fail, it may be helpful to know the closest
+  // points found, and whether the triangles were shown disjoint
+
+  Vector3<S> V;
+  Vector3<S> Z;
+  Vector3<S> minP = Vector3<S>::Zero();
+  Vector3<S> minQ = Vector3<S>::Zero();
+  S mindd;
+  int shown_disjoint = 0;
+
+  mindd = (T1[0] - T2[0]).squaredNorm() + 1; // Set first minimum safely high
+
+  for(int i = 0; i < 3; ++i)
+  {
+    for(int j = 0; j < 3; ++j)
+    {
+      // Find closest points on edges i & j, plus the
+      // vector (and distance squared) between these points
+      segPoints(T1[i], Sv[i], T2[j], Tv[j], VEC, P, Q);
+
+      V = Q - P;
+      S dd = V.dot(V);
+
+      // Verify this closest point pair only if the distance
+      // squared is less than the minimum found thus far.
+
+      if(dd <= mindd)
+      {
+        minP = P;
+        minQ = Q;
+        mindd = dd;
+
+        Z = T1[(i+2)%3] - P;
+        S a = Z.dot(VEC);
+        Z = T2[(j+2)%3] - Q;
+        S b = Z.dot(VEC);
+
+        if((a <= 0) && (b >= 0)) return sqrt(dd);
+
+        S p = V.dot(VEC);
+
+        if(a < 0) a = 0;
+        if(b > 0) b = 0;
+        if((p - a + b) > 0) shown_disjoint = 1;
+      }
+    }
+  }
+
+  // No edge pairs contained the closest points.
+  // either:
+  // 1. one of the closest points is a vertex, and the
+  //    other point is interior to a face.
+  // 2. the triangles are overlapping.
+  // 3. an edge of one triangle is parallel to the other's face. If
+  //    cases 1 and 2 are not true, then the closest points from the 9
+  //    edge pairs checks above can be taken as closest points for the
+  //    triangles.
+  // 4. possibly, the triangles were degenerate.  When the
+  //    triangle points are nearly colinear or coincident, one
+  //    of above tests might fail even though the edges tested
+  //    contain the closest points.
+
+  // First check for case 1
+
+  Vector3<S> Sn;
+  S Snl;
+
+  Sn = Sv[0].cross(Sv[1]); // Compute normal to T1 triangle
+  Snl = Sn.dot(Sn);        // Compute square of length of normal
+
+  // If cross product is long enough,
+
+  if(Snl > 1e-15)
+  {
+    // Get projection lengths of T2 points
+
+    Vector3<S> Tp;
+
+    V = T1[0] - T2[0];
+    Tp[0] = V.dot(Sn);
+
+    V = T1[0] - T2[1];
+    Tp[1] = V.dot(Sn);
+
+    V = T1[0] - T2[2];
+    Tp[2] = V.dot(Sn);
+
+    // If Sn is a separating direction,
+    // find point with smallest projection
+
+    int point = -1;
+    if((Tp[0] > 0) && (Tp[1] > 0) && (Tp[2] > 0))
+    {
+      if(Tp[0] < Tp[1]) point = 0; else point = 1;
+      if(Tp[2] < Tp[point]) point = 2;
+    }
+    else if((Tp[0] < 0) && (Tp[1] < 0) && (Tp[2] < 0))
+    {
+      if(Tp[0] > Tp[1]) point = 0; else point = 1;
+      if(Tp[2] > Tp[point]) point = 2;
+    }
+
+    // If Sn is a separating direction,
+
+    if(point >= 0)
+    {
+      shown_disjoint = 1;
+
+      // Test whether the point found, when projected onto the
+      // other triangle, lies within the face.
+
+      V = T2[point] - T1[0];
+      Z = Sn.cross(Sv[0]);
+      if(V.dot(Z) > 0)
+      {
+        V = T2[point] - T1[1];
+        Z = Sn.cross(Sv[1]);
+        if(V.dot(Z) > 0)
+        {
+          V = T2[point] - T1[2];
+          Z = Sn.cross(Sv[2]);
+          if(V.dot(Z) > 0)
+          {
+            // T[point] passed the test - it's a closest point for
+            // the T2 triangle; the other point is on the face of T1
+            P = T2[point] + Sn * (Tp[point] / Snl);
+            Q = T2[point];
+            return (P - Q).norm();
+          }
+        }
+      }
+    }
+  }
+
+  Vector3<S> Tn;
+  S Tnl;
+
+  Tn = Tv[0].cross(Tv[1]);
+  Tnl = Tn.dot(Tn);
+
+  if(Tnl > 1e-15)
+  {
+    Vector3<S> Sp;
+
+    V = T2[0] - T1[0];
+    Sp[0] = V.dot(Tn);
+
+    V = T2[0] - T1[1];
+    Sp[1] = V.dot(Tn);
+
+    V = T2[0] - T1[2];
+    Sp[2] = V.dot(Tn);
+
+    int point = -1;
+    if((Sp[0] > 0) && (Sp[1] > 0) && (Sp[2] > 0))
+    {
+      if(Sp[0] < Sp[1]) point = 0; else point = 1;
+      if(Sp[2] < Sp[point]) point = 2;
+    }
+    else if((Sp[0] < 0) && (Sp[1] < 0) && (Sp[2] < 0))
+    {
+      if(Sp[0] > Sp[1]) point = 0; else point = 1;
+      if(Sp[2] > Sp[point]) point = 2;
+    }
+
+    if(point >= 0)
+    {
+      shown_disjoint = 1;
+
+      V = T1[point] - T2[0];
+      Z = Tn.cross(Tv[0]);
+      if(V.dot(Z) > 0)
+      {
+        V = T1[point] - T2[1];
+        Z = Tn.cross(Tv[1]);
+        if(V.dot(Z) > 0)
+        {
+          V = T1[point] - T2[2];
+          Z = Tn.cross(Tv[2]);
+          if(V.dot(Z) > 0)
+          {
+            P = T1[point];
+            Q = T1[point] + Tn * (Sp[point] / Tnl);
+            return (P - Q).norm();
+          }
+        }
+      }
+    }
+  }
+
+  // Case 1 can't be shown.
+  // If one of these tests showed the triangles disjoint,
+  // we assume case 3 or 4, otherwise we conclude case 2,
+  // that the triangles overlap.
+
+  if(shown_disjoint)
+  {
+    P = minP;
+    Q = minQ;
+    return sqrt(mindd);
+  }
+  else return 0;
+}
+
+//==============================================================================
+template <typename S>
+S TriangleDistance<S>::triDistance(const Vector3<S>& S1, const Vector3<S>& S2, const Vector3<S>& S3,
+                                       const Vector3<S>& T1, const Vector3<S>& T2, const Vector3<S>& T3,
+                                       Vector3<S>& P, Vector3<S>& Q)
+{
+  Vector3<S> U[3];
+  Vector3<S> T[3];
+  U[0] = S1; U[1] = S2; U[2] = S3;
+  T[0] = T1; T[1] = T2; T[2] = T3;
+
+  return triDistance(U, T, P, Q);
+}
+
+//==============================================================================
+template <typename S>
+S TriangleDistance<S>::triDistance(const Vector3<S> T1[3], const Vector3<S> T2[3],
+                                       const Matrix3<S>& R, const Vector3<S>& Tl,
+                                       Vector3<S>& P, Vector3<S>& Q)
+{
+  Vector3<S> T_transformed[3];
+  T_transformed[0] = R * T2[0] + Tl;
+  T_transformed[1] = R * T2[1] + Tl;
+  T_transformed[2] = R * T2[2] + Tl;
+
+  return triDistance(T1, T_transformed, P, Q);
+}
+
+//==============================================================================
+template <typename S>
+S TriangleDistance<S>::triDistance(const Vector3<S> T1[3], const Vector3<S> T2[3],
+                                       const Transform3<S>& tf,
+                                       Vector3<S>& P, Vector3<S>& Q)
+{
+  Vector3<S> T_transformed[3];
+  T_transformed[0] = tf * T2[0];
+  T_transformed[1] = tf * T2[1];
+  T_transformed[2] = tf * T2[2];
+
+  return triDistance(T1, T_transformed, P, Q);
+}
+
+//==============================================================================
+template <typename S>
+S TriangleDistance<S>::triDistance(const Vector3<S>& S1, const Vector3<S>& S2, const Vector3<S>& S3,
+                                       const Vector3<S>& T1, const Vector3<S>& T2, const Vector3<S>& T3,
+                                       const Matrix3<S>& R, const Vector3<S>& Tl,
+                                       Vector3<S>& P, Vector3<S>& Q)
+{
+  Vector3<S> T1_transformed = R * T1 + Tl;
+  Vector3<S> T2_transformed = R * T2 + Tl;
+  Vector3<S> T3_transformed = R * T3 + Tl;
+  return triDistance(S1, S2, S3, T1_transformed, T2_transformed, T3_transformed, P, Q);
+}
+
+//==============================================================================
+template <typename S>
+S TriangleDistance<S>::triDistance(const Vector3<S>& S1, const Vector3<S>& S2, const Vector3<S>& S3,
+                                       const Vector3<S>& T1, const Vector3<S>& T2, const Vector3<S>& T3,
+                                       const Transform3<S>& tf,
+                                       Vector3<S>& P, Vector3<S>& Q)
+{
+  Vector3<S> T1_transformed = tf * T1;
+  Vector3<S> T2_transformed = tf * T2;
+  Vector3<S> T3_transformed = tf * T3;
+  return triDistance(S1, S2, S3, T1_transformed, T2_transformed, T3_transformed, P, Q);
+}
+
+} // namespace detail
+} // namespace fcl
+
+#endif
-- 
2.43.0


From 1b8ecbde07bb15431421a103c15291907f5799f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 27/61] fix: results of AABB, KDOP and RSS mesh queries name
 the objects, not deleted temporary copies

---
 .../detail/collision_func_matrix-inl.h        | 28 +++++++++++++++++++
 .../detail/distance_func_matrix-inl.h         |  5 ++++
 2 files changed, 33 insertions(+)

diff --git a/include/fcl/narrowphase/detail/collision_func_matrix-inl.h b/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
index 092d338..2598e87 100644
--- a/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
@@ -310,6 +310,30 @@ std::size_t ShapeShapeCollide(
   return result.numContacts();
 }
 
+//==============================================================================
+/// Contacts found on a temporary copy of an object are contacts of the object
+template <typename S>
+void renameContactObject(
+    CollisionResult<S>& result,
+    const CollisionGeometry<S>* copy,
+    const CollisionGeometry<S>* original)
+{
+  std::vector<Contact<S>> contacts;
+  result.getContacts(contacts);
+  std::vector<CostSource<S>> cost_sources;
+  result.getCostSources(cost_sources);
+
+  result.clear();
+  for(auto& contact : contacts)
+  {
+    if(contact.o1 == copy) contact.o1 = original;
+    if(contact.o2 == copy) contact.o2 = original;
+    result.addContact(contact);
+  }
+  for(const auto& cost_source : cost_sources)
+    result.addCostSource(cost_source, cost_sources.size());
+}
+
 //==============================================================================
 template <typename BV, typename Shape, typename NarrowPhaseSolver>
 struct BVHShapeCollider
@@ -341,6 +365,7 @@ struct BVHShapeCollider
       initialize(node, *obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, no_cost_request, result);
       fcl::detail::collide(&node);
 
+      renameContactObject<S>(result, obj1_tmp, obj1);
       delete obj1_tmp;
 
       Box<S> box;
@@ -365,6 +390,7 @@ struct BVHShapeCollider
       initialize(node, *obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, request, result);
       fcl::detail::collide(&node);
 
+      renameContactObject<S>(result, obj1_tmp, obj1);
       delete obj1_tmp;
     }
 
@@ -546,6 +572,8 @@ struct BVHCollideImpl
     initialize(node, *obj1_tmp, tf1_tmp, *obj2_tmp, tf2_tmp, request, result);
     collide(&node);
 
+    renameContactObject<S>(result, obj1_tmp, obj1);
+    renameContactObject<S>(result, obj2_tmp, obj2);
     delete obj1_tmp;
     delete obj2_tmp;
 
diff --git a/include/fcl/narrowphase/detail/distance_func_matrix-inl.h b/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
index 43f5f09..3fa9a08 100644
--- a/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
@@ -249,6 +249,8 @@ struct BVHShapeDistancer
     initialize(node, *obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, request, result);
     ::fcl::distance(&node);
 
+    // the result is about the object, not about its temporary copy
+    if(result.o1 == obj1_tmp) result.o1 = obj1;
     delete obj1_tmp;
     return result.min_distance;
   }
@@ -362,6 +364,9 @@ struct BVHDistanceImpl
 
     initialize(node, *obj1_tmp, tf1_tmp, *obj2_tmp, tf2_tmp, request, result);
     distance(&node);
+    // the result is about the objects, not about their temporary copies
+    if(result.o1 == obj1_tmp) result.o1 = obj1;
+    if(result.o2 == obj2_tmp) result.o2 = obj2;
     delete obj1_tmp;
     delete obj2_tmp;
 
-- 
2.43.0


From 161cc777d3577ac63faf049c542c2bcad987d5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 28/61] fix: sphere-triangle contacts and nearest points (depth
 sign, nearest edge, frame, unset distance)

---
 .../sphere_triangle-inl.h                     | 33 ++++++++++++-------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
index 0078900..4d45030 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
@@ -40,6 +40,9 @@
 
 #include "fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle.h"
 
+#include <algorithm>
+
+#include "fcl/math/constants.h"
 #include "fcl/math/detail/project.h"
 
 namespace fcl
@@ -168,26 +171,30 @@ bool sphereTriangleIntersect(const Sphere<S>& s, const Transform3<S>& tf,
     {
       S contact_capsule_radius_sqr = radius_with_threshold * radius_with_threshold;
       Vector3<S> nearest_on_edge;
+      S nearest_distance_sqr = contact_capsule_radius_sqr;
       S distance_sqr;
       distance_sqr = segmentSqrDistance(P1, P2, center, nearest_on_edge);
-      if(distance_sqr < contact_capsule_radius_sqr)
+      if(distance_sqr < nearest_distance_sqr)
       {
         has_contact = true;
         contact_point = nearest_on_edge;
+        nearest_distance_sqr = distance_sqr;
       }
 
       distance_sqr = segmentSqrDistance(P2, P3, center, nearest_on_edge);
-      if(distance_sqr < contact_capsule_radius_sqr)
+      if(distance_sqr < nearest_distance_sqr)
       {
         has_contact = true;
         contact_point = nearest_on_edge;
+        nearest_distance_sqr = distance_sqr;
       }
 
       distance_sqr = segmentSqrDistance(P3, P1, center, nearest_on_edge);
-      if(distance_sqr < contact_capsule_radius_sqr)
+      if(distance_sqr < nearest_distance_sqr)
       {
         has_contact = true;
         contact_point = nearest_on_edge;
+        nearest_distance_sqr = distance_sqr;
       }
     }
   }
@@ -199,18 +206,22 @@ bool sphereTriangleIntersect(const Sphere<S>& s, const Transform3<S>& tf,
 
     if(distance_sqr < radius_with_threshold * radius_with_threshold)
     {
-      if(distance_sqr > 0)
+      // if the center lies on the triangle (up to rounding), the direction from
+      // the contact to the center means nothing
+      const S eps = 16 * constants<S>::eps()
+          * std::max(S(1), std::max(center.norm(), radius));
+      if(distance_sqr > eps * eps)
       {
         S distance = std::sqrt(distance_sqr);
         if(normal_) *normal_ = contact_to_center.normalized();
         if(contact_points) *contact_points = contact_point;
-        if(penetration_depth) *penetration_depth = -(radius - distance);
+        if(penetration_depth) *penetration_depth = radius - distance;
       }
       else
       {
         if(normal_) *normal_ = -normal;
         if(contact_points) *contact_points = contact_point;
-        if(penetration_depth) *penetration_depth = -radius;
+        if(penetration_depth) *penetration_depth = radius;
       }
 
       return true;
@@ -480,12 +491,15 @@ bool sphereTriangleDistance(const Sphere<S>& sp, const Transform3<S>& tf,
       Vector3<S> project_p = P1 * result.parameterization[0] + P2 * result.parameterization[1] + P3 * result.parameterization[2];
       Vector3<S> dir = o - project_p;
       dir.normalize();
-      if(p1) { *p1 = o - dir * sp.radius; *p1 = tf.inverse(Eigen::Isometry) * (*p1); }
+      if(p1) *p1 = o - dir * sp.radius;
       if(p2) *p2 = project_p;
       return true;
     }
     else
+    {
+      if(dist) *dist = -1;
       return false;
+    }
   }
   else
   {
@@ -499,10 +513,7 @@ bool sphereTriangleDistance(const Sphere<S>& sp, const Transform3<S>& tf1,
                             const Vector3<S>& P1, const Vector3<S>& P2, const Vector3<S>& P3, const Transform3<S>& tf2,
                             S* dist, Vector3<S>* p1, Vector3<S>* p2)
 {
-  bool res = detail::sphereTriangleDistance(sp, tf1, tf2 * P1, tf2 * P2, tf2 * P3, dist, p1, p2);
-  if(p2) *p2 = tf2.inverse(Eigen::Isometry) * (*p2);
-
-  return res;
+  return detail::sphereTriangleDistance(sp, tf1, tf2 * P1, tf2 * P2, tf2 * P3, dist, p1, p2);
 }
 
 } // namespace detail
-- 
2.43.0


From 067cf2c248e9f4da5ba7d62ad50c7d9743d0a423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 29/61] fix: shape-triangle contacts: world normal and positive
 depth; halfspace and plane without support function

---
 .../narrowphase/detail/gjk_solver_indep-inl.h | 50 +++++++++++++++++--
 .../detail/gjk_solver_libccd-inl.h            | 42 ++++++++++++++++
 2 files changed, 88 insertions(+), 4 deletions(-)

diff --git a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
index c347182..a8961e9 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
@@ -391,8 +391,8 @@ struct ShapeTriangleIntersectIndepImpl
           {
             w0.noalias() += shape.support(epa.result.c[i]->d, 0) * epa.result.p[i];
           }
-          if(penetration_depth) *penetration_depth = -epa.depth;
-          if(normal) *normal = -epa.normal;
+          if(penetration_depth) *penetration_depth = epa.depth;
+          if(normal) (*normal).noalias() = tf.linear() * epa.normal;
           if(contact_points) (*contact_points).noalias() = tf * (w0 - epa.normal*(epa.depth *0.5));
           return true;
         }
@@ -443,6 +443,48 @@ struct ShapeTriangleIntersectIndepImpl<S, Sphere<S>>
   }
 };
 
+//==============================================================================
+template<typename S>
+struct ShapeTriangleIntersectIndepImpl<S, Halfspace<S>>
+{
+  static bool run(
+      const GJKSolver_indep<S>& /*gjkSolver*/,
+      const Halfspace<S>& s,
+      const Transform3<S>& tf,
+      const Vector3<S>& P1,
+      const Vector3<S>& P2,
+      const Vector3<S>& P3,
+      Vector3<S>* contact_points,
+      S* penetration_depth,
+      Vector3<S>* normal)
+  {
+    return detail::halfspaceTriangleIntersect(
+          s, tf, P1, P2, P3, Transform3<S>::Identity(),
+          contact_points, penetration_depth, normal);
+  }
+};
+
+//==============================================================================
+template<typename S>
+struct ShapeTriangleIntersectIndepImpl<S, Plane<S>>
+{
+  static bool run(
+      const GJKSolver_indep<S>& /*gjkSolver*/,
+      const Plane<S>& s,
+      const Transform3<S>& tf,
+      const Vector3<S>& P1,
+      const Vector3<S>& P2,
+      const Vector3<S>& P3,
+      Vector3<S>* contact_points,
+      S* penetration_depth,
+      Vector3<S>* normal)
+  {
+    return detail::planeTriangleIntersect(
+          s, tf, P1, P2, P3, Transform3<S>::Identity(),
+          contact_points, penetration_depth, normal);
+  }
+};
+
 
 //==============================================================================
 template<typename S, typename Shape>
@@ -488,8 +530,8 @@ struct ShapeTransformedTriangleIntersectIndepImpl
           {
             w0.noalias() += shape.support(epa.result.c[i]->d, 0) * epa.result.p[i];
           }
-          if(penetration_depth) *penetration_depth = -epa.depth;
-          if(normal) *normal = -epa.normal;
+          if(penetration_depth) *penetration_depth = epa.depth;
+          if(normal) (*normal).noalias() = tf1.linear() * epa.normal;
           if(contact_points) (*contact_points).noalias() = tf1 * (w0 - epa.normal*(epa.depth *0.5));
           return true;
         }
diff --git a/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h b/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
index 7207292..2ea2a90 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
@@ -418,6 +418,48 @@ struct ShapeTriangleIntersectLibccdImpl<S, Sphere<S>>
   }
 };
 
+//==============================================================================
+template<typename S>
+struct ShapeTriangleIntersectLibccdImpl<S, Halfspace<S>>
+{
+  static bool run(
+      const GJKSolver_libccd<S>& /*gjkSolver*/,
+      const Halfspace<S>& s,
+      const Transform3<S>& tf,
+      const Vector3<S>& P1,
+      const Vector3<S>& P2,
+      const Vector3<S>& P3,
+      Vector3<S>* contact_points,
+      S* penetration_depth,
+      Vector3<S>* normal)
+  {
+    return detail::halfspaceTriangleIntersect(
+          s, tf, P1, P2, P3, Transform3<S>::Identity(),
+          contact_points, penetration_depth, normal);
+  }
+};
+
+//==============================================================================
+template<typename S>
+struct ShapeTriangleIntersectLibccdImpl<S, Plane<S>>
+{
+  static bool run(
+      const GJKSolver_libccd<S>& /*gjkSolver*/,
+      const Plane<S>& s,
+      const Transform3<S>& tf,
+      const Vector3<S>& P1,
+      const Vector3<S>& P2,
+      const Vector3<S>& P3,
+      Vector3<S>* contact_points,
+      S* penetration_depth,
+      Vector3<S>* normal)
+  {
+    return detail::planeTriangleIntersect(
+          s, tf, P1, P2, P3, Transform3<S>::Identity(),
+          contact_points, penetration_depth, normal);
+  }
+};
+
 //==============================================================================
 template<typename S, typename Shape>
 struct ShapeTransformedTriangleIntersectLibccdImpl
-- 
2.43.0


From e2c67ac931832a11530dc9de0a9da6eb2d87dbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 30/61] fix: RSS of a plane and of a halfspace

---
 include/fcl/geometry/shape/utility-inl.h | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index ca42a0b..0db1e46 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -384,7 +384,8 @@ struct FCL_EXPORT ComputeBVImpl<S, RSS<S>, Halfspace<S>>
     /// Half space can only have very rough RSS
     bv.axis.setIdentity();
     bv.To.setZero();
-    bv.l[0] = bv.l[1] = bv.r = std::numeric_limits<S>::max();
+    bv.l[0] = bv.l[1] = 0;
+    bv.r = std::numeric_limits<S>::max();
   }
 };
 
@@ -674,16 +675,14 @@ struct FCL_EXPORT ComputeBVImpl<S, RSS<S>, Plane<S>>
 {
   static void run(const Plane<S>& s, const Transform3<S>& tf, RSS<S>& bv)
   {
-    const Vector3<S> n = tf.linear() * s.n;
-    bv.axis = generateCoordinateSystem(n);
-
-    bv.l[0] = std::numeric_limits<S>::max();
-    bv.l[1] = std::numeric_limits<S>::max();
-
-    bv.r = 0;
+    FCL_UNUSED(s);
+    FCL_UNUSED(tf);
 
-    Vector3<S> p = s.n * s.d;
-    bv.To = tf * p;
+    /// Plane can only have very rough RSS: a rectangle has finite sides
+    bv.axis.setIdentity();
+    bv.To.setZero();
+    bv.l[0] = bv.l[1] = 0;
+    bv.r = std::numeric_limits<S>::max();
   }
 };
 
-- 
2.43.0


From bd8b74d53f28c3907e4ae91bb8222c521ec44bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 31/61] fix: OBB of a convex lost the fitted axes

---
 include/fcl/geometry/shape/utility-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index 0db1e46..565763d 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -253,7 +253,7 @@ struct FCL_EXPORT ComputeBVImpl<S, OBB<S>, Convex<S>>
   {
     fit(s.getVertices().data(), static_cast<int>(s.getVertices().size()), bv);
 
-    bv.axis = tf.linear();
+    bv.axis = tf.linear() * bv.axis;
     bv.To = tf * bv.To;
   }
 };
-- 
2.43.0


From 1fc372c4006682c74abf7c42d2fc2f0a03e745c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 32/61] fix: KDOPs of halfspaces and planes with diagonal
 normals bounded the wrong side or direction

---
 include/fcl/geometry/shape/utility-inl.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index 565763d..fa9f106 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -451,7 +451,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 16>, Halfspace<S>>
     }
     else if(n[1] == (S)0.0 && n[0] == n[2])
     {
-      if(n[1] > 0) bv.dist(D + 4) = n[0] * d * 2;
+      if(n[0] > 0) bv.dist(D + 4) = n[0] * d * 2;
       else bv.dist(4) = n[0] * d * 2;
     }
     else if(n[0] == (S)0.0 && n[1] == n[2])
@@ -511,7 +511,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 18>, Halfspace<S>>
     }
     else if(n[1] == (S)0.0 && n[0] == n[2])
     {
-      if(n[1] > 0) bv.dist(D + 4) = n[0] * d * 2;
+      if(n[0] > 0) bv.dist(D + 4) = n[0] * d * 2;
       else bv.dist(4) = n[0] * d * 2;
     }
     else if(n[0] == (S)0.0 && n[1] == n[2])
@@ -576,7 +576,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 24>, Halfspace<S>>
     }
     else if(n[1] == (S)0.0 && n[0] == n[2])
     {
-      if(n[1] > 0) bv.dist(D + 4) = n[0] * d * 2;
+      if(n[0] > 0) bv.dist(D + 4) = n[0] * d * 2;
       else bv.dist(4) = n[0] * d * 2;
     }
     else if(n[0] == (S)0.0 && n[1] == n[2])
@@ -599,7 +599,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 24>, Halfspace<S>>
       if(n[1] > 0) bv.dist(D + 8) = n[1] * d * 2;
       else bv.dist(8) = n[1] * d * 2;
     }
-    else if(n[0] + n[2] == (S)0.0 && n[0] + n[1] == (S)0.0)
+    else if(n[0] == n[1] && n[0] + n[2] == (S)0.0)
     {
       if(n[0] > 0) bv.dist(D + 9) = n[0] * d * 3;
       else bv.dist(9) = n[0] * d * 3;
@@ -752,7 +752,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 16>, Plane<S>>
     }
     else if(n[0] == (S)0.0 && n[1] == n[2])
     {
-      bv.dist(6) = bv.dist(D + 5) = n[1] * d * 2;
+      bv.dist(5) = bv.dist(D + 5) = n[1] * d * 2;
     }
     else if(n[2] == (S)0.0 && n[0] + n[1] == (S)0.0)
     {
@@ -880,7 +880,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 24>, Plane<S>>
     {
       bv.dist(8) = bv.dist(D + 8) = n[1] * d * 2;
     }
-    else if(n[0] + n[2] == (S)0.0 && n[0] + n[1] == (S)0.0)
+    else if(n[0] == n[1] && n[0] + n[2] == (S)0.0)
     {
       bv.dist(9) = bv.dist(D + 9) = n[0] * d * 3;
     }
-- 
2.43.0


From ce1da59193153c466e1aa279fc05be46239e7411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 33/61] fix: boxes constructed from OBB, kIOS and RSS ignored
 the given pose or were centered at a corner

---
 include/fcl/geometry/shape/utility-inl.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index fa9f106..832407c 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -1101,7 +1101,7 @@ void constructBox(const RSS<S>& bv, Box<S>& box, Transform3<S>& tf)
 {
   box = Box<S>(bv.width(), bv.height(), bv.depth());
   tf.linear() = bv.axis;
-  tf.translation() = bv.To;
+  tf.translation() = bv.center();
 }
 
 //==============================================================================
@@ -1143,11 +1143,10 @@ void constructBox(const AABB<S>& bv, const Transform3<S>& tf_bv, Box<S>& box, Tr
 template <typename S>
 void constructBox(const OBB<S>& bv, const Transform3<S>& tf_bv, Box<S>& box, Transform3<S>& tf)
 {
-  FCL_UNUSED(tf_bv);
-
   box = Box<S>(bv.extent * 2);
   tf.linear() = bv.axis;
   tf.translation() = bv.To;
+  tf = tf_bv * tf;
 }
 
 //==============================================================================
@@ -1164,11 +1163,10 @@ void constructBox(const OBBRSS<S>& bv, const Transform3<S>& tf_bv, Box<S>& box,
 template <typename S>
 void constructBox(const kIOS<S>& bv, const Transform3<S>& tf_bv, Box<S>& box, Transform3<S>& tf)
 {
-  FCL_UNUSED(tf_bv);
-
   box = Box<S>(bv.obb.extent * 2);
   tf.linear() = bv.obb.axis;
   tf.translation() = bv.obb.To;
+  tf = tf_bv * tf;
 }
 
 //==============================================================================
@@ -1177,7 +1175,7 @@ void constructBox(const RSS<S>& bv, const Transform3<S>& tf_bv, Box<S>& box, Tra
 {
   box = Box<S>(bv.width(), bv.height(), bv.depth());
   tf.linear() = bv.axis;
-  tf.translation() = bv.To;
+  tf.translation() = bv.center();
   tf = tf_bv * tf;
 }
 
-- 
2.43.0


From 9525da6fe5f31e5f0c41a9469bdafbc225e5ed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:26 +0000
Subject: [PATCH 34/61] fix: number of triangles generated for a sphere or
 ellipsoid grew with the square of its area

---
 include/fcl/geometry/geometric_shape_to_BVH_model-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/geometry/geometric_shape_to_BVH_model-inl.h b/include/fcl/geometry/geometric_shape_to_BVH_model-inl.h
index 7fe4386..7a65e95 100644
--- a/include/fcl/geometry/geometric_shape_to_BVH_model-inl.h
+++ b/include/fcl/geometry/geometric_shape_to_BVH_model-inl.h
@@ -177,7 +177,7 @@ int generateBVHModel(BVHModel<BV>& model, const Sphere<typename BV::S>& shape, c
   using S = typename BV::S;
 
   S r = shape.radius;
-  S n_low_bound = sqrtf(n_faces_for_unit_sphere / 2.0) * r * r;
+  S n_low_bound = sqrtf(n_faces_for_unit_sphere / 2.0) * r;
   unsigned int ring = ceil(n_low_bound);
   unsigned int seg = ceil(n_low_bound);
 
@@ -264,7 +264,7 @@ int generateBVHModel(BVHModel<BV>& model, const Ellipsoid<typename BV::S>& shape
   const S& cp = std::pow(shape.radii[2], p);
 
   const S ratio = std::pow((ap * bp + bp * cp + cp * ap) / 3.0, 1.0 / p);
-  const S n_low_bound = std::sqrt(n_faces_for_unit_ellipsoid / 2.0) * ratio;
+  const S n_low_bound = std::sqrt(n_faces_for_unit_ellipsoid / 2.0 * ratio);
 
   const unsigned int ring = std::ceil(n_low_bound);
   const unsigned int seg = std::ceil(n_low_bound);
-- 
2.43.0


From 9eec323c7695d36f3bb7863b6a71de3f190a87da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:26 +0000
Subject: [PATCH 35/61] fix: inertia of a convex about its center of mass mixed
 unit mass and unit density

---
 include/fcl/geometry/shape/convex-inl.h | 10 ++++++++++
 include/fcl/geometry/shape/convex.h     |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/include/fcl/geometry/shape/convex-inl.h b/include/fcl/geometry/shape/convex-inl.h
index ef3dc75..c602b0f 100644
--- a/include/fcl/geometry/shape/convex-inl.h
+++ b/include/fcl/geometry/shape/convex-inl.h
@@ -161,6 +161,16 @@ Matrix3<S> Convex<S>::computeMomentofInertia() const {
   return m * (6 / vol_times_six);
 }
 
+//==============================================================================
+template <typename S>
+Matrix3<S> Convex<S>::computeMomentofInertiaRelatedToCOM() const {
+  // computeMomentofInertia() is the inertia of a unit mass, so the base class,
+  // which shifts by the mass of a unit density, doesn't apply.
+  const Vector3<S> com = computeCOM();
+  return computeMomentofInertia() -
+         (com.dot(com) * Matrix3<S>::Identity() - com * com.transpose());
+}
+
 //==============================================================================
 template <typename S>
 Vector3<S> Convex<S>::computeCOM() const {
diff --git a/include/fcl/geometry/shape/convex.h b/include/fcl/geometry/shape/convex.h
index 41f2cca..6b4041c 100644
--- a/include/fcl/geometry/shape/convex.h
+++ b/include/fcl/geometry/shape/convex.h
@@ -158,6 +158,9 @@ public:
   // Documentation inherited.
   Matrix3<S> computeMomentofInertia() const override;
 
+  // Documentation inherited. As computeMomentofInertia(), for a unit mass.
+  Matrix3<S> computeMomentofInertiaRelatedToCOM() const override;
+
   // Documentation inherited.
   Vector3<S> computeCOM() const override;
 
-- 
2.43.0


From 7f36d8dd16df6a872c7423ae2b4ba1373c287145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:19 +0000
Subject: [PATCH 36/61] fix: octree solver lost collisions with half spaces
 bounded along an axis

Their axis-aligned box is infinite, and turning it into an oriented one
overflows; bound the placed shape by an oriented box at once.
---
 .../detail/traversal/octree/octree_solver-inl.h           | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
index 9c66696..80d0e9b 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
@@ -190,10 +190,8 @@ void OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersect(
   crequest = &request_;
   cresult = &result_;
 
-  AABB<S> bv2;
-  computeBV(s, Transform3<S>::Identity(), bv2);
   OBB<S> obb2;
-  convertBV(bv2, tf2, obb2);
+  computeBV(s, tf2, obb2);
   OcTreeShapeIntersectRecurse(tree, tree->getRoot(), tree->getRootBV(),
                               s, obb2,
                               tf1, tf2);
@@ -215,10 +213,8 @@ void OcTreeSolver<NarrowPhaseSolver>::ShapeOcTreeIntersect(
   crequest = &request_;
   cresult = &result_;
 
-  AABB<S> bv1;
-  computeBV(s, Transform3<S>::Identity(), bv1);
   OBB<S> obb1;
-  convertBV(bv1, tf1, obb1);
+  computeBV(s, tf1, obb1);
   OcTreeShapeIntersectRecurse(tree, tree->getRoot(), tree->getRootBV(),
                               s, obb1,
                               tf2, tf1);
-- 
2.43.0


From 6cfd0692f3d5231fe2575616a796602c33e241d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:19 +0000
Subject: [PATCH 37/61] fix: distance queries of an empty octree dereferenced
 its missing root

---
 .../detail/traversal/octree/octree_solver-inl.h      | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
index 80d0e9b..c5f212a 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
@@ -92,6 +92,9 @@ void OcTreeSolver<NarrowPhaseSolver>::OcTreeDistance(
   drequest = &request_;
   dresult = &result_;
 
+  // an empty octree is at no distance from anything
+  if(!tree1->getRoot() || !tree2->getRoot()) return;
+
   OcTreeDistanceRecurse(tree1, tree1->getRoot(), tree1->getRootBV(),
                         tree2, tree2->getRoot(), tree2->getRootBV(),
                         tf1, tf2);
@@ -130,6 +133,9 @@ void OcTreeSolver<NarrowPhaseSolver>::OcTreeMeshDistance(
   drequest = &request_;
   dresult = &result_;
 
+  // an empty octree is at no distance from anything
+  if(!tree1->getRoot()) return;
+
   OcTreeMeshDistanceRecurse(tree1, tree1->getRoot(), tree1->getRootBV(),
                             tree2, 0,
                             tf1, tf2);
@@ -235,6 +241,9 @@ void OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeDistance(
   drequest = &request_;
   dresult = &result_;
 
+  // an empty octree is at no distance from anything
+  if(!tree->getRoot()) return;
+
   AABB<S> aabb2;
   computeBV(s, tf2, aabb2);
   OcTreeShapeDistanceRecurse(tree, tree->getRoot(), tree->getRootBV(),
@@ -257,6 +266,9 @@ void OcTreeSolver<NarrowPhaseSolver>::ShapeOcTreeDistance(
   drequest = &request_;
   dresult = &result_;
 
+  // an empty octree is at no distance from anything
+  if(!tree->getRoot()) return;
+
   AABB<S> aabb1;
   computeBV(s, tf1, aabb1);
   OcTreeShapeDistanceRecurse(tree, tree->getRoot(), tree->getRootBV(),
-- 
2.43.0


From 06b1914a08f831ea8b7f917b864c9c98c7a16070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:39 +0000
Subject: [PATCH 38/61] fix: opposite half spaces and planes were said to
 collide exactly when they do not

---
 .../detail/primitive_shape_algorithm/halfspace-inl.h      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
index 29cde8d..6cac0dc 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
@@ -651,11 +651,11 @@ bool planeHalfspaceIntersect(const Plane<S>& s1, const Transform3<S>& tf1,
     }
     else
     {
-      if(new_s1.d + new_s2.d > 0)
+      if(new_s1.d + new_s2.d < 0)
         return false;
       else
       {
-        penetration_depth = -(new_s1.d + new_s2.d);
+        penetration_depth = new_s1.d + new_s2.d;
         ret = 2;
         pl = new_s1;
         return true;
@@ -722,12 +722,12 @@ bool halfspaceIntersect(const Halfspace<S>& s1, const Transform3<S>& tf1,
     }
     else
     {
-      if(new_s1.d + new_s2.d > 0) // not collision
+      if(new_s1.d + new_s2.d < 0) // not collision
         return false;
       else // in each other
       {
         ret = 3;
-        penetration_depth = -(new_s1.d + new_s2.d);
+        penetration_depth = new_s1.d + new_s2.d;
         return true;
       }
     }
-- 
2.43.0


From 016466e0370a8bc98f99b933d29ff13c7bd92de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:50 +0000
Subject: [PATCH 39/61] fix: collisions of planes and half spaces among
 themselves got lost when contacts were asked for

---
 .../traversal/collision/shape_collision_traversal_node-inl.h  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node-inl.h
index 36a264d..35fbd76 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node-inl.h
@@ -96,6 +96,10 @@ leafTesting(int, int) const
             num_adding_contacts = contacts.size();
           }
 
+          // Unbounded shapes (planes, halfspaces) intersect each other without a contact point
+          if(contacts.empty())
+            this->result->addContact(Contact<S>(model1, model2, Contact<S>::NONE, Contact<S>::NONE, Vector3<S>::Zero(), Vector3<S>::Zero(), std::numeric_limits<S>::max()));
+
           for(size_t i = 0; i < num_adding_contacts; ++i)
             this->result->addContact(Contact<S>(model1, model2, Contact<S>::NONE, Contact<S>::NONE, contacts[i].pos, contacts[i].normal, contacts[i].penetration_depth));
         }
-- 
2.43.0


From 73e833490df57774dbce027702df8505f9c89bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 40/61] fix: interval tree queries unbounded from below missed
 intervals right of a node without left child

---
 include/fcl/broadphase/detail/interval_tree-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/broadphase/detail/interval_tree-inl.h b/include/fcl/broadphase/detail/interval_tree-inl.h
index 6f6b712..e474c1a 100644
--- a/include/fcl/broadphase/detail/interval_tree-inl.h
+++ b/include/fcl/broadphase/detail/interval_tree-inl.h
@@ -524,7 +524,7 @@ std::deque<SimpleInterval<S>*> IntervalTree<S>::query(S low, S high)
       result_stack.push_back(x->stored_interval);
       recursion_node_stack[current_parent].try_right_branch = true;
     }
-    if(x->left->max_high >= low)
+    if(x->left != nil && x->left->max_high >= low)
     {
       if(recursion_node_stack_top == recursion_node_stack_size)
       {
-- 
2.43.0


From eb12c461b97ed7a363fce6a1997ff02bb511eeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:49 +0000
Subject: [PATCH 41/61] fix: distance of a dynamic AABB tree manager to an
 empty octree dereferenced its missing root

---
 include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h      | 3 ++-
 .../fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
index 937347d..3527969 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
@@ -931,7 +931,8 @@ void DynamicAABBTreeCollisionManager<S>::distance(CollisionObject<S>* obj, void*
       if(!octree_as_geometry_distance)
       {
         const OcTree<S>* octree = static_cast<const OcTree<S>*>(obj->collisionGeometry().get());
-        detail::dynamic_AABB_tree::distanceRecurse(dtree.getRoot(), octree, octree->getRoot(), octree->getRootBV(), obj->getTransform(), cdata, callback, min_dist);
+        if(octree->getRoot()) // an empty octree is at no distance from anything
+          detail::dynamic_AABB_tree::distanceRecurse(dtree.getRoot(), octree, octree->getRoot(), octree->getRootBV(), obj->getTransform(), cdata, callback, min_dist);
       }
       else
         detail::dynamic_AABB_tree::distanceRecurse(dtree.getRoot(), obj, cdata, callback, min_dist);
diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
index 44a6c2d..e29766a 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
@@ -942,7 +942,8 @@ void DynamicAABBTreeCollisionManager_Array<S>::distance(CollisionObject<S>* obj,
       if(!octree_as_geometry_distance)
       {
         const OcTree<S>* octree = static_cast<const OcTree<S>*>(obj->collisionGeometry().get());
-        detail::dynamic_AABB_tree_array::distanceRecurse(dtree.getNodes(), dtree.getRoot(), octree, octree->getRoot(), octree->getRootBV(), obj->getTransform(), cdata, callback, min_dist);
+        if(octree->getRoot()) // an empty octree is at no distance from anything
+          detail::dynamic_AABB_tree_array::distanceRecurse(dtree.getNodes(), dtree.getRoot(), octree, octree->getRoot(), octree->getRootBV(), obj->getTransform(), cdata, callback, min_dist);
       }
       else
         detail::dynamic_AABB_tree_array::distanceRecurse(dtree.getNodes(), dtree.getRoot(), obj, cdata, callback, min_dist);
-- 
2.43.0


From bf4cf65f37a817f629f14d0bcb601ed0fc281383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:00 +0000
Subject: [PATCH 42/61] fix: octree cells colliding with shapes added no cost
 source

---
 .../fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
index c5f212a..46f2af9 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
@@ -421,6 +421,7 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersectRecurse(const OcTree<S
           computeBV(box, box_tf, aabb1);
           computeBV(s, tf2, aabb2);
           aabb1.overlap(aabb2, overlap_part);
+          cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * s.cost_density), crequest->num_max_cost_sources);
         }
 
         return crequest->isSatisfied(*cresult);
@@ -444,6 +445,7 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersectRecurse(const OcTree<S
           computeBV(box, box_tf, aabb1);
           computeBV(s, tf2, aabb2);
           aabb1.overlap(aabb2, overlap_part);
+          cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * s.cost_density), crequest->num_max_cost_sources);
         }
       }
 
-- 
2.43.0


From a921422cd90851acc4ce03a63287f63e832f3824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:00 +0000
Subject: [PATCH 43/61] fix: free shapes added cost sources to collisions with
 meshes of oriented bounding volumes

---
 .../collision/mesh_shape_collision_traversal_node-inl.h         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h
index d24b467..573ab57 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h
@@ -253,7 +253,7 @@ void meshShapeCollisionOrientedNodeLeafTesting(
       result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
     }
   }
-  else if((!model1->isFree() || model2.isFree()) && request.enable_cost)
+  else if((!model1->isFree() && !model2.isFree()) && request.enable_cost)
   {
     if(nsolver->shapeTriangleIntersect(model2, tf2, p1, p2, p3, tf1, nullptr, nullptr, nullptr))
     {
-- 
2.43.0


From 842b1d79ed27887a7f9e2cfecde2607d4f9cd1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 44/61] fix: octrees without any node added cost sources nobody
 asked for

---
 .../detail/traversal/octree/octree_solver-inl.h        | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
index 46f2af9..0a6bd4e 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
@@ -343,6 +343,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersectRecurse(const OcTree<S
 {
   if(!root1)
   {
+    if(!crequest->enable_cost || s.isFree()) return false;
+
     OBB<S> obb1;
     convertBV(bv1, tf1, obb1);
     if(obb1.overlap(obb2))
@@ -588,6 +590,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeMeshIntersectRecurse(const OcTree<S>
 {
   if(!root1)
   {
+    if(!crequest->enable_cost || tree2->isFree()) return false;
+
     if(tree2->getBV(root2).isLeaf())
     {
       OBB<S> obb1, obb2;
@@ -863,6 +867,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeIntersectRecurse(const OcTree<S>* tr
 {
   if(!root1 && !root2)
   {
+    if(!crequest->enable_cost) return false;
+
     OBB<S> obb1, obb2;
     convertBV(bv1, tf1, obb1);
     convertBV(bv2, tf2, obb2);
@@ -886,6 +892,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeIntersectRecurse(const OcTree<S>* tr
   }
   else if(!root1 && root2)
   {
+    if(!crequest->enable_cost || tree2->isNodeFree(root2)) return false;
+
     if(tree2->nodeHasChildren(root2))
     {
       for(unsigned int i = 0; i < 8; ++i)
@@ -917,6 +925,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeIntersectRecurse(const OcTree<S>* tr
   }
   else if(root1 && !root2)
   {
+    if(!crequest->enable_cost || tree1->isNodeFree(root1)) return false;
+
     if(tree1->nodeHasChildren(root1))
     {
       for(unsigned int i = 0; i < 8; ++i)
-- 
2.43.0


From 442271e6985007f1595b582cf40a1335e2ef8a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 45/61] fix: cost sources differing only in their upper corner
 were merged into one

---
 include/fcl/narrowphase/cost_source-inl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fcl/narrowphase/cost_source-inl.h b/include/fcl/narrowphase/cost_source-inl.h
index abadfc9..a875f05 100644
--- a/include/fcl/narrowphase/cost_source-inl.h
+++ b/include/fcl/narrowphase/cost_source-inl.h
@@ -99,6 +99,10 @@ bool CostSource<S>::operator <(const CostSource& other) const
     if(aabb_min[i] != other.aabb_min[i])
       return aabb_min[i] < other.aabb_min[i];
 
+  for(size_t i = 0; i < 3; ++i)
+    if(aabb_max[i] != other.aabb_max[i])
+      return aabb_max[i] < other.aabb_max[i];
+
   return false;
 }
 
-- 
2.43.0


From 17e3bda830fd750558fd73ca0204c8ee9eaf5e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:41 +0000
Subject: [PATCH 46/61] fix: touching objects with disjoint bounding boxes got
 a cost source of infinite negative cost

---
 include/fcl/narrowphase/collision_result-inl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/fcl/narrowphase/collision_result-inl.h b/include/fcl/narrowphase/collision_result-inl.h
index e8829be..1a8370c 100644
--- a/include/fcl/narrowphase/collision_result-inl.h
+++ b/include/fcl/narrowphase/collision_result-inl.h
@@ -66,6 +66,9 @@ template <typename S>
 void CollisionResult<S>::addCostSource(
     const CostSource<S>& c, std::size_t num_max_cost_sources)
 {
+  // objects may touch though their bounding boxes just miss each other
+  if((c.aabb_min.array() > c.aabb_max.array()).any()) return;
+
   cost_sources.insert(c);
   while (cost_sources.size() > num_max_cost_sources)
     cost_sources.erase(--cost_sources.end());
-- 
2.43.0


From f9d1beebde262d15521eac545c874b7fd732eb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:40 +0000
Subject: [PATCH 47/61] fix: InterpMotion left its reference point and default
 members uninitialised

---
 include/fcl/math/motion/interp_motion-inl.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/motion/interp_motion-inl.h b/include/fcl/math/motion/interp_motion-inl.h
index c006841..0f9ddc8 100644
--- a/include/fcl/math/motion/interp_motion-inl.h
+++ b/include/fcl/math/motion/interp_motion-inl.h
@@ -50,7 +50,13 @@ class FCL_EXPORT InterpMotion<double>;
 //==============================================================================
 template <typename S>
 InterpMotion<S>::InterpMotion()
-  : MotionBase<S>(), angular_axis(Vector3<S>::UnitX())
+  : MotionBase<S>(),
+    tf1(Transform3<S>::Identity()),
+    tf2(Transform3<S>::Identity()),
+    tf(Transform3<S>::Identity()),
+    linear_vel(Vector3<S>::Zero()),
+    angular_axis(Vector3<S>::UnitX()),
+    reference_p(Vector3<S>::Zero())
 {
   // Default angular velocity is zero
   angular_vel = 0;
@@ -67,7 +73,8 @@ InterpMotion<S>::InterpMotion(
     const Matrix3<S>& R2, const Vector3<S>& T2)
   : MotionBase<S>(),
     tf1(Transform3<S>::Identity()),
-    tf2(Transform3<S>::Identity())
+    tf2(Transform3<S>::Identity()),
+    reference_p(Vector3<S>::Zero())
 {
   tf1.linear() = R1;
   tf1.translation() = T1;
@@ -85,7 +92,7 @@ InterpMotion<S>::InterpMotion(
 template <typename S>
 InterpMotion<S>::InterpMotion(
     const Transform3<S>& tf1_, const Transform3<S>& tf2_)
-  : MotionBase<S>(), tf1(tf1_), tf2(tf2_), tf(tf1)
+  : MotionBase<S>(), tf1(tf1_), tf2(tf2_), tf(tf1), reference_p(Vector3<S>::Zero())
 {
   // Compute the velocities for the motion
   computeVelocity();
-- 
2.43.0


From 5ead9c4dac16e6c0be0ccfa98945d0d04d822a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:40 +0000
Subject: [PATCH 48/61] fix: InterpMotion(tf1, tf2, O) did not compute its
 velocities

---
 include/fcl/math/motion/interp_motion-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fcl/math/motion/interp_motion-inl.h b/include/fcl/math/motion/interp_motion-inl.h
index 0f9ddc8..9a71340 100644
--- a/include/fcl/math/motion/interp_motion-inl.h
+++ b/include/fcl/math/motion/interp_motion-inl.h
@@ -129,7 +129,8 @@ InterpMotion<S>::InterpMotion(
     const Transform3<S>& tf1_, const Transform3<S>& tf2_, const Vector3<S>& O)
   : MotionBase<S>(), tf1(tf1_), tf2(tf2_), tf(tf1), reference_p(O)
 {
-  // Do nothing
+  // Compute the velocities for the motion
+  computeVelocity();
 }
 
 //==============================================================================
-- 
2.43.0


From 0be116e483b7c73ade95b651f0f826a358bf4f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:49 +0000
Subject: [PATCH 49/61] fix: ScrewMotion default constructor and axis of a zero
 rotation

---
 include/fcl/math/motion/screw_motion-inl.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/fcl/math/motion/screw_motion-inl.h b/include/fcl/math/motion/screw_motion-inl.h
index ae72d6c..10085e4 100644
--- a/include/fcl/math/motion/screw_motion-inl.h
+++ b/include/fcl/math/motion/screw_motion-inl.h
@@ -50,7 +50,12 @@ class FCL_EXPORT ScrewMotion<double>;
 //==============================================================================
 template <typename S>
 ScrewMotion<S>::ScrewMotion()
-  : MotionBase<S>(), axis(Vector3<S>::UnitX())
+  : MotionBase<S>(),
+    tf1(Transform3<S>::Identity()),
+    tf2(Transform3<S>::Identity()),
+    tf(Transform3<S>::Identity()),
+    axis(Vector3<S>::UnitX()),
+    p(Vector3<S>::Zero())
 {
   // Default angular velocity is zero
   angular_vel = 0;
@@ -174,6 +179,10 @@ void ScrewMotion<S>::computeScrewParameter()
     angular_vel = 0;
     axis = tf2.translation() - tf1.translation();
     linear_vel = axis.norm();
+    if(linear_vel > 0)
+      axis /= linear_vel;
+    else
+      axis = Vector3<S>::UnitX();
     p = tf1.translation();
   }
   else
-- 
2.43.0


From 22096552f38df122a0f42e57036bcac5f9dff537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:49 +0000
Subject: [PATCH 50/61] fix: TaylorModel::getBound() took a coefficient for the
 constant term

---
 include/fcl/math/motion/taylor_model/taylor_model-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/math/motion/taylor_model/taylor_model-inl.h b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
index 861f72d..7630bc3 100644
--- a/include/fcl/math/motion/taylor_model/taylor_model-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
@@ -356,7 +356,7 @@ Interval<S> TaylorModel<S>::getBound(S t0, S t1) const
 template <typename S>
 Interval<S> TaylorModel<S>::getBound() const
 {
-  return Interval<S>(coeffs_[0] + r_[0], coeffs_[1] + r_[1]) + time_interval_->t_ * coeffs_[1] + time_interval_->t2_ * coeffs_[2] + time_interval_->t3_ * coeffs_[3];
+  return Interval<S>(coeffs_[0] + r_[0], coeffs_[0] + r_[1]) + time_interval_->t_ * coeffs_[1] + time_interval_->t2_ * coeffs_[2] + time_interval_->t3_ * coeffs_[3];
 }
 
 //==============================================================================
-- 
2.43.0


From 18072a963b39df8809bb2e561619d7c9007d65dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:49 +0000
Subject: [PATCH 51/61] fix: TaylorModel::getTightBound lost the cubic's
 extrema to cancellation

---
 include/fcl/math/motion/taylor_model/taylor_model-inl.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/taylor_model-inl.h b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
index 7630bc3..6225f44 100644
--- a/include/fcl/math/motion/taylor_model/taylor_model-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
@@ -423,8 +423,11 @@ Interval<S> TaylorModel<S>::getTightBound(S t0, S t1) const
     if(delta < 0)
       return Interval<S>(LQ, RQ) + r_;
 
-    S r1 = (-coeffs_[2]-sqrt(delta))/(3*coeffs_[3]);
-    S r2 = (-coeffs_[2]+sqrt(delta))/(3*coeffs_[3]);
+    // avoid the cancellation between coeffs_[2] and sqrt(delta): the cubic
+    // coefficient can be mere round-off
+    S q = -coeffs_[2] + (coeffs_[2] > 0 ? -sqrt(delta) : sqrt(delta));
+    S r1 = q / (3*coeffs_[3]);
+    S r2 = (q == 0) ? r1 : coeffs_[1] / q;
 
     if(r1 <= t1 && r1 >= t0)
     {
-- 
2.43.0


From fe3ce9a317f863f1360f01d0ba42c02dc269739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 52/61] fix: remainder of the sine and cosine Taylor models

---
 include/fcl/math/motion/taylor_model/taylor_model-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/taylor_model-inl.h b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
index 6225f44..f45ba38 100644
--- a/include/fcl/math/motion/taylor_model/taylor_model-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
@@ -554,7 +554,7 @@ void generateTaylorModelForCosFunc(TaylorModel<S>& tm, S w, S q0)
   // [0, midSize4] * fdddBounds
   if(fddddBounds[0] > 0)
     tm.remainder().setValue(0, fddddBounds[1] * midSize4 * (1.0 / 24));
-  else if(fddddBounds[0] < 0)
+  else if(fddddBounds[1] < 0)
     tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), 0);
   else
     tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), fddddBounds[1] * midSize4 * (1.0 / 24));
@@ -625,7 +625,7 @@ void generateTaylorModelForSinFunc(TaylorModel<S>& tm, S w, S q0)
     // [0, midSize4] * fdddBounds
     if(fddddBounds[0] > 0)
       tm.remainder().setValue(0, fddddBounds[1] * midSize4 * (1.0 / 24));
-    else if(fddddBounds[0] < 0)
+    else if(fddddBounds[1] < 0)
       tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), 0);
     else
       tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), fddddBounds[1] * midSize4 * (1.0 / 24));
-- 
2.43.0


From 9e8828193e418c786d132ee5db778db39ece1ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 53/61] fix: rotation matrix times TaylorModel column mixed up

---
 include/fcl/math/motion/taylor_model/taylor_matrix-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h b/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
index f5b1843..e873cde 100644
--- a/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
@@ -514,15 +514,15 @@ TMatrix3<S> operator * (const Matrix3<S>& m, const TaylorModel<S>& a)
   TMatrix3<S> res(a.getTimeInterval());
   res(0, 0) = a * m(0, 0);
   res(0, 1) = a * m(0, 1);
-  res(0, 1) = a * m(0, 2);
+  res(0, 2) = a * m(0, 2);
 
   res(1, 0) = a * m(1, 0);
   res(1, 1) = a * m(1, 1);
-  res(1, 1) = a * m(1, 2);
+  res(1, 2) = a * m(1, 2);
 
   res(2, 0) = a * m(2, 0);
   res(2, 1) = a * m(2, 1);
-  res(2, 1) = a * m(2, 2);
+  res(2, 2) = a * m(2, 2);
 
   return res;
 }
-- 
2.43.0


From 4c92af588204e196316a5c0ba85711eca55cc385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 54/61] fix: naive continuous collision divided by zero for one
 sample

---
 include/fcl/narrowphase/continuous_collision-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/continuous_collision-inl.h b/include/fcl/narrowphase/continuous_collision-inl.h
index b24d0b8..0296311 100644
--- a/include/fcl/narrowphase/continuous_collision-inl.h
+++ b/include/fcl/narrowphase/continuous_collision-inl.h
@@ -145,7 +145,7 @@ S continuousCollideNaive(
   Transform3<S> cur_tf1, cur_tf2;
   for(std::size_t i = 0; i < n_iter; ++i)
   {
-    S t = i / (S) (n_iter - 1);
+    S t = (n_iter > 1) ? i / (S) (n_iter - 1) : (S) 0;
     motion1->integrate(t);
     motion2->integrate(t);
 
-- 
2.43.0


From a0e649c7f6c0e1196a676e95504ba2b1daa51ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 55/61] fix: polynomial continuous collision ignored the poses,
 changed the models and gave the time of any contact

---
 .../narrowphase/continuous_collision-inl.h    | 59 ++++++++++++-------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/include/fcl/narrowphase/continuous_collision-inl.h b/include/fcl/narrowphase/continuous_collision-inl.h
index 0296311..ff069a0 100644
--- a/include/fcl/narrowphase/continuous_collision-inl.h
+++ b/include/fcl/narrowphase/continuous_collision-inl.h
@@ -188,38 +188,53 @@ typename BV::S continuousCollideBVHPolynomial(
 
   using S = typename BV::S;
 
-  const BVHModel<BV>* o1__ = static_cast<const BVHModel<BV>*>(o1_);
-  const BVHModel<BV>* o2__ = static_cast<const BVHModel<BV>*>(o2_);
+  // the motion is put into copies, the models belong to the caller
+  BVHModel<BV> o1(*static_cast<const BVHModel<BV>*>(o1_));
+  BVHModel<BV> o2(*static_cast<const BVHModel<BV>*>(o2_));
+  std::vector<Vector3<S>> new_v1(o1.num_vertices);
+  std::vector<Vector3<S>> new_v2(o2.num_vertices);
 
-  // ugly, but lets do it now.
-  BVHModel<BV>* o1 = const_cast<BVHModel<BV>*>(o1__);
-  BVHModel<BV>* o2 = const_cast<BVHModel<BV>*>(o2__);
-  std::vector<Vector3<S>> new_v1(o1->num_vertices);
-  std::vector<Vector3<S>> new_v2(o2->num_vertices);
+  motion1->integrate(0);
+  motion2->integrate(0);
+  Transform3<S> tf1;
+  Transform3<S> tf2;
+  motion1->getCurrentTransform(tf1);
+  motion2->getCurrentTransform(tf2);
 
+  // the previous frame of a copy is its model at the beginning of the motion,
+  // in world coordinates, the current frame is the one at the end
   for(std::size_t i = 0; i < new_v1.size(); ++i)
-    new_v1[i] = o1->vertices[i] + motion1->getVelocity();
+    new_v1[i] = tf1 * o1.vertices[i];
   for(std::size_t i = 0; i < new_v2.size(); ++i)
-    new_v2[i] = o2->vertices[i] + motion2->getVelocity();
+    new_v2[i] = tf2 * o2.vertices[i];
+
+  o1.beginReplaceModel();
+  o1.replaceSubModel(new_v1);
+  o1.endReplaceModel(true, true);
 
-  o1->beginUpdateModel();
-  o1->updateSubModel(new_v1);
-  o1->endUpdateModel(true, true);
+  o2.beginReplaceModel();
+  o2.replaceSubModel(new_v2);
+  o2.endReplaceModel(true, true);
 
-  o2->beginUpdateModel();
-  o2->updateSubModel(new_v2);
-  o2->endUpdateModel(true, true);
+  for(std::size_t i = 0; i < new_v1.size(); ++i)
+    new_v1[i] += motion1->getVelocity();
+  for(std::size_t i = 0; i < new_v2.size(); ++i)
+    new_v2[i] += motion2->getVelocity();
+
+  o1.beginUpdateModel();
+  o1.updateSubModel(new_v1);
+  o1.endUpdateModel(true, true);
+
+  o2.beginUpdateModel();
+  o2.updateSubModel(new_v2);
+  o2.endUpdateModel(true, true);
 
   MeshContinuousCollisionTraversalNode<BV> node;
   CollisionRequest<S> c_request;
+  // the time of contact is the first one over all pairs of triangles
+  c_request.num_max_contacts = std::numeric_limits<std::size_t>::max();
 
-  motion1->integrate(0);
-  motion2->integrate(0);
-  Transform3<S> tf1;
-  Transform3<S> tf2;
-  motion1->getCurrentTransform(tf1);
-  motion2->getCurrentTransform(tf2);
-  if(!initialize<BV>(node, *o1, tf1, *o2, tf2, c_request))
+  if(!initialize<BV>(node, o1, Transform3<S>::Identity(), o2, Transform3<S>::Identity(), c_request))
     return -1.0;
 
   collide(&node);
-- 
2.43.0


From 104bfdde5a506c929b15f480b6886f159eea3730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 56/61] fix: conservative advancement did not start at the
 beginning of the motions

---
 include/fcl/narrowphase/continuous_collision-inl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fcl/narrowphase/continuous_collision-inl.h b/include/fcl/narrowphase/continuous_collision-inl.h
index ff069a0..57d88a7 100644
--- a/include/fcl/narrowphase/continuous_collision-inl.h
+++ b/include/fcl/narrowphase/continuous_collision-inl.h
@@ -339,6 +339,10 @@ typename NarrowPhaseSolver::S continuousCollideConservativeAdvancement(
 
   S res = -1;
 
+  // the advancement starts where the motions start
+  motion1->integrate(0);
+  motion2->integrate(0);
+
   if(!looktable.conservative_advancement_matrix[node_type1][node_type2])
   {
     std::cerr << "Warning: collision function between node type " << node_type1 << " and node type " << node_type2 << " is not supported\n";
-- 
2.43.0


From db1f3d3370fb88dfd830251ab3e8d48090ba5c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:00 +0000
Subject: [PATCH 57/61] fix: RSS and OBBRSS mesh pairs went through the
 advancement for unoriented nodes

---
 ...conservative_advancement_func_matrix-inl.h | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h b/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h
index e9af921..caf6225 100644
--- a/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h
@@ -689,6 +689,32 @@ struct ConservativeAdvancementImpl<S, BVHModel<OBBRSS<S>>, NarrowPhaseSolver>
   }
 };
 
+//==============================================================================
+template <typename S>
+bool conservativeAdvancement(const BVHModel<RSS<S>>& o1,
+                             const MotionBase<S>* motion1,
+                             const BVHModel<RSS<S>>& o2,
+                             const MotionBase<S>* motion2,
+                             const CollisionRequest<S>& request,
+                             CollisionResult<S>& result,
+                             S& toc)
+{
+  return detail::conservativeAdvancementMeshOriented<RSS<S>, MeshConservativeAdvancementTraversalNodeRSS<S>>(o1, motion1, o2, motion2, request, result, toc);
+}
+
+//==============================================================================
+template <typename S>
+bool conservativeAdvancement(const BVHModel<OBBRSS<S>>& o1,
+                             const MotionBase<S>* motion1,
+                             const BVHModel<OBBRSS<S>>& o2,
+                             const MotionBase<S>* motion2,
+                             const CollisionRequest<S>& request,
+                             CollisionResult<S>& result,
+                             S& toc)
+{
+  return detail::conservativeAdvancementMeshOriented<OBBRSS<S>, MeshConservativeAdvancementTraversalNodeOBBRSS<S>>(o1, motion1, o2, motion2, request, result, toc);
+}
+
 template<typename BV, typename NarrowPhaseSolver>
 typename BV::S BVHConservativeAdvancement(const CollisionGeometry<typename BV::S>* o1, const MotionBase<typename BV::S>* motion1, const CollisionGeometry<typename BV::S>* o2, const MotionBase<typename BV::S>* motion2, const NarrowPhaseSolver* nsolver, const ContinuousCollisionRequest<typename BV::S>& request, ContinuousCollisionResult<typename BV::S>& result)
 {
-- 
2.43.0


From 76cb691faa0b9ba43da81c6d480a0bf7c52241ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:00 +0000
Subject: [PATCH 58/61] fix: motion bound of an OBBRSS was zero

---
 .../fcl/math/motion/tbv_motion_bound_visitor-inl.h | 14 ++++++++++++++
 include/fcl/math/motion/tbv_motion_bound_visitor.h |  1 +
 2 files changed, 15 insertions(+)

diff --git a/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h b/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h
index f33249d..3f4c06e 100644
--- a/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h
+++ b/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h
@@ -271,6 +271,20 @@ struct TBVMotionBoundVisitorVisitImpl<S, RSS<S>, TranslationMotion<S>>
   }
 };
 
+//==============================================================================
+// The bound of an OBBRSS is the one of its RSS.
+template <typename S, typename MotionT>
+struct TBVMotionBoundVisitorVisitImpl<S, OBBRSS<S>, MotionT>
+{
+  static S run(
+      const TBVMotionBoundVisitor<OBBRSS<S>>& visitor,
+      const MotionT& motion)
+  {
+    return TBVMotionBoundVisitorVisitImpl<S, RSS<S>, MotionT>::run(
+          TBVMotionBoundVisitor<RSS<S>>(visitor.bv.rss, visitor.n), motion);
+  }
+};
+
 } // namespace fcl
 
 #endif
diff --git a/include/fcl/math/motion/tbv_motion_bound_visitor.h b/include/fcl/math/motion/tbv_motion_bound_visitor.h
index 515fef8..da872d1 100644
--- a/include/fcl/math/motion/tbv_motion_bound_visitor.h
+++ b/include/fcl/math/motion/tbv_motion_bound_visitor.h
@@ -40,6 +40,7 @@
 
 #include "fcl/math/motion/taylor_model/taylor_matrix.h"
 #include "fcl/math/motion/taylor_model/taylor_vector.h"
+#include "fcl/math/bv/OBBRSS.h"
 #include "fcl/math/bv/RSS.h"
 #include "fcl/math/motion/bv_motion_bound_visitor.h"
 
-- 
2.43.0


From 2b07a926f3c601dd357807a6f6631ad5cbfa6a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:00 +0000
Subject: [PATCH 59/61] fix: conservative advancement jumped over a contact it
 had reached

---
 .../mesh_conservative_advancement_traversal_node-inl.h      | 6 +++++-
 .../shape_conservative_advancement_traversal_node-inl.h     | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h
index 44ddde5..16e02c0 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h
@@ -40,6 +40,8 @@
 
 #include "fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node.h"
 
+#include "fcl/math/constants.h"
+
 #include "fcl/math/bv/RSS.h"
 #include "fcl/math/motion/triangle_motion_bound_visitor.h"
 
@@ -738,7 +740,9 @@ void meshConservativeAdvancementOrientedNodeLeafTesting(
   S bound = bound1 + bound2;
 
   S cur_delta_t;
-  if(bound <= d) cur_delta_t = 1;
+  // in contact the direction n, and with it the bound, has no meaning
+  if(d <= constants<S>::eps_12()) cur_delta_t = 0;
+  else if(bound <= d) cur_delta_t = 1;
   else cur_delta_t = d / bound;
 
   if(cur_delta_t < delta_t)
diff --git a/include/fcl/narrowphase/detail/traversal/distance/shape_conservative_advancement_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/shape_conservative_advancement_traversal_node-inl.h
index 0944d4e..0f856fb 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/shape_conservative_advancement_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/shape_conservative_advancement_traversal_node-inl.h
@@ -88,7 +88,10 @@ leafTesting(int, int) const
   S bound = bound1 + bound2;
 
   S cur_delta_t;
-  if(bound <= distance) cur_delta_t = 1;
+  // closer than the solvers can tell, the direction n, and with it the bound,
+  // has no meaning
+  if(distance <= S(1e-6)) cur_delta_t = 0;
+  else if(bound <= distance) cur_delta_t = 1;
   else cur_delta_t = distance / bound;
 
   if(cur_delta_t < delta_t)
-- 
2.43.0


From f166015f9e4929ab3fcf5f018fefbcef32369e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:00 +0000
Subject: [PATCH 60/61] fix: vertex-face and edge-edge tests used absolute
 tolerances

---
 .../detail/traversal/collision/intersect-inl.h         | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h b/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
index 4c9d606..22e4a29 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
@@ -145,14 +145,16 @@ bool Intersect<S>::insideTriangle(const Vector3<S>& a, const Vector3<S>& b, cons
   Vector3<S> ab = b - a;
   Vector3<S> ac = c - a;
   Vector3<S> n = ab.cross(ac);
+  // relative to the size of the triangle
+  const S eps = getEpsilon() * n.squaredNorm();
 
   Vector3<S> pa = a - p;
   Vector3<S> pb = b - p;
   Vector3<S> pc = c - p;
 
-  if((pb.cross(pc)).dot(n) < -getEpsilon()) return false;
-  if((pc.cross(pa)).dot(n) < -getEpsilon()) return false;
-  if((pa.cross(pb)).dot(n) < -getEpsilon()) return false;
+  if((pb.cross(pc)).dot(n) < -eps) return false;
+  if((pc.cross(pa)).dot(n) < -eps) return false;
+  if((pa.cross(pb)).dot(n) < -eps) return false;
 
   return true;
 }
@@ -190,7 +192,7 @@ bool Intersect<S>::linelineIntersect(const Vector3<S>& p1, const Vector3<S>& p2,
   S d1212 = p12.dot(p12);
 
   S denom = d1212 * d3434 - d3412 * d3412;
-  if(fabs(denom) < getEpsilon())
+  if(fabs(denom) < getEpsilon() * d1212 * d3434)
     return false;
   S numer = d3134 * d3412 - d3112 * d3434;
 
-- 
2.43.0


From 49192cf624cecd9ce9b521200a2147afeaa8c50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:38 +0000
Subject: [PATCH 61/61] fix: AABB::equal took unbounded boxes for equal

The norm of the AABB of a plane or a halfspace is infinite, so the relative
comparison always held, and the SaP and dynamic AABB tree managers ignored
updates of such objects.
---
 include/fcl/math/bv/AABB-inl.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/bv/AABB-inl.h b/include/fcl/math/bv/AABB-inl.h
index b47f01c..6f0339c 100644
--- a/include/fcl/math/bv/AABB-inl.h
+++ b/include/fcl/math/bv/AABB-inl.h
@@ -310,8 +310,19 @@ S AABB<S>::distance(const AABB<S>& other) const
 template <typename S>
 bool AABB<S>::equal(const AABB<S>& other) const
 {
-  return min_.isApprox(other.min_, std::numeric_limits<S>::epsilon() * 100)
-      && max_.isApprox(other.max_, std::numeric_limits<S>::epsilon() * 100);
+  // Compared per coordinate: the norm of an unbounded AABB (that of a plane or a
+  // halfspace) is infinite, which makes every other AABB appear close to it.
+  const auto close = [](S a, S b)
+  {
+    return std::abs(a - b) <=
+        std::numeric_limits<S>::epsilon() * 100 * std::min(std::abs(a), std::abs(b));
+  };
+  for(int i = 0; i < 3; ++i)
+  {
+    if(!close(min_[i], other.min_[i]) || !close(max_[i], other.max_[i]))
+      return false;
+  }
+  return true;
 }
 
 //==============================================================================
-- 
2.43.0

