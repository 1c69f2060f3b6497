From 53244fb067ee55331e66c95040991ea017318679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 01/11] fix: tuple construction misplaced nodes after two
 frames in a row

The 'leaf' flag was cleared by the first of several consecutive
Visit::Frame events, so the enclosing level neither advanced its write
offset nor restored its parent: from_tuple((0,(1,(2,3)),4)) overwrote
nodes, hung or crashed.
---
 src/node_vec.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/node_vec.rs b/src/node_vec.rs
index 022e7a8..a3a52b1 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -81,7 +81,6 @@ impl<T> NodeVec<T> {
         use crate::tuple::Visit;
 
         let mut is_root = true;
-        let mut leaf = false;
         let mut parent = 0;
         let mut depth = 1;
         let mut f = |visit, size| {
@@ -103,16 +102,12 @@ impl<T> NodeVec<T> {
                     Visit::Leaf( data ) => {
                         self.append_child( parent, offsets[ depth ], data, size );
                         offsets[ depth ] += 1;
-                        if !leaf { leaf = true; }
                     },
                     Visit::Frame => {
                         depth -= 1;
-                        if leaf {
-                            leaf = false;
-                            offsets[ depth ] += 1;
-                            if depth > 0 {
-                                parent = offsets[ depth-1 ];
-                            }
+                        offsets[ depth ] += 1;
+                        if depth > 0 {
+                            parent = offsets[ depth-1 ];
                         }
                     },
                 }
@@ -141,7 +136,6 @@ impl<T> NodeVec<T> {
 
         let mut parent = 0;
         let mut depth = 1;
-        let mut leaf = false;
         let mut f = |visit, size| {
             use crate::tuple::Visit;
             match visit {
@@ -153,15 +147,11 @@ impl<T> NodeVec<T> {
                 Visit::Leaf( data ) => {
                     self.append_child( parent, offsets[ depth ], data, size );
                     offsets[ depth ] += 1;
-                    if !leaf { leaf = true; }
                 },
                 Visit::Frame => {
                     depth -= 1;
-                    if leaf {
-                        leaf = false;
-                        offsets[ depth ] += 1;
-                        parent = offsets[ depth-1 ];
-                    }
+                    offsets[ depth ] += 1;
+                    parent = offsets[ depth-1 ];
                 },
             }
         };
-- 
2.43.0


From b0a695976a7ce7614cad34be508f74db007ebd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 02/11] fix: postorder_with_size_hint visited branches before
 their children

It emitted the preorder sequence (Branch, children, Frame) instead of
the one postorder() emits (Frame, children, Branch).
---
 src/tuple.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index eb20ab2..3cb995c 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -103,9 +103,9 @@ macro_rules! impl_tuple_tree {
                 if size.degree == 0 {
                     f( Visit::Leaf( self.0 ), size );
                 } else {
-                    f( Visit::Branch( self.0 ), size );
-                    $( (self.$n).postorder_with_size_hint( f ); )*
                     f( Visit::Frame, size );
+                    $( (self.$n).postorder_with_size_hint( f ); )*
+                    f( Visit::Branch( self.0 ), size );
                 }
             }
         }
-- 
2.43.0


From 3968ea0750d5184d2b42bcd1f3071b79e69fc181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 03/11] fix: contiguous RcNode/WeakNode handles did not keep
 their buffer alive

Every RcNode and WeakNode releases one count of its NodeVec when it is
dropped, but RcNode::clone, RcNode::downgrade and WeakNode::upgrade did
not acquire one, so the buffer was freed under live handles.
---
 src/rc.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rc.rs b/src/rc.rs
index c8e7be2..3b11b69 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -113,6 +113,7 @@ impl<T> Clone for RcNode<T> {
             RcNode::Scattered( ScatteredRcNode( rc )) => RcNode::Scattered( ScatteredRcNode( rc.clone() )),
             RcNode::Piled( PiledRcNode( node_vec, index )) => {
                 unsafe {
+                    node_vec.as_ref().ref_cnt.incr();
                     let node = node_vec.as_ref().buf.get_unchecked( *index );
                     node.count.incr();
                 }
@@ -455,7 +456,10 @@ impl<T> RcNode<T> {
     pub fn downgrade( &self ) -> WeakNode<T> {
         match self {
             RcNode::Scattered( ScatteredRcNode( rc )) => WeakNode::Scattered( ScatteredWeakNode( Rc::downgrade( &rc ))),
-            RcNode::Piled( PiledRcNode( node_vec, index )) => WeakNode::Piled( PiledWeakNode( *node_vec, *index )),
+            RcNode::Piled( PiledRcNode( node_vec, index )) => {
+                unsafe{ node_vec.as_ref().ref_cnt.incr(); }
+                WeakNode::Piled( PiledWeakNode( *node_vec, *index ))
+            },
         }
     }
 
@@ -544,6 +548,7 @@ impl<T> WeakNode<T> {
                 if node.count.get() == 0 {
                     None
                 } else {
+                    node_vec.as_ref().ref_cnt.incr();
                     node.count.incr();
                     Some( RcNode::Piled( PiledRcNode( *node_vec, *index )))
                 }
-- 
2.43.0


From e462059ea827783794300d033884fb5c9806615b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 04/11] fix: IterRc kept raw pointers to nodes it did not own

Dropping the tree, or detaching the next sibling, while an iter_rc() was
running made it follow freed nodes, and siblings inserted ahead of it were
iterated over although the documentation of insert_*_sib() says they are
not. It now shares the ownership of the children it is going to visit.
---
 src/iter_rc.rs | 23 ++++++++++-------------
 src/lib.rs     |  1 -
 src/rc.rs      |  9 +--------
 3 files changed, 11 insertions(+), 22 deletions(-)

diff --git a/src/iter_rc.rs b/src/iter_rc.rs
index 2f819fd..fb0d7b5 100644
--- a/src/iter_rc.rs
+++ b/src/iter_rc.rs
@@ -2,40 +2,37 @@
 
 use crate::rust::*;
 
-use super::{CountedRawIter, Node, RcNode};
+use super::{Node, RcNode};
 
 /// An iterator over the child `Node`s of `RcNode` with shared ownership.
 ///
+/// It shares the ownership of the child nodes not yet visited, so these nodes
+/// are alive and will be visited even if the tree is modified or dropped.
+///
 /// This `struct` is created by [`RcNode::iter_rc`].
 /// See its document for more.
 ///
 /// [`RcNode::iter_rc`]: ../rc/enum.RcNode.html#method.iter_rc
 pub struct IterRc<T> {
-    iter : CountedRawIter<T>,
-    mark : PhantomData<RcNode<T>>,
+    iter : VecDeque<RcNode<T>>,
 }
 
 impl<T> Iterator for IterRc<T> {
     type Item = RcNode<T>;
 
-    fn next( &mut self ) -> Option<RcNode<T>> {
-        self.iter.next().map( |node| unsafe{ node.as_ref().rc() })
-    }
+    fn next( &mut self ) -> Option<RcNode<T>> { self.iter.pop_front() }
 
-    fn size_hint( &self ) -> ( usize, Option<usize> ) { self.iter.size_hint() }
+    fn size_hint( &self ) -> ( usize, Option<usize> ) { (self.iter.len(), Some( self.iter.len() ))}
 }
 
 impl<T> IterRc<T> {
-    pub(crate) fn new( curr: Option<NonNull<Node<T>>>, len: usize ) -> Self {
-        IterRc {
-            iter: CountedRawIter::new( curr, len ),
-            mark: PhantomData,
-        }
+    pub(crate) fn new( parent: &Node<T> ) -> Self {
+        IterRc{ iter: parent.iter().map( |child| child.rc() ).collect() }
     }
 }
 
 impl<T> Clone for IterRc<T> {
     fn clone( &self ) -> Self {
-        IterRc { ..*self }
+        IterRc{ iter: self.iter.clone() }
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 733a6bf..76d64dd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -151,7 +151,6 @@ pub(crate) use node_vec::NodeVec;
 
 pub mod iter;
 pub use iter::{Iter, IterMut};
-pub(crate) use iter::CountedRawIter;
 
 pub mod into_iter;
 pub use into_iter::IntoIter;
diff --git a/src/rc.rs b/src/rc.rs
index 3b11b69..8e4a4a3 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -443,14 +443,7 @@ impl<T> RcNode<T> {
     /// assert_eq!( iter.next(), Some( RcNode::from( tr(2) )));
     /// assert_eq!( iter.next(), None );
     /// ```
-    pub fn iter_rc( &self ) -> IterRc<T> {
-        let node = self.node_borrow();
-        if node.has_no_child() {
-            IterRc::new( None, 0 )
-        } else {
-            IterRc::new( node.front().map( |front| front.non_null() ), node.degree() )
-        }
-    }
+    pub fn iter_rc( &self ) -> IterRc<T> { IterRc::new( &self.node_borrow() )}
 
     /// Creates a new weak pointer to this node.
     pub fn downgrade( &self ) -> WeakNode<T> {
-- 
2.43.0


From 1d47f9ff273c808a5563b3728d76b61728bed8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 05/11] fix: DFS cursor panicked after jumping past the last
 sibling

A to_sib()/to_child() which returned None left the cursor without a node
but with the visit type of the previous one, so that get(), get_parent(),
to_sib(), to_child() and revisit() panicked.
---
 src/walk.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index dc87c8c..3866a76 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -94,7 +94,11 @@ impl<T> Walk<T> {
     fn revisit( &mut self ) {
         if self.origin.is_some() {
             match self.visit_type {
-                VisitType::None => self.path.push( Nodes::sibs( self.origin )),
+                VisitType::None => if self.path.is_empty() {
+                    self.path.push( Nodes::sibs( self.origin ));
+                } else {
+                    return; // past the last sibling, no node to revisit.
+                },
                 _ => (),
             }
             self.direction = Direction::Down;
@@ -206,10 +210,15 @@ impl<T> Walk<T> {
     /// Returns the current node if n == 0.
     fn to_sib( &mut self, n: usize ) -> Option<Visit<T>> {
         if let Some( nodes ) = self.path.last_mut() {
+            if nodes.node.is_none() {
+                return None; // already past the last sibling.
+            }
             for _ in 0..n {
                 nodes.node = unsafe{ nodes.node.unwrap().as_ref().next };
                 if nodes.node == nodes.sentinel {
+                    nodes.node = None;
                     self.direction = Direction::Up;
+                    self.visit_type = VisitType::None;
                     return None;
                 }
             }
@@ -231,7 +240,10 @@ impl<T> Walk<T> {
         let new_nodes;
         if let Some( nodes ) = self.path.last_mut() {
             unsafe {
-                let node = nodes.node.unwrap();
+                let node = match nodes.node {
+                    Some( node ) => node,
+                    None => return None, // past the last sibling.
+                };
                 if node.as_ref().has_no_child() {
                     self.direction = Direction::Right;
                     return None;
-- 
2.43.0


From 4136eef06f2a4f783f9c4543cbab40f73d644367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 06/11] fix: building from an ill-formed breadth-first stream
 wrote out of bounds

BfsTree/BfsForest have public fields, so a stream may carry more or fewer
visits than its sizes tell, e.g. a partially consumed into_bfs(). Tree::from
and Forest::from indexed the node buffer without checks. They now panic.
---
 src/bfs_impls.rs |  6 ++++++
 src/node_vec.rs  | 25 ++++++++++++++++---------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/bfs_impls.rs b/src/bfs_impls.rs
index 36ba351..a986a05 100644
--- a/src/bfs_impls.rs
+++ b/src/bfs_impls.rs
@@ -287,6 +287,7 @@ impl<T,Iter> From<BfsTree<Iter>> for Tree<T>
         let mut remains = degree;
 
         while let Some( visit ) = iter.next() {
+            assert!( remains > 0, "too many nodes in breadth-first search" );
             unsafe {
                 node_vec.as_mut().append_child( parent, child, visit.data, visit.size );
             }
@@ -301,6 +302,8 @@ impl<T,Iter> From<BfsTree<Iter>> for Tree<T>
             child += 1;
         }
 
+        unsafe{ node_vec.as_ref().check_bfs( child, remains ); }
+
         Tree::from_node( unsafe{ node_vec.as_ref().non_null_node(0) })
     }
 }
@@ -336,6 +339,7 @@ impl<T,Iter> From<BfsForest<Iter>> for Forest<T>
         let mut remains = degree;
 
         while let Some( visit ) = iter.next() {
+            assert!( remains > 0, "too many nodes in breadth-first search" );
             unsafe {
                 node_vec.as_mut().append_child( parent, child, visit.data, visit.size );
             }
@@ -350,6 +354,8 @@ impl<T,Iter> From<BfsForest<Iter>> for Forest<T>
             child += 1;
         }
 
+        unsafe{ node_vec.as_ref().check_bfs( child, remains ); }
+
         Forest::from_node( unsafe{ node_vec.as_ref().non_null_node(0) })
     }
 }
diff --git a/src/node_vec.rs b/src/node_vec.rs
index a3a52b1..236cd9f 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -30,7 +30,7 @@ impl<T> NodeVec<T> {
 
     pub(crate) fn non_null_node( &self, index: usize ) -> NonNull<Node<T>> {
         unsafe {
-            NonNull::new_unchecked( self.buf.get_unchecked( index ).try_borrow_unguarded().unwrap() as *const Node<T> as *mut Node<T> )
+            NonNull::new_unchecked( self.buf[ index ].try_borrow_unguarded().unwrap() as *const Node<T> as *mut Node<T> )
         }
     }
 
@@ -42,15 +42,12 @@ impl<T> NodeVec<T> {
     }
 
     pub(crate) fn make_node( &mut self, parent: Option<NonNull<Node<T>>>, index: usize, data: Data<T>, size: Size ) -> NonNull<Node<T>> {
-        unsafe {
-            let node = self.buf.get_unchecked_mut( index );
-            let mut node = node.deref().borrow_mut();
-            node.up = parent;
-            node.size = size;
-            node.data = data;
+        let mut node = self.buf[ index ].deref().borrow_mut();
+        node.up = parent;
+        node.size = size;
+        node.data = data;
 
-            node.non_null()
-        }
+        node.non_null()
     }
 
     pub(crate) fn append_child( &mut self, parent: usize, child: usize, data: T, size: Size ) {
@@ -64,6 +61,16 @@ impl<T> NodeVec<T> {
         self.node_mut( parent ).tail = Some( child );
     }
 
+    // Panics unless the nodes made from breadth-first visits fill the buffer and agree with their sizes.
+    pub(crate) fn check_bfs( &self, node_cnt: usize, remains: usize ) {
+        assert!( remains == 0 && node_cnt == self.buf.len(), "too few nodes in breadth-first search" );
+        for index in 0..node_cnt {
+            let node = self.node( index );
+            let descendants = node.iter().map( |child| child.size.descendants + 1 ).sum::<usize>();
+            assert_eq!( node.size.descendants, descendants, "wrong size in breadth-first search" );
+        }
+    }
+
     pub(crate) fn construct_tree<Tuple,Shape>( &mut self, tuple: Tuple )
         where Tuple: TupleTree<T,Shape>
     {
-- 
2.43.0


From 4cd05cf92269b4f028a7a7f008130721cec6a2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 07/11] fix: trees of one contiguous buffer raced on its
 reference count

TreeWalk and ForestWalk are Send, but trees split from one buffer share a
non-atomic count, so dropping them in different threads was a data race
which could free the buffer twice, too early or never.
---
 src/lib.rs      |  2 ++
 src/node_vec.rs |  4 ++--
 src/rc.rs       | 19 +++++++++++++++++++
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 76d64dd..00689a4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -97,6 +97,7 @@ pub mod rust {
     #[cfg(not(feature="no_std"))] pub use std::pin::Pin;
     #[cfg(not(feature="no_std"))] pub use std::ptr::{self, NonNull, null, null_mut};
     #[cfg(not(feature="no_std"))] pub use std::rc::{Rc, Weak};
+    #[cfg(not(feature="no_std"))] pub use std::sync::atomic::{self, AtomicUsize};
     #[cfg(not(feature="no_std"))] pub use std::vec::Vec;
 
     #[cfg(feature="no_std")] extern crate core;
@@ -123,6 +124,7 @@ pub mod rust {
     #[cfg(feature="no_std")] pub use core::ops::{Add, AddAssign, Deref, DerefMut, Div, Neg, Sub, SubAssign};
     #[cfg(feature="no_std")] pub use core::pin::Pin;
     #[cfg(feature="no_std")] pub use core::ptr::{self, NonNull, null, null_mut};
+    #[cfg(feature="no_std")] pub use core::sync::atomic::{self, AtomicUsize};
 }
 
 #[macro_use]
diff --git a/src/node_vec.rs b/src/node_vec.rs
index 236cd9f..4c9e161 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -9,7 +9,7 @@ use crate::rust::*;
 /// Buffer for storing nodes in contiguous memory allocation.
 pub(crate) struct NodeVec<T> {
     pub(crate) buf     : Vec<Shared<RefCell<Node<T>>>>,
-    pub(crate) ref_cnt : Cell<usize>, // alive node count
+    pub(crate) ref_cnt : AtomicUsize, // alive node count, shared by trees which may be owned by different threads
 }
 
 impl<T> NodeVec<T> {
@@ -17,7 +17,7 @@ impl<T> NodeVec<T> {
         unsafe {
             NonNull::new_unchecked( Box::into_raw( Box::new( NodeVec::<T> {
                 buf: (0..cap).map( |_| Shared::new( RefCell::new( Node::default() ))).collect::<Vec<_>>(),
-                ref_cnt: Cell::new( cap ),
+                ref_cnt: AtomicUsize::new( cap ),
             })))
         }
     }
diff --git a/src/rc.rs b/src/rc.rs
index 8e4a4a3..62461f5 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -48,6 +48,25 @@ impl RefCount for Cell<usize> {
     }
 }
 
+impl RefCount for AtomicUsize {
+    fn incr( &self ) {
+        let count = self.fetch_add( 1, atomic::Ordering::Relaxed );
+        #[cfg(      feature = "no_std"  )] use core::usize::MAX;
+        #[cfg( not( feature = "no_std" ))] use  std::usize::MAX;
+        if count == 0 || count == MAX {
+            panic!();
+        }
+    }
+
+    fn decr( &self ) -> usize {
+        // All the other owners' accesses happen before the last owner frees the buffer.
+        match self.fetch_sub( 1, atomic::Ordering::AcqRel ).checked_sub( 1 ) {
+            Some( count ) => count,
+            None => panic!(),
+        }
+    }
+}
+
 /// Reference-counting node which stored scatteredly.
 pub struct ScatteredRcNode<T>( Rc<RefCell<Node<T>>> );
 
-- 
2.43.0


From b1040858b8b8ebcc46feea755600e5f0ae56f98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 08/11] fix: WeakNode of a contiguous node upgraded after its
 tree was dropped

Once converted with into_tree(), dropping the tree did not release the
strong count of the nodes stored contiguously, so upgrade() returned
handles to dropped nodes.
---
 src/heap.rs     | 3 ++-
 src/node_vec.rs | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/heap.rs b/src/heap.rs
index 4648017..cd2e84f 100644
--- a/src/heap.rs
+++ b/src/heap.rs
@@ -1,6 +1,6 @@
 #![doc( hidden )]
 
-use super::{Data, Node, NodeVec, Size};
+use super::{Data, Node, NodeVec, Size, rc::RefCount};
 
 use crate::rust::*;
 
@@ -39,6 +39,7 @@ pub(crate) fn drop_node<T>( mut node: NonNull<Node<T>> ) {
             },
             Data::PiledNone    { owner     } |
             Data::Piled        { owner, .. } => {
+                owner.as_ref().strong_count( node ).decr(); // no upgrading from now on
                 NodeVec::decr_ref( owner );
             },
         }
diff --git a/src/node_vec.rs b/src/node_vec.rs
index 4c9e161..9f8e637 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -34,6 +34,11 @@ impl<T> NodeVec<T> {
         }
     }
 
+    pub(crate) fn strong_count( &self, node: NonNull<Node<T>> ) -> &Cell<usize> {
+        let index = ( node.as_ptr() as usize - self.buf.as_ptr() as usize ) / mem::size_of::<Shared<RefCell<Node<T>>>>();
+        &self.buf[ index ].count
+    }
+
     pub(crate) fn node( &self, index: usize ) -> &Node<T> { unsafe{ &*self.non_null_node( index ).as_ptr() }}
     pub(crate) fn node_mut( &mut self, index: usize ) -> &mut Node<T> { unsafe{ &mut *self.non_null_node( index ).as_ptr() }}
 
-- 
2.43.0


From ee545e459329ebc071598f63dc223fd72ffec95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 09/11] fix: RcNode::deep_clone read nodes which were mutably
 borrowed

Only the root was borrowed dynamically, its descendants were read through
raw pointers even if a data_mut() of them was alive.
---
 src/rc.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/rc.rs b/src/rc.rs
index 62461f5..a29ad2d 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -521,7 +521,19 @@ impl<T:Clone> RcNode<T> {
     /// let new_tree = root.front().unwrap().deep_clone();
     /// assert_eq!( new_tree, tr(1) /tr(2) );
     /// ```
-    pub fn deep_clone( &self ) -> Tree<T> { self.node_borrow().deep_clone() }
+    pub fn deep_clone( &self ) -> Tree<T> {
+        let mut nodes = Vec::new();
+        nodes.push( self.clone() );
+        let mut index = 0;
+        while index < nodes.len() {
+            let children = nodes[ index ].iter_rc();
+            nodes.extend( children );
+            index += 1;
+        }
+        // All the nodes are borrowed while they are being cloned.
+        let borrowed = nodes.iter().map( |node| node.node_borrow() ).collect::<Vec<_>>();
+        borrowed[0].deep_clone()
+    }
 }
 
 impl<T> Extend<Tree<T>> for RcNode<T> {
-- 
2.43.0


From 506531d54273eb87d064882e3fead2aa62253db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 10/11] hook: run the shared counters on loom types under
 cfg(trees_loom)

Off by default. Used by the model checker in /verif to explore every
interleaving of threads which own trees of one contiguous buffer.
---
 src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 00689a4..7e067fa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -82,10 +82,13 @@
 #![cfg_attr( feature = "no_std", no_std )]
 
 #[doc( hidden )]
+#[allow( unknown_lints, unexpected_cfgs )]
 pub mod rust {
     #[cfg(not(feature="no_std"))] pub use std::borrow::{Borrow, ToOwned};
     #[cfg(not(feature="no_std"))] pub use std::boxed::Box;
-    #[cfg(not(feature="no_std"))] pub use std::cell::{Cell, Ref, RefMut, RefCell};
+    #[cfg(not(feature="no_std"))]
+            #[cfg(not(trees_loom))] pub use std::cell::Cell;
+    #[cfg(not(feature="no_std"))] pub use std::cell::{Ref, RefMut, RefCell};
     #[cfg(not(feature="no_std"))] pub use std::collections::VecDeque;
     #[cfg(not(feature="no_std"))] pub use std::cmp::Ordering::{self, *};
     #[cfg(not(feature="no_std"))] pub use std::fmt::{self, Debug, Display, Formatter};
@@ -97,9 +100,14 @@ pub mod rust {
     #[cfg(not(feature="no_std"))] pub use std::pin::Pin;
     #[cfg(not(feature="no_std"))] pub use std::ptr::{self, NonNull, null, null_mut};
     #[cfg(not(feature="no_std"))] pub use std::rc::{Rc, Weak};
-    #[cfg(not(feature="no_std"))] pub use std::sync::atomic::{self, AtomicUsize};
+    #[cfg(not(feature="no_std"))]
+            #[cfg(not(trees_loom))] pub use std::sync::atomic::{self, AtomicUsize};
     #[cfg(not(feature="no_std"))] pub use std::vec::Vec;
 
+    // Model checking only: explores every interleaving of the accesses to these types.
+    #[cfg(trees_loom)] pub use loom::cell::Cell;
+    #[cfg(trees_loom)] pub use loom::sync::atomic::{self, AtomicUsize};
+
     #[cfg(feature="no_std")] extern crate core;
     #[cfg(feature="no_std")] extern crate alloc;
     #[cfg(feature="no_std")] pub use self::alloc::borrow::{Borrow, ToOwned};
-- 
2.43.0


From 0fb1b790811226b3c9fecc3632a0fe8513024489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 11/11] fix: RcNode whose child's drop panicked left the other
 children with a dangling parent

---
 src/rc.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index a29ad2d..2cc5f8b 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -144,18 +144,27 @@ impl<T> Clone for RcNode<T> {
 
 impl<T> Drop for RcNode<T> {
     fn drop( &mut self ) {
+        // Releases the rest of the children if dropping one of them panics.
+        struct Children<'a,T>( &'a RcNode<T> );
+
+        impl<'a,T> Drop for Children<'a,T> {
+            fn drop( &mut self ) { while let Some(_) = self.0.pop_front() {} }
+        }
+
         let mut drop_piled = false;
         match self {
             RcNode::Scattered( ScatteredRcNode( rc )) => {
                 if Rc::strong_count( &rc ) == 1 {
-                    while let Some(_) = self.pop_front() {}
+                    let children = Children( self );
+                    while let Some(_) = children.0.pop_front() {}
                 }
             },
             RcNode::Piled( PiledRcNode( node_vec, index )) => unsafe {
                 let node = node_vec.as_ref().buf.get_unchecked( *index );
                 if node.count.decr() == 0 {
                     drop_piled = true;
-                    while let Some(_) = self.pop_front() {}
+                    let children = Children( self );
+                    while let Some(_) = children.0.pop_front() {}
                 }
             },
         }
-- 
2.43.0

