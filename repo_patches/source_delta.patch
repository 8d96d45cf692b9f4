From 24fb6376daa28215c888e002bd2ff85fe333a76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 01/29] fix: keep the order of joints and children when cloning
 a chain

Connecting the copies in iteration order reversed the children of every
branching node, so the clone's position vector addressed other joints.
---
 src/chain.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 31f1d70..6d0c9e1 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -473,7 +473,7 @@ where
         }
         assert!(self.nodes[0].is_root());
         // Clone everything
-        let mut new_nodes = self
+        let new_nodes = self
             .nodes
             .iter()
             .map(|n| {
@@ -482,8 +482,10 @@ where
                 node
             })
             .collect::<Vec<_>>();
-        // Connect to new nodes
-        for i in 0..new_nodes.len() {
+        // Connect to new nodes.
+        // Descendants are iterated from the last child, so connect from the last node
+        // to keep the order of the children.
+        for i in (0..new_nodes.len()).rev() {
             if let Some(p) = self.nodes[i].parent() {
                 // get index of p
                 let parent_index = self.nodes.iter().position(|x| *x == p).unwrap();
@@ -500,7 +502,7 @@ where
         //
         // first node must be root
         assert!(new_nodes[0].is_root());
-        Chain::from_root(new_nodes.remove(0))
+        Chain::from_nodes(new_nodes)
     }
 }
 
-- 
2.43.0


From 05992565cb6f50f3c6cd91afb9ba10b392613a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 02/29] fix: clone a chain whose joint mimics a joint outside
 of the chain

Such a clone panicked, e.g. an arm made by from_end whose gripper mimics
a joint of another branch.
---
 src/chain.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 6d0c9e1..6f1e80e 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -492,11 +492,13 @@ where
                 new_nodes[i].set_parent(&new_nodes[parent_index]);
             }
             if let Some(m) = self.nodes[i].mimic_parent() {
-                let parent_index = self.nodes.iter().position(|x| *x == m).unwrap();
-                new_nodes[i].set_mimic_parent(
-                    &new_nodes[parent_index],
-                    self.nodes[i].lock().mimic.clone().unwrap(),
-                );
+                // the joint to be copied may be out of this chain
+                if let Some(parent_index) = self.nodes.iter().position(|x| *x == m) {
+                    new_nodes[i].set_mimic_parent(
+                        &new_nodes[parent_index],
+                        self.nodes[i].lock().mimic.clone().unwrap(),
+                    );
+                }
             }
         }
         //
-- 
2.43.0


From 9abb2f6e46d8d1185b8a5321227ab98045799ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 03/29] fix: compute link transforms from the node that has the
 link

The parent's transform was used, which ignores the origin and position of
the link's own joint and disagrees with center_of_mass.
---
 src/chain.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 6f1e80e..14643c4 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -438,19 +438,18 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
 
     /// Update transforms of the links
     pub fn update_link_transforms(&self) {
-        self.update_transforms();
-        self.iter().for_each(|node| {
-            let parent_transform = node.parent_world_transform().expect("cache must exist");
+        let transforms = self.update_transforms();
+        self.iter().zip(transforms).for_each(|(node, trans)| {
             let mut node_mut = node.lock();
             if let Some(ref mut link) = node_mut.link {
-                let inertial_trans = parent_transform * link.inertial.origin();
+                let inertial_trans = trans * link.inertial.origin();
                 link.inertial.set_world_transform(inertial_trans);
                 for c in &mut link.collisions {
-                    let c_trans = parent_transform * c.origin();
+                    let c_trans = trans * c.origin();
                     c.set_world_transform(c_trans);
                 }
                 for v in &mut link.visuals {
-                    let v_trans = parent_transform * v.origin();
+                    let v_trans = trans * v.origin();
                     v.set_world_transform(v_trans);
                 }
             }
-- 
2.43.0


From 8fa28206a85583350ee0df412c9084a2e1d3f020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 04/29] fix: do not skip links in center_of_mass

The cached transform of a node may be cleared by another thread that sets
its joint position, and the link's mass was then left out silently.
---
 src/funcs.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/funcs.rs b/src/funcs.rs
index bf03a58..e79d37f 100644
--- a/src/funcs.rs
+++ b/src/funcs.rs
@@ -62,14 +62,12 @@ where
     let mut total_mass = T::zero();
     let mut com = Vector3::zeros();
 
-    chain.update_transforms();
-    chain.iter().for_each(|node| {
-        if let Some(trans) = node.world_transform() {
-            if let Some(ref link) = *node.link() {
-                let inertia_trans = trans * link.inertial.origin().translation;
-                com += inertia_trans.translation.vector * link.inertial.mass;
-                total_mass += link.inertial.mass;
-            }
+    let transforms = chain.update_transforms();
+    chain.iter().zip(transforms).for_each(|(node, trans)| {
+        if let Some(ref link) = *node.link() {
+            let inertia_trans = trans * link.inertial.origin().translation;
+            com += inertia_trans.translation.vector * link.inertial.mass;
+            total_mass += link.inertial.mass;
         }
     });
     com / total_mass
-- 
2.43.0


From a8c0bc5e3808c537229701bad836293431ff50f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 05/29] fix: do not depend on the parent's cached world
 transform

update_transforms panicked with "cache must exist" when another thread set
the position of a parent joint meanwhile, or when a chain started below a
node that had not been updated.
---
 src/node.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index b2b62c2..b7d19f7 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -260,7 +260,11 @@ where
     pub(crate) fn parent_world_transform(&self) -> Option<Isometry3<T>> {
         //match self.0.borrow().parent {
         match self.parent() {
-            Some(ref parent) => parent.world_transform(),
+            Some(ref parent) => parent.world_transform().or_else(|| {
+                // the cache may be cleared by another thread, or not be calculated yet
+                let grandparent_transform = parent.parent_world_transform()?;
+                Some(grandparent_transform * parent.joint().local_transform())
+            }),
             None => Some(Isometry3::identity()),
         }
     }
-- 
2.43.0


From 37348717757f40999a10fe574f186105f1262e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 06/29] fix: set mimic before the parent can see the mimic
 child

A concurrent set_joint_position of the parent found a child without mimic,
and locked again the nodes which it had already locked to report it.
---
 src/node.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index b7d19f7..df3d3a7 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -214,8 +214,8 @@ where
                     .joint
                     .set_joint_position(m.mimic_position(position))?,
                 None => {
-                    let from = self.joint().name.to_owned();
-                    let to = child.joint().name.to_owned();
+                    let from = node.joint.name.to_owned();
+                    let to = child_node.joint.name.to_owned();
                     return Err(Error::MimicError { from, to });
                 }
             };
@@ -321,9 +321,12 @@ where
     }
 
     pub fn set_mimic_parent(&self, parent: &Node<T>, mimic: Mimic<T>) {
-        self.lock().mimic_parent = Some(Arc::downgrade(&parent.0));
+        {
+            let mut node = self.lock();
+            node.mimic_parent = Some(Arc::downgrade(&parent.0));
+            node.mimic = Some(mimic);
+        }
         parent.lock().mimic_children.push(self.clone());
-        self.lock().mimic = Some(mimic);
     }
 
     pub fn set_link(&self, link: Option<Link<T>>) {
-- 
2.43.0


From faf4494f9a870cb0b7df90ab5e6e0c02fbbe3c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 07/29] fix: do not lock a node while its children are printed

Printing a chain held the lock of every ancestor. It deadlocked with
set_joint_position in another thread if an ancestor mimics a descendant.
---
 src/chain.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chain.rs b/src/chain.rs
index 14643c4..a226e6e 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -98,7 +98,9 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
         if self.nodes.iter().any(|joint| joint == node) {
             writeln!(f, "{}{}", "    ".repeat(level), node)?;
         }
-        for c in node.children().iter() {
+        // do not keep locking the node while the children are locked
+        let children = node.children().clone();
+        for c in children.iter() {
             self.fmt_with_indent_level(c, level + 1, f)?
         }
         Ok(())
-- 
2.43.0


From 9e3503eaac77d8f27d767e1824db81aa93fc995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 08/29] fix: accept an empty chain in Display and
 SerialChain::try_new

---
 src/chain.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index a226e6e..0705c4d 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -109,7 +109,10 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
 
 impl<T: RealField + SubsetOf<f64>> Display for Chain<T> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        self.fmt_with_indent_level(self.iter().next().unwrap(), 0, f)
+        match self.iter().next() {
+            Some(node) => self.fmt_with_indent_level(node, 0, f),
+            None => Ok(()),
+        }
     }
 }
 
@@ -552,7 +555,7 @@ where
     pub fn try_new(inner: Chain<T>) -> Option<Self> {
         {
             let num = inner.iter().count();
-            for node in inner.iter().take(num - 1) {
+            for node in inner.iter().take(num.saturating_sub(1)) {
                 if node.children().len() != 1 {
                     return None;
                 }
-- 
2.43.0


From 2ba39866a59aa50fea0e52f7decc6b84253eb814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 09/29] fix: check and lock a link at once in iter_links

Dereferencing the guard panicked when another thread removed the link
between the check and the lock.
---
 src/chain.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 0705c4d..b3338c7 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -283,8 +283,9 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
     /// Iterate for links
     pub fn iter_links(&self) -> impl Iterator<Item = LinkRefGuard<'_, T>> {
         self.nodes.iter().filter_map(|node| {
-            if node.link().is_some() {
-                Some(LinkRefGuard { guard: node.lock() })
+            let guard = node.lock();
+            if guard.link.is_some() {
+                Some(LinkRefGuard { guard })
             } else {
                 None
             }
-- 
2.43.0


From 313feb97a3d89f686ae4f7cf9b384c05ce191eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 10/29] fix: reset the cached world velocity when the origin is
 changed

---
 src/joint/joint.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joint/joint.rs b/src/joint/joint.rs
index ba6d487..b300605 100644
--- a/src/joint/joint.rs
+++ b/src/joint/joint.rs
@@ -181,6 +181,7 @@ where
     pub fn set_origin(&mut self, origin: Isometry3<T>) {
         self.origin = origin;
         self.world_transform_cache.replace(None);
+        self.world_velocity_cache.replace(None);
     }
 
     pub fn set_joint_velocity(&mut self, velocity: T) -> Result<(), Error> {
-- 
2.43.0


From fc2e545cf67a629a89b7b3c08d485e0a1f2db956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 11/29] fix: map the root joint to the root link in
 joint_to_link_map

Link names were looked up among joint names, so the last link of the
document was taken for the root link.
---
 src/urdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urdf.rs b/src/urdf.rs
index ff3a32d..cada6f3 100644
--- a/src/urdf.rs
+++ b/src/urdf.rs
@@ -375,7 +375,7 @@ pub fn joint_to_link_map(urdf_robot: &urdf_rs::Robot) -> HashMap<String, String>
         map.insert(j.name.to_owned(), j.child.link.to_owned());
     }
     for l in &urdf_robot.links {
-        if map.get(&l.name).is_none() {
+        if urdf_robot.joints.iter().all(|j| j.child.link != l.name) {
             map.insert(ROOT_JOINT_NAME.to_owned(), l.name.to_owned());
         }
     }
-- 
2.43.0


From 098adf31a585d4c4e27d4a8029f04bbcaa3e0d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 12/29] fix: detach a node from its old parent when it gets a
 new one

The node stayed in the children of the old parent, and was listed twice if
it was attached to the same parent again.
---
 src/node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index df3d3a7..518735b 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -105,6 +105,9 @@ where
 
     /// Set parent and child relations at same time
     pub fn set_parent(&self, parent: &Node<T>) {
+        if let Some(old_parent) = self.parent() {
+            self.remove_parent(&old_parent);
+        }
         self.lock().parent = Some(Arc::downgrade(&parent.0));
         parent.0.lock().unwrap().children.push(self.clone());
     }
-- 
2.43.0


From dbcb6775ca51dd43e3f75c6e6ea4ef76bfac88d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 13/29] fix: stop following the old joint when a new mimic
 parent is set

---
 src/node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index 518735b..12b45c3 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -324,6 +324,9 @@ where
     }
 
     pub fn set_mimic_parent(&self, parent: &Node<T>, mimic: Mimic<T>) {
+        if let Some(old_parent) = self.mimic_parent() {
+            old_parent.lock().mimic_children.retain(|x| *x != *self);
+        }
         {
             let mut node = self.lock();
             node.mimic_parent = Some(Arc::downgrade(&parent.0));
-- 
2.43.0


From d4604c28af4d2b014602204163aca81d04b66b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 14/29] fix: copy positions also to joints that mimic a mimic
 joint

A joint which mimics a mimic joint was never moved: its source ignores
set_joint_position and copied nothing when it was moved by its own source.
---
 src/node.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 12b45c3..5a443ef 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -209,13 +209,19 @@ where
             return Ok(());
         }
         node.joint.set_joint_position(position)?;
+        Self::set_mimic_children_positions(&node, position)
+    }
+
+    fn set_mimic_children_positions(node: &NodeImpl<T>, position: T) -> Result<(), Error> {
         for child in &node.mimic_children {
             let mut child_node = child.lock();
             let mimic = child_node.mimic.clone();
             match mimic {
-                Some(m) => child_node
-                    .joint
-                    .set_joint_position(m.mimic_position(position))?,
+                Some(m) => {
+                    let child_position = m.mimic_position(position);
+                    child_node.joint.set_joint_position(child_position)?;
+                    Self::set_mimic_children_positions(&child_node, child_position)?;
+                }
                 None => {
                     let from = node.joint.name.to_owned();
                     let to = child_node.joint.name.to_owned();
-- 
2.43.0


From 2ff0719442e681417acf1cb6d3057d11c9d8762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 15/29] fix: calculate the jacobian in the coordinates of
 end_transform

For a chain that starts below the root, world transforms of the joints were
mixed with the end transform relative to the start of the chain, so that IK
did not converge, or panicked if the parent had no cached transform.
---
 src/funcs.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/funcs.rs b/src/funcs.rs
index e79d37f..777647a 100644
--- a/src/funcs.rs
+++ b/src/funcs.rs
@@ -1,6 +1,6 @@
 use super::chain::*;
 use super::joint::*;
-use na::{DMatrix, RealField, Vector3};
+use na::{DMatrix, Isometry3, RealField, Vector3};
 use nalgebra as na;
 use simba::scalar::SubsetOf;
 
@@ -11,24 +11,27 @@ where
 {
     let dof = arm.dof();
     let t_n = arm.end_transform();
-    arm.update_transforms();
     let p_n = t_n.translation;
+    // The same coordinates as `end_transform()`. It may differ from the world if the arm
+    // does not start from the root.
+    let mut t_i = Isometry3::identity();
     let jacobi_vec = arm
-        .iter_joints()
-        .map(|joint| {
-            let t_i = joint.world_transform().unwrap();
+        .iter()
+        .filter_map(|node| {
+            let joint = node.joint();
+            t_i *= joint.local_transform();
             match joint.joint_type {
                 JointType::Linear { axis } => {
                     let p_i = t_i.rotation * axis;
-                    [p_i[0], p_i[1], p_i[2], na::zero(), na::zero(), na::zero()]
+                    Some([p_i[0], p_i[1], p_i[2], na::zero(), na::zero(), na::zero()])
                 }
                 JointType::Rotational { axis } => {
                     let p_i = t_i.translation;
                     let a_i = t_i.rotation * axis;
                     let dp_i = a_i.cross(&(p_n.vector - p_i.vector));
-                    [dp_i[0], dp_i[1], dp_i[2], a_i[0], a_i[1], a_i[2]]
+                    Some([dp_i[0], dp_i[1], dp_i[2], a_i[0], a_i[1], a_i[2]])
                 }
-                JointType::Fixed => panic!("impossible, bug of jacobian"),
+                JointType::Fixed => None,
             }
         })
         .collect::<Vec<_>>();
-- 
2.43.0


From 5631f6037b33430cc117dcb7987b9bca48817806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 16/29] fix: do not move ignored joints when IK is not
 redundant

With as many joints left as constrained coordinates, the solution was added
to the first joints of the arm instead of to the joints that are not ignored.
---
 src/ik.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index d658dc5..9e61af0 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -271,14 +271,11 @@ where
             }
         } else {
             // normal inverse matrix
-            self.add_positions_with_multiplier(
-                &orig_positions,
-                jacobi
-                    .lu()
-                    .solve(&err)
-                    .ok_or(Error::InverseMatrixError)?
-                    .as_slice(),
-            )
+            let mut d_q = jacobi.lu().solve(&err).ok_or(Error::InverseMatrixError)?;
+            for joint_index in ignored_joint_indices {
+                d_q = d_q.insert_row(*joint_index, T::zero());
+            }
+            self.add_positions_with_multiplier(&orig_positions, d_q.as_slice())
         };
         arm.set_joint_positions_clamped(&positions_vec);
         Ok(calc_pose_diff_with_constraints(
-- 
2.43.0


From fda64f3db623add99f74153edfbdb10fccdc60cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 17/29] fix: restore all positions when IK fails

Original positions that are out of limits, or differ from what a mimic
relation gives, were refused or ignored, and the IK error was replaced.
---
 src/ik.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index 9e61af0..fb9ced2 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -334,7 +334,7 @@ where
             }
             last_target_distance = Some((len_diff, rot_diff));
         }
-        arm.set_joint_positions(&orig_positions)?;
+        arm.set_joint_positions_unchecked(&orig_positions);
         Err(Error::NotConvergedError {
             num_tried: self.num_max_try,
             position_diff: na::try_convert(last_target_distance.unwrap().0).unwrap_or_default(),
@@ -460,7 +460,8 @@ where
         let orig_positions = arm.joint_positions();
         let re = self.solve_with_constraints_internal(arm, target_pose, constraints);
         if re.is_err() {
-            arm.set_joint_positions(&orig_positions)?;
+            // the original positions may be out of limits
+            arm.set_joint_positions_unchecked(&orig_positions);
         };
         re
     }
-- 
2.43.0


From dd604cbb950c033e59a3bf1e6efb5118247a326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 18/29] fix: count ignored joints of IK after resolving their
 names

A name given twice, or more names than joints, made solve panic.
---
 src/ik.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index fb9ced2..013c3d8 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -294,13 +294,6 @@ where
         let operational_space = define_operational_space(constraints);
         let required_dof = operational_space.iter().filter(|x| **x).count();
         let orig_positions = arm.joint_positions();
-        let available_dof = arm.dof() - constraints.ignored_joint_names.len();
-        if available_dof < required_dof {
-            return Err(Error::PreconditionError {
-                dof: available_dof,
-                necessary_dof: required_dof,
-            });
-        }
         let mut ignored_joint_indices = Vec::new();
         for joint_name in &constraints.ignored_joint_names {
             // Try to get joint index
@@ -316,6 +309,14 @@ where
             }
         }
         ignored_joint_indices.sort_unstable();
+        ignored_joint_indices.dedup();
+        let available_dof = arm.dof() - ignored_joint_indices.len();
+        if available_dof < required_dof {
+            return Err(Error::PreconditionError {
+                dof: available_dof,
+                necessary_dof: required_dof,
+            });
+        }
         let mut last_target_distance = None;
         for _ in 0..self.num_max_try {
             let target_diff = self.solve_one_loop_with_constraints(
-- 
2.43.0


From e4d22d3eea3431150aa60dd881efff675280bf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 19/29] fix: do not panic in IK without constraints or without
 tries

---
 src/ik.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index 013c3d8..b7f0c5b 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -317,7 +317,15 @@ where
                 necessary_dof: required_dof,
             });
         }
-        let mut last_target_distance = None;
+        if required_dof == 0 {
+            // nothing is constrained, any pose within the limits is the solution
+            arm.set_joint_positions_clamped(&orig_positions);
+            return Ok(());
+        }
+        let mut last_target_distance = target_diff_to_len_rot_diff(
+            &calc_pose_diff_with_constraints(target_pose, &arm.end_transform(), operational_space),
+            operational_space,
+        );
         for _ in 0..self.num_max_try {
             let target_diff = self.solve_one_loop_with_constraints(
                 arm,
@@ -333,13 +341,13 @@ where
                 arm.set_joint_positions_clamped(&non_checked_positions);
                 return Ok(());
             }
-            last_target_distance = Some((len_diff, rot_diff));
+            last_target_distance = (len_diff, rot_diff);
         }
         arm.set_joint_positions_unchecked(&orig_positions);
         Err(Error::NotConvergedError {
             num_tried: self.num_max_try,
-            position_diff: na::try_convert(last_target_distance.unwrap().0).unwrap_or_default(),
-            rotation_diff: na::try_convert(last_target_distance.unwrap().1).unwrap_or_default(),
+            position_diff: na::try_convert(last_target_distance.0).unwrap_or_default(),
+            rotation_diff: na::try_convert(last_target_distance.1).unwrap_or_default(),
         })
     }
 }
-- 
2.43.0


From 0abfed12a17b860c46c07d35aa1723015385ab2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 20/29] fix: return an error from IK if the target is not
 finite

The singular value decomposition of the redundant case looped forever.
---
 src/ik.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ik.rs b/src/ik.rs
index b7f0c5b..08268db 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -225,6 +225,10 @@ where
 
         let t_n = arm.end_transform();
         let err = calc_pose_diff_with_constraints(target_pose, &t_n, *operational_space);
+        if !err.iter().all(|e| e.is_finite()) {
+            // the singular value decomposition does not stop
+            return Err(Error::InverseMatrixError);
+        }
         let mut jacobi = jacobian(arm);
         let mut num_removed_rows = 0;
         for (i, use_i) in operational_space.iter().enumerate() {
-- 
2.43.0


From 214165bea18b0f8cf8866e0df30656ef40a3310c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 21/29] fix: world velocities

update_velocities locked the node again while it was matching on its joint,
so it never returned for a chain with a movable joint. The linear velocity
also took the parent's own origin for the offset from the parent, ignored
that offset for fixed and linear joints, and a rotational root panicked.
---
 src/chain.rs       | 35 +++--------------------------------
 src/joint/joint.rs | 24 ++++++++++++++++++++++++
 src/node.rs        |  7 ++++++-
 3 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index b3338c7..0b0600e 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -405,38 +405,9 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
                 let parent_velocity = node
                     .parent_world_velocity()
                     .expect("velocity cache must exist");
-                let velocity = match node.joint().joint_type {
-                    JointType::Fixed => parent_velocity,
-                    JointType::Rotational { axis } => {
-                        let parent = node.parent().expect("parent must exist");
-                        let parent_vel = parent.joint().origin().translation.vector;
-                        Velocity::from_parts(
-                            parent_velocity.translation
-                                + parent_velocity.rotation.cross(
-                                    &(parent_transform.rotation.to_rotation_matrix() * parent_vel),
-                                ),
-                            parent_velocity.rotation
-                                + node
-                                    .world_transform()
-                                    .expect("cache must exist")
-                                    .rotation
-                                    .to_rotation_matrix()
-                                    * (axis.into_inner() * node.joint().joint_velocity().unwrap()),
-                        )
-                    }
-                    JointType::Linear { axis } => Velocity::from_parts(
-                        parent_velocity.translation
-                            + node
-                                .world_transform()
-                                .expect("cache must exist")
-                                .rotation
-                                .to_rotation_matrix()
-                                * (axis.into_inner() * node.joint().joint_velocity().unwrap()),
-                        // TODO: Is this true??
-                        parent_velocity.rotation,
-                    ),
-                };
-                node.joint().set_world_velocity(velocity);
+                let joint = node.joint();
+                let velocity = joint.calc_world_velocity(&parent_transform, &parent_velocity);
+                joint.set_world_velocity(velocity);
                 velocity
             })
             .collect()
diff --git a/src/joint/joint.rs b/src/joint/joint.rs
index b300605..edaef8e 100644
--- a/src/joint/joint.rs
+++ b/src/joint/joint.rs
@@ -233,6 +233,30 @@ where
         self.origin * joint_transform
     }
 
+    /// Calculate the world velocity of the end of this joint
+    pub(crate) fn calc_world_velocity(
+        &self,
+        parent_transform: &Isometry3<T>,
+        parent_velocity: &Velocity<T>,
+    ) -> Velocity<T> {
+        let transform = parent_transform * self.local_transform();
+        let offset = transform.translation.vector - parent_transform.translation.vector;
+        // the velocity of the frame fixed to the parent
+        let translation = parent_velocity.translation + parent_velocity.rotation.cross(&offset);
+        let rotation = parent_velocity.rotation;
+        match self.joint_type {
+            JointType::Fixed => Velocity::from_parts(translation, rotation),
+            JointType::Rotational { axis } => Velocity::from_parts(
+                translation,
+                rotation + transform.rotation * (axis.into_inner() * self.velocity),
+            ),
+            JointType::Linear { axis } => Velocity::from_parts(
+                translation + transform.rotation * (axis.into_inner() * self.velocity),
+                rotation,
+            ),
+        }
+    }
+
     #[inline]
     pub(crate) fn set_world_transform(&self, world_transform: Isometry3<T>) {
         self.world_transform_cache.replace(Some(world_transform));
diff --git a/src/node.rs b/src/node.rs
index 5a443ef..5961651 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -280,7 +280,12 @@ where
 
     pub(crate) fn parent_world_velocity(&self) -> Option<Velocity<T>> {
         match self.parent() {
-            Some(ref parent) => parent.world_velocity(),
+            // the cache may be cleared by another thread, or not be calculated yet
+            Some(ref parent) => parent.world_velocity().or_else(|| {
+                let transform = parent.parent_world_transform()?;
+                let velocity = parent.parent_world_velocity()?;
+                Some(parent.joint().calc_world_velocity(&transform, &velocity))
+            }),
             None => Some(Velocity::zero()),
         }
     }
-- 
2.43.0


From 41948747740987a6243791aba47697b9b935edc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 22/29] fix: cache a world transform under the lock it is
 calculated in

If another thread set the joint position between the calculation and the
write to the cache, the joint kept a transform for its old position.
---
 src/chain.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 0b0600e..6dad4f4 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -387,8 +387,9 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
         self.iter()
             .map(|node| {
                 let parent_transform = node.parent_world_transform().expect("cache must exist");
-                let trans = parent_transform * node.joint().local_transform();
-                node.joint().set_world_transform(trans);
+                let joint = node.joint();
+                let trans = parent_transform * joint.local_transform();
+                joint.set_world_transform(trans);
                 trans
             })
             .collect()
-- 
2.43.0


From edd641cd0338b8fdb0f3a5c23e742986607f7767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:16 +0000
Subject: [PATCH 23/29] fix: a node whose parent has been dropped is a root

---
 src/node.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 5961651..bb4f344 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -130,7 +130,8 @@ where
     /// assert!(!l1.is_root());
     /// ```
     pub fn is_root(&self) -> bool {
-        self.lock().parent.is_none()
+        // the parent may have been dropped
+        self.parent().is_none()
     }
 
     /// # Examples
-- 
2.43.0


From 366a448a1e11a238f74d305b5fee4119c2403667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 24/29] Report locks of nodes to a hook with --cfg k_verif

---
 src/lib.rs  |   5 +++
 src/node.rs |   3 +-
 src/sync.rs | 103 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 110 insertions(+), 1 deletion(-)
 create mode 100644 src/sync.rs

diff --git a/src/lib.rs b/src/lib.rs
index 8193cd2..96531d8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,6 +25,7 @@
 //!
 
 #![warn(missing_debug_implementations, rust_2018_idioms)]
+#![allow(unknown_lints, unexpected_cfgs)]
 
 #[cfg(doctest)]
 doc_comment::doctest!("../README.md");
@@ -39,6 +40,10 @@ pub mod joint;
 pub mod link;
 pub mod node;
 pub mod prelude;
+#[cfg(k_verif)]
+pub mod sync;
+#[cfg(not(k_verif))]
+mod sync;
 pub mod urdf;
 
 pub use self::chain::*;
diff --git a/src/node.rs b/src/node.rs
index bb4f344..b2e62c8 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -19,12 +19,13 @@ use nalgebra as na;
 use simba::scalar::SubsetOf;
 use std::fmt::{self, Display};
 use std::ops::Deref;
-use std::sync::{Arc, Mutex, MutexGuard, Weak};
+use std::sync::{Arc, Weak};
 
 use super::errors::*;
 use super::iterator::*;
 use super::joint::*;
 use super::link::*;
+use super::sync::{Mutex, MutexGuard};
 
 type WeakNode<T> = Weak<Mutex<NodeImpl<T>>>;
 
diff --git a/src/sync.rs b/src/sync.rs
new file mode 100644
index 0000000..3f6db58
--- /dev/null
+++ b/src/sync.rs
@@ -0,0 +1,103 @@
+//! The mutex of nodes
+//!
+//! It is `std::sync::Mutex`. If it is compiled with `--cfg k_verif`, each lock and unlock is
+//! reported to a hook of the thread, which makes it possible to explore thread schedules.
+
+#[cfg(not(k_verif))]
+pub(crate) use std::sync::{Mutex, MutexGuard};
+
+#[cfg(k_verif)]
+pub use self::hooked::*;
+
+#[cfg(k_verif)]
+mod hooked {
+    use std::cell::Cell;
+    use std::fmt;
+    use std::ops::{Deref, DerefMut};
+    use std::sync::{LockResult, PoisonError};
+
+    /// Observes the mutexes which are used by a thread
+    pub trait LockHook: Sync {
+        /// Called before a mutex is locked, returns when the mutex is free
+        fn before_lock(&self, mutex: usize);
+        /// Called after a mutex is unlocked
+        fn after_unlock(&self, mutex: usize);
+    }
+
+    thread_local! {
+        static HOOK: Cell<Option<&'static dyn LockHook>> = Cell::new(None);
+    }
+
+    /// Set the hook of this thread
+    pub fn set_lock_hook(hook: Option<&'static dyn LockHook>) {
+        HOOK.with(|h| h.set(hook));
+    }
+
+    fn hook() -> Option<&'static dyn LockHook> {
+        HOOK.try_with(|h| h.get()).unwrap_or(None)
+    }
+
+    pub struct Mutex<T>(std::sync::Mutex<T>);
+
+    impl<T> Mutex<T> {
+        pub fn new(value: T) -> Self {
+            Mutex(std::sync::Mutex::new(value))
+        }
+
+        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+            let mutex = self as *const _ as *const u8 as usize;
+            if let Some(h) = hook() {
+                h.before_lock(mutex);
+            }
+            match self.0.lock() {
+                Ok(guard) => Ok(MutexGuard {
+                    guard: Some(guard),
+                    mutex,
+                }),
+                Err(e) => Err(PoisonError::new(MutexGuard {
+                    guard: Some(e.into_inner()),
+                    mutex,
+                })),
+            }
+        }
+    }
+
+    impl<T: fmt::Debug> fmt::Debug for Mutex<T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            self.0.fmt(f)
+        }
+    }
+
+    pub struct MutexGuard<'a, T> {
+        guard: Option<std::sync::MutexGuard<'a, T>>,
+        mutex: usize,
+    }
+
+    impl<'a, T> Deref for MutexGuard<'a, T> {
+        type Target = T;
+        fn deref(&self) -> &T {
+            self.guard.as_ref().unwrap()
+        }
+    }
+
+    impl<'a, T> DerefMut for MutexGuard<'a, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            self.guard.as_mut().unwrap()
+        }
+    }
+
+    impl<'a, T: fmt::Debug> fmt::Debug for MutexGuard<'a, T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            self.guard.fmt(f)
+        }
+    }
+
+    impl<'a, T> Drop for MutexGuard<'a, T> {
+        fn drop(&mut self) {
+            self.guard = None;
+            if let Some(h) = hook() {
+                h.after_unlock(self.mutex);
+            }
+        }
+    }
+}
-- 
2.43.0


From 02bf294e45fe416afdf4125f1b5d0642f8704aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 25/29] fix: keep the order of children when cloning a chain
 made before they were attached again

---
 src/chain.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 6dad4f4..9df3a06 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -459,14 +459,13 @@ where
                 node
             })
             .collect::<Vec<_>>();
-        // Connect to new nodes.
-        // Descendants are iterated from the last child, so connect from the last node
-        // to keep the order of the children.
-        for i in (0..new_nodes.len()).rev() {
-            if let Some(p) = self.nodes[i].parent() {
-                // get index of p
-                let parent_index = self.nodes.iter().position(|x| *x == p).unwrap();
-                new_nodes[i].set_parent(&new_nodes[parent_index]);
+        // Connect to new nodes, in the order of the original children.
+        for i in 0..new_nodes.len() {
+            for c in self.nodes[i].children().iter() {
+                // get index of c, which may be out of this chain
+                if let Some(child_index) = self.nodes.iter().position(|x| x == c) {
+                    new_nodes[child_index].set_parent(&new_nodes[i]);
+                }
             }
             if let Some(m) = self.nodes[i].mimic_parent() {
                 // the joint to be copied may be out of this chain
-- 
2.43.0


From 487f5330dfd9bed108b3701887699a577a5b0947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 26/29] fix: return an error from IK if the rotation of the
 target is not finite

---
 src/ik.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ik.rs b/src/ik.rs
index 08268db..a093d8e 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -32,7 +32,13 @@ where
     T: RealField,
 {
     let p_diff = a.translation.vector - b.translation.vector;
-    let w_diff = b.rotation.rotation_to(&a.rotation).scaled_axis();
+    let rotation_diff = b.rotation.rotation_to(&a.rotation);
+    let w_diff = if rotation_diff.coords.iter().all(|c| c.is_finite()) {
+        rotation_diff.scaled_axis()
+    } else {
+        // `scaled_axis` is zero if there is a NaN
+        Vector3::repeat(rotation_diff.coords.sum())
+    };
     Vector6::new(
         p_diff[0], p_diff[1], p_diff[2], w_diff[0], w_diff[1], w_diff[2],
     )
-- 
2.43.0


From c1622cdf6923388eaafb39d7b2a988a8ac9169b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 27/29] k_verif: hook for attempts to lock

---
 src/sync.rs | 43 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/sync.rs b/src/sync.rs
index 3f6db58..ffc3144 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -14,12 +14,16 @@ mod hooked {
     use std::cell::Cell;
     use std::fmt;
     use std::ops::{Deref, DerefMut};
-    use std::sync::{LockResult, PoisonError};
+    use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
 
     /// Observes the mutexes which are used by a thread
     pub trait LockHook: Sync {
         /// Called before a mutex is locked, returns when the mutex is free
         fn before_lock(&self, mutex: usize);
+        /// Called before an attempt to lock a mutex without waiting
+        fn before_try_lock(&self, _mutex: usize) {}
+        /// Called when such an attempt has succeeded
+        fn after_try_lock(&self, _mutex: usize) {}
         /// Called after a mutex is unlocked
         fn after_unlock(&self, mutex: usize);
     }
@@ -62,6 +66,43 @@ mod hooked {
         }
     }
 
+    impl<T> Mutex<T> {
+        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+            let mutex = self as *const _ as *const u8 as usize;
+            if let Some(h) = hook() {
+                h.before_try_lock(mutex);
+            }
+            let guarded = |guard| {
+                if let Some(h) = hook() {
+                    h.after_try_lock(mutex);
+                }
+                MutexGuard {
+                    guard: Some(guard),
+                    mutex,
+                }
+            };
+            match self.0.try_lock() {
+                Ok(guard) => Ok(guarded(guard)),
+                Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(
+                    guarded(e.into_inner()),
+                ))),
+                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+            }
+        }
+
+        pub fn get_mut(&mut self) -> LockResult<&mut T> {
+            self.0.get_mut()
+        }
+
+        pub fn into_inner(self) -> LockResult<T> {
+            self.0.into_inner()
+        }
+
+        pub fn is_poisoned(&self) -> bool {
+            self.0.is_poisoned()
+        }
+    }
+
     impl<T: fmt::Debug> fmt::Debug for Mutex<T> {
         fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
             self.0.fmt(f)
-- 
2.43.0


From 1df02cb62ea748b38e32c886fd330d63fd895249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:28 +0000
Subject: [PATCH 28/29] fix: do not use stale caches of joints above a chain to
 update its transforms

---
 src/chain.rs | 62 ++++++++++++++++++++++++++++++++--------------------
 src/node.rs  | 17 ++++++++------
 2 files changed, 48 insertions(+), 31 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 9df3a06..5e3fb15 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -384,34 +384,48 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
 
     /// Update world_transform() of the joints
     pub fn update_transforms(&self) -> Vec<Isometry3<T>> {
-        self.iter()
-            .map(|node| {
-                let parent_transform = node.parent_world_transform().expect("cache must exist");
-                let joint = node.joint();
-                let trans = parent_transform * joint.local_transform();
-                joint.set_world_transform(trans);
-                trans
-            })
-            .collect()
+        let mut transforms = Vec::with_capacity(self.nodes.len());
+        for (i, node) in self.nodes.iter().enumerate() {
+            let parent_transform = match self.parent_index(i) {
+                Some(parent_index) => transforms[parent_index],
+                None => node
+                    .parent_world_transform()
+                    .expect("no parent must be identity"),
+            };
+            let joint = node.joint();
+            let trans = parent_transform * joint.local_transform();
+            joint.set_world_transform(trans);
+            transforms.push(trans);
+        }
+        transforms
     }
 
     /// Update world_velocity() of the joints
     pub fn update_velocities(&self) -> Vec<Velocity<T>> {
-        self.update_transforms();
-        self.iter()
-            .map(|node| {
-                let parent_transform = node
-                    .parent_world_transform()
-                    .expect("transform cache must exist");
-                let parent_velocity = node
-                    .parent_world_velocity()
-                    .expect("velocity cache must exist");
-                let joint = node.joint();
-                let velocity = joint.calc_world_velocity(&parent_transform, &parent_velocity);
-                joint.set_world_velocity(velocity);
-                velocity
-            })
-            .collect()
+        let transforms = self.update_transforms();
+        let mut velocities = Vec::with_capacity(self.nodes.len());
+        for (i, node) in self.nodes.iter().enumerate() {
+            let (parent_transform, parent_velocity) = match self.parent_index(i) {
+                Some(parent_index) => (transforms[parent_index], velocities[parent_index]),
+                None => (
+                    node.parent_world_transform()
+                        .expect("no parent must be identity"),
+                    node.parent_world_velocity()
+                        .expect("no parent must be zero"),
+                ),
+            };
+            let joint = node.joint();
+            let velocity = joint.calc_world_velocity(&parent_transform, &parent_velocity);
+            joint.set_world_velocity(velocity);
+            velocities.push(velocity);
+        }
+        velocities
+    }
+
+    /// Index of the parent of the `index`-th node, if it is before the node in this chain
+    fn parent_index(&self, index: usize) -> Option<usize> {
+        let parent = self.nodes[index].parent()?;
+        self.nodes[..index].iter().rposition(|node| *node == parent)
     }
 
     /// Update transforms of the links
diff --git a/src/node.rs b/src/node.rs
index b2e62c8..3e1a3ac 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -268,26 +268,29 @@ where
             .set_joint_position_unchecked(position);
     }
 
+    /// Calculate the world transform of the parent.
+    ///
+    /// It does not use the caches, because they are not cleared if an ancestor moves.
     pub(crate) fn parent_world_transform(&self) -> Option<Isometry3<T>> {
-        //match self.0.borrow().parent {
         match self.parent() {
-            Some(ref parent) => parent.world_transform().or_else(|| {
-                // the cache may be cleared by another thread, or not be calculated yet
+            Some(ref parent) => {
                 let grandparent_transform = parent.parent_world_transform()?;
                 Some(grandparent_transform * parent.joint().local_transform())
-            }),
+            }
             None => Some(Isometry3::identity()),
         }
     }
 
+    /// Calculate the world velocity of the parent.
+    ///
+    /// It does not use the caches, because they are not cleared if an ancestor moves.
     pub(crate) fn parent_world_velocity(&self) -> Option<Velocity<T>> {
         match self.parent() {
-            // the cache may be cleared by another thread, or not be calculated yet
-            Some(ref parent) => parent.world_velocity().or_else(|| {
+            Some(ref parent) => {
                 let transform = parent.parent_world_transform()?;
                 let velocity = parent.parent_world_velocity()?;
                 Some(parent.joint().calc_world_velocity(&transform, &velocity))
-            }),
+            }
             None => Some(Velocity::zero()),
         }
     }
-- 
2.43.0


From 92dfb73410ff75316aeb4b4e95482bf5290e5eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:38 +0000
Subject: [PATCH 29/29] fix: detaching a node from a node that is not its
 parent made it a root that is still listed as a child

---
 src/node.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 3e1a3ac..753a0fb 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -114,8 +114,16 @@ where
     }
 
     /// Remove parent and child relations at same time
+    ///
+    /// It does nothing if `parent` is not the parent of this node.
     pub fn remove_parent(&self, parent: &Node<T>) {
-        self.lock().parent = None;
+        {
+            let mut node = self.lock();
+            match node.parent {
+                Some(ref weak) if weak.ptr_eq(&Arc::downgrade(&parent.0)) => node.parent = None,
+                _ => return,
+            }
+        }
         parent.0.lock().unwrap().children.retain(|x| *x != *self);
     }
 
-- 
2.43.0

