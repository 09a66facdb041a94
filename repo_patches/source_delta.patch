From d07cee2c60ea51bce8e45442710031bc1f95c745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:55 +0000
Subject: [PATCH 01/54] fix: stop parameter smoothers when the graph is cleared

---
 src/nodes/node_exec.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index bd5d5aa..1c5ee9d 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -206,6 +206,13 @@ impl NodeExecutor {
                 GraphMessage::Clear { prog } => {
                     self.exec_ctx.clear();
 
+                    // The indices of running parameter ramps refer to the
+                    // program that is tossed away here:
+                    for (_, smoother) in self.smoothers.iter_mut() {
+                        smoother.stop();
+                    }
+                    self.target_refresh.clear();
+
                     self.monitor_signal_cur_inp_indices = [UNUSED_MONITOR_IDX; MON_SIG_CNT];
 
                     log(|w| {
-- 
2.43.0


From 67d8d180db7549b136e4e73dd0b32697ce4c5892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:55 +0000
Subject: [PATCH 02/54] fix: don't lose parameter updates if all smoothers are
 busy

---
 src/nodes/node_exec.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 1c5ee9d..922b344 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -410,6 +410,14 @@ impl NodeExecutor {
             sm.1.set(prog.params[input_idx], value);
             //d// println!("SET SMOOTHER {} {:6.3} (old = {:6.3})",
             //d//          input_idx, value, prog.params[input_idx]);
+        } else {
+            // All smoothers are busy, don't lose the update:
+            prog.params[input_idx] = value;
+            prog.inp[input_idx].fill(value);
+
+            for refresh in self.target_refresh.iter_mut().filter(|r| r.0 == input_idx) {
+                refresh.1 = value;
+            }
         }
     }
 
-- 
2.43.0


From ccb898945f7929e1889f0c97ee7c3e460aa37c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:55 +0000
Subject: [PATCH 03/54] fix: no fixed limit for the number of nodes an output
 is connected to

---
 src/nodes/node_graph_ordering.rs | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/src/nodes/node_graph_ordering.rs b/src/nodes/node_graph_ordering.rs
index a247bd8..85a610a 100644
--- a/src/nodes/node_graph_ordering.rs
+++ b/src/nodes/node_graph_ordering.rs
@@ -6,39 +6,28 @@ use crate::dsp::NodeId;
 use std::collections::HashMap;
 use std::collections::HashSet;
 
-pub const MAX_NODE_EDGES: usize = 64;
-pub const UNUSED_NODE_EDGE: usize = 999999;
-
-#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
+#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
 struct Node {
     /// The [NodeId] of this node.
     node_id: NodeId,
     /// The output edges of this node.
-    edges: [usize; MAX_NODE_EDGES],
-    /// The first unused index in the `edges` array.
-    unused_idx: usize,
+    edges: Vec<usize>,
 }
 
 impl Node {
     pub fn new() -> Self {
-        Self { node_id: NodeId::Nop, edges: [UNUSED_NODE_EDGE; MAX_NODE_EDGES], unused_idx: 0 }
+        Self { node_id: NodeId::Nop, edges: vec![] }
     }
 
     pub fn clear(&mut self) {
         self.node_id = NodeId::Nop;
-        self.edges = [UNUSED_NODE_EDGE; MAX_NODE_EDGES];
-        self.unused_idx = 0;
+        self.edges.clear();
     }
 
     pub fn add_edge(&mut self, node_index: usize) {
-        for ni in self.edges.iter().take(self.unused_idx) {
-            if *ni == node_index {
-                return;
-            }
+        if !self.edges.contains(&node_index) {
+            self.edges.push(node_index);
         }
-
-        self.edges[self.unused_idx] = node_index;
-        self.unused_idx += 1;
     }
 }
 
@@ -122,7 +111,7 @@ impl NodeGraphOrdering {
             }
 
             if let Some(node) = self.get_node(node_id) {
-                for node_idx in node.edges.iter().take(node.unused_idx) {
+                for node_idx in node.edges.iter() {
                     node_stack.push(self.nodes[*node_idx].node_id);
                 }
             }
@@ -145,7 +134,7 @@ impl NodeGraphOrdering {
 
         // Calculate the number of inputs for each node:
         for node in self.nodes.iter().take(self.node_count) {
-            for out_node_idx in node.edges.iter().take(node.unused_idx) {
+            for out_node_idx in node.edges.iter() {
                 self.in_degree[*out_node_idx] += 1;
             }
         }
@@ -169,7 +158,7 @@ impl NodeGraphOrdering {
             out.push(node.node_id);
 
             // Push the nodes we output to, to the end of the dequeue:
-            for neigh_node_idx in node.edges.iter().take(node.unused_idx) {
+            for neigh_node_idx in node.edges.iter() {
                 // by reducing the input count of the to be visited node:
                 self.in_degree[*neigh_node_idx] -= 1;
 
-- 
2.43.0


From 5e6a6e1d650c693d616bca45468230ba53bf03c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:30 +0000
Subject: [PATCH 04/54] fix: has_path does not mistake a node reached over two
 paths for a cycle

---
 src/nodes/node_graph_ordering.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/nodes/node_graph_ordering.rs b/src/nodes/node_graph_ordering.rs
index 85a610a..c328575 100644
--- a/src/nodes/node_graph_ordering.rs
+++ b/src/nodes/node_graph_ordering.rs
@@ -95,24 +95,38 @@ impl NodeGraphOrdering {
 
     pub fn has_path(&self, from_node_id: NodeId, to_node_id: NodeId) -> Option<bool> {
         let mut visited_set: HashSet<NodeId> = HashSet::with_capacity(self.node_count);
+        // The nodes on the path to the currently visited node:
+        let mut path_set: HashSet<NodeId> = HashSet::with_capacity(self.node_count);
 
         let mut node_stack = Vec::with_capacity(self.node_count);
-        node_stack.push(from_node_id);
+        node_stack.push((from_node_id, false));
 
-        while let Some(node_id) = node_stack.pop() {
-            if visited_set.contains(&node_id) {
+        while let Some((node_id, leave_node)) = node_stack.pop() {
+            if leave_node {
+                path_set.remove(&node_id);
+                continue;
+            }
+
+            if path_set.contains(&node_id) {
+                // Found a cycle!
                 return None;
-            } else {
-                visited_set.insert(node_id);
+            }
+
+            if !visited_set.insert(node_id) {
+                // Reached over multiple paths, but it's not a cycle.
+                continue;
             }
 
             if node_id == to_node_id {
                 return Some(true);
             }
 
+            path_set.insert(node_id);
+            node_stack.push((node_id, true));
+
             if let Some(node) = self.get_node(node_id) {
                 for node_idx in node.edges.iter() {
-                    node_stack.push(self.nodes[*node_idx].node_id);
+                    node_stack.push((self.nodes[*node_idx].node_id, false));
                 }
             }
         }
-- 
2.43.0


From 027ae08f53e2526f52c8d2b7fc0e96749ad65b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:11 +0000
Subject: [PATCH 05/54] fix: no limit of 256 nodes in a graph

---
 src/nodes/node_conf.rs | 15 ++++++++-------
 src/nodes/node_exec.rs | 10 ++--------
 src/nodes/node_prog.rs | 10 +++++++++-
 3 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index b25fffa..a7c3837 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -74,7 +74,7 @@ impl NodeInstance {
 
     pub fn as_op(&self) -> NodeOp {
         NodeOp {
-            idx: self.prog_idx as u8,
+            idx: self.prog_idx,
             node: self.node.clone(),
             out_idxlen: (self.out_start, self.out_end),
             in_idxlen: (self.in_start, self.in_end),
@@ -286,11 +286,6 @@ impl SharedNodeConf {
         node_ctx_values
             .resize_with(NODE_COMMUNICATION_BUFFER_SIZE, || Arc::new(AtomicFloat::new(0.0)));
 
-        let mut exec_node_ctx_vals = Vec::new();
-        for ctx_val in node_ctx_values.iter() {
-            exec_node_ctx_vals.push(ctx_val.clone());
-        }
-
         let sample_rate = Arc::new(AtomicFloat::new(44100.0));
 
         (
@@ -303,7 +298,6 @@ impl SharedNodeConf {
                 sample_rate: sample_rate.clone(),
             },
             SharedNodeExec {
-                node_ctx_values: exec_node_ctx_vals,
                 graph_update_con: rb_graph_con,
                 graph_drop_prod: rb_drop_prod,
                 graph_event_prod: rb_ev_prod,
@@ -726,6 +720,12 @@ impl NodeConfigurator {
             let index = self.nodes.len();
             self.node2idx.insert(ni, index);
             self.nodes.push((info, None, node.clone()));
+
+            // Make sure there is space for the LED and phase values of this node:
+            while self.shared.node_ctx_values.len() < self.nodes.len() * 2 {
+                self.shared.node_ctx_values.push(Arc::new(AtomicFloat::new(0.0)));
+            }
+
             Some((&self.nodes[index].0, index as u8))
         } else {
             None
@@ -967,6 +967,7 @@ impl NodeConfigurator {
         }
 
         self.output_fb_cons = prog.take_feedback_consumer();
+        prog.ctx_values = self.shared.node_ctx_values.clone();
 
         let _ = self.shared.graph_update_prod.push(GraphMessage::NewProg { prog, copy_old_out });
     }
diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 922b344..4cba5f2 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -68,11 +68,6 @@ pub struct NodeExecutor {
 
 /// Contains anything that connects the [NodeExecutor] with the frontend part.
 pub(crate) struct SharedNodeExec {
-    /// Holds two context values interleaved.
-    /// The first for each node is the LED value and the second is a
-    /// phase value. The LED will be displayed in the hex matrix, while the
-    /// phase might be used to display an envelope's play position.
-    pub(crate) node_ctx_values: Vec<Arc<AtomicFloat>>,
     /// For receiving Node and NodeProg updates
     pub(crate) graph_update_con: Consumer<GraphMessage>,
     /// For receiving deleted/overwritten nodes from the backend thread.
@@ -458,7 +453,6 @@ impl NodeExecutor {
 
         self.process_smoothers(ctx.nframes());
 
-        let ctx_vals = &mut self.shared.node_ctx_values;
         let prog = &mut self.prog;
         let exec_ctx = &mut self.exec_ctx;
 
@@ -471,7 +465,7 @@ impl NodeExecutor {
             let inp = op.in_idxlen;
             let at = op.at_idxlen;
             let md = op.mod_idxlen;
-            let ctx_idx = op.idx as usize * 2;
+            let ctx_idx = op.idx * 2;
 
             for modop in prog.modops[md.0..md.1].iter_mut() {
                 modop.process(nframes);
@@ -488,7 +482,7 @@ impl NodeExecutor {
                 &prog.atoms[at.0..at.1],
                 &prog.cur_inp[inp.0..inp.1],
                 &mut prog.out[out.0..out.1],
-                &ctx_vals[ctx_idx..ctx_idx + 2],
+                &prog.ctx_values[ctx_idx..ctx_idx + 2],
             );
 
             let last_frame_idx = nframes - 1;
diff --git a/src/nodes/node_prog.rs b/src/nodes/node_prog.rs
index 2759526..21ff63a 100644
--- a/src/nodes/node_prog.rs
+++ b/src/nodes/node_prog.rs
@@ -4,6 +4,8 @@
 
 use crate::dsp::{Node, ProcBuf, SAtom};
 use std::cell::RefCell;
+use std::sync::Arc;
+use synfx_dsp::AtomicFloat;
 use triple_buffer::{Input, Output, TripleBuffer};
 
 thread_local! {
@@ -70,7 +72,7 @@ impl ModOp {
 #[derive(Debug, Clone)]
 pub struct NodeOp {
     /// Stores the index of the node
-    pub idx: u8,
+    pub idx: usize,
     /// Stores the reference to the node.
     pub node: Node,
     /// Output index and length of the node:
@@ -197,6 +199,10 @@ pub struct NodeProg {
     /// Temporary hold for the producer for the `out_feedback`:
     pub out_fb_cons: Option<Output<Vec<f32>>>,
 
+    /// The LED and phase feedback values of all the nodes.
+    /// See also [crate::dsp::LedPhaseVals].
+    pub ctx_values: Vec<Arc<AtomicFloat>>,
+
     /// A unique ID assigned to the node prog. Mostly for debugging purposes.
     /// You should only read this field.
     pub unique_id: usize,
@@ -237,6 +243,7 @@ impl NodeProg {
             modops: vec![],
             out_feedback: input_fb,
             out_fb_cons: Some(output_fb),
+            ctx_values: vec![],
             locked_buffers: false,
             unique_id: new_node_prog_id(),
         }
@@ -272,6 +279,7 @@ impl NodeProg {
             prog: vec![],
             out_feedback: input_fb,
             out_fb_cons: Some(output_fb),
+            ctx_values: vec![],
             locked_buffers: false,
             unique_id: new_node_prog_id(),
         }
-- 
2.43.0


From 4baf4df24b56416e23e759c9fb0fb83721e03559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:29 +0000
Subject: [PATCH 06/54] fix: injected MIDI events keep their order, late events
 do not underflow

---
 src/nodes/midi.rs      | 2 +-
 src/nodes/node_exec.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nodes/midi.rs b/src/nodes/midi.rs
index eef2e10..5f03c28 100644
--- a/src/nodes/midi.rs
+++ b/src/nodes/midi.rs
@@ -93,7 +93,7 @@ impl EventWindowing {
     ) -> Option<HxTimedEvent> {
         if let Some(event) = self.event.take() {
             if event.timing < (to_time + block_size) {
-                return Some(HxTimedEvent { timing: event.timing - to_time, kind: event.kind });
+                return Some(HxTimedEvent { timing: event.timing.saturating_sub(to_time), kind: event.kind });
             } else {
                 self.event = Some(event);
             }
diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 4cba5f2..f83b54d 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -334,7 +334,7 @@ impl NodeExecutor {
         self.exec_ctx.midi_ccs.clear();
 
         if self.injected_midi.len() > 0 {
-            for ev in self.injected_midi.iter().rev() {
+            for ev in self.injected_midi.iter() {
                 let ev = HxTimedEvent::new_timed(0, *ev);
                 if ev.is_cc() {
                     self.exec_ctx.midi_ccs.push(ev);
-- 
2.43.0


From c5a1455aef93631bf5d26a17013296bd3a6ecacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:29 +0000
Subject: [PATCH 07/54] fix: smooth parameters with the default sample rate too

---
 src/nodes/node_exec.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index f83b54d..d0715b2 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -173,6 +173,9 @@ impl NodeExecutor {
     pub(crate) fn new(shared: SharedNodeExec) -> Self {
         let mut smoothers = Vec::new();
         smoothers.resize_with(MAX_SMOOTHERS, || (0, Smoother::new()));
+        for (_, smoother) in smoothers.iter_mut() {
+            smoother.set_sample_rate(44100.0);
+        }
 
         let target_refresh = Vec::with_capacity(MAX_SMOOTHERS);
         let injected_midi = Vec::with_capacity(MAX_INJ_MIDI_EVENTS);
-- 
2.43.0


From 02f293cd1e9b9635c95505afc4136c271fd9dd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:29 +0000
Subject: [PATCH 08/54] fix: no jump when a parameter is changed during a ramp
 after a graph update

---
 src/nodes/node_exec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index d0715b2..4d237c2 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -395,7 +395,10 @@ impl NodeExecutor {
         // First check if we already have a running smoother for this param:
         for (sm_inp_idx, smoother) in self.smoothers.iter_mut().filter(|s| !s.1.is_done()) {
             if *sm_inp_idx == input_idx {
-                smoother.set(prog.params[input_idx], value);
+                // Continue from where the running ramp is, prog.params might contain
+                // the target value already if a new program was received.
+                let current = smoother.current();
+                smoother.set(current, value);
                 //d// println!("RE-SET SMOOTHER {} {:6.3} (old = {:6.3})",
                 //d//          input_idx, value, prog.params[input_idx]);
                 return;
-- 
2.43.0


From 6ac5ce92c891200e886fc95e939740a02878355c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:29 +0000
Subject: [PATCH 09/54] fix: nodes that did not run when the sample rate was
 set get it later

---
 src/dsp/mod.rs         | 21 ++++++++++++++++++---
 src/nodes/node_exec.rs |  8 ++++++++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/dsp/mod.rs b/src/dsp/mod.rs
index 18c4d7a..b749a6e 100644
--- a/src/dsp/mod.rs
+++ b/src/dsp/mod.rs
@@ -2701,15 +2701,22 @@ node_list! {make_node_info_enum}
 /// 4. Upon update of the [crate::nodes::NodeProg] on the DSP thread it is disposed
 /// by being sent to the drop thread.
 #[derive(Clone)]
-pub struct Node(pub Arc<SyncUnsafeCell<dyn DspNode>>, NodeId);
+pub struct Node(pub Arc<SyncUnsafeCell<dyn DspNode>>, NodeId, Arc<AtomicFloat>);
 
 impl Node {
     pub fn id(&self) -> NodeId {
         self.1
     }
 
+    /// Returns the sample rate that was set most recently by [Node::set_sample_rate].
+    #[inline]
+    pub fn sample_rate(&self) -> f32 {
+        self.2.get()
+    }
+
     #[inline]
     pub fn set_sample_rate(&self, srate: f32) {
+        self.2.set(srate);
         unsafe {
             (*self.0.get()).set_sample_rate(srate);
         }
@@ -2748,7 +2755,11 @@ pub struct NopNode();
 
 impl NopNode {
     pub fn new_node() -> Node {
-        Node(Arc::new(SyncUnsafeCell::new(Self {})), NodeId::Nop)
+        Node(
+            Arc::new(SyncUnsafeCell::new(Self {})),
+            NodeId::Nop,
+            Arc::new(AtomicFloat::new(0.0)),
+        )
     }
 }
 
@@ -2785,7 +2796,11 @@ pub fn node_factory(node_id: NodeId, node_global: &NodeGlobalRef) -> Option<(Nod
         ) => {
             match node_id {
                 $(NodeId::$variant(_) => Some((
-                    Node(Arc::new(SyncUnsafeCell::new($variant::new(&node_id, node_global))), node_id),
+                    Node(
+                        Arc::new(SyncUnsafeCell::new($variant::new(&node_id, node_global))),
+                        node_id,
+                        Arc::new(AtomicFloat::new(0.0)),
+                    ),
                     NodeInfo::from_node_id(node_id),
                 )),)+
                 _ => None,
diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 4d237c2..147c519 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -279,6 +279,14 @@ impl NodeExecutor {
 
                     self.prog.assign_outputs();
 
+                    // The sample rate might have been changed since the nodes
+                    // were created or while they were not part of the program:
+                    for op in self.prog.prog.iter() {
+                        if op.node.sample_rate() != self.sample_rate {
+                            op.node.set_sample_rate(self.sample_rate);
+                        }
+                    }
+
                     let _ = self.shared.graph_drop_prod.push(DropMsg::Prog { prog: prev_prog });
 
                     log(|w| {
-- 
2.43.0


From 84dcc7833573eaa13c85dc1df2a5ac5ee8fdb35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:29 +0000
Subject: [PATCH 10/54] fix: slew of MidiCC and ExtA-F depends on the sample
 rate

---
 src/dsp/node_ext.rs    | 6 +++++-
 src/dsp/node_midicc.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dsp/node_ext.rs b/src/dsp/node_ext.rs
index 48dfadc..f6131a4 100644
--- a/src/dsp/node_ext.rs
+++ b/src/dsp/node_ext.rs
@@ -59,7 +59,11 @@ react to MIDI CC messages.
         }
 
         impl DspNode for $name {
-            fn set_sample_rate(&mut self, _srate: f32) {}
+            fn set_sample_rate(&mut self, srate: f32) {
+                self.slew1.set_sample_rate(srate);
+                self.slew2.set_sample_rate(srate);
+                self.slew3.set_sample_rate(srate);
+            }
             fn reset(&mut self) {}
 
             #[inline]
diff --git a/src/dsp/node_midicc.rs b/src/dsp/node_midicc.rs
index d80da81..ec8e1ed 100644
--- a/src/dsp/node_midicc.rs
+++ b/src/dsp/node_midicc.rs
@@ -73,7 +73,11 @@ If you need different ~~slew~~ values for the CCs, I recommend creating other
 }
 
 impl DspNode for MidiCC {
-    fn set_sample_rate(&mut self, _srate: f32) {}
+    fn set_sample_rate(&mut self, srate: f32) {
+        self.slew_cc1.set_sample_rate(srate);
+        self.slew_cc2.set_sample_rate(srate);
+        self.slew_cc3.set_sample_rate(srate);
+    }
     fn reset(&mut self) {}
 
     #[inline]
-- 
2.43.0


From fbc0aabb09a18a96debafc8e0bf3c7a45b429d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:29 +0000
Subject: [PATCH 11/54] fix: tell dynamic Rust nodes the sample rate

---
 src/dsp/node_rust.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/dsp/node_rust.rs b/src/dsp/node_rust.rs
index c7db024..6d6c381 100644
--- a/src/dsp/node_rust.rs
+++ b/src/dsp/node_rust.rs
@@ -115,9 +115,14 @@ impl<T> DynNodeBuffer<T>
 where
     T: Send,
 {
+    /// Takes over the most recently sent node. Returns `true` if there was a new one.
+    #[inline]
+    pub fn update(&mut self) -> bool {
+        self.output.update()
+    }
+
     #[inline]
     pub fn access(&mut self) -> &mut T {
-        self.output.update();
         self.output.output_buffer()
     }
 }
@@ -166,6 +171,7 @@ impl std::fmt::Debug for Rust1x1 {
 
 /// A native Rust code node that uses trait objects for dispatch
 pub struct Rust1x1 {
+    srate: f32,
     buffer: DynNodeBuffer<Box<dyn DynamicNode1x1>>,
 }
 
@@ -177,7 +183,7 @@ impl Rust1x1 {
             let mut handle = DynNodeHandle::<Box<dyn DynamicNode1x1>>::new();
             handle.get_output_buffer()
         };
-        Self { buffer }
+        Self { srate: 44100.0, buffer }
     }
 
     pub const inp: &'static str =
@@ -213,9 +219,14 @@ See also [crate::SynthConstructor] and [crate::DynamicNode1x1].
 }
 
 impl DspNode for Rust1x1 {
-    fn set_sample_rate(&mut self, _srate: f32) {}
+    fn set_sample_rate(&mut self, srate: f32) {
+        self.srate = srate;
+        self.buffer.access().set_sample_rate(srate);
+    }
 
-    fn reset(&mut self) {}
+    fn reset(&mut self) {
+        self.buffer.access().reset();
+    }
 
     #[inline]
     fn process(
@@ -243,6 +254,10 @@ impl DspNode for Rust1x1 {
             phase_value: ctx_vals[1].clone(),
         };
 
+        if self.buffer.update() {
+            self.buffer.access().set_sample_rate(self.srate);
+        }
+
         self.buffer.access().process(
             inp.slice(ctx.nframes()),
             out.slice_mut(ctx.nframes()),
-- 
2.43.0


From 37799aff78ea2a807d047457ee392034089cd873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:29 +0000
Subject: [PATCH 12/54] fix: no index out of bounds for an input index of 32

---
 src/nodes/node_conf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index a7c3837..d73fd3f 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -87,7 +87,7 @@ impl NodeInstance {
     }
 
     pub fn mod_in_local2global(&self, idx: u8) -> Option<usize> {
-        if (idx as usize) > self.in2mod_map.len() {
+        if (idx as usize) >= self.in2mod_map.len() {
             return None;
         }
         self.in2mod_map[idx as usize]
-- 
2.43.0


From 06be376be5b301892e25a6222247b7f2c26ca3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:29 +0000
Subject: [PATCH 13/54] fix: LED, phase and output feedback do not survive the
 deletion of the nodes

---
 src/nodes/node_conf.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index d73fd3f..22df3d6 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -710,6 +710,13 @@ impl NodeConfigurator {
         self.atoms.clear();
         self.atom_values.clear();
 
+        // Don't show the LED/phase values of the deleted nodes for the new ones:
+        for val in self.shared.node_ctx_values.iter_mut() {
+            *val = Arc::new(AtomicFloat::new(0.0));
+        }
+        self.output_fb_values.clear();
+        self.output_fb_cons = None;
+
         let _ = self.shared.graph_update_prod.push(GraphMessage::Clear { prog: NodeProg::empty() });
     }
 
-- 
2.43.0


From 303c0942c4ae27217f303ae34208c793e3228ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:29 +0000
Subject: [PATCH 14/54] fix: chain builder sets the parameters of the placed
 node instances

---
 src/chain_builder.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/chain_builder.rs b/src/chain_builder.rs
index 959618b..cfe797d 100644
--- a/src/chain_builder.rs
+++ b/src/chain_builder.rs
@@ -251,6 +251,8 @@ impl MatrixCellChain {
 
         let mut pos = (at_x, at_y);
 
+        let mut params = vec![];
+
         for link in self.chain.iter() {
             let (x, y) = pos;
 
@@ -272,15 +274,20 @@ impl MatrixCellChain {
 
             matrix.place(x, y, cell);
 
+            // The parameters belong to the instance that was actually placed:
+            for (pid, at) in link.params.iter() {
+                if let Some(pid) = node_id.inp_param(pid.name()) {
+                    params.push((pid, at.clone()));
+                }
+            }
+
             let offs = link.dir.as_offs(pos.0);
             pos.0 = (pos.0 as i32 + offs.0) as usize;
             pos.1 = (pos.1 as i32 + offs.1) as usize;
         }
 
-        for link in self.chain.iter() {
-            for (pid, at) in link.params.iter() {
-                matrix.set_param(*pid, at.clone());
-            }
+        for (pid, at) in params.into_iter() {
+            matrix.set_param(pid, at);
         }
 
         Ok(())
-- 
2.43.0


From 0f81b5435b393d690cf2fbddfa10bed11cc0cd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:58 +0000
Subject: [PATCH 15/54] fix: TSeq does not print on the audio thread

---
 src/dsp/node_tseq.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dsp/node_tseq.rs b/src/dsp/node_tseq.rs
index f362c41..5a2f3cd 100644
--- a/src/dsp/node_tseq.rs
+++ b/src/dsp/node_tseq.rs
@@ -218,7 +218,6 @@ impl DspNode for TSeq {
         for (frame, phase_out) in phase_out.iter_mut().enumerate().take(ctx.nframes()) {
             if time.trigger.check_trigger(denorm::TSeq::trig(trig, frame)) {
                 time.clock.sync();
-                println!("CLOCK SYNC");
             }
 
             let phase = match cmode {
-- 
2.43.0


From 346c0ebcc4a1dfee334d503ffedefed5cb5610de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:58 +0000
Subject: [PATCH 16/54] fix: uploading a cyclic builder graph reports
 CycleDetected instead of a stack overflow

---
 src/synth_constructor.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/synth_constructor.rs b/src/synth_constructor.rs
index f2770a2..1667c60 100644
--- a/src/synth_constructor.rs
+++ b/src/synth_constructor.rs
@@ -39,7 +39,9 @@ See also [SynthConstructor::new] and [crate::build].
 use crate::build::*;
 use crate::nodes::{new_node_engine, NodeGraphOrdering};
 use crate::{NodeConfigurator, NodeExecutor, NodeId, SAtom};
-use std::collections::HashMap;
+use std::cell::RefCell;
+use std::collections::{HashMap, HashSet};
+use std::rc::Rc;
 
 /// Returned by [SynthConstructor] if some error occured while updating the graph
 /// or changing paramters.
@@ -119,11 +121,17 @@ impl SynthConstructor {
         &mut self,
         node: &ConstructorNode,
         only_update_params: bool,
+        visited: &mut HashSet<*const RefCell<Vec<ConstructorOp>>>,
     ) -> Result<bool, SynthError> {
         let mut need_rebuild = false;
 
         let node_id = node.node_id;
 
+        // Builder nodes might be shared and even refer to themselves:
+        if !visited.insert(Rc::as_ptr(&node.ops)) {
+            return Ok(false);
+        }
+
         if !self.nodes.contains_key(&node_id) {
             self.nodes.insert(node_id, Box::new(NodeConfig::new(node_id)));
         }
@@ -174,7 +182,7 @@ impl SynthConstructor {
         }
 
         for node in walk_afterwads.iter() {
-            if self.walk_upload(&node, only_update_params)? {
+            if self.walk_upload(&node, only_update_params, visited)? {
                 need_rebuild = true;
             }
         }
@@ -240,7 +248,7 @@ impl SynthConstructor {
     pub fn update_params(&mut self, node: &dyn ConstructorNodeBuilder) -> Result<bool, SynthError> {
         let built_node = node.build();
 
-        if self.walk_upload(&built_node, true)? {
+        if self.walk_upload(&built_node, true, &mut HashSet::new())? {
             self.upload(node)?;
             Ok(true)
         } else {
@@ -298,7 +306,7 @@ impl SynthConstructor {
 
     pub fn upload(&mut self, node: &dyn ConstructorNodeBuilder) -> Result<(), SynthError> {
         let node = node.build();
-        self.walk_upload(&node, false)?;
+        self.walk_upload(&node, false, &mut HashSet::new())?;
 
         self.graph_ordering.clear();
 
-- 
2.43.0


From c014c76a011e1151d41122943fc5ac1f3c35ae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:27 +0000
Subject: [PATCH 17/54] fix: update_params uploads a new graph if the
 connections changed

---
 src/synth_constructor.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/synth_constructor.rs b/src/synth_constructor.rs
index 1667c60..987f002 100644
--- a/src/synth_constructor.rs
+++ b/src/synth_constructor.rs
@@ -167,9 +167,16 @@ impl SynthConstructor {
                     }
                     ConstructorOp::Input(param, node, out) => {
                         let id = node.node_id;
+                        let unchanged = node_config
+                            .edges
+                            .get(param)
+                            .map(|(old_id, old_out)| *old_id == id && old_out == out)
+                            .unwrap_or(false);
+                        if !unchanged {
+                            need_rebuild = true;
+                        }
                         if !only_update_params {
                             node_config.set_edge(param, id, out);
-                            need_rebuild = true;
                         }
                         walk_afterwads.push(node.clone());
                     }
-- 
2.43.0


From ce0d3de9f5224de5fbb8a8463c910805a4d440e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:43 +0000
Subject: [PATCH 18/54] fix: a refused upload of the SynthConstructor does not
 affect later uploads

---
 src/synth_constructor.rs | 48 ++++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/synth_constructor.rs b/src/synth_constructor.rs
index 987f002..23322df 100644
--- a/src/synth_constructor.rs
+++ b/src/synth_constructor.rs
@@ -121,6 +121,7 @@ impl SynthConstructor {
         &mut self,
         node: &ConstructorNode,
         only_update_params: bool,
+        changed_nodes: &mut Vec<NodeId>,
         visited: &mut HashSet<*const RefCell<Vec<ConstructorOp>>>,
     ) -> Result<bool, SynthError> {
         let mut need_rebuild = false;
@@ -184,12 +185,12 @@ impl SynthConstructor {
             }
         }
 
-        if only_update_params && changed_params && self.update_node_params(node_id)? {
-            need_rebuild = true;
+        if changed_params {
+            changed_nodes.push(node_id);
         }
 
         for node in walk_afterwads.iter() {
-            if self.walk_upload(&node, only_update_params, visited)? {
+            if self.walk_upload(&node, only_update_params, changed_nodes, visited)? {
                 need_rebuild = true;
             }
         }
@@ -254,9 +255,31 @@ impl SynthConstructor {
     ///```
     pub fn update_params(&mut self, node: &dyn ConstructorNodeBuilder) -> Result<bool, SynthError> {
         let built_node = node.build();
+        let saved_nodes = self.nodes.clone();
 
-        if self.walk_upload(&built_node, true, &mut HashSet::new())? {
-            self.upload(node)?;
+        let ret = self.update_params_node(built_node);
+        if ret.is_err() {
+            self.nodes = saved_nodes;
+        }
+
+        ret
+    }
+
+    fn update_params_node(&mut self, node: ConstructorNode) -> Result<bool, SynthError> {
+        let mut changed_nodes = vec![];
+        let mut need_rebuild =
+            self.walk_upload(&node, true, &mut changed_nodes, &mut HashSet::new())?;
+
+        if !need_rebuild {
+            for node_id in changed_nodes.iter() {
+                if self.update_node_params(*node_id)? {
+                    need_rebuild = true;
+                }
+            }
+        }
+
+        if need_rebuild {
+            self.upload_node(node)?;
             Ok(true)
         } else {
             Ok(false)
@@ -312,8 +335,19 @@ impl SynthConstructor {
     }
 
     pub fn upload(&mut self, node: &dyn ConstructorNodeBuilder) -> Result<(), SynthError> {
-        let node = node.build();
-        self.walk_upload(&node, false, &mut HashSet::new())?;
+        let saved_nodes = self.nodes.clone();
+
+        let ret = self.upload_node(node.build());
+        if ret.is_err() {
+            // Don't let the refused graph interfere with later uploads:
+            self.nodes = saved_nodes;
+        }
+
+        ret
+    }
+
+    fn upload_node(&mut self, node: ConstructorNode) -> Result<(), SynthError> {
+        self.walk_upload(&node, false, &mut vec![], &mut HashSet::new())?;
 
         self.graph_ordering.clear();
 
-- 
2.43.0


From dc6893ed713ede24518eb1f083584e4dad43259f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:16 +0000
Subject: [PATCH 19/54] fix: the feedback delay does not lose the first sample
 nor depend on the node order

---
 src/shared_feedback.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/shared_feedback.rs b/src/shared_feedback.rs
index 4ee55d8..bdab1df 100644
--- a/src/shared_feedback.rs
+++ b/src/shared_feedback.rs
@@ -52,17 +52,12 @@ impl SharedFeedback {
 pub struct SharedFeedbackWriter {
     buffer: Arc<Vec<AtomicFloat>>,
     write_ptr: usize,
-    delay_sample_count: usize,
 }
 
 impl SharedFeedbackWriter {
     pub fn new(sfb: &SharedFeedback) -> Self {
         let buffer = sfb.buffer.clone();
-        Self {
-            buffer,
-            delay_sample_count: sfb.delay_sample_count,
-            write_ptr: sfb.delay_sample_count,
-        }
+        Self { buffer, write_ptr: sfb.delay_sample_count }
     }
 
     /// Write the next sample in to the feedback buffer.
@@ -73,7 +68,7 @@ impl SharedFeedbackWriter {
     /// `FbRd` DSP node reading from that buffer.
     pub fn write(&mut self, s: f32) {
         self.buffer[self.write_ptr].set(s);
-        self.write_ptr = (self.write_ptr + 1) % self.delay_sample_count;
+        self.write_ptr = (self.write_ptr + 1) % self.buffer.len();
     }
 }
 
@@ -88,12 +83,11 @@ impl SharedFeedbackWriter {
 pub struct SharedFeedbackReader {
     buffer: Arc<Vec<AtomicFloat>>,
     read_ptr: usize,
-    delay_sample_count: usize,
 }
 
 impl SharedFeedbackReader {
     pub fn new(sfb: &SharedFeedback) -> Self {
-        Self { buffer: sfb.buffer.clone(), delay_sample_count: sfb.delay_sample_count, read_ptr: 0 }
+        Self { buffer: sfb.buffer.clone(), read_ptr: 0 }
     }
 
     /// Read the next sample from the buffer. Wraps around after some internal buffer
@@ -101,7 +95,7 @@ impl SharedFeedbackReader {
     /// to do it's functionality.
     pub fn read(&mut self) -> f32 {
         let ret = self.buffer[self.read_ptr].get();
-        self.read_ptr = (self.read_ptr + 1) % self.delay_sample_count;
+        self.read_ptr = (self.read_ptr + 1) % self.buffer.len();
         ret
     }
 }
-- 
2.43.0


From 6bfdea203968297501e4946fe061afe2a52098f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:16 +0000
Subject: [PATCH 20/54] fix: loading a tracker pattern with bad dimensions does
 not panic

---
 src/dsp/tracker/pattern.rs | 7 ++++---
 src/matrix_repr.rs         | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 4783f09..442e713 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -95,13 +95,14 @@ impl PatternData {
             self.modified_col(i);
         }
 
-        for (row_idx, row) in repr.data.iter().enumerate() {
-            for (col_idx, cell) in row.iter().enumerate() {
+        for (row_idx, row) in repr.data.iter().take(MAX_PATTERN_LEN).enumerate() {
+            for (col_idx, cell) in row.iter().take(MAX_COLS).enumerate() {
+                self.strings[row_idx][col_idx] = None;
                 self.data[row_idx][col_idx] = if *cell < 0 { None } else { Some(*cell as u16) };
             }
         }
 
-        self.rows = repr.rows;
+        self.rows = repr.rows.min(self.data.len());
         self.edit_step = repr.edit_step;
         self.cursor = repr.cursor;
         self.generation += 1;
diff --git a/src/matrix_repr.rs b/src/matrix_repr.rs
index c6146f8..925d325 100644
--- a/src/matrix_repr.rs
+++ b/src/matrix_repr.rs
@@ -151,7 +151,7 @@ impl PatternRepr {
 
         let cts = &v["col_types"];
         if let Value::Array(cts) = cts {
-            for (i, ct) in cts.iter().enumerate() {
+            for (i, ct) in cts.iter().take(MAX_COLS).enumerate() {
                 col_types[i] = ct.as_i64().unwrap_or(0) as u8;
             }
         }
@@ -159,9 +159,9 @@ impl PatternRepr {
         let mut data = vec![vec![-1; MAX_COLS]; MAX_PATTERN_LEN];
         let dt = &v["data"];
         if let Value::Array(dt) = dt {
-            for (row_idx, row) in dt.iter().enumerate() {
+            for (row_idx, row) in dt.iter().take(MAX_PATTERN_LEN).enumerate() {
                 if let Value::Array(row) = row {
-                    for (col_idx, c) in row.iter().enumerate() {
+                    for (col_idx, c) in row.iter().take(MAX_COLS).enumerate() {
                         data[row_idx][col_idx] = c.as_i64().unwrap_or(-1) as i32;
                     }
                 }
-- 
2.43.0


From f2b8a3b99e764fecbf248edc6d4ff20c8999b6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:16 +0000
Subject: [PATCH 21/54] fix: pattern length and edit step of otherwise empty
 patterns are saved

---
 src/dsp/tracker/pattern.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 442e713..f9a5ec6 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -7,6 +7,8 @@ use super::MAX_COLS;
 use super::MAX_PATTERN_LEN;
 use crate::matrix_repr::PatternRepr;
 
+const DEFAULT_EDIT_STEP: usize = 4;
+
 #[derive(Debug)]
 pub struct PatternData {
     col_types: [PatternColType; MAX_COLS],
@@ -28,7 +30,7 @@ impl PatternData {
             out_data: vec![[(0.0, 0); MAX_PATTERN_LEN]; MAX_COLS],
             strings: vec![vec![None; MAX_COLS]; MAX_PATTERN_LEN],
             cursor: (2, 2),
-            edit_step: 4,
+            edit_step: DEFAULT_EDIT_STEP,
             dirty_col: [true; MAX_COLS],
             generation: 0,
             rows,
@@ -38,6 +40,10 @@ impl PatternData {
 
 impl PatternData {
     pub fn is_unset(&self) -> bool {
+        if self.rows != MAX_PATTERN_LEN || self.edit_step != DEFAULT_EDIT_STEP {
+            return false;
+        }
+
         for ct in self.col_types.iter() {
             if *ct != PatternColType::Value {
                 return false;
-- 
2.43.0


From 94203be07be95296c4f429e69f9e20f9f5a0e874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:16 +0000
Subject: [PATCH 22/54] fix: tracker sequencer always gets all changes of the
 pattern

---
 src/dsp/tracker/mod.rs     | 8 ++++++++
 src/dsp/tracker/pattern.rs | 7 ++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/dsp/tracker/mod.rs b/src/dsp/tracker/mod.rs
index ea8c745..0c33f8f 100644
--- a/src/dsp/tracker/mod.rs
+++ b/src/dsp/tracker/mod.rs
@@ -87,6 +87,11 @@ impl Tracker {
     }
 
     pub fn send_one_update(&mut self) -> bool {
+        if self.data_prod.is_full() {
+            // Try again later, the modified columns are still marked as such.
+            return false;
+        }
+
         let mut data = self.data.lock().unwrap();
 
         for col in 0..MAX_COLS {
@@ -117,6 +122,9 @@ impl Tracker {
             self.seq = Some(PatternSequencer::new(MAX_PATTERN_LEN));
             self.data_prod = prod;
             self.seq_cons = Some(con);
+
+            // The new backend does not know anything about the pattern yet:
+            self.data.lock().unwrap().modified_all_cols();
         }
 
         let seq = self.seq.take().unwrap();
diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index f9a5ec6..86b903d 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -124,6 +124,10 @@ impl PatternData {
         }
     }
 
+    pub(crate) fn modified_all_cols(&mut self) {
+        self.dirty_col = [true; MAX_COLS];
+    }
+
     pub fn col_is_modified_reset(&mut self, col: usize) -> bool {
         if self.dirty_col.get(col).copied().unwrap_or(false) {
             self.dirty_col[col] = false;
@@ -364,7 +368,8 @@ impl UIPatternModel for PatternData {
 
     fn set_rows(&mut self, rows: usize) {
         self.rows = rows.min(self.data.len());
-        self.modified_col(0); // modify any col, so we send an update.
+        // The interpolated values depend on the length, so all need an update:
+        self.modified_all_cols();
         self.generation += 1;
     }
 
-- 
2.43.0


From f7ae4891892185b3f557c7e8260cdfd4dae5c44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:16 +0000
Subject: [PATCH 23/54] fix: a crash while saving does not leave an empty or
 partial patch file

---
 src/matrix_repr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matrix_repr.rs b/src/matrix_repr.rs
index 925d325..61a54cb 100644
--- a/src/matrix_repr.rs
+++ b/src/matrix_repr.rs
@@ -314,6 +314,8 @@ impl MatrixRepr {
         let mut file =
             OpenOptions::new().create(true).write(true).truncate(true).open(&tmp_filepath)?;
         file.write_all(ser.as_bytes())?;
+        // Make sure the data is on the disk, before the previous file is replaced:
+        file.sync_all()?;
         std::fs::rename(&tmp_filepath, &filepath)?;
 
         Ok(())
-- 
2.43.0


From 1a7b73639f55493eeff394f62c4ada7810db8217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:16 +0000
Subject: [PATCH 24/54] fix: cells with a position outside the matrix are not
 loaded to a wrong position

---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 9bd7215..3405e6a 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -922,7 +922,7 @@ impl Matrix {
 
         for cell_repr in repr.cells.iter() {
             let cell = Cell::from_repr(cell_repr);
-            self.place(cell.x as usize, cell.y as usize, cell);
+            self.place(cell_repr.x, cell_repr.y, cell);
         }
 
         for (tracker_id, pat) in repr.patterns.iter().enumerate() {
-- 
2.43.0


From 669279470c3eab0024dc613dfc91392bacc0de5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:16 +0000
Subject: [PATCH 25/54] fix: patterns and block functions of all node instances
 are saved

---
 src/matrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 3405e6a..972dabf 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -873,7 +873,7 @@ impl Matrix {
 
         let mut patterns: Vec<Option<PatternRepr>> = vec![];
         let mut tracker_id = 0;
-        while tracker_id < 128 || self.has_tracker(tracker_id) {
+        while tracker_id < 128 || (tracker_id..256).any(|id| self.has_tracker(id)) {
             if let Some(pdata) = self.get_pattern_data(tracker_id) {
                 patterns.push(if pdata.lock().unwrap().is_unset() {
                     None
@@ -887,7 +887,7 @@ impl Matrix {
 
         let mut block_funs: Vec<Option<BlockFunSnapshot>> = vec![];
         let mut bf_id = 0;
-        while bf_id < 32 || self.has_code_engine(bf_id) {
+        while bf_id < 32 || (bf_id..256).any(|id| self.has_code_engine(id)) {
             if let Some(bf) = self.get_block_function(bf_id) {
                 block_funs.push(if bf.lock().unwrap().is_unset() {
                     None
-- 
2.43.0


From 631b3c457609ec9948135815461594fe0a2b0437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:16 +0000
Subject: [PATCH 26/54] fix: modulation amounts of parameters that were not set
 are saved

---
 src/nodes/node_conf.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index 22df3d6..0c4facb 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -511,7 +511,7 @@ impl NodeConfigurator {
     /// Most useful for serialization and saving patches.
     #[allow(clippy::type_complexity)]
     pub fn dump_param_values(&self) -> (Vec<(ParamId, f32, Option<f32>)>, Vec<(ParamId, SAtom)>) {
-        let params: Vec<(ParamId, f32, Option<f32>)> = self
+        let mut params: Vec<(ParamId, f32, Option<f32>)> = self
             .param_values
             .iter()
             .map(|(param_id, value)| {
@@ -523,6 +523,13 @@ impl NodeConfigurator {
             })
             .collect();
 
+        // There might be modulation amounts for parameters that were not set yet:
+        for (param_id, modamt) in self.param_modamt.iter() {
+            if modamt.is_some() && !self.param_values.contains_key(param_id) {
+                params.push((*param_id, param_id.denorm(param_id.norm_def()), *modamt));
+            }
+        }
+
         let atoms: Vec<(ParamId, SAtom)> =
             self.atom_values.iter().map(|(param_id, value)| (*param_id, value.clone())).collect();
 
-- 
2.43.0


From 3f41a455d93c1ab5bbe4df7e1e4255869e4ac511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:16 +0000
Subject: [PATCH 27/54] fix: clearing or loading a patch resets patterns, block
 functions and feedback buffers

---
 src/dsp/tracker/pattern.rs |  7 +++++++
 src/global.rs              | 24 ++++++++++++++++++++++++
 src/matrix.rs              |  1 +
 src/wblockdsp/language.rs  | 14 +++++++++++++-
 4 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 86b903d..8f5cb84 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -39,6 +39,13 @@ impl PatternData {
 }
 
 impl PatternData {
+    /// Resets the pattern to the initial state.
+    pub(crate) fn reset(&mut self) {
+        let generation = self.generation + 1;
+        *self = Self::new(MAX_PATTERN_LEN);
+        self.generation = generation;
+    }
+
     pub fn is_unset(&self) -> bool {
         if self.rows != MAX_PATTERN_LEN || self.edit_step != DEFAULT_EDIT_STEP {
             return false;
diff --git a/src/global.rs b/src/global.rs
index fe5c76f..3f8dd92 100644
--- a/src/global.rs
+++ b/src/global.rs
@@ -59,6 +59,23 @@ impl NodeGlobalData {
         }))
     }
 
+    /// Resets the tracker patterns, block functions and feedback buffers. Called when the patch
+    /// is cleared, so that a patch loaded later does not inherit anything from the previous one.
+    pub(crate) fn reset(&mut self) {
+        self.feedback.clear();
+
+        for tracker in self.trackers.values() {
+            tracker.data().lock().unwrap().reset();
+        }
+
+        #[cfg(feature = "synfx-dsp-jit")]
+        for (generation, block_fun) in self.block_functions.values_mut() {
+            let mut block_fun = block_fun.lock().unwrap();
+            block_fun.reset();
+            *generation = block_fun.generation();
+        }
+    }
+
     pub fn get_scope_handle(&mut self, scope: usize) -> Arc<ScopeHandle> {
         if let Some(handle) = self.scopes.get(&scope) {
             return handle.clone();
@@ -164,6 +181,13 @@ impl NodeGlobalData {
     /// to the previously returned [CodeEngineBackend].
     #[cfg(feature = "synfx-dsp-jit")]
     pub fn get_code_engine_backend(&mut self, index: usize) -> CodeEngineBackend {
+        if let Some((generation, block_fun)) = self.block_functions.get_mut(&index) {
+            if let Ok(block_fun) = block_fun.lock() {
+                // The new backend needs the block function, even if it was not changed:
+                *generation = if block_fun.is_unset() { block_fun.generation() } else { 0 };
+            }
+        }
+
         self.get_code_engine(index).get_backend()
     }
 
diff --git a/src/matrix.rs b/src/matrix.rs
index 972dabf..99a4380 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -809,6 +809,7 @@ impl Matrix {
         self.properties.clear();
 
         self.config.delete_nodes();
+        self.config.get_node_global().lock().unwrap().reset();
         self.monitor_cell(Cell::empty(NodeId::Nop));
         let _ = self.sync();
 
diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index 2efe7fe..8713a34 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -1160,6 +1160,8 @@ pub struct BlockFun {
     area_work_dq: VecDeque<usize>,
     id_gen: BlockIDGenerator,
     generation: u64,
+    /// The [BlockFun::generation] at which this function was in it's initial state.
+    unset_generation: u64,
 }
 
 #[derive(Debug)]
@@ -1179,11 +1181,21 @@ impl BlockFun {
             area_work_dq: VecDeque::new(),
             id_gen: BlockIDGenerator::new(),
             generation: 0,
+            unset_generation: 0,
         }
     }
 
     pub fn is_unset(&self) -> bool {
-        self.generation == 0
+        self.generation == self.unset_generation
+    }
+
+    /// Resets the block function to the initial state.
+    #[cfg(feature = "synfx-dsp-jit")]
+    pub(crate) fn reset(&mut self) {
+        let generation = self.generation + 1;
+        *self = Self::new(self.language.clone());
+        self.generation = generation;
+        self.unset_generation = generation;
     }
 
     pub fn block_language(&self) -> Rc<RefCell<BlockLanguage>> {
-- 
2.43.0


From 23b07935f027c5e55fc07de937a63d82079efc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:24 +0000
Subject: [PATCH 28/54] fix: graph updates are not lost if the audio thread
 does not take them in time

---
 src/nodes/node_conf.rs | 49 +++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index 0c4facb..f1e121c 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -13,7 +13,7 @@ use crate::SampleLibrary;
 use crate::{NodeGlobalData, NodeGlobalRef};
 
 use ringbuf::{Consumer, Producer, RingBuffer};
-use std::collections::HashMap;
+use std::collections::{HashMap, VecDeque};
 use std::sync::Arc;
 
 use synfx_dsp::AtomicFloat;
@@ -255,6 +255,8 @@ pub(crate) struct SharedNodeConf {
     pub(crate) node_ctx_values: Vec<Arc<AtomicFloat>>,
     /// For updating the NodeExecutor with graph updates.
     pub(crate) graph_update_prod: Producer<GraphMessage>,
+    /// Graph updates that are waiting for free space in `graph_update_prod`.
+    pub(crate) pending_graph_updates: VecDeque<GraphMessage>,
     /// For receiving events from the DSP graph.
     pub(crate) graph_event_cons: Consumer<GraphEvent>,
     /// For receiving monitor data from the backend thread.
@@ -292,6 +294,7 @@ impl SharedNodeConf {
             Self {
                 node_ctx_values,
                 graph_update_prod: rb_graph_prod,
+                pending_graph_updates: VecDeque::new(),
                 graph_event_cons: rb_ev_con,
                 monitor,
                 drop_thread,
@@ -306,6 +309,23 @@ impl SharedNodeConf {
             },
         )
     }
+
+    /// Sends the [GraphMessage] to the [crate::nodes::NodeExecutor]. If there is no space left, because
+    /// the audio thread is not running (yet), it is sent later.
+    pub(crate) fn send(&mut self, msg: GraphMessage) {
+        self.pending_graph_updates.push_back(msg);
+        self.flush();
+    }
+
+    /// Sends the graph updates for which there was no space left before.
+    pub(crate) fn flush(&mut self) {
+        while let Some(msg) = self.pending_graph_updates.pop_front() {
+            if let Err(msg) = self.graph_update_prod.push(msg) {
+                self.pending_graph_updates.push_front(msg);
+                break;
+            }
+        }
+    }
 }
 
 impl NodeConfigurator {
@@ -430,10 +450,7 @@ impl NodeConfigurator {
                 self.param_modamt.insert(param, v);
 
                 if let Some(mod_idx) = mod_idx {
-                    let _ = self
-                        .shared
-                        .graph_update_prod
-                        .push(GraphMessage::ModamtUpdate { mod_idx, modamt });
+                    self.shared.send(GraphMessage::ModamtUpdate { mod_idx, modamt });
                 }
 
                 false
@@ -486,10 +503,7 @@ impl NodeConfigurator {
                 nparam.value = at.clone();
 
                 let at_idx = nparam.at_idx;
-                let _ = self
-                    .shared
-                    .graph_update_prod
-                    .push(GraphMessage::AtomUpdate { at_idx, value: at });
+                self.shared.send(GraphMessage::AtomUpdate { at_idx, value: at });
             }
         } else {
             self.param_values.insert(param, at.f());
@@ -499,10 +513,7 @@ impl NodeConfigurator {
                 nparam.value = value;
 
                 let input_idx = nparam.input_idx;
-                let _ = self
-                    .shared
-                    .graph_update_prod
-                    .push(GraphMessage::ParamUpdate { input_idx, value });
+                self.shared.send(GraphMessage::ParamUpdate { input_idx, value });
             }
         }
     }
@@ -700,7 +711,7 @@ impl NodeConfigurator {
                 i += 1;
             }
 
-            let _ = self.shared.graph_update_prod.push(GraphMessage::SetMonitor { bufs });
+            self.shared.send(GraphMessage::SetMonitor { bufs });
         }
     }
 
@@ -724,7 +735,7 @@ impl NodeConfigurator {
         self.output_fb_values.clear();
         self.output_fb_cons = None;
 
-        let _ = self.shared.graph_update_prod.push(GraphMessage::Clear { prog: NodeProg::empty() });
+        self.shared.send(GraphMessage::Clear { prog: NodeProg::empty() });
     }
 
     pub fn create_node(&mut self, ni: NodeId) -> Option<(&NodeInfo, u8)> {
@@ -983,7 +994,7 @@ impl NodeConfigurator {
         self.output_fb_cons = prog.take_feedback_consumer();
         prog.ctx_values = self.shared.node_ctx_values.clone();
 
-        let _ = self.shared.graph_update_prod.push(GraphMessage::NewProg { prog, copy_old_out });
+        self.shared.send(GraphMessage::NewProg { prog, copy_old_out });
     }
 
     /// Retrieves the feedback value for a specific output port of the
@@ -1007,6 +1018,8 @@ impl NodeConfigurator {
     ///
     /// Retrieve the output value by calling [NodeConfigurator::out_fb_for].
     pub fn update_output_feedback(&mut self) {
+        self.shared.flush();
+
         if let Some(out_fb_output) = &mut self.output_fb_cons {
             out_fb_output.update();
             let out_vec = out_fb_output.output_buffer();
@@ -1018,6 +1031,7 @@ impl NodeConfigurator {
     }
 
     pub fn get_minmax_monitor_samples(&mut self, idx: usize) -> &MinMaxMonitorSamples {
+        self.shared.flush();
         self.shared.monitor.get_minmax_monitor_samples(idx)
     }
 
@@ -1025,11 +1039,12 @@ impl NodeConfigurator {
     /// back to the GUI thread the standard way. This is mostly used for automated testing.
     /// And maybe some day for some kind of remote control script from WLambda?
     pub fn inject_midi_event(&mut self, midi_ev: HxMidiEvent) {
-        let _ = self.shared.graph_update_prod.push(GraphMessage::InjectMidi { midi_ev });
+        self.shared.send(GraphMessage::InjectMidi { midi_ev });
     }
 
     /// Returns the next [GraphEvent] from the DSP/audio/backend thread.
     pub fn next_event(&mut self) -> Option<GraphEvent> {
+        self.shared.flush();
         self.shared.graph_event_cons.pop()
     }
 }
-- 
2.43.0


From 905582ad374776dfb2ffa7ee28c9ba2dbe17e903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:40 +0000
Subject: [PATCH 29/54] fix: samples of 8 bit WAV files are not loaded much too
 quiet

---
 src/sample_lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sample_lib.rs b/src/sample_lib.rs
index 92c10e1..b734f6e 100644
--- a/src/sample_lib.rs
+++ b/src/sample_lib.rs
@@ -62,9 +62,11 @@ impl SampleLibrary {
             }
             // http://blog.bjornroche.com/2009/12/int-float-int-its-jungle-out-there.html
             hound::SampleFormat::Int => {
+                let max_value = (1_u32 << (rd.spec().bits_per_sample - 1).min(15)) as f32;
+
                 for s in rd.samples::<i16>().step_by(channels).take(max_sample_count) {
                     let s = s?;
-                    let s = s as f32 / (0x8000 as f32);
+                    let s = s as f32 / max_value;
                     v.push(s);
                 }
             }
-- 
2.43.0


From 1160dbedd188a2e0266928f7d89a157fdcc66de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:40 +0000
Subject: [PATCH 30/54] fix: no integer underflow at the end of a sample with
 declick enabled

---
 src/dsp/node_sampl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/node_sampl.rs b/src/dsp/node_sampl.rs
index 0293add..380e17a 100644
--- a/src/dsp/node_sampl.rs
+++ b/src/dsp/node_sampl.rs
@@ -247,7 +247,7 @@ impl Sampl {
                     self.next_sample(sr_factor, playback_speed as f64, sample_slice, reverse);
 
                 if declick {
-                    let samples_to_end = sample_slice.len() - sample_idx;
+                    let samples_to_end = sample_slice.len().saturating_sub(sample_idx);
 
                     let ramp_atten_factor = if sample_idx < ramp_sample_count {
                         sample_idx as f64 * ramp_inc
-- 
2.43.0


From 05756a2ba090cb2ae660592240fa20743e916894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:30 +0000
Subject: [PATCH 31/54] fix: restoring the matrix restores which inputs are
 used too

---
 src/matrix.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matrix.rs b/src/matrix.rs
index 99a4380..b55784d 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -671,6 +671,8 @@ impl Matrix {
     pub fn restore_matrix(&mut self) {
         if let Some(matrix) = self.saved_matrix.take() {
             self.matrix = matrix;
+            // The edges might be those of the tossed layout:
+            self.update_graph_ordering_and_edges();
         }
     }
 
-- 
2.43.0


From 29cb11cc070eb3ec2ba250e1065eb87a83f08e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:30 +0000
Subject: [PATCH 32/54] fix: the matrix observer is told about changed
 modulation amounts

---
 src/matrix.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matrix.rs b/src/matrix.rs
index b55784d..cb95f81 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -1075,6 +1075,9 @@ impl Matrix {
             ret
         } else {
             self.gen_counter += 1;
+            if let Some(obs) = &self.observer {
+                obs.update_param(&param);
+            }
             Ok(())
         }
     }
-- 
2.43.0


From 4a7bb80884f900df5a7943a512835963c1754d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:12 +0000
Subject: [PATCH 33/54] fix: loading damaged block functions does not panic,
 hang or exhaust the memory

---
 src/wblockdsp/language.rs | 62 +++++++++++++++++++++++++++++++++++----
 1 file changed, 56 insertions(+), 6 deletions(-)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index 8713a34..239bdda 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -56,6 +56,11 @@ impl BlockIDGenerator {
     }
 }
 
+/// The maximum number of rows of a deserialized [Block].
+const MAX_DESER_ROWS: i64 = 256;
+/// The maximum distance of a deserialized [Block] from the origin of it's [BlockArea].
+const MAX_DESER_POS: i64 = 1_000_000;
+
 /// This structure represents a block inside the [BlockArea] of a [BlockFun].
 /// It stores everything required for calculating a node of the AST.
 ///
@@ -240,7 +245,7 @@ impl Block {
 
         Ok(Box::new(Block {
             id: v["id"].as_i64().unwrap_or(0) as usize,
-            rows: v["rows"].as_i64().unwrap_or(0) as usize,
+            rows: v["rows"].as_i64().unwrap_or(0).clamp(0, MAX_DESER_ROWS) as usize,
             contains: (
                 if v["contains"][0].is_i64() {
                     Some(v["contains"][0].as_i64().unwrap_or(0) as usize)
@@ -926,15 +931,15 @@ impl BlockArea {
         let blks = &v["blocks"];
         if let Value::Array(blks) = blks {
             for b in blks.iter() {
-                let x = b["x"].as_i64().unwrap_or(0);
-                let y = b["y"].as_i64().unwrap_or(0);
+                let x = b["x"].as_i64().unwrap_or(0).clamp(-MAX_DESER_POS, MAX_DESER_POS);
+                let y = b["y"].as_i64().unwrap_or(0).clamp(-MAX_DESER_POS, MAX_DESER_POS);
                 blocks.insert((x, y), Block::deserialize(&b["block"])?);
             }
         }
 
         let size = (
-            v["size"][0].as_i64().unwrap_or(0) as usize,
-            v["size"][1].as_i64().unwrap_or(0) as usize,
+            v["size"][0].as_i64().unwrap_or(0).clamp(0, MAX_DESER_POS) as usize,
+            v["size"][1].as_i64().unwrap_or(0).clamp(0, MAX_DESER_POS) as usize,
         );
         let auto_shrink = v["auto_shrink"].as_bool().unwrap_or(true);
         let header = v["header"].as_str().unwrap_or("").to_string();
@@ -1145,11 +1150,56 @@ impl BlockFunSnapshot {
             }
         }
 
+        if a.is_empty() {
+            a.push(Box::new(BlockArea::new(16, 16)));
+        }
+
+        Self::drop_invalid_sub_areas(&mut a);
+
         Ok(BlockFunSnapshot {
             areas: a,
-            cur_id: v["current_block_id_counter"].as_i64().unwrap_or(0) as usize,
+            cur_id: v["current_block_id_counter"].as_i64().unwrap_or(0).clamp(0, i64::MAX / 2)
+                as usize,
         })
     }
+
+    /// Every area is contained in at most one block and never (indirectly) in itself. This
+    /// removes all the references to sub areas that violate that or don't refer to any area.
+    fn drop_invalid_sub_areas(areas: &mut [Box<BlockArea>]) {
+        let mut sub_areas = vec![];
+        for area in areas.iter() {
+            area.get_direct_sub_areas(&mut sub_areas);
+        }
+
+        // Start with the areas that are not contained in any block, then
+        // the others, in case they form a cycle:
+        let mut roots: Vec<usize> = (0..areas.len()).collect();
+        roots.sort_by_key(|id| *id > 0 && sub_areas.contains(id));
+
+        let mut visited = vec![false; areas.len()];
+        for root in roots {
+            if visited[root] {
+                continue;
+            }
+
+            visited[root] = true;
+            let mut work = vec![root];
+
+            while let Some(id) = work.pop() {
+                for block in areas[id].blocks.values_mut() {
+                    for sub in [&mut block.contains.0, &mut block.contains.1] {
+                        match *sub {
+                            Some(sub_id) if visited.get(sub_id) == Some(&false) => {
+                                visited[sub_id] = true;
+                                work.push(sub_id);
+                            }
+                            _ => *sub = None,
+                        }
+                    }
+                }
+            }
+        }
+    }
 }
 
 #[derive(Debug, Clone)]
-- 
2.43.0


From fee297935ff4dca039fb7c02f76a47849013ee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:12 +0000
Subject: [PATCH 34/54] fix: Sin does not hang for large negative phase
 modulation

---
 src/dsp/node_sin.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dsp/node_sin.rs b/src/dsp/node_sin.rs
index 7290892..ee721f2 100644
--- a/src/dsp/node_sin.rs
+++ b/src/dsp/node_sin.rs
@@ -99,8 +99,8 @@ impl DspNode for Sin {
             let freq = denorm_offs::Sin::freq(freq, det.read(frame), frame);
 
             let mut phase = self.phase + denorm::Sin::pm(pm, frame);
-            while phase < 0.0 {
-                phase += 1.0
+            if phase < 0.0 {
+                phase = phase.fract() + 1.0;
             }
             last_val = fast_sin(phase.fract() * TWOPI);
             o.write(frame, last_val);
-- 
2.43.0


From 9a0d7c43e67091ecd906985b5d8d01f9e7cbb677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:13 +0000
Subject: [PATCH 35/54] fix: a gate probability is drawn anew for each pass of
 its row

---
 src/dsp/tracker/sequencer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dsp/tracker/sequencer.rs b/src/dsp/tracker/sequencer.rs
index 6ea6a7e..626361d 100644
--- a/src/dsp/tracker/sequencer.rs
+++ b/src/dsp/tracker/sequencer.rs
@@ -182,6 +182,10 @@ impl PatternSequencer {
                     }
                     continue;
                 }
+            } else {
+                // Remember the row, so that the random value is drawn anew
+                // when a row with a probability is entered the next time.
+                self.rand_vals[col_idx].0 = line;
             }
 
             if (gate & 0xF000) > 0 {
-- 
2.43.0


From 3f207ede6b252b0d7acb80164b5bff90c2942816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:40 +0000
Subject: [PATCH 36/54] fix: MidiCC outputs the controller on every output that
 selects it

---
 src/dsp/node_midicc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dsp/node_midicc.rs b/src/dsp/node_midicc.rs
index ec8e1ed..24fbbf8 100644
--- a/src/dsp/node_midicc.rs
+++ b/src/dsp/node_midicc.rs
@@ -124,10 +124,12 @@ impl DspNode for MidiCC {
                     if cc == midicc_cc1 {
                         self.cur_cc1 = value;
                         change = true;
-                    } else if cc == midicc_cc2 {
+                    }
+                    if cc == midicc_cc2 {
                         self.cur_cc2 = value;
                         change = true;
-                    } else if cc == midicc_cc3 {
+                    }
+                    if cc == midicc_cc3 {
                         self.cur_cc3 = value;
                         change = true;
                     }
-- 
2.43.0


From bf645bef35726f52c56967e9a197ecac75685913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:06 +0000
Subject: [PATCH 37/54] fix: the feedback delay does not depend on when the
 reader and writer were added

---
 src/dsp/node_fbwr_fbrd.rs |  8 ++++++--
 src/nodes/node_exec.rs    |  6 +++++-
 src/shared_feedback.rs    | 21 ++++++++++++++++++++-
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/dsp/node_fbwr_fbrd.rs b/src/dsp/node_fbwr_fbrd.rs
index 00733b7..4e9749b 100644
--- a/src/dsp/node_fbwr_fbrd.rs
+++ b/src/dsp/node_fbwr_fbrd.rs
@@ -62,7 +62,7 @@ impl DspNode for FbWr {
     fn process(
         &mut self,
         ctx: &mut dyn NodeAudioContext,
-        _ectx: &mut NodeExecContext,
+        ectx: &mut NodeExecContext,
         _nctx: &NodeContext,
         _atoms: &[SAtom],
         inputs: &[ProcBuf],
@@ -73,6 +73,8 @@ impl DspNode for FbWr {
 
         let inp = inp::FbWr::inp(inputs);
 
+        self.fb_wr.seek(ectx.frame);
+
         for frame in 0..ctx.nframes() {
             self.fb_wr.write(inp.read(frame));
         }
@@ -140,7 +142,7 @@ impl DspNode for FbRd {
     fn process(
         &mut self,
         ctx: &mut dyn NodeAudioContext,
-        _ectx: &mut NodeExecContext,
+        ectx: &mut NodeExecContext,
         _nctx: &NodeContext,
         _atoms: &[SAtom],
         inputs: &[ProcBuf],
@@ -152,6 +154,8 @@ impl DspNode for FbRd {
         let vol = inp::FbRd::vol(inputs);
         let sig = out::FbRd::sig(outputs);
 
+        self.fb_rd.seek(ectx.frame);
+
         let mut last_val = 0.0;
         for frame in 0..ctx.nframes() {
             last_val = self.fb_rd.read();
diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 147c519..3cbccf7 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -155,13 +155,15 @@ pub struct NodeExecContext {
     /// Handle to the external parameters, external meaning parameters that come in via eg. the
     /// plugin API or are provided elsewhere on the audio thread.
     pub ext_param: Option<Arc<dyn ExternalParams>>,
+    /// The number of frames that have been processed before the current buffer period.
+    pub frame: usize,
 }
 
 impl NodeExecContext {
     fn new() -> Self {
         let midi_notes = Vec::with_capacity(MAX_MIDI_NOTES_PER_BLOCK);
         let midi_ccs = Vec::with_capacity(MAX_MIDI_CC_PER_BLOCK);
-        Self { midi_notes, midi_ccs, ext_param: None }
+        Self { midi_notes, midi_ccs, ext_param: None, frame: 0 }
     }
 
     fn set_sample_rate(&mut self, _srate: f32) {}
@@ -505,6 +507,8 @@ impl NodeExecutor {
             }
         }
 
+        exec_ctx.frame = exec_ctx.frame.wrapping_add(nframes);
+
         prog.out_feedback.publish();
 
         self.shared.monitor_backend.check_recycle();
diff --git a/src/shared_feedback.rs b/src/shared_feedback.rs
index bdab1df..a0980ae 100644
--- a/src/shared_feedback.rs
+++ b/src/shared_feedback.rs
@@ -52,12 +52,25 @@ impl SharedFeedback {
 pub struct SharedFeedbackWriter {
     buffer: Arc<Vec<AtomicFloat>>,
     write_ptr: usize,
+    delay_sample_count: usize,
 }
 
 impl SharedFeedbackWriter {
     pub fn new(sfb: &SharedFeedback) -> Self {
         let buffer = sfb.buffer.clone();
-        Self { buffer, write_ptr: sfb.delay_sample_count }
+        Self {
+            buffer,
+            write_ptr: sfb.delay_sample_count,
+            delay_sample_count: sfb.delay_sample_count,
+        }
+    }
+
+    /// Continue writing at the absolute frame number `frame`. Every reader and writer should
+    /// do this for each buffer period, to keep the delay the same even if they
+    /// were not started at the same time.
+    pub fn seek(&mut self, frame: usize) {
+        let len = self.buffer.len();
+        self.write_ptr = (frame % len + self.delay_sample_count) % len;
     }
 
     /// Write the next sample in to the feedback buffer.
@@ -90,6 +103,12 @@ impl SharedFeedbackReader {
         Self { buffer: sfb.buffer.clone(), read_ptr: 0 }
     }
 
+    /// Continue reading at the absolute frame number `frame`.
+    /// See also [SharedFeedbackWriter::seek].
+    pub fn seek(&mut self, frame: usize) {
+        self.read_ptr = frame % self.buffer.len();
+    }
+
     /// Read the next sample from the buffer. Wraps around after some internal buffer
     /// size (that is consistent with the [SharedFeedback] buffer size). Used by `FbRd` DSP node
     /// to do it's functionality.
-- 
2.43.0


From 032a2858c51bebfc7c4cc618a6578c36631f034a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:58 +0000
Subject: [PATCH 38/54] fix: monitor minima and maxima of signals beyond +-100

---
 src/monitor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/monitor.rs b/src/monitor.rs
index 52e7f06..471523d 100644
--- a/src/monitor.rs
+++ b/src/monitor.rs
@@ -113,7 +113,7 @@ impl MonitorMinMax {
             sig_idx,
             buf: [(0.0, 0.0); MONITOR_MINMAX_SAMPLES],
             buf_write_ptr: 0,
-            cur_min_max: (100.0, -100.0, 0),
+            cur_min_max: (f32::MAX, f32::MIN, 0),
         }
     }
 
@@ -133,8 +133,8 @@ impl MonitorMinMax {
 
                 self.buf_write_ptr = (self.buf_write_ptr + 1) % self.buf.len();
 
-                self.cur_min_max.0 = 100.0;
-                self.cur_min_max.1 = -100.0;
+                self.cur_min_max.0 = f32::MAX;
+                self.cur_min_max.1 = f32::MIN;
                 self.cur_min_max.2 = 0;
             }
         }
-- 
2.43.0


From cb390a30b51c40bb085f18e0f018a38ce5a39274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:58 +0000
Subject: [PATCH 39/54] fix: monitoring an empty cell stops showing the signals
 of the previous one

---
 src/nodes/node_conf.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index f1e121c..ccd9c41 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -710,9 +710,11 @@ impl NodeConfigurator {
 
                 i += 1;
             }
-
-            self.shared.send(GraphMessage::SetMonitor { bufs });
         }
+
+        // Sent also if there is no such node, so that the previous node
+        // is not monitored any longer:
+        self.shared.send(GraphMessage::SetMonitor { bufs });
     }
 
     pub fn get_node_global(&self) -> NodeGlobalRef {
-- 
2.43.0


From 5efec3478f2a052b77ae052e5d7f69c82cb4c8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:20 +0000
Subject: [PATCH 40/54] fix: moving a block to an unknown area does not lose
 the block

---
 src/wblockdsp/language.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index 239bdda..8c7ccea 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -1744,6 +1744,10 @@ impl BlockFun {
             return Err(BlockDSPError::CircularAction(id, id2));
         }
 
+        if self.areas.get(id2).is_none() {
+            return Err(BlockDSPError::UnknownArea(id2));
+        }
+
         let (block, xo, yo) = if let Some(area) = self.areas.get_mut(id) {
             area.remove_at(x, y).ok_or(BlockDSPError::NoBlockAt(id, x, y))?
         } else {
-- 
2.43.0


From 0cd2dabef8d580799f6505159a69f1d1ba35ec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:20 +0000
Subject: [PATCH 41/54] fix: taking a block chain out of a program counts as a
 change

---
 src/wblockdsp/language.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index 8c7ccea..83bb956 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -1573,6 +1573,7 @@ impl BlockFun {
 
         if remove_blocks {
             chain.remove_load(area);
+            self.generation += 1;
         } else {
             chain.clone_load(area, self.id_gen.clone());
         }
-- 
2.43.0


From 4052206e8185faefbb0046fdc22eb5d6930cb816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:28 +0000
Subject: [PATCH 42/54] fix: block programs evaluate named inputs in the order
 they are used

---
 src/wblockdsp/compiler.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/wblockdsp/compiler.rs b/src/wblockdsp/compiler.rs
index e431724..da9639f 100644
--- a/src/wblockdsp/compiler.rs
+++ b/src/wblockdsp/compiler.rs
@@ -313,8 +313,17 @@ impl Block2JITCompiler {
             optype => {
                 let mut childs = vec![];
 
-                let mut i = 0;
-                while let Some((inp, out, child)) = node.nth_child(i) {
+                let mut nodes = node.0.borrow().nodes.clone();
+
+                // The arguments are evaluated in the order of the inputs in the
+                // BlockLanguage. Temporary variables need to be assigned in that order.
+                if let Some(inputs) = self.lang.borrow().get_type_inputs(optype) {
+                    nodes.sort_by_key(|(inp, _, _)| {
+                        inputs.iter().position(|name| name.as_ref() == Some(inp))
+                    });
+                }
+
+                for (inp, out, child) in nodes.into_iter() {
                     let out = if out.len() > 0 { Some(out) } else { None };
 
                     let child = self.trans2bjit(&child, out)?;
@@ -323,12 +332,8 @@ impl Block2JITCompiler {
                     } else {
                         childs.push((None, child));
                     }
-                    i += 1;
                 }
 
-                // TODO: Reorder the childs/arguments according to the input
-                //       order in the BlockLanguage
-
                 let cnt = self.lang.borrow().type_output_count(optype);
                 if cnt > 1 {
                     let mut area = vec![];
-- 
2.43.0


From 37bfebc796d55cc4ebd3a42b220a42e97980073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:28 +0000
Subject: [PATCH 43/54] =?UTF-8?q?fix:=20the=20=CF=80=20and=202=CF=80=20blo?=
 =?UTF-8?q?cks=20compile?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/wblockdsp/compiler.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wblockdsp/compiler.rs b/src/wblockdsp/compiler.rs
index da9639f..d4dcf1c 100644
--- a/src/wblockdsp/compiler.rs
+++ b/src/wblockdsp/compiler.rs
@@ -419,6 +419,8 @@ impl Block2JITCompiler {
             BlkASTNode::Node { id, typ, childs, .. } => match &typ[..] {
                 "if" => Err(BlkJITCompileError::UnknownError),
                 "zero" => Ok(literal(0.0)),
+                "π" => Ok(literal(std::f64::consts::PI)),
+                "2π" => Ok(literal(std::f64::consts::TAU)),
                 _ => {
                     if *id == 0 {
                         return Err(BlkJITCompileError::NodeWithoutID(typ.to_string()));
-- 
2.43.0


From ed7ad6687bc65a72740d0899211aed0bb2dc4789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:29 +0000
Subject: [PATCH 44/54] fix: offer the sample rate variables under the names
 the compiler knows

---
 src/wblockdsp/definition.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wblockdsp/definition.rs b/src/wblockdsp/definition.rs
index c92cc36..6a05ac2 100644
--- a/src/wblockdsp/definition.rs
+++ b/src/wblockdsp/definition.rs
@@ -247,8 +247,8 @@ pub fn setup_hxdsp_block_language(
 
     lang.define_identifier("in1");
     lang.define_identifier("in2");
-    lang.define_identifier("israte");
-    lang.define_identifier("srate");
+    lang.define_identifier("$israte");
+    lang.define_identifier("$srate");
     lang.define_identifier("alpha");
     lang.define_identifier("beta");
     lang.define_identifier("delta");
-- 
2.43.0


From 47de5da8f28e8053a945ad84177a1a4cc74e7c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:29 +0000
Subject: [PATCH 45/54] fix: a one shot sample ends with its last sample

---
 src/dsp/node_sampl.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/dsp/node_sampl.rs b/src/dsp/node_sampl.rs
index 380e17a..b3b5aec 100644
--- a/src/dsp/node_sampl.rs
+++ b/src/dsp/node_sampl.rs
@@ -212,8 +212,6 @@ impl Sampl {
                 let freq = denorm_offs::Sampl::freq(freq, det.read(frame), frame);
                 let playback_speed = freq / 440.0;
 
-                let prev_phase = self.phase;
-
                 let sd_len = sample_data.len();
 
                 let cur_offs = denorm::Sampl::offs(offs, frame).abs().min(0.999999) as f64;
@@ -243,8 +241,13 @@ impl Sampl {
                 // that is used for looking up the sample from the audio data.
                 let sample_idx = self.phase.floor() as usize;
 
-                let mut s =
-                    self.next_sample(sr_factor, playback_speed as f64, sample_slice, reverse);
+                let mut s = if !do_loop && self.phase >= sample_slice.len() as f64 {
+                    // played past end => stop playing.
+                    is_playing = false;
+                    0.0
+                } else {
+                    self.next_sample(sr_factor, playback_speed as f64, sample_slice, reverse)
+                };
 
                 if declick {
                     let samples_to_end = sample_slice.len().saturating_sub(sample_idx);
@@ -263,11 +266,6 @@ impl Sampl {
                 self.last_sample = s;
                 out.write(frame, s);
 
-                if !do_loop && prev_phase > self.phase {
-                    // played past end => stop playing.
-                    is_playing = false;
-                }
-
                 s
             } else {
                 0.0
-- 
2.43.0


From 2994b8e5e41c0c0103d4014b4b3d1d9b697b9d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:23 +0000
Subject: [PATCH 46/54] fix: the chain builder must not reuse node instances
 that are in use

Further links of the same node type just got the next instance number,
even if that instance was part of the matrix already.
---
 src/chain_builder.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/chain_builder.rs b/src/chain_builder.rs
index cfe797d..6d8ee98 100644
--- a/src/chain_builder.rs
+++ b/src/chain_builder.rs
@@ -262,13 +262,11 @@ impl MatrixCellChain {
             let node_name = node_id.name();
 
             let node_id = if let Some(i) = last_unused.get(node_name).cloned() {
-                last_unused.insert(node_name.to_string(), i + 1);
-                node_id.to_instance(i + 1)
+                matrix.get_unused_instance_node_id(node_id.to_instance(i + 1))
             } else {
-                let node_id = matrix.get_unused_instance_node_id(node_id);
-                last_unused.insert(node_name.to_string(), node_id.instance());
-                node_id
+                matrix.get_unused_instance_node_id(node_id)
             };
+            last_unused.insert(node_name.to_string(), node_id.instance());
 
             cell.set_node_id_keep_ios(node_id);
 
-- 
2.43.0


From 39c662aeabe2777ef8be5ed2e7626fd368c3232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:23 +0000
Subject: [PATCH 47/54] fix: setting a parameter after an unknown node name
 must not panic in the chain builder

The error is supposed to be returned by MatrixCellChain::place().
---
 src/chain_builder.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/chain_builder.rs b/src/chain_builder.rs
index 6d8ee98..4db70da 100644
--- a/src/chain_builder.rs
+++ b/src/chain_builder.rs
@@ -109,6 +109,11 @@ impl MatrixCellChain {
     /// Alternatively you can use [MatrixCellChain::params_for_idx] to set the current
     /// parameter cell.
     pub fn set_denorm(&mut self, param: &str, denorm: f32) -> &mut Self {
+        if self.error.is_some() {
+            // The error is returned by place(), there might be no cell to set a parameter of.
+            return self;
+        }
+
         let link = self.chain.get_mut(self.param_idx).expect("Correct parameter idx");
 
         if let Some(pid) = link.cell.node_id().inp_param(param) {
@@ -126,6 +131,11 @@ impl MatrixCellChain {
     /// Alternatively you can use [MatrixCellChain::params_for_idx] to set the current
     /// parameter cell.
     pub fn set_norm(&mut self, param: &str, norm: f32) -> &mut Self {
+        if self.error.is_some() {
+            // The error is returned by place(), there might be no cell to set a parameter of.
+            return self;
+        }
+
         let link = self.chain.get_mut(self.param_idx).expect("Correct parameter idx");
 
         if let Some(pid) = link.cell.node_id().inp_param(param) {
@@ -143,6 +153,11 @@ impl MatrixCellChain {
     /// Alternatively you can use [MatrixCellChain::params_for_idx] to set the current
     /// parameter cell.
     pub fn set_atom(&mut self, param: &str, at: SAtom) -> &mut Self {
+        if self.error.is_some() {
+            // The error is returned by place(), there might be no cell to set a parameter of.
+            return self;
+        }
+
         let link = self.chain.get_mut(self.param_idx).expect("Correct parameter idx");
 
         if let Some(pid) = link.cell.node_id().inp_param(param) {
-- 
2.43.0


From 9e68c5ba8ea597dd9b50544450e42b04b57f57e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:23 +0000
Subject: [PATCH 48/54] fix: sync() switches the monitored cell to the first
 cell if an empty cell is monitored

Empty cells don't know their position, so the next sync() monitored the cell at 0/0.
---
 src/matrix.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index cb95f81..6c7dd11 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -1027,7 +1027,8 @@ impl Matrix {
     /// monitor the newly moved cell anyways.
     fn remonitor_cell(&mut self) {
         let m = self.monitored_cell();
-        if let Some(cell) = self.get(m.x as usize, m.y as usize).copied() {
+        // XXX: get_copy() also sets the position of the empty cells.
+        if let Some(cell) = self.get_copy(m.x as usize, m.y as usize) {
             self.monitor_cell(cell);
         }
     }
-- 
2.43.0


From ff4fa170282e9ede8a712e3c10a56dde43442940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:57 +0000
Subject: [PATCH 49/54] fix: filtered feedback values were not updated when
 queried in every second round only

Only a single bit told whether a value was from the current round, so after two calls
to update_filters(), or on the first query after one call, an outdated value was returned.
---
 src/nodes/feedback_filter.rs | 48 ++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/nodes/feedback_filter.rs b/src/nodes/feedback_filter.rs
index c97ff45..ba81b27 100644
--- a/src/nodes/feedback_filter.rs
+++ b/src/nodes/feedback_filter.rs
@@ -7,38 +7,60 @@ use crate::dsp::NodeId;
 
 use std::collections::HashMap;
 
-pub struct FeedbackFilter {
-    led_filters: HashMap<NodeId, VisualSamplingFilter>,
-    out_filters: HashMap<(NodeId, u8), VisualSamplingFilter>,
+/// A filter together with the recalculation round it has been updated in most recently.
+struct RoundFilter {
+    round: Option<usize>,
     recalc_state: bool,
+    filter: VisualSamplingFilter,
+}
+
+impl RoundFilter {
+    fn new() -> Self {
+        Self { round: None, recalc_state: false, filter: VisualSamplingFilter::new() }
+    }
+
+    fn get(&mut self, round: usize, sample: f32) -> (f32, f32) {
+        if self.round != Some(round) {
+            self.round = Some(round);
+            self.recalc_state = !self.recalc_state;
+        }
+
+        self.filter.get(self.recalc_state, sample)
+    }
+}
+
+pub struct FeedbackFilter {
+    led_filters: HashMap<NodeId, RoundFilter>,
+    out_filters: HashMap<(NodeId, u8), RoundFilter>,
+    round: usize,
 }
 
 impl FeedbackFilter {
     pub fn new() -> Self {
-        Self { led_filters: HashMap::new(), out_filters: HashMap::new(), recalc_state: true }
+        Self { led_filters: HashMap::new(), out_filters: HashMap::new(), round: 0 }
     }
 
-    fn get_out_filter_for_node(&mut self, node_id: &NodeId, out: u8) -> &mut VisualSamplingFilter {
-        self.out_filters.entry((*node_id, out)).or_insert_with(|| VisualSamplingFilter::new())
+    fn get_out_filter_for_node(&mut self, node_id: &NodeId, out: u8) -> &mut RoundFilter {
+        self.out_filters.entry((*node_id, out)).or_insert_with(|| RoundFilter::new())
     }
 
-    fn get_led_filter_for_node(&mut self, node_id: &NodeId) -> &mut VisualSamplingFilter {
-        self.led_filters.entry(*node_id).or_insert_with(|| VisualSamplingFilter::new())
+    fn get_led_filter_for_node(&mut self, node_id: &NodeId) -> &mut RoundFilter {
+        self.led_filters.entry(*node_id).or_insert_with(|| RoundFilter::new())
     }
 
     pub fn trigger_recalc(&mut self) {
-        self.recalc_state = !self.recalc_state;
+        self.round = self.round.wrapping_add(1);
     }
 
     pub fn get_led(&mut self, node_id: &NodeId, sample: f32) -> (f32, f32) {
-        let recalc_state = self.recalc_state;
+        let round = self.round;
         let filter = self.get_led_filter_for_node(node_id);
-        filter.get(recalc_state, sample)
+        filter.get(round, sample)
     }
 
     pub fn get_out(&mut self, node_id: &NodeId, out: u8, sample: f32) -> (f32, f32) {
-        let recalc_state = self.recalc_state;
+        let round = self.round;
         let filter = self.get_out_filter_for_node(node_id, out);
-        filter.get(recalc_state, sample)
+        filter.get(round, sample)
     }
 }
-- 
2.43.0


From c9b2506ad13a248cb7290d0e28d4f7d5442ed1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:07 +0000
Subject: [PATCH 50/54] fix: Scope: the first shown stretch does not include a
 zero that was never in the signal

---
 src/dsp/node_scope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/node_scope.rs b/src/dsp/node_scope.rs
index ef4b738..a4bfc38 100644
--- a/src/dsp/node_scope.rs
+++ b/src/dsp/node_scope.rs
@@ -54,7 +54,7 @@ impl Scope {
             idx: 0,
             srate_ms: 44.1,
             frame_time: 0.0,
-            cur_mm: Box::new([(0.0, 0.0); 3]),
+            cur_mm: Box::new([(-99999.0, 99999.0); 3]),
             trig: CustomTrigger::new(0.0, 0.0001),
         }
     }
-- 
2.43.0


From 5bf50fd6cc4191dd8685c66558263726dda83ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:07 +0000
Subject: [PATCH 51/54] fix: Map: map inputs below imin linearly instead of
 mirroring them into the range

---
 src/dsp/node_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dsp/node_map.rs b/src/dsp/node_map.rs
index 55db70a..658a583 100644
--- a/src/dsp/node_map.rs
+++ b/src/dsp/node_map.rs
@@ -120,7 +120,7 @@ impl DspNode for Map {
                 let x = if (imax - imin).abs() < std::f32::EPSILON {
                     1.0
                 } else {
-                    ((s - imin) / (imax - imin)).abs()
+                    (s - imin) / (imax - imin)
                 };
                 last_val = x;
                 let s = min + (max - min) * x;
@@ -139,7 +139,7 @@ impl DspNode for Map {
                 let x = if (imax - imin).abs() < std::f32::EPSILON {
                     1.0
                 } else {
-                    ((s - imin) / (imax - imin)).abs()
+                    (s - imin) / (imax - imin)
                 };
                 last_val = x;
                 let s = min + (max - min) * x;
-- 
2.43.0


From 270f97134d4f32d8d7386f5ce8ac9a5338797dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:24 +0000
Subject: [PATCH 52/54] fix: FVaFilt SVF and Sallen-Key filters did not follow
 a change of the sample rate until a parameter changed

---
 src/dsp/node_fvafilt.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dsp/node_fvafilt.rs b/src/dsp/node_fvafilt.rs
index 56d355f..7a6003b 100644
--- a/src/dsp/node_fvafilt.rs
+++ b/src/dsp/node_fvafilt.rs
@@ -224,6 +224,8 @@ impl DspNode for FVaFilt {
             // TODO: Set oversampling dependent on the sample rate, and not pass 2.0*sr here!
             params.set_sample_rate(srate * 2.0);
         }
+        self.svf.update();
+        self.sallenkey.update();
     }
 
     fn reset(&mut self) {
-- 
2.43.0


From 39a1ad172073dac597ad48dfa1deb5983eb8e739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:04 +0000
Subject: [PATCH 53/54] fix: FVaFilt ladder filter kept its old mode when the
 mode was changed while another filter type was active

---
 src/dsp/node_fvafilt.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/dsp/node_fvafilt.rs b/src/dsp/node_fvafilt.rs
index 7a6003b..e78eb28 100644
--- a/src/dsp/node_fvafilt.rs
+++ b/src/dsp/node_fvafilt.rs
@@ -166,7 +166,6 @@ gets especially gnarly when resonance is high.
 
 macro_rules! on_param_change {
     ($self: ident, $freq: ident, $res: ident, $drive: ident, $ftype: ident, $smode: ident, $lmode: ident, $frame: ident,
-     $ladder_mode_changed: ident,
      $on_change: block) => {
         unsafe {
             let params = Arc::get_mut_unchecked(&mut $self.params);
@@ -180,11 +179,6 @@ macro_rules! on_param_change {
             );
 
             if new_params != *$self.old_params {
-                #[allow(unused_assignments)]
-                if new_params.4 != $self.old_params.4 {
-                    $ladder_mode_changed = true;
-                }
-
                 params.set_frequency(new_params.0);
                 params.set_resonance(new_params.1);
                 params.drive = new_params.2;
@@ -270,7 +264,6 @@ impl DspNode for FVaFilt {
 
         let oversample = &mut self.oversample;
         let mut _old_params = &mut self.old_params;
-        let mut ladder_mode_changed = false;
 
         match ftype {
             2 => {
@@ -286,7 +279,6 @@ impl DspNode for FVaFilt {
                         smode,
                         lmode,
                         frame,
-                        ladder_mode_changed,
                         {
                             sallenkey.update();
                         }
@@ -325,7 +317,6 @@ impl DspNode for FVaFilt {
                         smode,
                         lmode,
                         frame,
-                        ladder_mode_changed,
                         {
                             svf.update();
                         }
@@ -364,11 +355,10 @@ impl DspNode for FVaFilt {
                         smode,
                         lmode,
                         frame,
-                        ladder_mode_changed,
                         {
-                            if ladder_mode_changed {
-                                ladder.set_mix(self.params.ladder_mode);
-                            }
+                            // The mode might have been changed while
+                            // a different filter type was active.
+                            ladder.set_mix(self.params.ladder_mode);
                         }
                     );
 
-- 
2.43.0


From 663fdd79abf154f51fbc20625c9e8e73a59418b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:04 +0000
Subject: [PATCH 54/54] fix: log messages arrive whole: pushed in one go,
 dropped if there is no room, cut at a character

A message and its end were put into the queue in two steps, so that the messages of
a full queue were cut, merged with the following one or made the receiver panic when
a character was cut. Messages of more than 511 bytes lost their end mark, and bytes that are
not UTF-8 made the receiver panic.
---
 src/log.rs | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/log.rs b/src/log.rs
index 8f5bfd7..6310a3b 100644
--- a/src/log.rs
+++ b/src/log.rs
@@ -58,16 +58,14 @@ impl LogReceiver {
 
     pub fn retrieve_messages<F: FnMut(&str, &str)>(&mut self, mut f: F) {
         for (name, consumer) in self.consumers.iter_mut() {
-            let mut buf = [0; 1024];
-            let mut oi = 0;
+            let mut buf = vec![];
 
             while let Some(byte) = consumer.pop() {
-                if oi >= buf.len() || byte == 0xFF {
-                    f(name, std::str::from_utf8(&buf[0..oi]).unwrap());
-                    oi = 0;
+                if byte == 0xFF {
+                    f(name, &String::from_utf8_lossy(&buf));
+                    buf.clear();
                 } else {
-                    buf[oi] = byte;
-                    oi += 1;
+                    buf.push(byte);
                 }
             }
         }
@@ -97,25 +95,34 @@ pub struct Log {
 
 impl Log {
     pub fn log_buf(&mut self, data: &[u8]) {
-        self.producer.push_slice(data);
-        let _ = self.producer.push(0xFF);
+        push_message(&mut self.producer, data);
     }
 
     pub fn log<F: Fn(&mut std::io::BufWriter<&mut [u8]>)>(&mut self, f: F) {
         self.buf.fill(0xFF);
 
-        let len = {
+        {
             let mut bw = std::io::BufWriter::new(&mut self.buf[..]);
             f(&mut bw);
-            bw.buffer().len()
-        };
-
-        if len < (self.buf.len() - 1) {
-            // include one 0xFF!
-            self.producer.push_slice(&self.buf[0..len + 1]);
-        } else {
-            self.producer.push_slice(&self.buf[0..len]);
         }
+
+        // Text never contains 0xFF, a message that is too long is cut at a character:
+        let mut len = self.buf.iter().position(|b| *b == 0xFF).unwrap_or(self.buf.len());
+        if let Err(e) = std::str::from_utf8(&self.buf[0..len]) {
+            if e.error_len().is_none() {
+                len = e.valid_up_to();
+            }
+        }
+
+        push_message(&mut self.producer, &self.buf[0..len]);
+    }
+}
+
+/// Puts the message and the 0xFF that ends it into the ring buffer in one go, so that the
+/// receiver never gets to see a part of it. A message that does not fit is dropped.
+fn push_message(producer: &mut Producer<u8>, data: &[u8]) {
+    if producer.remaining() > data.len() {
+        producer.push_iter(&mut data.iter().copied().chain(std::iter::once(0xFF)));
     }
 }
 
-- 
2.43.0

