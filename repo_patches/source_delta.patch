From fa95b45020bc03ea428888f54211034bbfab9992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:23 +0000
Subject: [PATCH 01/38] fix: prune only the lifelines outside the co-region
 when computing affected lifelines

---
 src/core/execution/semantics/execute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/execution/semantics/execute.rs b/src/core/execution/semantics/execute.rs
index ef4547e..f87b703 100644
--- a/src/core/execution/semantics/execute.rs
+++ b/src/core/execution/semantics/execute.rs
@@ -337,7 +337,7 @@ fn execute_interaction_right(my_int : &Interaction,
                 let got_i1;
                 let mut aff1;
                 if lfs_to_prune.len() > 0 {
-                    let (Agot_i1,mut Aaff1) = i1.prune_with_affected(&tar_lf_ids);
+                    let (Agot_i1,mut Aaff1) = i1.prune_with_affected(&lfs_to_prune);
                     got_i1 = Agot_i1;
                     aff1 = Aaff1;
                 } else {
-- 
2.43.0


From 5003fdb4dcf2cfd2eb77f385bcef242b7c02a49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:13 +0000
Subject: [PATCH 02/38] fix: handle synchronised products in
 prune_with_affected instead of panicking

---
 src/core/language/prune/interaction.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/core/language/prune/interaction.rs b/src/core/language/prune/interaction.rs
index 2eb7e7d..b328785 100644
--- a/src/core/language/prune/interaction.rs
+++ b/src/core/language/prune/interaction.rs
@@ -201,6 +201,32 @@ impl LifelinePrunable for Interaction {
                     }
                 }
             },
+            Interaction::Sync(sync_acts, i1, i2) => {
+                let (pruned_i1,mut aff1) = i1.prune_with_affected(lf_ids);
+                let (pruned_i2,aff2) = i2.prune_with_affected(lf_ids);
+                aff1.extend(aff2);
+                // ***
+                let acts1 = pruned_i1.get_all_trace_actions();
+                let acts2 = pruned_i2.get_all_trace_actions();
+                // ***
+                let sync_acts_as_set : BTreeSet<TraceAction> = BTreeSet::from_iter(sync_acts.iter().cloned());
+                let intersetc1 = sync_acts_as_set.intersection(&acts1).count();
+                let intersetc2 = sync_acts_as_set.intersection(&acts2).count();
+                // ***
+                if intersetc1 == 0 && intersetc2 == 0 {
+                    if pruned_i1 == Interaction::Empty {
+                        return (pruned_i2,aff1);
+                    } else {
+                        if pruned_i2 == Interaction::Empty {
+                            return (pruned_i1,aff1);
+                        } else {
+                            return (Interaction::Par( Box::new(pruned_i1), Box::new(pruned_i2) ),aff1);
+                        }
+                    }
+                } else {
+                    return (Interaction::Sync(sync_acts.clone(), Box::new(pruned_i1), Box::new(pruned_i2)),aff1);
+                }
+            },
             Interaction::Strict(i1, i2) => {
                 let (pruned_i1,mut aff1) = i1.prune_with_affected(lf_ids);
                 let (pruned_i2,aff2) = i2.prune_with_affected(lf_ids);
-- 
2.43.0


From 6477ce58ce2f626987da73df222a71a9f67a61df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:20 +0000
Subject: [PATCH 03/38] fix: reverse asynchronous messages so that StrictToSeq
 sees their receptions as last actions

---
 src/core/language/syntax/interaction.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/core/language/syntax/interaction.rs b/src/core/language/syntax/interaction.rs
index d17ade9..4ef7a6a 100644
--- a/src/core/language/syntax/interaction.rs
+++ b/src/core/language/syntax/interaction.rs
@@ -18,7 +18,7 @@ limitations under the License.
 use std::collections::HashSet;
 use std::hash::Hash;
 use crate::core::execution::trace::trace::TraceAction;
-use crate::core::language::syntax::action::{EmissionAction, ReceptionAction};
+use crate::core::language::syntax::action::{CommunicationSynchronicity, EmissionAction, EmissionTargetRef, ReceptionAction};
 
 
 #[derive(Clone, PartialEq, Debug, Eq, PartialOrd, Ord, Hash)]
@@ -53,7 +53,24 @@ impl Interaction {
                 Interaction::Empty
             },
             Interaction::Emission(ref em_act) => {
-                Interaction::Emission(em_act.clone())
+                // in an asynchronous message passing, the receptions come last, hence they are first in the reverse
+                let mut recipients : Vec<usize> = Vec::new();
+                let mut others : Vec<EmissionTargetRef> = Vec::new();
+                if em_act.synchronicity == CommunicationSynchronicity::Asynchronous {
+                    for target in &em_act.targets {
+                        match target {
+                            EmissionTargetRef::Lifeline(lf_id) => {recipients.push(*lf_id);},
+                            EmissionTargetRef::Gate(_) => {others.push(target.clone());}
+                        }
+                    }
+                }
+                if recipients.is_empty() {
+                    Interaction::Emission(em_act.clone())
+                } else {
+                    let rc_act = ReceptionAction::new(None,em_act.ms_id,CommunicationSynchronicity::Asynchronous,recipients);
+                    let em_act = EmissionAction::new(em_act.origin_lf_id,em_act.ms_id,CommunicationSynchronicity::Asynchronous,others);
+                    Interaction::Strict(Box::new(Interaction::Reception(rc_act)),Box::new(Interaction::Emission(em_act)))
+                }
             },
             Interaction::Reception(ref rc_act) => {
                 Interaction::Reception(rc_act.clone())
-- 
2.43.0


From 19b9f51fa2297bf8d27f143325aefa676bcc8b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:19 +0000
Subject: [PATCH 04/38] fix: memoized analysis nodes only stand for nodes that
 have consumed as much of every trace

---
 src/process/ana/node/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process/ana/node/node.rs b/src/process/ana/node/node.rs
index f29a02e..7c6d9d5 100644
--- a/src/process/ana/node/node.rs
+++ b/src/process/ana/node/node.rs
@@ -49,7 +49,7 @@ impl AbstractNodeKind for AnalysisNodeKind {
             for idx in 0..self.flags.canals.len() {
                 let my_canal : &TraceAnalysisFlags  = self.flags.canals.get(idx).unwrap();
                 let other_canal : &TraceAnalysisFlags = memoized_node.flags.canals.get(idx).unwrap();
-                if my_canal.consumed > other_canal.consumed {
+                if my_canal.consumed != other_canal.consumed {
                     return false;
                 }
                 if my_canal.simulated_after < other_canal.simulated_after {
-- 
2.43.0


From 0e355a06cc89339d024dac30fb3f585a0bf5c456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:14 +0000
Subject: [PATCH 05/38] fix: partial-order reduction only reorders an action
 that leaves the other co-localizations unaffected

---
 src/process/ana/handling/matches.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/process/ana/handling/matches.rs b/src/process/ana/handling/matches.rs
index 3a6fb43..1c27298 100644
--- a/src/process/ana/handling/matches.rs
+++ b/src/process/ana/handling/matches.rs
@@ -282,10 +282,19 @@ impl AnalysisParameterization {
                                                         interaction,
                                                         *coloc_id,
                                                         head) {
-                    // a univocal dominant head action has been found
-                    let mut frt_elts = coloc_ids_to_frontier_elts.remove(coloc_id).unwrap();
+                    // executing it first must not take anything away from the lifelines of the other co-localizations
+                    // (e.g. a loop which it closes because of a strict sequencing)
+                    let frt_elts = coloc_ids_to_frontier_elts.get(coloc_id).unwrap();
                     assert_eq!(frt_elts.len(),1);
-                    let unique_frt_elt = frt_elts.pop().unwrap();
+                    let exe_result = execute_interaction(interaction,
+                                                         &frt_elts[0].position,
+                                                         &frt_elts[0].target_lf_ids,
+                                                         true);
+                    if !exe_result.affected_lifelines.is_subset(context.co_localizations.get_coloc_lfs_ids(*coloc_id)) {
+                        continue;
+                    }
+                    // a univocal dominant head action has been found
+                    let unique_frt_elt = coloc_ids_to_frontier_elts.remove(coloc_id).unwrap().pop().unwrap();
                     //
                     let canal_ids_of_targets = context.co_localizations.get_coloc_ids_from_lf_ids(
                         &unique_frt_elt.target_lf_ids
-- 
2.43.0


From 8fd721fcc4cb0a1b4eeb04bc2434eca20536855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:42 +0000
Subject: [PATCH 06/38] fix: simulation without a limit on loops or actions no
 longer underflows the counter it does not use

---
 src/process/ana/node/flags.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/process/ana/node/flags.rs b/src/process/ana/node/flags.rs
index fd0413b..f758377 100644
--- a/src/process/ana/node/flags.rs
+++ b/src/process/ana/node/flags.rs
@@ -240,14 +240,14 @@ impl MultiTraceAnalysisFlags {
         // ***
         let rem_loop_in_sim : u32;
         {
-            let removed = self.rem_loop_in_sim - loop_depth;
+            let removed = self.rem_loop_in_sim.saturating_sub(loop_depth);
             let reset = sim_config.get_reset_rem_loop(rem_multitrace_length,new_interaction);
             rem_loop_in_sim = reset.min(removed);
         }
         // ***
         let rem_act_in_sim : u32;
         {
-            let removed = self.rem_act_in_sim - 1;
+            let removed = self.rem_act_in_sim.saturating_sub(1);
             let reset = sim_config.get_reset_rem_act(rem_multitrace_length,new_interaction);
             rem_act_in_sim = reset.min(removed);
         }
-- 
2.43.0


From 720706c1c356a65096c9e15f8c80bf9b3a517d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:52 +0000
Subject: [PATCH 07/38] fix: simulation of a synchronous communication
 simulates or consumes every one of its actions

---
 src/process/ana/handling/matches.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/process/ana/handling/matches.rs b/src/process/ana/handling/matches.rs
index 1c27298..11a62e0 100644
--- a/src/process/ana/handling/matches.rs
+++ b/src/process/ana/handling/matches.rs
@@ -90,17 +90,13 @@ impl AnalysisParameterization {
                 match canal_trace.get(canal_flag.consumed) {
                     None => {},
                     Some( got_multiact ) => {
-                        let mut intersect_with_front_elt = false;
-                        let mut entirely_included_in_front_elt = true;
-                        for got_act in got_multiact {
-                            if act_left_to_match.contains(got_act) {
-                                intersect_with_front_elt = true;
-                            } else {
-                                entirely_included_in_front_elt = false;
-                            }
-                        }
+                        // the actions of the frontier element that are observed on that canal
+                        let front_acts_on_canal : BTreeSet<TraceAction> = frt_elt.target_actions.iter()
+                            .filter(|act| context.co_localizations.get_lf_coloc_id(act.lf_id) == Some(canal_id))
+                            .cloned()
+                            .collect();
                         // ***
-                        if intersect_with_front_elt && entirely_included_in_front_elt {
+                        if !front_acts_on_canal.is_empty() && front_acts_on_canal == *got_multiact {
                             match_on_canal.push(canal_id );
                             ok_canals.insert(canal_id);
                             for got_act in got_multiact {
@@ -132,12 +128,10 @@ impl AnalysisParameterization {
                     if canal_flag.consumed == canal_trace.len() {
                         to_simulate.insert( tract_coloc_id, SimulationStepKind::AfterEnd);
                         gotit = true;
-                        break;
                     } else {
                         if self.ana_kind.sim_before() && (canal_flag.consumed == 0) {
                             to_simulate.insert(tract_coloc_id,SimulationStepKind::BeforeStart);
                             gotit = true;
-                            break;
                         }
                     }
                     // *
-- 
2.43.0


From 7157856ad61256c07481461bf3b7ea6da1048bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:44 +0000
Subject: [PATCH 08/38] fix: the analysis matches synchronous communications
 that are observed on several co-localizations

---
 src/process/ana/handling/matches.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/process/ana/handling/matches.rs b/src/process/ana/handling/matches.rs
index 11a62e0..1b03eaf 100644
--- a/src/process/ana/handling/matches.rs
+++ b/src/process/ana/handling/matches.rs
@@ -223,13 +223,6 @@ impl AnalysisParameterization {
                                           context : &AnalysisContext,
                                           interaction : &Interaction,
                                           flags : &MultiTraceAnalysisFlags) -> Vec<AnalysisStepKind> {
-        /**
-         TODO: this new way of computing matches has allowed partial order readuction but it has broken
-         TODO: matching for synchronous communications (e.g., the <synch> keyword)
-         TODO: indeed, we match each individual head action to a frontier element
-         TODO: but with synchronous comm several distinct head actions can be matched together with a single frontier element
-         TODO: a quick fix is easy to do but still needs to be done
-         **/
         // ***
         let mut coloc_ids_to_frontier_elts : HashMap<usize,Vec<FrontierElement>> = hashmap!{};
         let matching_heads : Vec<(usize,&BTreeSet<TraceAction>)> = {
@@ -244,16 +237,22 @@ impl AnalysisParameterization {
                 }
             }
 
-            // iter head actions
+            // keeps track of the frontier elements that match the heads of all the components on which they occur
             for frt_elt in global_frontier(interaction,true) {
-                // iter head actions to look for a match
-                'iter_head : for (coloc_id,head) in head_actions.iter() {
-                    // if there is a match keeps track of frt_elt
-                    if frt_elt.target_actions == **head {
+                let canal_ids_of_targets = context.co_localizations
+                    .get_coloc_ids_from_lf_ids(&frt_elt.target_lf_ids);
+                let matches_heads = canal_ids_of_targets.iter().all(|canal_id| {
+                    // with synchronous communications, a frontier element may occur on several components
+                    let acts_on_canal : BTreeSet<&TraceAction> = frt_elt.target_actions.iter()
+                        .filter(|act| context.co_localizations.get_lf_coloc_id(act.lf_id) == Some(*canal_id))
+                        .collect();
+                    head_actions.iter().any(|(coloc_id,head)| coloc_id == canal_id && head.iter().eq(acts_on_canal.iter().cloned()))
+                });
+                if matches_heads {
+                    if let Some(coloc_id) = canal_ids_of_targets.iter().min() {
                         coloc_ids_to_frontier_elts.entry(*coloc_id)
                             .or_insert_with(Vec::new)
                             .push(frt_elt);
-                        break 'iter_head;
                     }
                 }
             }
-- 
2.43.0


From 300f25066b5fd362d6fd1ab2ea5035fa1683158f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:29 +0000
Subject: [PATCH 09/38] fix: read communication actions whose first name starts
 with the letter o

SD_EMPTY_INTERACTION was tried first, so the "o" of a lifeline, gate or message
name was taken for the empty interaction and the rest of the action rejected.
---
 src/io/input/hif/hif_syntax.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/input/hif/hif_syntax.pest b/src/io/input/hif/hif_syntax.pest
index 7050ae4..468cd76 100644
--- a/src/io/input/hif/hif_syntax.pest
+++ b/src/io/input/hif/hif_syntax.pest
@@ -83,8 +83,8 @@ SD_LOOP = {"loop" ~ (SD_LOOP_KIND_S | SD_LOOP_KIND_H | SD_LOOP_KIND_W | SD_LOOP_
 SD_LOOP_INT = { SD_LOOP ~ "(" ~ SD_INTERACTION ~ ")" }
 
 
-SD_INTERACTION = { SD_EMPTY_INTERACTION
-		| SD_COMMUNICATION_ACTION
+SD_INTERACTION = { SD_COMMUNICATION_ACTION
+		| SD_EMPTY_INTERACTION
         | SD_STRICT_INT
         | SD_SEQ_INT
         | SD_COREG_INT
-- 
2.43.0


From f390aab712befda802a9434d6cf8456f42d01416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:51 +0000
Subject: [PATCH 10/38] fix: write receptions without recipients instead of
 panicking

---
 src/io/output/to_hfiles/interaction/model_action.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/output/to_hfiles/interaction/model_action.rs b/src/io/output/to_hfiles/interaction/model_action.rs
index b381ba7..b10cea8 100644
--- a/src/io/output/to_hfiles/interaction/model_action.rs
+++ b/src/io/output/to_hfiles/interaction/model_action.rs
@@ -91,6 +91,6 @@ pub fn reception_as_hif_encoding(gen_ctx : &GeneralContext,
     } else if rcp_num > 1 {
         return format!("{}{}{} -> ({})", gate_str, synch_key, &ms_name, &targ_names.join(","));
     } else {
-        panic!();
+        return format!("{}{}{} ->|", gate_str, synch_key, &ms_name);
     }
 }
\ No newline at end of file
-- 
2.43.0


From 7ed3701058ab81d7ce9a78e28d9f2d96c37aec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:51 +0000
Subject: [PATCH 11/38] fix: write synchronized products and conjunctions
 instead of panicking

---
 .../output/to_hfiles/interaction/interaction.rs  | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/io/output/to_hfiles/interaction/interaction.rs b/src/io/output/to_hfiles/interaction/interaction.rs
index 3f5610d..80ea3e3 100644
--- a/src/io/output/to_hfiles/interaction/interaction.rs
+++ b/src/io/output/to_hfiles/interaction/interaction.rs
@@ -24,7 +24,8 @@ use crate::core::language::syntax::util::get_recursive_frag::{
     get_recursive_coreg_frags,
     get_recursive_strict_frags};
 use crate::io::output::to_hfiles::interaction::model_action::{emission_as_hif_encoding, reception_as_hif_encoding};
-use crate::io::textual_convention::{SYNTAX_ALT, SYNTAX_COREG, SYNTAX_EMPTY, SYNTAX_LOOP_H, SYNTAX_LOOP_P, SYNTAX_LOOP_S, SYNTAX_LOOP_W, SYNTAX_PAR, SYNTAX_SEQ, SYNTAX_STRICT};
+use crate::io::output::to_hfiles::trace::trace_action::trace_actions_as_htf_encoding;
+use crate::io::textual_convention::{SYNTAX_ALT, SYNTAX_AND, SYNTAX_COREG, SYNTAX_EMPTY, SYNTAX_LOOP_H, SYNTAX_LOOP_P, SYNTAX_LOOP_S, SYNTAX_LOOP_W, SYNTAX_PAR, SYNTAX_SEQ, SYNTAX_STRICT, SYNTAX_SYNC};
 
 
 pub fn interaction_as_hif_encoding(gen_ctx : &GeneralContext,
@@ -101,8 +102,17 @@ fn interaction_as_hif_encoding_inner(gen_ctx : &GeneralContext,
             let i1_string = interaction_as_hif_encoding_inner(gen_ctx,depth+1,i1);
             return format!("{0}{1}(\n{2}\n{0})", "\t".repeat(depth), loop_kind_as_text(lk), i1_string);
         },
-        _ => {
-            panic!("non-conform interaction");
+        &Interaction::Sync(ref sync_acts, ref i1, ref i2) => {
+            let acts : Vec<String> = sync_acts.iter().map(|act| trace_actions_as_htf_encoding(gen_ctx,&btreeset!{*act})).collect();
+            let operator_name = if acts.len() == 1 {
+                format!("{:}({:})", SYNTAX_SYNC, acts[0])
+            } else {
+                format!("{:}{{{:}}}", SYNTAX_SYNC, acts.join(","))
+            };
+            return op_as_hif_encoding(gen_ctx,depth,&operator_name,vec![i1,i2]);
+        },
+        &Interaction::And(ref i1, ref i2) => {
+            return op_as_hif_encoding(gen_ctx,depth,SYNTAX_AND,vec![i1,i2]);
         }
     }
 
-- 
2.43.0


From 693c71617e5a40f3613cdd890e77dcd3ab204756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:05 +0000
Subject: [PATCH 12/38] fix: a trace without co-localizations concerns every
 declared lifeline

The partition was built from the number of lifelines that occur in the trace, so
a trace on lifeline 2 alone was attributed to a co-localization {0}.
---
 src/io/input/htf/implem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/input/htf/implem.rs b/src/io/input/htf/implem.rs
index e5fca20..ccdfc78 100644
--- a/src/io/input/htf/implem.rs
+++ b/src/io/input/htf/implem.rs
@@ -52,7 +52,7 @@ pub fn multitrace_from_text(gen_ctx : &GeneralContext,
                             return Err(e);
                         },
                         Ok( got_trace ) => {
-                            let co_localization = CoLocalizations::get_trivial_partition(lifelines.len());
+                            let co_localization = CoLocalizations::get_trivial_partition(gen_ctx.get_lf_num());
                             let multi_trace : MultiTrace = vec![got_trace];
                             return Ok( (co_localization,multi_trace) );
                         }
-- 
2.43.0


From c7733ae71fcbd984bd64db21def61992956f25bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:05 +0000
Subject: [PATCH 13/38] fix: refuse multi-traces in which a lifeline is listed
 on two canals

---
 src/io/input/htf/multi_trace.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/input/htf/multi_trace.rs b/src/io/input/htf/multi_trace.rs
index c501d09..a1354a8 100644
--- a/src/io/input/htf/multi_trace.rs
+++ b/src/io/input/htf/multi_trace.rs
@@ -82,6 +82,9 @@ pub fn trace_canal_from_pair(gen_ctx : &GeneralContext,
                         return Err( HibouParsingError::MissingLifelineDeclarationError(lf_name));
                     },
                     Some( lf_id ) => {
+                        if unavailable_lifelines.contains(&lf_id) {
+                            return Err( HibouParsingError::NonDisjointTraceComponents );
+                        }
                         lifelines.insert(lf_id);
                     }
                 }
-- 
2.43.0


From 443999b43781e88901d52084cee256edeef00b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:17 +0000
Subject: [PATCH 14/38] fix: spellings of options shadowed by a shorter
 alternative

parent_folder, nfait, modulo_each_X_steps and search_all = false were
never read because a prefix of theirs is tried first.
---
 src/io/input/hcf/hcf_syntax.pest | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/io/input/hcf/hcf_syntax.pest b/src/io/input/hcf/hcf_syntax.pest
index a3b57d1..386c2fe 100644
--- a/src/io/input/hcf/hcf_syntax.pest
+++ b/src/io/input/hcf/hcf_syntax.pest
@@ -42,7 +42,7 @@ GRAPHIC_LOGGER_draw_term_tree = { "draw_tt" ~ "=" ~ (HIBOU_true | HIBOU_false) }
 GRAPHIC_LOGGER_draw_sub_processes = { "draw_sub_processes" ~ "=" ~ (HIBOU_true | HIBOU_false) }
 GRAPHIC_LOGGER_draw_legend = { "draw_legend" ~ "=" ~ (HIBOU_true | HIBOU_false) }
 
-GRAPHIC_LOGGER_parent_folder = { ("parent"|"parent_folder"|"folder") ~ "=" ~ HIBOU_LABEL }
+GRAPHIC_LOGGER_parent_folder = { ("parent_folder"|"parent"|"folder") ~ "=" ~ HIBOU_LABEL }
 GRAPHIC_LOGGER_output_file = { ("output"|"name") ~ "=" ~ HIBOU_LABEL }
 
 GRAPHIC_LOGGER_opt = _{ GRAPHIC_LOGGER_format
@@ -71,7 +71,7 @@ TRACEGEN_LOGGER_partition_trivial = { "trivial" }
 TRACEGEN_LOGGER_partition_specific = { "{" ~ HIBOU_LABEL_LIST ~ ("," ~ HIBOU_LABEL_LIST)*  ~ "}" }
 TRACEGEN_LOGGER_partition = _{ "partition" ~ "=" ~ (TRACEGEN_LOGGER_partition_discrete | TRACEGEN_LOGGER_partition_trivial | TRACEGEN_LOGGER_partition_specific) }
 
-TRACEGEN_LOGGER_parent_folder = { ("parent"|"parent_folder"|"folder") ~ "=" ~ HIBOU_LABEL }
+TRACEGEN_LOGGER_parent_folder = { ("parent_folder"|"parent"|"folder") ~ "=" ~ HIBOU_LABEL }
 TRACEGEN_LOGGER_trace_prefix = { ("name_prefix"|"trace_prefix"|"prefix") ~ "=" ~ HIBOU_LABEL }
 TRACEGEN_LOGGER_no_duplicate = { ("avoid_duplicates"|"prevent_duplicates"|"no_duplicates") ~ "=" ~ (HIBOU_true|HIBOU_false) }
 
@@ -84,7 +84,7 @@ TRACEGEN_LOGGER_opt = _{ TRACEGEN_LOGGER_gen_kind
 TRACEGEN_LOGGER_opts = { "[" ~ TRACEGEN_LOGGER_opt ~ ("," ~ TRACEGEN_LOGGER_opt)* ~ (",")? ~ "]" }
 OPTION_TRACEGEN_LOGGER = { "tracegen" ~ TRACEGEN_LOGGER_opts? }
 
-OPTION_NFAIT_LOGGER = { "nfa" | "nfait" }
+OPTION_NFAIT_LOGGER = { "nfait" | "nfa" }
 
 // ***
 
@@ -200,7 +200,7 @@ OPTION_GOAL_KIND = _{ OPTION_GOAL_pass | OPTION_GOAL_weakpass | HIBOU_none }
 OPTION_GOAL_DECL = { "goal" ~ "=" ~ OPTION_GOAL_KIND }
 // ***********************************************
 OPTION_LOCANA_depth = { ("max_look_ahead_depth" | "max"~"depth" | "lookahead" | "lookup") ~ "=" ~ (HIBOU_none | ARITH_INTEGER)}
-OPTION_LOCANA_modulo = { ("modulo" | "modulo_each_X_steps") ~ "=" ~ ARITH_INTEGER}
+OPTION_LOCANA_modulo = { ("modulo_each_X_steps" | "modulo") ~ "=" ~ ARITH_INTEGER}
 OPTION_LOCANA_select_all = { "all" | "All" | "ALL" }
 OPTION_LOCANA_select_dirty = { "dirty" | "Dirty" | "DIRTY" }
 OPTION_LOCANA_select = { "select" ~ "=" ~ (OPTION_LOCANA_select_all|OPTION_LOCANA_select_dirty) }
@@ -227,7 +227,7 @@ ANALYZE_OPTION_SECTION =  { "@analyze_option" ~ "{" ~
 
 OPTION_CANON_searchall_yes = { "search_all" ~ ("=" ~ HIBOU_true)? }
 OPTION_CANON_searchall_no = { "search_all" ~ "=" ~ HIBOU_false }
-OPTION_CANON_searchall = _{ OPTION_CANON_searchall_yes | OPTION_CANON_searchall_no }
+OPTION_CANON_searchall = _{ OPTION_CANON_searchall_no | OPTION_CANON_searchall_yes }
 // ***
 CANONIZE_OPTION_DECL = _{ GENERAL_OPTION_DECL
                             | OPTION_CANON_searchall }
-- 
2.43.0


From 15a2a8b0db6cc7da87ad49a8cfacd146f86b852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:24 +0000
Subject: [PATCH 15/38] fix: report numbers that are too large in
 configurations instead of panicking

---
 src/io/input/hcf/ana/options.rs      | 17 +++++++++--------
 src/io/input/hcf/explo/options.rs    |  9 +++++----
 src/io/input/hcf/loggers/tracegen.rs |  5 +++--
 src/io/input/hcf/mod.rs              |  1 +
 src/io/input/hcf/number.rs           | 28 ++++++++++++++++++++++++++++
 5 files changed, 46 insertions(+), 14 deletions(-)
 create mode 100644 src/io/input/hcf/number.rs

diff --git a/src/io/input/hcf/ana/options.rs b/src/io/input/hcf/ana/options.rs
index 9abd205..39e4fb6 100644
--- a/src/io/input/hcf/ana/options.rs
+++ b/src/io/input/hcf/ana/options.rs
@@ -23,6 +23,7 @@ use pest::iterators::Pair;
 use crate::core::general_context::GeneralContext;
 
 use crate::io::input::error::HibouParsingError;
+use crate::io::input::hcf::number::parse_number;
 use crate::io::input::hcf::loggers::graphviz::parse_graphic_logger;
 use crate::io::input::hcf::loggers::tracegen::parse_tracegen_logger;
 
@@ -300,19 +301,19 @@ fn parse_filters(filters_decl_pair : Pair<Rule>) -> Result<Vec<Box<dyn AbstractF
             Rule::OPTION_FILTER_MAX_DEPTH => {
                 let content = filter_pair.into_inner().next().unwrap();
                 let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = parse_number::<u32>(&content_str)?;
                 filters.push(Box::new(AnalysisFilter::MaxProcessDepth(my_val)));
             },
             Rule::OPTION_FILTER_MAX_LOOP_DEPTH  => {
                 let content = filter_pair.into_inner().next().unwrap();
                 let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = parse_number::<u32>(&content_str)?;
                 filters.push(Box::new(AnalysisFilter::MaxLoopInstanciation(my_val)));
             },
             Rule::OPTION_FILTER_MAX_NODE_NUMBER  => {
                 let content = filter_pair.into_inner().next().unwrap();
                 let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = parse_number::<u32>(&content_str)?;
                 filters.push(Box::new(AnalysisFilter::MaxNodeNumber(my_val)));
             },
             _ => {
@@ -354,7 +355,7 @@ fn parse_priorities(priorities_decl_pair : Pair<Rule>) -> Result<GenericProcessP
                 // ***
                 let priority_level_pair = priority_contents.next().unwrap();
                 let priority_level_str : String = priority_level_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let priority_level : i32 = priority_level_str.parse::<i32>().unwrap();
+                let priority_level : i32 = parse_number::<i32>(&priority_level_str)?;
                 // ***
                 match priority_kind_pair.as_rule() {
                     Rule::OPTION_PRIORITY_emission => {
@@ -445,7 +446,7 @@ fn parse_local_analyses_config(locana_pair : Pair<Rule>) -> Result<Option<LocalA
                             },
                             Rule::ARITH_INTEGER => {
                                 let content_str : String = depth_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                                let my_val : u32 = parse_number::<u32>(&content_str)?;
                                 max_look_ahead_depth = Some(my_val);
                             },
                             _ => {
@@ -458,7 +459,7 @@ fn parse_local_analyses_config(locana_pair : Pair<Rule>) -> Result<Option<LocalA
                         match modulo_pair.as_rule() {
                             Rule::ARITH_INTEGER => {
                                 let content_str : String = modulo_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                                let my_val : u32 = parse_number::<u32>(&content_str)?;
                                 modulo_each_X_steps = my_val;
                             },
                             _ => {
@@ -542,7 +543,7 @@ fn parse_simulation_config(simu_config_decl_pair : Pair<Rule>) -> Result<Simulat
                     Rule::OPTION_ANA_SIMULATE_CONFIG_crit_num => {
                         let content : Pair<Rule> = inner.into_inner().next().unwrap();
                         let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                        let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        let my_val : u32 = parse_number::<u32>(&content_str)?;
                         act_crit = SimulationActionCriterion::SpecificNum(my_val);
                     },
                     Rule::OPTION_ANA_SIMULATE_CONFIG_crit_maxnum => {
@@ -562,7 +563,7 @@ fn parse_simulation_config(simu_config_decl_pair : Pair<Rule>) -> Result<Simulat
                     Rule::OPTION_ANA_SIMULATE_CONFIG_crit_num => {
                         let content : Pair<Rule> = inner.into_inner().next().unwrap();
                         let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                        let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        let my_val : u32 = parse_number::<u32>(&content_str)?;
                         loop_crit = SimulationLoopCriterion::SpecificNum(my_val);
                     },
                     Rule::OPTION_ANA_SIMULATE_CONFIG_crit_maxnum => {
diff --git a/src/io/input/hcf/explo/options.rs b/src/io/input/hcf/explo/options.rs
index 9efb551..4c864fb 100644
--- a/src/io/input/hcf/explo/options.rs
+++ b/src/io/input/hcf/explo/options.rs
@@ -23,6 +23,7 @@ use pest::iterators::Pair;
 
 use crate::core::general_context::GeneralContext;
 use crate::io::input::error::HibouParsingError;
+use crate::io::input::hcf::number::parse_number;
 use crate::io::input::hcf::loggers::graphviz::parse_graphic_logger;
 use crate::io::input::hcf::loggers::tracegen::parse_tracegen_logger;
 
@@ -197,19 +198,19 @@ fn parse_filters(filters_decl_pair : Pair<Rule>) -> Result<Vec<Box<dyn AbstractF
             Rule::OPTION_FILTER_MAX_DEPTH => {
                 let content = filter_pair.into_inner().next().unwrap();
                 let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = parse_number::<u32>(&content_str)?;
                 filters.push(Box::new(ExplorationFilter::MaxProcessDepth(my_val)));
             },
             Rule::OPTION_FILTER_MAX_LOOP_DEPTH  => {
                 let content = filter_pair.into_inner().next().unwrap();
                 let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = parse_number::<u32>(&content_str)?;
                 filters.push(Box::new(ExplorationFilter::MaxLoopInstanciation(my_val)));
             },
             Rule::OPTION_FILTER_MAX_NODE_NUMBER  => {
                 let content = filter_pair.into_inner().next().unwrap();
                 let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = parse_number::<u32>(&content_str)?;
                 filters.push(Box::new(ExplorationFilter::MaxNodeNumber(my_val)));
             },
             _ => {
@@ -252,7 +253,7 @@ fn parse_priorities(priorities_decl_pair : Pair<Rule>) -> Result<GenericProcessP
                 // ***
                 let priority_level_pair = priority_contents.next().unwrap();
                 let priority_level_str : String = priority_level_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let priority_level : i32 = priority_level_str.parse::<i32>().unwrap();
+                let priority_level : i32 = parse_number::<i32>(&priority_level_str)?;
                 // ***
                 match priority_kind_pair.as_rule() {
                     Rule::OPTION_PRIORITY_emission => {
diff --git a/src/io/input/hcf/loggers/tracegen.rs b/src/io/input/hcf/loggers/tracegen.rs
index 909493e..851ecf8 100644
--- a/src/io/input/hcf/loggers/tracegen.rs
+++ b/src/io/input/hcf/loggers/tracegen.rs
@@ -26,6 +26,7 @@ use crate::core::colocalizations::CoLocalizations;
 use crate::core::general_context::GeneralContext;
 use crate::io::file_extensions::HIBOU_TRACE_FILE_EXTENSION;
 use crate::io::input::error::HibouParsingError;
+use crate::io::input::hcf::number::parse_number;
 
 
 
@@ -87,13 +88,13 @@ pub fn parse_tracegen_logger<Conf : AbstractProcessConfiguration>(logger_id : u3
                     Rule::TRACEGEN_LOGGER_depth => {
                         let depth_int_pair = opt_pair.into_inner().next().unwrap();
                         let content_str : String = depth_int_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                        let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        let my_val : u32 = parse_number::<u32>(&content_str)?;
                         generation = TracegenProcessLoggerGeneration::atExactDepth(my_val);
                     },
                     Rule::TRACEGEN_LOGGER_modulo => {
                         let depth_int_pair = opt_pair.into_inner().next().unwrap();
                         let content_str : String = depth_int_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                        let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        let my_val : u32 = parse_number::<u32>(&content_str)?;
                         generation = TracegenProcessLoggerGeneration::atDepthModulo(my_val);
                     },
                     Rule::TRACEGEN_LOGGER_partition_discrete => {
diff --git a/src/io/input/hcf/mod.rs b/src/io/input/hcf/mod.rs
index cccbca1..8d57355 100644
--- a/src/io/input/hcf/mod.rs
+++ b/src/io/input/hcf/mod.rs
@@ -16,6 +16,7 @@ limitations under the License.
 
 
 mod parser;
+mod number;
 
 pub mod loggers;
 
diff --git a/src/io/input/hcf/number.rs b/src/io/input/hcf/number.rs
new file mode 100644
index 0000000..22ebaac
--- /dev/null
+++ b/src/io/input/hcf/number.rs
@@ -0,0 +1,28 @@
+/*
+Copyright 2020 Erwan Mahe (github.com/erwanM974)
+
+Licensed under the Apache License, Version 2.0 (the "License");
+you may not use this file except in compliance with the License.
+You may obtain a copy of the License at
+
+    http://www.apache.org/licenses/LICENSE-2.0
+
+Unless required by applicable law or agreed to in writing, software
+distributed under the License is distributed on an "AS IS" BASIS,
+WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+See the License for the specific language governing permissions and
+limitations under the License.
+*/
+
+
+use std::str::FromStr;
+
+use crate::io::input::error::HibouParsingError;
+
+
+pub fn parse_number<T : FromStr>(as_str : &str) -> Result<T,HibouParsingError> {
+    match as_str.parse::<T>() {
+        Ok( number ) => Ok(number),
+        Err(_) => Err( HibouParsingError::HcfSetupError(format!("number out of bounds '{:}'", as_str)) )
+    }
+}
-- 
2.43.0


From 9a4b3146ad1adda707a963635470472640f910ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:24 +0000
Subject: [PATCH 16/38] fix: refuse options that canonization does not have
 instead of panicking

---
 src/io/input/hcf/canon/options.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/input/hcf/canon/options.rs b/src/io/input/hcf/canon/options.rs
index f4fbcda..4aaa9e2 100644
--- a/src/io/input/hcf/canon/options.rs
+++ b/src/io/input/hcf/canon/options.rs
@@ -98,13 +98,13 @@ pub fn parse_canonize_options(gen_ctx: &GeneralContext,
                             loggers.push( Box::new(glogger));
                         },
                         _ => {
-                            panic!("what rule then ? : {:?}", logger_kind_pair.as_rule() );
+                            return Err(HibouParsingError::HcfSetupError("can only use graphic loggers for canonization".to_string()));
                         }
                     }
                 }
             },
             _ => {
-                panic!("what rule then ? : {:?}", option_decl_pair.as_rule() );
+                return Err(HibouParsingError::HcfSetupError("can only set 'loggers' and 'search_all' for canonization".to_string()));
             }
         }
     }
-- 
2.43.0


From 0760a2e36ba6b2b8d130132d82e10d3a48f391bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:25 +0000
Subject: [PATCH 17/38] fix: tracegen with modulo depth 0 or a partition that
 leaves out lifelines panicked

---
 src/io/input/hcf/loggers/tracegen.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io/input/hcf/loggers/tracegen.rs b/src/io/input/hcf/loggers/tracegen.rs
index 851ecf8..c7c4180 100644
--- a/src/io/input/hcf/loggers/tracegen.rs
+++ b/src/io/input/hcf/loggers/tracegen.rs
@@ -95,6 +95,9 @@ pub fn parse_tracegen_logger<Conf : AbstractProcessConfiguration>(logger_id : u3
                         let depth_int_pair = opt_pair.into_inner().next().unwrap();
                         let content_str : String = depth_int_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
                         let my_val : u32 = parse_number::<u32>(&content_str)?;
+                        if my_val == 0 {
+                            return Err( HibouParsingError::HcfSetupError("tracegen modulo depth must not be 0".to_string()) );
+                        }
                         generation = TracegenProcessLoggerGeneration::atDepthModulo(my_val);
                     },
                     Rule::TRACEGEN_LOGGER_partition_discrete => {
@@ -128,6 +131,12 @@ pub fn parse_tracegen_logger<Conf : AbstractProcessConfiguration>(logger_id : u3
                             colocs.push(coloc);
                         }
                         // ***
+                        // lifelines that are not mentioned are observed on their own
+                        for lf_id in gen_ctx.get_all_lfs_ids() {
+                            if !got_lfs.contains(&lf_id) {
+                                colocs.push(btreeset!{lf_id});
+                            }
+                        }
                         co_localizations = CoLocalizations::new(colocs);
                     },
                     _ => {
-- 
2.43.0


From 9cc772c2337911de30866f0697b11f11f5dea9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:38 +0000
Subject: [PATCH 18/38] fix: a file name without extension panicked instead of
 being refused

---
 src/io/input/hcf/ana/interface.rs   | 2 +-
 src/io/input/hcf/canon/interface.rs | 2 +-
 src/io/input/hcf/explo/interface.rs | 2 +-
 src/io/input/hif/interface.rs       | 2 +-
 src/io/input/hsf/interface.rs       | 2 +-
 src/io/input/htf/interface.rs       | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/io/input/hcf/ana/interface.rs b/src/io/input/hcf/ana/interface.rs
index c96ef64..7c7e859 100644
--- a/src/io/input/hcf/ana/interface.rs
+++ b/src/io/input/hcf/ana/interface.rs
@@ -37,7 +37,7 @@ use crate::io::input::hcf::ana::options::{HibouAnalyzeOptions, parse_analyze_opt
 pub fn parse_hcf_file_for_ana(gen_ctx : &GeneralContext,
                               file_path : &str) -> Result<HibouAnalyzeOptions,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|e| e.to_str()).unwrap_or("");
     if file_extension != HIBOU_CONFIGURATION_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_CONFIGURATION_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/hcf/canon/interface.rs b/src/io/input/hcf/canon/interface.rs
index d95c342..26151ea 100644
--- a/src/io/input/hcf/canon/interface.rs
+++ b/src/io/input/hcf/canon/interface.rs
@@ -35,7 +35,7 @@ use crate::io::input::hcf::canon::options::{HibouCanonizeOptions, parse_canonize
 pub fn parse_hcf_file_for_canonize(gen_ctx : &GeneralContext,
                                   file_path : &str) -> Result<HibouCanonizeOptions,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|e| e.to_str()).unwrap_or("");
     if file_extension != HIBOU_CONFIGURATION_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_CONFIGURATION_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/hcf/explo/interface.rs b/src/io/input/hcf/explo/interface.rs
index ef35f7a..7701cce 100644
--- a/src/io/input/hcf/explo/interface.rs
+++ b/src/io/input/hcf/explo/interface.rs
@@ -35,7 +35,7 @@ use crate::io::input::hcf::explo::options::{HibouExploreOptions, parse_explore_o
 pub fn parse_hcf_file_for_explore(gen_ctx : &GeneralContext,
                                   file_path : &str) -> Result<HibouExploreOptions,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|e| e.to_str()).unwrap_or("");
     if file_extension != HIBOU_CONFIGURATION_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_CONFIGURATION_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/hif/interface.rs b/src/io/input/hif/interface.rs
index 6f022da..a9488e3 100644
--- a/src/io/input/hif/interface.rs
+++ b/src/io/input/hif/interface.rs
@@ -30,7 +30,7 @@ use crate::io::file_extensions::{HIBOU_INTERACTION_FILE_EXTENSION};
 
 pub fn parse_hif_file(gen_ctx : &GeneralContext, file_path : &str) -> Result<Interaction,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|e| e.to_str()).unwrap_or("");
     if file_extension != HIBOU_INTERACTION_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_INTERACTION_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/hsf/interface.rs b/src/io/input/hsf/interface.rs
index 6cf1818..f1e6c5a 100644
--- a/src/io/input/hsf/interface.rs
+++ b/src/io/input/hsf/interface.rs
@@ -26,7 +26,7 @@ use crate::io::input::hsf::implem::parse_hsf_string;
 
 pub fn parse_hsf_file(file_path : &str) -> Result<GeneralContext,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|e| e.to_str()).unwrap_or("");
     if file_extension != HIBOU_SIGNATURE_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_SIGNATURE_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/htf/interface.rs b/src/io/input/htf/interface.rs
index 63aaf32..6c2c229 100644
--- a/src/io/input/htf/interface.rs
+++ b/src/io/input/htf/interface.rs
@@ -40,7 +40,7 @@ use crate::io::input::htf::parser::{HtfParser,Rule};
 pub fn parse_htf_file(gen_ctx : &GeneralContext,
                       file_path : &str) -> Result<(CoLocalizations,MultiTrace),HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|e| e.to_str()).unwrap_or("");
     if file_extension != HIBOU_TRACE_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_TRACE_FILE_EXTENSION.to_string()));
     }
-- 
2.43.0


From d9bbe056243a90ca26c03214296b322486a3304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:15 +0000
Subject: [PATCH 19/38] fix: letters of synchronous communications were missing
 in the alphabet of automata

They were numbered beyond the alphabet: determinisation ignored them, the
trace analysis against an automaton took other letters for them, and
sub-automata gave them different numbers in compositions.
---
 src/nfa_translation/compositional.rs       | 40 ++++++++++++----------
 src/nfa_translation/experiments.rs         |  8 ++---
 src/nfa_translation/get_nfa_from_logger.rs | 19 ++++++----
 src/ui/commands/cli_glosem.rs              |  9 ++---
 src/ui/commands/cli_nfa_ana.rs             |  9 ++---
 5 files changed, 49 insertions(+), 36 deletions(-)

diff --git a/src/nfa_translation/compositional.rs b/src/nfa_translation/compositional.rs
index 2c3a01e..8c193a6 100644
--- a/src/nfa_translation/compositional.rs
+++ b/src/nfa_translation/compositional.rs
@@ -25,7 +25,7 @@ use autour_core::traits::transform::AutTransformable;
 use crate::core::execution::trace::trace::{TraceAction, TraceActionKind};
 use crate::core::general_context::GeneralContext;
 use crate::core::language::syntax::interaction::{Interaction, LoopKind};
-use crate::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration;
+use crate::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration_extending_alphabet;
 use crate::process::explo::loggers::nfait::printer::ActionNFAITPrinter;
 
 pub fn interaction_has_only_strict_and_seq(int : &Interaction) -> bool {
@@ -46,66 +46,70 @@ pub fn interaction_has_only_strict_and_seq(int : &Interaction) -> bool {
 
 pub fn get_nfa_from_interaction_via_composition(gen_ctx : &GeneralContext,
                                             int : &Interaction,
-                                                base_alphabet : Vec<BTreeSet<TraceAction>>) -> (AutNFA<usize>,Duration) {
+                                                mut base_alphabet : Vec<BTreeSet<TraceAction>>) -> (AutNFA<usize>,Duration) {
     let now = Instant::now();
-    let nfa = get_nfa_from_interaction_via_composition_rec(gen_ctx,int,base_alphabet);
+    let nfa = get_nfa_from_interaction_via_composition_rec(gen_ctx,int,&mut base_alphabet);
     let elapsed_get_nfa = now.elapsed();
     (nfa,elapsed_get_nfa)
 }
 
 fn get_nfa_from_interaction_via_composition_rec(gen_ctx : &GeneralContext,
                                             int : &Interaction,
-                                                alphabet : Vec<BTreeSet<TraceAction>>) -> AutNFA<usize> {
+                                                alphabet : &mut Vec<BTreeSet<TraceAction>>) -> AutNFA<usize> {
     if interaction_has_only_strict_and_seq(int) {
-        let (nfa,_) = get_nfa_from_interaction_exploration(gen_ctx,int,alphabet);
+        let (nfa,_) = get_nfa_from_interaction_exploration_extending_alphabet(gen_ctx,int,alphabet);
         nfa
     } else {
         match int {
             Interaction::Alt(i1,i2) => {
-                let nfa1 = get_nfa_from_interaction_via_composition_rec(
+                let mut nfa1 = get_nfa_from_interaction_via_composition_rec(
                     gen_ctx,
                     i1,
-                    alphabet.clone());
+                    alphabet);
                 let nfa2 = get_nfa_from_interaction_via_composition_rec(gen_ctx,
                                                                         i2,
-                                                                        alphabet.clone());
+                                                                        alphabet);
+                nfa1.alphabet = nfa2.alphabet.clone();
                 nfa1.unite(nfa2).unwrap().trim()
             },
             Interaction::Par(i1,i2) => {
-                let nfa1 = get_nfa_from_interaction_via_composition_rec(
+                let mut nfa1 = get_nfa_from_interaction_via_composition_rec(
                     gen_ctx,
                     i1,
-                    alphabet.clone());
+                    alphabet);
                 let nfa2 = get_nfa_from_interaction_via_composition_rec(gen_ctx,
                                                                         i2,
-                                                                        alphabet.clone());
+                                                                        alphabet);
+                nfa1.alphabet = nfa2.alphabet.clone();
                 nfa1.interleave(nfa2).unwrap().trim()
             },
             Interaction::Seq(i1,i2) => {
-                let nfa1 = get_nfa_from_interaction_via_composition_rec(
+                let mut nfa1 = get_nfa_from_interaction_via_composition_rec(
                     gen_ctx,
                     i1,
-                    alphabet.clone());
+                    alphabet);
                 let nfa2 = get_nfa_from_interaction_via_composition_rec(gen_ctx,
                                                                         i2,
-                                                                        alphabet.clone());
+                                                                        alphabet);
+                nfa1.alphabet = nfa2.alphabet.clone();
                 nfa1.concatenate(nfa2).unwrap().trim()
             },
             Interaction::Strict(i1,i2) => {
-                let nfa1 = get_nfa_from_interaction_via_composition_rec(
+                let mut nfa1 = get_nfa_from_interaction_via_composition_rec(
                     gen_ctx,
                     i1,
-                    alphabet.clone());
+                    alphabet);
                 let nfa2 = get_nfa_from_interaction_via_composition_rec(gen_ctx,
                                                                         i2,
-                                                                        alphabet.clone());
+                                                                        alphabet);
+                nfa1.alphabet = nfa2.alphabet.clone();
                 nfa1.concatenate(nfa2).unwrap().trim()
             },
             Interaction::Loop(lk,i1) => {
                 let nfa1 = get_nfa_from_interaction_via_composition_rec(
                     gen_ctx,
                     i1,
-                    alphabet.clone());
+                    alphabet);
                 match lk {
                     LoopKind::SStrictSeq => {
                         nfa1.kleene().trim()
diff --git a/src/nfa_translation/experiments.rs b/src/nfa_translation/experiments.rs
index 78fd324..ec2f011 100644
--- a/src/nfa_translation/experiments.rs
+++ b/src/nfa_translation/experiments.rs
@@ -24,7 +24,7 @@ use crate::core::general_context::GeneralContext;
 use crate::core::language::syntax::interaction::Interaction;
 use crate::nfa_translation::alphabet::get_alphabet_from_gen_ctx;
 use crate::nfa_translation::compositional::get_nfa_from_interaction_via_composition;
-use crate::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration;
+use crate::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration_extending_alphabet;
 
 pub struct NfaGenerationExperimentResults {
     pub int : Interaction,
@@ -66,14 +66,14 @@ pub fn run_nfa_generation_experiment(int : Interaction,
                                      num_tries_for_median : u32,
                                      state_lim : usize) -> NfaGenerationExperimentResults {
 
-    let alphabet = get_alphabet_from_gen_ctx(&gen_ctx);
+    let mut alphabet = get_alphabet_from_gen_ctx(&gen_ctx);
 
     let mut nfa_operational = AutNFA::new_void_object(hashset!{0});
     let mut nfa_operational_times = vec![];
     for _ in 0..num_tries_for_median {
-        let (nfa,duration) = get_nfa_from_interaction_exploration(&gen_ctx,
+        let (nfa,duration) = get_nfa_from_interaction_exploration_extending_alphabet(&gen_ctx,
                                                                   &int,
-                                                                  alphabet.clone());
+                                                                  &mut alphabet);
         let in_micros = duration.as_micros();
         println!("via exploration translated interaction into nfa of {:} states in {:}μs", nfa.transitions.len(), in_micros);
         nfa_operational = nfa;
diff --git a/src/nfa_translation/get_nfa_from_logger.rs b/src/nfa_translation/get_nfa_from_logger.rs
index 0caa60c..66d739e 100644
--- a/src/nfa_translation/get_nfa_from_logger.rs
+++ b/src/nfa_translation/get_nfa_from_logger.rs
@@ -17,7 +17,7 @@ limitations under the License.
 
 
 
-use std::collections::{BTreeSet, HashSet};
+use std::collections::BTreeSet;
 use std::time::{Duration, Instant};
 use autour_core::nfa::nfa::AutNFA;
 use autour_core::traits::translate::AutTranslatable;
@@ -40,13 +40,20 @@ use crate::process::explo::step::ExplorationStepKind;
 
 pub fn get_nfa_from_interaction_exploration(gen_ctx : &GeneralContext,
                                             int : &Interaction,
-                                            base_alphabet : Vec<BTreeSet<TraceAction>>)
+                                            mut base_alphabet : Vec<BTreeSet<TraceAction>>)
+            -> (AutNFA<usize>,Duration) {
+    get_nfa_from_interaction_exploration_extending_alphabet(gen_ctx,int,&mut base_alphabet)
+}
+
+/** letters that are not in the alphabet (e.g. those of synchronous communications) are added to it **/
+pub fn get_nfa_from_interaction_exploration_extending_alphabet(gen_ctx : &GeneralContext,
+                                            int : &Interaction,
+                                            alphabet : &mut Vec<BTreeSet<TraceAction>>)
             -> (AutNFA<usize>,Duration) {
 
-    let usize_alphabet : HashSet<usize> = (0..base_alphabet.len()).collect();
     let max_loop_depth = int.total_loop_num()*2;
     let nfa_logger = GenericNFAITLogger::new(
-        ActionNFAITPrinter::new(base_alphabet,
+        ActionNFAITPrinter::new(alphabet.clone(),
                                 gen_ctx.clone()),
                                              "nfa".to_string(),
                                              None,
@@ -78,9 +85,9 @@ pub fn get_nfa_from_interaction_exploration(gen_ctx : &GeneralContext,
         raw_logger.as_any().downcast_ref::<GenericNFAITLogger<ExplorationConfig,usize,ActionNFAITPrinter>>().unwrap();
     // ***
     let mut nfa = nfa_logger.get_nfait().to_nfa();
-    let printer = nfa_logger.builder_printer.clone();
+    *alphabet = nfa_logger.builder_printer.index_to_action_map.clone();
     // ***
-    nfa.alphabet = usize_alphabet;
+    nfa.alphabet = (0..alphabet.len()).collect();
     // ***
     return (nfa, elapsed_get_nfa);
 }
\ No newline at end of file
diff --git a/src/ui/commands/cli_glosem.rs b/src/ui/commands/cli_glosem.rs
index 1380d4a..546bb67 100644
--- a/src/ui/commands/cli_glosem.rs
+++ b/src/ui/commands/cli_glosem.rs
@@ -36,7 +36,7 @@ use crate::io::input::hif::interface::parse_hif_file;
 use crate::io::output::draw_interactions::interface::{draw_interaction, InteractionGraphicalRepresentation};
 use crate::nfa_translation::alphabet::get_alphabet_from_gen_ctx;
 use crate::nfa_translation::compositional::get_nfa_from_interaction_via_composition;
-use crate::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration;
+use crate::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration_extending_alphabet;
 use crate::process::explo::loggers::nfait::printer::ActionNFAITPrinter;
 
 
@@ -77,12 +77,13 @@ pub fn cli_glosem(matches : &ArgMatches) -> (Vec<String>,u32) {
                         }
                     }
 
-                    let (nfa,elapsed_get_nfa) = get_nfa_from_interaction_exploration(
+                    let mut alphabet = get_alphabet_from_gen_ctx(&gen_ctx);
+                    let (nfa,elapsed_get_nfa) = get_nfa_from_interaction_exploration_extending_alphabet(
                         &gen_ctx,
                         &int,
-                        get_alphabet_from_gen_ctx(&gen_ctx));
+                        &mut alphabet);
 
-                    let printer = ActionNFAITPrinter::new(get_alphabet_from_gen_ctx(&gen_ctx),gen_ctx);
+                    let printer = ActionNFAITPrinter::new(alphabet,gen_ctx);
 
                     let mut ret_print = vec![];
                     // ***
diff --git a/src/ui/commands/cli_nfa_ana.rs b/src/ui/commands/cli_nfa_ana.rs
index eb34da5..772837f 100644
--- a/src/ui/commands/cli_nfa_ana.rs
+++ b/src/ui/commands/cli_nfa_ana.rs
@@ -49,7 +49,7 @@ use crate::io::input::hif::interface::parse_hif_file;
 use crate::io::input::htf::interface::parse_htf_file;
 use crate::io::output::draw_interactions::interface::{draw_interaction, InteractionGraphicalRepresentation};
 use crate::nfa_translation::alphabet::get_alphabet_from_gen_ctx;
-use crate::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration;
+use crate::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration_extending_alphabet;
 use crate::process::explo::loggers::nfait::printer::ActionNFAITPrinter;
 
 
@@ -83,12 +83,13 @@ pub fn cli_nfa_ana(matches : &ArgMatches) -> (Vec<String>,u32) {
                             }
                             let trace = multi_trace.remove(0);
 
-                            let (nfa,elapsed_get_nfa) = get_nfa_from_interaction_exploration(
+                            let mut alphabet = get_alphabet_from_gen_ctx(&gen_ctx);
+                            let (nfa,elapsed_get_nfa) = get_nfa_from_interaction_exploration_extending_alphabet(
                                 &gen_ctx,
                                 &int,
-                                get_alphabet_from_gen_ctx(&gen_ctx));
+                                &mut alphabet);
 
-                            let printer = ActionNFAITPrinter::new(get_alphabet_from_gen_ctx(&gen_ctx),gen_ctx);
+                            let printer = ActionNFAITPrinter::new(alphabet,gen_ctx);
 
                             if matches.is_present("draw_transformation") {
                                 let int_name = format!("{}_int",file_name);
-- 
2.43.0


From 79322c328690f63dada3f6113d7e2165c3b64521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:17 +0000
Subject: [PATCH 20/38] fix: composition of automata took weak sequencing for
 concatenation and panicked on some operators

---
 src/nfa_translation/compositional.rs | 29 +++++++++-------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/src/nfa_translation/compositional.rs b/src/nfa_translation/compositional.rs
index 8c193a6..9ec2acd 100644
--- a/src/nfa_translation/compositional.rs
+++ b/src/nfa_translation/compositional.rs
@@ -83,17 +83,6 @@ fn get_nfa_from_interaction_via_composition_rec(gen_ctx : &GeneralContext,
                 nfa1.alphabet = nfa2.alphabet.clone();
                 nfa1.interleave(nfa2).unwrap().trim()
             },
-            Interaction::Seq(i1,i2) => {
-                let mut nfa1 = get_nfa_from_interaction_via_composition_rec(
-                    gen_ctx,
-                    i1,
-                    alphabet);
-                let nfa2 = get_nfa_from_interaction_via_composition_rec(gen_ctx,
-                                                                        i2,
-                                                                        alphabet);
-                nfa1.alphabet = nfa2.alphabet.clone();
-                nfa1.concatenate(nfa2).unwrap().trim()
-            },
             Interaction::Strict(i1,i2) => {
                 let mut nfa1 = get_nfa_from_interaction_via_composition_rec(
                     gen_ctx,
@@ -105,19 +94,19 @@ fn get_nfa_from_interaction_via_composition_rec(gen_ctx : &GeneralContext,
                 nfa1.alphabet = nfa2.alphabet.clone();
                 nfa1.concatenate(nfa2).unwrap().trim()
             },
-            Interaction::Loop(lk,i1) => {
+            Interaction::Loop(LoopKind::SStrictSeq,i1) => {
                 let nfa1 = get_nfa_from_interaction_via_composition_rec(
                     gen_ctx,
                     i1,
                     alphabet);
-                match lk {
-                    LoopKind::SStrictSeq => {
-                        nfa1.kleene().trim()
-                    },
-                    _ => {panic!()}
-                }
+                nfa1.kleene().trim()
             },
-            _ => {panic!()}
+            // there is no operation on automata that corresponds to the other operators
+            // (in particular, weak sequencing is not concatenation)
+            _ => {
+                let (nfa,_) = get_nfa_from_interaction_exploration_extending_alphabet(gen_ctx,int,alphabet);
+                nfa
+            }
         }
     }
-}
\ No newline at end of file
+}
-- 
2.43.0


From 2bcb90312775fddae19ef4db63a4cdbbcd7ea965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:21 +0000
Subject: [PATCH 21/38] fix: the limit on loops cut automata of models with
 strict loops

---
 src/nfa_translation/get_nfa_from_logger.rs | 29 +++++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/nfa_translation/get_nfa_from_logger.rs b/src/nfa_translation/get_nfa_from_logger.rs
index 66d739e..195e543 100644
--- a/src/nfa_translation/get_nfa_from_logger.rs
+++ b/src/nfa_translation/get_nfa_from_logger.rs
@@ -23,21 +23,37 @@ use autour_core::nfa::nfa::AutNFA;
 use autour_core::traits::translate::AutTranslatable;
 use graph_process_manager_core::delegate::delegate::GenericProcessDelegate;
 use graph_process_manager_core::delegate::priorities::GenericProcessPriorities;
+use graph_process_manager_core::handler::filter::AbstractFilter;
 use graph_process_manager_core::manager::manager::GenericProcessManager;
 use graph_process_manager_core::queued_steps::queue::strategy::QueueSearchStrategy;
 use graph_process_manager_loggers::nfait::logger::GenericNFAITLogger;
 use crate::core::execution::trace::trace::TraceAction;
 use crate::core::general_context::GeneralContext;
-use crate::core::language::syntax::interaction::Interaction;
+use crate::core::language::syntax::interaction::{Interaction, LoopKind};
 use crate::process::explo::conf::ExplorationConfig;
 use crate::process::explo::context::{ExplorationContext, ExplorationParameterization};
-use crate::process::explo::filter::filter::ExplorationFilter;
+use crate::process::explo::filter::elim::ExplorationFilterEliminationKind;
+use crate::process::explo::filter::filter::{ExplorationFilter, ExplorationFilterCriterion};
 use crate::process::explo::loggers::nfait::printer::ActionNFAITPrinter;
 use crate::process::explo::node::ExplorationNodeKind;
 use crate::process::explo::priorities::ExplorationPriorities;
 use crate::process::explo::step::ExplorationStepKind;
 
 
+fn has_only_strict_loops(int : &Interaction) -> bool {
+    match int {
+        Interaction::Strict(i1,i2) |
+        Interaction::Seq(i1,i2) |
+        Interaction::CoReg(_,i1,i2) |
+        Interaction::Par(i1,i2) |
+        Interaction::Alt(i1,i2) |
+        Interaction::Sync(_,i1,i2) |
+        Interaction::And(i1,i2) => has_only_strict_loops(i1) && has_only_strict_loops(i2),
+        Interaction::Loop(lk,i1) => *lk == LoopKind::SStrictSeq && has_only_strict_loops(i1),
+        _ => true
+    }
+}
+
 pub fn get_nfa_from_interaction_exploration(gen_ctx : &GeneralContext,
                                             int : &Interaction,
                                             mut base_alphabet : Vec<BTreeSet<TraceAction>>)
@@ -51,7 +67,12 @@ pub fn get_nfa_from_interaction_exploration_extending_alphabet(gen_ctx : &Genera
                                             alphabet : &mut Vec<BTreeSet<TraceAction>>)
             -> (AutNFA<usize>,Duration) {
 
-    let max_loop_depth = int.total_loop_num()*2;
+    // with strict loops only, finitely many interactions are reached and memoization suffices :
+    // a limit on loops would then leave out transitions towards interactions already reached
+    let mut filters : Vec<Box<dyn AbstractFilter<ExplorationFilterCriterion,ExplorationFilterEliminationKind>>> = vec![];
+    if !has_only_strict_loops(int) {
+        filters.push(Box::new(ExplorationFilter::MaxLoopInstanciation(int.total_loop_num()*2)));
+    }
     let nfa_logger = GenericNFAITLogger::new(
         ActionNFAITPrinter::new(alphabet.clone(),
                                 gen_ctx.clone()),
@@ -67,7 +88,7 @@ pub fn get_nfa_from_interaction_exploration_extending_alphabet(gen_ctx : &Genera
         GenericProcessManager::new(explo_ctx,
                                    ExplorationParameterization{},
                                    delegate,
-                                   vec![Box::new(ExplorationFilter::MaxLoopInstanciation(max_loop_depth))],
+                                   filters,
                                    vec![Box::new(nfa_logger)],
                                    None,
                                    true);
-- 
2.43.0


From 173b87327ab04dc571ac9000ff159b9c679338bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:12 +0000
Subject: [PATCH 22/38] fix: random slices never reached the last action of a
 component

---
 src/trace_manip/slice/random.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/trace_manip/slice/random.rs b/src/trace_manip/slice/random.rs
index f8b47c6..041d7e7 100644
--- a/src/trace_manip/slice/random.rs
+++ b/src/trace_manip/slice/random.rs
@@ -82,10 +82,8 @@ fn get_indexes_cuts(rng : &mut ThreadRng, length : usize,kind : &SliceKind, wide
 
 
 fn get_any_cut(rng : &mut ThreadRng, length : usize, kind : &SliceKind) -> (usize,usize) {
-    if length == 0 {
-        return (0,0);
-    }
-    let rng_indices = Uniform::from(0..length );
+    // a cut can be before or after any of the actions
+    let rng_indices = Uniform::from(0..(length + 1) );
     // ***
     let (id1,id2) : (usize,usize);
     match kind {
-- 
2.43.0


From 44c8b49e567ba43784ce41a3a1699050a4863053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:12 +0000
Subject: [PATCH 23/38] fix: wide prefixes and suffixes, and wide slices of
 short components, could be shorter than a third of the component

---
 src/trace_manip/slice/random.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/trace_manip/slice/random.rs b/src/trace_manip/slice/random.rs
index 041d7e7..c01d81c 100644
--- a/src/trace_manip/slice/random.rs
+++ b/src/trace_manip/slice/random.rs
@@ -16,7 +16,6 @@ limitations under the License.
 
 
 
-use std::cmp::min;
 use std::collections::HashSet;
 use std::path::PathBuf;
 
@@ -109,9 +108,6 @@ fn get_any_cut(rng : &mut ThreadRng, length : usize, kind : &SliceKind) -> (usiz
 }
 
 fn get_wider_cut(rng : &mut ThreadRng, length : usize, kind : &SliceKind) -> (usize,usize) {
-    if length <= 4 {
-        return get_any_cut(rng,length,kind);
-    }
     let (id1,id2) : (usize,usize);
     match kind {
         &SliceKind::Slice => {
@@ -122,11 +118,11 @@ fn get_wider_cut(rng : &mut ThreadRng, length : usize, kind : &SliceKind) -> (us
         &SliceKind::Prefix => {
             let rng_indices = Uniform::from(0..((length/2)+ 1) );
             id1 = 0;
-            id2 = min((length/2) + rng_indices.sample(rng), length );
+            id2 = length - rng_indices.sample(rng);
         },
         &SliceKind::Suffix => {
             let rng_indices = Uniform::from(0..((length/2) + 1) );
-            id1 = length - rng_indices.sample(rng);
+            id1 = rng_indices.sample(rng);
             id2 = length;
         }
     }
-- 
2.43.0


From 199414e89c6ad72205afe006c714219007269f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:28 +0000
Subject: [PATCH 24/38] fix: slice panicked on a number of slices that is no
 number

---
 src/ui/commands/cli_slice.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ui/commands/cli_slice.rs b/src/ui/commands/cli_slice.rs
index 78aa12a..42516d9 100644
--- a/src/ui/commands/cli_slice.rs
+++ b/src/ui/commands/cli_slice.rs
@@ -68,7 +68,13 @@ pub fn cli_slice(matches : &ArgMatches) -> (Vec<String>,u32) {
                     if matches.is_present("random") {
                         let extracted = matches.value_of("random").unwrap();
                         let content_str : String = extracted.chars().filter(|c| !c.is_whitespace()).collect();
-                        let num_random_slices : u32 = content_str.parse::<u32>().unwrap();
+                        let num_random_slices : u32 = match content_str.parse::<u32>() {
+                            Ok( num ) => { num },
+                            Err( e ) => {
+                                ret_print.push( format!("not a number of slices : '{:}' ({:})", extracted, e) );
+                                return (ret_print,1);
+                            }
+                        };
                         // ***
                         let wide_only : bool;
                         if matches.is_present("wide") {
-- 
2.43.0


From 219630566ca8d59351e9568d6c66aded847c1c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:27 +0000
Subject: [PATCH 25/38] fix: noise was inserted more often than asked, and
 several times per component with -u

---
 src/trace_manip/mutate/insert_noise.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trace_manip/mutate/insert_noise.rs b/src/trace_manip/mutate/insert_noise.rs
index ba59ec5..851a8db 100644
--- a/src/trace_manip/mutate/insert_noise.rs
+++ b/src/trace_manip/mutate/insert_noise.rs
@@ -94,7 +94,7 @@ fn mutate_by_inserting_noise(gen_ctx : &GeneralContext,
     // ***
     let mut rem_num_inserts : u32;
     if one_per_compo_max {
-        rem_num_inserts = max_num_inserts.max(multi_trace.len() as u32);
+        rem_num_inserts = max_num_inserts.min(multi_trace.len() as u32);
     } else {
         rem_num_inserts = max_num_inserts;
     }
@@ -116,6 +116,7 @@ fn mutate_by_inserting_noise(gen_ctx : &GeneralContext,
             } else {
                 mutate_vector_by_insert(&mut rng,component,btreeset!{to_insert});
             }
+            seen_colocs.insert(coloc_id);
             rem_num_inserts -= 1;
         }
     }
-- 
2.43.0


From b214b132cced5dff603d77fea5f0d48da8bfb372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:27 +0000
Subject: [PATCH 26/38] fix: noise was never inserted at the end of a component
 that is not empty

---
 src/trace_manip/mutate/insert_noise.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/trace_manip/mutate/insert_noise.rs b/src/trace_manip/mutate/insert_noise.rs
index 851a8db..35032ab 100644
--- a/src/trace_manip/mutate/insert_noise.rs
+++ b/src/trace_manip/mutate/insert_noise.rs
@@ -126,14 +126,10 @@ fn mutate_by_inserting_noise(gen_ctx : &GeneralContext,
 
 
 fn mutate_vector_by_insert<T>(rng : &mut ThreadRng, vector : &mut Vec<T>, to_insert : T) {
-    let vec_length = vector.len();
-    if vec_length > 0 {
-        let mut vec_indices : Vec<usize> = (0..vec_length).collect();
-        vec_indices.shuffle(rng);
-        vector.insert(*vec_indices.get(0).unwrap(), to_insert);
-    } else {
-        vector.push(to_insert);
-    }
+    // before any of the elements or after the last
+    let mut vec_indices : Vec<usize> = (0..(vector.len() + 1)).collect();
+    vec_indices.shuffle(rng);
+    vector.insert(*vec_indices.get(0).unwrap(), to_insert);
 }
 
 
-- 
2.43.0


From d0946f5ae5618d67c408dc9366508e26fbb35c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:27 +0000
Subject: [PATCH 27/38] fix: mutate_remove_actions panicked when the parent
 folder did not exist

---
 src/trace_manip/mutate/remove_actions.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trace_manip/mutate/remove_actions.rs b/src/trace_manip/mutate/remove_actions.rs
index eb81f62..c839f0f 100644
--- a/src/trace_manip/mutate/remove_actions.rs
+++ b/src/trace_manip/mutate/remove_actions.rs
@@ -15,6 +15,7 @@ limitations under the License.
 */
 
 
+use std::fs;
 use std::path::PathBuf;
 use rand::rngs::ThreadRng;
 use rand::seq::SliceRandom;
@@ -39,6 +40,8 @@ pub fn generate_remove_actions_mutant(gen_ctx : &GeneralContext,
             [&file_name].iter().collect()
         },
         Some( parent ) => {
+            // creates directory
+            fs::create_dir_all(parent).unwrap();
             [parent, &file_name].iter().collect()
         }
     };
-- 
2.43.0


From f2799ab1424137db29e3510e6311e6569bd02183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:27 +0000
Subject: [PATCH 28/38] fix: swap of components did not respect the maximum and
 panicked for more swaps than components

---
 src/trace_manip/mutate/swap_component.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trace_manip/mutate/swap_component.rs b/src/trace_manip/mutate/swap_component.rs
index 5830160..73becdf 100644
--- a/src/trace_manip/mutate/swap_component.rs
+++ b/src/trace_manip/mutate/swap_component.rs
@@ -65,7 +65,7 @@ fn mutate_by_swapping_components(multi_trace_1 : &MultiTrace, multi_trace_2 : &M
     let mut compos_indices : Vec<usize> = (0..(num_compos as usize)).collect();
     compos_indices.shuffle(&mut rng);
     // ***
-    let mut rem_num_swaps = max_num_swaps.max(num_compos - 1);
+    let mut rem_num_swaps = max_num_swaps.min(num_compos - 1);
     // ***
     let mut mutated_mt = multi_trace_1.clone();
     while rem_num_swaps > 0 {
-- 
2.43.0


From 82d23d6425c1fda731ae8aeb81d2c9ab4eee61f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:27 +0000
Subject: [PATCH 29/38] fix: the mutation commands panicked on a maximum that
 is no number

---
 src/ui/commands/cli_mutate_insert_noise.rs    | 7 ++++++-
 src/ui/commands/cli_mutate_remove_actions.rs  | 7 ++++++-
 src/ui/commands/cli_mutate_swap_actions.rs    | 7 ++++++-
 src/ui/commands/cli_mutate_swap_components.rs | 7 ++++++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/ui/commands/cli_mutate_insert_noise.rs b/src/ui/commands/cli_mutate_insert_noise.rs
index c3b932b..2810231 100644
--- a/src/ui/commands/cli_mutate_insert_noise.rs
+++ b/src/ui/commands/cli_mutate_insert_noise.rs
@@ -53,7 +53,12 @@ pub fn cli_mutate_insert_noise(matches : &ArgMatches) -> (Vec<String>,u32) {
                     if matches.is_present("max_num_inserts") {
                         let extracted = matches.value_of("max_num_inserts").unwrap();
                         let content_str : String = extracted.chars().filter(|c| !c.is_whitespace()).collect();
-                        max_num_inserts = content_str.parse::<u32>().unwrap();
+                        max_num_inserts = match content_str.parse::<u32>() {
+                            Ok( num ) => { num },
+                            Err( e ) => {
+                                return (vec![format!("not a number of inserts : '{:}' ({:})", extracted, e)],1);
+                            }
+                        };
                         // ***
                     } else {
                         max_num_inserts = 1;
diff --git a/src/ui/commands/cli_mutate_remove_actions.rs b/src/ui/commands/cli_mutate_remove_actions.rs
index 7c028bf..af4923b 100644
--- a/src/ui/commands/cli_mutate_remove_actions.rs
+++ b/src/ui/commands/cli_mutate_remove_actions.rs
@@ -52,7 +52,12 @@ pub fn cli_mutate_remove_actions(matches : &ArgMatches) -> (Vec<String>,u32) {
                     let max_num_removes : u32 = if matches.is_present("max_num_removes") {
                         let extracted = matches.value_of("max_num_removes").unwrap();
                         let content_str : String = extracted.chars().filter(|c| !c.is_whitespace()).collect();
-                        content_str.parse::<u32>().unwrap()
+                        match content_str.parse::<u32>() {
+                            Ok( num ) => { num },
+                            Err( e ) => {
+                                return (vec![format!("not a number of removals : '{:}' ({:})", extracted, e)],1);
+                            }
+                        }
                     } else {
                         1
                     };
diff --git a/src/ui/commands/cli_mutate_swap_actions.rs b/src/ui/commands/cli_mutate_swap_actions.rs
index eab0b7f..d65d47c 100644
--- a/src/ui/commands/cli_mutate_swap_actions.rs
+++ b/src/ui/commands/cli_mutate_swap_actions.rs
@@ -52,7 +52,12 @@ pub fn cli_mutate_swap_actions(matches : &ArgMatches) -> (Vec<String>,u32) {
                     if matches.is_present("max_num_swap") {
                         let extracted = matches.value_of("max_num_swap").unwrap();
                         let content_str : String = extracted.chars().filter(|c| !c.is_whitespace()).collect();
-                        max_num_swap = content_str.parse::<u32>().unwrap();
+                        max_num_swap = match content_str.parse::<u32>() {
+                            Ok( num ) => { num },
+                            Err( e ) => {
+                                return (vec![format!("not a number of swaps : '{:}' ({:})", extracted, e)],1);
+                            }
+                        };
                         // ***
                     } else {
                         max_num_swap = 1;
diff --git a/src/ui/commands/cli_mutate_swap_components.rs b/src/ui/commands/cli_mutate_swap_components.rs
index 2f3dfa0..2619640 100644
--- a/src/ui/commands/cli_mutate_swap_components.rs
+++ b/src/ui/commands/cli_mutate_swap_components.rs
@@ -60,7 +60,12 @@ pub fn cli_mutate_swap_components(matches : &ArgMatches) -> (Vec<String>,u32) {
                     if matches.is_present("max_num_swap") {
                         let extracted = matches.value_of("max_num_swap").unwrap();
                         let content_str : String = extracted.chars().filter(|c| !c.is_whitespace()).collect();
-                        max_num_swap = content_str.parse::<u32>().unwrap();
+                        max_num_swap = match content_str.parse::<u32>() {
+                            Ok( num ) => { num },
+                            Err( e ) => {
+                                return (vec![format!("not a number of swaps : '{:}' ({:})", extracted, e)],1);
+                            }
+                        };
                         // ***
                     } else {
                         max_num_swap = 1;
-- 
2.43.0


From 51123dce0e369458920d129b86dc3b6476ed4c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:33 +0000
Subject: [PATCH 30/38] fix: get_metrics minDFA counted the states of an
 automaton that was not minimized

---
 src/ui/commands/cli_get_metrics.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ui/commands/cli_get_metrics.rs b/src/ui/commands/cli_get_metrics.rs
index 705c52c..20df63b 100644
--- a/src/ui/commands/cli_get_metrics.rs
+++ b/src/ui/commands/cli_get_metrics.rs
@@ -16,6 +16,7 @@ limitations under the License.
 
 
 use autour_core::nfa::nfa::AutNFA;
+use autour_core::traits::transform::AutTransformable;
 use autour_core::traits::translate::AutTranslatable;
 use clap::ArgMatches;
 use crate::core::language::syntax::metrics::InteractionMetrics;
@@ -92,7 +93,7 @@ pub fn cli_get_metrics(matches : &ArgMatches) -> (Vec<String>, u32) {
                             let (nfa,_) = get_nfa_from_interaction_exploration(&gen_ctx,
                                                                                &int,
                                                                                alphabet.clone());
-                            let dfa = nfa.to_dfa();
+                            let dfa = nfa.to_dfa().minimize();
                             let num_states = dfa.transitions.len();
                             let num_edges = dfa.transitions.iter()
                                 .fold(0,|x,t|
-- 
2.43.0


From 47789fc355de3facc4f1eeb00ae58cc7689c0adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:17 +0000
Subject: [PATCH 31/38] fix: rng_gen_interactions asked for the value of an
 argument that was not declared and panicked

---
 src/ui/commands/cli_rng_gen_interactions.rs | 6 +++---
 src/ui/hibou_cli.yml                        | 5 +++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ui/commands/cli_rng_gen_interactions.rs b/src/ui/commands/cli_rng_gen_interactions.rs
index cdfe401..fbd5c0f 100644
--- a/src/ui/commands/cli_rng_gen_interactions.rs
+++ b/src/ui/commands/cli_rng_gen_interactions.rs
@@ -70,7 +70,7 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
 
             let num_tries : u32 = match matches.value_of("num_tries") {
                 None => {
-                    number_of_interactions*3
+                    number_of_interactions.saturating_mul(3)
                 },
                 Some( as_str ) => {
                     as_str.trim().parse::<u32>().unwrap()
@@ -180,8 +180,8 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                 }
                 if !got_one {
                     println!("retrying...");
-                    max_tries -= 1;
-                    if max_tries <= 0 {
+                    max_tries = max_tries.saturating_sub(1);
+                    if max_tries == 0 {
                         println!("... max retries exceeded");
                         break 'myloop;
                     }
diff --git a/src/ui/hibou_cli.yml b/src/ui/hibou_cli.yml
index c465237..f69ba1d 100644
--- a/src/ui/hibou_cli.yml
+++ b/src/ui/hibou_cli.yml
@@ -436,6 +436,11 @@ subcommands:
                   short: i
                   takes_value: true
                   help: number of interactions to generate (default 350)
+              - num_tries:
+                  required: false
+                  short: t
+                  takes_value: true
+                  help: number of failed attempts after which to give up (default thrice the number of interactions to generate)
               - probas:
                   required: false
                   short: p
-- 
2.43.0


From 5c0449f5037b1368231a397f171925b2590f2ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:17 +0000
Subject: [PATCH 32/38] fix: rng_gen_interactions panicked when the output
 folder did not exist

---
 src/ui/commands/cli_rng_gen_interactions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ui/commands/cli_rng_gen_interactions.rs b/src/ui/commands/cli_rng_gen_interactions.rs
index fbd5c0f..ddcb317 100644
--- a/src/ui/commands/cli_rng_gen_interactions.rs
+++ b/src/ui/commands/cli_rng_gen_interactions.rs
@@ -154,6 +154,10 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                 output_folder)
             );
 
+            if let Err(e) = std::fs::create_dir_all(&output_folder) {
+                return (vec![format!("could not create folder '{:}' : {:}", output_folder, e)],1);
+            }
+
             let mut memoized_ints = HashSet::new();
 
             let mut rng = StdRng::seed_from_u64(seed);
-- 
2.43.0


From f13198348f579420f6c3ffae19cde8bc1d74b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:17 +0000
Subject: [PATCH 33/38] fix: rng_gen_interactions panicked on options that are
 no numbers and on unknown probabilities, and named the wrong ones

---
 src/ui/commands/cli_rng_gen_interactions.rs | 39 +++++++++++++++++----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/ui/commands/cli_rng_gen_interactions.rs b/src/ui/commands/cli_rng_gen_interactions.rs
index ddcb317..57815f7 100644
--- a/src/ui/commands/cli_rng_gen_interactions.rs
+++ b/src/ui/commands/cli_rng_gen_interactions.rs
@@ -64,7 +64,12 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                     350
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u32>().unwrap()
+                    match as_str.trim().parse::<u32>() {
+                        Ok( num ) => { num },
+                        Err( e ) => {
+                            return (vec![format!("not a number : '{:}' ({:})", as_str, e)],1);
+                        }
+                    }
                 }
             };
 
@@ -73,7 +78,12 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                     number_of_interactions.saturating_mul(3)
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u32>().unwrap()
+                    match as_str.trim().parse::<u32>() {
+                        Ok( num ) => { num },
+                        Err( e ) => {
+                            return (vec![format!("not a number : '{:}' ({:})", as_str, e)],1);
+                        }
+                    }
                 }
             };
 
@@ -82,7 +92,12 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                     10
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u32>().unwrap()
+                    match as_str.trim().parse::<u32>() {
+                        Ok( num ) => { num },
+                        Err( e ) => {
+                            return (vec![format!("not a number : '{:}' ({:})", as_str, e)],1);
+                        }
+                    }
                 }
             };
 
@@ -91,7 +106,12 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                     100
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u32>().unwrap()
+                    match as_str.trim().parse::<u32>() {
+                        Ok( num ) => { num },
+                        Err( e ) => {
+                            return (vec![format!("not a number : '{:}' ({:})", as_str, e)],1);
+                        }
+                    }
                 }
             };
 
@@ -100,7 +120,12 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                     0
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u64>().unwrap()
+                    match as_str.trim().parse::<u64>() {
+                        Ok( num ) => { num },
+                        Err( e ) => {
+                            return (vec![format!("not a number : '{:}' ({:})", as_str, e)],1);
+                        }
+                    }
                 }
             };
 
@@ -120,14 +145,14 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                         InteractionSymbolsProbabilities::conservative()
                     },
                     "protocols_with_coreg" => {
-                        probas_name = "conservative";
+                        probas_name = "protocols_with_coreg";
                         InteractionSymbolsProbabilities::protocols_with_coreg()
                     },
                     "default" => {
                         InteractionSymbolsProbabilities::default_non_regular()
                     },
                     _ => {
-                        panic!("unknown probas for interactions generations : '{:}'", extracted)
+                        return (vec![format!("unknown probas for interactions generations : '{:}'", extracted)],1);
                     }
                 }
             } else {
-- 
2.43.0


From 2a16d7625604fc463197636c69b45bed70e8aaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:17 +0000
Subject: [PATCH 34/38] fix: the same seed did not generate the same
 interactions

---
 src/experiments/interaction_random_gen/probas.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/experiments/interaction_random_gen/probas.rs b/src/experiments/interaction_random_gen/probas.rs
index 98d022d..985547c 100644
--- a/src/experiments/interaction_random_gen/probas.rs
+++ b/src/experiments/interaction_random_gen/probas.rs
@@ -19,6 +19,7 @@ use std::collections::{HashMap, HashSet};
 use std::fmt::Formatter;
 use std::hash::Hash;
 use rand::prelude::{SliceRandom, StdRng};
+use itertools::Itertools;
 use rand::Rng;
 use crate::core::general_context::GeneralContext;
 use crate::core::language::syntax::action::{CommunicationSynchronicity, EmissionAction, ReceptionAction};
@@ -66,7 +67,7 @@ impl InteractionSymbolsProbabilities {
         let mut ordered_symbols = vec![];
         let mut ordered_bounds = vec![0.0_f32];
         let mut sum = 0.0;
-        for (s,p) in map {
+        for (s,p) in map.into_iter().sorted_by_key(|(s,_)| *s) {
             if p < 0.0 - 1e-6 || p > 1.0 + 1e-6 {
                 return Err(InteractionSymbolsProbabilitiesError::SymbolProbabilityMustBeBetweenOAnd1);
             }
-- 
2.43.0


From cb9dd18720360399cb5f7bb00cfa45cbadd711ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:17 +0000
Subject: [PATCH 35/38] fix: random broadcasts never reached every lifeline,
 and there were panics with a single lifeline

---
 src/experiments/interaction_random_gen/gen.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/experiments/interaction_random_gen/gen.rs b/src/experiments/interaction_random_gen/gen.rs
index 30113be..6dd1ea0 100644
--- a/src/experiments/interaction_random_gen/gen.rs
+++ b/src/experiments/interaction_random_gen/gen.rs
@@ -61,11 +61,12 @@ pub fn generate_random_pattern(signature : &GeneralContext,
     lifelines.shuffle(rng);
     let orig_lf_id = lifelines.pop().unwrap();
     let targets : Vec<EmissionTargetRef> = if is_broadcast {
-        let number_of_targets = rng.gen_range(0..lifelines.len());
+        let number_of_targets = rng.gen_range(0..=lifelines.len());
         lifelines[0..number_of_targets].iter()
             .map(|x| EmissionTargetRef::Lifeline(*x)).collect()
     } else {
-        vec![EmissionTargetRef::Lifeline(lifelines.pop().unwrap())]
+        // without any other lifeline, the message goes to the environment
+        lifelines.pop().into_iter().map(EmissionTargetRef::Lifeline).collect()
     };
     let emission = EmissionAction::new(
         orig_lf_id,
-- 
2.43.0


From 349e615bc0e063412430f8f66feacb1bc1b7cbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:40 +0000
Subject: [PATCH 36/38] fix: symbols of no probability could be drawn by the
 random generation of interactions

---
 src/experiments/interaction_random_gen/probas.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/experiments/interaction_random_gen/probas.rs b/src/experiments/interaction_random_gen/probas.rs
index 985547c..00ec5f7 100644
--- a/src/experiments/interaction_random_gen/probas.rs
+++ b/src/experiments/interaction_random_gen/probas.rs
@@ -71,6 +71,10 @@ impl InteractionSymbolsProbabilities {
             if p < 0.0 - 1e-6 || p > 1.0 + 1e-6 {
                 return Err(InteractionSymbolsProbabilitiesError::SymbolProbabilityMustBeBetweenOAnd1);
             }
+            if p <= 0.0 {
+                // a symbol that has no probability must never be drawn
+                continue;
+            }
             ordered_symbols.push(s);
             sum += p;
             ordered_bounds.push(sum);
-- 
2.43.0


From 75f28adaa2f990c8c8eefc0535cadc81c5d1d247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:27 +0000
Subject: [PATCH 37/38] fix: puml_ap left empty state machines and loops from a
 state that does not exist

---
 src/plantuml/automata_product.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plantuml/automata_product.rs b/src/plantuml/automata_product.rs
index 15d67d6..7a6b0e9 100644
--- a/src/plantuml/automata_product.rs
+++ b/src/plantuml/automata_product.rs
@@ -37,7 +37,7 @@ pub fn to_plant_uml_ap(output_path : &String,
         let projected_int = interaction.eliminate_lifelines(&lfs_to_remove);
         output_file.write( format!("state lf_{} {{\n",lf_name).as_bytes() );
         let (last_state_id,_) = to_plant_uml_ap_rec(&mut output_file, &projected_int, gen_ctx, lf_id, 0, 1);
-        output_file.write( format!("lf{}_s{} --> [*]\n",lf_id,last_state_id).as_bytes() );
+        output_file.write( format!("{} --> [*]\n",get_last_label(lf_id,last_state_id)).as_bytes() );
         output_file.write( "}\n".as_bytes() );
     }
     output_file.write( "@enduml\n".as_bytes() );
@@ -159,7 +159,7 @@ fn to_plant_uml_ap_rec(output_file : &mut File,
             // ***
             let (last,count) =  to_plant_uml_ap_rec(output_file, i1, gen_ctx, lf_id, 0, new_state_count);
             new_state_count = count;
-            output_file.write( format!("lf{}_s{} --> [*]\n",lf_id,last).as_bytes() );
+            output_file.write( format!("{} --> [*]\n",get_last_label(lf_id,last)).as_bytes() );
             // ***
             output_file.write( "}\n".as_bytes() );
             output_file.write(format!("{} --> {}\n", last_state_label, loop_label).as_bytes());
-- 
2.43.0


From 6d237c41de7c50e37495158a29480991fd2c54dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:30 +0000
Subject: [PATCH 38/38] fix: puml_ap panicked on emissions towards gates

---
 src/plantuml/automata_product.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/plantuml/automata_product.rs b/src/plantuml/automata_product.rs
index 7a6b0e9..52be1a9 100644
--- a/src/plantuml/automata_product.rs
+++ b/src/plantuml/automata_product.rs
@@ -20,6 +20,7 @@ use std::io::Write;
 
 use crate::core::general_context::GeneralContext;
 use crate::core::language::eliminate_lf::eliminable::LifelineEliminable;
+use crate::core::language::syntax::action::EmissionTargetRef;
 use crate::core::language::syntax::interaction::Interaction;
 use crate::core::language::syntax::util::get_recursive_frag::*;
 
@@ -56,7 +57,8 @@ fn to_plant_uml_ap_rec(output_file : &mut File,
         },
         &Interaction::Emission(ref em_act) => {
             let ms_name = gen_ctx.get_ms_name(em_act.ms_id).unwrap();
-            match em_act.targets.len() {
+            // gates are no lifelines : what is sent there is simply sent
+            match em_act.targets.iter().filter(|t| matches!(t,EmissionTargetRef::Lifeline(_))).count() {
                 0 => {
                     let transition_label = format!("!{}",ms_name);
                     let new_state_label = format!("lf{}_s{}",lf_id,state_count);
-- 
2.43.0

