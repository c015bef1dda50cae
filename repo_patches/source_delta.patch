From c0889ded198131013bbc74285f36dce29469fe70 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 1/5] fix: take each_bit's parameter by value, as it is a
 lazily started coroutine

Callers pass a SimpleIntegerVariableID, which converts implicitly to a
temporary variant. Where the compiler does not extend the lifetime of
temporaries in a range-for initialiser (P2718), that temporary is gone by the
time the coroutine first runs, so a proof-logging solve read a dead object.
---
 gcs/innards/proofs/names_and_ids_tracker.cc | 2 +-
 gcs/innards/proofs/names_and_ids_tracker.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcs/innards/proofs/names_and_ids_tracker.cc b/gcs/innards/proofs/names_and_ids_tracker.cc
index bfb8ccc..7e804d9 100644
--- a/gcs/innards/proofs/names_and_ids_tracker.cc
+++ b/gcs/innards/proofs/names_and_ids_tracker.cc
@@ -672,7 +672,7 @@ auto NamesAndIDsTracker::negative_bit_coefficient(const SimpleOrProofOnlyInteger
     return it->second.first;
 }
 
-auto NamesAndIDsTracker::each_bit(const SimpleOrProofOnlyIntegerVariableID & id) -> generator<pair<Integer, XLiteral>>
+auto NamesAndIDsTracker::each_bit(const SimpleOrProofOnlyIntegerVariableID id) -> generator<pair<Integer, XLiteral>>
 {
     auto it = _imp->integer_variable_bits_to_size_and_proof_vars.find(id);
     if (it == _imp->integer_variable_bits_to_size_and_proof_vars.end())
diff --git a/gcs/innards/proofs/names_and_ids_tracker.hh b/gcs/innards/proofs/names_and_ids_tracker.hh
index 905f8ed..d7e8bdb 100644
--- a/gcs/innards/proofs/names_and_ids_tracker.hh
+++ b/gcs/innards/proofs/names_and_ids_tracker.hh
@@ -415,7 +415,7 @@ namespace gcs::innards
          * Call the supplied function for each bit making up the given variable, specifying
          * its raw PB literal and coefficient.
          */
-        auto each_bit(const SimpleOrProofOnlyIntegerVariableID &) -> std::generator<std::pair<Integer, XLiteral>>;
+        auto each_bit(const SimpleOrProofOnlyIntegerVariableID) -> std::generator<std::pair<Integer, XLiteral>>;
 
         /**
          * Get the name and coefficient for the bit position in the representation of the given var.
-- 
2.43.0


From 4c13969c259b427f51155ab261984b23f2242c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 2/5] fix: fire refined watches on the idempotence-claim replay
 path too

When any propagator in a round claimed EnableButIdempotent, the round's
inferences were replayed to the coarse triggers only, so a refined watch they
entailed never fired. A propagator relying on refined watches (NegativeTable,
Nogoods) then missed events, and the search could accept an assignment that
violates it.
---
 gcs/innards/propagators.cc | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/gcs/innards/propagators.cc b/gcs/innards/propagators.cc
index ad66471..ee5edbd 100644
--- a/gcs/innards/propagators.cc
+++ b/gcs/innards/propagators.cc
@@ -622,12 +622,7 @@ auto Propagators::propagate(const Literals & guesses, State & state, ProofLogger
         }
     };
 
-    auto requeue = [&](const SimpleIntegerVariableID & v, const Inference inf) {
-        if (v.index < _imp->iv_triggers.size())
-            for (auto & [p, mask] : _imp->iv_triggers[v.index].ids_and_masks)
-                if (mask & (1 << to_underlying(inf)))
-                    enqueue_if_idle(p);
-
+    auto fire_refined_watches = [&](const SimpleIntegerVariableID & v, const Inference inf) {
         // Refined watches: fire any whose literal is now entailed, delivering the
         // payload to its owner and consuming the watch. A watch is only tested when
         // the current inference granularity is in its trigger_mask -- e.g. an `x==v`
@@ -655,19 +650,31 @@ auto Propagators::propagate(const Literals & guesses, State & state, ProofLogger
         }
     };
 
+    auto requeue = [&](const SimpleIntegerVariableID & v, const Inference inf) {
+        if (v.index < _imp->iv_triggers.size())
+            for (auto & [p, mask] : _imp->iv_triggers[v.index].ids_and_masks)
+                if (mask & (1 << to_underlying(inf)))
+                    enqueue_if_idle(p);
+
+        fire_refined_watches(v, inf);
+    };
+
     // A run that claimed idempotence must not be re-woken by any inference it
     // had already seen (everything recorded up to its run's end, its own
     // inferences included): the round-boundary replay uses this variant, with
     // claim_protected flagging the claimants whose runs ended after the
     // inference being replayed, when (and only when) the round produced
     // claims -- the plain requeue above keeps the claim-free hot path free of
-    // the extra load. Refined watches are consumed on their first fire in the
-    // requeue above, so this coarse-only replay does not re-fire them.
+    // the extra load. The exemption covers coarse triggers only: this is the one
+    // time the round's inferences are replayed, so any refined watch they entail
+    // has to fire here too, or its owner never hears about them.
     auto requeue_unless_already_seen = [&](const SimpleIntegerVariableID & v, const Inference inf) {
         if (v.index < _imp->iv_triggers.size())
             for (auto & [p, mask] : _imp->iv_triggers[v.index].ids_and_masks)
                 if ((mask & (1 << to_underlying(inf))) && ! _imp->claim_protected[p])
                     enqueue_if_idle(p);
+
+        fire_refined_watches(v, inf);
     };
 
     // A contradiction or an abort ends a round without replaying it, so a
-- 
2.43.0


From 2939ae8b24ec67a52bae0bc6adf5900ee8b91882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 3/5] fix: restore how many tuples and nogoods have been armed
 along with their watches

NegativeTable and the refined Nogoods propagator recorded having armed their watches in data that
backtracking does not restore. AutoTable's subsearch runs its first propagation inside a search
level of its own, so the watches were undone with it but never armed again.
---
 gcs/constraints/nogoods/nogoods.cc      | 35 ++++++++++++++-----------
 gcs/constraints/table/negative_table.cc | 31 +++++++++-------------
 2 files changed, 31 insertions(+), 35 deletions(-)

diff --git a/gcs/constraints/nogoods/nogoods.cc b/gcs/constraints/nogoods/nogoods.cc
index 85da024..936e2f1 100644
--- a/gcs/constraints/nogoods/nogoods.cc
+++ b/gcs/constraints/nogoods/nogoods.cc
@@ -242,18 +242,21 @@ namespace
                     init_watches_for(ni, *nogoods, *nogood_vars, *initial_scratch, state, inference, logger);
             });
 
-        // High-water mark of nogoods whose two watches have been set up. Catch-up
-        // (below) sets up new clauses only at a root re-propagation -- where the
-        // restart loop re-enters and where the arming/watch_state edits live in the
-        // persistent root epoch (never backtracked between passes) -- so this
-        // non-backtrackable counter stays in step with the restored watches.
-        auto set_up = make_shared<size_t>(0);
-
         propagators.install(
             id,
-            [nogoods, nogood_vars, set_up](
+            [nogoods, nogood_vars](
                 const State & state, auto & inference, ProofLogger * const logger, const RefinedWatchContext & ctx) -> PropagatorState {
                 auto pack = [](size_t a, size_t b) -> std::uint64_t { return (static_cast<std::uint64_t>(a) << 32) | static_cast<std::uint32_t>(b); };
+
+                // watch_state slot 0 is the high-water mark of nogoods whose two watches
+                // have been set up; nogood ni's watched positions are in slot ni + 1. The
+                // mark has to be watch_state like the positions, so that it is restored in
+                // lockstep with the watches: catch-up (below) happens at root
+                // re-propagations, whose epoch persists, but also at the root of a
+                // presolver's subsearch, whose arming is undone again.
+                const std::uint32_t set_up_key = 0;
+                auto key_of = [](size_t ni) -> std::uint32_t { return static_cast<std::uint32_t>(ni + 1); };
+
                 // A non-entailed position other than skip1/skip2 to place a watch on.
                 // A DefinitelyFalse position counts as non-entailed -- a satisfied
                 // clause may rest a watch on it.
@@ -275,7 +278,7 @@ namespace
                     // here (e.g. via an initialise-time entailment) is resolved now, as
                     // the firing path never sees those. Thereafter every entailment goes
                     // through requeue and fires a watch, so fired-only suffices.
-                    for (size_t ni = *set_up; ni < nogoods->size(); ++ni) {
+                    for (size_t ni = ctx.watch_state(set_up_key); ni < nogoods->size(); ++ni) {
                         const auto & nogood = (*nogoods)[ni];
                         const auto & vars = (*nogood_vars)[ni];
                         auto w1 = find_unbroken(nogood, no_watch, no_watch);
@@ -288,15 +291,15 @@ namespace
                             // single watch on the satisfied survivor is enough.
                             inference.infer(logger, ! nogood[*w1], JustifyUsingRUP{}, generic_reason(vars));
                             ctx.watch(nogood[*w1], static_cast<std::uint32_t>(ni));
-                            ctx.set_watch_state(static_cast<std::uint32_t>(ni), pack(*w1, *w1));
+                            ctx.set_watch_state(key_of(ni), pack(*w1, *w1));
                         }
                         else {
                             ctx.watch(nogood[*w1], static_cast<std::uint32_t>(ni));
                             ctx.watch(nogood[*w2], static_cast<std::uint32_t>(ni));
-                            ctx.set_watch_state(static_cast<std::uint32_t>(ni), pack(*w1, *w2));
+                            ctx.set_watch_state(key_of(ni), pack(*w1, *w2));
                         }
                     }
-                    *set_up = nogoods->size();
+                    ctx.set_watch_state(set_up_key, nogoods->size());
                     return PropagatorState::Enable;
                 }
 
@@ -312,7 +315,7 @@ namespace
                 for (size_t ni : fired) {
                     const auto & nogood = (*nogoods)[ni];
                     const auto & vars = (*nogood_vars)[ni];
-                    auto packed = ctx.watch_state(static_cast<std::uint32_t>(ni));
+                    auto packed = ctx.watch_state(key_of(ni));
                     size_t p = static_cast<size_t>(packed >> 32), q = static_cast<size_t>(packed & 0xffffffffu);
 
                     bool b1 = is_broken(nogood, p), b2 = is_broken(nogood, q);
@@ -334,7 +337,7 @@ namespace
                         else {
                             ctx.watch(nogood[*new1], key);
                             ctx.watch(nogood[*new2], key);
-                            ctx.set_watch_state(key, pack(*new1, *new2));
+                            ctx.set_watch_state(key_of(ni), pack(*new1, *new2));
                         }
                     }
                     else if (b1) {
@@ -344,7 +347,7 @@ namespace
                             inference.infer(logger, ! nogood[q], JustifyUsingRUP{}, generic_reason(vars));
                         else {
                             ctx.watch(nogood[*new1], key);
-                            ctx.set_watch_state(key, pack(*new1, q));
+                            ctx.set_watch_state(key_of(ni), pack(*new1, q));
                         }
                     }
                     else {
@@ -354,7 +357,7 @@ namespace
                             inference.infer(logger, ! nogood[p], JustifyUsingRUP{}, generic_reason(vars));
                         else {
                             ctx.watch(nogood[*new2], key);
-                            ctx.set_watch_state(key, pack(p, *new2));
+                            ctx.set_watch_state(key_of(ni), pack(p, *new2));
                         }
                     }
                 }
diff --git a/gcs/constraints/table/negative_table.cc b/gcs/constraints/table/negative_table.cc
index 63a445d..a2a346d 100644
--- a/gcs/constraints/table/negative_table.cc
+++ b/gcs/constraints/table/negative_table.cc
@@ -33,7 +33,6 @@
 using namespace gcs;
 using namespace gcs::innards;
 
-using std::make_shared;
 using std::nullopt;
 using std::optional;
 using std::pair;
@@ -204,10 +203,9 @@ namespace
     // watches, and the unit case just infers and leaves the consumed watch to be
     // restored on backtrack. Hoisted into a named template for the MSVC-C1001 reason
     // noted above (a generic-on-inference lambda nesting further lambdas).
-    template <typename Vars_, typename Tuples_, typename SetUp_, typename Owner_, typename Inference_>
-    auto propagate_negative_table_refined(const Vars_ & vars, const Tuples_ & tuples, const SetUp_ & set_up, const Owner_ & owner,
-        const Reason & reason, const State & state, Inference_ & inference, ProofLogger * const logger, const RefinedWatchContext & ctx)
-        -> PropagatorState
+    template <typename Vars_, typename Tuples_, typename Owner_, typename Inference_>
+    auto propagate_negative_table_refined(const Vars_ & vars, const Tuples_ & tuples, const Owner_ & owner, const Reason & reason,
+        const State & state, Inference_ & inference, ProofLogger * const logger, const RefinedWatchContext & ctx) -> PropagatorState
     {
         const auto & tuple_data = depointinate(tuples);
         auto pack = [](size_t a, size_t b) -> std::uint64_t { return (static_cast<std::uint64_t>(a) << 32) | static_cast<std::uint32_t>(b); };
@@ -227,10 +225,12 @@ namespace
 
         if (ctx.fired_payloads().empty()) {
             // First (root) run -- the only time this propagator runs un-fired: arm two
-            // watches for every tuple not yet set up (all of them, once). This arming
-            // lives in the persistent root epoch, so the non-backtrackable set_up
-            // counter stays in step with the restored watches across restarts.
-            for (size_t ti = *set_up; ti < tuple_data.size(); ++ti) {
+            // watches for every tuple not yet set up (all of them, once). How many have
+            // been set up is itself watch_state, so it is restored in lockstep with the
+            // watches: a run inside a presolver's subsearch is undone along with its
+            // arming, whereas one at the root persists across restarts.
+            const auto set_up_key = static_cast<std::uint32_t>(tuple_data.size());
+            for (size_t ti = ctx.watch_state(set_up_key); ti < tuple_data.size(); ++ti) {
                 const auto & t = tuple_data[ti];
                 auto key = static_cast<std::uint32_t>(ti);
                 auto w1 = find_unbroken(t, no_watch, no_watch);
@@ -248,7 +248,7 @@ namespace
                     ctx.set_watch_state(key, pack(*w1, *w2));
                 }
             }
-            *set_up = tuple_data.size();
+            ctx.set_watch_state(set_up_key, tuple_data.size());
             return PropagatorState::Enable;
         }
 
@@ -315,13 +315,6 @@ namespace
 
 auto NegativeTable::install_propagators(Propagators & propagators) -> void
 {
-    // High-water mark of tuples whose two watches have been armed. Advanced once, in
-    // the propagator's first (root) run; non-backtrackable, but the arming lives in
-    // the persistent root epoch, so it stays in step with the restored watches. (For
-    // this static tuple set it just goes 0 -> size once; the counter matters only so
-    // a restart-root re-propagation does not re-arm.)
-    auto set_up = make_shared<size_t>(0);
-
     // The reason ranges over the fixed variable scope, so build it once here and
     // share it between the initialiser and the propagator rather than rebuilding
     // it on every wake (see dev_docs/propagator-performance.md).
@@ -356,9 +349,9 @@ auto NegativeTable::install_propagators(Propagators & propagators) -> void
 
             propagators.install(
                 constraint_id(),
-                [vars = move(_vars), tuples = move(tuples), set_up = set_up, owner = constraint_id(), reason = std::move(table_reason)](
+                [vars = move(_vars), tuples = move(tuples), owner = constraint_id(), reason = std::move(table_reason)](
                     const State & state, auto & inference, ProofLogger * const logger, const RefinedWatchContext & ctx) -> PropagatorState {
-                    return propagate_negative_table_refined(vars, tuples, set_up, owner, reason, state, inference, logger, ctx);
+                    return propagate_negative_table_refined(vars, tuples, owner, reason, state, inference, logger, ctx);
                 },
                 std::move(scope_triggers));
         },
-- 
2.43.0


From 2be1f8000c6ed01c678a9a4807bcc8cebb2bde33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:57 +0000
Subject: [PATCH 4/5] fix: report integers in regular expressions that are out
 of range, and end class ranges at the largest integer

---
 gcs/constraints/regular/regex.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gcs/constraints/regular/regex.cc b/gcs/constraints/regular/regex.cc
index 75d057f..db2f398 100644
--- a/gcs/constraints/regular/regex.cc
+++ b/gcs/constraints/regular/regex.cc
@@ -1,5 +1,6 @@
 #include <gcs/constraints/regular/regex.hh>
 #include <gcs/exception.hh>
+#include <gcs/innards/integer_overflow.hh>
 
 #include <cstddef>
 #include <map>
@@ -13,6 +14,8 @@
 
 using gcs::Integer;
 using gcs::InvalidProblemDefinitionException;
+using gcs::innards::add_overflows;
+using gcs::innards::mul_overflows;
 
 using std::make_unique;
 using std::map;
@@ -72,7 +75,8 @@ namespace
             if (c >= '0' && c <= '9') {
                 long long value = 0;
                 while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
-                    value = value * 10 + (s[i] - '0');
+                    if (mul_overflows(value, 10ll, &value) || add_overflows(value, static_cast<long long>(s[i] - '0'), &value))
+                        throw InvalidProblemDefinitionException("Integer out of range in regular expression");
                     ++i;
                 }
                 tokens.push_back({Tok::Integer, Integer{value}});
@@ -344,8 +348,10 @@ namespace
                     auto to = expect(Tok::Integer, "an integer after '-' in a class").value;
                     if (to < from)
                         std::swap(from, to);
-                    for (auto val = from; val <= to; ++val)
+                    // Not ++val past to, which may be the largest value there is.
+                    for (auto val = from; val < to; ++val)
                         items.insert(val);
+                    items.insert(to);
                 }
                 else
                     items.insert(from);
-- 
2.43.0


From b0b3b5c504940e85a6fe496d1042bdbe1ceb6b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:56 +0000
Subject: [PATCH 5/5] fix: reject unknown operators that merely begin like
 known ones in the .scp reader

---
 gcs/scp_reader.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gcs/scp_reader.cc b/gcs/scp_reader.cc
index bc7bfc7..7b034b0 100644
--- a/gcs/scp_reader.cc
+++ b/gcs/scp_reader.cc
@@ -263,6 +263,8 @@ namespace
         bool vars_swapped = op.starts_with("greater_");
         string rest = op.substr(vars_swapped ? sizeof("greater_") - 1 : sizeof("less_") - 1);
         bool or_equal = rest.starts_with("equal");
+        if (! or_equal && ! rest.starts_with("than"))
+            throw ScpUnsupportedConstraintError{op};
         rest = rest.substr(or_equal ? sizeof("equal") - 1 : sizeof("than") - 1);
         // `rest` is now "" (unconditional), "_if" (half-reified) or "_iff".
 
@@ -308,8 +310,12 @@ namespace
     {
         string rest = op.substr(sizeof("lex_") - 1);
         bool vars_swapped = ! rest.starts_with("greater_");
+        if (vars_swapped && ! rest.starts_with("less_"))
+            throw ScpUnsupportedConstraintError{op};
         rest = rest.substr(vars_swapped ? sizeof("less_") - 1 : sizeof("greater_") - 1);
         bool or_equal = rest.starts_with("equal");
+        if (! or_equal && ! rest.starts_with("than"))
+            throw ScpUnsupportedConstraintError{op};
         rest = rest.substr(or_equal ? sizeof("equal") - 1 : sizeof("than") - 1);
         // `rest` is now "" / "_not" (no condition term) or "_if" / "_iff" /
         // "_not_if" (a (cond) term at terms[2]).
@@ -361,6 +367,9 @@ namespace
         bool half = ! iff && op.ends_with("_if");
         bool reified = iff || half;
 
+        auto keyword = op.substr(0, op.size() - (iff ? sizeof("_iff") - 1 : half ? sizeof("_if") - 1 : 0));
+        if (keyword != "lin_less_equal" && keyword != "lin_equals" && keyword != "lin_not_equals")
+            throw ScpUnsupportedConstraintError{op};
         if (terms.size() != (reified ? 5u : 4u))
             throw ScpReadError{"linear constraint '" + op + "' has the wrong number of parts"};
 
@@ -399,6 +408,9 @@ namespace
         bool half = ! iff && op.ends_with("_if");
         bool reified = iff || half;
 
+        auto keyword = op.substr(0, op.size() - (iff ? sizeof("_iff") - 1 : half ? sizeof("_if") - 1 : 0));
+        if (keyword != "equals" && keyword != "not_equals")
+            throw ScpUnsupportedConstraintError{op};
         if (terms.size() != (reified ? 5u : 4u))
             throw ScpReadError{"equals constraint '" + op + "' is (label op [(cond)] v1 v2)"};
         std::size_t v1_index = reified ? 3 : 2;
-- 
2.43.0

