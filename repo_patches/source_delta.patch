From 17ed6933db89806149ee7cf69a10d2d0b8e48b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:51 +0000
Subject: [PATCH 01/50] fix: flag computed reactions as unbalanced when
 balancing finds no solution

---
 src/rxn_network/reactions/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 668b91b..eff9eab 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -67,6 +67,8 @@ class BasicReaction(Reaction):
 
         if balanced is not None:
             self.balanced = balanced
+        elif lowest_num_errors == np.inf:  # no solution was found when balancing
+            self.balanced = False
         else:
             sum_reactants = sum([k * abs(v) for k, v in self.reactant_coeffs.items()], Composition({}))
             sum_products = sum([k * abs(v) for k, v in self.product_coeffs.items()], Composition({}))
-- 
2.43.0


From 44176b8851cf9a622be9dae88435d934a9ed9860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:51 +0000
Subject: [PATCH 02/50] fix: weight product atomic fractions of open reactions
 by their coefficients

---
 src/rxn_network/reactions/open.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index 70c8e5d..d6855b2 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -197,7 +197,7 @@ class OpenComputedReaction(ComputedReaction):
             raise ValueError("Reaction is not balanced")
 
         return {
-            c.reduced_composition: sum(c[el] for el in self.elements) / self.num_atoms
+            c.reduced_composition: coeff * sum(c[el] for el in self.elements) / self.num_atoms
             for c, coeff in self.product_coeffs.items()
         }
 
-- 
2.43.0


From eb572bc879ef15897126383e03ef8034c9e83ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:51 +0000
Subject: [PATCH 03/50] fix: keep chemical potentials when normalizing open
 reactions

---
 src/rxn_network/reactions/open.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index d6855b2..16f990c 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -179,6 +179,28 @@ class OpenComputedReaction(ComputedReaction):
             self.lowest_num_errors,
         )
 
+    def normalize_to(self, comp: Composition, factor: float = 1) -> OpenComputedReaction:
+        """Normalizes the reaction to one of the compositions via the provided factor.
+
+        See ComputedReaction.normalize_to().
+
+        Args:
+            comp: Composition object to normalize to
+            factor: factor to normalize to. Defaults to 1.
+        """
+        return self.from_computed_rxn(super().normalize_to(comp, factor), self.chempots)
+
+    def normalize_to_element(self, element: Element, factor: float = 1) -> OpenComputedReaction:
+        """Normalizes the reaction to one of the elements.
+
+        See ComputedReaction.normalize_to_element().
+
+        Args:
+            element (Element/Species): Element to normalize to.
+            factor (float): Factor to normalize to. Defaults to 1.
+        """
+        return self.from_computed_rxn(super().normalize_to_element(element, factor), self.chempots)
+
     @cached_property
     def reactant_atomic_fractions(self) -> dict:
         """Returns the atomic mixing ratio of reactants in the reaction."""
-- 
2.43.0


From 4b758c7ffcae3def8bb7d2b92341a4ce2d012f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:51 +0000
Subject: [PATCH 04/50] fix: compare coefficients phase by phase in reaction
 equality

---
 src/rxn_network/reactions/basic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index eff9eab..236c5ac 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -478,7 +478,12 @@ class BasicReaction(Reaction):
         if not set(self.reactants) == set(other.reactants):
             return False
 
-        return set(self.products) == set(other.products)
+        if not set(self.products) == set(other.products):
+            return False
+
+        return all(np.isclose(coeff, other.reactant_coeffs[c]) for c, coeff in self.reactant_coeffs.items()) and all(
+            np.isclose(coeff, other.product_coeffs[c]) for c, coeff in self.product_coeffs.items()
+        )
 
     def __hash__(self):
         return hash(
-- 
2.43.0


From 27bf1c596b4118c254885d1ec8e0658087b3ffaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:51 +0000
Subject: [PATCH 05/50] fix: recognize common gases and reactant targets in
 is_separable

---
 src/rxn_network/reactions/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 236c5ac..4cd6a97 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -214,11 +214,11 @@ class BasicReaction(Reaction):
         products = set(deepcopy(self.products))
 
         for t in identified_targets:
-            products.remove(t)
+            products.discard(t)
 
         are_separable = []
         for comp in products:
-            if comp in COMMON_GASES or added_elems.issuperset(comp.elements):
+            if comp.reduced_formula in COMMON_GASES or added_elems.issuperset(comp.elements):
                 are_separable.append(True)
             else:
                 are_separable.append(False)
-- 
2.43.0


From 5dbee734336e76b65e5d28441359fad87243f2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:51 +0000
Subject: [PATCH 06/50] fix: parse positive exponents in reaction strings

---
 src/rxn_network/reactions/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 4cd6a97..67990ea 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -280,7 +280,7 @@ class BasicReaction(Reaction):
         def get_comp_amt(comp_str):
             return {
                 Composition(m.group(2)): float(m.group(1) or 1)
-                for m in re.finditer(r"([\d\.]*(?:[eE]-?[\d\.]+)?)\s*([A-Z][\w\.\(\)]*)", comp_str)
+                for m in re.finditer(r"([\d\.]*(?:[eE][+-]?[\d\.]+)?)\s*([A-Z][\w\.\(\)]*)", comp_str)
             }
 
         reactant_coeffs = get_comp_amt(rct_str)
-- 
2.43.0


From 20b897a761ee24a26b9c64ecaa4ac629adc18cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:51 +0000
Subject: [PATCH 07/50] fix: let open reactions change temperature without
 precomputed entries, and leave the dict given to from_dict unchanged

---
 src/rxn_network/reactions/open.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index 16f990c..617913f 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -104,7 +104,9 @@ class OpenComputedReaction(ComputedReaction):
 
         return ComputedReaction(**kwargs) if not chempots else cls(chempots=chempots, **kwargs)
 
-    def get_new_temperature(self, new_temperature: float, entries_at_temp: dict | None) -> OpenComputedReaction:
+    def get_new_temperature(
+        self, new_temperature: float, entries_at_temp: dict | None = None
+    ) -> OpenComputedReaction:
         """Returns a new reaction with the temperature changed.
 
         Args:
@@ -251,7 +253,7 @@ class OpenComputedReaction(ComputedReaction):
     @classmethod
     def from_dict(cls, d) -> OpenComputedReaction:
         """Returns an OpenComputedReaction object from a dictionary representation."""
-        d["chempots"] = {Element(symbol): u for symbol, u in d["chempots"].items()}
+        d = {**d, "chempots": {Element(symbol): u for symbol, u in d["chempots"].items()}}
         return super().from_dict(d)
 
     def __repr__(self) -> str:
-- 
2.43.0


From ad22fc79fc5e0975bc5ba433cc5b369f5fb2a7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 08/50] fix: accept integer coefficients in reactions

---
 src/rxn_network/reactions/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 67990ea..94ac08b 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -56,7 +56,7 @@ class BasicReaction(Reaction):
                 phases may be shuffled or removed entirely).
         """
         self._compositions = [Composition(c) for c in compositions]
-        self._coefficients = np.array(coefficients)
+        self._coefficients = np.array(coefficients, dtype=float)
 
         self.reactant_coeffs = {
             comp: coeff for comp, coeff in zip(self._compositions, self._coefficients, strict=False) if coeff < 0
-- 
2.43.0


From c54d63d24d9058c5826fe035ee191a36bf09dc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:30 +0000
Subject: [PATCH 09/50] fix: find reactions by product for the first entry and
 for all polymorphs, and return an empty set when nothing matches

---
 src/rxn_network/reactions/reaction_set.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index a8ef34e..a653980 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -343,7 +343,7 @@ class ReactionSet(MSONable):
             {idx for idx, e in enumerate(self.entries) if e.composition.reduced_formula in reactants}
         )
 
-        if not reactant_indices:
+        if not reactant_indices and not return_set:
             return []
 
         idxs = {}  # type: ignore
@@ -375,19 +375,15 @@ class ReactionSet(MSONable):
         """
         product = Composition(product).reduced_formula
 
-        product_index = None
-        for idx, e in enumerate(self.entries):
-            if e.composition.reduced_formula == product:
-                product_index = idx
-                break
+        product_indices = {idx for idx, e in enumerate(self.entries) if e.composition.reduced_formula == product}
 
-        if not product_index:
+        if not product_indices and not return_set:
             return []
 
         idxs = {}  # type: ignore
         for size, indices in self.indices.items():
             idxs[size] = []
-            contains_product = np.isin(indices, product_index).any(axis=1)
+            contains_product = np.isin(indices, list(product_indices)).any(axis=1)
 
             for idx, coeffs, indices in zip(
                 np.argwhere(contains_product).flatten(),
@@ -395,7 +391,7 @@ class ReactionSet(MSONable):
                 self.indices[size][contains_product], strict=False,
             ):
                 p_indices = {i for c, i in zip(coeffs, indices, strict=False) if c > -1e-12}
-                if product_index in p_indices:
+                if product_indices & p_indices:
                     idxs[size].append(idx)
 
         if return_set:
-- 
2.43.0


From 2ee8d08a58a5e181064a067949c3d1a4f6b3be4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:30 +0000
Subject: [PATCH 10/50] fix: filter duplicates in parallel on a single CPU

---
 src/rxn_network/reactions/reaction_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index a653980..e6f12b6 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -421,7 +421,7 @@ class ReactionSet(MSONable):
         if parallelize:
             if not ray.is_initialized():
                 initialize_ray()
-            num_cpus = int(ray.cluster_resources()["CPU"]) - 1
+            num_cpus = max(int(ray.cluster_resources()["CPU"]) - 1, 1)
             chunk_refs = []
 
         ensure_idxs = {size: [] for size in self.indices}  # type: ignore
-- 
2.43.0


From 2aca50612420e3838aaed03703e32de664f7eeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:30 +0000
Subject: [PATCH 11/50] fix: yield the reactions of a reaction set created
 without data

---
 src/rxn_network/reactions/reaction_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index e6f12b6..d75311d 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -66,7 +66,7 @@ class ReactionSet(MSONable):
         self.open_elem = open_elem
         self.chempot = chempot
         if all_data is None:
-            self.all_data = {int(i): np.array([]) for i in self.indices}
+            self.all_data = {int(i): np.array([{} for _ in idxs]) for i, idxs in self.indices.items()}
         else:
             self.all_data = all_data
 
-- 
2.43.0


From ccd880e6b5f4b920cc93025a73c633a6fdc25dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:30 +0000
Subject: [PATCH 12/50] fix: keep the shape of empty groups when loading a
 reaction set

---
 src/rxn_network/reactions/reaction_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index d75311d..0540c0d 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -73,12 +73,12 @@ class ReactionSet(MSONable):
         if not all(isinstance(k, int) for k in self.indices) or not all(
             isinstance(v, np.ndarray) for v in self.indices.values()
         ):
-            self.indices = {int(size): np.array(arr) for size, arr in self.indices.items()}
+            self.indices = {int(size): np.array(arr).reshape(-1, int(size)) for size, arr in self.indices.items()}
 
         if not all(isinstance(k, int) for k in self.coeffs) or not all(
             isinstance(v, np.ndarray) for v in self.coeffs.values()
         ):
-            self.coeffs = {int(size): np.array(arr) for size, arr in self.coeffs.items()}
+            self.coeffs = {int(size): np.array(arr).reshape(-1, int(size)) for size, arr in self.coeffs.items()}
 
         if not all(isinstance(k, int) for k in self.all_data) or not all(
             isinstance(v, np.ndarray) for v in self.all_data.values()
-- 
2.43.0


From 9b9fe385d232537210987014b5337036fc210d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:30 +0000
Subject: [PATCH 13/50] fix: keep polymorphs apart when changing the
 temperature of a reaction set

---
 src/rxn_network/reactions/reaction_set.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index 0540c0d..c2d8ef9 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -535,12 +535,9 @@ class ReactionSet(MSONable):
         Returns:
             The new ReactionSet containing the recalculated reactions.
         """
-        new_rxns = []
-        entries = {e.composition: e.get_new_temperature(new_temp) for e in self.entries}
-        for rxn in tqdm(list(self.get_rxns())):
-            new_rxns.append(rxn.get_new_temperature(new_temp, entries))
+        entries = [e.get_new_temperature(new_temp) for e in self.entries]
 
-        return ReactionSet.from_rxns(new_rxns, open_elem=self.open_elem, chempot=self.chempot)
+        return ReactionSet(entries, self.indices, self.coeffs, self.open_elem, self.chempot, self.all_data)
 
     def compute_at_temperatures(self, temp_list: list[int]) -> dict[int, ReactionSet]:
         """Recomputes reaction energies at each temperature in a list of temperatures.
@@ -554,15 +551,9 @@ class ReactionSet(MSONable):
                 A mapping of temperature to `ReactionSet` with reaction energies computed at
                 that temperature.
         """
-        all_rxns = list(self.get_rxns())
         result = {}
         for t in tqdm(temp_list, desc="Computing reaction energies..."):
-            new_rxns = []
-            entries = {e.composition: e.get_new_temperature(t) for e in self.entries}
-            for rxn in all_rxns:
-                new_rxns.append(rxn.get_new_temperature(t, entries))
-
-            result[t] = ReactionSet.from_rxns(new_rxns, open_elem=self.open_elem, chempot=self.chempot)
+            result[t] = self.set_new_temperature(t)
         return result
 
     def _get_rxns_by_indices(self, idxs) -> Iterable[ComputedReaction | OpenComputedReaction]:
-- 
2.43.0


From 2fd9ad5e02dcb2971a2b34e02aaec59963d4e8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:16 +0000
Subject: [PATCH 14/50] fix: order polymorphs deterministically in reaction
 sets and report missing ensured reactions

---
 src/rxn_network/reactions/reaction_set.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index c2d8ef9..a328d1f 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -123,7 +123,10 @@ class ReactionSet(MSONable):
         if not entries:
             entries = cls._get_unique_entries(rxns)
 
-        entries = sorted(set(entries), key=lambda r: r.composition)
+        # polymorphs are ordered by ID so that the order does not depend on the set
+        entries = sorted(
+            set(entries), key=lambda e: (e.composition, str(e.unique_id if hasattr(e, "unique_id") else e.entry_id))
+        )
 
         # need to index by unique ID in case mixing different temperatures
         all_entry_indices = {}
@@ -434,6 +437,9 @@ class ReactionSet(MSONable):
 
             size = len(rxn_idxs)
 
+            if size not in self.indices:
+                raise ValueError(f"{rxn} not found in ReactionSet!")
+
             # filter by first column to save some time (full filter is long)
             quick_filter = np.argwhere(rxn_idxs[0] == self.indices[size][:, 0]).flatten()
 
-- 
2.43.0


From cec0b03561f2d322e382665b860243e1528d2c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 15/50] fix: accept float temperatures in Gibbs entries

---
 src/rxn_network/entries/gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/gibbs.py b/src/rxn_network/entries/gibbs.py
index aaecfa8..639a385 100644
--- a/src/rxn_network/entries/gibbs.py
+++ b/src/rxn_network/entries/gibbs.py
@@ -208,7 +208,7 @@ class GibbsComputedEntry(ComputedEntry):
                 )
                 sum_g_i += amt * g_interp(temperature)
         else:
-            sum_g_i = sum(amt * G_ELEMS[str(temperature)][elem] for elem, amt in elems.items())
+            sum_g_i = sum(amt * G_ELEMS[str(int(temperature))][elem] for elem, amt in elems.items())
 
         return sum_g_i
 
-- 
2.43.0


From e210ac172ec1fee2567c15e80c18c8a839feeee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 16/50] fix: re-evaluate exactly the temperature-dependent
 adjustments at a new temperature

---
 src/rxn_network/entries/experimental.py | 3 ++-
 src/rxn_network/entries/gibbs.py        | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/experimental.py b/src/rxn_network/entries/experimental.py
index 919e021..1d8a666 100644
--- a/src/rxn_network/entries/experimental.py
+++ b/src/rxn_network/entries/experimental.py
@@ -80,7 +80,8 @@ class ExperimentalReferenceEntry(ComputedEntry):
         """
         new_entry_dict = self.as_dict()
         for adj in new_entry_dict["energy_adjustments"]:
-            adj["temp"] = new_temperature
+            if "temp" in adj:
+                adj["temp"] = new_temperature
         new_entry_dict["temperature"] = new_temperature
 
         return self.from_dict(new_entry_dict)
diff --git a/src/rxn_network/entries/gibbs.py b/src/rxn_network/entries/gibbs.py
index 639a385..74b96d9 100644
--- a/src/rxn_network/entries/gibbs.py
+++ b/src/rxn_network/entries/gibbs.py
@@ -130,6 +130,9 @@ class GibbsComputedEntry(ComputedEntry):
             temperature.
         """
         new_entry_dict = self.as_dict()
+        for adj in new_entry_dict["energy_adjustments"]:
+            if "temp" in adj:
+                adj["temp"] = new_temperature
         new_entry_dict["temperature"] = new_temperature
 
         return self.from_dict(new_entry_dict)
-- 
2.43.0


From e11f46ce782446dab6b76f7968a60328971ba7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 17/50] fix: keep the class of interpolated entries when
 changing temperature

---
 src/rxn_network/entries/interpolated.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/interpolated.py b/src/rxn_network/entries/interpolated.py
index c0d8362..1ee173d 100644
--- a/src/rxn_network/entries/interpolated.py
+++ b/src/rxn_network/entries/interpolated.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+from copy import deepcopy
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -92,7 +93,7 @@ class InterpolatedEntry(ComputedEntry):
             "It is not possible to get a new temperature for interpolated entries"
             "(one must recalculate from the phase diagram). Instead, this returns a copy of the opriginal entry."
         )
-        return self.copy()
+        return deepcopy(self)
 
     @property
     def unique_id(self) -> str:
-- 
2.43.0


From 39b4f1338c2b1853e5358074bca03449aadc85c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 18/50] fix: judge separability of open reactions by the
 elements of the target

---
 src/rxn_network/reactions/basic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 94ac08b..44bc8bb 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -210,7 +210,6 @@ class BasicReaction(Reaction):
         if len(identified_targets) == 0:
             raise ValueError(f"Target composition {target} not in reaction {self}")
 
-        added_elems = set(self.elements) - set(target.elements)
         products = set(deepcopy(self.products))
 
         for t in identified_targets:
@@ -218,7 +217,7 @@ class BasicReaction(Reaction):
 
         are_separable = []
         for comp in products:
-            if comp.reduced_formula in COMMON_GASES or added_elems.issuperset(comp.elements):
+            if comp.reduced_formula in COMMON_GASES or set(target.elements).isdisjoint(comp.elements):
                 are_separable.append(True)
             else:
                 are_separable.append(False)
-- 
2.43.0


From 448ce92167c9cb0b77d376aecb68f72eb4365df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:21 +0000
Subject: [PATCH 19/50] fix: apply the chemical system filter to every
 predicted reaction

---
 src/rxn_network/enumerators/basic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rxn_network/enumerators/basic.py b/src/rxn_network/enumerators/basic.py
index 17e0c4a..705503c 100644
--- a/src/rxn_network/enumerators/basic.py
+++ b/src/rxn_network/enumerators/basic.py
@@ -159,6 +159,8 @@ class BasicEnumerator(Enumerator):
         if not open_combos:
             open_combos = []
 
+        open_elems = {str(el) for e in open_entries for el in e.composition.elements}
+
         precursors = ray.put(precursors)
         targets = ray.put(targets)
         react_function = ray.put(self._react_function)
@@ -267,6 +269,10 @@ class BasicEnumerator(Enumerator):
         ):
             results.extend(completed)
 
+        if self.filter_by_chemsys:  # a predicted reaction may not involve all of the reactants
+            required_elems = set(self.filter_by_chemsys.split("-")) - open_elems
+            results = [r for r in results if required_elems.issubset({str(el) for el in r.elements})]
+
         return ReactionSet.from_rxns(results, entries=entries, filter_duplicates=self.filter_duplicates)
 
     @classmethod
-- 
2.43.0


From f45fa9d76ec39ff54943e51fb994728cb67470df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:10 +0000
Subject: [PATCH 20/50] fix: k-shortest paths search missed and repeated paths
 (root path, parallel edges, loops)

---
 src/rxn_network/network/network.py | 37 +++++++++++++++++-------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/rxn_network/network/network.py b/src/rxn_network/network/network.py
index a4e7ffa..9b2c153 100644
--- a/src/rxn_network/network/network.py
+++ b/src/rxn_network/network/network.py
@@ -253,7 +253,7 @@ class ReactionNetwork(Network):
 
         for step, node in enumerate(path):
             if g.get_node_data(node).description.value == NetworkEntryType.Products.value:
-                e = g.get_edge_data(path[step - 1], node)
+                e = get_cheapest_edge(g, path[step - 1], node, cf)
 
                 rxns.append(e)
                 costs.append(get_edge_weight(e, cf))
@@ -344,6 +344,18 @@ def get_edge_weight(edge_obj: object, cf: CostFunction):
     raise ValueError("Unknown edge type")
 
 
+def get_cheapest_edge(g: rx.PyDiGraph, source: int, target: int, cf: CostFunction):
+    """Returns the lowest-cost edge among all (parallel) edges between two nodes.
+
+    Args:
+        g: The graph of the reaction network
+        source: Index of the source node
+        target: Index of the target node
+        cf: Cost function for evaluating edge weights
+    """
+    return min(g.get_all_edge_data(source, target), key=lambda e: get_edge_weight(e, cf))
+
+
 def yens_ksp(
     g: rx.PyGraph,
     cf: CostFunction,
@@ -375,15 +387,13 @@ def yens_ksp(
         """Calculates path cost given a list of nodes."""
         cost = 0
         for j in range(len(nodes) - 1):
-            cost += get_edge_weight(g.get_edge_data(nodes[j], nodes[j + 1]), cf)
+            cost += get_edge_weight(get_cheapest_edge(g, nodes[j], nodes[j + 1], cf), cf)
         return cost
 
     def get_edge_weight_with_cf(edge_obj):
         """Includes user-specified cost function in function call."""
         return get_edge_weight(edge_obj, cf)
 
-    g = g.copy()
-
     shortest_paths = rx.dijkstra_shortest_paths(
         g, precursors_node, target_node, weight_fn=get_edge_weight_with_cf
     )
@@ -409,24 +419,19 @@ def yens_ksp(
             spur_node = prev_path[i]
             root_path = prev_path[:i]
 
-            removed_edges = []
+            # paths must be loopless, and must not follow an already known path with the same root
+            spur_graph = g.copy()
+            spur_graph.remove_nodes_from(root_path)
 
             for path in a:
-                if len(path) - 1 > i and root_path == path[:i]:
-                    try:
-                        e = g.get_edge_data(path[i], path[i + 1])
-                    except rx.NoEdgeBetweenNodes:
-                        continue
-
-                    g.remove_edge(path[i], path[i + 1])
-                    removed_edges.append((path[i], path[i + 1], e))
+                if path[: i + 1] == prev_path[: i + 1]:
+                    while spur_graph.has_edge(path[i], path[i + 1]):
+                        spur_graph.remove_edge(path[i], path[i + 1])
 
             spur_path = rx.dijkstra_shortest_paths(  # type: ignore
-                g, spur_node, target_node, weight_fn=get_edge_weight_with_cf
+                spur_graph, spur_node, target_node, weight_fn=get_edge_weight_with_cf
             )
 
-            g.add_edges_from(removed_edges)
-
             if spur_path:
                 total_path = list(root_path) + list(spur_path[target_node])
                 total_path_cost = path_cost(total_path)
-- 
2.43.0


From 4173d3f9f3a3036bc12b494086fb6d016aba8e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:10 +0000
Subject: [PATCH 21/50] fix: loopback edges of earlier precursors remained in
 the network and others were duplicated

---
 src/rxn_network/network/network.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rxn_network/network/network.py b/src/rxn_network/network/network.py
index 9b2c153..6d44b5b 100644
--- a/src/rxn_network/network/network.py
+++ b/src/rxn_network/network/network.py
@@ -150,6 +150,11 @@ class ReactionNetwork(Network):
 
         precursors_node = g.add_node(precursors_entry)
 
+        # loopback edges depend on the precursors and are all re-determined below
+        for idx, (_, _, edge) in list(g.edge_index_map().items()):
+            if isinstance(edge, str) and edge == "loopback_edge":
+                g.remove_edge_from_index(idx)
+
         edges_to_add = []
         for node in g.node_indices():
             entry = g.get_node_data(node)
@@ -162,6 +167,9 @@ class ReactionNetwork(Network):
                 for node2 in g.node_indices():
                     entry2 = g.get_node_data(node2)
                     if entry2.description.value == NetworkEntryType.Reactants.value:
+                        if entry.entries == entry2.entries:
+                            edges_to_add.append((node, node2, "loopback_edge"))
+                            continue
                         if precursors.issuperset(entry2.entries):
                             continue
                         if precursors.union(entry.entries).issuperset(entry2.entries):
-- 
2.43.0


From 7a3b0abecaf586566bf6b306c6ea544a40729c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:10 +0000
Subject: [PATCH 22/50] fix: rebuilding a network left precursors and target
 set without their nodes

---
 src/rxn_network/network/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rxn_network/network/network.py b/src/rxn_network/network/network.py
index 6d44b5b..07fc85b 100644
--- a/src/rxn_network/network/network.py
+++ b/src/rxn_network/network/network.py
@@ -85,6 +85,8 @@ class ReactionNetwork(Network):
         logger.info(f"Built graph with {g.num_nodes()} nodes and {g.num_edges()} edges")
 
         self._g = g  # type: ignore
+        self._precursors = None
+        self._target = None
 
     def find_pathways(self, targets: list[Entry | str], k: int = 15) -> list[BasicPathway]:
         """Find the k-shortest paths to a provided list of one or more targets.
-- 
2.43.0


From e2cfd697bfc4df1b7428c74afbd49528aea99a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:55 +0000
Subject: [PATCH 23/50] fix: keep the grand potential reactions found between
 intermediates

---
 src/rxn_network/pathways/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 4fae0d4..5d38aab 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -391,7 +391,7 @@ class PathwaySolver(Solver):
                     mu=self.chempot,
                     targets=target_formulas,
                 )
-                rxn_set.add_rxn_set(mgpe.enumerate(intermediates))
+                rxn_set = rxn_set.add_rxn_set(mgpe.enumerate(intermediates))
 
         rxns = list(filter(lambda x: x.energy_per_atom < energy_cutoff, rxn_set))
         rxns = [r for r in rxns if all(e in intermediates for e in r.entries)]
-- 
2.43.0


From 516affff792634aa0362554bdf04e81ab4f2a6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:55 +0000
Subject: [PATCH 24/50] fix: solve pathways on one CPU, with few candidate
 reactions and without solutions

---
 src/rxn_network/pathways/solver.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 5d38aab..58aebd3 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -198,24 +198,24 @@ class PathwaySolver(Solver):
                     costs.append(c)
 
         clean_r_set = ReactionSet.from_rxns(reactions, filter_duplicates=True)
-        cleaned_reactions, cleaned_costs = zip(
-            *[(r, c) for r, c in zip(reactions, costs, strict=False) if r in clean_r_set and r != net_rxn], strict=False
-        )
+        cleaned = [(r, c) for r, c in zip(reactions, costs, strict=False) if r in clean_r_set and r != net_rxn]
+        cleaned_reactions = tuple(r for r, _ in cleaned)
+        cleaned_costs = tuple(c for _, c in cleaned)
 
         net_rxn_vector = net_rxn.get_entry_idx_vector(num_entries)
 
         num_rxns = len(cleaned_reactions)
         num_cpus = ray.cluster_resources()["CPU"]
-        batch_size = self.batch_size or num_cpus - 1
+        batch_size = self.batch_size or max(num_cpus - 1, 1)
 
         net_coeff_filter = np.argwhere(net_rxn_vector != 0).flatten()
         net_coeff_filter = ray.put(net_coeff_filter)
         cleaned_reactions_ref = ray.put(cleaned_reactions)
 
-        comp_matrices = {n: [] for n in range(1, max_num_combos + 1)}  # type: ignore
+        comp_matrices = {n: [] for n in range(1, min(max_num_combos, num_rxns) + 1)}  # type: ignore
         comp_matrices_refs_dict = {}  # type: ignore
 
-        for n in range(1, max_num_combos + 1):
+        for n in comp_matrices:
             comp_matrices_refs_dict[n] = []
             for group in grouper(combinations(range(num_rxns), n), self.chunk_size):
                 comp_matrices_refs_dict[n].append(
@@ -291,9 +291,8 @@ class PathwaySolver(Solver):
         ):
             c_m_mats.append(c_m_mats_ref)  # noqa: PERF402
 
-        c_mats, m_mats = zip(*c_m_mats, strict=False)
-        c_mats = [mat for mats in c_mats for mat in mats if mat is not None]  # type: ignore
-        m_mats = [mat for mats in m_mats for mat in mats if mat is not None]  # type: ignore
+        c_mats = [mat for mats, _ in c_m_mats for mat in mats if mat is not None]
+        m_mats = [mat for _, mats in c_m_mats for mat in mats if mat is not None]
 
         paths = []
         for c_mat, m_mat in zip(c_mats, m_mats, strict=False):
-- 
2.43.0


From 00f553b001bfb35a99a537839c2711a6820495e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:55 +0000
Subject: [PATCH 25/50] fix: index the entries of all candidate reactions in
 the entry set of the solver

---
 src/rxn_network/pathways/solver.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 58aebd3..a9c1710 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -202,7 +202,14 @@ class PathwaySolver(Solver):
         cleaned_reactions = tuple(r for r, _ in cleaned)
         cleaned_costs = tuple(c for _, c in cleaned)
 
-        net_rxn_vector = net_rxn.get_entry_idx_vector(num_entries)
+        # the entries of intermediate reactions may have been indexed in another entry set
+        net_rxn_copy = deepcopy(net_rxn)
+        entry_indices = {e: idx for idx, e in enumerate(entries)}
+        for rxn in (net_rxn_copy, *cleaned_reactions):
+            for e in rxn.entries:
+                e.data["idx"] = entry_indices[e]
+
+        net_rxn_vector = net_rxn_copy.get_entry_idx_vector(num_entries)
 
         num_rxns = len(cleaned_reactions)
         num_cpus = ray.cluster_resources()["CPU"]
-- 
2.43.0


From fdde88632fa952652b86344f50a4d42ec1729f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:55 +0000
Subject: [PATCH 26/50] fix: find all interdependent reactions in balanced
 pathways

---
 src/rxn_network/pathways/balanced.py | 47 ++++++++--------------------
 1 file changed, 13 insertions(+), 34 deletions(-)

diff --git a/src/rxn_network/pathways/balanced.py b/src/rxn_network/pathways/balanced.py
index bfe64d4..cf320cd 100644
--- a/src/rxn_network/pathways/balanced.py
+++ b/src/rxn_network/pathways/balanced.py
@@ -7,7 +7,6 @@ from typing import TYPE_CHECKING
 import numpy as np
 
 from rxn_network.pathways.basic import BasicPathway
-from rxn_network.utils.funcs import limited_powerset
 
 if TYPE_CHECKING:
     from rxn_network.core import Composition
@@ -67,46 +66,26 @@ class BalancedPathway(BasicPathway):
 
     def contains_interdependent_rxns(self, precursors: list[Composition]) -> bool:
         """Whether or not the pathway contains interdependent reactions given a list of
-        provided precursors.
+        provided precursors, i.e., reactions which can not be carried out one after
+        another because each requires products of another. Phases which are not produced
+        in the pathway are assumed to be available.
 
         Args:
             precursors: List of precursor compositions
         """
-        precursors_set = set(precursors)
-        interdependent = False
+        produced = {c for rxn in self.reactions for c in rxn.products}
+        available = set(precursors)
 
-        rxns = set(self.reactions)
-        num_rxns = len(rxns)
+        remaining = list(self.reactions)
+        while remaining:
+            ready = [rxn for rxn in remaining if (set(rxn.reactants) & produced).issubset(available)]
+            if not ready:
+                return True
 
-        if num_rxns == 1:
-            return False
+            available |= {c for rxn in ready for c in rxn.products}
+            remaining = [rxn for rxn in remaining if rxn not in ready]
 
-        for combo in limited_powerset(rxns, num_rxns):
-            size = len(combo)
-            if any(set(rxn.reactants).issubset(precursors_set) for rxn in combo) or size == 1:
-                continue
-
-            other_comp = {c for rxn in (rxns - set(combo)) for c in rxn.compositions}
-
-            unique_reactants = []
-            unique_products = []
-            for rxn in combo:
-                unique_reactants.append(set(rxn.reactants) - precursors_set)
-                unique_products.append(set(rxn.products) - precursors_set)
-
-            overlap = [False] * size
-            for i in range(size):
-                for j in range(size):
-                    if i == j:
-                        continue
-                    overlapping_phases = unique_reactants[i] & unique_products[j]
-                    if overlapping_phases and (overlapping_phases not in other_comp):
-                        overlap[i] = True
-
-            if all(overlap):
-                interdependent = True
-
-        return interdependent
+        return False
 
     @classmethod
     def balance(
-- 
2.43.0


From ffa6e00d7b5560777fb1e1f462f6f7399cc0d59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:46 +0000
Subject: [PATCH 27/50] fix: compare all reactions, costs and coefficients of
 pathways

---
 src/rxn_network/pathways/balanced.py | 4 ++--
 src/rxn_network/pathways/basic.py    | 9 ++++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/rxn_network/pathways/balanced.py b/src/rxn_network/pathways/balanced.py
index cf320cd..25dba00 100644
--- a/src/rxn_network/pathways/balanced.py
+++ b/src/rxn_network/pathways/balanced.py
@@ -109,12 +109,12 @@ class BalancedPathway(BasicPathway):
 
     def __eq__(self, other) -> bool:
         if super().__eq__(other):
-            return np.allclose(self.costs, other.costs)
+            return np.allclose(self.coefficients, other.coefficients)
 
         return False
 
     def __hash__(self):
-        return hash((tuple(self.reactions), tuple(self.coefficients)))
+        return hash(tuple(self.reactions))  # equal coefficients may differ by rounding
 
     def __repr__(self) -> str:
         path_info = ""
diff --git a/src/rxn_network/pathways/basic.py b/src/rxn_network/pathways/basic.py
index 42ecf05..ad7f294 100644
--- a/src/rxn_network/pathways/basic.py
+++ b/src/rxn_network/pathways/basic.py
@@ -6,6 +6,8 @@ from __future__ import annotations
 
 from typing import TYPE_CHECKING
 
+import numpy as np
+
 from rxn_network.pathways.base import Pathway
 
 if TYPE_CHECKING:
@@ -54,7 +56,12 @@ class BasicPathway(Pathway):
 
     def __eq__(self, other) -> bool:
         if isinstance(other, self.__class__):
-            return all(other_rxn == rxn for other_rxn, rxn in zip(other.reactions, self.reactions, strict=False))
+            if len(self.reactions) != len(other.reactions) or len(self.costs) != len(other.costs):
+                return False
+
+            return all(
+                other_rxn == rxn for other_rxn, rxn in zip(other.reactions, self.reactions, strict=True)
+            ) and np.allclose(self.costs, other.costs)
 
         return False
 
-- 
2.43.0


From 636138c51b6808862615233580c8af77babfde5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:46 +0000
Subject: [PATCH 28/50] fix: keep the balanced status of pathways in pathway
 sets

---
 src/rxn_network/pathways/pathway_set.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/rxn_network/pathways/pathway_set.py b/src/rxn_network/pathways/pathway_set.py
index d4e87d6..cca6984 100644
--- a/src/rxn_network/pathways/pathway_set.py
+++ b/src/rxn_network/pathways/pathway_set.py
@@ -34,6 +34,7 @@ class PathwaySet(MSONable):
         indices: np.ndarray | list[list[int]],
         coefficients: np.ndarray | list[list[float] | None],
         costs: np.ndarray | list[list[float]],
+        balanced: list[bool] | None = None,
     ):
         """
         Args:
@@ -43,11 +44,14 @@ class PathwaySet(MSONable):
             coefficients: An array or list of coefficients representing the
             multiplicities (i.e., how much of) each reaction in the pathway.
             costs: An array or list of costs for each pathway.
+            balanced: An optional list stating whether each pathway is balanced. Defaults
+                to False for every pathway.
         """
         self.reaction_set = reaction_set
         self.indices = indices
         self.coefficients = coefficients
         self.costs = costs
+        self.balanced = balanced if balanced is not None else [False] * len(indices)
 
     @cached_property
     def paths(self) -> list[Pathway]:
@@ -64,14 +68,16 @@ class PathwaySet(MSONable):
 
         rxns = list(self.reaction_set.get_rxns())
 
-        for indices, coefficients, costs in zip(
+        for indices, coefficients, costs, balanced in zip(
             self.indices,
             self.coefficients,
-            self.costs, strict=False,
+            self.costs,
+            self.balanced,
+            strict=False,
         ):
             reactions = [rxns[i] for i in indices]
             if coefficients is not None:
-                path = BalancedPathway(reactions=reactions, coefficients=coefficients, costs=costs)
+                path = BalancedPathway(reactions=reactions, coefficients=coefficients, costs=costs, balanced=balanced)
 
             else:
                 path = BasicPathway(reactions=reactions, costs=costs)
@@ -90,7 +96,7 @@ class PathwaySet(MSONable):
         Args:
             paths: List of Pathway objects
         """
-        indices, coefficients, costs = [], [], []
+        indices, coefficients, costs, balanced = [], [], [], []
 
         reaction_set = cls._get_reaction_set(paths)
         rxns = list(reaction_set.get_rxns())
@@ -99,12 +105,14 @@ class PathwaySet(MSONable):
             indices.append([rxns.index(r) for r in path.reactions])
             coefficients.append(getattr(path, "coefficients", None))
             costs.append(path.costs)
+            balanced.append(getattr(path, "balanced", False))
 
         return cls(
             reaction_set=reaction_set,
             indices=indices,
             coefficients=coefficients,
             costs=costs,
+            balanced=balanced,
         )
 
     @staticmethod
-- 
2.43.0


From e6e7d1103e9156be772ee83fcea83dc43e58b5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:48 +0000
Subject: [PATCH 29/50] fix: order polymorphs in entry sets deterministically,
 as reaction sets do

---
 src/rxn_network/entries/entry_set.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index b452819..eb16df0 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -557,7 +557,11 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
     @cached_property
     def entries_list(self) -> list[ComputedEntry]:
         """Returns a list of all entries in the entry set."""
-        return sorted(self.entries, key=lambda e: e.composition)
+        # polymorphs are ordered by ID, so that the order does not depend on the set
+        return sorted(
+            self.entries,
+            key=lambda e: (e.composition, str(e.unique_id if hasattr(e, "unique_id") else e.entry_id)),
+        )
 
     @cached_property
     def min_entries_by_formula(self) -> dict[str, ComputedEntry]:
-- 
2.43.0


From a92642b83ff4deafb45d3706e9decb7c08585af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:02 +0000
Subject: [PATCH 30/50] fix: computed entry added next to NIST entry when FREED
 has no data for it

---
 src/rxn_network/entries/entry_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index eb16df0..7a4797a 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -426,7 +426,7 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
                 if new_entry:
                     new_entries.append(new_entry)
 
-            if new_entry:
+            if new_entries:
                 experimental_formulas.append(formula)
             else:
                 energy_adjustments = []
-- 
2.43.0


From 7addf9364871fb1abf238f749f22fe94cd08b4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:02 +0000
Subject: [PATCH 31/50] fix: entry set options lost for systems with ten or
 more elements

---
 src/rxn_network/entries/entry_set.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index 7a4797a..ba26ac0 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -552,7 +552,11 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
             )
             new_entries.update(gibbs_set)
 
-        return cls(list(new_entries))
+        return cls(
+            list(new_entries),
+            calculate_e_above_hulls=calculate_e_above_hulls,
+            minimize_obj_size=minimize_obj_size,
+        )
 
     @cached_property
     def entries_list(self) -> list[ComputedEntry]:
-- 
2.43.0


From f94d48f3a30c5fab0d83c147a131a197b67e8984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:02 +0000
Subject: [PATCH 32/50] fix: entry sets built from the same computed entries
 shared their data

---
 src/rxn_network/entries/entry_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index ba26ac0..cba9b57 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -448,7 +448,7 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
                     temperature=temperature,
                     energy_adjustments=energy_adjustments,
                     parameters=entry.parameters,
-                    data=entry.data,
+                    data=entry.data.copy(),  # modified by the entry set
                     entry_id=entry.entry_id,
                 )
 
-- 
2.43.0


From 9ae0063cde73a6b415aeb7fa132e2f8c1d759a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:24 +0000
Subject: [PATCH 33/50] fix: experimental reference energies of multiples of a
 formula unit

---
 src/rxn_network/entries/experimental.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/entries/experimental.py b/src/rxn_network/entries/experimental.py
index 1d8a666..75623ff 100644
--- a/src/rxn_network/entries/experimental.py
+++ b/src/rxn_network/entries/experimental.py
@@ -55,7 +55,8 @@ class ExperimentalReferenceEntry(ComputedEntry):
         self._validate_temperature(formula, temperature)
         self._temperature = temperature
 
-        energy = self._get_energy(formula, temperature)
+        # reference data are per formula unit
+        energy = self._get_energy(formula, temperature) * composition.get_reduced_formula_and_factor()[1]
 
         super().__init__(
             composition,
@@ -214,6 +215,6 @@ class ExperimentalReferenceEntry(ComputedEntry):
 
     def __hash__(self) -> int:
         data_md5 = hashlib.md5(  # nosec
-            f"{self.__class__.__name__}{self.composition}_{self.temperature}".encode()
+            f"{self.__class__.__name__}{self.composition.reduced_formula}_{float(self.temperature)}".encode()
         ).hexdigest()
         return int(data_md5, 16)
-- 
2.43.0


From 32025f86c39a9ad2bf9112268e98114dfc5b2022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:18 +0000
Subject: [PATCH 34/50] fix: number of secondary reaction sequences next to a
 precursor

---
 src/rxn_network/reactions/hull.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/reactions/hull.py b/src/rxn_network/reactions/hull.py
index 3aef106..4e9aee5 100644
--- a/src/rxn_network/reactions/hull.py
+++ b/src/rxn_network/reactions/hull.py
@@ -218,9 +218,9 @@ class InterfaceReactionHull(MSONable):
 
         if not recursive:
             left_energy = self.get_decomposition_energy(0, x)
-            left_num_paths = self.count(len(self.get_coords_in_range(0, x)) - 2)
+            left_num_paths = self.count(max(len(self.get_coords_in_range(0, x)) - 2, 0))
             right_energy = self.get_decomposition_energy(x, 1)
-            right_num_paths = self.count(len(self.get_coords_in_range(x, 1)) - 2)
+            right_num_paths = self.count(max(len(self.get_coords_in_range(x, 1)) - 2, 0))
         else:
             (
                 left_energy,
-- 
2.43.0


From 95f24f32e7fe7e078766d19b0ad1fa2fe7d3c082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:42 +0000
Subject: [PATCH 35/50] fix: recursive secondary competition with decomposing
 precursors

---
 src/rxn_network/reactions/hull.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/rxn_network/reactions/hull.py b/src/rxn_network/reactions/hull.py
index 4e9aee5..cabc42e 100644
--- a/src/rxn_network/reactions/hull.py
+++ b/src/rxn_network/reactions/hull.py
@@ -474,20 +474,19 @@ class InterfaceReactionHull(MSONable):
         val = 0
         total = 0
         for c in coords:
-            if c[0] == 0.0 and not np.isclose(c[1], 0.0):
-                use_x_min_ref = False
-            elif c[0] == 1.0 and not np.isclose(c[1], 0.0):
-                use_x_max_ref = False
+            # a decomposition of a reactant replaces that reactant as the reference on its own side only
+            use_c_as_min_ref = use_x_min_ref and not (c[0] == 0.0 and not np.isclose(c[1], 0.0))
+            use_c_as_max_ref = use_x_max_ref and not (c[0] == 1.0 and not np.isclose(c[1], 0.0))
 
             height = self._calculate_altitude([x_min, y_min], c, [x_max, y_max])  # type: ignore
             (
                 left_decomp,
                 left_total,
-            ) = self.get_decomposition_energy_and_num_paths_recursive(x_min, c[0], use_x_min_ref, use_x_max_ref)
+            ) = self.get_decomposition_energy_and_num_paths_recursive(x_min, c[0], use_x_min_ref, use_c_as_max_ref)
             (
                 right_decomp,
                 right_total,
-            ) = self.get_decomposition_energy_and_num_paths_recursive(c[0], x_max, use_x_min_ref, use_x_max_ref)
+            ) = self.get_decomposition_energy_and_num_paths_recursive(c[0], x_max, use_c_as_min_ref, use_x_max_ref)
 
             val += height * (left_total * right_total) + left_decomp * right_total + right_decomp * left_total
             total += left_total * right_total
-- 
2.43.0


From 9e3f59a3364bc69686efde019f431847d33a5de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:37 +0000
Subject: [PATCH 36/50] fix: keep zero-energy decompositions of precursors on
 the interface reaction hull

---
 src/rxn_network/reactions/hull.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/hull.py b/src/rxn_network/reactions/hull.py
index cabc42e..0679683 100644
--- a/src/rxn_network/reactions/hull.py
+++ b/src/rxn_network/reactions/hull.py
@@ -64,7 +64,8 @@ class InterfaceReactionHull(MSONable):
 
         reactions_with_endpoints = reactions + endpoint_reactions
 
-        coords = np.array([(self.get_coordinate(r), r.energy_per_atom) for r in reactions])
+        # energies are rounded like the coordinates (zero-energy decompositions must stay at zero)
+        coords = np.array([(self.get_coordinate(r), round(r.energy_per_atom, 12)) for r in reactions])
         coords = np.append(coords, [[0, 0], [1, 0]], axis=0)
 
         idx_sort = coords[:, 0].argsort()
-- 
2.43.0


From 94ed538838571aee134b44b3fb5805749a99877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:09 +0000
Subject: [PATCH 37/50] fix: the open element is no precursor of a reaction
 with a single precursor

---
 src/rxn_network/jobs/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rxn_network/jobs/core.py b/src/rxn_network/jobs/core.py
index 093f27a..3af3708 100644
--- a/src/rxn_network/jobs/core.py
+++ b/src/rxn_network/jobs/core.py
@@ -745,11 +745,11 @@ def _get_competition_decorated_rxns_by_chunk(rxn_chunk, all_rxns, open_formula):
 
         competing_rxns = all_rxns.get_rxns_by_reactants(reactants_with_open)
 
+        if open_formula:
+            reactant_formulas = [f for f in reactant_formulas if f != open_formula]
+
         if len(reactant_formulas) >= 3:
-            if open_formula:
-                reactant_formulas = list(set(reactant_formulas) - {open_formula})
-            else:
-                raise ValueError("Can only have 2 precursors, excluding open element!")
+            raise ValueError("Can only have 2 precursors, excluding open element!")
 
         decorated_rxns.append(_get_competition_decorated_rxn(rxn, competing_rxns, reactant_formulas))
 
-- 
2.43.0


From ceb13fe43b6b1fa991ba568b3ee9e5eb3747f937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:09 +0000
Subject: [PATCH 38/50] fix: competing reactions that consume the open element
 were dropped

---
 src/rxn_network/jobs/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rxn_network/jobs/core.py b/src/rxn_network/jobs/core.py
index 3af3708..f3c9caf 100644
--- a/src/rxn_network/jobs/core.py
+++ b/src/rxn_network/jobs/core.py
@@ -361,6 +361,8 @@ class CalculateCompetitionMaker(Maker):
         logger.info("Removing unnecessary reactions from total reactions to save memory...")
 
         all_target_reactants = {reactant.reduced_formula for r in target_rxns for reactant in r.reactants}
+        if self.open_formula:
+            all_target_reactants.add(self.open_formula)  # always available to competing reactions
         all_rxns = all_rxns.get_rxns_by_reactants(
             all_target_reactants,
             return_set=True,  # type: ignore
-- 
2.43.0


From b3de1c9f4753c05fa081bc793db699aebdaf033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:03 +0000
Subject: [PATCH 39/50] fix: maximize every metric of a Pareto front

---
 src/rxn_network/costs/pareto.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/costs/pareto.py b/src/rxn_network/costs/pareto.py
index 5dceded..c7987de 100644
--- a/src/rxn_network/costs/pareto.py
+++ b/src/rxn_network/costs/pareto.py
@@ -33,7 +33,7 @@ def get_pareto_front(
     pts = df.to_numpy()
 
     if maximize:
-        pts[:, 1:] = pts[:, 1:] * -1
+        pts = pts * -1
 
     return df_original[is_pareto_efficient(pts, return_mask=True)]
 
-- 
2.43.0


From 1152d6b270f5963293a3e6258d2953fee6fd798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:03 +0000
Subject: [PATCH 40/50] fix: softplus costs of very favorable and very
 unfavorable reactions

---
 src/rxn_network/costs/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/costs/functions.py b/src/rxn_network/costs/functions.py
index fcced1b..893cd0a 100644
--- a/src/rxn_network/costs/functions.py
+++ b/src/rxn_network/costs/functions.py
@@ -74,7 +74,7 @@ class Softplus(CostFunction):
     @staticmethod
     def _softplus(x: float, t: float) -> float:
         """The mathematical formula for the softplus function."""
-        return np.log(1 + (273 / t) * np.exp(x))
+        return float(np.logaddexp(0, x + np.log(273 / t)))  # log(1 + 273 / t * exp(x))
 
     def __repr__(self):
         return (
-- 
2.43.0


From 6cc56430f78131923c5b5dfce43b6e5bc27a5a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:49 +0000
Subject: [PATCH 41/50] fix: use the function given to aggregate chemical
 potential distances

---
 src/rxn_network/costs/calculators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rxn_network/costs/calculators.py b/src/rxn_network/costs/calculators.py
index bfa70ac..44c5bcd 100644
--- a/src/rxn_network/costs/calculators.py
+++ b/src/rxn_network/costs/calculators.py
@@ -59,6 +59,8 @@ class ChempotDistanceCalculator(Calculator):
             self.mu_func = sum  # type: ignore
         elif isinstance(mu_func, str):
             raise ValueError("Provided mu_func name is not a known function; please provide the function directly.")
+        else:
+            self.mu_func = mu_func  # type: ignore
 
         self._open_elems = set()
         if cpd.entries[0].__class__.__name__ == "GrandPotPDEntry":
-- 
2.43.0


From 4f99014e82a857a0ba1ded98b72ed9048cfe347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:12 +0000
Subject: [PATCH 42/50] fix: subsets of an iterator with more than one member

---
 src/rxn_network/utils/funcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/utils/funcs.py b/src/rxn_network/utils/funcs.py
index c5b9e3c..64caba4 100644
--- a/src/rxn_network/utils/funcs.py
+++ b/src/rxn_network/utils/funcs.py
@@ -24,7 +24,8 @@ def limited_powerset(iterable: Iterable, max_size: int) -> Iterable:
     Returns:
         All combination sets up to maximum size
     """
-    return chain.from_iterable([combinations(iterable, num_combos) for num_combos in range(1, max_size + 1)])
+    items = list(iterable)
+    return chain.from_iterable([combinations(items, num_combos) for num_combos in range(1, max_size + 1)])
 
 
 def grouper(iterable: Iterable, n: int, fillvalue: Any = None) -> Iterable:
-- 
2.43.0


From 685e6a662bc2c19708e4be987490e0c649d80a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:01 +0000
Subject: [PATCH 43/50] fix: metastable chemical potential domains do not
 change the diagram

---
 src/rxn_network/thermo/chempot_diagram.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/rxn_network/thermo/chempot_diagram.py b/src/rxn_network/thermo/chempot_diagram.py
index 784fae5..7d7ff7f 100644
--- a/src/rxn_network/thermo/chempot_diagram.py
+++ b/src/rxn_network/thermo/chempot_diagram.py
@@ -199,20 +199,19 @@ class ChemicalPotentialDiagram(ChempotDiagram):
         if formula in self._metastable_domains:
             return self._metastable_domains[formula]
 
+        # the stabilized entry is only added to a copy, so that this diagram still
+        # describes the original entries (also if the domain can not be created)
         orig_entry = self._entry_set.get_min_entry_by_formula(formula)
         new_entry = self._entry_set.get_stabilized_entry(orig_entry, tol=tol)
-        self._entry_set.add(new_entry)
-        cpd = ChemicalPotentialDiagram(self._entry_set, default_min_limit=-500)
+        cpd = ChemicalPotentialDiagram([*self._entry_set, new_entry], default_min_limit=-500)
 
         try:
             metastable_domain = cpd.domains[formula]
         except KeyError as exc:
             # sometimes if the entry is exactly on the hull it fails, so set force=True
             # and make bigger tolerance
-            self._entry_set.remove(new_entry)
             new_entry = self._entry_set.get_stabilized_entry(orig_entry, tol=1e-2, force=True)
-            self._entry_set.add(new_entry)
-            cpd = ChemicalPotentialDiagram(self._entry_set, default_min_limit=-500)
+            cpd = ChemicalPotentialDiagram([*self._entry_set, new_entry], default_min_limit=-500)
 
             try:
                 metastable_domain = cpd.domains[formula]
@@ -222,7 +221,6 @@ class ChemicalPotentialDiagram(ChempotDiagram):
                 ) from exc
 
         self._metastable_domains[formula] = metastable_domain
-        self._entry_set.remove(new_entry)
 
         return metastable_domain
 
-- 
2.43.0


From 02424a5cb58b268ba6f1c926d1772c7565c7b335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:01 +0000
Subject: [PATCH 44/50] fix: ground states of grand potential entries in
 chemical potential diagrams

---
 src/rxn_network/thermo/chempot_diagram.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/rxn_network/thermo/chempot_diagram.py b/src/rxn_network/thermo/chempot_diagram.py
index 7d7ff7f..b1d0955 100644
--- a/src/rxn_network/thermo/chempot_diagram.py
+++ b/src/rxn_network/thermo/chempot_diagram.py
@@ -5,6 +5,7 @@ pymatgen.
 from __future__ import annotations
 
 from functools import cached_property
+from itertools import groupby
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -151,6 +152,21 @@ class ChemicalPotentialDiagram(ChempotDiagram):
         """Returns the scipy HalfSpaceIntersection object used to calculate all domains."""
         return self._hs_int
 
+    @staticmethod
+    def _get_min_entries_and_el_refs(entries: list[PDEntry]) -> tuple[list[PDEntry], dict[Element, PDEntry]]:
+        """Returns the minimum-energy entry of each composition and those of the elements.
+        The composition of grand potential entries does not include the open elements.
+        """
+        min_entries, el_refs = [], {}
+
+        for _, group in groupby(entries, key=lambda e: e.composition.reduced_formula):
+            min_entry = min(group, key=lambda e: e.energy_per_atom)
+            min_entries.append(min_entry)
+            if min_entry.composition.is_element:
+                el_refs[min_entry.composition.elements[0]] = min_entry
+
+        return min_entries, el_refs
+
     def _get_halfspace_intersection(self):
         hs_hyperplanes = np.vstack([self._hyperplanes, self._border_hyperplanes])
         interior_point = np.min(self.lims, axis=1) + 1e-1
-- 
2.43.0


From f6dff3c20e81a0a7b15cd751b8f816f4fe0392a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:07 +0000
Subject: [PATCH 45/50] fix: save unbuilt networks and restore the precursors
 and target of a loaded network

---
 src/rxn_network/network/base.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/rxn_network/network/base.py b/src/rxn_network/network/base.py
index 75f8b4d..6b886af 100644
--- a/src/rxn_network/network/base.py
+++ b/src/rxn_network/network/base.py
@@ -65,9 +65,9 @@ class Network(MSONable, metaclass=ABCMeta):
         information.
         """
         d = super().as_dict()
-        d["precursors"] = list(self.precursors) if self.precursors else None
-        d["target"] = self.target
-        d["graph"] = self.graph.as_dict()
+        d["precursors"] = [p.as_dict() for p in self.precursors] if self.precursors else None
+        d["target"] = self.target.as_dict() if self.target is not None else None
+        d["graph"] = self.graph.as_dict() if self.graph is not None else None
         return d
 
     @classmethod
@@ -75,16 +75,16 @@ class Network(MSONable, metaclass=ABCMeta):
         """Instantiate object from MSONable dict. See monty package for more
         information.
         """
-        precursors = d.pop("precursors", None)
-        target = d.pop("target", None)
-        graph = d.pop("graph", None)
+        d = dict(d)  # the provided dictionary is not modified
+        decoder = MontyDecoder()
+        precursors = decoder.process_decoded(d.pop("precursors", None))
+        target = decoder.process_decoded(d.pop("target", None))
+        graph = decoder.process_decoded(d.pop("graph", None))
 
         network = super().from_dict(d)
-        network._precursors = precursors  # pylint: disable=protected-access
+        network._precursors = set(precursors) if precursors else None  # pylint: disable=protected-access
         network._target = target  # pylint: disable=protected-access
-        network._g = MontyDecoder().process_decoded(  # pylint: disable=protected-access
-            graph
-        )
+        network._g = graph  # pylint: disable=protected-access
 
         return network
 
-- 
2.43.0


From d82bf35f6cfd648f28b1a811c0203554191224bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:07 +0000
Subject: [PATCH 46/50] fix: do not store the endpoint reactions of an
 interface reaction hull twice

---
 src/rxn_network/reactions/hull.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rxn_network/reactions/hull.py b/src/rxn_network/reactions/hull.py
index 0679683..3e6b921 100644
--- a/src/rxn_network/reactions/hull.py
+++ b/src/rxn_network/reactions/hull.py
@@ -75,6 +75,14 @@ class InterfaceReactionHull(MSONable):
         self.hull = ConvexHull(self.coords)
         self.endpoint_reactions = endpoint_reactions
 
+    def as_dict(self) -> dict:
+        """Returns MSONable dict. Endpoint reactions are re-created upon initialization and
+        are thus not stored.
+        """
+        d = super().as_dict()
+        d["reactions"] = [r.as_dict() for r in self.reactions if r not in self.endpoint_reactions]
+        return d
+
     def plot(self, y_max: float = 0.2) -> Figure:
         """Plot the reaction hull."""
         pts = self._get_scatter()
-- 
2.43.0


From e3012759ff63e1dffc0062045de4a9c5d74f3976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:20 +0000
Subject: [PATCH 47/50] fix: to_dataframe returned the table of an earlier
 call, with the caller's changes

---
 src/rxn_network/reactions/reaction_set.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index a328d1f..66e7c92 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -5,7 +5,6 @@ objects which share entries.
 from __future__ import annotations
 
 from collections import OrderedDict
-from functools import lru_cache
 from typing import TYPE_CHECKING, Any
 
 import numpy as np
@@ -189,7 +188,6 @@ class ReactionSet(MSONable):
 
         return rxn_set
 
-    @lru_cache(maxsize=1)  # noqa: B019
     def to_dataframe(
         self,
         cost_function: CostFunction,
-- 
2.43.0


From 038800b5f17c9d0a591cb20ccf411e68852e04d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:20 +0000
Subject: [PATCH 48/50] fix: energy cascades counted one reduced formula unit
 per formula of the pathway

---
 src/rxn_network/pathways/plotting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/pathways/plotting.py b/src/rxn_network/pathways/plotting.py
index 91f4a4e..bcba8be 100644
--- a/src/rxn_network/pathways/plotting.py
+++ b/src/rxn_network/pathways/plotting.py
@@ -90,9 +90,12 @@ class PathwayPlotter(MSONable):
             all_energies[temp]["ground_state"] = ground_state_energy
 
             for f in formulas:
-                comp = Composition(f).reduced_composition
+                comp = Composition(f)  # amounts are per formula as given (not reduced)
                 energy = (
-                    pd.get_form_energy_per_atom(gibbs_entries.get_min_entry_by_formula(comp.formula)) * comp.num_atoms
+                    pd.get_form_energy_per_atom(
+                        gibbs_entries.get_min_entry_by_formula(comp.reduced_composition.formula)
+                    )
+                    * comp.num_atoms
                 )
                 all_energies[temp][f] = energy
 
-- 
2.43.0


From 28a6914fb79e4219920f94cd05e36bf043959fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:20 +0000
Subject: [PATCH 49/50] fix: three-dimensional scatter plots of reactions
 failed

---
 src/rxn_network/reactions/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/plotting.py b/src/rxn_network/reactions/plotting.py
index f14c22e..b10a18b 100644
--- a/src/rxn_network/reactions/plotting.py
+++ b/src/rxn_network/reactions/plotting.py
@@ -118,7 +118,7 @@ def plot_reaction_scatter(
     else:
         layout_3d = plotly_layouts["default_layout_3d"]
         axis_layout = plotly_layouts["default_3d_axis_layout"].copy()
-        axis_layout["titlefont"]["size"] = 14
+        axis_layout["title.font"] = {"size": 14}
         for t in ["xaxis", "yaxis", "zaxis"]:
             layout_3d["scene"][t] = axis_layout
 
-- 
2.43.0


From 575f75a2a3b070afe9ce39c8553f47e36cac18b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:20 +0000
Subject: [PATCH 50/50] fix: scatter plots of tables with repeated row labels
 left out reactions

---
 src/rxn_network/reactions/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/plotting.py b/src/rxn_network/reactions/plotting.py
index b10a18b..4cd8a9f 100644
--- a/src/rxn_network/reactions/plotting.py
+++ b/src/rxn_network/reactions/plotting.py
@@ -63,7 +63,7 @@ def plot_reaction_scatter(
 
         return label, units
 
-    df = df.copy()
+    df = df.reset_index(drop=True)  # row labels may repeat (e.g., in concatenated tables)
     df["rxn"] = df["rxn"].astype(str)
     if "added_elems" in df:
         df["has_added_elems"] = df["added_elems"] != ""
-- 
2.43.0

