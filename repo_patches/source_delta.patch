From c210f3cb60018dd10b4742116a9d1897ae62dc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:34 +0000
Subject: [PATCH 01/19] fix: canonicalize a term that vanishes by symmetry to
 the empty term

SymPy's canonicalize returns the integer 0 for such a term; indexing it raised
TypeError instead of giving the zero term.
---
 dsrg_generator/Term.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsrg_generator/Term.py b/dsrg_generator/Term.py
index 41b1cb8..729cce7 100644
--- a/dsrg_generator/Term.py
+++ b/dsrg_generator/Term.py
@@ -770,6 +770,8 @@ class Term:
 
         # canonicalize indices
         gc = canonicalize(Permutation(g), dummies, [0] * len(dummies), *bsgs_list)
+        if gc == 0:  # the term vanishes by symmetry
+            return self.void()
 
         # translate gc to Tensor and SecondQuantizedOperator
         ann_ops = self.sq_op.indices_type([dummy_indices[i // 2] for i in gc[:self.sq_op.n_ann]])
-- 
2.43.0


From f448acf062545d6c400ca79b15bc023dd6318c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:44 +0000
Subject: [PATCH 02/19] fix: give every iteration over an Indices object its
 own position

The position was stored on the object, so a nested loop over one shared object
(for example an operator contracted with its own conjugate) skipped elements
and lost contractions.
---
 dsrg_generator/Indices.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/dsrg_generator/Indices.py b/dsrg_generator/Indices.py
index 73e754a..2bd76d8 100644
--- a/dsrg_generator/Indices.py
+++ b/dsrg_generator/Indices.py
@@ -168,15 +168,7 @@ class Indices:
         return (self.size, self.indices) >= (other.size, other.indices)
 
     def __iter__(self):
-        self.n = 0
-        return self
-
-    def __next__(self):
-        if self.n < self.size:
-            self.n += 1
-            return self.indices[self.n - 1]
-        else:
-            raise StopIteration
+        return iter(self.indices)
 
     def __getitem__(self, key):
         # index out-of-range handled by python list
-- 
2.43.0


From ad1980577adea4ec211be42b33ab9be40bac91c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:44 +0000
Subject: [PATCH 03/19] fix: equal indices have equal names and hashes

Index('a1') == Index('a01') but their hashes and printed names differed, so the
repeated-index test and every set or dictionary lookup missed one of them.
---
 dsrg_generator/Index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsrg_generator/Index.py b/dsrg_generator/Index.py
index dcdc216..b36c8c9 100644
--- a/dsrg_generator/Index.py
+++ b/dsrg_generator/Index.py
@@ -23,9 +23,9 @@ class Index:
             msg += f"{name} does not have an integer after the space label."
             raise ValueError(msg)
 
-        self._name = name
         self._space = s
         self._number = int(n)
+        self._name = f"{s}{self._number}"
         return
 
     @property
-- 
2.43.0


From b9732166ab82ab1bc3bb45d483d739c0a7947a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:44 +0000
Subject: [PATCH 04/19] fix: SpaceCounter reads the indices type by its current
 name

Every construction raised AttributeError.
---
 SpaceCounter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SpaceCounter.py b/SpaceCounter.py
index 034c095..8635638 100644
--- a/SpaceCounter.py
+++ b/SpaceCounter.py
@@ -18,11 +18,11 @@ class SpaceCounter:
         if not isinstance(tensor2, (Tensor, SecondQuantizedOperator)):
             raise TypeError(f"Invalid input for tensor2, given '{tensor2.__class__.__name__}',"
                             f" required 'Tensor'.")
-        if tensor1.type_of_indices is not tensor2.type_of_indices:
+        if tensor1.indices_type is not tensor2.indices_type:
             raise ValueError(f"Two tensors are of different indices type:"
-                             f" '{tensor1.type_of_indices}' and '{tensor2.type_of_indices}'.")
+                             f" '{tensor1.indices_type}' and '{tensor2.indices_type}'.")
 
-        _space_priority = space_priority_so if tensor1.type_of_indices is IndicesSpinOrbital else space_priority
+        _space_priority = space_priority_so if tensor1.indices_type is IndicesSpinOrbital else space_priority
         length = len(_space_priority)
         self._upper = [0] * length
         self._lower = [0] * length
-- 
2.43.0


From 62f0b6ff70c20726b3b7a547ddac30cc902c65df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:44 +0000
Subject: [PATCH 05/19] fix: integer_partition(1) yields the partition [1]

The loop never ran for n = 1, so no partition was produced.
---
 dsrg_generator/helper/integer_partition.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dsrg_generator/helper/integer_partition.py b/dsrg_generator/helper/integer_partition.py
index 8ca282d..d3f16f0 100644
--- a/dsrg_generator/helper/integer_partition.py
+++ b/dsrg_generator/helper/integer_partition.py
@@ -9,10 +9,8 @@ def integer_partition(n):
     x = [1] * n
     x[0] = n
     m, h = 1, 1
+    yield x[:1]
     while x[0] != 1:
-        if x[0] == n:
-            yield x[:1]
-
         if x[h - 1] == 2:
             m += 1
             x[h - 1] = 1
-- 
2.43.0


From 7233408b26eadb57e5162c4af95e41280cd0af9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:44 +0000
Subject: [PATCH 06/19] fix: MOSpaceCounter adds alpha and beta counts of one
 space

When both 'c' and 'C' were given, the raw counter kept only the last one.
---
 dsrg_generator/mo_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsrg_generator/mo_space.py b/dsrg_generator/mo_space.py
index 77b1a94..ce759a4 100644
--- a/dsrg_generator/mo_space.py
+++ b/dsrg_generator/mo_space.py
@@ -67,9 +67,11 @@ class MOSpaceCounter:
         if len(set(i.lower() for i in input_counter.keys()) - set(so_space)) != 0:
             raise ValueError(f"Invalid space label in {input_counter}.")
 
+        self._input_counter = {}
         idict = {'c': 0, 'a': 0, 'v': 0}
         for k, n in input_counter.items():
             k = k.lower()
+            self._input_counter[k] = self._input_counter.get(k, 0) + n
             if k in idict:
                 idict[k] += n
             else:
@@ -78,8 +80,6 @@ class MOSpaceCounter:
                 else:
                     idict['v'] += n
 
-        self._input_counter = {k.lower(): v for k, v in input_counter.items()}
-
         self._parsed_counter = [idict['v'], idict['c'], idict['a']]
         self._overall_scaling = sum(self._parsed_counter)
 
-- 
2.43.0


From cc306c4edd38b97dad70b9b9901b50a5fc1f57cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:44 +0000
Subject: [PATCH 07/19] fix: combine_terms leaves the terms it is given
 unchanged

The summed coefficient was stored on one of the caller's terms, so combining
the same list twice gave a different result.
---
 dsrg_generator/phys_op_contraction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsrg_generator/phys_op_contraction.py b/dsrg_generator/phys_op_contraction.py
index a3e0bc0..1e3e0a7 100644
--- a/dsrg_generator/phys_op_contraction.py
+++ b/dsrg_generator/phys_op_contraction.py
@@ -1,6 +1,6 @@
 import multiprocessing
 from threading import Thread
-from copy import deepcopy
+from copy import copy, deepcopy
 from collections import defaultdict, Iterable, deque
 from itertools import combinations, product
 from math import factorial, sqrt
@@ -149,6 +149,7 @@ def combine_terms(terms):
 
     out = []
     for name, term in terms_dict.items():
+        term = copy(term)  # leave the input terms unchanged
         term.coeff = sum(terms_to_coeff[name])
         if not term.is_void():
             out.append(term)
-- 
2.43.0


From 7664648168896863f561a9c3429767b9513fe085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:44 +0000
Subject: [PATCH 08/19] fix: write functions for terms that contain density
 cumulants

save_terms_ambit_functions raised KeyError for any multireference result.
---
 dsrg_generator/write_forte_functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsrg_generator/write_forte_functions.py b/dsrg_generator/write_forte_functions.py
index 9a6c967..6fedb75 100644
--- a/dsrg_generator/write_forte_functions.py
+++ b/dsrg_generator/write_forte_functions.py
@@ -17,6 +17,7 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
 
     tensor_ordering = {f"H{i}": i for i in range(1, 10)}
     tensor_ordering.update({f"T{i}": i + 100 for i in range(1, 10)})
+    tensor_ordering.update({f"L{i}": i + 150 for i in range(1, 10)})
     tensor_ordering.update({f"C{i}": i + 200 for i in range(10)})
     tensor_types = {i: 'double' if i == 'C0' else 'BlockedTensor' for i in tensor_ordering}
 
-- 
2.43.0


From 61fbbf3e453c4534aec410edda7738b40ada3611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:44 +0000
Subject: [PATCH 09/19] fix: declare temp whenever the generated function uses
 it

It was declared only when C0 is among the targets.
---
 dsrg_generator/write_forte_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsrg_generator/write_forte_functions.py b/dsrg_generator/write_forte_functions.py
index 6fedb75..7768666 100644
--- a/dsrg_generator/write_forte_functions.py
+++ b/dsrg_generator/write_forte_functions.py
@@ -56,6 +56,8 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
 
     suffix = []
     if add_t_dagger:
+        if not destroy_h and any(i != 'C0' for i in func_targets):
+            suffix.append('BlockedTensor temp;')
         for i in func_targets:
             n_body = int(i[1:])
             upper = ','.join(f'g{i}' for i in range(n_body))
@@ -63,8 +65,6 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
 
             if i == 'C0':
                 suffix.append('C0 *= 2.0;')
-                if not destroy_h:
-                    suffix.append('BlockedTensor temp;')
             else:
                 name = f'H{n_body}'
                 if not destroy_h:
-- 
2.43.0


From 5fa722ba22f2d6044bb7b34c54c19ea39dad7518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:44 +0000
Subject: [PATCH 10/19] fix: the generated function applies its factor argument

The scaling statements were prepared but never written.
---
 dsrg_generator/write_forte_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsrg_generator/write_forte_functions.py b/dsrg_generator/write_forte_functions.py
index 7768666..dd1132f 100644
--- a/dsrg_generator/write_forte_functions.py
+++ b/dsrg_generator/write_forte_functions.py
@@ -76,7 +76,8 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
                 suffix.append(f'{i}["{upper},{lower}"] += {name}["{lower},{upper}"];')
 
     func += indent.join(prefix) + '\n' + indent
-    func += indent.join(func_calls) + '\n'
+    func += indent.join(func_calls) + '\n' + indent
+    func += indent.join(scale) + '\n'
     if suffix:
         func += indent
     func += indent.join(suffix)
-- 
2.43.0


From be7a6c112296900629c329bdb860bd2456afb071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:44 +0000
Subject: [PATCH 11/19] fix: bch_cc_rsc keeps the active Hamiltonian blocks
 unless single_reference

The Hamiltonian was always expanded in core and virtual labels only, so a
multireference call silently dropped every block with an active index.
---
 dsrg_generator/phys_op_contraction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsrg_generator/phys_op_contraction.py b/dsrg_generator/phys_op_contraction.py
index 1e3e0a7..32d67c3 100644
--- a/dsrg_generator/phys_op_contraction.py
+++ b/dsrg_generator/phys_op_contraction.py
@@ -345,11 +345,11 @@ def bch_cc_rsc(nested_level, cluster_levels, max_cu_levels, n_opens, for_commuta
             for i in range(nested_level)]
 
     out = defaultdict(list)
-    out[0] = combine_terms([x for x in hamiltonian_operator(1).expand_composite_indices(True)]) + \
-             combine_terms([x for x in hamiltonian_operator(2).expand_composite_indices(True)])
+    out[0] = combine_terms([x for x in hamiltonian_operator(1).expand_composite_indices(single_reference)]) + \
+             combine_terms([x for x in hamiltonian_operator(2).expand_composite_indices(single_reference)])
 
-    left_pool = combine_terms([x for x in hamiltonian_operator(1).expand_composite_indices(True)]) + \
-                combine_terms([x for x in hamiltonian_operator(2).expand_composite_indices(True)])
+    left_pool = combine_terms([x for x in hamiltonian_operator(1).expand_composite_indices(single_reference)]) + \
+                combine_terms([x for x in hamiltonian_operator(2).expand_composite_indices(single_reference)])
 
     for i in range(1, nested_level + 1):
         factor = 1.0 / i
-- 
2.43.0


From fc8469cb59661bd510ceb126cbef54d79a1cec47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:23 +0000
Subject: [PATCH 12/19] fix: simplify keeps a delta on a diagonal index
 consistent

---
 dsrg_generator/Term.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dsrg_generator/Term.py b/dsrg_generator/Term.py
index 729cce7..49e5e09 100644
--- a/dsrg_generator/Term.py
+++ b/dsrg_generator/Term.py
@@ -623,14 +623,13 @@ class Term:
 
                         replacement[high], replacement[low] = Index(index_name), Index(index_name)
                         next_active[space] += 1
-
-                        Term._add_replacement_diagonal(high, replacement[high],
-                                                       self.diagonal_indices, replacement_diagonal)
-                        Term._add_replacement_diagonal(low, replacement[low],
-                                                       self.diagonal_indices, replacement_diagonal)
                     else:
                         replacement[high] = low
-                        Term._add_replacement_diagonal(high, low, self.diagonal_indices, replacement_diagonal)
+
+                    # a diagonal index is replaced together with everything this delta joins to it
+                    for i in (high, low):
+                        for j in (high, low, replacement[high]):
+                            Term._add_replacement_diagonal(i, j, self.diagonal_indices, replacement_diagonal)
             else:
                 list_of_tensors.append(tensor)
 
-- 
2.43.0


From c40f459934d61d927731a1d8b33523475acffda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:16 +0000
Subject: [PATCH 13/19] fix: partition open indices by the side of the tensor
 they belong to

---
 dsrg_generator/Term.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsrg_generator/Term.py b/dsrg_generator/Term.py
index 49e5e09..82ea483 100644
--- a/dsrg_generator/Term.py
+++ b/dsrg_generator/Term.py
@@ -414,7 +414,11 @@ class Term:
         """
         cre_ops = self.sq_op.cre_ops
         ann_ops = self.sq_op.ann_ops
-        tensor_indices = [set(tensor.indices()) for tensor in self.list_of_tensors]
+        # a tensor is antisymmetric among its upper and among its lower indices, but not between the two
+        tensor_indices = []
+        for tensor in self.list_of_tensors:
+            upper, lower = set(tensor.upper_indices), set(tensor.lower_indices)
+            tensor_indices += [upper, lower - upper]
 
         return self._perm_part_atomic(cre_ops, tensor_indices), self._perm_part_atomic(ann_ops, tensor_indices)
 
-- 
2.43.0


From def962a3f35561cdb6eed497733a48ee10ef999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:00 +0000
Subject: [PATCH 14/19] fix: print_terms_latex ends every row but the last of a
 block

---
 dsrg_generator/phys_op_contraction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsrg_generator/phys_op_contraction.py b/dsrg_generator/phys_op_contraction.py
index 32d67c3..5b5acd3 100644
--- a/dsrg_generator/phys_op_contraction.py
+++ b/dsrg_generator/phys_op_contraction.py
@@ -494,10 +494,10 @@ def print_terms_latex(input_terms):
 
     for block in block_repr.keys():
         print("\\begin{align}")
-        for perm, terms in block_repr[block].items():
-            i_last = len(terms) - 1
-            for i, term in enumerate(terms):
-                print(term.latex(delimiter=True, backslash=(i != i_last)))
+        terms = [term for perm_terms in block_repr[block].values() for term in perm_terms]
+        i_last = len(terms) - 1
+        for i, term in enumerate(terms):
+            print(term.latex(delimiter=True, backslash=(i != i_last)))
         print("\\end{align}\n")
 
 # def print_terms_ambit_symmetric(input_terms):
-- 
2.43.0


From 112ddec433c948025f3fa58f42b8bae65c08d5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:53 +0000
Subject: [PATCH 15/19] fix: make_excitation handles beta indices

---
 dsrg_generator/Term.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dsrg_generator/Term.py b/dsrg_generator/Term.py
index 82ea483..178c33d 100644
--- a/dsrg_generator/Term.py
+++ b/dsrg_generator/Term.py
@@ -1056,16 +1056,18 @@ class Term:
         replacement = {}
         next_index_number = {i: 0 for i in self.next_index_number.keys()}
         for i in self.sq_op.cre_ops:
-            overlap = space_relation[part] & space_relation[i.space]
+            label = part.upper() if i.is_beta() else part
+            overlap = space_relation[label] & space_relation[i.space]
             if len(overlap) == 0:
                 return self.void()
-            s = part if overlap == space_relation[part] else overlap.pop()
+            s = label if overlap == space_relation[label] else overlap.pop()
             replacement[i] = self._generate_next_index(s, next_index_number)
         for i in self.sq_op.ann_ops:
-            overlap = space_relation[hole] & space_relation[i.space]
+            label = hole.upper() if i.is_beta() else hole
+            overlap = space_relation[label] & space_relation[i.space]
             if len(overlap) == 0:
                 return self.void()
-            s = hole if overlap == space_relation[hole] else overlap.pop()
+            s = label if overlap == space_relation[label] else overlap.pop()
             replacement[i] = self._generate_next_index(s, next_index_number)
 
         for tensor in self.list_of_tensors:
-- 
2.43.0


From 2b5e1d83b6bc598e70d486e83b64eebc0391bc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:30 +0000
Subject: [PATCH 16/19] fix: an empty index name is rejected with a ValueError

---
 dsrg_generator/Index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsrg_generator/Index.py b/dsrg_generator/Index.py
index b36c8c9..84702cb 100644
--- a/dsrg_generator/Index.py
+++ b/dsrg_generator/Index.py
@@ -12,7 +12,7 @@ class Index:
         if not check_str:
             raise TypeError("Index name has to be string type.")
 
-        s = name[0]
+        s = name[:1]
         n = name[1:]
         if s not in space_priority:
             msg = "Improper Index name:\n"
-- 
2.43.0


From 2217c612703f77df6346314c50f16b8bbd887d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:24 +0000
Subject: [PATCH 17/19] fix: symmetry group of antisymmetric operators with
 different numbers of upper and lower indices

---
 dsrg_generator/IndicesPair.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsrg_generator/IndicesPair.py b/dsrg_generator/IndicesPair.py
index ef6cd3a..44ba127 100644
--- a/dsrg_generator/IndicesPair.py
+++ b/dsrg_generator/IndicesPair.py
@@ -296,9 +296,9 @@ class IndicesPair:
         :return: a tuple of (base, strong generating set)
         """
         if not hermitian:
-            u_base, u_gens = get_symmetric_group_sgs(self.n_upper, 1)
-            l_base, l_gens = get_symmetric_group_sgs(self.n_lower, 1)
-            return bsgs_direct_product(u_base, u_gens, l_base, l_gens)
+            # the lower indices take the first slots (see Term.canonicalize_sympy)
+            sgs = [get_symmetric_group_sgs(n, 1) for n in (self.n_lower, self.n_upper) if n != 0]
+            return sgs[0] if len(sgs) == 1 else bsgs_direct_product(*sgs[0], *sgs[1])
 
         if self.n_upper != self.n_lower:
             raise ValueError(f"{self} cannot be Hermitian.")
-- 
2.43.0


From 0ade844410c630c672fbba8d84d4d0b900f8953d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:36 +0000
Subject: [PATCH 18/19] fix: combined terms do not share tensor lists with the
 input terms

---
 dsrg_generator/phys_op_contraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsrg_generator/phys_op_contraction.py b/dsrg_generator/phys_op_contraction.py
index 5b5acd3..14657a0 100644
--- a/dsrg_generator/phys_op_contraction.py
+++ b/dsrg_generator/phys_op_contraction.py
@@ -1,6 +1,6 @@
 import multiprocessing
 from threading import Thread
-from copy import copy, deepcopy
+from copy import deepcopy
 from collections import defaultdict, Iterable, deque
 from itertools import combinations, product
 from math import factorial, sqrt
@@ -149,7 +149,7 @@ def combine_terms(terms):
 
     out = []
     for name, term in terms_dict.items():
-        term = copy(term)  # leave the input terms unchanged
+        term = Term.from_term(term)  # leave the input terms unchanged
         term.coeff = sum(terms_to_coeff[name])
         if not term.is_void():
             out.append(term)
-- 
2.43.0


From cd814150b34c6fd9fb8267ce3a28af32cad2a60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:44 +0000
Subject: [PATCH 19/19] fix: ambit strings of operators without annihilation or
 without creation operators

---
 dsrg_generator/IndicesPair.py | 5 ++---
 dsrg_generator/SQOperator.py  | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/dsrg_generator/IndicesPair.py b/dsrg_generator/IndicesPair.py
index 44ba127..e1ae959 100644
--- a/dsrg_generator/IndicesPair.py
+++ b/dsrg_generator/IndicesPair.py
@@ -135,9 +135,8 @@ class IndicesPair:
         """
         if self.is_empty():
             return ""
-        if not upper_first:
-            return f'["{self.lower_indices.ambit()},{self.upper_indices.ambit()}"]'
-        return f'["{self.upper_indices.ambit()},{self.lower_indices.ambit()}"]'
+        pair = (self.upper_indices, self.lower_indices) if upper_first else (self.lower_indices, self.upper_indices)
+        return '["' + ','.join(i.ambit() for i in pair if i.size != 0) + '"]'
 
     def diagonal_indices(self):
         """
diff --git a/dsrg_generator/SQOperator.py b/dsrg_generator/SQOperator.py
index 14ff9f1..eb40009 100644
--- a/dsrg_generator/SQOperator.py
+++ b/dsrg_generator/SQOperator.py
@@ -155,7 +155,7 @@ class SecondQuantizedOperator(IndicesPair):
             return 1, ''
 
         for sign, str_1, str_2 in self.permute_indices(p_cre, p_ann, cre_first):
-            yield sign, f'["{str_1},{str_2}"]'
+            yield sign, '["' + ','.join(i for i in (str_1, str_2) if i) + '"]'
 
     def generate_spin_cases(self, particle_conserving=True):
         """
-- 
2.43.0

