From 3ea45316e5f7f88357fe1d49dd7bd4f1506a2827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 01/30] fix: gen_nodup_cstru must not hand a numpy float to the
 progress bar

scipy's comb returns a numpy.float64, which is unhashable here, so the
generator raised TypeError before yielding any structure. Count exactly.
---
 ababe/stru/sogen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ababe/stru/sogen.py b/ababe/stru/sogen.py
index ed64ca2..c3d7983 100644
--- a/ababe/stru/sogen.py
+++ b/ababe/stru/sogen.py
@@ -330,7 +330,7 @@ def gen_nodup_cstru(lattice, sea_ele, size, speckle, num):
 
     # Add the progress bar when looping
     from scipy.special import comb
-    number_of_structures = comb((d*w*l), num)
+    number_of_structures = comb((d*w*l), num, exact=True)
     bar = ProgressBar(max_value=number_of_structures)
 
     isoset = set()
-- 
2.43.0


From 396e42f3dacae1aaa4a9377c5a23ce0f3d7f05e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 02/30] fix: SitesGrid.deepCopy shared its innermost rows with
 the original

x[:][:] copies the same list twice, so writing a site of the copy also
changed the grid it was copied from.
---
 ababe/stru/scaffold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index 2c331c2..69fbc5f 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -68,7 +68,7 @@ class SitesGrid(object):
 
     def deepCopy(self):
         g = SitesGrid(self._sites)
-        g._sites = [x[:][:] for x in self._sites]
+        g._sites = [[row[:] for row in plane] for plane in self._sites]
         return g
 
     def to_array(self):
-- 
2.43.0


From d60f9413dbf5c679c8d4e8ac5b8f9626ed91e8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 03/30] fix: CStru.get_neighbors enumerated sites as (width,
 length, depth)

Everything else indexes a grid as (depth, width, length), so on a grid
with unequal sides it raised KeyError or returned sites off the grid.
---
 ababe/stru/scaffold.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index 69fbc5f..349225f 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -224,9 +224,9 @@ class CStru(object):
             return tuple(coor)
 
         def p_gen():
-            for z in range(self.depth):
-                for x in range(self.width):
-                    for y in range(self.length):
+            for x in range(self.depth):
+                for y in range(self.width):
+                    for z in range(self.length):
                         yield(x, y, z)
 
         point = _pos2coor(pos)
-- 
2.43.0


From ff2a30902fb4d535b431225857d4c8bc9264beb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 04/30] fix: get_neighbors with one, or no, neighbour

itemgetter of a single index returns the bare site, whose coordinates
were then returned as if they were neighbours; with no index it raises.
---
 ababe/stru/scaffold.py   | 7 ++++---
 ababe/stru/scaffold2d.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index 349225f..ce688ff 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -11,7 +11,6 @@ from ababe.stru.site import Site
 from itertools import combinations
 
 from scipy.spatial import cKDTree
-from operator import itemgetter
 from collections import MutableSequence
 import spglib
 import xxhash
@@ -236,10 +235,12 @@ class CStru(object):
         del coor_map[pos]
 
         points = list(coor_map.values())
+        if not points:
+            return set()
         points_tree = cKDTree(points)
         ind = points_tree.query_ball_point(point, delta)
-        neighbors = itemgetter(*ind)(list(coor_map.keys()))
-        return set(neighbors)
+        sites = list(coor_map.keys())
+        return set(sites[i] for i in ind)
 
 
 class GeneralCell(object):
diff --git a/ababe/stru/scaffold2d.py b/ababe/stru/scaffold2d.py
index 53270c7..bfee947 100644
--- a/ababe/stru/scaffold2d.py
+++ b/ababe/stru/scaffold2d.py
@@ -4,7 +4,6 @@ from ababe.stru.element import Specie, GhostSpecie
 import numpy as np
 
 from scipy.spatial import cKDTree
-from operator import itemgetter
 
 class SitesGrid2d(object):
 
@@ -89,7 +88,9 @@ class CStru2d(object):
         del coor_map[pos]
 
         points = list(coor_map.values())
+        if not points:
+            return set()
         points_tree = cKDTree(points)
         ind = points_tree.query_ball_point(point, delta)
-        neighbors = itemgetter(*ind)(list(coor_map.keys()))
-        return set(neighbors)
\ No newline at end of file
+        sites = list(coor_map.keys())
+        return set(sites[i] for i in ind)
\ No newline at end of file
-- 
2.43.0


From 6c842496c2a057f7a75db452283295daf9c42b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 05/30] fix: SitesGrid2d.from_array called a Specie method that
 does not exist

---
 ababe/stru/scaffold2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ababe/stru/scaffold2d.py b/ababe/stru/scaffold2d.py
index bfee947..dc2cef7 100644
--- a/ababe/stru/scaffold2d.py
+++ b/ababe/stru/scaffold2d.py
@@ -38,7 +38,7 @@ class SitesGrid2d(object):
 
     @classmethod
     def from_array(cls, arr):
-        mfunc = np.vectorize(lambda n: Specie.to_sp(n))
+        mfunc = np.vectorize(lambda n: Specie.from_num(n))
         sarr = mfunc(arr)
         return cls(sarr.tolist())
 
-- 
2.43.0


From 853ec4feef37b7f59f1a5beeadc0ea37a2ac56a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 06/30] fix: MCTS used dict.iteritems, which Python 3 does not
 have

select() and get_move() always raised AttributeError.
---
 ababe/mlearn/mcts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ababe/mlearn/mcts.py b/ababe/mlearn/mcts.py
index de30b0e..104d4c9 100644
--- a/ababe/mlearn/mcts.py
+++ b/ababe/mlearn/mcts.py
@@ -43,7 +43,7 @@ class TreeNode(object):
         Returns:
         A tuple of (action, next_node)
         """
-        return max(self._children.iteritems(), key=lambda act_node: act_node[1].get_value())
+        return max(self._children.items(), key=lambda act_node: act_node[1].get_value())
 
     def update(self, leaf_value, c_puct):
         """Update node values from leaf evaluation.
@@ -203,7 +203,7 @@ class MCTS(object):
 
         # chosen action is the *most visited child*, not the highest-value one
         # (they are the same as self._n_playout gets large).
-        return max(self._root._children.iteritems(), key=lambda act_node: act_node[1]._n_visits)[0]
+        return max(self._root._children.items(), key=lambda act_node: act_node[1]._n_visits)[0]
 
     def update_with_move(self, last_move):
         """Step forward in the tree, keeping everything we already know about the subtree, assuming
-- 
2.43.0


From 0fd56dc4382632b6db7bd59e01215c854354ff7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 07/30] fix: assigning GeneralCell.numbers left the spglib cell
 stale

The space group, symmetry, wyckoffs and primitivity of the old occupation
were still reported after the assignment.
---
 ababe/stru/scaffold.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index ce688ff..559701e 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -303,6 +303,7 @@ class GeneralCell(object):
     @numbers.setter
     def numbers(self, arr_numbers):
         self._numbers = arr_numbers
+        self._spg_cell = (self._lattice, self._positions, self._numbers)
 
     @property
     def comment(self):
-- 
2.43.0


From fb684c1ec20ff443761f6c34fd30c620e5a57c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 08/30] fix: ModifiedCell equality with a different number of
 sites

It raised on unequal shapes, and a one-site cell compared equal to any
cell repeating that site because of broadcasting.
---
 ababe/stru/scaffold.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index 559701e..733dc6a 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -509,6 +509,8 @@ class ModifiedCell(MutableSequence):
 
     def __eq__(self, other):
         is_equ = False
+        if len(self) != len(other):
+            return False
         if np.allclose(self._lattice, other._lattice):
             if np.allclose(self.positions, other.positions) and np.allclose(self.numbers, other.numbers):
                 is_equ = True
-- 
2.43.0


From 278df96b357cc8def424788466f6600e37fe1b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 09/30] fix: is_stru_equal compared numpy's abbreviated text

numpy prints arrays of more than 1000 items with an ellipsis, so two
different large structures compared equal.
---
 ababe/stru/sogen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ababe/stru/sogen.py b/ababe/stru/sogen.py
index c3d7983..72c201f 100644
--- a/ababe/stru/sogen.py
+++ b/ababe/stru/sogen.py
@@ -267,7 +267,7 @@ def _get_id_seq(pos, arr_num):
     # z, y, x = round_o_pos[:, 2], round_o_pos[:, 1], round_o_pos[:, 0]
     z, y, x = o_pos[:, 2], o_pos[:, 1], o_pos[:, 0]
     ind_sort = np.lexsort((z, y, x))
-    id_seq = str(arr_num[ind_sort])
+    id_seq = str(list(arr_num[ind_sort]))
 
     return id_seq
 
-- 
2.43.0


From 4fdd7571fbf9bac8314a82ec3170c31c38b119e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:44 +0000
Subject: [PATCH 10/30] fix: symmetry permutations of sites that fall on a
 rounding boundary

The images of the sites were ordered by coordinates rounded to three
decimals, so coordinates such as 1/16 = 0.0625 fell on either side with
the noise of the operation, and the resulting permutation matched no
symmetry: inequivalent structures were dropped and equivalent ones kept.
Superlattices of common crystals have such coordinates. Match each image
to the site it coincides with instead.
---
 ababe/stru/scaffold.py | 6 ++++--
 ababe/stru/sogen.py    | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index 733dc6a..1004542 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -352,13 +352,15 @@ class GeneralCell(object):
         Represented as a table.
         """
         sym_perm = []
-        numbers = [i for i in range(self.num_count)]
         sym_mat = spglib.get_symmetry(self._spg_cell, symprec=self.symprec)
         ops = [(r, t) for r, t in zip(sym_mat['rotations'],
                                       sym_mat['translations'])]
         for r, t in ops:
             pos_new = np.transpose(np.matmul(r, self._positions.T)) + t
-            perm = self._get_new_id_seq(pos_new, numbers)
+            # perm[i] is the site whose image lies on site i
+            diff = pos_new[:, np.newaxis, :] - self._positions[np.newaxis, :, :]
+            diff -= np.rint(diff)
+            perm = np.argmin((diff**2).sum(axis=2), axis=0)
             sym_perm.append(perm)
 
         return sym_perm
diff --git a/ababe/stru/sogen.py b/ababe/stru/sogen.py
index 72c201f..267c271 100644
--- a/ababe/stru/sogen.py
+++ b/ababe/stru/sogen.py
@@ -304,14 +304,15 @@ def get_new_id_seq(pos, numbers):
 
 def get_permutation_cell(cell):
     lat, pos, num = cell
-    atom_num = len(cell[2])
-    numbers = [i for i in range(atom_num)]
     sym = get_symmetry(cell, symprec=1e-3)
     ops = [(r, t) for r, t in zip(sym['rotations'], sym['translations'])]
     sym_perm = []
     for r,t in ops:
         pos_new = np.transpose(np.matmul(r, np.transpose(pos))) + t
-        perm = get_new_id_seq(pos_new, numbers)
+        # perm[i] is the site whose image lies on site i
+        diff = pos_new[:, np.newaxis, :] - pos[np.newaxis, :, :]
+        diff -= np.rint(diff)
+        perm = np.argmin((diff**2).sum(axis=2), axis=0)
         sym_perm.append(perm)
 
     return sym_perm
-- 
2.43.0


From 9b3b18d59a3a0334845f5a004c10d3bb82e4f1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:23 +0000
Subject: [PATCH 11/30] fix: buckyball identifiers collided at 32 bits

A structure whose xxh32 equals that of an unrelated one already seen was
dropped as a duplicate; at five speckles there are millions of entries.
Use the 64-bit hash, as the occupation generator does.
---
 ababe/stru/buckyball.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ababe/stru/buckyball.py b/ababe/stru/buckyball.py
index 946bf6f..817d6b3 100644
--- a/ababe/stru/buckyball.py
+++ b/ababe/stru/buckyball.py
@@ -167,7 +167,7 @@ class Structure(object):
         as an identifier of diffrent structures, can be move to
         outerside class.
         """
-        num_hash = xxhash.xxh32(numbers).intdigest()
+        num_hash = xxhash.xxh64(numbers).intdigest()
         return num_hash
 
     def _update_isoset(self, isoset, atoms, sym_perm):
-- 
2.43.0


From 1b911c04672aef92a2146171fcad69757951ef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:08 +0000
Subject: [PATCH 12/30] fix: minimum distance restriction missed images and
 absent elements

Only the images one cell away in a 2x2x2 supercell were looked at, which
misses the shortest distance in a skewed cell or when a position lies
outside the cell, and a structure without the element raised ValueError
although it has no pair that could be too close.
---
 ababe/stru/restriction.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/ababe/stru/restriction.py b/ababe/stru/restriction.py
index 8f6ba94..452905c 100644
--- a/ababe/stru/restriction.py
+++ b/ababe/stru/restriction.py
@@ -1,6 +1,6 @@
 # coding: utf-8
 # Distributed under the terms of the MIT License.
-from scipy.spatial.distance import pdist
+from itertools import product
 import numpy as np
 import re
 
@@ -31,18 +31,24 @@ class MinDistanceRestriction(Restriction):
         self.target_dist = tr[1]
 
     def is_satisfied(self, gcell):
-        scale = np.array([[2, 0, 0],
-                          [0, 2, 0],
-                          [0, 0, 2]])
-        super_gcell = gcell.supercell(scale)
-        target_cart = super_gcell.get_cartesian(ele=self.target_ele)
-        # target_cart is a np array of target element's
-        # cartesian coordinates
-        mindist = np.min(pdist(target_cart))
-        is_ok = mindist > self.target_dist
-        # import pdb
-        # pdb.set_trace()
-        return is_ok
+        target_pos = gcell.positions[gcell.numbers == self.target_ele.Z]
+        if len(target_pos) == 0:
+            return True
+        # number of images along each axis that can be within target_dist
+        height = np.linalg.norm(np.linalg.inv(gcell.lattice), axis=0)
+        reach = np.floor(abs(self.target_dist) * height + 0.5).astype(int) + 1
+        images = np.array([t for t in product(*[range(-n, n+1)
+                                                for n in reach])])
+        # shortest distance of every atom to the atoms and images of the rest
+        for pos in target_pos:
+            diff = target_pos - pos
+            diff = diff - np.rint(diff)
+            frac = (diff[:, np.newaxis, :] + images).reshape((-1, 3))
+            frac = frac[np.abs(frac).max(axis=1) > 1e-8]    # not itself
+            dist = np.linalg.norm(np.matmul(frac, gcell.lattice), axis=1)
+            if not np.min(dist) > self.target_dist:
+                return False
+        return True
 
 class SpaceGroupRestriction(Restriction):
     """
-- 
2.43.0


From 78c60a326cda7a12cb637c66a476ec1df84a818b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:08 +0000
Subject: [PATCH 13/30] fix: sphere query missed images in skewed cells

Only the images one cell away were compared with the centre, so in a
skewed cell, or with positions outside the cell, atoms within the radius
of a periodic image were not found (and not removed by the clarifiers).
---
 ababe/stru/scaffold.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index 1004542..03010cb 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -609,19 +609,17 @@ class ModifiedCell(MutableSequence):
             Decided whether a position(frac) inside a
             distance restriction.
         """
-        from scipy.spatial.distance import euclidean as euclidean_discance
         from itertools import product
 
-        cart_cent = self.get_cartesian_from_frac(center)
-        trans = np.array([i for i in product([-1, 0, 1], repeat=3)])
-        allpos = pos + trans
-        for p in allpos:
-            cart_p = self.get_cartesian_from_frac(p)
-            if euclidean_discance(cart_p, cart_cent) < r:
-                return True
-                break
-
-        return False
+        diff = np.array(pos) - np.array(center)
+        diff = diff - np.rint(diff)
+        # number of images along each axis that can hold the nearest one
+        reach = min(abs(r), 0.5*np.linalg.norm(self.lattice, axis=1).sum())
+        height = np.linalg.norm(np.linalg.inv(self.lattice), axis=0)
+        images = np.array([t for t in product(*[range(-n, n+1) for n in
+                           np.floor(reach * height + 0.5).astype(int)])])
+        cart = self.get_cartesian_from_frac(diff + images)
+        return bool(np.any(np.linalg.norm(cart, axis=1) < r))
 
     def append_site(self, site):
         self.append(site)
-- 
2.43.0


From 214f5ea1839e52929f932c1cda9d97b5adf863a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:23 +0000
Subject: [PATCH 14/30] fix: structures overwritten when their random file
 names coincide

A name is a formula and four random characters; with a thousand
structures of one formula two of them coincide about one time in four,
and the later one silently replaced the earlier. Draw until unused.
---
 ababe/cmdline/apps/occupybiter.py  | 10 ++++++----
 ababe/cmdline/apps/occupymaker.py  | 10 ++++++----
 ababe/cmdline/apps/superlattice.py | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/ababe/cmdline/apps/occupybiter.py b/ababe/cmdline/apps/occupybiter.py
index 7759451..a3967a5 100644
--- a/ababe/cmdline/apps/occupybiter.py
+++ b/ababe/cmdline/apps/occupybiter.py
@@ -96,8 +96,10 @@ class App(AppModel):
                 if self.refined:
                     c = c.get_refined_pcell()
                 out = GeneralIO(c)
-                f_suffix = ''.join(random.choices(string.ascii_uppercase
-                                                 + string.digits, k=4))
-                ofname = "STRUCTURE_{:}_{:}.{:}".format(c.comment, f_suffix, self.outmode)
-                lastpath = os.path.join(out_dir, ofname)
+                lastpath = out_dir
+                while os.path.exists(lastpath):
+                    f_suffix = ''.join(random.choices(string.ascii_uppercase
+                                                     + string.digits, k=4))
+                    ofname = "STRUCTURE_{:}_{:}.{:}".format(c.comment, f_suffix, self.outmode)
+                    lastpath = os.path.join(out_dir, ofname)
                 out.write_file(lastpath)
diff --git a/ababe/cmdline/apps/occupymaker.py b/ababe/cmdline/apps/occupymaker.py
index 67e67ba..a7efb84 100644
--- a/ababe/cmdline/apps/occupymaker.py
+++ b/ababe/cmdline/apps/occupymaker.py
@@ -87,8 +87,10 @@ class App(AppModel):
                         c = c.get_refined_pcell()
                     out = GeneralIO(c)
 
-                    f_suffix = ''.join(random.choices(string.ascii_uppercase
-                                                      + string.digits, k=4))
-                    ofname = "STRUCTURE_{:}_{:}.{:}".format(c.comment, f_suffix, self.outmode)
-                    lastpath = os.path.join(out_dir, ofname)
+                    lastpath = out_dir
+                    while os.path.exists(lastpath):
+                        f_suffix = ''.join(random.choices(string.ascii_uppercase
+                                                          + string.digits, k=4))
+                        ofname = "STRUCTURE_{:}_{:}.{:}".format(c.comment, f_suffix, self.outmode)
+                        lastpath = os.path.join(out_dir, ofname)
                     out.write_file(lastpath)
diff --git a/ababe/cmdline/apps/superlattice.py b/ababe/cmdline/apps/superlattice.py
index cc9000f..98fa2aa 100644
--- a/ababe/cmdline/apps/superlattice.py
+++ b/ababe/cmdline/apps/superlattice.py
@@ -44,13 +44,15 @@ class App(AppModel):
             os.makedirs(suplat_dir)
 
         for hnf in self.hnfs:
-            rd_suffix = ''.join(random.choices(string.ascii_uppercase
-                                               + string.digits, k=4))
             sl_origin = hnf.to_general_cell()
             sl = sl_origin.get_shaped_cell()
 
             out = GeneralIO(sl)
 
-            ofname = "SUPLAT_{:}_{:}.{:}".format(self.v, rd_suffix, self.outmode)
-            lastpath = os.path.join(suplat_dir, ofname)
+            lastpath = suplat_dir
+            while os.path.exists(lastpath):
+                rd_suffix = ''.join(random.choices(string.ascii_uppercase
+                                                   + string.digits, k=4))
+                ofname = "SUPLAT_{:}_{:}.{:}".format(self.v, rd_suffix, self.outmode)
+                lastpath = os.path.join(suplat_dir, ofname)
             out.write_file(lastpath)
-- 
2.43.0


From 20c2e46723507cd668843bc90599a0fb7900e768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:23 +0000
Subject: [PATCH 15/30] fix: output directory that already exists

The occupation commands called shutil without importing it when the
randomly named directory existed, and meant to delete the results of the
run that had made it. Draw an unused name instead.
---
 ababe/cmdline/apps/occupybiter.py  | 18 ++++++++----------
 ababe/cmdline/apps/occupymaker.py  | 18 ++++++++----------
 ababe/cmdline/apps/occupymakert.py | 18 ++++++++----------
 ababe/cmdline/apps/occupytenter.py | 18 ++++++++----------
 4 files changed, 32 insertions(+), 40 deletions(-)

diff --git a/ababe/cmdline/apps/occupybiter.py b/ababe/cmdline/apps/occupybiter.py
index a3967a5..668f25d 100644
--- a/ababe/cmdline/apps/occupybiter.py
+++ b/ababe/cmdline/apps/occupybiter.py
@@ -61,17 +61,15 @@ class App(AppModel):
         import random
         import string
 
-        rd_suffix = ''.join(random.choices(string.ascii_uppercase
-                                           + string.digits, k=5))
         working_path = os.getcwd()
-        out_dir = os.path.join(working_path,
-                               'STRUCTURES_{0:}_{1:}'.format(self.comment,
-                                                              rd_suffix))
-        if not os.path.exists(out_dir):
-            os.makedirs(out_dir)
-        else:
-            shutil.rmtree(out_dir)
-            os.makedirs(out_dir)
+        out_dir = working_path
+        while os.path.exists(out_dir):
+            rd_suffix = ''.join(random.choices(string.ascii_uppercase
+                                               + string.digits, k=5))
+            out_dir = os.path.join(working_path,
+                                   'STRUCTURES_{0:}_{1:}'.format(self.comment,
+                                                                  rd_suffix))
+        os.makedirs(out_dir)
 
         ogg = OccupyGenerator(self.cell)
         g = ogg.gen_nodup_of_ele(self.ele, self.n, self.speckle)
diff --git a/ababe/cmdline/apps/occupymaker.py b/ababe/cmdline/apps/occupymaker.py
index a7efb84..55af441 100644
--- a/ababe/cmdline/apps/occupymaker.py
+++ b/ababe/cmdline/apps/occupymaker.py
@@ -55,17 +55,15 @@ class App(AppModel):
         import random
         import string
 
-        rd_suffix = ''.join(random.choices(string.ascii_uppercase
-                                           + string.digits, k=4))
         working_path = os.getcwd()
-        out_dir = os.path.join(working_path,
-                                   'STRUCTURES_{0:}_{1:}'.format(self.comment,
-                                                              rd_suffix))
-        if not os.path.exists(out_dir):
-            os.makedirs(out_dir)
-        else:
-            shutil.rmtree(out_dir)
-            os.makedirs(out_dir)
+        out_dir = working_path
+        while os.path.exists(out_dir):
+            rd_suffix = ''.join(random.choices(string.ascii_uppercase
+                                               + string.digits, k=4))
+            out_dir = os.path.join(working_path,
+                                       'STRUCTURES_{0:}_{1:}'.format(self.comment,
+                                                                  rd_suffix))
+        os.makedirs(out_dir)
 
         ogg = OccupyGenerator(self.cell)
         gg = ogg.all_speckle_gen_of_ele(self.nmax, self.ele, self.speckle)
diff --git a/ababe/cmdline/apps/occupymakert.py b/ababe/cmdline/apps/occupymakert.py
index 48d3e3e..c19c788 100644
--- a/ababe/cmdline/apps/occupymakert.py
+++ b/ababe/cmdline/apps/occupymakert.py
@@ -64,17 +64,15 @@ class App(AppModel):
         import string
         import tempfile
 
-        rd_suffix = ''.join(random.choices(string.ascii_uppercase
-                                           + string.digits, k=5))
         working_path = os.getcwd()
-        poscars_dir = os.path.join(working_path,
-                                   'STRUCTURES_{0:}_{1:}'.format(self.comment,
-                                                              rd_suffix))
-        if not os.path.exists(poscars_dir):
-            os.makedirs(poscars_dir)
-        else:
-            shutil.rmtree(poscars_dir)
-            os.makedirs(poscars_dir)
+        poscars_dir = working_path
+        while os.path.exists(poscars_dir):
+            rd_suffix = ''.join(random.choices(string.ascii_uppercase
+                                               + string.digits, k=5))
+            poscars_dir = os.path.join(working_path,
+                                       'STRUCTURES_{0:}_{1:}'.format(self.comment,
+                                                                  rd_suffix))
+        os.makedirs(poscars_dir)
 
         ogg = OccupyGenerator(self.cell)
 
diff --git a/ababe/cmdline/apps/occupytenter.py b/ababe/cmdline/apps/occupytenter.py
index d67e559..88d2c29 100644
--- a/ababe/cmdline/apps/occupytenter.py
+++ b/ababe/cmdline/apps/occupytenter.py
@@ -67,17 +67,15 @@ class App(AppModel):
         import string
         import tempfile
 
-        rd_suffix = ''.join(random.choices(string.ascii_uppercase
-                                           + string.digits, k=5))
         working_path = os.getcwd()
-        poscars_dir = os.path.join(working_path,
-                                   'STRUCTURES_{0:}_{1:}'.format(self.comment,
-                                                              rd_suffix))
-        if not os.path.exists(poscars_dir):
-            os.makedirs(poscars_dir)
-        else:
-            shutil.rmtree(poscars_dir)
-            os.makedirs(poscars_dir)
+        poscars_dir = working_path
+        while os.path.exists(poscars_dir):
+            rd_suffix = ''.join(random.choices(string.ascii_uppercase
+                                               + string.digits, k=5))
+            poscars_dir = os.path.join(working_path,
+                                       'STRUCTURES_{0:}_{1:}'.format(self.comment,
+                                                                  rd_suffix))
+        os.makedirs(poscars_dir)
 
         ogg = OccupyGenerator(self.cell)
         g = ogg.gen_nodup_trinary_alloy(Specie(self.s1), self.n1,
-- 
2.43.0


From e4afe8f4f3dd4f95875292cfd4d9e814d104fce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:56 +0000
Subject: [PATCH 16/30] fix: only the first of several distance restrictions
 was applied

--dist-restrict may be repeated, but every restriction after the first was
ignored and structures violating it were written.
---
 ababe/cmdline/apps/occupybiter.py  | 10 +++++-----
 ababe/cmdline/apps/occupymaker.py  |  8 ++++----
 ababe/cmdline/apps/occupymakert.py |  8 ++++----
 ababe/cmdline/apps/occupytenter.py | 10 +++++-----
 4 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/ababe/cmdline/apps/occupybiter.py b/ababe/cmdline/apps/occupybiter.py
index 668f25d..d3c7e7f 100644
--- a/ababe/cmdline/apps/occupybiter.py
+++ b/ababe/cmdline/apps/occupybiter.py
@@ -48,7 +48,7 @@ class App(AppModel):
             self.n = nspeckle
         # if there no restriction given then no restriction
         if trs != ():
-            self.tr = trs[0]
+            self.tr = trs
         else:
             self.tr = None
 
@@ -75,18 +75,18 @@ class App(AppModel):
         g = ogg.gen_nodup_of_ele(self.ele, self.n, self.speckle)
 
         if self.tr is not None:
-            tr = (Specie(self.tr[0]), self.tr[1])
-            applied_restriction = MinDistanceRestriction(tr)
+            applied_restrictions = [MinDistanceRestriction((Specie(ele), dist))
+                                    for ele, dist in self.tr]
 
         for n_count, c in enumerate(g):
             if self.mpr:
                 if self.tr is not None:
-                    condition = c.is_primitive() and applied_restriction.is_satisfied(c)
+                    condition = c.is_primitive() and all(r.is_satisfied(c) for r in applied_restrictions)
                 else:
                     condition = c.is_primitive()
             else:
                 if self.tr is not None:
-                    condition = applied_restriction.is_satisfied(c)
+                    condition = all(r.is_satisfied(c) for r in applied_restrictions)
                 else:
                     condition = True
 
diff --git a/ababe/cmdline/apps/occupymaker.py b/ababe/cmdline/apps/occupymaker.py
index 55af441..16e1171 100644
--- a/ababe/cmdline/apps/occupymaker.py
+++ b/ababe/cmdline/apps/occupymaker.py
@@ -43,7 +43,7 @@ class App(AppModel):
             self.nmax = nspeckle
         # if there no restriction given then no restriction
         if trs != ():
-            self.tr = trs[0]
+            self.tr = trs
         else:
             self.tr = None
 
@@ -69,14 +69,14 @@ class App(AppModel):
         gg = ogg.all_speckle_gen_of_ele(self.nmax, self.ele, self.speckle)
 
         if self.tr is not None:
-            tr = (Specie(self.tr[0]), self.tr[1])
-            applied_restriction = MinDistanceRestriction(tr)
+            applied_restrictions = [MinDistanceRestriction((Specie(ele), dist))
+                                    for ele, dist in self.tr]
 
         for i, outer_gen in enumerate(gg):
             # print("Processing: {0:3}s substitue {1:2d}...".format(speckle, i+1))
             for n_count, c in enumerate(outer_gen):
                 if self.tr is not None:
-                    condition = c.is_primitive() and applied_restriction.is_satisfied(c)
+                    condition = c.is_primitive() and all(r.is_satisfied(c) for r in applied_restrictions)
                 else:
                     condition = c.is_primitive()
 
diff --git a/ababe/cmdline/apps/occupymakert.py b/ababe/cmdline/apps/occupymakert.py
index c19c788..7f6f87b 100644
--- a/ababe/cmdline/apps/occupymakert.py
+++ b/ababe/cmdline/apps/occupymakert.py
@@ -51,7 +51,7 @@ class App(AppModel):
 
         # if there no restriction given then no restriction
         if trs != ():
-            self.tr = trs[0]
+            self.tr = trs
         else:
             self.tr = None
 
@@ -77,8 +77,8 @@ class App(AppModel):
         ogg = OccupyGenerator(self.cell)
 
         if self.tr is not None:
-            tr = (Specie(self.tr[0]), self.tr[1])
-            applied_restriction = MinDistanceRestriction(tr)
+            applied_restrictions = [MinDistanceRestriction((Specie(ele), dist))
+                                    for ele, dist in self.tr]
 
         # For diff outmode
         if self.outmode == 'vasp':
@@ -97,7 +97,7 @@ class App(AppModel):
 
                 for n_count, c in enumerate(g):
                     if self.tr is not None:
-                        condition = c.is_primitive() and applied_restriction.is_satisfied(c)
+                        condition = c.is_primitive() and all(r.is_satisfied(c) for r in applied_restrictions)
                     else:
                          condition = c.is_primitive()
 
diff --git a/ababe/cmdline/apps/occupytenter.py b/ababe/cmdline/apps/occupytenter.py
index 88d2c29..e43ba4d 100644
--- a/ababe/cmdline/apps/occupytenter.py
+++ b/ababe/cmdline/apps/occupytenter.py
@@ -51,7 +51,7 @@ class App(AppModel):
 
         # if there no restriction given then no restriction
         if trs != ():
-            self.tr = trs[0]
+            self.tr = trs
         else:
             self.tr = None
 
@@ -82,8 +82,8 @@ class App(AppModel):
                                         Specie(self.s2), self.n2)
 
         if self.tr is not None:
-            tr = (Specie(self.tr[0]), self.tr[1])
-            applied_restriction = MinDistanceRestriction(tr)
+            applied_restrictions = [MinDistanceRestriction((Specie(ele), dist))
+                                    for ele, dist in self.tr]
 
         # For diff outmode
         if self.outmode == 'vasp':
@@ -98,12 +98,12 @@ class App(AppModel):
         for n_count, c in enumerate(g):
             if self.mpr:
                 if self.tr is not None:
-                    condition = c.is_primitive() and applied_restriction.is_satisfied(c)
+                    condition = c.is_primitive() and all(r.is_satisfied(c) for r in applied_restrictions)
                 else:
                     condition = c.is_primitive()
             else:
                 if self.tr is not None:
-                    condition = applied_restriction.is_satisfied(c)
+                    condition = all(r.is_satisfied(c) for r in applied_restrictions)
                 else:
                     condition = True
 
-- 
2.43.0


From 3a29955ec273097d72cdf1b04286a28cc1424f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:56 +0000
Subject: [PATCH 17/30] fix: ocutenter and ocumakert ignored --element

The sites to substitute were taken from the whole cell instead of the
target element's, so other elements were replaced too and the counts in
the file names (down to negative ones) did not describe the content.
---
 ababe/cmdline/apps/occupymakert.py | 2 +-
 ababe/cmdline/apps/occupytenter.py | 2 +-
 ababe/stru/sogen.py                | 9 +++++----
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/ababe/cmdline/apps/occupymakert.py b/ababe/cmdline/apps/occupymakert.py
index 7f6f87b..e25e802 100644
--- a/ababe/cmdline/apps/occupymakert.py
+++ b/ababe/cmdline/apps/occupymakert.py
@@ -93,7 +93,7 @@ class App(AppModel):
         for n1 in range(1, self.n - 1):
             for n2 in range(1, self.n - n1):
                 g = ogg.gen_nodup_trinary_alloy(Specie(self.s1), n1,
-                                                Specie(self.s2), n2)
+                                                Specie(self.s2), n2, self.ele)
 
                 for n_count, c in enumerate(g):
                     if self.tr is not None:
diff --git a/ababe/cmdline/apps/occupytenter.py b/ababe/cmdline/apps/occupytenter.py
index e43ba4d..2c0b16b 100644
--- a/ababe/cmdline/apps/occupytenter.py
+++ b/ababe/cmdline/apps/occupytenter.py
@@ -79,7 +79,7 @@ class App(AppModel):
 
         ogg = OccupyGenerator(self.cell)
         g = ogg.gen_nodup_trinary_alloy(Specie(self.s1), self.n1,
-                                        Specie(self.s2), self.n2)
+                                        Specie(self.s2), self.n2, self.ele)
 
         if self.tr is not None:
             applied_restrictions = [MinDistanceRestriction((Specie(ele), dist))
diff --git a/ababe/stru/sogen.py b/ababe/stru/sogen.py
index 267c271..f0d71a0 100644
--- a/ababe/stru/sogen.py
+++ b/ababe/stru/sogen.py
@@ -108,12 +108,13 @@ class OccupyGenerator(object):
         dup = self.gen_dup_of_ele(ele, n, sp)
         return self.gen_2nodup_gen(dup)
 
-    def _gen_dup_trinary_alloy(self, sp1, n1, sp2, n2):
+    def _gen_dup_trinary_alloy(self, sp1, n1, sp2, n2, ele=None):
         init_numbers = self.init_cell.numbers
         isp1 = sp1.Z
         isp2 = sp2.Z
 
-        sp_ind_origin = [i for i, s in enumerate(init_numbers)]
+        sp_ind_origin = [i for i, s in enumerate(init_numbers)
+                         if ele is None or s == ele.Z]
         for sp1_comb_index in combinations(sp_ind_origin, n1):
             sp_ind_bin = [x for x in sp_ind_origin if x not in sp1_comb_index]
             for sp2_comb_index in combinations(sp_ind_bin, n2):
@@ -126,8 +127,8 @@ class OccupyGenerator(object):
                 yield GeneralCell(self.lattice, self.positions, numbers)
                 # pdb.set_trace()
 
-    def gen_nodup_trinary_alloy(self, sp1, n1, sp2, n2):
-        dup = self._gen_dup_trinary_alloy(sp1, n1, sp2, n2)
+    def gen_nodup_trinary_alloy(self, sp1, n1, sp2, n2, ele=None):
+        dup = self._gen_dup_trinary_alloy(sp1, n1, sp2, n2, ele)
         return self.gen_2nodup_gen(dup)
 
     def gen_add_one_speckle_unitary(self, gen, sp):
-- 
2.43.0


From 3e2eb7476b7c8af5315334f5e3a191f9bd91f0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:56 +0000
Subject: [PATCH 18/30] fix: POSCAR written with direct=False held fractional
 coordinates

The header said cartesian while the positions were left fractional.
---
 ababe/io/vasp.py | 2 ++
 ababe/stru/io.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ababe/io/vasp.py b/ababe/io/vasp.py
index 1215c8c..646875b 100644
--- a/ababe/io/vasp.py
+++ b/ababe/io/vasp.py
@@ -98,6 +98,8 @@ class VaspOutput(object):
         # sort the positions by atoms seqence
         for (i, pos, site) in sorted_position:
             if not i == 0:
+                if not direct:
+                    pos = pos.dot(self.lattice)
                 line = " ".join(["{:10.6f}".format(p) for p in pos])
                 line += " " + site
                 lines.append(line)
diff --git a/ababe/stru/io.py b/ababe/stru/io.py
index 02254f9..ed11aa3 100644
--- a/ababe/stru/io.py
+++ b/ababe/stru/io.py
@@ -107,6 +107,8 @@ class VaspPOSCAR(object):
         # sort the positions by atoms seqence
         for (i, pos, site) in sorted_position:
             if not i == 0:
+                if not direct:
+                    pos = pos.dot(self.lattice)
                 line = " ".join(["{:10.6f}".format(p) for p in pos])
                 line += " " + site
                 lines.append(line)
-- 
2.43.0


From e6fcfd251922eb4db9c5b4beb51f2afbf99c2173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:56 +0000
Subject: [PATCH 19/30] fix: POSCAR lattice was rounded before it was scaled

With a scaling factor the rounding error grew with the factor (the YAML
reader scales first), enough to lose the symmetry of the cell.
---
 ababe/io/vasp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ababe/io/vasp.py b/ababe/io/vasp.py
index 646875b..ac6cc2c 100644
--- a/ababe/io/vasp.py
+++ b/ababe/io/vasp.py
@@ -23,9 +23,8 @@ class VaspInput(object):
 
         comment = lines[0]
         zoom = float(lines[1])
-        lattice = np.around(np.array([[float(i) for i in line.split()]
-                                                     for line in lines[2:5]]),
-                                     decimals=4)
+        lattice = np.array([[float(i) for i in line.split()]
+                                                     for line in lines[2:5]])
         if zoom < 0:
             # In vasp, a negative scale factor is treated as a volume. We need
             # to translate this to a proper lattice vector scaling.
@@ -33,6 +32,7 @@ class VaspInput(object):
             lattice *= (-zoom / vol) ** (1 / 3)
         else:
             lattice *= zoom
+        lattice = np.around(lattice, decimals=4)
 
         nsymbols = [Specie(s).Z for s in lines[5].split()]
         natoms = [int(i) for i in lines[6].split()]
-- 
2.43.0


From 57c86e6663aab82cf525b5a8ad90144946bf80fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:56 +0000
Subject: [PATCH 20/30] fix: cartesian POSCAR was read as if it were fractional

The coordinate mode line was ignored, so a cartesian file silently gave a
different structure.
---
 ababe/io/vasp.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ababe/io/vasp.py b/ababe/io/vasp.py
index ac6cc2c..33ede7c 100644
--- a/ababe/io/vasp.py
+++ b/ababe/io/vasp.py
@@ -29,9 +29,10 @@ class VaspInput(object):
             # In vasp, a negative scale factor is treated as a volume. We need
             # to translate this to a proper lattice vector scaling.
             vol = abs(np.linalg.det(lattice))
-            lattice *= (-zoom / vol) ** (1 / 3)
+            scale = (-zoom / vol) ** (1 / 3)
         else:
-            lattice *= zoom
+            scale = zoom
+        lattice *= scale
         lattice = np.around(lattice, decimals=4)
 
         nsymbols = [Specie(s).Z for s in lines[5].split()]
@@ -41,9 +42,11 @@ class VaspInput(object):
             numbers += s * [nsymbols[i]]
         numbers = np.array(numbers)
 
-        positions = np.around(np.array([[float(i) for i in line.split()[0:3]]
-                                                     for line in lines[8:]]),
-                              decimals=4)
+        positions = np.array([[float(i) for i in line.split()[0:3]]
+                                                     for line in lines[8:]])
+        if lines[7].strip()[0] in 'CcKk':
+            positions = np.matmul(positions * scale, np.linalg.inv(lattice))
+        positions = np.around(positions, decimals=4)
 
         return lattice, positions, numbers
 
-- 
2.43.0


From c2502aa9b5a9613882b99250e80bc174725ac523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:19 +0000
Subject: [PATCH 21/30] fix: superlattice compared equal to its own sublattices

SuperLatticeCell.__eq__ only asked whether one lattice contains a rotated
image of the other, so that superlattices of different index could be
'equal', and in one direction only.
---
 ababe/stru/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ababe/stru/grid.py b/ababe/stru/grid.py
index 6f2adf1..b0afa88 100644
--- a/ababe/stru/grid.py
+++ b/ababe/stru/grid.py
@@ -40,7 +40,9 @@ class SuperLatticeCell(object):
             # h = mul(r, other.lat_coeff)
             h_mat = mul(h_inv, inv(self.lat_coeff))
             h_mat = np.around(h_mat, decimals=3)
-            if np.all(np.mod(h_mat, 1) == 0):
+            # and unimodular: a sublattice of a superlattice is not the same
+            if np.all(np.mod(h_mat, 1) == 0) and \
+                    np.isclose(abs(np.linalg.det(h_mat)), 1):
                 return True
 
         return False
-- 
2.43.0


From a80ea975c1cb6290f14bfff9426fb214c5f9df94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:19 +0000
Subject: [PATCH 22/30] fix: space group restriction read a digit of the symbol
 instead of the number

---
 ababe/stru/restriction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ababe/stru/restriction.py b/ababe/stru/restriction.py
index 452905c..45e9c56 100644
--- a/ababe/stru/restriction.py
+++ b/ababe/stru/restriction.py
@@ -62,7 +62,7 @@ class SpaceGroupRestriction(Restriction):
 
     def is_satisfied(self, gcell):
         spg = gcell.get_spacegroup()    # output: 'Pm (6)'
-        spg_num = int(re.findall('\d+', spg)[0])
+        spg_num = int(re.findall(r'\((\d+)\)', spg)[0])
         is_ok = spg_num in self.l_sp
 
         return is_ok
-- 
2.43.0


From 847089bd6481406fe74a0e6fcfeec40f1a4bf2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:25 +0000
Subject: [PATCH 23/30] fix: buckyball permutation table did not refer to the
 site order of the positions

---
 ababe/stru/bucky_permu_table.npy | Bin 57680 -> 57680 bytes
 1 file changed, 0 insertions(+), 0 deletions(-)

diff --git a/ababe/stru/bucky_permu_table.npy b/ababe/stru/bucky_permu_table.npy
index 796d216e99e78d504920ddb71928796f6dd1cec4..09e22c3940d8a726bac1d83df0c08ec76306f383 100644
GIT binary patch
literal 57680
zcmZA3NpqA18-?Kx^E}Tuv><i@QIdc$fNOSIZd|ysQW8t6EU^-ImcPP3EEdn@;&#&?
zh~#~r>zvcyKi_`;&38YnEnYAFTD>_q`sr}>a=H5Y*S*!|a`p4u!#@xAfB*6A;hTg1
ze*g9UZ$}63e*fr~{XY)g{d#?SXKQo0yS1^o{CoNSpL2`(XKg-@&FAs?JTadq=kwHj
zo}SM$^LchY{e|b}*B9pV;(T73&&%_9Wj?RY=e7B~KA$({^X7csn$O$wd1pTF&gZ@P
zyg#2G%;$&m`O$oSJfF+?{A4~K%;&@T{B%Aa&F5$Hxth=Q`P`V#$MgAQJ~!v{^ZEQ@
zKA+C#)_iWy=gxdSo6qO-`Q?1>&gWP2xi_CL=JVxzzM4-TeCt{7de*z1^{!{V>sjx5
z)|)Hmde)okat=|?de^hw^{jV2>s`-!*R$UB<;q!ax#}%<z2&O6-1U~L-g4Jlu6oN|
zZ@KC%cfIARx7@jM)?2Q6%bhD{z2&O6-1U~L-g4Jlu6oN|Z@KC%cfIARx7_uXtKM?g
zTh8^ZXT9rL?|Rm|p7pM0z3W+TuAJ*xZ?2r{S?_w*yPox~XT9rL?|Rm|zIv*Uddy7^
z^-UhQ>zO|3IXAs^Z~5V_SNdWHxaqC?%NKV&)ED{EFT21=&)r>~^hy5YKri)4ez@v2
z2l<mLz0@~(;;Pr2<V%k9QXl0<PV}0qe8@q4>sjx5*1Mkdu4ldLS?_w*n=9vf)|)Hm
zde*z1^{!{V>sjx5*1MkduCE^ID=&T4GkxSO7kZ>`y!73j^_RCC>4|>vvIp+2zr5v4
zPxMi~^ox&uaBqE=Cw<~ChkB%+Jmtv!^;@3gP|x&}r(E&TZ~2ikJ=9P6kRzV@&0kLH
zThDsev)=WrcRlM}&wAIh-ds7?v))`e*R$UBtam-@UC(;gv)=WrcYWR0op`ycJ9$su
z+}y=`=(RiQsXNG%9LTx%up3<T)E(@M9O#+%lu!A$BV6o)JIkv+*eN;EQ+KmNa$pzS
z-Hyqzp6Zhwk^?)!)sD%jUhAiwl1sax-*(1c)VH4Xu4ldLS?_w*yPox~XT7;{u4lcu
za;|5+>sjx5*1Mkdu4ldLS?~Jlp}z9cXFbzL-g2Qw`o>G&-C2Km%aNYw7cYC@?)uAH
z&h$hd<x9W#*a!F4cX`q${&J{C`pHv{++V-tNe=Z)KY7X(AN`geInzV^ln*)Lso(tN
zq`vj6cRlM}&wAIh-u0|^J?qVtb3N<Lm2*AoUC(;gv)=WrcRlM}&wAI_ecahSxp_bL
z;>F$byN~<nxA)gq{&MB{<(-H9@c#PB-`;pXeUnf5=V4FW*FMOrKFE)~axZ=5Z;#yD
zKFF^<(<6Q5Z;yD|6Zy1fda2*?Xs`6ze%J|nQ{Q^lyPox~XT9rL?|Rm|p7rL+xt{gr
z%DJBPu4ldLS?_w*yPox~XT9soj}veG<ikPF_1pd3Sw8fWw|m<G{dRA6lpp=%?f!N`
zzxlbNop5(~(ntBwFT3E*c0}KKy0iS~uRQ3R9kCBQImna#%7Z@I346ekn;p=1dC*rq
z*XR1yv)=WrcRlM}&wAIh-u0|ESI+gUH&@Q}tam-@UC(;gv)=WrcRlM}Up>$#z0prO
zb}zluZ#i`zJ>f3r9QD{<$f-N%m0Za=M?IEHIp$zz+(obCOi$#-?zod3kaIoYsK;`w
zH*#Z#^uWD2>aiT_r5wtq9`KY4d6aW`kURO3)B4u4-u0|^J?mZ1de^hw^{h8n&h@M}
zSI+gUcRlM}&wAIh-u0|^J?mXxew=vgCm#-auHWwO&hnw3yxrRl=(l^jqx|S6Z}+zo
z`pwTB?S#9_lRnCae%S?gwj=t^)1Bo<f8{~n?1+8f$w8j<S041yPS^vU-0Xn9%Y(k^
zxjxsop7pM0z3W-;de*z1^{!{VxpJ;&y}5F(XT9rL?|Rm|p7pM0z3W-;`nrSn(<}LN
zf6u8m^6kFvpx5%p-*f7v{PS}syCI+Q<vr|z{L7C!=_yCM)I7U`9?OB9(I<K3V#oAF
zAKcx}=(D`ag`Lw!ec@_{?1enbot?7>`XX2IEw}ZpXT9rL?|Rm|p7pM0z3W+TuAJ=?
z&w6v^T+e#fv)=WrcRlM}&wAIh-u3nTp2NMoujlu3c(|YE^K*E}uY1a)Jm|0Y^<46x
zKYZj>-t^bK<<+jZgS_dR{OFIJa#wk`AH4NL{_TOh>7O06U%d5CKjcl`_1{j~JNeUp
zJ8944*}m98dsg3i*1Mkdu4ldLS?_w*yPoyt%DJBP=E}LA^{!{V>sjx5*1Mkdu4ldL
z>-qc~@9#OhpTEbwyr<{)96UUS`}?{4+|ga-RUW)2e|eN2cjPF~{PjmZ<zF7<UEcIn
zzPZ~OebWbhv}5`w|8iz$^xaO{13RhzcF>;LG5cdj?UkLhM|RTQ)wiDYu4ldLS?_w*
zyPox~XT7;{u4lcua;|5+>sjx5*1Mkdu4ldLS?~IKe$U}v-q-W{IXv9Y^Z7YE<kvmr
zQ6BWy`+6>U&>ueXDsTGh-tuZ!+(F*-O@8#pPPwbR+YjFQA^-M3-t^B7+ArSvryur1
z-u2&3+B^Bve>-W<<k`O1L3>u;de*z1^{!{V>sjx5*1Mkd=E}LA_2$aCp7pM0z3W-;
zde*z1^{!{V>+5;_T=(#Ey|2I5eY}_V@mzfTTpoTdFL!fa`IHauB@gl_FYd-uetGMQ
zyy}B|%D;T+r#$nvEBd7m`f0cHQQqatuIRU&v=4UC9@s_uX1DB(UA13!(LUKt`&Zw3
z*1Mkdu4ldLS?_w*yPoyt%DJBP=E}LA^{!{V>sjx5*1Mkdu4ldL%fnrHxC?K0b#Hg#
z%}pNML4Mqghr8%K7kP09yW(#0;4XHB6Ayb}XWYduxug5H|L$gY^v~|Nqn*+(IpJb=
z^xy92mz~l-z1LqmV;}5_{@Nw|w=4FczV)nkJ?mZ1de^hw^{jV2>&=yOJ?qVtb3N?<
z?|Rm|p7pM0z3W-;de*zX{(FDU^Z2=P<iGR2-b;?;#htu|9D6Pv?kvah$Hg7p)qBeW
zH$9SXdC&(t!A<Wu$e;entDNb*{@E=#voms{4{~lN^xrPZxt)_sebY0$WuNS<p4mnF
zXJ_qced}58de*z1^{!{V>sjx5)|)Hmde)mO=X%z=p7pM0z3W-;de*z1^{y`ucje(O
zyxrBk-HA6hd2k2$aW@|BqW4_n#U1R5yUByQ*cDDZ?17ze7rW$+?%)2qo88eryW@^_
zO26cUi`~(GyQ5!rO8@j;f9;HYuq*m&m-OGR*oXSov)=WrcRlM}&wAIh-u0|ESI+gU
zH&@Q}v;(~BS?_w*yPox~XT9rL@A~@tJ*PkKy*!V*_<5e&`?{mQ-`zbAC%NoBxyl`P
z?<*&A%g;UKN^j&quH{e<<d&P<>6LxqFZX(8zw}a1^xD42n_lR-eY6Yq)6Up0yJjEl
zj(xOS_SMeW%lg){-u0|^J?pI>JnLQ0de^hwTshaX-ds7?v)=WrcRlM}&wAIh-u0|^
zedSDEy{CT2k-WN_{>hO%dLRAseEP#v|K&`6-BbTPzrOLbFWyIg<V~L4-+s8KJ&<4h
zkSBZQp86{v_KcVPkY~N&rN8oK@8m_^^+V6(MGoa(&*V|A<zJ8LThDsev)=WrcRlM}
z&wAIh-ds7?v))`e*R$UBtam-@UC(;gv)=WrcYWnZ9_2{h<wTz4RQ}~mUgb#t<VfH2
zKp#E7`^u^QdtQCl1AE~8c<Qmcx|cn2ANylBIP$hv?k|V@>>V#TmoIz9Uk>F*ujECK
z<X?~EQO@OC59L>n^h3|;ThDsev)=WrcRlM}&wAIh-ds7?v))`e*R$UBtam-@UC(;g
zv)=WrcYWndUcIM&$dSCdoBqj>JbEAf^L+ZlQ~%{me%(|5J-@#3v@hOAf8<S`-QRw=
zr#+Bg{g5Yn=AQa1ANGuw{g7w9;ibRwX7A+1e(8sv$%`Dyzn;mXT+6>6)wiDYu4ldL
zS?_w*yPox~XT7;{u4lcua;|5+>sjx5*1Mkdu4ldLS?~JFjr_@#e9MLW%B?=gm3+#T
zzR8h(>4koJA9t2pefPZjtrzye`*PK5cXl89;~w_Lj&S8{zj(+cFMG#F?&Zq9$%9<V
zi(bixUdg-O$fw-Pv);+8Ug?8g)wiDYu4ldLS?_w*yPox~XT7;{u4lcua;|5+>sjx5
z*1Mkdu4ldLS?~Jlg?`Dk{^^DO>Vbago&L(P{>#06kbC{(AvbbtALL#R<zD~!$fe%N
zkzC869>}ep$&Fsf2QRtR3%TSW$9mVi$gTU!B`-PVDHrl2r#$6OUgTC@<gUK;tam-@
zUC(;gv)=WrcRlOPm2*Ao&6RUK>s`-!>p#zW*R$UBtam-@U0*qn7rBx@Iq-AjR=)jx
zevTZvmt1*IJ<>nV>pk^=kKDSm-s!)4xU=57qu$ApyUT^0;btf76EC^26LKvda%iXQ
zpS;MKozfe5)B`(dPvu$e?WA7ni(cuUp4PXX^{!{V>sjx5*1Mkdu4lcua;|5+xpJ;&
zz3W-;de*z1^{!{V>sjym>V<yEwf^aa{_25#>7D+{vHr`weUN+o;~_V4Y#-!a4&`3|
z`N*Z-$&p;kp&rPsp2>|~$OkXE)eE`gA;)^xyvVKl%Ox*4<|!BQB&R&(PG00zUgWO6
z^{jV2>s`-!*R$UBtam-@&6RUK>&=yOJ?mZ1dh0*Wde^hw^{jV2>s?>}y+0>6{+#FY
z9C9Nc-rsx5t><tz?<KeL#>d_D#(Q#dSG|#E`QWGra-rw$ZZ|mUogC^pANiF#yCN5M
zOz!N0zUznF+ci0~lX7pT?2-QIogK7yc31E0tUax7J?mZ1de^hw^{jV2>s`-!bLCvm
zdUNGm&wAIh-u0|^J?mZ1de^hw_3f|w=ll2d=k<B|ynUa(Z|~82^`5<VJveczXT9Y>
zE}EC-sd;N2o7d*Kd2b)um-eZBYaiR!`qs1F^{jV2>s`-!*R$UBtT$KA^{h8n&h@N!
zJ?mZ1de^hw^{jV2>s?>(<sP2L-F;84&tbf;yZRp7nt$(kxIdWR_kH3X+;->R@6D&@
zm8-||`<wIW9&)oYzyEwbefYlhzH+>rKj8bR{_ZcQ&*snjeso_wcryRq_aA>b_5T}Q
z%%9_@ClBZMAI+zH$??<q{q6abA3a&k?{Cbfyvlif>sjx5*1Mkdu4ldLS?_w*o9n#p
zVmbeVXT4v|zvo=fde^hw^{jV2>s`-!*R$UB?XUai`}g(d^?CZdeV@K>@6mhpp1pTH
zIB~0Iy@z)p7tKra)Vwv1&1>`AytfbSOZ(KmwU6y<ed}58de*z1^{!{V>sjx5)|)Hm
zde)mO=X%z=p7pM0z3W-;de*z1^{%h)UBB;p*MH}G*Wc@V*U$C6>$!aIdT!sl-plu{
z_x8Q(F1~l&&G)Xm`rdVS-@9Bmar3>))lPGl1G(_MD>uG(<;wT2-1**>OW(V4>w8zO
zeecS>?_Is{y{k9AclFBmuHO0H)l1*IdRyOm*1Mkdu4ldLS?_w*yPoyt%DJBP=E}LA
z^{!{V>sjx5*1Mkdu4ldL+h6z3_wVb^>+|$^`#yc&-lO;GJ$vtZaN<_addq=aG%w9l
z^VU2zug!Dw-afQ1?Nj^KKDMv*t!KUKS?_w*yPox~XT9rLZ?2r{S#PeK>sjx5*1Mkd
zu4ldLS?_w*yS~1Md_Vb~^Zn<0#rKWxQQxn=H+-M?9`ya_d&~Ek?{VMnzBhcI_#XEC
z?0d`ineTbu|Gt-eU-|zLzJKahfA^4c_jOl!mScY0<W)}H-`({^Pvl2#<W)}jbJrI=
zkuSN@2R)EyIj(O#>s`-!*R$UBtam-@UC(-R<y_BtbLCvmde^hw^{jV2>s`-!*R$UB
z?XUai`}g(d^?CZdeV@K>@6mhpp1pTHIB~0Iz2!hInwRFOd21e<*XFr-Zy(y1_Njeq
zAKTaZ*0bLAtam-@UC(;gv)=WrH&@Q}tT$KA^{jV2>s`-!*R$UBtam-@U0?sbKX+^K
z{vUtN^LdU-^Y8D?r}y`s*XH*<hr4;NQ}gdH&nF*uKR3VcJvq7SvHAD6=Tkm7o}S;A
ziwpB>cfT>e=6HO5Er;{V#r63g@+)^I=J(~|&iq>L*5=pe=TkrA{>=Qo9A24U%l*mu
z^~L$rKfOCUzkhQ+@6V^+U7cUwozME#v)=WrcRlM}&wAIh-u0|ESI+gUH&@Q}oHPCJ
zUC(;gv)=WrcRlM}&wAHaPxMVMmh)nAuYY={zj~lwa&HghT>sr&F63VS<X-ON+&*xS
zJGs|?dC@mLkXyNzQ~A&@9&)J{a^v1|tS53S4|1t@a>PT9dC0B2$RTgJkq5cuEtm2m
zhxM&zz3W-;de*z1^{!{V>sfEEoa<R{uAJ*x?|Rm|p7pM0z3W-;de*zX+~tG2pCecD
z=fC%J<W|1r%6rPGJ9-}PsYm)Jx9+Sb+`O+l>!tp?m%i(fT<E2o@v$#F<id{FCpnNq
zJ0kb;AV+r0{>hyl*fG75SGiu!1KC%7&>K6dr~0Os^{r>U>sjx5*1Mkdu4ldLS#PeK
z>sfEEoa<Tdde*z1^{!{V>sjx5*1NuXqHlVkzjCjCdZ)j7pkH!t59D0`-CZu^UjO7?
z?&RD)aF9E>*ME7@H$9MBxtCM<&@UcxsTXqN-g2xbaw`vVsdsY3LymdKt-Qz~Z@G~N
zx#caF@*{`!t!KUKS?_w*yPox~XT9rLZ?2r{S#PeK>sjx5*1Mkdu4ldLS?_w*yS{QG
ze{v<?av{HRs}FJ|pK_&da-?5+p`YHzo#j^FJ+FT2g?;e8T=m+W-N*j8hrO{QTshk>
z9&*Xc-tm!pxw3EaAeZu@SMs4(@~$`XDfjZMck-%N`k+_!t!KUKS?_w*yPox~XT9rL
zZ?2r{S#PeK>sjx5*1Mkdu4ldLS?_w*yS{QIpK>CP-d{iDMBdy}|2&_5cwhaKEBWQE
z|DIpp+*|)Wzy9#HFLEu1?r9JB*cUyKYxmM$d9!ak?1%i=J0AKg?|LK;_DkOEp*+Z&
ze(0IJ$*=tDnY`;wed}58de*z1^{!{V>sjx5)|)Hmde)mO=X%z=p7pM0z3W-;de*z1
z^{%hn$e$d@tDMQZ9Lb{`>xbOvlbq?F=XX~<(O1u>&vLB)-jAc6*bDd7Z|`qk+{+&E
zv?uN_hurNM4>{*&|M<(HoY^~h&?EWLGkKJA`PU=))Fb)ULw(Sz`qs1F^{jV2>s`-!
z*R$UBtT$KA^{h8n&h@N!J?mZ1de^hw^{jV2>s?>Dl2192NAIs6aw2c;sehhNKfJI0
z$(8)_)_>2hZ|<%Co?m}>+ZVZ(L-(`?eC&&!$hCXvue{ke9`-|i>>UsNm3KXo2m2*&
z_D~+=O+WNZ-sD&Q^-SLNroQ#8cRlM}&wAIh-u0|^J?qVtb3N<Lm2*AoUC(;gv)=Wr
zcRlM}&wAHa4&_O1<wNe}OD^S059C*`<VO$X%N;$pUh0Qldrmtbzudf+UC<Br)Mq>6
zE_TTs`PmP7b9cKX2lC9x?s1hj?siS?^hHkeORnTu4)sYd^hIv<QSS9iPwHFGde^hw
z^{jV2>s`-!*R$SSIoGq^TshaX-u0|^J?mZ1de^hw^{jV&-QOK~x*IQd;mL)EJIaf@
z$csDZz5DZWH#_1k^5hP7g@?Sjn_b{!cihR&xQiX&Vt4dUUfk6V>6hJcSG%MC^25yz
z>7U)vH#=h=^j?4Mj{e&f{k0?ZpuY92cRlM}&wAIh-u0|^J?qVtb3N<Lm2*AoUC(;g
zv)=WrcRlM}&wAI_-{-%R6MxS0dM-JU5BKoia_Z;0pZAbc`QybwPrMf|chnR4mKSb%
zAt!q6&US*E9?GR&>z_Q!nH`Y_yCr9KLjUze&h41|*+n_GTlPu+^vo{WKf9}EcGtev
zx1RN`XT9rL?|Rm|p7pM0y}5F(XT7;{u4ldLS?_w*yPox~XT9rL@A|sGJMwflUhcw^
z3lDdc7k7~tchGzH=jCp8#9idc9qbAZd2u(pz{&2olbvxFJHW;6=%2i}s~yrWyW_5Q
zNB`xAn;p_WyQ6P*#y;r1{@NY=w=4Q<N9;j;>sjx5*1Mkdu4ldLS?_w*n=9vf)|)Hm
zde*z1^{!{V>sjx5*1MkduCM3ybKS$w^}haI_wiod$8+)Vb9wl=yxh%w<x@VqmpsU$
zyto@r`Q@!I@~RK=DgW}NpYqJxuIQIO=%?M%M|qboyQ1HA(mvQldtevso87WEcGZ5_
zMf+qo?O%QCS?_w*yPox~XT9rL?|RmoE9ZLFn=9vf*1Mkdu4ldLS?_w*yPox~ulMm>
zp5M=LPj~Qqehx2pbx(QY)%<!6dC_0@mq&SNf8<jh_1F8_6Zy~&dDA!dvrjzrL;kxT
z`X~SPfT#Z1#qO8>>xX@jGyS)t_E2u^iygIhcG14ox1RN`XT9rL?|RBF?|Rm|p8CU^
zE9ZLFn=9vf*1MkegLggaT~GVPyPox~XT9s|dHr1P=kIYJ&*Aw!hkJQX_xE#nc@FoK
zM}F?eU;gC9d-9W4`Ef@*;VzHzF2DMrmvUxD^hv(?+bJIUp|5sCpXFcP?4Uf@O?zRd
z?2Db0e>-T8?5up-P5W2hde*z1^{!{V>sjx5*1Mkd=E}LA_2$aCp7pM0z3W-;de*z1
z^{!{V>+5|ym*@9$+|wOApP$3aUENdOcs0MCLtgaP{pC?!+8_CpNB#A__C!APL*Dew
z{p=G@{gD6ehyKaGJ>aQ-cCq`V|N3EH<V^qVs6CWh`(j7!on5qV^{r>U>sjx5*1Mka
z%e$WSuBZO+=E}LA_2$aCp7pM${oq~Cde_r_@vdjR>sjymdS7?&yxzlo-QDwePJUe7
z!=2opi|6s2@*`L7;ZFSJ!uz^|e94{nlUr^axyyl^+b_M*7dvI2^im(?(*Ed`KG{M0
zXBX^&T-qPb`fLa7pB&i>J7?eQlzpmiJ?mZ1de^hw^{jV2>s`-!bLCvmdUNGm&wAIh
z-u0|^J?mZ1de^hw_2tQp4+sAG>HhAl_xjD#o#jJ6-P;}QgnsjMclpszKJI8o^xOUI
z2Y>yMCw+8pd%??{?To(j)+agAUtS#SjQ!xPZ*rx-yg1nrd%;^j?Swthd;P9&J?mZ1
zde^hw^{jV2>s`-!bLCvmdUNGm&wAIh-u0|^J?mZ1de^hw^_6@5kyCfl8~v0+chO7z
zmSc{3A{TP#4tj1s<d~!0$(@{X&~rI;AN!*xa-(;0=w9|n?m5~CIoBJx(Q`R=UygQ4
z5A;&b^jwa4ahFp);4N2jDd+Mem-Ve@z3W-;de*z1^{!{V>sfEEoa<R{uAJ*x?|Rm|
zp7pM0z3W-;de*zXJh}1Vz+XSz-<|bdzj?Z|eCVfpyQ7`ZZ=UWhKl;hX9qovIyTAS5
zuRrpnkM3<Rc)7Ek(RbeZBuDzoi-Vo9AH4NVuJo4|Cp%&<c<ZN~um^gt-}S9$z3W-;
zde*z1^{!{V>sfEEoa<R{uAJ*x?|Rm|p7pM0z3W-;de*zXdL#etBd>a?Kkgxqdaa-Q
z<XIl{#rw;n-OzV_@+@!q=l=34pZe}T_D5dyMgH{9z3dS``Im2dAuswPzxvM4o#o$N
z$(Mf0ufFr<Cjas(Pu%5OKIKua>RZox*R$UBtam-@UC(;gv))`e*R$SSIoGq^^{jV2
z>s`-!*R$UBtap9&PCxZX-+1b`p6HW2$cg*vFHd`*2l^uqa^&9n%hO)yfj-KEoavEV
zxwpRavmbgRM|z^4@*#)ruiw1oNsshXp5%~^e)E<uz0*(mku!e!Egy2kTQ2Hb&wAIh
z-u0|^J?mZ1de^hwTshaX-ds7?v)=WrcRlM}&wAIh-u0|^ecjvL+{b(Jba(gg9`e9d
z58Xkp-C2&khkVI_9=e0w;G##~)9%QDoXe%&yQ3Z9BKLBthwfy@<Vf$`)lSKQ9_o*s
zlVdx=%}&XIUhAiwlUKW;-*!ws?T-DZZ$0Z>&wAIh-u0|^J?mZ1dUNGm&w6v^T+e#f
zv)=WrcRlM}&wAIh-u2Zx{nR6U<Eh_zqEGT5C+@4iJnexV=#M<ek$dYePkW&U`X~=_
zrblw+-ulkZe&~%H>4|>Iha9@Ue)E<mJ<?Bkl0!cF&0D_oPCw;G&iLuKe8>@Rxu|bF
z>s`-!*R$UBtam-@UC(-R<y_BtbLCvmde^hw^{jV2>s`-!*R$UB<;B(gIq9VwxGx92
z)_?cqs+V%&e(tW<_QJin>ZKgHA1A%GC+=@Q^hOT!P_EqDUbrteJ-0V{#9eRY$^E(6
z4SS<!-1Szz_;9lm_Czna+W~u_*ZN=Ide*z1^{!{V>sjx5*1Mkd=E}LA_2$aCp7pM0
zz3W-;de*z1^{!{V>#Mh%^_HvNa@Sj~ddppJx#}%<z2&O6-1U~L-g4Jlu6oOzD`&ms
zs<+&^a@Jd}ddppJx#}%<z2&O6-1U~L-g4Jlu6oN|Z@KC%cfI9Y-+I=&p7pM0z3W-;
jde*z1_2$aCp7rL+xt{f|XT9rL?|Rm|p7pM0z3clgkaAO0

literal 57680
zcmeI2OOIVw5rsQW?2co{ArHrK!s9w2v^%sD+wm(lV`d-*FkpltVgwU{92g;f1%H?z
z*Ox&_rS%Ptbha#KvW2-i_v~7$)>>7!|NGlN{N{ImeC6oZNB=(g=IM8Tes=QsaPq6a
zJvuo%oc!h6Xa9Wm_22*W?Xz#5{{P>9|Lk8+zyIg&{`&Plo__y7Z{E3k`|R-G_UYN-
zKZpA7jidVS{W|Z~c~<9@IzO-Tah<=YlLx$0|NCK`pVfJ(&e!U^QRmO={HV^i>U_J-
z59)lq&Y#tJtIm(>yjbVEb>6A-QJp`j^L(9G>-=e*r*)pxd8qSVoww`!ah-40`C*+m
z>-?(DPwIT7&I@&3uJf05ep%<WI?vVlYMs~Xd{XEAI^V1Fi#mT)=W(5%*7=~${`~1Z
zc+Yg7{`~1ZruXjmoAB(ocV0~V={%eG*m0cjp7_yulz0a}Q=b)VN4>A6{_8xO@Pn_@
zJ*fx0nQ#UFiNBp+Q(t%dEN-?gy`MW?;A(lA^as9zU&6WT68z{qn)I{t8vUJkLfsPn
z@FeLOJWKiw&bBV-^i&V(cBltVxPrgsbJAsa4bF)V=ycb+&Np<Q=TGlJ-=+KX=TGmk
zweDK~Kxg3D#7FuQ94EYczrc^qqtuV^)9TQae|rC2;lXuI?~(Y<efsmK_vrdC=?MLq
z`q=V5@f|*<z6I}zADu_&QPQo{XY^yrRrsU5ujTWUTRT5`{+;mQKIz_5e&n9iW6HrD
zr^m(jiJ$Oznm1@0`o-oyn}^bTLjO#9(sjr3Ak7{0g{|LN6)Ne>#roXD6ZmBL0v{4@
zZrArF-cav^3v*%8Ez1L|_nqI<eUkp5Q%P^RU+;sdUu^z6)C1w!#K)8~$Rkr;={!oj
zgP-_Z*SoHZ_v;?`$<%+J)aMc(EDus{!Iy0PzO47VR%fpp^|f<UJ?04AocO{#ka&~w
z7rth5XUfg+#PYy?ZsPf&3PwNdrMnY<JI`0w-HE@Q=e93Xe^a02L(~nvCSG^FnRxbb
z@dy2azn$l{E=i}T+vGppr!1c*o#=XEbJ#R*bf33#<6e5YwJ#*z!OyMrwBtD8ZGFM^
zN6K^X!M<PeE8f5N!PGBX=e4Q-yG~4c((8Jt!r)JnkJ<hpPjo%*`egmc>aOKIdY*JY
z<t6TC^_1L}@?Dx|(c6yWg!iq&xAUX($mTz*yLN80_nq$7>yUU1-|gIJ^(D>6)Fb&g
zI3<3<<Gw$c`o-!Hb77hvdp}Qo-+4CivF|&ky~yM%Me`r#k`L-1(tXn2ihEwK=Oy2q
z^b_8}Pxe#v^VA17>U;6AiH|ntO#J9Pvi$*H6R)?f^Im+}y3Tv?#rjdg75r^~?1h`<
zpY4ymaI^fI@@UVkFY$dYuwDON6nvRi(p-ZtrF&ann0%`Hnaxc$|E->zY`@w0gS}JI
zEvxq@l{b1`>AWC+rh40Z*g4A1A5)&{xvS3)6VImH+VicQqb%?3eN%s<16}_opRn^n
zniI(1MXMk3`IO_Q`gfcXKjHD#dy9_u#EaAy^pE9z+8fZ{_P*>dQh!=L+dU>cOne2u
zgmaq5$fbQ>PHydbY<W7(r#;`=+-dJI@vZan?Yc;sgKeJtw4Rsvby}ZG`1LwX^?bjc
zH|a(F-$#~z^hxTcG?(KeXY~R}&pSR7j_=m<QhoUT^qy&NKpsP<lb%~X+x@Q1oz}N*
zR{fHH9oOd)uPt8=^}KYSK4(nt!S8U%A8bCbx;yn@=Og}=e9rnz;vM`<eMUb{`rdtD
z%0HcNwtlPgz}9bd9(3RCxPrgE@9Mg1{bP0Awf<q}+H<A5>A6Yg(c#r|nDwL8bC{ja
z?fgNGNqNWSgX#CI&bLW-x<1()o8}^XDCJjpVtLP;l=yFT()!>_e4h(g?}rx!U#sKr
zHQhVSmFS+$r)mE|eoZ-?yl(S&$9wAgzV|v`e%Jf(R{cA<r|S<oW&6$MCiG}}f9{#)
zBJ|?r?+ed?yij=JSIj?YPMUD<{II;YdnDd7&E0$Xs?7&Uf6%GDd^PnM{b+SE@d@79
z{9^087hk$=PWo!=ycb`rp4xk?uDkZWcE6T%3Vy=>)F)PV)4q({LheX9ZSQOI3;LFL
zZS{rwq<g1(QV*M7R?lH&@A3Cgt5=Wff#fZGp!Yxf(Uk8jpY6V>|NX$kAFD$T>%O1W
zIpLjt|03V?xqiwicAl~NV*A6s-*MF=<&)F;+=K&oP5#(<ndT1iC-qLaSiQ3Qd)ps(
zt1hWeUaQZgypwbf{8z`#@^5wAEdM4w>AEw`<GpX_r_^_rr-`5NcxxTE`nS4{v#&{f
zy;^;q@UuFU{2Bc1?{8LLEN-?g$#>}!%TwzgHYcXMPOd)`z6obrztwqQ>$f@&>>ObC
z7VtIk8r~#+y<WUx?@IpZJnuQG`v(5<c|8w(m~`Y`eJ<%Q^KHthm+N^`9wryqIUx1f
zp}y}yooT*hE=;_(zTfw*Q+-mtCeJ;odyw-cy`K2dd1U!)^QoQpQ*OZ@@6>%K9>e!O
zmrlG+xPt%cxLN+Kj+^D*w14P07hU2W#OmMbI&SrEbsbN-jDDv%pT0=`f)6D>MK3K+
z)BH|9TEDcuaJ`71`~kg8x@z_G!}{LDFRS-953P=y<=^VKS^nYI31@rX<oEEm=U@7@
z^MhPT-%t3Ev(mlOJ*h|cr^(0IucY}FeM>r+_7KctcD}SeXmPt(x-sDeu67Qf-U%0r
zN5TQT5)R;H`Dgb6X&yt5Ep9gNTD`Y^4i6JwFBM<#&&g+}{_40N>Uk+Yr8x_~Wo}6G
zMVj;Rzw~<={Iq*LI}ci3?S;qIyxI$ot$CGn6uq_g-7D`-zTEY*`#XNYJ*mfDc{k+;
za)!-ANvF^={3iL*&C<WG>YQ|VYdp5*mGz^o@z|PICxrtzPI%kAwzUs#t-IDgw)VlT
zb=T@?*QH6n?EW<I1U~JBo8_O)FMHu;`8WAb$JyR@^|{CLx%>9yCwt93$tUsCG@sy~
z7Pr&Vd-`<hXFE?@{#iW8C&@RhANBcb(g)^h=9{Viz$M{lar><BNWNtE4AbwapV#+L
z532{$?|e_{dFZ3<Ba54@OTr6WEl<-N&Ad(DC7hY7lV7KPq;L1aV{2aRg~!&svU<?{
zc)CA)O}tL}!+Tw>KArpzUAFV!oqAsKhpsmhf2Ms}*F(D}wEkiBlznE}PuV@!>bP0{
zt&W@JpPl0m#rtVKM!&cA!KrWh{kHb=t$lE7-JSHa>+D;F8+thPU&0mqZGPDcH_Jbp
zU-rVy@-O8o@|V@Cw3lRmX}`DV7ymBko%&$!>&_$VNBrGN+QXz=Kz?Aa-TSNe;rY5p
z+Eda`sqgxnG38&2o7IE#dms74`iI4X`6BT@;Q(Hie{a+W6A$sZgrCJN@dQ3~o^iik
z2l$$Jy>;HTxoPsB&da^>Zqgt4VfEDRl_xwq?sopz8jr1cW#^Br@z|PIX)eOAY~EO1
zcYB{s{k*#FcHQiKMn9szNvADt@FDTW`uSctEcqWkX?;KW75W1%2|tS)``am3;p61!
zRPXd&y#Lm}$KR}mOT4jlw)r6S1vucFNzZMb{Iu?y_+@=&(y^|0wtlPgz}9bd9`L&W
zdNb*gy|2}SG@mfXyiz<(xx?nfbWiH>sJ=Jt#q8d;_rcUJm+E_yANIL^(g&Mk`CTtP
z_e#AV$E3sPR?@dLzaQ$0lHZdH?7qqR(Z%|Hd}q?7<bU+V7xlcfXG=bWU*YRXR}-$_
zzdCM~f2-qW`FF1Pl5jq*&n2C<`UhVVulLe%%jeZ~{H$<GytcR{yudZ-4?4Bi?-kQL
z+4a}*&+ZSbe^}ho??&VTo3kzNQ*NOz_TtOdb>53FR>$${<m=?##A|qy_?2=bdDG5~
zX<o#CnETP2iD$i^Cmc&A<L_Ww{|;gI#SiNR6R*?$13uaNPPxD9#Jzf8%F&6R@Hpj7
z@=D6h<TRT*4|R{Lbxyizd1~i#=ECH|tLtv(#l#=$Z&SbazD|0E?rrVU)12M)^CiB|
z8>-LqFABa%m(lN%mFP25-}L_4T6e8~tggG(KVB_Bl1^W!&*4v#k6B+pkCJY69hvlI
z>l~JR2t8XphcSmF-?V(O``DD5!PWAL+?)7i@vynG>-FT@mVb7S4!;r))9+R2=-uky
z>HWDU`8esI)xWf#CYRcK;3LUzl1{-pa&+Rq)yb5b4~2vEEzA3aEBLRDo8{l?xLN)k
z7atPN_P$pCR@ZT>f2->_zx(vuiY}vj7LO_a;HUVm<x9$a=$@@JI+OIs{(T}ko%+f4
z(X`J%m(g!<N%+~lUZ2;exzE;bbspIIt<D4M)Aqh8w~%kHlrM0Q&pJQIPbp`?>%{-G
zzoZ`1{MY-{`uWAWXv!z=)#uQqNx#0R&!yktQtm@X)7*i7r+JpScdx&@xnFfjb+mre
zeP`08OZB~JPD(zB9^1Kg>YLtQmM^R0X8E@|ZkB&VtIhU_R{vJlam(k`bsW7+ytcSm
z9eSgP)pI)fgH9dlbID&V9-q|nlFp?448GfSZqmcFA4G4he^}g--;)b$&fdDtd+}xK
zI`737tK)XQOmijq7~Uj)r5s64O1YW-@A@$52suCb$dsqLf1fMeAg@ljHsxXZ$LeXC
z%b5r4UTT_)`}}P0Yxe?n--He(y@ZE}uk33Q&dCq(4g2?mmZvw0SBbCozW7qoqtv(b
zcba>dkL`S(?nyl??^8d*W2-~xOwuFf^wh`9t!ciU^n~~4o>uQI@6nG`Z+j1`L)MR`
zJk@hontRC^Z&tshykqss^4{jP)p4`@TOBvczcinaKkR+2{;jU#R{xT&pg-ta(!s5D
zJn1sJXYWf+NO=N1O1cHV5)TihYstUJpDCwWy-GO)9(TQ-`X%K)@}ZsIdaj-F?@N52
z6R7v$i-ND^OV3-A9_=;vO#JOUw>cu|6neJx++*jNq>t#Rom1>wc2;_tbc;DD%~RI5
z(%gZ*r?~??vw0)U$MDJaNAeeZ$nM9jPhTtC(tBFo+j-%nzV}ckICVU&4%wXD_f!*(
z^hxR`_U<Wn;KRwUC!g<qW#_20&x7y%`O|x_zexHq;n{JweQ9}5eo8)Ub?Cj~XVN43
zGxhQ0kG=oECE=IuNj>TsoBb|{UMBo3ZniGTH^9~MH0cj~wR(EJ3jL(cNx$rzXXgs5
zYe~=0y|nK^=WSh5J*ZpHWmA5$d``NIeuH!3gWZEzy@#)f*GYfSsqUZCy|&JElaF>@
zcAcC0KItfWoAd{rvU<vXCG{tKO}w@|n0Vg%!Pf7%8iak!)TgKQxrrz6$@0a{DdgkC
z8=E`ryk&V{eXH|(y3by^YyG41Y~tfyx|{lpeoVQPTyUc<lK5bG@KHT4@xj(F?Jw~)
z^eyS&)c;*4COz)Dll%%_quvRZLlq{?4VDL1uU4OXQvQd(<ov`#a7p-)CsOXfhm&91
zKI;3_Nxzb>!Rsl1qZjb$TJf**y!V6kBl2;|(aCr5XPYBd--FnE04@o?$)~!XC0xND
z-Xwm3OTy3MX6v$7ZnAo6ebvrUtM8R<UC`;I=Tm;{xx(@}=`#AA@&h>|%|*;l{{z6w
BQz-xd

-- 
2.43.0


From 4ddedf39032ed8be7b13caa2b3db49f7e257f180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:14 +0000
Subject: [PATCH 24/30] fix: cell identifier depended on the integer type and
 memory layout of the species

---
 ababe/stru/scaffold.py | 2 +-
 ababe/stru/sogen.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index 03010cb..2df6b3a 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -329,7 +329,7 @@ class GeneralCell(object):
 
     @property
     def id(self):
-        num_id = xxhash.xxh64(self.numbers).intdigest()
+        num_id = xxhash.xxh64(np.ascontiguousarray(self.numbers, dtype=np.int64)).intdigest()
         return num_id
 
     def get_spacegroup(self):
diff --git a/ababe/stru/sogen.py b/ababe/stru/sogen.py
index f0d71a0..f72bb89 100644
--- a/ababe/stru/sogen.py
+++ b/ababe/stru/sogen.py
@@ -20,7 +20,7 @@ from itertools import tee
 
 
 def numbers2id(numbers_arr):
-    num_hash = xxhash.xxh64(numbers_arr).intdigest()
+    num_hash = xxhash.xxh64(np.ascontiguousarray(numbers_arr, dtype=np.int64)).intdigest()
     return num_hash
 
 
-- 
2.43.0


From 8850a6f744bca71809e95801a1ec7e74513392bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:15 +0000
Subject: [PATCH 25/30] fix: site order depended on the periodic image at
 rounding ties

---
 ababe/stru/scaffold.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index 2df6b3a..30fe7cf 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -274,7 +274,8 @@ class GeneralCell(object):
         to sort numbers.
         """
         # transfer the atom position into >=0 and <=1
-        pos = np.around(pos, decimals=3)
+        # (first, so that every periodic image of a position is rounded alike)
+        pos = np.around(np.around(pos % 1, decimals=8) % 1, decimals=3)
         func_tofrac = np.vectorize(lambda x: round((x % 1), 3))
         o_pos = func_tofrac(pos)
         # round_o_pos = np.around(o_pos, decimals=3)
-- 
2.43.0


From e15da4976b4d17d04716e0971a9dc93789d6c1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:51 +0000
Subject: [PATCH 26/30] fix: extending a ModifiedCell by itself ends

---
 ababe/stru/scaffold.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index 30fe7cf..e448f60 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -543,7 +543,8 @@ class ModifiedCell(MutableSequence):
 
     def extend(self, sites):
         """ Adds atoms to structure """
-        for s in sites:
+        # a copy of the list: `sites` may be this very cell
+        for s in list(sites):
             self._sites.append(s)
 
     @classmethod
-- 
2.43.0


From 2e5bc5ffa390e2b60fbc47c3cfcfc9e389c2822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:51 +0000
Subject: [PATCH 27/30] fix: translate_sites moves the site of this cell only

---
 ababe/stru/scaffold.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index e448f60..50673a5 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -603,7 +603,8 @@ class ModifiedCell(MutableSequence):
         o_frac_coor = np.array(target_site.position)
         new_cart = self.get_cartesian_from_frac(o_frac_coor) + vector
         new_frac = self.get_frac_from_cart(new_cart)
-        target_site.position = tuple(new_frac)
+        # a new Site: the old one may be shared with another cell
+        self._sites[idx] = Site(new_frac, target_site.element)
 
     def in_euclidean_discance(self, pos, center, r):
         """
-- 
2.43.0


From a2a507d4c20966d2e92506204e3b79fed3551eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:18 +0000
Subject: [PATCH 28/30] fix: superlattice symmetry ignored the unit cell's
 tolerance

---
 ababe/stru/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ababe/stru/grid.py b/ababe/stru/grid.py
index b0afa88..10152d5 100644
--- a/ababe/stru/grid.py
+++ b/ababe/stru/grid.py
@@ -28,7 +28,8 @@ class SuperLatticeCell(object):
         self.lat_coeff = lat_coeff
         self.unit_cell = unit_gcell.spg_cell
 
-        self.sym = spglib.get_symmetry(self.unit_cell, symprec=1e-3)
+        self.sym = spglib.get_symmetry(self.unit_cell,
+                                       symprec=unit_gcell.symprec)
 
     def __eq__(self, other):
         # H_j * R.T ^-1 * H ^-1 should be an int matrix
-- 
2.43.0


From f19e3ec541010498a46258e31c168e88bf2a3907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:10 +0000
Subject: [PATCH 29/30] fix: two atoms on one spot passed the distance
 restriction

---
 ababe/stru/restriction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ababe/stru/restriction.py b/ababe/stru/restriction.py
index 45e9c56..2e9b35c 100644
--- a/ababe/stru/restriction.py
+++ b/ababe/stru/restriction.py
@@ -40,11 +40,12 @@ class MinDistanceRestriction(Restriction):
         images = np.array([t for t in product(*[range(-n, n+1)
                                                 for n in reach])])
         # shortest distance of every atom to the atoms and images of the rest
-        for pos in target_pos:
+        for i, pos in enumerate(target_pos):
             diff = target_pos - pos
             diff = diff - np.rint(diff)
             frac = (diff[:, np.newaxis, :] + images).reshape((-1, 3))
-            frac = frac[np.abs(frac).max(axis=1) > 1e-8]    # not itself
+            itself = i*len(images) + len(images)//2     # not moved at all
+            frac = np.delete(frac, itself, axis=0)
             dist = np.linalg.norm(np.matmul(frac, gcell.lattice), axis=1)
             if not np.min(dist) > self.target_dist:
                 return False
-- 
2.43.0


From 379421baf03e6a2a1aa8672f786153ed038cf5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:10 +0000
Subject: [PATCH 30/30] fix: buckyball identifiers depended on how an array is
 held

---
 ababe/stru/buckyball.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ababe/stru/buckyball.py b/ababe/stru/buckyball.py
index 817d6b3..f34505c 100644
--- a/ababe/stru/buckyball.py
+++ b/ababe/stru/buckyball.py
@@ -167,7 +167,8 @@ class Structure(object):
         as an identifier of diffrent structures, can be move to
         outerside class.
         """
-        num_hash = xxhash.xxh64(numbers).intdigest()
+        num_hash = xxhash.xxh64(np.ascontiguousarray(numbers,
+                                                     dtype=np.int64)).intdigest()
         return num_hash
 
     def _update_isoset(self, isoset, atoms, sym_perm):
-- 
2.43.0

