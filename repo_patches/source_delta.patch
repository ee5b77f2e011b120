From 24b7d8f75968346c392953c2a36ef83e3b72ae20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:52 +0000
Subject: [PATCH 01/53] fix: switching double counting off with a bond listed
 in the reverse direction only

---
 src/magnopy/spinham/hamiltonian.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 29df8ca..007afd5 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -352,9 +352,7 @@ class SpinHamiltonian(Crystal):
             else:
                 # If mirrored bond is not in the model, then remember it for addition
                 if (atom2, atom1, (-i, -j, -k)) not in self:
-                    bonds_to_add.append(
-                        atom2, atom1, (-i, -j, -k), parameter=parameter.T
-                    )
+                    bonds_to_add.append((atom2, atom1, (-i, -j, -k), parameter.T))
                 # Remember the bond for removal
                 bonds_to_remove.append((atom1, atom2, (i, j, k)))
 
-- 
2.43.0


From 350c1a7ffaf5043d7931c5c77232f5fef5fe8d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:52 +0000
Subject: [PATCH 02/53] fix: do not lose in-cell bonds between atoms with equal
 indices when double counting is switched off

---
 src/magnopy/spinham/hamiltonian.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 007afd5..f5ddbde 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -331,7 +331,8 @@ class SpinHamiltonian(Crystal):
         * i > 0
         * i = 0 and j > 0
         * i = 0, j = 0 and k > 0
-        * i = 0, j = 0, k = 0 and atom1.index <= atom2.index
+        * i = 0, j = 0, k = 0 and atom1.index <= atom2.index (names of the atoms are
+          compared if the indices are equal)
         """
 
         bonds_to_remove = []
@@ -343,7 +344,12 @@ class SpinHamiltonian(Crystal):
                 i > 0
                 or (i == 0 and j > 0)
                 or (i == 0 and j == 0 and k > 0)
-                or (i == 0 and j == 0 and k == 0 and atom1.index <= atom2.index)
+                or (
+                    i == 0
+                    and j == 0
+                    and k == 0
+                    and (atom1.index, atom1.name) <= (atom2.index, atom2.name)
+                )
             ):
                 # Remember  mirrored bond  for removal, if it is in the model
                 if (atom2, atom1, (-i, -j, -k)) in self:
-- 
2.43.0


From a5920605047c4195c2f4789be8f39990e380d087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:52 +0000
Subject: [PATCH 03/53] fix: look for mirrored bonds among the keys of the
 Hamiltonian

---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index f5ddbde..f3187a3 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -314,7 +314,7 @@ class SpinHamiltonian(Crystal):
         bonds_to_add = []
         for atom1, atom2, (i, j, k), parameter in self.exchange:
             # Remember the mirrored bond if it is not in the Hamiltonian yet
-            if (atom2, atom1, (-i, -j, -k)) not in self.exchange:
+            if (atom2, atom1, (-i, -j, -k)) not in self:
                 bonds_to_add.append((atom2, atom1, (-i, -j, -k), parameter.T))
 
         # Add all missing bonds
-- 
2.43.0


From a5f4dba86fa27c2c76efcc6968c2168645df2a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:52 +0000
Subject: [PATCH 04/53] fix: update the mirrored bond as well when an existing
 bond is redefined

---
 src/magnopy/spinham/hamiltonian.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index f3187a3..cf96fdc 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -718,11 +718,9 @@ class SpinHamiltonian(Crystal):
         # Check for double counting
         try:
             i, j, k = ijk
-            if (
-                self.double_counting
-                and (atom2, atom1, (-i, -j, -k)) not in self._exchange
-            ):
-                self._exchange[(atom2, atom1, (-i, -j, -k))] = parameter.T
+            mirrored_bond = (atom2, atom1, (-i, -j, -k))
+            if self.double_counting and mirrored_bond != (atom1, atom2, ijk):
+                self._exchange[mirrored_bond] = parameter.T
         # If it fails, then we do not need to add a mirrored bond, since the notation
         # is not defined yet and it is not clear wether the mirrored bond has to
         # be added or not
-- 
2.43.0


From 1b81a5d57456d6ee43beb5807b8448699b93da87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:52 +0000
Subject: [PATCH 05/53] fix: do not rescale a parameter object several times
 when it is used for several bonds

---
 src/magnopy/spinham/hamiltonian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index cf96fdc..838fce8 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -713,7 +713,8 @@ class SpinHamiltonian(Crystal):
         if parameter is None:
             parameter = MatrixParameter(**kwargs)
 
-        self._exchange[(atom1, atom2, ijk)] = parameter
+        # Store a copy: one parameter object may be used for several bonds
+        self._exchange[(atom1, atom2, ijk)] = MatrixParameter(matrix=parameter.matrix)
 
         # Check for double counting
         try:
@@ -802,7 +803,8 @@ class SpinHamiltonian(Crystal):
         if parameter is None:
             parameter = MatrixParameter(**kwargs)
 
-        self._on_site[atom] = parameter
+        # Store a copy: one parameter object may be used for several atoms
+        self._on_site[atom] = MatrixParameter(matrix=parameter.matrix)
 
     def remove_on_site(self, atom: Atom, raise_if_no_bond=True):
         r"""
-- 
2.43.0


From c54c3cf5ef83787d555104b677c6034334e52c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:52 +0000
Subject: [PATCH 06/53] fix: remove on-site parameter of the atom given by its
 name

---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 838fce8..faf2f0c 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -820,7 +820,7 @@ class SpinHamiltonian(Crystal):
 
         # If atom is a string, get the atom object
         if isinstance(atom, str):
-            atom1 = self.get_atom(atom)
+            atom = self.get_atom(atom)
 
         try:
             del self._on_site[atom]
-- 
2.43.0


From 89609855058f9f7ac6ffbd35065ab3716c69691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:52 +0000
Subject: [PATCH 07/53] fix: remove an atom from the Hamiltonian with double
 counting

---
 src/magnopy/spinham/hamiltonian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index faf2f0c..8948ebd 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -958,7 +958,9 @@ class SpinHamiltonian(Crystal):
         for parameter in parameters_for_removal:
             # Parameter has different type (tuple or atom) but the same syntax
             # works for both, see __delitem__ for details
-            del self[parameter]
+            # Mirrored bond could be already removed if double counting is true
+            if parameter in self:
+                del self[parameter]
 
         # Remove an atom from the crystal
         super().remove_atom(atom)
-- 
2.43.0


From 2d06c05a2afdb22a8312110959ad308cea3e5fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:52 +0000
Subject: [PATCH 08/53] fix: scale of the on-site parameters written in the
 exchange form

---
 src/magnopy/spinham/hamiltonian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 8948ebd..72d872b 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -122,7 +122,7 @@ class SpinHamiltonian(Crystal):
         * On-site parameters: ``atom, atom, (0,0,0), parameter``
 
         On-site parameters are scaled with the factor
-        :py:attr:`.exchange_factor`/:py:attr:`.on_site_factor`
+        :py:attr:`.on_site_factor`/:py:attr:`.exchange_factor`
 
         It is an iterator.
         """
@@ -1056,7 +1056,7 @@ class _SpinHamiltonianExchangeLikeIterator:
         self.iterator2 = spinham._exchange.__iter__()
         self.index1 = 0
         self.index2 = 0
-        self.scale_factor = spinham.exchange_factor / spinham.on_site_factor
+        self.scale_factor = spinham.on_site_factor / spinham.exchange_factor
 
     def __next__(self) -> Tuple[Atom, Atom, tuple, MatrixParameter]:
         # First return all on-site terms
-- 
2.43.0


From 923f7477f6e7c3a22e2687084384bc175b42d1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:39 +0000
Subject: [PATCH 09/53] fix: energy of a Hamiltonian with normalized spins,
 independence of the energy from the Hamiltonian

---
 src/magnopy/spinham/energy.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 8141c8c..259accb 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -547,6 +547,9 @@ class Energy:
     """
 
     def __init__(self, spinham: SpinHamiltonian):
+        # Original Hamiltonian is not changed and not linked to the energy
+        spinham = spinham.copy()
+
         # Parameters of the Hamiltonian, private
         self._factor = spinham.exchange_factor
         self._atom_indices = dict(
@@ -557,9 +560,9 @@ class Energy:
         self._g_factors = [atom.g_factor for atom in spinham.magnetic_atoms]
         self._spins = [atom.spin for atom in spinham.magnetic_atoms]
 
-        # Force double counting notation
-        previous_dc = spinham.double_counting
+        # Force the notation, that is used in the formulas below
         spinham.double_counting = True
+        spinham.spin_normalized = False
 
         # Get all bonds of the Hamiltonian.
         self._bonds = []
@@ -569,9 +572,6 @@ class Energy:
             d = R @ spinham.cell
             self._bonds.append([i, j, d, J])
 
-        # Return original noatation of SpinHamiltonian
-        spinham.double_counting = previous_dc
-
         # Minimisation settings, exposed to public as properties
         self._m = 10
 
-- 
2.43.0


From 1b96f73343bedb848822ce5d182049753e04f440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:58 +0000
Subject: [PATCH 10/53] fix: crystal of the Hamiltonian is independent of the
 Hamiltonian

---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 72d872b..386b110 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -983,7 +983,7 @@ class SpinHamiltonian(Crystal):
         --------
         Crystal
         """
-        return Crystal(self.lattice, self.atoms)
+        return Crystal(self.lattice, deepcopy(self.atoms))
 
 
 class _SpinHamiltonianExchangeIterator:
-- 
2.43.0


From 9996a6e9b22307ef91635d3c8df45ce705e5a048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:26 +0000
Subject: [PATCH 11/53] fix: spin values in the Zeeman energy

---
 src/magnopy/spinham/energy.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 259accb..3261e41 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1084,7 +1084,11 @@ class Energy:
         # Compute zeeman energy
         if self.magnetic_field is not None:
             energy += BOHR_MAGNETON * np.einsum(
-                "i,j,ij", self._g_factors, self.magnetic_field, spin_orientation
+                "i,i,j,ij",
+                self._g_factors,
+                self._spins,
+                self.magnetic_field,
+                spin_orientation,
             )
 
         return energy
@@ -1202,7 +1206,11 @@ class Energy:
                 "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
             )
             energy += BOHR_MAGNETON * np.einsum(
-                "i,j,ij", self._g_factors, self.magnetic_field, so_prime
+                "i,i,j,ij",
+                self._g_factors,
+                self._spins,
+                self.magnetic_field,
+                so_prime,
             )
 
         return energy
@@ -1323,7 +1331,11 @@ class Energy:
                 "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
             )
             energy += BOHR_MAGNETON * np.einsum(
-                "i,j,ij", self._g_factors, self.magnetic_field, so_prime
+                "i,i,j,ij",
+                self._g_factors,
+                self._spins,
+                self.magnetic_field,
+                so_prime,
             )
 
         return energy
-- 
2.43.0


From beae82e9bb76531aad13239059835188c59facd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:26 +0000
Subject: [PATCH 12/53] fix: only the component of the spins along the cone
 axis couples to the field in the antiferro and spiral states

---
 src/magnopy/spinham/energy.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 3261e41..4e4f602 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1202,9 +1202,7 @@ class Energy:
 
         # Compute zeeman energy
         if self.magnetic_field is not None:
-            so_prime = np.einsum(
-                "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
-            )
+            so_prime = np.einsum("jk,ik ->ij", IK_sq, spin_orientation)
             energy += BOHR_MAGNETON * np.einsum(
                 "i,i,j,ij",
                 self._g_factors,
@@ -1327,9 +1325,7 @@ class Energy:
 
         # Compute zeeman energy
         if self.magnetic_field is not None:
-            so_prime = np.einsum(
-                "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
-            )
+            so_prime = np.einsum("jk,ik ->ij", IK_sq, spin_orientation)
             energy += BOHR_MAGNETON * np.einsum(
                 "i,i,j,ij",
                 self._g_factors,
-- 
2.43.0


From fc68c47a2e66e48fdb2fe57553b4ebb544bdad0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:26 +0000
Subject: [PATCH 13/53] fix: return c2 parameter of the Wolfe conditions

---
 src/magnopy/spinham/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 4e4f602..32895fe 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -673,7 +673,7 @@ class Energy:
         c2 : float
         """
 
-        return self._wolfe_c1
+        return self._wolfe_c2
 
     @wolfe_c2.setter
     def wolfe_c2(self, new_value):
-- 
2.43.0


From 092fe5f8ec03f9ed44c1c399a187ee14dfcd55ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:26 +0000
Subject: [PATCH 14/53] fix: setting of the spins and g factors of the energy

---
 src/magnopy/spinham/energy.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 32895fe..667c12e 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -738,7 +738,7 @@ class Energy:
 
     @g_factors.setter
     def g_factors(self, new_value):
-        if not isinstance(Iterable):
+        if not isinstance(new_value, Iterable):
             raise ValueError(f"New g factors must be an Iterable: {new_value}")
 
         if not len(new_value) == len(self._spins):
@@ -746,15 +746,16 @@ class Energy:
                 f"Expecten {len(self._spins)} g factors, got {len(new_value)}"
             )
 
+        g_factors = []
         for i, g_factor in enumerate(new_value):
             try:
-                new_value[i] = int(g_factor)
+                g_factors.append(float(g_factor))
             except:
                 raise ValueError(
                     f"One of the new g_factors (index {i}) is not "
-                    f"an integer:{g_factor}."
+                    f"a float:{g_factor}."
                 )
-        self._g_factors = new_value
+        self._g_factors = g_factors
 
     @property
     def spins(self):
@@ -770,20 +771,21 @@ class Energy:
 
     @spins.setter
     def spins(self, new_value):
-        if not isinstance(Iterable):
+        if not isinstance(new_value, Iterable):
             raise ValueError(f"New spins must be an Iterable: {new_value}")
 
         if not len(new_value) == len(self._spins):
             raise ValueError(f"Expected {len(self._spins)} spins, got {len(new_value)}")
 
+        spins = []
         for i, spin in enumerate(new_value):
             try:
-                new_value[i] = int(spin)
+                spins.append(float(spin))
             except:
                 raise ValueError(
-                    f"One of the new spins (index {i}) is not " f"an integer:{spin}."
+                    f"One of the new spins (index {i}) is not " f"a float:{spin}."
                 )
-        self._spins = new_value
+        self._spins = spins
 
     ################################################################################
     #                              Gradients of energy                             #
-- 
2.43.0


From bdd88c49f5cae82eb8c5b5a0eff967fb4a7c998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:26 +0000
Subject: [PATCH 15/53] fix: torque on the cone axis in the optimization of the
 antiferro state

---
 src/magnopy/spinham/energy.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 667c12e..d34a617 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -235,16 +235,16 @@ def _update_x_antiferro(x, search_direction, step=1):
             * 0 - I-1:  Orientation of the spin vectors
             * I: cone axis
         Second element: spiral vector
-    search_direction : (I*3+6,) :numpy:`ndarray`
+    search_direction : (I*3+3,) :numpy:`ndarray`
         Search direction computed in L-BFGS step
     step : float
         Size of the step along the search direction.
     """
     x_0 = x[0].copy()
     x_1 = x[1]
-    a12 = search_direction[:-3:3] * step
-    a13 = search_direction[1:-3:3] * step
-    a23 = search_direction[2:-3:3] * step
+    a12 = search_direction[::3] * step
+    a13 = search_direction[1::3] * step
+    a23 = search_direction[2::3] * step
 
     thetas = np.sqrt(a12**2 + a13**2 + a23**2)
 
@@ -910,9 +910,9 @@ class Energy:
         t = np.cross(cone_axis, gradient)
         for j in range(0, 3):
             torques[-1][j] = t[j]
-        gradient_vector[-6] = t[2]
-        gradient_vector[-5] = -t[1]
-        gradient_vector[-4] = t[0]
+        gradient_vector[-3] = t[2]
+        gradient_vector[-2] = -t[1]
+        gradient_vector[-1] = t[0]
 
         if return_results:
             return gradient_vector, torques
-- 
2.43.0


From 6f6a3ef2525a8bef12a5591a988a92fc59f769ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:26 +0000
Subject: [PATCH 16/53] fix: move the spiral vector towards lower energies

---
 src/magnopy/spinham/energy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index d34a617..073c049 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -305,7 +305,8 @@ def _update_x_spiral(x, search_direction, step=1):
             + (1 - np.cos(theta)) * r * (r @ x_0[i])
         )
 
-    x_1 += search_direction[-3:] * step
+    # As for the rotations above, the step is made against the search direction
+    x_1 -= search_direction[-3:] * step
 
     return [x_0, x_1]
 
-- 
2.43.0


From e10756407d5b9431dcc2aa20d08be6d680f25a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:26 +0000
Subject: [PATCH 17/53] fix: type of the error in the history processors

---
 src/magnopy/spinham/energy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 073c049..a7df89f 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -418,7 +418,7 @@ def _default_history_processor_ferro(history, filename=None, nspins=None):
     if history is None:
         if nspins is None:
             _logger.error("If history is None, then nspins is required.")
-            raise RunTimeError("If history is None, then nspins is required.")
+            raise RuntimeError("If history is None, then nspins is required.")
         header = f"{'Energy':>15} {'Torque':>11}"
 
         for i in range(nspins):
@@ -448,7 +448,7 @@ def _default_history_processor_antiferro(history, filename=None, nspins=None):
     if history is None:
         if nspins is None:
             _logger.error("If history is None, then nspins is required.")
-            raise RunTimeError("If history is None, then nspins is required.")
+            raise RuntimeError("If history is None, then nspins is required.")
         header = f"{'Energy':>15} {'Torque':>11} {'Torque_n':>11}"
 
         for i in range(nspins):
@@ -488,7 +488,7 @@ def _default_history_processor_spiral(history, filename=None, nspins=None):
     if history is None:
         if nspins is None:
             _logger.error("If history is None, then nspins is required.")
-            raise RunTimeError("If history is None, then nspins is required.")
+            raise RuntimeError("If history is None, then nspins is required.")
         header = f"{'Energy':>15} {'Torque':>11} {'Torque_n':>11}"
 
         for i in range(nspins):
-- 
2.43.0


From 75711e97ed043bad74397e1efe11081c5bf02675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:30 +0000
Subject: [PATCH 18/53] fix: sign in the sufficient decrease condition of the
 line search

---
 src/magnopy/spinham/energy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index a7df89f..5e13814 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1747,7 +1747,8 @@ class Energy:
         nabla = _grad(*_unpack(x))[0]
         i = 0
         tmp = [[], [], []]
-        while energy(*_unpack(x_new)) > fx + (
+        # The step is made against the search direction, see _update functions
+        while energy(*_unpack(x_new)) > fx - (
             self._wolfe_c1 * step * nabla.T @ search_direction
         ) or abs(nabla_new.T @ search_direction) > abs(
             self._wolfe_c2 * nabla.T @ search_direction
@@ -1764,7 +1765,7 @@ class Energy:
             # )
             tmp[0].append(step)
             tmp[1].append(energy(*_unpack(x_new)))
-            tmp[2].append(fx + step * self._wolfe_c1 * nabla.T @ search_direction)
+            tmp[2].append(fx - step * self._wolfe_c1 * nabla.T @ search_direction)
             if i > self._wolfe_iter_max:
                 print("\n\n")
                 # TODO go into the details and deal with the failing cases
-- 
2.43.0


From 75ecb3c972b40f2601dc6e947dccf02431dd73bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:48 +0000
Subject: [PATCH 19/53] fix: error for the initial guess that is not array-like

---
 src/magnopy/spinham/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 5e13814..0b532fa 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -56,7 +56,7 @@ def _starting_ferro(n_spins, initial_guess=None):
         try:
             spin_orientation = np.array(initial_guess, dtype=float)
         except:
-            raise ValueError(f"spin_orientation is not array-like: {spin_orientation}")
+            raise ValueError(f"spin_orientation is not array-like: {initial_guess}")
 
         if spin_orientation.shape[-1] != 3:
             raise ValueError(
-- 
2.43.0


From 84bad5bce4bfe8034bb00f00a5c01ca268a58263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:03 +0000
Subject: [PATCH 20/53] fix: output the remaining history when the limit of
 iterations is reached

---
 src/magnopy/spinham/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 0b532fa..e41db79 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1576,7 +1576,7 @@ class Energy:
                     f"Torques: {torque_targets}, "
                     f"Energy difference: {energy_diff:.5e}."
                 )
-                return _unpack(x)
+                break
 
             # Compute gradient and torques
             _grad(*_unpack(x), gradient_vector=gradient_vector, torques=torques)
-- 
2.43.0


From 3e08c08b90ea3a168efe5930124d039bbe3431e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:38 +0000
Subject: [PATCH 21/53] fix: angles of a vector, including the ones with
 negative y component

---
 src/magnopy/geometry.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/geometry.py b/src/magnopy/geometry.py
index d162c81..2d6f868 100644
--- a/src/magnopy/geometry.py
+++ b/src/magnopy/geometry.py
@@ -40,9 +40,12 @@ def vector_to_angles(vector, in_degrees=True):
         Whether to return angles in degrees or radians.
 
     """
-    modulus = np.linalg.notm(vector)
+    modulus = np.linalg.norm(vector)
 
-    if np.allclose(vector / modulus, [0.0, 0.0, 1.0]):
+    # Direction of the zero vector is not defined
+    if modulus == 0:
+        polar, azimuthal = 0, 0
+    elif np.allclose(vector / modulus, [0.0, 0.0, 1.0]):
         polar, azimuthal = 0, np.pi / 2
     elif np.allclose(vector / modulus, [0.0, 0.0, -1.0]):
         polar, azimuthal = np.pi, np.pi / 2
@@ -52,8 +55,11 @@ def vector_to_angles(vector, in_degrees=True):
         azimuthal = np.arccos(
             np.dot(xy_projection, [1, 0, 0]) / np.linalg.norm(xy_projection)
         )
+        # arccos covers only the upper half-plane
+        if vector[1] < 0:
+            azimuthal = 2 * np.pi - azimuthal
 
-    if in_degreees:
+    if in_degrees:
         return modulus, polar * TODEGREES, azimuthal * TODEGREES
     else:
         return modulus, polar, azimuthal
-- 
2.43.0


From 727ec06a4440af6a3cec7fd2478283b89fef2993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:38 +0000
Subject: [PATCH 22/53] fix: read exchange parameters given in Joule

---
 src/magnopy/io/txt/internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 325cd5a..24fb86b 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -654,7 +654,7 @@ def _read_exchange(lines, spinham):
             + f"Will be converted to {ENERGY_NAME}.",
         )
     elif units.startswith("j"):
-        units_conversion = 1 / ENERGY_UNITS
+        units_conversion = 1 / ENERGY
         _logger.info(
             "Exchange parameters are provided in Joule. "
             + f" Will be converted to {ENERGY_NAME}.",
-- 
2.43.0


From 42fa0f57df22b9256a751dcb3a69e49d513db29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:38 +0000
Subject: [PATCH 23/53] fix: convert exchange parameters to the units of
 magnopy when reading .txt file

---
 src/magnopy/io/txt/internal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 24fb86b..37f99ab 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -761,10 +761,11 @@ def _read_bond(lines, spinham: SpinHamiltonian, units_conversion=1):
             for j in range(3):
                 i += 1
                 matrix[j] = [float(x) for x in lines[i].split()]
-        spinham.add_exchange(
-            name1, name2, R, matrix=matrix, iso=iso, aniso=symm, dmi=dmi
-        )
         i += 1
+
+    parameter = MatrixParameter(matrix=matrix, iso=iso, aniso=symm, dmi=dmi)
+    spinham.add_exchange(name1, name2, R, matrix=parameter.matrix * units_conversion)
+
     return spinham
 
 
-- 
2.43.0


From c0a4ebc3696bc6925ba53d0fd9b6a379e321d60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:38 +0000
Subject: [PATCH 24/53] fix: volume of the cell given with the negative scale

---
 src/magnopy/io/txt/internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 37f99ab..156248c 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -401,7 +401,7 @@ def _read_cell(lines):
 
             # Target the desired volume if scale is negative
             if scale < 0:
-                scale = abs(scale) / abs(np.linalg.det(cell))
+                scale = (abs(scale) / abs(np.linalg.det(cell))) ** (1 / 3)
 
             scale = np.ones(3, dtype=float) * scale
         elif len(scale) == 3:
-- 
2.43.0


From b554d65b1358d6fa943a620095f08cdca8face72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:38 +0000
Subject: [PATCH 25/53] fix: keep spiral vector in relative coordinates when
 reading .txt file

---
 src/magnopy/io/txt/internal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 156248c..4e52497 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -1017,8 +1017,9 @@ def _read_spiral_vector(lines, spinham: SpinHamiltonian):
 
     q = [float(x) for x in lines[1].split()]
 
-    if relative:
-        q = q @ spinham.reciprocal_cell
+    # Spiral vector is stored in the relative coordinates
+    if not relative:
+        q = absolute_to_relative(q, spinham.reciprocal_cell)
 
     spinham.spiral_vector = q
 
-- 
2.43.0


From bc81c7374aae36a0ef7f1bbbcc56f65455a0eb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:10 +0000
Subject: [PATCH 26/53] fix: write spin angles in the format that can be read
 back

---
 src/magnopy/io/txt/internal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 4e52497..7d4c424 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -212,8 +212,8 @@ def dump_spinham_txt(
                 S, theta, phi = vector_to_angles(atom.spin_vector, in_degrees=True)
                 text[-1] += " " + " ".join(
                     [
-                        f"t{theta:8.4f}",
-                        f"p{phi:8.4f}",
+                        f"{theta:8.4f}",
+                        f"{phi:8.4f}",
                         f"{S:8.4f}",
                     ]
                 )
-- 
2.43.0


From 8fa08864f331ad073dfbd050431eb4bd108be733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:10 +0000
Subject: [PATCH 27/53] fix: write g factors of the atoms in .txt file

---
 src/magnopy/io/txt/internal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 7d4c424..7789766 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -196,6 +196,7 @@ def dump_spinham_txt(
         text[-1] += f" {'St':>6} {'Sp':>6} {'S':>6}"
     else:
         text[-1] += f" {'Sx':>8} {'Sy':>8} {'Sz':>8}"
+    text[-1] += f" {'g':>8}"
     for atom in spinham.atoms:
         text.append(
             " ".join(
@@ -233,6 +234,7 @@ def dump_spinham_txt(
                     f"{'-':>8}",
                 ]
             )
+        text[-1] += f" {atom.g_factor:8.4f}"
     text.append(SEPARATOR)
 
     # Write notation
-- 
2.43.0


From be0733ca15d610c7f5257b3cb61b24b84b9dbd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:10 +0000
Subject: [PATCH 28/53] fix: read atoms with the blocks that are skipped with
 "-"

---
 src/magnopy/io/txt/internal.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 7789766..6329a82 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -484,13 +484,20 @@ def _read_atoms(lines, spinham: SpinHamiltonian, scale):
     # Read atom's data header
     data_header = lines[1].lower().split()
 
+    # "-" symbol means that the block is skipped for the atom
+    def is_given(line, *keywords):
+        return all(
+            keyword in data_header and line[data_header.index(keyword)] != "-"
+            for keyword in keywords
+        )
+
     # Read atoms's information
     for line in lines[2:]:
         line = line.split()
         name = line[data_header.index("name")]
 
         # Find the coordinates
-        if "r1" in data_header:
+        if is_given(line, "r1", "r2", "r3"):
             relative = True
             _logger.info(f"Atom {name}: Relative coordinates are detected.")
             position = (
@@ -512,25 +519,25 @@ def _read_atoms(lines, spinham: SpinHamiltonian, scale):
             )
 
         # Find charge
-        if "q" in data_header:
+        if is_given(line, "q"):
             charge = float(line[data_header.index("q")])
         else:
             charge = 0
 
         # Find g factor
-        if "g" in data_header:
+        if is_given(line, "g"):
             g = float(line[data_header.index("g")])
         else:
             g = 2.0
 
         # Find spin
-        if "sx" in data_header:
+        if is_given(line, "sx", "sy", "sz"):
             spin = (
                 float(line[data_header.index("sx")]),
                 float(line[data_header.index("sy")]),
                 float(line[data_header.index("sz")]),
             )
-        elif "sp" in data_header:
+        elif is_given(line, "sp", "st", "s"):
             phi = float(line[data_header.index("sp")])
             theta = float(line[data_header.index("st")])
             s = float(line[data_header.index("s")])
@@ -539,7 +546,7 @@ def _read_atoms(lines, spinham: SpinHamiltonian, scale):
                 s * np.sin(theta * TORADIANS) * np.sin(phi * TORADIANS),
                 s * np.cos(theta * TORADIANS),
             ]
-        elif "s" in data_header:
+        elif is_given(line, "s"):
             spin = (
                 0,
                 0,
-- 
2.43.0


From 5b2ad80bd383a0e290613bee731b0dea05534c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:10 +0000
Subject: [PATCH 29/53] fix: save filtered copy of the .txt file

---
 src/magnopy/io/txt/internal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 6329a82..12442c7 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -17,6 +17,7 @@
 # along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 import logging
+import os
 
 import numpy as np
 from wulfric import TORADIANS, Atom, absolute_to_relative, volume
@@ -1096,7 +1097,8 @@ def _filter_txt_file(filename=None, lines=None, save_filtered=False):
 
     # Save filtered copy of the file
     if save_filtered:
-        filtered_filename = f"filtered_{filename}"
+        directory, basename = os.path.split(filename)
+        filtered_filename = os.path.join(directory, f"filtered_{basename}")
         with open(filtered_filename, "w", encoding="utf-8") as f:
             f.write("\n".join(filtered_lines))
         _logger.debug(
-- 
2.43.0


From 28f72940cc2a85c1cb2273e47fecde48171dfba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:24 +0000
Subject: [PATCH 30/53] fix: accept relative units of the atoms section, as
 documented

---
 src/magnopy/io/txt/verify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 0a6f93b..b493eaa 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -738,7 +738,9 @@ def _verify_atoms(lines, line_indices):
     # Starting from this line it is assumed that the section has at least 3 lines
 
     # Check the section header
-    errors = errors or _verify_section_header(lines[0], line_indices[0], ["a", "b"])
+    errors = errors or _verify_section_header(
+        lines[0], line_indices[0], ["a", "b", "r"]
+    )
 
     # Check the data header
     N, name_index, data_header_errors = _verify_atoms_data_header(
-- 
2.43.0


From 4aa870cf3031971de27bd418a2e6db721dc38549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:24 +0000
Subject: [PATCH 31/53] fix: report missing notation section of the .txt file

---
 src/magnopy/io/txt/verify.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index b493eaa..eec0a39 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -1493,6 +1493,13 @@ def _verify_model_file(lines, line_indices, raise_on_fail=True, return_sections=
             errors = True
             _logger.error(f'File: failed to find required section "{r_section}"')
 
+    # Notation is required if there are any parameters
+    if (
+        "exchange" in found_sections or "on-site" in found_sections
+    ) and "notation" not in found_sections:
+        errors = True
+        _logger.error('File: failed to find required section "notation"')
+
     # Verify atoms section in advance, since we need to know a set of allowed atoms.
     if "atoms" in found_sections:
         allowed_atoms, atoms_errors = _verify_atoms(
-- 
2.43.0


From 28707901a83246481283a7cc949c6657b14f0e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:01 +0000
Subject: [PATCH 32/53] fix: units of the absolute spiral vector when the cell
 is given in Bohr

---
 src/magnopy/io/txt/internal.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 12442c7..21de33e 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -967,7 +967,7 @@ def _read_cone_axis(lines, spinham: SpinHamiltonian):
     return spinham
 
 
-def _read_spiral_vector(lines, spinham: SpinHamiltonian):
+def _read_spiral_vector(lines, spinham: SpinHamiltonian, cell_header="cell"):
     R"""
     Read information from the spiral-vector section as described in the documentation.
 
@@ -991,6 +991,8 @@ def _read_spiral_vector(lines, spinham: SpinHamiltonian):
         Parameters section of the input file.
     spinham : :py:class:`.SpinHamiltonian`
         Spin Hamiltonian, where the data are saved.
+    cell_header : str, default "cell"
+        Header of the cell section, it defines the units of the absolute coordinates.
 
     Returns
     -------
@@ -1029,6 +1031,10 @@ def _read_spiral_vector(lines, spinham: SpinHamiltonian):
 
     # Spiral vector is stored in the relative coordinates
     if not relative:
+        # Units of the absolute coordinates are the same as in the cell section
+        cell_units = cell_header.lower().split()[1:]
+        if len(cell_units) == 1 and cell_units[0].startswith("b"):
+            q = np.array(q, dtype=float) * LENGTH / BOHR_RADIUS
         q = absolute_to_relative(q, spinham.reciprocal_cell)
 
     spinham.spiral_vector = q
@@ -1168,6 +1174,10 @@ def load_spinham_txt(filename, save_filtered=False, verbose=False) -> SpinHamilt
 
     # If present read spiral-vector
     if "spiral-vector" in sections:
-        _read_spiral_vector(lines[slice(*sections["spiral-vector"])], spinham)
+        _read_spiral_vector(
+            lines[slice(*sections["spiral-vector"])],
+            spinham,
+            cell_header=lines[sections["cell"][0]],
+        )
 
     return spinham
-- 
2.43.0


From 34019429e89dc77b1b99dbdbdd1c1688ff6663cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:15 +0000
Subject: [PATCH 33/53] fix: order of the atoms in the .hdf5 file with more
 than nine atoms

---
 src/magnopy/io/hdf5/internal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index c462a88..01d50f5 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -129,7 +129,8 @@ def load_spinham_hdf5(
 
     # Read the atoms
     atoms = root_group["atoms"]
-    for index in atoms:
+    # Groups of hdf5 file are sorted alphabetically ("1", "10", "2", ...)
+    for index in sorted(atoms, key=lambda index: (len(index), index)):
         atom = atoms[index]
         name = atom["name"][()].decode("utf-8")
         if _verify_atom_name(name, line_index="hdf5 file"):
-- 
2.43.0


From 2bbe6ac0d57e5dc0da940760dda4649d5f76b882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:15 +0000
Subject: [PATCH 34/53] fix: error for the unknown units of the cell in .hdf5
 file

---
 src/magnopy/io/hdf5/internal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index 01d50f5..6f637e9 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -123,7 +123,10 @@ def load_spinham_hdf5(
     elif cell.attrs["units"].lower().startswith("angstrom"):
         units_conversion = ANGSTROM / LENGTH
     else:
-        _logger.error(f"Unknown units '{cell['units']}' for cell in file '{filename}'.")
+        _logger.error(
+            f"Unknown units '{cell.attrs['units']}' for cell in file '{filename}'."
+        )
+        raise ValueError(f"Unknown units '{cell.attrs['units']}'.")
 
     spinham.cell *= units_conversion
 
-- 
2.43.0


From 271ec00f8a4d6918888c9ec397c2cd6a1e8eef7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:15 +0000
Subject: [PATCH 35/53] fix: close .hdf5 file when the group already exists

---
 src/magnopy/io/hdf5/internal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index 6f637e9..668ea8a 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -340,6 +340,7 @@ def dump_spinham_hdf5(
             del file[groupname]
             root_group = file.create_group(groupname)
         else:
+            file.close()
             raise FileExistsError(
                 f"Group {groupname} already exists in file {filename}."
             )
-- 
2.43.0


From fb1d3fb427172be4c480de001d5dbe84e8dd174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:29 +0000
Subject: [PATCH 36/53] fix: error for the unknown atoms in .hdf5 file

---
 src/magnopy/io/hdf5/internal.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index 668ea8a..3fe7f43 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -222,15 +222,17 @@ def load_spinham_hdf5(
                 atom1 = spinham.get_atom(atom1)
             except ValueError as e:
                 _logger.error(
-                    f'Atom "{atom1}" in exchange bond {index+1} not found in the atoms group in file "{filename}".'
+                    f'Atom "{atom1}" in exchange bond {index} not found in the atoms group in file "{filename}".'
                 )
+                raise e
             atom2 = bond["atom-2"][()].decode("utf-8")
             try:
                 atom2 = spinham.get_atom(atom2)
             except ValueError as e:
                 _logger.error(
-                    f'Atom "{atom2}" in exchange bond {index+1} not found in the atoms group in file "{filename}".'
+                    f'Atom "{atom2}" in exchange bond {index} not found in the atoms group in file "{filename}".'
                 )
+                raise e
             ijk = tuple(bond["ijk"][:])
             matrix = bond["matrix"][:]
             spinham.add_exchange(atom1, atom2, ijk, matrix=matrix * units_conversion)
@@ -262,8 +264,9 @@ def load_spinham_hdf5(
                 atom = spinham.get_atom(atom)
             except ValueError as e:
                 _logger.error(
-                    f'Atom "{atom}" in on-site bond {index+1} not found in the atoms group in file "{filename}".'
+                    f'Atom "{atom}" in on-site bond {index} not found in the atoms group in file "{filename}".'
                 )
+                raise e
             matrix = parameters["matrix"][:]
             spinham.add_on_site(atom, matrix=matrix * units_conversion)
 
-- 
2.43.0


From bced5003f91d30196d3a7b4bb4ebf7230dc8ef02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:49 +0000
Subject: [PATCH 37/53] fix: transformation matrix of the Colpa algorithm for
 degenerate eigenvalues

---
 src/magnopy/magnons/diagonalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/magnons/diagonalization.py b/src/magnopy/magnons/diagonalization.py
index 5d16eff..1e49311 100644
--- a/src/magnopy/magnons/diagonalization.py
+++ b/src/magnopy/magnons/diagonalization.py
@@ -129,7 +129,7 @@ def solve_via_colpa(D):
     except LinAlgError:
         raise ColpaFailed
 
-    L, U = np.linalg.eig(K @ g @ np.conjugate(K).T)
+    L, U = np.linalg.eigh(K @ g @ np.conjugate(K).T)
 
     # Sort with respect to L, in descending order
     U = np.concatenate((L[:, None], U.T), axis=1).T
-- 
2.43.0


From 2dd649e50801a055129b76c4b45f2a3b8c2aced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:42 +0000
Subject: [PATCH 38/53] fix: magnon energies for the negative semidefinite
 matrix

---
 src/magnopy/magnons/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/magnons/dispersion.py b/src/magnopy/magnons/dispersion.py
index 0bb75ce..1adcf57 100644
--- a/src/magnopy/magnons/dispersion.py
+++ b/src/magnopy/magnons/dispersion.py
@@ -321,7 +321,7 @@ class MagnonDispersion:
                     # Try to solve for negative semidefinite matrix
                     try:
                         omegas, G = solve_via_colpa(
-                            -h - np.diag(1e-8 * np.ones(h.shape[0]))
+                            -h + np.diag(1e-8 * np.ones(h.shape[0]))
                         )
                         omegas *= -1
                         G *= -1
-- 
2.43.0


From 05e0b4515e9e700f3ba2cbf362c6775ebd5f65fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:42 +0000
Subject: [PATCH 39/53] fix: number of energies returned with the
 transformation matrix when Colpa fails

---
 src/magnopy/magnons/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/magnons/dispersion.py b/src/magnopy/magnons/dispersion.py
index 1adcf57..d26bef7 100644
--- a/src/magnopy/magnons/dispersion.py
+++ b/src/magnopy/magnons/dispersion.py
@@ -333,7 +333,7 @@ class MagnonDispersion:
                                 G = np.empty((2 * self.N, 2 * self.N), dtype=float)
 
                         else:
-                            omegas = np.zeros(self.N, dtype=float)
+                            omegas = np.zeros(2 * self.N, dtype=float)
                             if return_G:
                                 G = np.zeros((2 * self.N, 2 * self.N), dtype=float)
         omegas[np.abs(omegas) <= 1e-8] = 0
-- 
2.43.0


From 5c467f4a5938bf787d0f5f9df86631d109c0fef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:20 +0000
Subject: [PATCH 40/53] fix: spin directions in the material file of vampire

---
 src/magnopy/io/txt/vampire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/vampire.py b/src/magnopy/io/txt/vampire.py
index 6d457ad..7a2b776 100644
--- a/src/magnopy/io/txt/vampire.py
+++ b/src/magnopy/io/txt/vampire.py
@@ -140,7 +140,7 @@ def dump_mat(spinham: SpinHamiltonian, filename=None, materials=None, nologo=Fal
             text.append(f"material[{m_i}]:material-name = {atom.name}")
             text.append(f"material[{m_i}]:material-element = {atom.type}")
             text.append(f"material[{m_i}]:atomic-spin-moment={atom.spin} ! muB")
-            if atom._spin_direction is not None:
+            if atom.spin != 0:
                 text.append(
                     f"material[{m_i}]:initial-spin-direction = {atom.spin_direction[0]:.8f},{atom.spin_direction[1]:.8f},{atom.spin_direction[2]:.8f}"
                 )
-- 
2.43.0


From 50f9591d260fbf5c794319e7b97dd79b06af24b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:20 +0000
Subject: [PATCH 41/53] fix: do not change the Hamiltonian in the export to
 vampire

---
 src/magnopy/io/txt/vampire.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/io/txt/vampire.py b/src/magnopy/io/txt/vampire.py
index 7a2b776..c3ae4b4 100644
--- a/src/magnopy/io/txt/vampire.py
+++ b/src/magnopy/io/txt/vampire.py
@@ -18,6 +18,8 @@
 
 __all__ = ["dump_vampire", "dump_mat", "dump_ucf"]
 
+from copy import deepcopy
+
 import numpy as np
 
 from magnopy._pinfo import logo
@@ -203,7 +205,8 @@ def dump_ucf(
     """
     if materials is None:
         materials = [i for i in range(len(spinham.magnetic_atoms))]
-    original_notation = spinham.notation
+    # Do not change the Hamiltonian of the user
+    spinham = deepcopy(spinham)
     spinham.notation = "vampire"
     if nologo:
         text = []
@@ -245,8 +248,6 @@ def dump_ucf(
         )
         IID += 1
 
-    spinham.notation = original_notation
-
     text = "\n".join(text)
 
     if filename is None:
-- 
2.43.0


From 771518dba7a4c557444011ea4a5de7174da3729e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:06 +0000
Subject: [PATCH 42/53] fix: verification of the atom's lines that are shorter
 than the data header

---
 src/magnopy/io/txt/verify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index eec0a39..7a15698 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -765,7 +765,8 @@ def _verify_atoms(lines, line_indices):
             )
 
         # Check atom's names if any
-        if name_index is not None:
+        # Line can be too short to have a name
+        if name_index is not None and name_index < len(line):
             errors = errors or _verify_atom_name(line[name_index], line_indices[i])
             allowed_atoms.add(line[name_index])
 
-- 
2.43.0


From 1b3e772fd6a8d209a5863d0d0ac14f69300f55e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:06 +0000
Subject: [PATCH 43/53] fix: iterate over exchange-like parameters when on-site
 factor is not set and not needed

---
 src/magnopy/spinham/hamiltonian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 386b110..b1b8b9a 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -1056,7 +1056,9 @@ class _SpinHamiltonianExchangeLikeIterator:
         self.iterator2 = spinham._exchange.__iter__()
         self.index1 = 0
         self.index2 = 0
-        self.scale_factor = spinham.on_site_factor / spinham.exchange_factor
+        # Factors are not required when there is nothing to scale
+        if self.length1 > 0:
+            self.scale_factor = spinham.on_site_factor / spinham.exchange_factor
 
     def __next__(self) -> Tuple[Atom, Atom, tuple, MatrixParameter]:
         # First return all on-site terms
-- 
2.43.0


From cb9f4a34de9dbecf507d34026398da2ffbbf39aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:23 +0000
Subject: [PATCH 44/53] fix: summary of the antiferromagnetic energies

---
 src/magnopy/score/minimize_energy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index f83c46f..2717a95 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -209,8 +209,8 @@ def manager(
             output_file.write(f"Ferromagnetic energy : {energies[i]:.8f}\n")
         if gs_to_minimize[i] == "antiferro":
             output_file.write(f"Antiferromagnetic energies :\n")
-            for i in range(26):
-                output_file.write(f"  {i+1} {energies[i]:.8f}\n")
+            for j, antiferro_energy in enumerate(energies[i]):
+                output_file.write(f"  {j+1} {antiferro_energy:.8f}\n")
         if gs_to_minimize[i] == "spiral":
             output_file.write(f"Spiral energy : {energies[i]:.8f}\n")
 
-- 
2.43.0


From 0845d08ca68da7dc5d1b7ca2890ee4f88612e44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:23 +0000
Subject: [PATCH 45/53] fix: separate history files for the antiferromagnetic
 states

---
 src/magnopy/score/minimize_energy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index 2717a95..a8e8a77 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -67,16 +67,16 @@ def _minimize_antiferro(energy: Energy, spinham, seedname, output_file):
     i = 0
     energies = []
     for qrel in (np.indices((3, 3, 3)) - 1).transpose((1, 2, 3, 0)).reshape(27, 3):
+        if (qrel == [0, 0, 0]).all():
+            continue
         i += 1
         print(qrel)
         history_file = f"{seedname}-antiferro-history-{i}"
-        if (qrel == [0, 0, 0]).all():
-            continue
 
         q = qrel @ spinham.reciprocal_cell / 2
         output_file.write(
             f"History for the q_rel = ({qrel[0]:2.0f}, {qrel[1]:2.0f}, {qrel[2]:2.0f}) "
-            f"is written to the file {history_file}"
+            f"is written to the file {history_file}\n"
         )
 
         spin_orientation, cone_axis, _ = energy.optimize(
@@ -92,10 +92,10 @@ def _minimize_antiferro(energy: Energy, spinham, seedname, output_file):
         output_file.write(
             f"  {'name':>5} {'r1':>11} {'r2':>11} {'r3':>11} {'sx':>11} {'sy':>11} {'sz':>11}\n"
         )
-        for i, spin in enumerate(spin_orientation):
-            pos = spinham.magnetic_atoms[i].position
+        for j, spin in enumerate(spin_orientation):
+            pos = spinham.magnetic_atoms[j].position
             output_file.write(
-                f"  {spinham.magnetic_atoms[i].name:>5} "
+                f"  {spinham.magnetic_atoms[j].name:>5} "
                 f"{pos[0]:11.8f} {pos[1]:11.8f} {pos[2]:11.8f} "
                 f"{spin[0]:11.8f} {spin[1]:11.8f} {spin[2]:11.8f}\n"
             )
-- 
2.43.0


From db8faac8e7d797769ad70dd1303592706b66e0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:56 +0000
Subject: [PATCH 46/53] fix: rewrite the bond when its mirror is added to the
 Hamiltonian without double counting

---
 src/magnopy/spinham/hamiltonian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index b1b8b9a..ab5035b 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -722,6 +722,9 @@ class SpinHamiltonian(Crystal):
             mirrored_bond = (atom2, atom1, (-i, -j, -k))
             if self.double_counting and mirrored_bond != (atom1, atom2, ijk):
                 self._exchange[mirrored_bond] = parameter.T
+            # Without double counting mirrored bond is the same bond, rewrite it
+            elif not self.double_counting and mirrored_bond != (atom1, atom2, ijk):
+                self._exchange.pop(mirrored_bond, None)
         # If it fails, then we do not need to add a mirrored bond, since the notation
         # is not defined yet and it is not clear wether the mirrored bond has to
         # be added or not
-- 
2.43.0


From 3f076928908dd09c74392061d9577c3543ea51b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:46 +0000
Subject: [PATCH 47/53] fix: recalculate bonds and spiral vector when the cell
 of the Hamiltonian is standardized

---
 src/magnopy/spinham/hamiltonian.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index ab5035b..5e49f35 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -968,6 +968,33 @@ class SpinHamiltonian(Crystal):
         # Remove an atom from the crystal
         super().remove_atom(atom)
 
+    def standardize(self):
+        r"""
+        Standardize cell with respect to the Bravais lattice type.
+
+        Crystal (atoms) and interactions are not changed, they are described with the
+        new lattice vectors, i.e. vectors of the unit cells of the bonds and spiral vector
+        are recalculated.
+
+        See Also
+        --------
+        :ref:`wulfric:api_crystal`
+        """
+
+        # Get S matrix before cell standardization
+        S = self.S_matrix
+
+        super().standardize()
+
+        exchange = {}
+        for (atom1, atom2, ijk), parameter in self._exchange.items():
+            ijk = tuple(int(i) for i in np.rint(S @ ijk))
+            exchange[(atom1, atom2, ijk)] = parameter
+        self._exchange = exchange
+
+        if self._spiral_vector is not None:
+            self._spiral_vector = self._spiral_vector @ np.linalg.inv(S)
+
     @property
     def crystal(self) -> Crystal:
         r"""
-- 
2.43.0


From 645855c7c27cfdf8917528aa410946d9fcc7d7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:46 +0000
Subject: [PATCH 48/53] fix: line search finds steps longer than one as well

---
 src/magnopy/spinham/energy.py | 38 +++++++++++++----------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index e41db79..8f4bee7 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1741,42 +1741,32 @@ class Energy:
         depend on the choice of the ground state type.
         """
         step = 1
+        # Acceptable steps are longer than step_min and shorter than step_max
+        step_min, step_max = 0, None
         fx = energy(*_unpack(x))
         x_new = _update(x, search_direction, step)
         nabla_new = _grad(*_unpack(x_new))[0]
         nabla = _grad(*_unpack(x))[0]
         i = 0
-        tmp = [[], [], []]
         # The step is made against the search direction, see _update functions
         while energy(*_unpack(x_new)) > fx - (
             self._wolfe_c1 * step * nabla.T @ search_direction
         ) or abs(nabla_new.T @ search_direction) > abs(
             self._wolfe_c2 * nabla.T @ search_direction
         ):
-            step *= 0.99
-            x_new = _update(x, search_direction, step)
-            nabla_new = _grad(*_unpack(x_new))[0]
-            # print(
-            #     energy(*_unpack(x_new)),
-            #     fx,
-            #     fx + self._wolfe_c1 * step * nabla.T @ search_direction,
-            #     abs(nabla_new.T @ search_direction),
-            #     abs(self._wolfe_c2 * nabla.T @ search_direction),
-            # )
-            tmp[0].append(step)
-            tmp[1].append(energy(*_unpack(x_new)))
-            tmp[2].append(fx - step * self._wolfe_c1 * nabla.T @ search_direction)
             if i > self._wolfe_iter_max:
-                print("\n\n")
-                # TODO go into the details and deal with the failing cases
-                import matplotlib.pyplot as plt
-
-                fig, ax = plt.subplots()
-                ax.plot(tmp[0], tmp[1], lw=1, color="black")
-                ax.plot(tmp[0], tmp[2], lw=1, color="tab:red")
-                plt.savefig("tmp.png", dpi=300, bbox_inches="tight")
-                plt.close()
-                # return 1
                 raise ValueError("Wolfe failed")
             i += 1
+
+            # Energy still goes down at the end of a step that is too short
+            if energy(*_unpack(x_new)) <= fx - (
+                self._wolfe_c1 * step * nabla.T @ search_direction
+            ) and (nabla_new.T @ search_direction > 0):
+                step_min = step
+            else:
+                step_max = step
+
+            step = 2 * step if step_max is None else (step_min + step_max) / 2
+            x_new = _update(x, search_direction, step)
+            nabla_new = _grad(*_unpack(x_new))[0]
         return step
-- 
2.43.0


From c1820dac768b668339df7ecb747e9e87bba73edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:16 +0000
Subject: [PATCH 49/53] fix: ignore unknown keywords in the header of atoms
 whatever letter they start with

---
 src/magnopy/io/txt/verify.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 7a15698..70048a7 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -632,15 +632,15 @@ def _verify_atoms_data_header(line, line_index):
     orbital_moment_keywords = []
     total_moment_keywords = []
 
-    # Categorized keywords
+    # Categorized keywords, full word is checked, all other keywords are ignored
     for keyword in keywords:
-        if keyword.startswith("r") or keyword in "xyz":
+        if keyword in ["r1", "r2", "r3", "x", "y", "z"]:
             position_keywords.append(keyword)
-        elif keyword.startswith("s"):
+        elif keyword in ["s", "sx", "sy", "sz", "sp", "st"]:
             spin_keywords.append(keyword)
-        elif keyword.startswith("l"):
+        elif keyword in ["l", "lx", "ly", "lz", "lp", "lt"]:
             orbital_moment_keywords.append(keyword)
-        elif keyword.startswith("j"):
+        elif keyword in ["j", "jx", "jy", "jz", "jp", "jt"]:
             total_moment_keywords.append(keyword)
 
     # Sort the lists
-- 
2.43.0


From 74d7da172698beda4c26c1580fc7ea6042b2d924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:16 +0000
Subject: [PATCH 50/53] fix: refuse .txt files with atoms whose position is
 skipped

---
 src/magnopy/io/txt/verify.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 70048a7..b563ac6 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -770,6 +770,23 @@ def _verify_atoms(lines, line_indices):
             errors = errors or _verify_atom_name(line[name_index], line_indices[i])
             allowed_atoms.add(line[name_index])
 
+        # Check that the position is given, i.e. that its blocks are not skipped
+        given = [
+            keyword
+            for keyword, block in zip(lines[1].lower().split(), line)
+            if block != "-"
+        ]
+        if not {"r1", "r2", "r3"} <= set(given) and not {"x", "y", "z"} <= set(given):
+            errors = True
+            _logger.error(
+                " ".join(
+                    [
+                        f"Line {line_indices[i]}: expected to have the position of",
+                        f'the atom, got "{lines[i]}"',
+                    ]
+                )
+            )
+
         # Check other data fields
         for b_i, block in enumerate(line):
             # Skip the name
-- 
2.43.0


From 7fc50697fca4812ca253989871c8abd19ed578ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:16 +0000
Subject: [PATCH 51/53] fix: refuse .txt files with a zero vector as the cone
 axis

---
 src/magnopy/io/txt/verify.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index b563ac6..55d7d48 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -1356,6 +1356,14 @@ def _verify_cone_axis(lines, line_indices) -> bool:
         [lines[1]], [[3, 2]], [line_indices[1]]
     )
 
+    # Check that three components of the axis are not zeros
+    if not errors and len(lines[1].split()) == 3:
+        if all(float(number) == 0 for number in lines[1].split()):
+            errors = True
+            _logger.error(
+                f'Line {line_indices[1]}: cone axis can not be a zero vector, got "{lines[1]}".'
+            )
+
     return errors
 
 
-- 
2.43.0


From b485b81e0a32a148bd60b70f7d401be88581e564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:04 +0000
Subject: [PATCH 52/53] fix: keep the order of magnetic atoms with the same
 index

---
 src/magnopy/spinham/hamiltonian.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 5e49f35..6f52a76 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -649,7 +649,10 @@ class SpinHamiltonian(Crystal):
         for atom in self._on_site:
             result.add(atom)
 
-        return sorted(list(result), key=lambda x: x.index)
+        # Atoms with the same index are kept in the order of the crystal
+        return sorted(
+            [atom for atom in self.atoms if atom in result], key=lambda x: x.index
+        )
 
     @property
     def I(self):
-- 
2.43.0


From 282369d95c5f7945e27d1d34c0fc434465db82ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:04 +0000
Subject: [PATCH 53/53] fix: write unique names when atoms of the Hamiltonian
 have the same name

---
 src/magnopy/io/hdf5/internal.py | 14 ++++++++++----
 src/magnopy/io/txt/internal.py  | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index 3fe7f43..400b085 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -359,9 +359,15 @@ def dump_spinham_hdf5(
 
     # Atoms
     atoms = root_group.create_group("atoms")
+    # Names have to be unique in the group, index is added to the names that are not
+    names = [atom.name for atom in spinham.atoms]
+    names = {
+        atom: atom.name if names.count(atom.name) == 1 else f"{atom.name}_{atom.index}"
+        for atom in spinham.atoms
+    }
     for a_i, atom in enumerate(spinham.atoms):
         atom_group = atoms.create_group(str(a_i + 1))
-        atom_group.create_dataset("name", data=atom.name)
+        atom_group.create_dataset("name", data=names[atom])
         atom_group.create_dataset("position", data=atom.position, dtype=float)
         atom_group.create_dataset("spin", data=atom.spin_vector, dtype=float)
         atom_group.create_dataset("g-factor", data=atom.g_factor, dtype=float)
@@ -394,8 +400,8 @@ def dump_spinham_hdf5(
         exchange.attrs["units"] = ENERGY_NAME
         for e_i, (atom1, atom2, ijk, parameter) in enumerate(spinham.exchange):
             bond = exchange.create_group(str(e_i + 1))
-            bond.create_dataset("atom-1", data=atom1.name)
-            bond.create_dataset("atom-2", data=atom2.name)
+            bond.create_dataset("atom-1", data=names[atom1])
+            bond.create_dataset("atom-2", data=names[atom2])
             bond.create_dataset("ijk", data=ijk, dtype=int)
             bond.create_dataset("matrix", data=parameter.matrix, dtype=float)
 
@@ -405,7 +411,7 @@ def dump_spinham_hdf5(
         on_site.attrs["units"] = ENERGY_NAME
         for o_i, (atom, parameter) in enumerate(spinham.on_site):
             bond = on_site.create_group(str(o_i + 1))
-            bond.create_dataset("atom", data=atom.name)
+            bond.create_dataset("atom", data=names[atom])
             bond.create_dataset("matrix", data=parameter.matrix, dtype=float)
 
     # Spiral vector
diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 21de33e..befadcd 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -198,11 +198,17 @@ def dump_spinham_txt(
     else:
         text[-1] += f" {'Sx':>8} {'Sy':>8} {'Sz':>8}"
     text[-1] += f" {'g':>8}"
+    # Names have to be unique in the file, index is added to the names that are not
+    names = [atom.name for atom in spinham.atoms]
+    names = {
+        atom: atom.name if names.count(atom.name) == 1 else f"{atom.name}_{atom.index}"
+        for atom in spinham.atoms
+    }
     for atom in spinham.atoms:
         text.append(
             " ".join(
                 [
-                    f"{atom.name:4}",
+                    f"{names[atom]:4}",
                     f"{atom.position[0]:12.8f}",
                     f"{atom.position[1]:12.8f}",
                     f"{atom.position[2]:12.8f}",
@@ -265,8 +271,8 @@ def dump_spinham_txt(
                 distance = None
             text.append(
                 _write_exchange(
-                    atom1.name,
-                    atom2.name,
+                    names[atom1],
+                    names[atom2],
                     ijk,
                     parameter,
                     write_matrix=write_matrix,
@@ -284,7 +290,7 @@ def dump_spinham_txt(
         text.append(f"On-site {ENERGY_NAME}")
         text.append(SUBSEPARATOR)
         for atom, parameter in spinham.on_site:
-            text.append(atom.name)
+            text.append(names[atom])
             text.append(
                 f"{parameter.xx:>8.4f} {parameter.yy:>8.4f} {parameter.zz:>8.4f} "
                 + f"{parameter.xy:>8.4f} {parameter.xz:>8.4f} {parameter.yz:>8.4f}"
-- 
2.43.0

