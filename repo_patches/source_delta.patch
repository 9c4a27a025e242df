From e9b4013d1e49ba87be722952d8159bea1c399a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:45 +0000
Subject: [PATCH 01/82] fix: connect every input of an input-to-input chain to
 the source found downstream

Inputs reached after the first input with an unknown source were left
unconnected, and source indices of that input were dropped.  An input without
a declared size took rows instead of flat entries of a 2-D source.
---
 openmdao/core/problem.py | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index c5bde79..fe86181 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -255,18 +255,33 @@ class Problem(object):
             # only look at unmarked nodes that have 0 in_degree
             if node not in newconns and len(input_graph.pred[node]) == 0:
                 nosrc = [node]
-                # walk dfs from this input 'src' node until we hit a param
-                # that has an unknown src
+                nosrc_edges = []
+                plain = set(nosrc)  # inputs seeing the same entries as node
+                found = None
+                # walk dfs from this input 'src' node, collecting the inputs
+                # that have no unknown src, and the first param that has one
                 for s, t in nx.dfs_edges(input_graph, node):
-                    if t in newconns:  # found param with unknown src
-                        src = newconns[t][0][0]
-                        # connect the unknown src to all of the inputs connected
-                        # to the current node that have no unknown src
-                        for n in nosrc:
-                            newconns[n] = [(src, None)]
-                        break
-                    else:
+                    if s in plain and input_graph[s][t]['idxs'] is None:
+                        plain.add(t)
+                    if t not in newconns:
                         nosrc.append(t)
+                        nosrc_edges.append((s, t))
+                    elif found is None:  # found param with unknown src
+                        found = t
+
+                if found is not None:
+                    # connect the unknown src to all of the inputs connected
+                    # to the current node that have no unknown src
+                    src, idxs = newconns[found][0]
+                    newconns[node] = [(src, idxs if found in plain else None)]
+                    for s, t in nosrc_edges:
+                        sidxs = newconns[s][0][1]
+                        tidxs = input_graph[s][t]['idxs']
+                        if tidxs is None:
+                            tidxs = sidxs
+                        elif sidxs is not None:
+                            tidxs = np.array(sidxs)[tidxs]
+                        newconns[t] = [(src, tidxs)]
                 else: # didn't find an unknown src, so must be dangling
                     set_nosrc = set(nosrc)
                     for n in nosrc:
@@ -514,7 +529,7 @@ class Problem(object):
                         size = len(idxs)
                         tmeta['shape'] = (size, )
                         tmeta['size'] = size
-                        tmeta['val'] = smeta['val'][np.array(idxs)]
+                        tmeta['val'] = np.ravel(smeta['val'])[np.array(idxs)]
 
                     # Regular connection
                     else:
-- 
2.43.0


From e999f65904b4a415155921efcdbabb9e0954b59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:22 +0000
Subject: [PATCH 02/82] fix: check the number of source indices against the
 target even when the shapes agree

---
 openmdao/core/_checks.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/openmdao/core/_checks.py b/openmdao/core/_checks.py
index 9cea879..1aa5d9e 100644
--- a/openmdao/core/_checks.py
+++ b/openmdao/core/_checks.py
@@ -110,17 +110,17 @@ def __check_shapes_match(src, target, to_prom_name):
 
     src_idxs = target.get('src_indices')
 
-    if src['shape'] != target['shape']:
-        if src_idxs is not None:
-            if len(src_idxs) != target['size']:
-                errors.append("Size %d of the indexed sub-part of source "
-                                 "%s must be the same as size %d of target "
-                                 "%s." %
-                                 (len(target['src_indices']),
-                                 _both_names(src, to_prom_name),
-                                 target['size'],
-                                 _both_names(target, to_prom_name)))
-        elif 'src_indices' in src:
+    if src_idxs is not None:
+        if len(src_idxs) != target['size']:
+            errors.append("Size %d of the indexed sub-part of source "
+                             "%s must be the same as size %d of target "
+                             "%s." %
+                             (len(target['src_indices']),
+                             _both_names(src, to_prom_name),
+                             target['size'],
+                             _both_names(target, to_prom_name)))
+    elif src['shape'] != target['shape']:
+        if 'src_indices' in src:
             if target['size'] != src['distrib_size']:
                 errors.append("Total size %d of  distributed source "
                         "%s must be the same as size "
-- 
2.43.0


From e8062d14bf63935bfc8a1f7712a5596126e29e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 03/82] fix: assemble the jacobian with source indices, unit
 conversion and shared sources

---
 openmdao/core/group.py | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index eda51c0..e0a0d7a 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -1043,35 +1043,43 @@ class Group(System):
                          "'apply_linear' is used on a component (%s)." % sub.pathname
                     raise RuntimeError(msg)
 
-                sub_u = sub.unknowns
                 sub_name = sub.pathname
 
+                # The diagonal of a state is just its own partial derivative.
+                for state in sub.states:
+                    start, end = u_vec._dat[sys_prom_name['.'.join((sub_name, state))]].slice
+                    partials[start:end, start:end] = 0.0
+
                 for key in jac:
                     o_var, i_var = key
                     key2 = (sub_name, key)
+                    i_var_abs = '.'.join((sub_name, i_var))
+                    is_state = i_var in sub.states
 
                     # We cache the location of each variable in our jacobian
                     if key2 not in icache:
 
                         o_var_abs = '.'.join((sub_name, o_var))
-                        i_var_abs = '.'.join((sub_name, i_var))
-                        i_var_pro = sys_prom_name[i_var_abs]
-                        o_var_pro = sys_prom_name[o_var_abs]
 
                         # States are fine ...
-                        if i_var in sub.states:
-                            pass
+                        if is_state:
+                            i_var_pro = sys_prom_name[i_var_abs]
 
                         #... but inputs need to find their source.
-                        elif i_var_pro not in u_vec:
+                        else:
 
                             # Param is not relevant
                             if i_var_abs not in conn:
                                 continue
 
+                            # Param is driven from outside of this system
                             i_var_src = conn[i_var_abs][0]
+                            if i_var_src not in sys_prom_name:
+                                continue
+
                             i_var_pro = sys_prom_name[i_var_src]
 
+                        o_var_pro = sys_prom_name[o_var_abs]
                         o_start, o_end = u_vec._dat[o_var_pro].slice
                         i_start, i_end = u_vec._dat[i_var_pro].slice
 
@@ -1080,10 +1088,25 @@ class Group(System):
                     else:
                         (o_start, o_end, i_start, i_end) = icache[key2]
 
+                    sub_jac = jac[o_var, i_var]
+                    cols = np.arange(i_start, i_end)
+
+                    # An input may see only some entries of its source, in
+                    # other units, and share the source with other inputs.
+                    if not is_state:
+                        src_idxs = conn[i_var_abs][1]
+                        if src_idxs is not None:
+                            cols = cols[src_idxs]
+
+                        unit_conv = sub.params._dat[i_var].meta.get('unit_conv')
+                        if unit_conv:
+                            sub_jac = sub_jac * unit_conv[0]
+
+                    rows = np.arange(o_start, o_end)[:, np.newaxis]
                     if mode=='fwd':
-                        partials[o_start:o_end, i_start:i_end] = jac[o_var, i_var]
+                        np.add.at(partials, (rows, cols), sub_jac)
                     else:
-                        partials[i_start:i_end, o_start:o_end] = jac[o_var, i_var].T
+                        np.add.at(partials.T, (rows, cols), sub_jac)
 
         return partials, icache
 
-- 
2.43.0


From c9b5b3a1f5aca2389ee01ac362588436aefff516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:48 +0000
Subject: [PATCH 04/82] fix: scale finite-difference rows by their own scaler
 entry, identity for passed-through design variables

---
 openmdao/core/problem.py | 4 ++--
 openmdao/core/system.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index fe86181..0bb7fea 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1449,7 +1449,7 @@ class Problem(object):
                     if ikey in dv_scale:
                         J[okey][ikey] *= dv_scale[ikey]
                     if okey in cn_scale:
-                        J[okey][ikey] *= cn_scale[okey]
+                        J[okey][ikey] *= np.reshape(cn_scale[okey], (-1, 1))
 
         else:
             usize = 0
@@ -1488,7 +1488,7 @@ class Problem(object):
                     if p in dv_scale:
                         J[ui:ui+rows, pi:pi+cols] *= dv_scale[p]
                     if u in cn_scale:
-                        J[ui:ui+rows, pi:pi+cols] *= cn_scale[u]
+                        J[ui:ui+rows, pi:pi+cols] *= np.reshape(cn_scale[u], (-1, 1))
 
                     pi += cols
                 ui += rows
diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index a51c7f6..277a8b1 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -771,10 +771,10 @@ class System(object):
                             if qoi_indices and u_name in qoi_indices:
                                 q_idxs = qoi_indices[u_name]
                                 if idx in q_idxs:
-                                    row = qoi_indices[u_name].index(idx)
+                                    row = list(q_idxs).index(idx)
                                     jac[u_name, p_name][row][col] = 1.0
                             else:
-                                jac[u_name, p_name] = np.array([[1.0]])
+                                jac[u_name, p_name][idx][col] = 1.0
 
                     # Restore old residual
                     resultvec.vec[:] = cache1
-- 
2.43.0


From 01396ecf24657e60c44479fd5c3d4f68d17230d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:47 +0000
Subject: [PATCH 05/82] fix: set_desvar honours index 0 and flat indices of
 multi-dimensional variables

---
 openmdao/core/driver.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index 3724efe..6f71bbb 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -477,13 +477,9 @@ class Driver(object):
         index : integer, optional
             Index of the desvar to set.
         """
-        # support for uncertain samples
-        if index:
-            val = self.root.unknowns._dat[name].val[index]
-        else:
-            val = self.root.unknowns._dat[name].val
-        if not isinstance(val, _ByObjWrapper) and \
-                       self.root.unknowns._dat[name].val.size == 0:
+        val = self.root.unknowns._dat[name].val
+        by_obj = isinstance(val, _ByObjWrapper)
+        if not by_obj and val.size == 0:
             return
 
         meta = self._desvars[name]
@@ -491,7 +487,7 @@ class Driver(object):
         adder = meta['adder']
 
         if isinstance(scaler, np.ndarray):
-            if index:
+            if index is not None:
                 value = value/scaler[index]
             else:
                 value = value/scaler
@@ -504,7 +500,7 @@ class Driver(object):
         # (as in always doing the scaler/adder operation.)
 
         if isinstance(adder, np.ndarray):
-            if index:
+            if index is not None:
                 value = value - adder[index]
             else:
                 value = value - adder
@@ -512,15 +508,19 @@ class Driver(object):
             value = value - adder
 
         # Only set the indices we requested when we set the design variable.
-        if index:
+        # (index is for uncertain samples)
+        if index is not None:
             idx = index
         else:
             idx = meta.get('indices')
 
-        if idx is not None:
+        if idx is None:
+            self.root.unknowns[name] = value
+        elif by_obj:
             self.root.unknowns[name][idx] = value
         else:
-            self.root.unknowns[name] = value
+            # Indices address entries of the flattened variable.
+            val[idx] = value
 
     def add_objective(self, name, indices=None, adder=0.0, scaler=1.0):
         """ Adds an objective to this driver.
-- 
2.43.0


From 931264fc3676f718f54081de334cce0343bc20f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:10 +0000
Subject: [PATCH 06/82] fix: accept any sequence of indices for design
 variables, objectives and constraints

---
 openmdao/core/driver.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index 6f71bbb..5fe1d34 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -362,7 +362,7 @@ class Driver(object):
         param['upper'] = upper
         param['adder'] = adder
         param['scaler'] = scaler
-        if indices:
+        if indices is not None and len(indices) > 0:
             param['indices'] = np.array(indices, dtype=int)
 
         self._desvars[name] = param
@@ -564,7 +564,8 @@ class Driver(object):
         obj = OrderedDict()
         obj['adder'] = adder
         obj['scaler'] = scaler
-        if indices:
+        if indices is not None and len(indices) > 0:
+            indices = np.array(indices, dtype=int)
             obj['indices'] = indices
             if len(indices) > 1 and not self.supports['multiple_objectives']:
                 raise RuntimeError("Multiple objective indices specified for "
@@ -702,8 +703,8 @@ class Driver(object):
         con['jacs'] = jacs
         con['active_tol'] = active_tol
 
-        if indices:
-            con['indices'] = indices
+        if indices is not None and len(indices) > 0:
+            con['indices'] = np.array(indices, dtype=int)
         self._cons[name] = con
 
     def get_constraints(self, ctype='all', lintype='all'):
-- 
2.43.0


From b0f63cc4b842bc0edad36fdd7bb329cc3008acd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:38 +0000
Subject: [PATCH 07/82] fix: keep lower and upper bounds in order under a
 negative scaler

---
 openmdao/core/driver.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index 5fe1d34..be23911 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -357,6 +357,8 @@ class Driver(object):
 
         upper = (upper + adder)*scaler
 
+        lower, upper = self._orient_bounds(lower, upper, scaler)
+
         param = OrderedDict()
         param['lower'] = lower
         param['upper'] = upper
@@ -367,6 +369,35 @@ class Driver(object):
 
         self._desvars[name] = param
 
+    @staticmethod
+    def _orient_bounds(lower, upper, scaler):
+        """ Returns the scaled bounds as (lower, upper). Multiplying by a
+        negative scaler turns a lower bound into an upper bound and vice versa.
+
+        Args
+        ----
+        lower : float, ndarray or None
+            Scaled value of the declared lower bound.
+
+        upper : float, ndarray or None
+            Scaled value of the declared upper bound.
+
+        scaler : float or ndarray
+            Scaler that was applied to the bounds.
+        """
+        if not np.any(np.less(scaler, 0.0)) or (lower is None and upper is None):
+            return lower, upper
+
+        if not isinstance(scaler, np.ndarray):
+            return upper, lower
+
+        flip = scaler < 0.0
+        if lower is None:
+            lower = np.where(flip, sys.float_info.max, -sys.float_info.max)
+        if upper is None:
+            upper = np.where(flip, -sys.float_info.max, sys.float_info.max)
+        return np.where(flip, upper, lower), np.where(flip, lower, upper)
+
     def add_param(self, name, lower=None, upper=None, indices=None, adder=0.0,
                   scaler=1.0):
         """
@@ -693,6 +724,8 @@ class Driver(object):
         if equals is not None:
             equals = (equals + adder)*scaler
 
+        lower, upper = self._orient_bounds(lower, upper, scaler)
+
         con = OrderedDict()
         con['lower'] = lower
         con['upper'] = upper
-- 
2.43.0


From 41d54ad35b6cf59021b06d33d21bacd460d53087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:38 +0000
Subject: [PATCH 08/82] fix: restore pass_by_obj values after finite
 differencing, and all values when it is interrupted

---
 openmdao/core/system.py | 79 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 79 insertions(+)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 277a8b1..6c8c7ac 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -551,6 +551,85 @@ class System(object):
             tuple pair.
         """
 
+        # Pass_by_obj values are not part of the vectors that are put back
+        # after every step, and a failure while this system is being stepped
+        # must not leave it at the perturbed point.
+        saved = self._save_values(params, unknowns)
+        failed = True
+
+        try:
+            jac = self._fd_jacobian(params, unknowns, resids,
+                                    total_derivs=total_derivs,
+                                    fd_params=fd_params,
+                                    fd_unknowns=fd_unknowns,
+                                    fd_states=fd_states,
+                                    pass_unknowns=pass_unknowns,
+                                    poi_indices=poi_indices,
+                                    qoi_indices=qoi_indices,
+                                    use_check=use_check,
+                                    option_overrides=option_overrides)
+            failed = False
+        finally:
+            self._restore_values(saved, failed)
+
+        return jac
+
+    def _save_values(self, params, unknowns):
+        """ Remembers all values in this system so that they can be restored.
+
+        Args
+        ----
+        params : `VecWrapper`
+            `VecWrapper` containing parameters. (p)
+
+        unknowns : `VecWrapper`
+            `VecWrapper` containing outputs and states. (u)
+
+        Returns
+        -------
+        tuple
+            Array values, pass_by_obj values and the complex step flag.
+        """
+        vecs = [unknowns]
+        if self._local_subsystems:
+            vecs.extend(s.params for s in self.subsystems(local=True, recurse=True))
+        vecs.append(params)
+
+        arrays = [(v.vec, v.vec.copy()) for v in vecs]
+        arrays.extend((v.imag_vec, v.imag_vec.copy()) for v in vecs
+                      if getattr(v, 'imag_vec', None) is not None)
+        objs = [(acc.val, acc.val.val) for v in vecs
+                for acc in itervalues(v._dat) if acc.pbo and not acc.remote]
+
+        probdata = getattr(unknowns, '_probdata', None)
+        return arrays, objs, probdata, getattr(probdata, 'in_complex_step', False)
+
+    def _restore_values(self, saved, failed):
+        """ Restores the values remembered by `_save_values`.
+
+        Args
+        ----
+        saved : tuple
+            The return value of `_save_values`.
+
+        failed : bool
+            True if the evaluation was interrupted by an error.
+        """
+        arrays, objs, probdata, in_complex_step = saved
+        if failed:
+            for vec, val in arrays:
+                vec[:] = val
+        for wrapper, val in objs:
+            wrapper.val = val
+        if probdata is not None:
+            probdata.in_complex_step = in_complex_step
+
+    def _fd_jacobian(self, params, unknowns, resids, total_derivs=False,
+                     fd_params=None, fd_unknowns=None, fd_states=None,
+                     pass_unknowns=(), poi_indices=None, qoi_indices=None,
+                     use_check=False, option_overrides=None):
+        """Does the work of `fd_jacobian`, which see."""
+
         # Params and Unknowns that we provide at this level.
         if fd_params is None:
             fd_params = self._get_fd_params()
-- 
2.43.0


From 2050d610e8d8ffeec0f76135294775d36d5bf889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:26 +0000
Subject: [PATCH 09/82] fix: finite difference with respect to an unconnected
 independent variable

---
 openmdao/core/system.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 6c8c7ac..1deb93c 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -700,6 +700,11 @@ class System(object):
                 if param_src not in self.unknowns:
                     param_src = to_prom_name[param_src]
 
+                inputs = unknowns
+                param_key = param_src
+            elif to_prom_name.get(p_name) in unknowns:
+                # An unknown that is not connected to anything.
+                param_src = to_prom_name[p_name]
                 inputs = unknowns
                 param_key = param_src
             else:
-- 
2.43.0


From e0ecba58fa57d291db73c2bfa2bf2bc2f9c1abbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:09 +0000
Subject: [PATCH 10/82] fix: gradient array rows and columns of a variable
 requested as both input and output

---
 openmdao/core/problem.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 0bb7fea..d0603f7 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1597,7 +1597,8 @@ class Problem(object):
         else:
             usize = 0
             psize = 0
-            Jslices = OrderedDict()
+            Jrows = OrderedDict()
+            Jcols = OrderedDict()
             for u in unknown_list:
                 start = usize
                 if u in self._qoi_indices:
@@ -1605,7 +1606,7 @@ class Problem(object):
                     usize += len(idx)
                 else:
                     usize += self.root.unknowns.metadata(u)['size']
-                Jslices[u] = slice(start, usize)
+                Jrows[u] = slice(start, usize)
 
             for p in indep_list:
                 start = psize
@@ -1614,7 +1615,7 @@ class Problem(object):
                     psize += len(idx)
                 else:
                     psize += unknowns.metadata(p)['size']
-                Jslices[p] = slice(start, psize)
+                Jcols[p] = slice(start, psize)
             J = np.zeros((usize, psize))
 
         if fwd:
@@ -1791,22 +1792,22 @@ class Problem(object):
 
                             else:
                                 if fwd:
-                                    J[Jslices[item], Jslices[param].start+i] = dxval
+                                    J[Jrows[item], Jcols[param].start+i] = dxval
 
                                     # Driver scaling
                                     if param in in_scale:
-                                        J[Jslices[item], Jslices[param].start+i] *= in_scale[param]
+                                        J[Jrows[item], Jcols[param].start+i] *= in_scale[param]
                                     if item in un_scale:
-                                        J[Jslices[item], Jslices[param].start+i] *= un_scale[item]
+                                        J[Jrows[item], Jcols[param].start+i] *= un_scale[item]
 
                                 else:
-                                    J[Jslices[param].start+i, Jslices[item]] = dxval
+                                    J[Jrows[param].start+i, Jcols[item]] = dxval
 
                                     # Driver scaling
                                     if param in in_scale:
-                                        J[Jslices[param].start+i, Jslices[item]] *= in_scale[param]
+                                        J[Jrows[param].start+i, Jcols[item]] *= in_scale[param]
                                     if item in un_scale:
-                                        J[Jslices[param].start+i, Jslices[item]] *= un_scale[item]
+                                        J[Jrows[param].start+i, Jcols[item]] *= un_scale[item]
 
         # Clean up after ourselves
         root.clear_dparams()
-- 
2.43.0


From 4404147fe36c21dd7e160cabcd85cc754e3b885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:33 +0000
Subject: [PATCH 11/82] fix: relevance reduction only for requests among
 declared variables that depend on each other

---
 openmdao/core/problem.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index d0603f7..bba9e25 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1637,6 +1637,13 @@ class Problem(object):
             else:
                 input_set.update(inp)
 
+        output_set = set()
+        for out in output_list:
+            if isinstance(out, string_types):
+                output_set.add(out)
+            else:
+                output_set.update(out)
+
         # Our variables of interest include all sets for which at least
         # one variable is requested.
         voi_sets = []
@@ -1670,7 +1677,7 @@ class Problem(object):
 
             # Allocate all of our Right Hand Sides for this parallel set.
             for voi in params:
-                vkey = self._get_voi_key(voi, params)
+                vkey = self._get_voi_key(voi, params, output_set)
 
                 duvec = self.root.dumat[vkey]
                 rhs[vkey] = np.empty((len(duvec.vec), ))
@@ -1709,12 +1716,12 @@ class Problem(object):
                 if inactives and not fwd and voi in inactives and i in inactives[voi]:
                     dx_mat = OrderedDict()
                     for voi in params:
-                        vkey = self._get_voi_key(voi, params)
+                        vkey = self._get_voi_key(voi, params, output_set)
                         dx_mat[vkey] = np.zeros((len(duvec.vec), ))
 
                 else:
                     for voi in params:
-                        vkey = self._get_voi_key(voi, params)
+                        vkey = self._get_voi_key(voi, params, output_set)
                         rhs[vkey][:] = 0.0
                         # only set a -1.0 in the entry if that var is 'owned' by this rank
                         # Note, we solve a slightly modified version of the unified
@@ -1727,7 +1734,7 @@ class Problem(object):
                     dx_mat = root.ln_solver.solve(rhs, root, mode)
 
                 for param, dx in iteritems(dx_mat):
-                    vkey = self._get_voi_key(param, params)
+                    vkey = self._get_voi_key(param, params, output_set)
                     if param is None:
                         param = params[0]
 
@@ -1814,15 +1821,20 @@ class Problem(object):
 
         return J
 
-    def _get_voi_key(self, voi, grp):
+    def _get_voi_key(self, voi, grp, others):
         """Return the voi name, which allows for parallel derivative calculations
         (currently only works with LinearGaussSeidel), or None for those
         solvers that can only do a single linear solve at a time.
+        Relevance reduction only keeps what lies between variables that were
+        declared to the driver, so the full system is used for anything else.
         """
         if (voi in self._driver_vois and
                 isinstance(self.root.ln_solver, LinearGaussSeidel)):
-            if (len(grp) > 1 or
-                    self.root.ln_solver.options['single_voi_relevance_reduction']):
+            if len(grp) > 1:
+                return voi
+            if (self.root.ln_solver.options['single_voi_relevance_reduction'] and
+                    self._driver_vois.issuperset(others) and
+                    voi in self.root.dumat.get(voi, ())):
                 return voi
 
         return None
-- 
2.43.0


From e9d5968d27bf6f874c4028aebb206e483b4ac78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:36 +0000
Subject: [PATCH 12/82] fix: keep relevance of a variable that is both design
 variable and response

---
 openmdao/core/relevance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/core/relevance.py b/openmdao/core/relevance.py
index 2fa553a..660f85b 100644
--- a/openmdao/core/relevance.py
+++ b/openmdao/core/relevance.py
@@ -186,7 +186,7 @@ class Relevance(object):
             for node in nodes:
                 unode = to_abs_uname[node]
                 comp = unode.rsplit('.', 1)[0]
-                relevant[node] = set()
+                relevant.setdefault(node, set())
                 if comp in sgraph:
                     preds = set((comp,))
                     preds.update(v for u, v in nx.dfs_edges(grev, comp))
-- 
2.43.0


From 8c7364653ca354fc53e30913f68026f41fe65cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:08 +0000
Subject: [PATCH 13/82] fix: component complex step sees inputs in its own
 units

---
 openmdao/core/vec_wrapper_complex_step.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/vec_wrapper_complex_step.py b/openmdao/core/vec_wrapper_complex_step.py
index dbd2b59..3729e11 100644
--- a/openmdao/core/vec_wrapper_complex_step.py
+++ b/openmdao/core/vec_wrapper_complex_step.py
@@ -33,7 +33,13 @@ class ComplexStepTgtVecWrapper(object):
             The unflattened value of the named variable.
         """
         if name == self.step_var:
-            return self.step_val.reshape(self.vecwrap[name].shape)
+            val = self.step_val
+            conv = self.vecwrap._dat[name].meta.get('unit_conv')
+            if conv is not None:
+                # The stepped value is in the units of the source.
+                scale, offset = conv
+                val = scale*(val + offset)
+            return val.reshape(self.vecwrap[name].shape)
 
         return self.vecwrap._dat[name].get()
 
-- 
2.43.0


From 3cb8a70de0274addde2a34dc242234bda2981b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:08 +0000
Subject: [PATCH 14/82] fix: assembled jacobian does not convert units of
 finite differenced components twice

---
 openmdao/core/group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index e0a0d7a..1e17834 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -1098,8 +1098,10 @@ class Group(System):
                         if src_idxs is not None:
                             cols = cols[src_idxs]
 
+                        # A finite differenced jacobian is in the source's
+                        # units already.
                         unit_conv = sub.params._dat[i_var].meta.get('unit_conv')
-                        if unit_conv:
+                        if unit_conv and sub.deriv_options['type'] == 'user':
                             sub_jac = sub_jac * unit_conv[0]
 
                     rows = np.arange(o_start, o_end)[:, np.newaxis]
-- 
2.43.0


From 21f2b5968db799063161134878b16462f45f8bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:28 +0000
Subject: [PATCH 15/82] fix: finite differenced groups do not mistake their own
 names for absolute names

---
 openmdao/core/system.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 1deb93c..68af8fa 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -692,7 +692,9 @@ class System(object):
 
             # If our input is connected to a IndepVarComp, then we need to twiddle
             # the unknowns vector instead of the params vector.
-            src = self.connections.get(p_name)
+            # Only the names used by the root are absolute names.
+            is_root = not self.pathname
+            src = self.connections.get(p_name) if is_root else None
             if src is not None:
                 param_src = src[0]  # just the name
 
@@ -702,7 +704,7 @@ class System(object):
 
                 inputs = unknowns
                 param_key = param_src
-            elif to_prom_name.get(p_name) in unknowns:
+            elif is_root and to_prom_name.get(p_name) in unknowns:
                 # An unknown that is not connected to anything.
                 param_src = to_prom_name[p_name]
                 inputs = unknowns
-- 
2.43.0


From cf4fa7da79978d2d89096d1805d17e9ca8ce9603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:07 +0000
Subject: [PATCH 16/82] fix: assembled jacobian uses the jacobian of a finite
 differenced group

---
 openmdao/core/group.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index 1e17834..422d2a3 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -977,6 +977,22 @@ class Group(System):
             if isinstance(system, Group):
                 system.clear_dparams()  # only call on Groups
 
+    def _assembled_systems(self):
+        """
+        Returns
+        -------
+        iterator
+            Iterator over the systems whose jacobians make up the assembled
+            jacobian: all components, and a finite differenced group in place
+            of the components in it.
+        """
+        for sub in itervalues(self._subsystems):
+            if isinstance(sub, Group) and sub.deriv_options['type'] == 'user':
+                for s in sub._assembled_systems():
+                    yield s
+            else:
+                yield sub
+
     def assemble_jacobian(self, mode='fwd', method='assemble', mult=None):
         """ Assemble and return an ndarray containing the Jacobian for this
         Group.
@@ -1032,7 +1048,7 @@ class Group(System):
             conn = self.connections
             sys_prom_name = self._sysdata.to_prom_name
 
-            for sub in self.components(recurse=True):
+            for sub in self._assembled_systems():
 
                 jac = sub._jacobian_cache
 
@@ -1059,7 +1075,7 @@ class Group(System):
                     # We cache the location of each variable in our jacobian
                     if key2 not in icache:
 
-                        o_var_abs = '.'.join((sub_name, o_var))
+                        o_var_abs = sub._sysdata.to_abs_uname[o_var]
 
                         # States are fine ...
                         if is_state:
-- 
2.43.0


From 0c84564493831e7207a00f00d1197cdcfd31978e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:44 +0000
Subject: [PATCH 17/82] fix: OptionsDictionary.get works with a deprecated
 option name

---
 openmdao/util/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/util/options.py b/openmdao/util/options.py
index d7c3329..f797806 100644
--- a/openmdao/util/options.py
+++ b/openmdao/util/options.py
@@ -157,7 +157,7 @@ class OptionsDictionary(object):
         elif name in self._deprecations:
             newname = self._deprecations[name]
             _print_deprecation(name, newname)
-            return self._options[name]['val']
+            return self._options[newname]['val']
         return default
 
     def iteritems(self):
-- 
2.43.0


From 487c9136505ee87fff7c178c6a2dd638ecf6d809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:45 +0000
Subject: [PATCH 18/82] fix: options with limits refuse nan

---
 openmdao/util/options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/util/options.py b/openmdao/util/options.py
index f797806..65f93dc 100644
--- a/openmdao/util/options.py
+++ b/openmdao/util/options.py
@@ -208,13 +208,13 @@ class OptionsDictionary(object):
 
     def _check_low(self, name, value, lower):
         """ Check for violation of lower bounds. """
-        if value < lower:
+        if not value >= lower:
             msg = "minimum allowed value for '{}' is '{}'"
             raise ValueError(msg.format(name, lower))
 
     def _check_high(self, name, value, upper):
         """ Check for violation of upper bounds. """
-        if value > upper:
+        if not value <= upper:
             msg = "maximum allowed value for '{}' is '{}'"
             raise ValueError(msg.format(name, upper))
 
-- 
2.43.0


From b7c2663c42bd6ef59388da864779c86c8b402377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:45 +0000
Subject: [PATCH 19/82] fix: fd_options extra_check_partials_form can be read

---
 openmdao/util/options.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openmdao/util/options.py b/openmdao/util/options.py
index 65f93dc..95cef40 100644
--- a/openmdao/util/options.py
+++ b/openmdao/util/options.py
@@ -277,6 +277,9 @@ class DeprecatedOptionsDictionary(object):
         if name == 'force_fd':
             return self.opt['type'] in ['fd', 'cs']
 
+        elif name == 'extra_check_partials_form':
+            return self.opt['check_form']
+
         return self.opt[name]
 
     def __setitem__(self, name, value):
-- 
2.43.0


From 423edd5e322482e6aaf32cfc592d77f6a062c61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:45 +0000
Subject: [PATCH 20/82] fix: default step size follows the type set through its
 deprecated name

---
 openmdao/core/system.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 68af8fa..c29596a 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -40,6 +40,9 @@ class DerivOptionsDict(OptionsDictionary):
         step_size has already been changed from default."""
         super(DerivOptionsDict, self).__setitem__(name, value)
 
+        if name not in self._options:
+            name = self._deprecations[name]
+
         if name == 'type':
             if self._options['step_size']['changed']:
                 return
-- 
2.43.0


From 36f17162a1410fe5a95befe0a8d82332e2b8f8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:40 +0000
Subject: [PATCH 21/82] fix: in_base_units takes the offset of a temperature
 scale into account

---
 openmdao/units/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index d1368c6..51258ba 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -301,7 +301,7 @@ class PhysicalQuantity(object):
             The same quantity converted to base units,
             i.e., SI units in most cases.
         """
-        new_value = self.value * self.unit.factor
+        new_value = (self.value + self.unit.offset) * self.unit.factor
         num = ''
         denom = ''
         for unit, power in zip(_UNIT_LIB.base_names, self.unit.powers):
-- 
2.43.0


From d92d9c7732306f74c8e6d45c4b6118d37c110f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:01 +0000
Subject: [PATCH 22/82] fix: a prefixed unit does not change the meaning of
 units looked up later

---
 openmdao/units/units.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index 51258ba..5b86819 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -628,12 +628,14 @@ def _find_unit(unit):
             except Exception:
 
                 # This unit might include prefixed units that aren't in the
-                # unit_table. We must parse them ALL and add them to the
-                # unit_table.
+                # unit_table. We must parse them ALL. They are only known
+                # while this expression is evaluated: in the unit_table, they
+                # would change the meaning of later prefixed units.
+                table = dict(_UNIT_LIB.unit_table)
 
                 # First character of a unit is always alphabet or $.
-                # Remaining characters may include numbers.
-                regex = re.compile('[A-Z,a-z]{1}[A-Z,a-z,0-9]*')
+                # Remaining characters may include numbers and underscores.
+                regex = re.compile('(?<![A-Za-z0-9_.])[A-Za-z][A-Za-z0-9_]*')
 
                 for item in regex.findall(name):
                     #check if this was a compound unit, so each substring might
@@ -644,21 +646,23 @@ def _find_unit(unit):
                         #check for single letter prefix before unit
                         if(item[0] in _UNIT_LIB.prefixes and \
                            item[1:] in _UNIT_LIB.unit_table):
-                            add_unit(item, _UNIT_LIB.prefixes[item[0]]* \
-                                     _UNIT_LIB.unit_table[item[1:]])
+                            table[item] = _UNIT_LIB.prefixes[item[0]]* \
+                                          _UNIT_LIB.unit_table[item[1:]]
 
                         #check for double letter prefix before unit
                         elif(item[0:2] in _UNIT_LIB.prefixes and \
                              item[2:] in _UNIT_LIB.unit_table):
-                            add_unit(item, _UNIT_LIB.prefixes[item[0:2]]* \
-                                      _UNIT_LIB.unit_table[item[2:]])
+                            table[item] = _UNIT_LIB.prefixes[item[0:2]]* \
+                                          _UNIT_LIB.unit_table[item[2:]]
 
                         #no prefixes found, unknown unit
                         else:
                             raise ValueError("no unit named '%s' is defined"
                                              % item)
 
-                unit = eval(name, {'__builtins__':None}, _UNIT_LIB.unit_table)
+                        table[item].set_name(item)
+
+                unit = eval(name, {'__builtins__':None}, table)
 
             _UNIT_CACHE[name] = unit
 
-- 
2.43.0


From f7b883f49cca3502c73e52502ad5955864bcd1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:48 +0000
Subject: [PATCH 23/82] fix: writing an array into a template does not add an
 empty line

---
 openmdao/util/file_wrap.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/openmdao/util/file_wrap.py b/openmdao/util/file_wrap.py
index 3fe1bd9..708ba32 100644
--- a/openmdao/util/file_wrap.py
+++ b/openmdao/util/file_wrap.py
@@ -334,7 +334,7 @@ class InputFileGenerator(object):
             for val in value[sub.counter:]:
                 newline = newline.rstrip() + sep + str(val)
 
-            self.data[j] = newline
+            self.data[j] = newline + "\n"
 
         # Sometimes an array is too small for the template
         # This is resolved by removing fields
@@ -344,8 +344,6 @@ class InputFileGenerator(object):
             # Ideally, we'd remove the extra field placeholders
             raise ValueError("Array is too small for the template.")
 
-        self.data[j] += "\n"
-
     def transfer_2Darray(self, value, row_start, row_end, field_start,
                        field_end):
         """Changes the values of a 2D array in the template relative to the
-- 
2.43.0


From b2146703e481ec6cf4133e0bf17ba286ea216def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:48 +0000
Subject: [PATCH 24/82] fix: numbers written into a template are read back as
 the same values

---
 openmdao/util/file_wrap.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/openmdao/util/file_wrap.py b/openmdao/util/file_wrap.py
index 708ba32..b0c0908 100644
--- a/openmdao/util/file_wrap.py
+++ b/openmdao/util/file_wrap.py
@@ -11,7 +11,7 @@ from six.moves import range
 
 from pyparsing import CaselessLiteral, Combine, OneOrMore, Optional, \
                       TokenConverter, Word, nums, oneOf, printables, \
-                      ParserElement, alphanums
+                      ParserElement, WordEnd, alphanums
 
 import numpy as np
 
@@ -21,14 +21,18 @@ __all__ = ['InputFileGenerator', 'FileParser']
 
 def _getformat(val):
     # Returns the output format for a floating point number.
-    # The general format is used with 16 places of accuracy, except for when
-    # the floating point value is an integer, in which case a decimal point
-    # followed by a single zero is used.
+    # The general format is used with 16 places of accuracy (17 when 16 do
+    # not identify the value), except for when the floating point value is an
+    # integer, in which case a decimal point followed by a single zero is used.
 
-    if int(val) == val:
+    if np.isnan(val) or np.isinf(val):
+        return "%s"
+    elif int(val) == val:
         return "%.1f"
-    else:
+    elif float("%.16g" % val) == val:
         return "%.16g"
+    else:
+        return "%.17g"
 
 
 class _SubHelper(object):
@@ -122,7 +126,7 @@ class ToInf(TokenConverter):
     """Converter for PyParsing that is used to turn a token into Python inf."""
     def postParse( self, instring, loc, tokenlist ):
         """Converter to make token into Python inf."""
-        return float('inf')
+        return float(tokenlist[0])
 
 
 class InputFileGenerator(object):
@@ -866,13 +870,15 @@ class FileParser(object):
                             ))
 
         # special case for a float written like "3e5"
-        mixed_exp = ToFloat(Combine( digits + ee + Optional(sign) + digits ))
+        mixed_exp = ToFloat(Combine( Optional(sign) + digits + ee + Optional(sign) + digits ))
 
-        nan = ToInf(oneOf("Inf -Inf")) | \
+        nan = ToInf(oneOf("Inf -Inf inf -inf")) | \
               ToNan(oneOf("NaN nan NaN%  NaNQ NaNS qNaN sNaN " + \
                             "1.#SNAN 1.#QNAN -1.#IND"))
 
         string_text = Word(textchars)
 
-        self.line_parse_token = ( OneOrMore( (nan | num_float | mixed_exp | num_int |
-                                              string_text) ) )
+        # a number is a whole word: "Info" or "3rd" are text
+        number = (nan | num_float | mixed_exp | num_int) + WordEnd(textchars)
+
+        self.line_parse_token = ( OneOrMore( (number | string_text) ) )
-- 
2.43.0


From 9c1fe7ab71229e8198c75877d151c6769cae45e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:49 +0000
Subject: [PATCH 25/82] fix: transfer_keyvar finds keys backward from the end
 and reports missing ones

---
 openmdao/util/file_wrap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openmdao/util/file_wrap.py b/openmdao/util/file_wrap.py
index b0c0908..80b23dc 100644
--- a/openmdao/util/file_wrap.py
+++ b/openmdao/util/file_wrap.py
@@ -655,7 +655,7 @@ class FileParser(object):
                 row += 1
 
         elif occurrence < 0:
-            row = -1
+            row = len(self.data) - self.current_row - 1
             for line in reversed(self.data[self.current_row:]):
                 if line.find(key) > -1:
                     instance += -1
@@ -664,6 +664,10 @@ class FileParser(object):
 
                 row -= 1
 
+        if instance != occurrence:
+            raise RuntimeError("Could not find key %s in output file %s" % \
+                               (key, self.filename))
+
         j = self.current_row + row + rowoffset
         line = self.data[j]
 
-- 
2.43.0


From c84a3793b6ce09619d32991fedb38976453a1750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:03 +0000
Subject: [PATCH 26/82] fix: column ranges are split at whitespace whatever
 delimiters were used before

---
 openmdao/util/file_wrap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openmdao/util/file_wrap.py b/openmdao/util/file_wrap.py
index 80b23dc..a213862 100644
--- a/openmdao/util/file_wrap.py
+++ b/openmdao/util/file_wrap.py
@@ -475,6 +475,9 @@ class FileParser(object):
         self.delimiter = delimiter
         if delimiter != "columns":
             ParserElement.setDefaultWhitespaceChars(str(delimiter))
+        else:
+            # whitespace separates the values within a column range
+            ParserElement.setDefaultWhitespaceChars(" \t")
         self._reset_tokens()
 
     def mark_anchor(self, anchor, occurrence=1):
-- 
2.43.0


From f4e82e359a148bb2c8f6964e68c6046e68b5d03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:03 +0000
Subject: [PATCH 27/82] fix: transfer_2Darray does not return zeros for fields
 it could not read

---
 openmdao/util/file_wrap.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/openmdao/util/file_wrap.py b/openmdao/util/file_wrap.py
index a213862..5fafc63 100644
--- a/openmdao/util/file_wrap.py
+++ b/openmdao/util/file_wrap.py
@@ -826,10 +826,7 @@ class FileParser(object):
                 parsed = self._parse_line().parseString(line)
 
                 if fieldend:
-                    try:
-                        data[i+1, :] = np.array(parsed[(fieldstart-1):fieldend])
-                    except:
-                        print(data)
+                    data[i+1, :] = np.array(parsed[(fieldstart-1):fieldend])
                 else:
                     data[i+1, :] = np.array(parsed[(fieldstart-1):])
 
-- 
2.43.0


From 5939b872b9d52458e4e7a87f849f8ef11357e28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:03 +0000
Subject: [PATCH 28/82] fix: characters special to regular expressions can be
 delimiters of a template

---
 openmdao/util/file_wrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/util/file_wrap.py b/openmdao/util/file_wrap.py
index 5fafc63..a6ccd3c 100644
--- a/openmdao/util/file_wrap.py
+++ b/openmdao/util/file_wrap.py
@@ -181,7 +181,7 @@ class InputFileGenerator(object):
             A string containing characters to be used as delimiters."""
 
         self.delimiter = delimiter
-        self.reg = re.compile('[^' + delimiter + '\n]+')
+        self.reg = re.compile('[^' + re.escape(delimiter) + '\n]+')
 
     def mark_anchor(self, anchor, occurrence=1):
         """Marks the location of a landmark, which lets you describe data by
-- 
2.43.0


From 67366bcfc32ad98b78c64cbcf1544923218e9651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:55 +0000
Subject: [PATCH 29/82] fix: a worker that met a fatal error answers the cases
 it does not run

---
 openmdao/drivers/predeterminedruns_driver.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/openmdao/drivers/predeterminedruns_driver.py b/openmdao/drivers/predeterminedruns_driver.py
index 4d77d9b..9c2c326 100644
--- a/openmdao/drivers/predeterminedruns_driver.py
+++ b/openmdao/drivers/predeterminedruns_driver.py
@@ -48,12 +48,20 @@ def worker(problem, response_vars, case_queue, response_queue, worker_id): # pra
             #logging.info("worker %d, case id %d, case %s" % (worker_id, case_id, case))
 
             if terminate:
+                # no more cases are run here, but the main process is waiting
+                # for an answer to every case it has sent out.
+                metadata = create_local_meta(None, 'Driver')
+                metadata.update({'id': case_id, 'success': 0, 'terminate': 1,
+                                 'msg': 'Case %s was not run because of an '
+                                        'earlier error.' % case_id})
+                response_queue.put((metadata, []))
                 continue
 
             metadata = driver._prep_case(case, case_id)
 
             try:
-                terminate, exc = driver._try_case(root, metadata)
+                driver._try_case(root, metadata)
+                terminate = metadata['terminate']
                 if terminate:
                     complete_case = (metadata, [])
                 else:
-- 
2.43.0


From 6d72fa0c25975d8a7232f4aac05feb1d4f0f10c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:55 +0000
Subject: [PATCH 30/82] fix: a case that cannot be set into the model does not
 hang a parallel DOE

---
 openmdao/drivers/predeterminedruns_driver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openmdao/drivers/predeterminedruns_driver.py b/openmdao/drivers/predeterminedruns_driver.py
index 9c2c326..cd355d7 100644
--- a/openmdao/drivers/predeterminedruns_driver.py
+++ b/openmdao/drivers/predeterminedruns_driver.py
@@ -57,9 +57,10 @@ def worker(problem, response_vars, case_queue, response_queue, worker_id): # pra
                 response_queue.put((metadata, []))
                 continue
 
-            metadata = driver._prep_case(case, case_id)
+            metadata = create_local_meta(None, 'Driver')
 
             try:
+                metadata = driver._prep_case(case, case_id)
                 driver._try_case(root, metadata)
                 terminate = metadata['terminate']
                 if terminate:
@@ -76,7 +77,7 @@ def worker(problem, response_vars, case_queue, response_queue, worker_id): # pra
                 else:
                     metadata['msg'] = traceback.format_exc()
                 metadata['success'] = 0
-                metadata['terminate'] = 1
+                metadata['terminate'] = terminate = 1
                 complete_case = (metadata, [])
 
             metadata['id'] = case_id
-- 
2.43.0


From d32d9eeb350645b4de5daadcdc9d435a37901bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:55 +0000
Subject: [PATCH 31/82] fix: results of a worker process do not change after
 they were queued

---
 openmdao/drivers/predeterminedruns_driver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/drivers/predeterminedruns_driver.py b/openmdao/drivers/predeterminedruns_driver.py
index cd355d7..f676e8a 100644
--- a/openmdao/drivers/predeterminedruns_driver.py
+++ b/openmdao/drivers/predeterminedruns_driver.py
@@ -8,6 +8,7 @@ import sys
 import os
 import traceback
 import logging
+from copy import deepcopy
 from itertools import chain
 from six.moves import zip
 from six import next, PY3, iteritems, string_types
@@ -67,7 +68,7 @@ def worker(problem, response_vars, case_queue, response_queue, worker_id): # pra
                     complete_case = (metadata, [])
                 else:
                     complete_case = (metadata,
-                             [_get_root_var(root, n) for n in response_vars])
+                             [deepcopy(_get_root_var(root, n)) for n in response_vars])
             except:
                 # we generally shouldn't get here, but just in case,
                 # handle it so that the main process doesn't hang at the
-- 
2.43.0


From fa1fadeaa31c54b29f16008b1052939e5b35f689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:55 +0000
Subject: [PATCH 32/82] fix: concurrent_eval_lb runs the cases itself when
 there are no workers

---
 openmdao/util/concurrent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/util/concurrent.py b/openmdao/util/concurrent.py
index 76f7c08..cbb6dd3 100644
--- a/openmdao/util/concurrent.py
+++ b/openmdao/util/concurrent.py
@@ -26,7 +26,7 @@ def concurrent_eval_lb(func, cases, comm, broadcast=False):
         that the return value of concurrent_eval_lb will be the full result
         list in every process.
     """
-    if comm is not None:
+    if comm is not None and comm.size > 1:
         if comm.rank == 0:  # master rank
             results = _concurrent_eval_lb_master(cases, comm)
         else:
-- 
2.43.0


From 93bb49846f1465a3ccdf8d57e676f04bec795264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:55 +0000
Subject: [PATCH 33/82] fix: concurrent_eval_lb returns the results in the
 order of the cases

---
 openmdao/util/concurrent.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/openmdao/util/concurrent.py b/openmdao/util/concurrent.py
index cbb6dd3..6fa6651 100644
--- a/openmdao/util/concurrent.py
+++ b/openmdao/util/concurrent.py
@@ -60,7 +60,10 @@ def _concurrent_eval_lb_master(cases, comm):
     received = 0
     sent = 0
 
-    results = []
+    results = {}
+
+    # workers finish in any order, so remember the case each of them works on
+    working_on = {}
 
     case_iter = iter(cases)
 
@@ -72,6 +75,7 @@ def _concurrent_eval_lb_master(cases, comm):
             break
 
         comm.send(case, i, tag=1)
+        working_on[i] = sent
         sent += 1
 
     # send the rest of the cases
@@ -83,7 +87,7 @@ def _concurrent_eval_lb_master(cases, comm):
             received += 1
 
             # store results
-            results.append((retval, err))
+            results[working_on[worker]] = (retval, err)
 
             # don't stop until we hear back from every worker process
             # we sent a case to
@@ -97,13 +101,14 @@ def _concurrent_eval_lb_master(cases, comm):
             else:
                 # send new case to the last worker that finished
                 comm.send(case, worker, tag=1)
+                working_on[worker] = sent
                 sent += 1
 
     # tell all workers to stop
     for rank in range(1, comm.size):
         comm.send((None, None), rank, tag=1)
 
-    return results
+    return [results[i] for i in range(sent)]
 
 def _concurrent_eval_lb_worker(func, comm):
     while True:
-- 
2.43.0


From 9261307de7c9d23c8f4080400699a4db46d2f2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:38 +0000
Subject: [PATCH 34/82] fix: concurrent_eval_lb sends all cases to a single
 worker

---
 openmdao/util/concurrent.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openmdao/util/concurrent.py b/openmdao/util/concurrent.py
index 6fa6651..aeb0263 100644
--- a/openmdao/util/concurrent.py
+++ b/openmdao/util/concurrent.py
@@ -89,11 +89,6 @@ def _concurrent_eval_lb_master(cases, comm):
             # store results
             results[working_on[worker]] = (retval, err)
 
-            # don't stop until we hear back from every worker process
-            # we sent a case to
-            if received == sent:
-                break
-
             try:
                 case = next(case_iter)
             except StopIteration:
@@ -104,6 +99,11 @@ def _concurrent_eval_lb_master(cases, comm):
                 working_on[worker] = sent
                 sent += 1
 
+            # don't stop until we hear back from every worker process
+            # we sent a case to
+            if received == sent:
+                break
+
     # tell all workers to stop
     for rank in range(1, comm.size):
         comm.send((None, None), rank, tag=1)
-- 
2.43.0


From fafcd6314dd167c8dc426ee8e872885618730103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:38 +0000
Subject: [PATCH 35/82] fix: processes without a case stop when a case fails
 elsewhere

---
 openmdao/drivers/predeterminedruns_driver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/drivers/predeterminedruns_driver.py b/openmdao/drivers/predeterminedruns_driver.py
index f676e8a..6b5d934 100644
--- a/openmdao/drivers/predeterminedruns_driver.py
+++ b/openmdao/drivers/predeterminedruns_driver.py
@@ -510,7 +510,8 @@ class PredeterminedRunsDriver(Driver):
         for case in self._get_case_w_nones(self._distrib_build_runlist()):
             if case is None: # dummy cases have case == None
                 # must take part in collective Allreduce call
-                any_proc_is_true(self._full_comm, False)
+                if any_proc_is_true(self._full_comm, False):
+                    raise RuntimeError("an exception was raised by another MPI process.")
                 metadata = None
 
             else:  # case is not a dummy case
-- 
2.43.0


From d9fe81d0c61ee61cc44d16d576aaf8cec6095b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:38 +0000
Subject: [PATCH 36/82] fix: InMemoryRecorder keeps the values of the iteration
 it recorded

---
 openmdao/recorders/inmem_recorder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openmdao/recorders/inmem_recorder.py b/openmdao/recorders/inmem_recorder.py
index 8ec23f4..4bb7d8b 100644
--- a/openmdao/recorders/inmem_recorder.py
+++ b/openmdao/recorders/inmem_recorder.py
@@ -5,6 +5,7 @@ and using it for real problems could use up large amounts of memory.
 """
 
 import sys
+from copy import deepcopy
 
 from six import string_types, iteritems
 
@@ -78,17 +79,17 @@ class InMemoryRecorder(BaseRecorder):
         data['msg'] = metadata['msg']
 
         if self.options['record_params']:
-            data['params'] = {p:v for p,v in
+            data['params'] = {p:deepcopy(v) for p,v in
                                  iteritems(self._filter_vector(params,'p',
                                                         iteration_coordinate))}
 
         if self.options['record_unknowns']:
-            data['unknowns'] = {u:v for u,v in
+            data['unknowns'] = {u:deepcopy(v) for u,v in
                                   iteritems(self._filter_vector(unknowns,'u',
                                                         iteration_coordinate))}
 
         if self.options['record_resids']:
-            data['resids'] = {r:v for r,v in
+            data['resids'] = {r:deepcopy(v) for r,v in
                                   iteritems(self._filter_vector(resids,'r',
                                                          iteration_coordinate))}
 
-- 
2.43.0


From bed1b0f2e68f037f7c646b0fda4b6fbecca57187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:25 +0000
Subject: [PATCH 37/82] fix: a master stops sending cases as soon as it hears
 of a fatal error

---
 openmdao/drivers/predeterminedruns_driver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/drivers/predeterminedruns_driver.py b/openmdao/drivers/predeterminedruns_driver.py
index 6b5d934..2b1172b 100644
--- a/openmdao/drivers/predeterminedruns_driver.py
+++ b/openmdao/drivers/predeterminedruns_driver.py
@@ -776,6 +776,8 @@ class PredeterminedRunsDriver(Driver):
                         oldmeta.update(meta)
 
                     caseinfo['terminate'] += meta.get('terminate', 0)
+                    if caseinfo['terminate'] > 0:
+                        more_cases = False
 
                     if caseinfo['count'] == 0:
                         # we've received case from all procs with that doe_id
@@ -784,7 +786,6 @@ class PredeterminedRunsDriver(Driver):
                         # worker has experienced some critical error, so we'll
                         # stop sending new cases and start to wrap things up
                         if caseinfo['terminate'] > 0:
-                            more_cases = False
                             print("Worker %d has requested termination. No more new "
                                   "cases will be distributed. Worker traceback was:\n%s" %
                                   (worker, meta['msg']))
-- 
2.43.0


From 0c4e6d33f0820a47deffd85f77a92afd70a5a9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:16 +0000
Subject: [PATCH 38/82] fix: an optimized Latin hypercube of one sample does
 not loop forever

---
 openmdao/drivers/latinhypercube_driver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openmdao/drivers/latinhypercube_driver.py b/openmdao/drivers/latinhypercube_driver.py
index f62337b..70b27c9 100644
--- a/openmdao/drivers/latinhypercube_driver.py
+++ b/openmdao/drivers/latinhypercube_driver.py
@@ -225,6 +225,9 @@ class _LHC_Individual(object):
 
         new_doe = self.doe.copy()
         n, k = self.doe.shape
+        if n < 2:  # there is nothing to interchange
+            return _LHC_Individual(new_doe, self.q, self.p)
+
         for count in range(mutation_count):
             col = randint(0, k - 1)
 
-- 
2.43.0


From 89b9ae74a53316474d69f4779edcffb38272d8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:16 +0000
Subject: [PATCH 39/82] fix: repeated interchanges keep a Latin hypercube a
 Latin hypercube

---
 openmdao/drivers/latinhypercube_driver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openmdao/drivers/latinhypercube_driver.py b/openmdao/drivers/latinhypercube_driver.py
index 70b27c9..fcc3e92 100644
--- a/openmdao/drivers/latinhypercube_driver.py
+++ b/openmdao/drivers/latinhypercube_driver.py
@@ -237,8 +237,7 @@ class _LHC_Individual(object):
             while el1 == el2:
                 el2 = randint(0, n - 1)
 
-            new_doe[el1, col] = self.doe[el2, col]
-            new_doe[el2, col] = self.doe[el1, col]
+            new_doe[[el1, el2], col] = new_doe[[el2, el1], col]
 
         return _LHC_Individual(new_doe, self.q, self.p)
 
-- 
2.43.0


From bc12665fd17e62db44f9592490f6d3c6cffc6705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:16 +0000
Subject: [PATCH 40/82] fix: seeded plans do not depend on random numbers used
 by the model

---
 openmdao/drivers/latinhypercube_driver.py | 9 ++++++---
 openmdao/drivers/uniform_driver.py        | 7 +++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/openmdao/drivers/latinhypercube_driver.py b/openmdao/drivers/latinhypercube_driver.py
index fcc3e92..e921974 100644
--- a/openmdao/drivers/latinhypercube_driver.py
+++ b/openmdao/drivers/latinhypercube_driver.py
@@ -51,9 +51,12 @@ class LatinHypercubeDriver(PredeterminedRunsDriver):
         # Add up sizes
         self.num_design_vars = sum(meta['size'] for meta in itervalues(design_vars))
 
+        rand = np.random
         if self.seed is not None:
             seed(self.seed)
-            np.random.seed(self.seed)
+            # the samples are drawn while the model runs, which may use
+            # random numbers of its own.
+            rand = np.random.RandomState(self.seed)
 
         # Generate an LHC of the proper size
         rand_lhc = self._get_lhc()
@@ -87,8 +90,8 @@ class LatinHypercubeDriver(PredeterminedRunsDriver):
         for i in range(self.num_samples):
             sample = []
             for key, bounds in iteritems(buckets):
-                sample.append([key, np.array([np.random.uniform(bounds[k][i][0],
-                                                                bounds[k][i][1])
+                sample.append([key, np.array([rand.uniform(bounds[k][i][0],
+                                                        bounds[k][i][1])
                                               for k in range(design_vars[key]['size'])])
                                ])
             yield sample
diff --git a/openmdao/drivers/uniform_driver.py b/openmdao/drivers/uniform_driver.py
index 9afc004..8b91483 100644
--- a/openmdao/drivers/uniform_driver.py
+++ b/openmdao/drivers/uniform_driver.py
@@ -36,8 +36,11 @@ class UniformDriver(PredeterminedRunsDriver):
     def _build_runlist(self):
         """Build a runlist based on a uniform distribution."""
 
+        rand = np.random
         if self.seed is not None:
-            np.random.seed(self.seed)
+            # the samples are drawn while the model runs, which may use
+            # random numbers of its own.
+            rand = np.random.RandomState(self.seed)
 
         for i in moves.range(self.num_samples):
             sample = []
@@ -53,7 +56,7 @@ class UniformDriver(PredeterminedRunsDriver):
                     if isinstance(high, np.ndarray):
                         high = high[k]
 
-                    values.append(np.random.uniform(low, high))
+                    values.append(rand.uniform(low, high))
                 sample.append([key, np.array(values)])
 
             yield sample
-- 
2.43.0


From c67201c2b337a0ef5f17434a462d14211d49f509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:26 +0000
Subject: [PATCH 41/82] fix: training data of several array params go to
 separate columns

---
 openmdao/components/meta_model.py         | 1 +
 openmdao/components/multifi_meta_model.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/openmdao/components/meta_model.py b/openmdao/components/meta_model.py
index 671a00e..c5f7b09 100644
--- a/openmdao/components/meta_model.py
+++ b/openmdao/components/meta_model.py
@@ -332,6 +332,7 @@ class MetaModel(Component):
                         if not isinstance(v, np.ndarray):
                             v = np.array(v)
                         new_input[row_idx, idx:idx+sz] = v.flat
+                    idx += sz
 
         # add training data for each output
         for name, shape in self._surrogate_output_names:
diff --git a/openmdao/components/multifi_meta_model.py b/openmdao/components/multifi_meta_model.py
index d6bec20..f509d96 100644
--- a/openmdao/components/multifi_meta_model.py
+++ b/openmdao/components/multifi_meta_model.py
@@ -182,6 +182,7 @@ class MultiFiMetaModel(MetaModel):
                             if not isinstance(v, np.ndarray):
                                 v = np.array(v)
                             new_inputs[fi][row_idx, idx[fi]:idx[fi]+sz] = v.flat
+                        idx[fi] += sz
 
         # add training data for each output
         outputs=self._nfi*[None]
-- 
2.43.0


From e5f0c2cf26c04eba2ae0c4d00e9036275295d760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:26 +0000
Subject: [PATCH 42/82] fix: MultiFiMetaModel can be trained with three or more
 fidelities

---
 openmdao/components/multifi_meta_model.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/openmdao/components/multifi_meta_model.py b/openmdao/components/multifi_meta_model.py
index f509d96..bee61e7 100644
--- a/openmdao/components/multifi_meta_model.py
+++ b/openmdao/components/multifi_meta_model.py
@@ -127,26 +127,26 @@ class MultiFiMetaModel(MetaModel):
         num_sample = self._nfi*[None]
         for name, sz in self._surrogate_param_names:
             for fi in range(self._nfi):
-                name = _get_name_fi(name, fi)
-                val = self.params['train:' + name]
+                name_fi = _get_name_fi(name, fi)
+                val = self.params['train:' + name_fi]
                 if num_sample[fi] is None:
                     num_sample[fi] = len(val)
                 elif len(val) != num_sample[fi]:
                     msg = "MetaModel: Each variable must have the same number"\
                           " of training points. Expected {0} but found {1} "\
                           "points for '{2}'."\
-                          .format(num_sample[fi], len(val), name)
+                          .format(num_sample[fi], len(val), name_fi)
                     raise RuntimeError(msg)
 
         for name, shape in self._surrogate_output_names:
             for fi in range(self._nfi):
-                name = _get_name_fi(name, fi)
-                val = self.params['train:' + name]
+                name_fi = _get_name_fi(name, fi)
+                val = self.params['train:' + name_fi]
                 if len(val) != num_sample[fi]:
                     msg = "MetaModel: Each variable must have the same number" \
                           " of training points. Expected {0} but found {1} " \
                           "points for '{2}'." \
-                        .format(num_sample[fi], len(val), name)
+                        .format(num_sample[fi], len(val), name_fi)
                     raise RuntimeError(msg)
 
         if self.warm_restart:
@@ -172,8 +172,7 @@ class MultiFiMetaModel(MetaModel):
         for name, sz in self._surrogate_param_names:
             for fi in range(self._nfi):
                 if num_sample[fi] > 0:
-                    name = _get_name_fi(name, fi)
-                    val = self.params['train:' + name]
+                    val = self.params['train:' + _get_name_fi(name, fi)]
                     if isinstance(val[0], float):
                         new_inputs[fi][:, idx[fi]] = val
                         idx[fi] += 1
-- 
2.43.0


From 6a35f9ee550c575f9f5439fed5e3328df6b12ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:20 +0000
Subject: [PATCH 43/82] fix: a MultiFiMetaModel of one fidelity can use
 warm_restart

---
 openmdao/components/multifi_meta_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openmdao/components/multifi_meta_model.py b/openmdao/components/multifi_meta_model.py
index bee61e7..9bc461c 100644
--- a/openmdao/components/multifi_meta_model.py
+++ b/openmdao/components/multifi_meta_model.py
@@ -89,7 +89,9 @@ class MultiFiMetaModel(MetaModel):
         self._nfi = nfi
 
         # generalize MetaModel training inputs to a list of training inputs
-        self._training_input = nfi*[np.zeros(0)]
+        # (a single fidelity is left to the base class).
+        if nfi > 1:
+            self._training_input = nfi*[np.zeros(0)]
         self._input_sizes = nfi*[0]
 
     def add_param(self, name, val=_NotSet, **kwargs):
@@ -106,7 +108,8 @@ class MultiFiMetaModel(MetaModel):
 
     def add_output(self, name, val=_NotSet, **kwargs):
         super(MultiFiMetaModel, self).add_output(name, val, **kwargs)
-        self._training_output[name]=self._nfi*[np.zeros(0)]
+        if self._nfi > 1:
+            self._training_output[name]=self._nfi*[np.zeros(0)]
 
         # Add train:<outvar>_fi<n>
         for fi in range(self._nfi):
-- 
2.43.0


From ec4932fbd06f7d1c6fe45be9be63cbbe9c9b6e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:14 +0000
Subject: [PATCH 44/82] fix: get_desvars returns the value of a pass_by_obj
 design variable

---
 openmdao/core/driver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index be23911..5d359b8 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -443,6 +443,9 @@ class Driver(object):
             owner = 0
             flatval = uvec._dat[name].val
 
+        if isinstance(flatval, _ByObjWrapper):
+            flatval = flatval.val
+
         if 'indices' in meta and not (nproc > 1 and owner != iproc):
             # Make sure our indices are valid
             try:
-- 
2.43.0


From 32b7969401d563bb8028aa911ef55df1cf709296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:31 +0000
Subject: [PATCH 45/82] fix: ScipyOptimizer leaves the model at the point the
 optimizer reports

---
 openmdao/drivers/scipy_optimizer.py | 33 +++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/openmdao/drivers/scipy_optimizer.py b/openmdao/drivers/scipy_optimizer.py
index 58bd891..5a6f072 100644
--- a/openmdao/drivers/scipy_optimizer.py
+++ b/openmdao/drivers/scipy_optimizer.py
@@ -83,6 +83,7 @@ class ScipyOptimizer(Driver):
         self.exit_flag = 0
         self.grad_cache = None
         self.con_cache = None
+        self.x_last = None
         self.con_idx = OrderedDict()
         self.cons = None
         self.objs = None
@@ -106,6 +107,8 @@ class ScipyOptimizer(Driver):
         self.iter_count = 0
         update_local_meta(self.metadata, (self.iter_count,))
 
+        self.x_last = None
+
         # Initial Run
         with problem.root._dircontext:
             problem.root.solve_nonlinear(metadata=self.metadata)
@@ -210,6 +213,9 @@ class ScipyOptimizer(Driver):
                           #callback=None,
                           options=self.opt_settings)
 
+        # The last point that was evaluated need not be the reported one.
+        self._run_at(result.x, problem)
+
         self._problem = None
         self.result = result
         self.exit_flag = 1 if self.result.success else 0
@@ -218,6 +224,30 @@ class ScipyOptimizer(Driver):
             print('Optimization Complete')
             print('-'*35)
 
+    def _run_at(self, x_new, problem):
+        """ Leaves the model at the given point, running it if it was last
+        evaluated at another one.
+
+        Args
+        ----
+        x_new : ndarray
+            Array containing parameter values at the final point.
+
+        problem : `Problem`
+            Our parent `Problem`.
+        """
+        if self.x_last is not None and np.array_equal(self.x_last, x_new):
+            return
+
+        i = 0
+        for name, meta in self.get_desvar_metadata().items():
+            size = meta['size']
+            self.set_desvar(name, x_new[i:i+size])
+            i += size
+
+        with problem.root._dircontext:
+            problem.root.solve_nonlinear(metadata=self.metadata)
+
     def _objfunc(self, x_new):
         """ Function that evaluates and returns the objective function. Model
         is executed here.
@@ -236,6 +266,9 @@ class ScipyOptimizer(Driver):
         system = self.root
         metadata = self.metadata
 
+        # Optimizers may modify the array later.
+        self.x_last = np.array(x_new)
+
         # Pass in new parameters
         i = 0
         for name, meta in self.get_desvar_metadata().items():
-- 
2.43.0


From 1954d6cd308076c63a7676fa29d0147f20548c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:40 +0000
Subject: [PATCH 46/82] fix: ScipyOptimizer leaves out the sides of a
 constraint that have no bound

---
 openmdao/drivers/scipy_optimizer.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/openmdao/drivers/scipy_optimizer.py b/openmdao/drivers/scipy_optimizer.py
index 5a6f072..a7b7158 100644
--- a/openmdao/drivers/scipy_optimizer.py
+++ b/openmdao/drivers/scipy_optimizer.py
@@ -4,6 +4,8 @@ OpenMDAO Wrapper for the scipy.optimize.minimize family of local optimizers.
 
 from __future__ import print_function
 
+import sys
+
 from six import itervalues, iteritems
 from six.moves import range
 
@@ -27,6 +29,12 @@ _constraint_grad_optimizers = ['SLSQP']
 _unsupported_optimizers = ['dogleg', 'trust-ncg']
 
 
+def _has_bound(bound, idx):
+    """ Returns True if the entry `idx` of a bound limits anything."""
+    if isinstance(bound, np.ndarray):
+        bound = bound[idx]
+    return abs(bound) < sys.float_info.max
+
 class ScipyOptimizer(Driver):
     """ Driver wrapper for the scipy.optimize.minimize family of local
     optimizers. Inequality constraints are supported by COBYLA and SLSQP,
@@ -168,6 +176,10 @@ class ScipyOptimizer(Driver):
                 size = meta['size']
                 dblcon = meta['upper'] is not None and meta['lower'] is not None
                 for j in range(0, size):
+                    side = 'upper' if meta['lower'] is None else 'lower'
+                    if meta['equals'] is None and not _has_bound(meta[side], j):
+                        continue
+
                     con_dict = OrderedDict()
                     if meta['equals'] is not None:
                         con_dict['type'] = 'eq'
@@ -185,6 +197,9 @@ class ScipyOptimizer(Driver):
                 if dblcon:
                     name = '2bl-' + name
                     for j in range(0, size):
+                        if not _has_bound(meta['upper'], j):
+                            continue
+
                         con_dict = OrderedDict()
                         con_dict['type'] = 'ineq'
                         con_dict['fun'] = self._confunc
-- 
2.43.0


From fd2dd29bafef5d99a5ee5e2e1baaaa7de7fc6844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:01 +0000
Subject: [PATCH 47/82] fix: a two-sided constraint close to one of its bounds
 is active

---
 openmdao/drivers/pyoptsparse_driver.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openmdao/drivers/pyoptsparse_driver.py b/openmdao/drivers/pyoptsparse_driver.py
index 73b4c67..6299f9f 100644
--- a/openmdao/drivers/pyoptsparse_driver.py
+++ b/openmdao/drivers/pyoptsparse_driver.py
@@ -535,9 +535,8 @@ class pyOptSparseDriver(Driver):
                         else:
                             tol = tols[j]
                         lower, upper = con.lower[j], con.upper[j]
-                        if lower is not None and val[j] > lower + tol:
-                            inactive_idx.append(j)
-                        if upper is not None and val[j] < upper - tol:
+                        if (lower is None or val[j] > lower + tol) and \
+                           (upper is None or val[j] < upper - tol):
                             inactive_idx.append(j)
 
                     if inactive_idx:
-- 
2.43.0


From de5b406a259d2615895390cb7013228130aeb945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:01 +0000
Subject: [PATCH 48/82] fix: gradients of inactive constraints are only left
 out for optimizers that support it

---
 openmdao/drivers/pyoptsparse_driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/drivers/pyoptsparse_driver.py b/openmdao/drivers/pyoptsparse_driver.py
index 6299f9f..cef0ce5 100644
--- a/openmdao/drivers/pyoptsparse_driver.py
+++ b/openmdao/drivers/pyoptsparse_driver.py
@@ -524,7 +524,7 @@ class pyOptSparseDriver(Driver):
 
             # Assemble inactive constraints
             inactives = {}
-            if len(self.active_tols) > 0:
+            if self.supports['active_set'] and len(self.active_tols) > 0:
                 for name, tols in iteritems(self.active_tols):
                     con = self.opt_prob.constraints[name]
                     inactive_idx = []
-- 
2.43.0


From dd5f439ca30b5f90160bd35e8ea03c3b483c2cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:14 +0000
Subject: [PATCH 49/82] fix: Newton steps respect the bounds of all variables

---
 openmdao/core/vec_wrapper.py | 76 ++++++++----------------------------
 1 file changed, 16 insertions(+), 60 deletions(-)

diff --git a/openmdao/core/vec_wrapper.py b/openmdao/core/vec_wrapper.py
index ea87137..fb89884 100644
--- a/openmdao/core/vec_wrapper.py
+++ b/openmdao/core/vec_wrapper.py
@@ -895,71 +895,27 @@ class SrcVecWrapper(VecWrapper):
                 # Skip any remote vars. Also, skip any vars that are
                 # pass_by_obj. Gradients are undefined for objects, so we
                 # can't determine how far to go to the bound anyway.
-                if 'remote' in meta or 'pass_by_obj' in meta:
+                if 'remote' in meta or meta.get('pass_by_obj'):
                     continue
 
-                val = self[name]
-                idx = duvec._dat[name].slice[0]
+                start, end = duvec._dat[name].slice
+                val = self._dat[name].val
+                step = duvec._dat[name].val
+                var_alpha = alpha[start:end]
 
-                upper = meta.get('upper')
-                if upper is not None:
-                    diff = upper - val
-                    alpha_bound = diff/duvec[name]
-                    if isinstance(alpha_bound, float):
+                for bound, sign in ((meta.get('upper'), 1.0),
+                                    (meta.get('lower'), -1.0)):
+                    if bound is None:
+                        continue
 
-                        # If we are already violated for any reason,
-                        # bring it back to the boundary.
-                        if diff < 0.0:
-                            alpha[idx] = alpha_bound
+                    diff = sign*(numpy.ravel(bound) - val)
+                    alpha_bound = sign*diff/step
 
-                        elif alpha_bound >= 0.0:
-                            if alpha_bound < alpha[idx]:
-                                alpha[idx] = alpha_bound
-
-                    else:
-                        j = 0
-                        for new_val in alpha_bound:
-
-                            # If we are already violated for any reason,
-                            # bring it back to the boundary.
-                            if diff[j] < 0.0:
-                                alpha[idx+j] = new_val
-
-                            elif new_val >= 0.0:
-                                if new_val < alpha[idx+j]:
-                                    alpha[idx+j] = new_val
-
-                            j += 1
-
-                lower = meta.get('lower')
-                if lower is not None:
-                    diff = lower - val
-                    alpha_bound = diff/duvec[name]
-                    if isinstance(alpha_bound, float):
-
-                        # If we are already violated for any reason,
-                        # bring it back to the boundary.
-                        if diff > 0.0:
-                            alpha[idx] = alpha_bound
-
-                        elif alpha_bound >= 0.0:
-                            if alpha_bound < alpha[idx]:
-                                alpha[idx] = alpha_bound
-
-                    else:
-                        j = 0
-                        for new_val in alpha_bound:
-
-                            # If we are already violated for any reason,
-                            # bring it back to the boundary.
-                            if diff[j] > 0.0:
-                                alpha[idx+j] = new_val
-
-                            elif new_val >= 0.0:
-                                if new_val < alpha[idx+j]:
-                                    alpha[idx+j] = new_val
-
-                            j += 1
+                    # If we are already violated for any reason, bring it
+                    # back to the boundary.
+                    limit = (diff < 0.0) & (step != 0.0)
+                    limit |= (alpha_bound >= 0.0) & (alpha_bound < var_alpha)
+                    var_alpha[limit] = alpha_bound[limit]
 
         # Return numpy warn to what it was
         finally:
-- 
2.43.0


From 6ca840cba10cef7b3d39e3364d7ba411f60d3de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:14 +0000
Subject: [PATCH 50/82] fix: Newton restores the differentiation settings of
 its system when the solve fails

---
 openmdao/solvers/newton.py | 138 +++++++++++++++++++------------------
 1 file changed, 70 insertions(+), 68 deletions(-)

diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index 2643281..1c3b076 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -174,83 +174,85 @@ class Newton(NonLinearSolver):
 
         # Can't have the system trying to FD itself when it also contains Newton.
         save_type = system.deriv_options['type']
+        save_locked = system.deriv_options.locked
         system.deriv_options.locked = False
         system.deriv_options['type'] = 'user'
 
-        while self.iter_count < maxiter and f_norm > atol and \
-                f_norm/f_norm0 > rtol and u_norm > utol:
-
-            # Linearize Model with partial derivatives
-            system._sys_linearize(params, unknowns, resids, total_derivs=False)
-
-            # Calculate direction to take step
-            arg.vec[:] = -resids.vec
-            with system._dircontext:
-                system.solve_linear(system.dumat, system.drmat,
-                                    [None], mode='fwd', solver=self.ln_solver,
-                                    rel_inputs=self.rel_inputs)
-
-            # Keeping this commented-out line here. This was a brute-force
-            # fix to a problem with subsystem linear solvers being corrupted
-            # by values left in out-of-scope dparams. It's mostly fixed, but
-            # there may be corner cases. If you see something weird, you
-            # could try uncommenting and see if this changes anything (which
-            # it should not.)
-            #system.clear_dparams()
-
-            self.iter_count += 1
-
-            # Allow different alphas for each value so we can keep moving when we
-            # hit a bound.
-            alpha = alpha_scalar*np.ones(len(unknowns.vec))
-
-            # If our step will violate any upper or lower bounds, then reduce
-            # alpha in just that direction so that we only step to that
-            # boundary.
-            alpha = unknowns.distance_along_vector_to_limit(alpha, result)
-
-            # Cache the current norm
-            if ls:
-                base_u[:] = unknowns.vec
-                base_norm = f_norm
-
-            # Apply step that doesn't violate bounds
-            unknowns_cache[:] = unknowns.vec
-            unknowns.vec += alpha*result.vec
-
-            # Metadata update
-            update_local_meta(local_meta, (self.iter_count, 0))
-
-            # Just evaluate (and optionally solve) the model with the new
-            # points
-            if self.options['solve_subsystems']:
-                system.children_solve_nonlinear(local_meta)
-            system.apply_nonlinear(params, unknowns, resids, local_meta)
-
-            self.recorders.record_iteration(system, local_meta)
-
-            f_norm = resids.norm()
-            u_norm = np.linalg.norm(unknowns.vec - unknowns_cache)
-            if iprint == 2:
-                self.print_norm(self.print_name, system, self.iter_count,
-                                f_norm, f_norm0, u_norm=u_norm)
-
-            # Line Search to determine how far to step in the Newton direction
-            if ls:
-                f_norm = ls.solve(params, unknowns, resids, system, self,
-                                  alpha_scalar, alpha, base_u, base_norm,
-                                  f_norm, f_norm0, metadata)
-
+        try:
+            while self.iter_count < maxiter and f_norm > atol and \
+                    f_norm/f_norm0 > rtol and u_norm > utol:
+
+                # Linearize Model with partial derivatives
+                system._sys_linearize(params, unknowns, resids, total_derivs=False)
+
+                # Calculate direction to take step
+                arg.vec[:] = -resids.vec
+                with system._dircontext:
+                    system.solve_linear(system.dumat, system.drmat,
+                                        [None], mode='fwd', solver=self.ln_solver,
+                                        rel_inputs=self.rel_inputs)
+
+                # Keeping this commented-out line here. This was a brute-force
+                # fix to a problem with subsystem linear solvers being corrupted
+                # by values left in out-of-scope dparams. It's mostly fixed, but
+                # there may be corner cases. If you see something weird, you
+                # could try uncommenting and see if this changes anything (which
+                # it should not.)
+                #system.clear_dparams()
+
+                self.iter_count += 1
+
+                # Allow different alphas for each value so we can keep moving when we
+                # hit a bound.
+                alpha = alpha_scalar*np.ones(len(unknowns.vec))
+
+                # If our step will violate any upper or lower bounds, then reduce
+                # alpha in just that direction so that we only step to that
+                # boundary.
+                alpha = unknowns.distance_along_vector_to_limit(alpha, result)
+
+                # Cache the current norm
+                if ls:
+                    base_u[:] = unknowns.vec
+                    base_norm = f_norm
+
+                # Apply step that doesn't violate bounds
+                unknowns_cache[:] = unknowns.vec
+                unknowns.vec += alpha*result.vec
+
+                # Metadata update
+                update_local_meta(local_meta, (self.iter_count, 0))
+
+                # Just evaluate (and optionally solve) the model with the new
+                # points
+                if self.options['solve_subsystems']:
+                    system.children_solve_nonlinear(local_meta)
+                system.apply_nonlinear(params, unknowns, resids, local_meta)
+
+                self.recorders.record_iteration(system, local_meta)
+
+                f_norm = resids.norm()
+                u_norm = np.linalg.norm(unknowns.vec - unknowns_cache)
+                if iprint == 2:
+                    self.print_norm(self.print_name, system, self.iter_count,
+                                    f_norm, f_norm0, u_norm=u_norm)
+
+                # Line Search to determine how far to step in the Newton direction
+                if ls:
+                    f_norm = ls.solve(params, unknowns, resids, system, self,
+                                      alpha_scalar, alpha, base_u, base_norm,
+                                      f_norm, f_norm0, metadata)
+
+        finally:
+            # Return system's FD status back to what it was
+            system.deriv_options['type'] = save_type
+            system.deriv_options.locked = save_locked
 
         # Final residual print if you only want the last one
         if iprint == 1:
             self.print_norm(self.print_name, system, self.iter_count,
                             f_norm, f_norm0, u_norm=u_norm)
 
-        # Return system's FD status back to what it was
-        system.deriv_options['type'] = save_type
-        system.deriv_options.locked = True
-
         if self.iter_count >= maxiter or isnan(f_norm):
             msg = 'FAILED to converge after %d iterations' % self.iter_count
             fail = True
-- 
2.43.0


From dd929bb22ced3e3249008cfa35f3ae39a4ec0b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:14 +0000
Subject: [PATCH 51/82] fix: nonlinear solvers report a failure when the
 residual is infinite

---
 openmdao/solvers/newton.py          | 4 +---
 openmdao/solvers/nl_gauss_seidel.py | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index 1c3b076..1c32d5f 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -1,7 +1,5 @@
 """ Non-linear solver that implements a Newton's method."""
 
-from math import isnan
-
 import numpy as np
 
 from openmdao.core.system import AnalysisError
@@ -253,7 +251,7 @@ class Newton(NonLinearSolver):
             self.print_norm(self.print_name, system, self.iter_count,
                             f_norm, f_norm0, u_norm=u_norm)
 
-        if self.iter_count >= maxiter or isnan(f_norm):
+        if self.iter_count >= maxiter or not np.isfinite(f_norm):
             msg = 'FAILED to converge after %d iterations' % self.iter_count
             fail = True
         else:
diff --git a/openmdao/solvers/nl_gauss_seidel.py b/openmdao/solvers/nl_gauss_seidel.py
index 83e28bf..3613292 100644
--- a/openmdao/solvers/nl_gauss_seidel.py
+++ b/openmdao/solvers/nl_gauss_seidel.py
@@ -1,7 +1,5 @@
 """ Gauss Seidel non-linear solver."""
 
-from math import isnan
-
 import numpy as np
 
 from openmdao.core.system import AnalysisError
@@ -200,7 +198,7 @@ class NLGaussSeidel(NonLinearSolver):
             self.print_norm(self.print_name, system, self.iter_count, normval,
                             basenorm, u_norm=u_norm)
 
-        if self.iter_count >= maxiter or isnan(normval):
+        if self.iter_count >= maxiter or not np.isfinite(normval):
             msg = 'FAILED to converge after %d iterations' % self.iter_count
             fail = True
         else:
-- 
2.43.0


From 30fe6695e9c574872e89497af8cd1f6eca49744c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:14 +0000
Subject: [PATCH 52/82] fix: Newton step tolerance applies to the step the line
 search leaves

---
 openmdao/solvers/newton.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index 1c32d5f..15adb4e 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -240,6 +240,7 @@ class Newton(NonLinearSolver):
                     f_norm = ls.solve(params, unknowns, resids, system, self,
                                       alpha_scalar, alpha, base_u, base_norm,
                                       f_norm, f_norm0, metadata)
+                    u_norm = np.linalg.norm(unknowns.vec - unknowns_cache)
 
         finally:
             # Return system's FD status back to what it was
-- 
2.43.0


From c0ed41be0f7c11702d7d2f269f8afe811e344cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:14 +0000
Subject: [PATCH 53/82] fix: Aitken acceleration starts over in each solve

---
 openmdao/solvers/nl_gauss_seidel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openmdao/solvers/nl_gauss_seidel.py b/openmdao/solvers/nl_gauss_seidel.py
index 3613292..93964ee 100644
--- a/openmdao/solvers/nl_gauss_seidel.py
+++ b/openmdao/solvers/nl_gauss_seidel.py
@@ -121,6 +121,10 @@ class NLGaussSeidel(NonLinearSolver):
         resids = system.resids
         unknowns_cache = np.zeros(unknowns.vec.shape)
 
+        # Aitken acceleration starts over in each solve.
+        self.delta_u_n_1 = 'None'
+        self.aitken_alpha = 1.0
+
         # Evaluate Norm
         system.apply_nonlinear(params, unknowns, resids)
         normval = resids.norm()
-- 
2.43.0


From 1f3695b1374152e82b6deaf4d876fcf607f0c679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:14 +0000
Subject: [PATCH 54/82] fix: BackTracking does not accept a step to a point
 where the residual is nan

---
 openmdao/solvers/backtracking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/solvers/backtracking.py b/openmdao/solvers/backtracking.py
index 6a664f0..d3f5a9e 100644
--- a/openmdao/solvers/backtracking.py
+++ b/openmdao/solvers/backtracking.py
@@ -111,7 +111,8 @@ class BackTracking(LineSearch):
         # We don't have an actual gradient, but we have the Newton vector that should
         # take us to zero, and our "runs" are the same, and we can just compare the
         # "rise".
-        while itercount < maxiter and (base_norm - fnorm) < c*ls_alpha*base_norm:
+        while itercount < maxiter and \
+                not (base_norm - fnorm) >= c*ls_alpha*base_norm:
 
             ls_alpha *= rho
 
-- 
2.43.0


From 524c3aad6fff7f02b2bde367a76d30077ab945e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:25 +0000
Subject: [PATCH 55/82] fix: derivatives of the states of systems without
 params are applied

---
 openmdao/core/group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index 422d2a3..9d70537 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -514,7 +514,9 @@ class Group(System):
                         self._do_apply[(s.pathname, voi)] = True
                         break
                 else:
-                    self._do_apply[(s.pathname, voi)] = False
+                    # The equations of states also depend on the states.
+                    self._do_apply[(s.pathname, voi)] = \
+                        any(name in s.dumat[voi] for name in s.states)
 
         self._relname_map = None  # reclaim some memory
 
-- 
2.43.0


From 441ff6496d0524f58e4102170154a6c319f0d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:45 +0000
Subject: [PATCH 56/82] fix: linear solves of a nested Newton ignore inputs
 from outside also when it has no inner connections

---
 openmdao/core/system.py      | 8 ++++----
 openmdao/core/vec_wrapper.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index c29596a..7e187cc 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -912,7 +912,7 @@ class System(object):
         is_relevant = self._probdata.relevance.is_relevant_system
         fwd = mode == "fwd"
 
-        if rel_inputs:
+        if rel_inputs is not None:
             rel_inputs = [name_relative_to(self.pathname, var) \
                           for var in rel_inputs if var.startswith(self.pathname)]
             self.rel_inputs = rel_inputs
@@ -939,7 +939,7 @@ class System(object):
 
                         # Limit scope of dparams to local relevant vars if we
                         # are in a subsolver
-                        if rel_inputs:
+                        if rel_inputs is not None:
                             dparams._rel_inputs = rel_inputs
 
                         try:
@@ -948,7 +948,7 @@ class System(object):
                             dresids._scale_derivatives()
 
                             # Restore scope of dparams
-                            if rel_inputs:
+                            if rel_inputs is not None:
                                 dparams._rel_inputs = None
 
                 for var, val in dunknowns.vec_val_iter():
@@ -1074,7 +1074,7 @@ class System(object):
                 arg_vec = dparams
 
                 # Skip multiplying Jacobian on outscope vars
-                if self.rel_inputs and param not in self.rel_inputs:
+                if self.rel_inputs is not None and param not in self.rel_inputs:
                     #print(self.pathname, param,'not in', self.rel_inputs)
                     continue
 
diff --git a/openmdao/core/vec_wrapper.py b/openmdao/core/vec_wrapper.py
index fb89884..6e381c1 100644
--- a/openmdao/core/vec_wrapper.py
+++ b/openmdao/core/vec_wrapper.py
@@ -984,7 +984,7 @@ class TgtVecWrapper(VecWrapper):
         -------
             A boolean indicating if the given key (variable name) is in this vector.
         """
-        if self._rel_inputs:
+        if self._rel_inputs is not None:
             return key in self._rel_inputs
 
         return key in self._dat
@@ -1198,7 +1198,7 @@ class TgtVecWrapper(VecWrapper):
 
         if self.deriv_units:
             for name, val in self.units_cache:
-                if rel_inputs and name not in rel_inputs:
+                if rel_inputs is not None and name not in rel_inputs:
                     continue
                 self._dat[name].val *= val
 
-- 
2.43.0


From 554c71551da9012069ad7f58d4cd36bdeb6170ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:25 +0000
Subject: [PATCH 57/82] fix: an automatically determined order is found again
 in every setup

---
 openmdao/core/problem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index bba9e25..1752dd6 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -638,6 +638,10 @@ class Problem(object):
                         debug("problem setup order bcast DONE")
                 s.set_order(order)
 
+                # this order was not specified by the user, so find it again
+                # when the dependencies have changed.
+                s._order_set = False
+
         # Mark every comp that is executed out-of-order so that we
         # rerun them during apply_nonlinear (explicit comps)
         _, tsystems = self._get_ubc_vars(connections)
-- 
2.43.0


From b4402d90bcc8609f9bc00cac2a0644fa84bd4b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:44 +0000
Subject: [PATCH 58/82] fix: iterations of solvers of deeply nested groups can
 be recorded

---
 openmdao/solvers/backtracking.py    | 2 +-
 openmdao/solvers/brent.py           | 2 +-
 openmdao/solvers/newton.py          | 2 +-
 openmdao/solvers/nl_gauss_seidel.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/openmdao/solvers/backtracking.py b/openmdao/solvers/backtracking.py
index d3f5a9e..f30bdd1 100644
--- a/openmdao/solvers/backtracking.py
+++ b/openmdao/solvers/backtracking.py
@@ -101,7 +101,7 @@ class BackTracking(LineSearch):
         c = self.options['c']
         iprint = self.options['iprint']
         result = system.dumat[None]
-        local_meta = create_local_meta(metadata, system.pathname)
+        local_meta = create_local_meta(metadata, system.name)
 
         itercount = 0
         ls_alpha = alpha_scalar
diff --git a/openmdao/solvers/brent.py b/openmdao/solvers/brent.py
index d443ffc..44327c0 100644
--- a/openmdao/solvers/brent.py
+++ b/openmdao/solvers/brent.py
@@ -142,7 +142,7 @@ class Brent(NonLinearSolver):
         """
         self.sys = system
         self.metadata = metadata
-        self.local_meta = create_local_meta(self.metadata, self.sys.pathname)
+        self.local_meta = create_local_meta(self.metadata, self.sys.name)
         self.sys.ln_solver.local_meta = self.local_meta
         idx = self.options['state_var_idx']
 
diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index 15adb4e..cc77b0f 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -145,7 +145,7 @@ class Newton(NonLinearSolver):
 
         # Metadata setup
         self.iter_count = 0
-        local_meta = create_local_meta(metadata, system.pathname)
+        local_meta = create_local_meta(metadata, system.name)
         if self.ln_solver:
             self.ln_solver.local_meta = local_meta
         else:
diff --git a/openmdao/solvers/nl_gauss_seidel.py b/openmdao/solvers/nl_gauss_seidel.py
index 93964ee..1fa337b 100644
--- a/openmdao/solvers/nl_gauss_seidel.py
+++ b/openmdao/solvers/nl_gauss_seidel.py
@@ -105,7 +105,7 @@ class NLGaussSeidel(NonLinearSolver):
         self.iter_count = 1
 
         # Metadata setup
-        local_meta = create_local_meta(metadata, system.pathname)
+        local_meta = create_local_meta(metadata, system.name)
         system.ln_solver.local_meta = local_meta
         update_local_meta(local_meta, (self.iter_count,))
 
-- 
2.43.0


From 69aa7b899607c1531fc6edb0770a84304629f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:44 +0000
Subject: [PATCH 59/82] fix: the dump recorder reports whether an iteration
 succeeded

---
 openmdao/recorders/dump_recorder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/recorders/dump_recorder.py b/openmdao/recorders/dump_recorder.py
index 49167f4..6c9b154 100644
--- a/openmdao/recorders/dump_recorder.py
+++ b/openmdao/recorders/dump_recorder.py
@@ -158,7 +158,7 @@ class DumpRecorder(BaseRecorder):
         if latest iteration didn't succeed.
         """
         self.out.write("Iteration succeeded: %s\n" %
-                           'yes' if metadata['success'] else 'no')
+                       ('yes' if metadata['success'] else 'no'))
         if not metadata['success']:
             self.out.write("Error msg: %s\n" % metadata['msg'])
 
-- 
2.43.0


From 52acf096b61fd3a5117e03a7248a81eac4a7280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:44 +0000
Subject: [PATCH 60/82] fix: the final run of an optimizer has an iteration
 coordinate of its own

---
 openmdao/drivers/scipy_optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openmdao/drivers/scipy_optimizer.py b/openmdao/drivers/scipy_optimizer.py
index a7b7158..8fa5f6f 100644
--- a/openmdao/drivers/scipy_optimizer.py
+++ b/openmdao/drivers/scipy_optimizer.py
@@ -260,6 +260,9 @@ class ScipyOptimizer(Driver):
             self.set_desvar(name, x_new[i:i+size])
             i += size
 
+        self.iter_count += 1
+        update_local_meta(self.metadata, (self.iter_count,))
+
         with problem.root._dircontext:
             problem.root.solve_nonlinear(metadata=self.metadata)
 
-- 
2.43.0


From ca8b3df15800e12625699f4e421751bc87bacdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:44 +0000
Subject: [PATCH 61/82] fix: failed analyses of pyOptSparseDriver are recorded
 as failed

---
 openmdao/drivers/pyoptsparse_driver.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openmdao/drivers/pyoptsparse_driver.py b/openmdao/drivers/pyoptsparse_driver.py
index cef0ce5..052c852 100644
--- a/openmdao/drivers/pyoptsparse_driver.py
+++ b/openmdao/drivers/pyoptsparse_driver.py
@@ -335,6 +335,9 @@ class pyOptSparseDriver(Driver):
             val = dv_dict[name]
             self.set_desvar(name, val)
 
+        self.iter_count += 1
+        update_local_meta(self.metadata, (self.iter_count,))
+
         with self.root._dircontext:
             self.root.solve_nonlinear(metadata=self.metadata)
 
@@ -461,6 +464,8 @@ class pyOptSparseDriver(Driver):
 
             self.iter_count += 1
             update_local_meta(metadata, (self.iter_count,))
+            metadata['success'] = 1
+            metadata['msg'] = ''
 
             try:
                 with self.root._dircontext:
@@ -469,6 +474,8 @@ class pyOptSparseDriver(Driver):
             # Let the optimizer try to handle the error
             except AnalysisError:
                 fail = 1
+                metadata['success'] = 0
+                metadata['msg'] = traceback.format_exc()
 
             func_dict = self.get_objectives() # this returns a new OrderedDict
             func_dict.update(self.get_constraints())
-- 
2.43.0


From 6b2b71f16746887c6181683d253badcb377b5b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:44 +0000
Subject: [PATCH 62/82] fix: recorded derivatives do not change when the
 optimizer works in them

---
 openmdao/recorders/inmem_recorder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/recorders/inmem_recorder.py b/openmdao/recorders/inmem_recorder.py
index 4bb7d8b..e3e483e 100644
--- a/openmdao/recorders/inmem_recorder.py
+++ b/openmdao/recorders/inmem_recorder.py
@@ -123,6 +123,6 @@ class InMemoryRecorder(BaseRecorder):
         timestamp = metadata['timestamp']
 
         data['timestamp'] = timestamp
-        data['Derivatives'] = derivs
+        data['Derivatives'] = deepcopy(derivs)
 
         self.deriv_iters.append(data)
-- 
2.43.0


From 394248611dd51247449cf8657a0b48ecc5a15519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:44 +0000
Subject: [PATCH 63/82] fix: case readers return recorded derivatives and
 variable metadata

---
 openmdao/recorders/hdf5_reader.py   | 12 ++++++------
 openmdao/recorders/sqlite_reader.py |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/openmdao/recorders/hdf5_reader.py b/openmdao/recorders/hdf5_reader.py
index aeacef7..09ac5f6 100644
--- a/openmdao/recorders/hdf5_reader.py
+++ b/openmdao/recorders/hdf5_reader.py
@@ -68,14 +68,14 @@ class HDF5CaseReader(CaseReaderBase):
         """ Load the metadata and iteration keys from the given file. """
         if self.format_version in (3, 4):
             with h5py.File(self.filename, 'r') as f:
-                self._parameters = f['metadata'].get('Parameters', None)
-                self._unknowns = f['metadata'].get('Unknowns', None)
+                self.parameters = f['metadata'].get('Parameters', None)
+                self.unknowns = f['metadata'].get('Unknowns', None)
 
-                if isinstance(self._parameters, h5py.Group):
-                    self._parameters = _group_to_dict(self._parameters)
+                if isinstance(self.parameters, h5py.Group):
+                    self.parameters = _group_to_dict(self.parameters)
 
-                if isinstance(self._unknowns, h5py.Group):
-                    self._unknowns = _group_to_dict(self._unknowns)
+                if isinstance(self.unknowns, h5py.Group):
+                    self.unknowns = _group_to_dict(self.unknowns)
 
                 self._case_keys = tuple([key for key in f.keys()
                                          if key != 'metadata'])
diff --git a/openmdao/recorders/sqlite_reader.py b/openmdao/recorders/sqlite_reader.py
index 05eb986..6560b6f 100644
--- a/openmdao/recorders/sqlite_reader.py
+++ b/openmdao/recorders/sqlite_reader.py
@@ -48,8 +48,8 @@ class SqliteCaseReader(CaseReaderBase):
         if self.format_version in (3, 4):
             # Read the metadata and save it in the reader
             with SqliteDict(self.filename, 'metadata', flag='r') as db:
-                self._parameters = db.get('Parameters', None)
-                self._unknowns = db.get('Unknowns', None)
+                self.parameters = db.get('Parameters', None)
+                self.unknowns = db.get('Unknowns', None)
 
             # Store the identifier for each iteration in _case_keys
             with SqliteDict(self.filename, 'iterations', flag='r') as db:
@@ -90,6 +90,6 @@ class SqliteCaseReader(CaseReaderBase):
                 pass
             else:
                 if _case_id in derivs_db:
-                    case._derivs = derivs_db[_case_id].get('Derivatives', None)
+                    case.derivs = derivs_db[_case_id].get('Derivatives', None)
 
         return case
-- 
2.43.0


From 60921f1ea43f6481ea99dfe9705fd733bef331bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:35 +0000
Subject: [PATCH 64/82] fix: exponents of numbers in expressions are not
 variables

---
 openmdao/components/exec_comp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/components/exec_comp.py b/openmdao/components/exec_comp.py
index f688bdc..0f19927 100644
--- a/openmdao/components/exec_comp.py
+++ b/openmdao/components/exec_comp.py
@@ -13,8 +13,8 @@ from openmdao.core.component import Component
 from openmdao.util.array_util import array_idx_iter
 from collections import OrderedDict
 
-# regex to check for variable names.
-var_rgx = re.compile('([_a-zA-Z]\w*(?::[_a-zA-Z]\w*)*[ ]*\(?)')
+# regex to check for variable names (the exponent of a number is not one).
+var_rgx = re.compile('(?<![\w.])([_a-zA-Z]\w*(?::[_a-zA-Z]\w*)*[ ]*\(?)')
 
 def _parse_for_vars(s):
     return set([x.strip() for x in re.findall(var_rgx, s)
-- 
2.43.0


From 58c0bc446365fee23078802db77be5f2b24b7591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:35 +0000
Subject: [PATCH 65/82] fix: colon names in expressions that are part of longer
 names

---
 openmdao/components/exec_comp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openmdao/components/exec_comp.py b/openmdao/components/exec_comp.py
index 0f19927..8e33539 100644
--- a/openmdao/components/exec_comp.py
+++ b/openmdao/components/exec_comp.py
@@ -179,7 +179,9 @@ class ExecComp(Component):
         exprs = exprs[:]
         for i in range(len(exprs)):
             for n in self._colon_names:
-                exprs[i] = exprs[i].replace(n, self._from_colons[n])
+                # whole names only, 'a:b' is not part of 'a:bc'
+                exprs[i] = re.sub(r'(?<![\w:.])%s(?![\w:])' % re.escape(n),
+                                  self._from_colons[n], exprs[i])
 
         return [compile(expr, expr, 'exec') for expr in exprs]
 
-- 
2.43.0


From 9b5476e37879366b21df35afb404e157a8578865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:35 +0000
Subject: [PATCH 66/82] fix: an assigned array must not be an alias when an
 expression is linearized

---
 openmdao/components/exec_comp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openmdao/components/exec_comp.py b/openmdao/components/exec_comp.py
index 8e33539..e4d0e7e 100644
--- a/openmdao/components/exec_comp.py
+++ b/openmdao/components/exec_comp.py
@@ -321,6 +321,9 @@ class _TmpDict(object):
             return self._inner[name]
 
     def __setitem__(self, name, value):
+        if isinstance(value, ndarray):
+            # an assignment copies, as it does in the vectors
+            value = value.copy()
         self._changed[name] = value
 
     def __contains__(self, name):
-- 
2.43.0


From 1b6d908c7582cf5c331633932a19ecb5e432877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:44 +0000
Subject: [PATCH 67/82] fix: check_total_derivatives without an output stream
 before the first run

---
 openmdao/core/problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 1752dd6..9aecd50 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -2186,7 +2186,8 @@ class Problem(object):
         driver = self.driver
 
         if driver.iter_count < 1:
-            out_stream.write('Executing model to populate unknowns...\n\n')
+            if out_stream is not None:
+                out_stream.write('Executing model to populate unknowns...\n\n')
             self.run_once()
 
         if out_stream is not None:
-- 
2.43.0


From 47772ab5c2aafcc15e69aaf34e0f51aef4615c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:03 +0000
Subject: [PATCH 68/82] fix: global_options of check_partial_derivatives
 replaced the own settings of components

---
 openmdao/core/problem.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 9aecd50..19cf210 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -2138,8 +2138,7 @@ class Problem(object):
                 else:
                     fd_func = comp.fd_jacobian
 
-                jac_fd2 = fd_func(params, unknowns, resids,
-                                  option_overrides=global_options)
+                jac_fd2 = fd_func(params, unknowns, resids)
 
             # Assemble and Return all metrics.
             _assemble_deriv_data(chain(dparams, states), resids, data[cname],
-- 
2.43.0


From 219c7d89b587d518ae2b6f70a5e33bba73d8aa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:03 +0000
Subject: [PATCH 69/82] fix: states of components without connected inputs were
 not checked

---
 openmdao/core/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 19cf210..2ae66ca 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -2017,7 +2017,7 @@ class Problem(object):
             states = comp.states
 
             # Skip if all of our inputs are unconnected.
-            if len(dparams) == 0:
+            if len(dparams) == 0 and not states:
                 if out_stream is not None:
                     out_stream.write('Skipping because component has no connected inputs.')
                 continue
-- 
2.43.0


From fbc907325f432aa659175139cc4ce494e6e0bd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:42 +0000
Subject: [PATCH 70/82] fix: a directory context that is entered twice did not
 return to the first directory

---
 openmdao/util/file_util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openmdao/util/file_util.py b/openmdao/util/file_util.py
index 9b23e63..06a1e46 100644
--- a/openmdao/util/file_util.py
+++ b/openmdao/util/file_util.py
@@ -193,11 +193,14 @@ class DirContext(object):
 
     def __init__(self, dpath):
         self.dpath = dpath
+        self._starts = []
 
     def __enter__(self):
-        self.start = os.getcwd()
+        # the same context may be entered again before it is left
+        start = os.getcwd()
         os.chdir(self.dpath)
+        self._starts.append(start)
         return self.dpath
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        os.chdir(self.start)
+        os.chdir(self._starts.pop())
-- 
2.43.0


From dfbfeb5bbd0fe9bcedec40a844342605edaa12a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:50 +0000
Subject: [PATCH 71/82] fix: residuals are evaluated in the directory of each
 subsystem

---
 openmdao/core/group.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index 9d70537..f2be410 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -814,10 +814,11 @@ class Group(System):
 
             self._transfer_data(sub.name)
             if sub.is_active():
-                if isinstance(sub, Component):
-                    sub._sys_apply_nonlinear(sub.params, sub.unknowns, sub.resids)
-                else:
-                    sub.apply_nonlinear(sub.params, sub.unknowns, sub.resids, metadata)
+                with sub._dircontext:
+                    if isinstance(sub, Component):
+                        sub._sys_apply_nonlinear(sub.params, sub.unknowns, sub.resids)
+                    else:
+                        sub.apply_nonlinear(sub.params, sub.unknowns, sub.resids, metadata)
 
     def linearize(self, params, unknowns, resids):
         """
-- 
2.43.0


From bd8cd8408bdba71292f42d6432d936f229204f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:50 +0000
Subject: [PATCH 72/82] fix: the directory of an earlier setup was used after
 it had been cleared

---
 openmdao/core/system.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 7e187cc..74d80d5 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -483,6 +483,7 @@ class System(object):
             self._dircontext = DirContext(self._sysdata.absdir)
         else:
             self._sysdata.absdir = parent_dir
+            self._dircontext = _DummyContext()
 
         if (self.create_dirs and self.is_active() and
                      not os.path.exists(self._sysdata.absdir)):
-- 
2.43.0


From 0eed287a7d1f7fa361be96691ba76d251d625598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:34 +0000
Subject: [PATCH 73/82] fix: a model whose setup was refused could be run

---
 openmdao/core/problem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 2ae66ca..16af8c5 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -465,6 +465,9 @@ class Problem(object):
             Stream where report will be written if check is performed.
         """
 
+        # The model cannot be run until this setup has succeeded.
+        OptionsDictionary.locked = False
+
         # Recursively call pre_setup on all subsystems
         for s in self.root.subsystems(recurse=True, include_self=True):
             s.pre_setup(self)
-- 
2.43.0


From 93b7b30139fdca6ba5f0dc8034692635b11d6c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:34 +0000
Subject: [PATCH 74/82] fix: a command that is timed out leaves no process
 behind

---
 openmdao/util/shell_proc.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/openmdao/util/shell_proc.py b/openmdao/util/shell_proc.py
index 0020943..a9938e5 100644
--- a/openmdao/util/shell_proc.py
+++ b/openmdao/util/shell_proc.py
@@ -116,6 +116,29 @@ class ShellProc(subprocess.Popen):
         if timeout is not None:
             return self.wait(timeout=timeout)
 
+    def _stop(self, grace=1.):
+        """
+        Stop the command and everything it started, even what ignores
+        being told to end.
+
+        grace: float (seconds)
+            Time given to the command to end by itself once it is told to.
+        """
+        try:
+            self.terminate()
+        except OSError:
+            pass  # the command has just ended
+        deadline = time.time() + grace
+        while self.poll() is None and time.time() < deadline:
+            time.sleep(0.01)
+        if sys.platform != 'win32':
+            try:
+                os.killpg(self.pid, signal.SIGKILL)
+            except OSError:
+                pass  # nothing is left of the group
+            # not the wait() of this class, which would look at the time again
+            subprocess.Popen.wait(self)
+
     def wait(self, poll_delay=0., timeout=0.):
         """
         Polls for command completion or timeout.
@@ -142,7 +165,7 @@ class ShellProc(subprocess.Popen):
             while return_code is None:
                 npolls -= 1
                 if (timeout > 0) and (npolls < 0):
-                    self.terminate()
+                    self._stop()
                     break
                 time.sleep(poll_delay)
                 return_code = self.poll()
-- 
2.43.0


From 7069bd9edf8f58921b48dc0e2f4fcdf2d359582b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:34 +0000
Subject: [PATCH 75/82] fix: error output of an external code that is not text
 does not hide its failure

---
 openmdao/components/external_code.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openmdao/components/external_code.py b/openmdao/components/external_code.py
index 3c801cf..002803e 100644
--- a/openmdao/components/external_code.py
+++ b/openmdao/components/external_code.py
@@ -1,4 +1,5 @@
 
+import io
 import sys
 import os
 
@@ -158,9 +159,9 @@ class ExternalCode(Component):
             elif return_code:
                 if isinstance(self.stderr, str):
                     if os.path.exists(self.stderr):
-                        stderrfile = open(self.stderr, 'r')
-                        error_desc = stderrfile.read()
-                        stderrfile.close()
+                        # the command may write anything, whatever the locale
+                        with io.open(self.stderr, 'r', errors='replace') as stderrfile:
+                            error_desc = stderrfile.read()
                         err_fragment = "\nError Output:\n%s" % error_desc
                     else:
                         err_fragment = "\n[stderr %r missing]" % self.stderr
-- 
2.43.0


From 8b5b52cd011a9ebbc2f7a1600a58e0374e9b4e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:35 +0000
Subject: [PATCH 76/82] fix: a sub-problem inside a group finds its unknowns

---
 openmdao/components/subproblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/components/subproblem.py b/openmdao/components/subproblem.py
index 99a25c4..27dea8e 100644
--- a/openmdao/components/subproblem.py
+++ b/openmdao/components/subproblem.py
@@ -109,7 +109,7 @@ class SubProblem(Component):
         umap = OrderedDict()
 
         for key in self._prob_unknowns:
-            pkey = '.'.join((self.name, key))
+            pkey = '.'.join((self.pathname, key))
             if pkey in parent_proms:
                 umap[parent_proms[pkey]] = key
 
-- 
2.43.0


From f52316a4b5a91c6f6a9bcd56d43580246e27a9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:35 +0000
Subject: [PATCH 77/82] fix: a sub-problem can expose an unconnected input by
 its promoted name

---
 openmdao/components/subproblem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/components/subproblem.py b/openmdao/components/subproblem.py
index 27dea8e..76501c5 100644
--- a/openmdao/components/subproblem.py
+++ b/openmdao/components/subproblem.py
@@ -191,7 +191,8 @@ class SubProblem(Component):
             if name in subparams:
                 meta = subparams._dat[name].meta
             elif name in self._problem._dangling:
-                meta = self._rec_get_param_meta(name)
+                root = self._problem.root
+                meta = root._params_dict[root._sysdata.to_abs_pnames[name][0]]
             else:
                 meta = subunknowns._dat[name].meta
                 if not meta.get('_canset_'):
-- 
2.43.0


From f6af2b0588922fb10e2a763f1fddbae1d2b5dbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:40 +0000
Subject: [PATCH 78/82] fix: an unknown of a sub-problem is not an independent
 variable of the problem around it

---
 openmdao/components/subproblem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openmdao/components/subproblem.py b/openmdao/components/subproblem.py
index 76501c5..93aaa6c 100644
--- a/openmdao/components/subproblem.py
+++ b/openmdao/components/subproblem.py
@@ -218,6 +218,8 @@ class SubProblem(Component):
             meta = subunknowns._dat[name].meta.copy()
             self._unknowns_dict[pathname] = meta
             meta['pathname'] = pathname
+            # outside of the subproblem it is computed, whatever computes it
+            meta.pop('_canset_', None)
             del meta['top_promoted_name']
             to_prom_uname[pathname] = name
             to_abs_uname[name] = pathname
-- 
2.43.0


From b3f353dac02c480315ad72dab8fe72209e7dfd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:48 +0000
Subject: [PATCH 79/82] fix: iterated linear Gauss-Seidel counts the outputs of
 a subsystem once

---
 openmdao/solvers/ln_gauss_seidel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openmdao/solvers/ln_gauss_seidel.py b/openmdao/solvers/ln_gauss_seidel.py
index abd9d68..01b60ab 100644
--- a/openmdao/solvers/ln_gauss_seidel.py
+++ b/openmdao/solvers/ln_gauss_seidel.py
@@ -136,6 +136,12 @@ class LinearGaussSeidel(LinearSolver):
                     if not sub.is_active():
                         continue
 
+                    # What the last iteration found for the outputs of sub
+                    # itself doesn't belong in its right-hand side.
+                    for voi in vois:
+                        if voi in sub.dumat:
+                            sub.dumat[voi].vec[:] = 0.0
+
                     # print(sub.name, sorted(gs_outputs['fwd'][sub.name][None]))
 
                     # Groups and all other systems just call their own
-- 
2.43.0


From 07acffa4d5cd3073b9d3145191e63b564f9055cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:48 +0000
Subject: [PATCH 80/82] fix: the residual of linear Gauss-Seidel covers every
 output

---
 openmdao/solvers/ln_gauss_seidel.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/openmdao/solvers/ln_gauss_seidel.py b/openmdao/solvers/ln_gauss_seidel.py
index 01b60ab..869fd23 100644
--- a/openmdao/solvers/ln_gauss_seidel.py
+++ b/openmdao/solvers/ln_gauss_seidel.py
@@ -258,10 +258,9 @@ class LinearGaussSeidel(LinearSolver):
             solve.
         """
 
-        # we used to build gs_outputs up using dumat, but dumat is already
-        # identical to gs_outputs in the vois we care about, so just use it.
-        system._sys_apply_linear(mode, system._do_apply, vois=rhs_mat.keys(),
-                                gs_outputs=system.dumat)
+        # every output belongs to the residual. (The names in system.dumat
+        # aren't those that the subsystems know their outputs by.)
+        system._sys_apply_linear(mode, system._do_apply, vois=rhs_mat.keys())
 
         if mode == 'fwd':
             rhs_vec = system.drmat
-- 
2.43.0


From 5d23ecdccae1f5c166ba78e152805a5857151950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:48 +0000
Subject: [PATCH 81/82] fix: IndepVarComp starts from zero when it applies
 derivatives in reverse

---
 openmdao/components/indep_var_comp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openmdao/components/indep_var_comp.py b/openmdao/components/indep_var_comp.py
index 0009097..689da44 100644
--- a/openmdao/components/indep_var_comp.py
+++ b/openmdao/components/indep_var_comp.py
@@ -86,11 +86,12 @@ class IndepVarComp(Component):
         """
         if mode == 'fwd':
             sol_vec, rhs_vec = self.dumat, self.drmat
-            for voi in vois:
-                rhs_vec[voi].vec[:] = 0.0
         else:
             sol_vec, rhs_vec = self.drmat, self.dumat
 
+        for voi in vois:
+            rhs_vec[voi].vec[:] = 0.0
+
         # Note, we solve a slightly modified version of the unified
         # derivatives equations in OpenMDAO.
         # (dR/du) * (du/dr) = -I
-- 
2.43.0


From a8a00d59a4cceda239e97ed4c0049e5dd5bba4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:48 +0000
Subject: [PATCH 82/82] fix: a component can be connected to itself

---
 openmdao/core/problem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 16af8c5..e600ac0 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -2500,7 +2500,11 @@ def _assign_parameters(connections):
     param_owners = {}
 
     for par, (unk, idxs) in iteritems(connections):
-        param_owners.setdefault(get_common_ancestor(par, unk), set()).add(par)
+        owner = get_common_ancestor(par, unk)
+        if owner == par.rpartition('.')[0]:
+            # a component that is connected to itself. Only groups transfer data.
+            owner = owner.rpartition('.')[0]
+        param_owners.setdefault(owner, set()).add(par)
 
     return param_owners
 
-- 
2.43.0

