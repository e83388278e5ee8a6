From 57c7327e655d0bfc60956d23a64857f0c2e57267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:58 +0000
Subject: [PATCH 01/45] fix: log model and initial parameters given as numpy
 values in a readable form

---
 pygmo_fwork/global_model.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/global_model.py b/pygmo_fwork/global_model.py
index 168c762..5ec7354 100644
--- a/pygmo_fwork/global_model.py
+++ b/pygmo_fwork/global_model.py
@@ -271,13 +271,30 @@ class GlobalModel(object):
         with open(os.path.join(
                 run_results_dir, Config.default_log_name('model_attributes', run_id=run_id)), 'w') as stream:
             yaml.dump(
-                {'model_params': model_params, 'initial_params': init_params},
+                self._plain_values({'model_params': model_params, 'initial_params': init_params}),
                 stream=stream
             )
 
         # save the solver log (for PyGMol) or copy all the inputs and outputs (for GlobalKin)
         self.model.dump_logs(run_results_dir=run_results_dir)
 
+    @staticmethod
+    def _plain_values(obj):
+        """Converts numpy scalars and arrays nested in dicts and lists to plain python values. The yaml loader used for
+        reading the logs back refuses to construct any numpy objects.
+        :param obj: (object) possibly nested dict or list
+        :return: (object) the same structure with plain python values
+        """
+        if isinstance(obj, dict):
+            return {GlobalModel._plain_values(key): GlobalModel._plain_values(obj[key]) for key in obj}
+        if isinstance(obj, (list, tuple)):
+            return [GlobalModel._plain_values(item) for item in obj]
+        if isinstance(obj, np.ndarray):
+            return obj.tolist()
+        if isinstance(obj, np.generic):
+            return obj.item()
+        return obj
+
     @staticmethod
     def check_convergency(solution, model_params, eps=0.1, timewindow=0.1, verbose=False):
         """Method to check the computed backend model results and check if the results converged in time. Also
-- 
2.43.0


From 62a6104a4b50c23c51b51ee84f000c81a2f02cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:37 +0000
Subject: [PATCH 02/45] fix: label diagnosed rates by reactions also when there
 are as many reactions as species or only one of either

---
 pygmo_fwork/pygmol/model.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/pygmol/model.py b/pygmo_fwork/pygmol/model.py
index 35d76ef..2f91361 100644
--- a/pygmo_fwork/pygmol/model.py
+++ b/pygmo_fwork/pygmol/model.py
@@ -39,6 +39,8 @@ class Model(object):
         'num_species',
         'num_reactions'
     )
+    # these quantities of the Equations class are vectors of values for all the reactions (see self.diagnose)
+    reactions_quantities = ('reaction_rate_coefficients', 'reaction_rates', 'el_en_losses')
 
     def __init__(self, chemistry, model_params):
         """Initialiser of the GlobalModel class. The model solves equations for density balance for Ns species
@@ -243,8 +245,15 @@ class Model(object):
         """
         if sol_primary is None:
             sol_primary = self.sol_primary
-        diagnostics = pd.DataFrame([getattr(self.equations, 'get_{}'.format(quantity))(y).copy() for y in sol_primary])
-        if diagnostics.shape[1] == self.equations.num_species:  # a value for each species
+        values = [getattr(self.equations, 'get_{}'.format(quantity))(y).copy() for y in sol_primary]
+        diagnostics = pd.DataFrame(values)
+        # the number of columns alone might be ambiguous: there might be as many reactions as species, or only one of
+        # either, so the scalar quantities and the quantities defined for reactions are recognised first
+        if all(np.ndim(value) == 0 for value in values):  # one value for the whole system
+            diagnostics.columns = ['value']
+        elif quantity in self.reactions_quantities:  # a value for each reaction
+            diagnostics.columns = list(self.chemistry.get_reactions_id())
+        elif diagnostics.shape[1] == self.equations.num_species:  # a value for each species
             diagnostics.columns = list(self.chemistry.get_species_name())
         elif diagnostics.shape[1] == self.equations.num_reactions:  # a value for each reaction
             diagnostics.columns = list(self.chemistry.get_reactions_id())
-- 
2.43.0


From 1632603d1ae6b985f2f84ded2d1cea6037f69346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:18 +0000
Subject: [PATCH 03/45] fix: load chemistry attributes all or nothing, refusing
 torn or malformed files and restoring ad-hoc data of disabled species

---
 plaschem/chemistry.py | 61 +++++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 7af45a1..5120d7e 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -552,34 +552,51 @@ class Chemistry(object):
 
                 xml_path = attributes['xml_path']
                 xml_hash = attributes['xml_hash']
-        except KeyError:
+        except (KeyError, TypeError, ValueError, yaml.YAMLError):
             raise ChemistryAttributeError('Invalid yaml file!')
         if check_hash:
-            if xml_path != self.xml_path:
+            if xml_path != (str(self.xml_path) if self.xml_path else None):
                 raise ChemistryAttributeError('Chemistry xml input file path is not matching!')
             if xml_hash != self.xml_hash(self.xml_path):
                 raise ChemistryAttributeError('Chemistry xml input file content is not matching!')
 
-        # all appears valid, so can start restoring the attributes:
-        # masks:
-        self._enabled_sp[enabled_sp_ids] = True
-        self._enabled_sp[disabled_sp_ids] = False
-        self._protected_sp[:] = False
-        self._protected_sp[protected_sp_ids] = True
-        self._adhoc_protected_sp[:] = False
-        self._adhoc_protected_sp[adhoc_protected_sp_ids] = True
-        self._enabled_r[enabled_r_ids] = True
-        self._enabled_r[disabled_r_ids] = False
-        # ad-hoc attributes:
-        self.reset_adhoc_species_attributes('all')
-        for params_list in adhoc_species_attributes:
-            self.set_adhoc_species_attributes(*params_list)
-        self.reset_adhoc_reactions_attributes('all')
-        for params_list in adhoc_reactions_attributes:
-            self.set_adhoc_reactions_attributes(*params_list)
-
-        # assert consistency to be on a safe side:
-        self.assert_consistency()
+        # all appears valid, so can start restoring the attributes. If anything goes wrong, the chemistry is left as is:
+        bu_enabled_sp, bu_enabled_r = self._enabled_sp, self._enabled_r
+        bu_protected_sp, bu_adhoc_protected_sp = self._protected_sp, self._adhoc_protected_sp
+        bu_adhoc_species_attributes = dict(self.adhoc_species_attributes)
+        bu_adhoc_reactions_attributes = dict(self.adhoc_reactions_attributes)
+        try:
+            if sorted(enabled_sp_ids + disabled_sp_ids) != sorted(self._species.index) or \
+                    sorted(enabled_r_ids + disabled_r_ids) != sorted(self._reactions.index) or \
+                    not set(protected_sp_ids + adhoc_protected_sp_ids).issubset(self._species.index):
+                raise ChemistryAttributeError('The species or reactions ids are not matching the chemistry!')
+            # ad-hoc attributes (they might refer to disabled species, so need to be set with everything enabled):
+            self._enabled_sp = pd.Series(True, index=self._species.index)
+            self._enabled_r = pd.Series(True, index=self._reactions.index)
+            self.reset_adhoc_species_attributes('all')
+            for params_list in adhoc_species_attributes:
+                self.set_adhoc_species_attributes(*params_list)
+            self.reset_adhoc_reactions_attributes('all')
+            for params_list in adhoc_reactions_attributes:
+                self.set_adhoc_reactions_attributes(*params_list)
+            # masks:
+            self._enabled_sp[disabled_sp_ids] = False
+            self._enabled_r[disabled_r_ids] = False
+            self._protected_sp = pd.Series(False, index=self._species.index)
+            self._protected_sp[protected_sp_ids] = True
+            self._adhoc_protected_sp = pd.Series(False, index=self._species.index)
+            self._adhoc_protected_sp[adhoc_protected_sp_ids] = True
+
+            # assert consistency to be on a safe side:
+            self.assert_consistency()
+        except BaseException as err:
+            self._enabled_sp, self._enabled_r = bu_enabled_sp, bu_enabled_r
+            self._protected_sp, self._adhoc_protected_sp = bu_protected_sp, bu_adhoc_protected_sp
+            self.adhoc_species_attributes = bu_adhoc_species_attributes
+            self.adhoc_reactions_attributes = bu_adhoc_reactions_attributes
+            if isinstance(err, (KeyError, TypeError, ValueError)):
+                raise ChemistryAttributeError('Invalid yaml file!')
+            raise
 
     @staticmethod
     def xml_hash(xml_path):
-- 
2.43.0


From 4274de6614191a0a175e1fce1d566adf7129ed21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:16 +0000
Subject: [PATCH 04/45] fix: log results of a run all or nothing, also when
 killed, when the disk fails, or when several processes log at once

---
 pygmo_fwork/global_model.py | 74 ++++++++++++++++++++++++++++++++++---
 1 file changed, 68 insertions(+), 6 deletions(-)

diff --git a/pygmo_fwork/global_model.py b/pygmo_fwork/global_model.py
index 5ec7354..f4f51f9 100644
--- a/pygmo_fwork/global_model.py
+++ b/pygmo_fwork/global_model.py
@@ -1,9 +1,11 @@
 
+import errno
 import inspect
 import os
 import shutil
 import yaml
 import time
+import uuid
 
 import numpy as np
 import pandas as pd
@@ -243,14 +245,74 @@ class GlobalModel(object):
 
         if not os.path.isdir(results_dir):
             raise GlobalModelLogError('Invalid or non existing results_dir!')
-        run_results_dir = os.path.join(results_dir, run_id)
-        if os.path.isdir(run_results_dir):
-            if overwrite:
-                shutil.rmtree(run_results_dir)
-            else:
-                raise GlobalModelLogError('The {} results subdirectory already exists!'.format(run_id))
+        final_results_dir = os.path.join(results_dir, run_id)
+        if os.path.isdir(final_results_dir) and not overwrite:
+            raise GlobalModelLogError('The {} results subdirectory already exists!'.format(run_id))
+        # everything is logged into a hidden directory first, which gets renamed only when complete:
+        run_results_dir = self._get_unique_sibling(final_results_dir)
         os.mkdir(run_results_dir)
+        try:
+            self._log_all(run_id, run_results_dir, init_params, compress)
+            self._move_results(run_results_dir, final_results_dir, overwrite)
+        except BaseException:
+            shutil.rmtree(run_results_dir, ignore_errors=True)
+            raise
+
+    @staticmethod
+    def _get_unique_sibling(path):
+        """Returns a unique hidden path in the same directory as the passed path.
+        :param path: (str)
+        :return: (str)
+        """
+        return os.path.join(os.path.dirname(path), '.{}'.format(uuid.uuid4().hex))
 
+    @staticmethod
+    def _move_results(run_results_dir, final_results_dir, overwrite):
+        """Moves the complete results into their final place. If there are some results already, they either get
+        replaced as a whole (if overwrite is True), or left untouched and an exception is raised.
+        :param run_results_dir: (str) path to the directory with complete results
+        :param final_results_dir: (str) path the results are being moved to
+        :param overwrite: (bool)
+        :return: None
+        """
+        replaced_dirs = []
+        try:
+            while True:
+                try:
+                    if overwrite and os.path.isdir(final_results_dir):
+                        replaced_dir = GlobalModel._get_unique_sibling(final_results_dir)
+                        replaced_dirs.append(replaced_dir)
+                        os.rename(final_results_dir, replaced_dir)
+                    os.rename(run_results_dir, final_results_dir)
+                    break
+                except OSError as err:
+                    # some other process might be logging under the same run_id:
+                    if overwrite and err.errno in (errno.ENOTEMPTY, errno.EEXIST, errno.ENOENT) and \
+                            os.path.isdir(run_results_dir):
+                        continue
+                    if err.errno in (errno.ENOTEMPTY, errno.EEXIST):
+                        raise GlobalModelLogError('The results subdirectory {} already exists!'.format(
+                            final_results_dir))
+                    raise
+        except BaseException:
+            # the last replaced results are put back:
+            for replaced_dir in reversed(replaced_dirs):
+                if not os.path.isdir(final_results_dir) and os.path.isdir(replaced_dir):
+                    os.rename(replaced_dir, final_results_dir)
+            raise
+        finally:
+            for replaced_dir in replaced_dirs:
+                if os.path.isdir(final_results_dir):
+                    shutil.rmtree(replaced_dir, ignore_errors=True)
+
+    def _log_all(self, run_id, run_results_dir, init_params, compress):
+        """Saves all the logs of the last run into an existing directory.
+        :param run_id: (str) identifier of the run being logged.
+        :param run_results_dir: (str) path to the existing directory
+        :param init_params: (dict) dictionary of whatever initial parameters passed to run, to be logged.
+        :param compress: (bool) if True, only compressed solution, rates and wall_fluxes will be logged.
+        :return: None
+        """
         # log the solution, rates and wall fluxes:
         sol = self.get_solution()
         rates = self.get_rates()
-- 
2.43.0


From 76062e6af9979842eda591e0905cb0d609a47716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:15 +0000
Subject: [PATCH 05/45] fix: keep the model and its parameters when reloading
 invalid model parameters is refused

---
 pygmo_fwork/global_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/global_model.py b/pygmo_fwork/global_model.py
index f4f51f9..408bba3 100644
--- a/pygmo_fwork/global_model.py
+++ b/pygmo_fwork/global_model.py
@@ -77,7 +77,12 @@ class GlobalModel(object):
         :param model_parameters:
         :return: None
         """
-        self.__init__(chemistry=self.model.chemistry, model_parameters=model_parameters, backend=self.backend)
+        # the invalid model parameters raise exceptions before anything changes in this instance
+        self.__dict__.update(
+            type(self)(
+                chemistry=self.model.chemistry, model_parameters=model_parameters, backend=self.backend
+            ).__dict__
+        )
 
     # noinspection DuplicatedCode
     def generate_initial_n(self, ionisation_degree=1.e-15, neg_ion_fraction=1.e-15, non_feed_sp_fraction=1.e-15):
-- 
2.43.0


From 9e9ef4a1906afa8ee7072511b1d219e054c3809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:48 +0000
Subject: [PATCH 06/45] fix: copy the power and time series into model
 parameters, so that later changes by the caller have no effect

---
 pygmo_fwork/pygmol/model_parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/pygmol/model_parameters.py b/pygmo_fwork/pygmol/model_parameters.py
index 7b5a0fa..7b86008 100644
--- a/pygmo_fwork/pygmol/model_parameters.py
+++ b/pygmo_fwork/pygmol/model_parameters.py
@@ -102,7 +102,7 @@ class _ModelParametersPower(TypeCheck):
             self.assert_is_number(power, number_type='non-negative')
         if self._time_array is not None and len(self._time_array) != len(power_array):
             raise ModelParametersConsistencyError('"power" and "t_power" parameters are inconsistent sizes!')
-        self._power_array = power_array
+        self._power_array = list(power_array)  # a copy, so it cannot be changed from outside
 
     def get_power(self):
         """Returns the power values.
@@ -125,7 +125,7 @@ class _ModelParametersPower(TypeCheck):
             self.assert_is_number(time, number_type='any')
         if self._power_array is not None and len(self._power_array) != len(time_array):
             raise ModelParametersConsistencyError('"power" and "t_power" parameters are inconsistent sizes!')
-        self._time_array = time_array
+        self._time_array = list(time_array)  # a copy, so it cannot be changed from outside
 
     def get_time(self):
         """Returns the time values corresponding to the power values.
-- 
2.43.0


From ea0508895c38f51e28665db8895fb854b3b3e4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:11 +0000
Subject: [PATCH 07/45] fix: leave the chemistry as it was when disabling fails
 for any reason

---
 plaschem/chemistry.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 5120d7e..d43be32 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -301,16 +301,17 @@ class Chemistry(object):
 
         try:
             self._disable_recursively(species_ids=tuple(dis_species_ids), reactions_ids=tuple(dis_reactions_ids))
-        except ChemistryDisableError:
-            # back track
+            # just to be on a safe side, assert consistency:
+            self.assert_consistency()
+        except BaseException as err:
+            # back track, whatever the reason (including for example a keyboard interrupt)
             self._enabled_sp = bu_enabled_species
             self._enabled_r = bu_enabled_reactions
             self._protected_sp = bu_protected_species
             self._adhoc_protected_sp = bu_adhoc_protected_species
-            raise ChemistryDisableError('Some of the species cannot be disabled!')
-
-        # just to be on a safe side, assert consistency:
-        self.assert_consistency()
+            if isinstance(err, ChemistryDisableError):
+                raise ChemistryDisableError('Some of the species cannot be disabled!')
+            raise
 
     def reset(self):
         """Resets all the disabled species and reactions.
-- 
2.43.0


From a4237759ad5f4bb3b080445ed7c270321a4d613e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:30 +0000
Subject: [PATCH 08/45] fix: do not refuse disabling because of a protected
 species which already is disabled

---
 plaschem/chemistry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index d43be32..06b45f2 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -245,7 +245,7 @@ class Chemistry(object):
         if not len(dis_species_ids) and not len(dis_reactions_ids):
             return
         # base case #2 (some species cannot be disabled since they are protected):
-        if len(set(species_ids) & set(self.get_protected_species().index)):
+        if len(set(dis_species_ids) & set(self.get_protected_species().index)):
             raise ChemistryDisableError('Some of the species cannot be disabled!')
         # disable everything:
         self._enabled_sp[dis_species_ids] = False
-- 
2.43.0


From e93b0987005e4886c43cf1716bd57dd51178585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:24 +0000
Subject: [PATCH 09/45] fix: make the coherence of chemistry attributes
 independent of the order in which ad-hoc data were set

---
 plaschem/chemistry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 06b45f2..a686a1c 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -469,7 +469,7 @@ class Chemistry(object):
 
         adhoc_species_attributes = []
         for attr in self.adhoc_species_attributes:
-            for sp_i in self.adhoc_species_attributes[attr].index:
+            for sp_i in sorted(self.adhoc_species_attributes[attr].index):  # must not depend on the order of setting
                 attr_value = self.adhoc_species_attributes[attr].at[sp_i]
                 # need to explicitly convert the value into the correct datatype (numpy data-types play up in yaml)
                 attr_value = RP.allowed_attribute_types[attr][0](attr_value)  # using RP.allowed_types lists
@@ -477,7 +477,7 @@ class Chemistry(object):
 
         adhoc_reactions_attributes = []
         for attr in self.adhoc_reactions_attributes:
-            for r_i in self.adhoc_reactions_attributes[attr].index:
+            for r_i in sorted(self.adhoc_reactions_attributes[attr].index):
                 attr_value = self.adhoc_reactions_attributes[attr].at[r_i]
                 attr_value = Reaction.allowed_attribute_types[attr][0](attr_value)
                 adhoc_reactions_attributes.append([str(attr), int(r_i), attr_value])
-- 
2.43.0


From eed85626e70ea2ff0385bd1703ba5226a71a1699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:58 +0000
Subject: [PATCH 10/45] fix: parse species names with commas inside of
 brackets, which the xml builder writes

---
 plaschem/xml_inputs.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/plaschem/xml_inputs.py b/plaschem/xml_inputs.py
index 2127c61..ea03810 100644
--- a/plaschem/xml_inputs.py
+++ b/plaschem/xml_inputs.py
@@ -690,6 +690,22 @@ class XmlParser(object):
         """
         pass
 
+    @staticmethod
+    def _split_names(text):
+        """Splits a comma-separated string of species names. Commas inside of brackets are part of the names, e.g.
+        'e, N2(A,v=1)' is split into ['e', 'N2(A,v=1)'].
+        :param text: (str) comma-separated species names
+        :return: list of (str) species names
+        """
+        names, depth = [''], 0
+        for char in text:
+            if char == ',' and not depth:
+                names.append('')
+            else:
+                depth += (char in '([{') - (char in ')]}')
+                names[-1] += char
+        return [name.strip() for name in names]
+
     @staticmethod
     def get_species_and_reactions_from_xml_elements(rp_xml_elements, reaction_xml_elements):
         """Method to construct arrays of species and reactions instances from their respective xml root elements.
@@ -737,8 +753,8 @@ class XmlParser(object):
 
             attributes = {element.tag: element.text for element in list(reaction_xml) if element.tag not in skip_tags}
             # deal with the skipped tags:
-            reactants_names = [sp_name.strip() for sp_name in reaction_xml.find('reactants').text.split(',')]
-            products_names = [sp_name.strip() for sp_name in reaction_xml.find('products').text.split(',')]
+            reactants_names = XmlParser._split_names(reaction_xml.find('reactants').text)
+            products_names = XmlParser._split_names(reaction_xml.find('products').text)
             reactants = [species_dict[sp_name] for sp_name in reactants_names]
             products = [species_dict[sp_name] for sp_name in products_names]
 
-- 
2.43.0


From 5e9aded37132982bbbc1d5bb7127b75663701628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:38 +0000
Subject: [PATCH 11/45] fix: run_morris raises if any of its trajectories
 failed

---
 pygmo_fwork/optichem/morris.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index f67c08b..ffe43e1 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -782,11 +782,14 @@ class MorrisMethod(object):
             num_cores = multiprocessing.cpu_count() - 1
         pool = multiprocessing.Pool(num_cores)  # pool of workers, by default using all but one PC's CPUs
 
+        results = []
         for kwds in kwds_q:  # run all the trajectories in the pool.
-            pool.apply_async(self.run_trajectory, args=(morris_run_id, traj_type), kwds=kwds)
+            results.append(pool.apply_async(self.run_trajectory, args=(morris_run_id, traj_type), kwds=kwds))
 
         pool.close()
         pool.join()
+        for result in results:
+            result.get()  # raises here, if the trajectory failed in the worker process
 
     # ********************************* POST-PROCESSING TRAJECTORIES ************************************************* #
 
-- 
2.43.0


From 47c5348ec12e8368180ba6496e27c0b6209c9637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:00 +0000
Subject: [PATCH 12/45] fix: leave unfinished trajectories out of the Morris
 statistics

---
 pygmo_fwork/optichem/morris.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index ffe43e1..666135b 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -878,9 +878,10 @@ class MorrisMethod(object):
             logs_dir = os.path.join(morris_results_dir, str(morris_run_id), MorrisMethod.logs_dir_name)
 
         # full paths to all the trajectory directories (the ones containing run logs for all the trajectory runs)
-        traj_dirs_paths = list(
-            glob.glob(os.path.join(logs_dir, '*'))
-        )
+        # only the finished ones, the trajectory meta.yaml file is written last
+        traj_dirs_paths = [
+            os.path.dirname(meta_path) for meta_path in glob.glob(os.path.join(logs_dir, '*', 'meta.yaml'))
+        ]
         traj_dirs_paths.sort()
 
         trajectories_stats = []  # the TrajectoryStats object for each of the found trajectories
-- 
2.43.0


From ac408b621c33c2bd8f4cde5b12ae7cab9edf2a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:16 +0000
Subject: [PATCH 13/45] fix: let several processes add trajectories to a Morris
 run at once, and start again after unfinished trajectories

---
 pygmo_fwork/optichem/morris.py | 59 ++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index 666135b..5faaed5 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -1,7 +1,9 @@
 
 import glob
+import itertools
 import multiprocessing
 import os
+import shutil
 import time
 from collections import namedtuple
 from numbers import Number
@@ -346,13 +348,7 @@ class MorrisMethod(object):
                         already saved
         :return: None
         """
-        if morris_results_dir is None:
-            morris_results_dir = Config().get_morris_results_dir()  # Parent results directory
-
-        self.morris_run_dir = os.path.join(morris_results_dir, morris_run_id)  # dir for the current Morris run
-        self.meta_dir = os.path.join(self.morris_run_dir, self.meta_dir_name)  # directory for meta files
-
-        self.logs_dir = os.path.join(self.morris_run_dir, self.logs_dir_name)
+        self._prepare_morris_run_dirs(morris_run_id, morris_results_dir)
         if traj_id is None:
             traj_id = self._get_next_traj_id(self.logs_dir)  # either passed or first available name for a single traj.
 
@@ -363,23 +359,48 @@ class MorrisMethod(object):
         if os.path.isfile(meta_path):
             raise MorrisLogError('Trajectory directory already exists: {}'.format(meta_path))
 
+        os.makedirs(self.logs_traj_dir, exist_ok=True)
+        # whatever an unfinished trajectory of the same id has left behind is of no use:
+        for name in os.listdir(self.logs_traj_dir):
+            path = os.path.join(self.logs_traj_dir, name)
+            if os.path.isdir(path):
+                shutil.rmtree(path)
+            else:
+                os.remove(path)
+
+    def _prepare_morris_run_dirs(self, morris_run_id, morris_results_dir=None):
+        """A method to prepare the directories shared by all the trajectories of a single Morris Run. Other processes
+        might be preparing them at the same time.
+        :param morris_run_id: see self._prepare_logging
+        :param morris_results_dir: see self._prepare_logging
+        :return: None
+        """
+        if morris_results_dir is None:
+            morris_results_dir = Config().get_morris_results_dir()  # Parent results directory
+
+        self.morris_run_dir = os.path.join(morris_results_dir, morris_run_id)  # dir for the current Morris run
+        self.meta_dir = os.path.join(self.morris_run_dir, self.meta_dir_name)  # directory for meta files
+
+        self.logs_dir = os.path.join(self.morris_run_dir, self.logs_dir_name)
+
         # make the directories if they are not yet existing:
-        for path in [self.morris_run_dir, self.meta_dir, self.logs_dir, self.logs_traj_dir]:
-            if not os.path.isdir(path):
-                os.mkdir(path)
+        for path in [self.morris_run_dir, self.meta_dir, self.logs_dir]:
+            os.makedirs(path, exist_ok=True)
 
     def _get_next_traj_id(self, logs_dir):
         """Method to automatically generate trajectory id identifier. Defaults to MorrisMethod.traj_id.format(i)
+        The trajectory directory is made right away, so that no other process gets the same identifier.
         :param logs_dir: (path) directory with previous trajectory runs logs - needed to generate the next name
                          with lowest unused index i.
         :return: (str) Trajectory ID identifier.
         """
-        for i in range(1, 999):  # if changed to more than 999, also change the self.traj_id formatting!
+        for i in itertools.count(1):
             traj_id = self.traj_id.format(i)
-            if not os.path.isfile(os.path.join(logs_dir, traj_id, 'meta.yaml')):
-                return traj_id
-        else:
-            raise MorrisLogError('Could not find a suitable trajectory id!')
+            try:
+                os.mkdir(os.path.join(logs_dir, self.logs_traj_dir_name.format(traj_id)))
+            except FileExistsError:
+                continue  # finished, unfinished or just running
+            return traj_id
 
     # ********************************** RUNNING THE MORRIS TRAJECTORIES ********************************************* #
 
@@ -762,15 +783,11 @@ class MorrisMethod(object):
         morris_results_dir = None
         if 'morris_results_dir' in kwargs:
             morris_results_dir = kwargs['morris_results_dir']
-        self._prepare_logging(morris_run_id, morris_results_dir=morris_results_dir)  # this populates self.trajs_dir
+        self._prepare_morris_run_dirs(morris_run_id, morris_results_dir)  # this populates self.logs_dir
         # build the queue of traj_ids to be run:
         traj_ids = []
-        i = 1  # start index
         while len(traj_ids) < num_trajs:
-            traj_id = self.traj_id.format(i)
-            if not os.path.isfile(os.path.join(self.logs_dir, traj_id, 'meta.yaml')):
-                traj_ids.append(traj_id)  # if not file already existing, append to the queue
-            i += 1  # increase index
+            traj_ids.append(self._get_next_traj_id(self.logs_dir))
         # build the queue of the keyword arguments for the run_trajectory method to be run num_trajs times in parallel
         kwds_q = []
         for traj_id in traj_ids:
-- 
2.43.0


From 41d3f4eab615bc1fcd983a2148a38dc7f3b5adbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:21 +0000
Subject: [PATCH 14/45] fix: write the meta data of a Morris run and of a
 trajectory all at once, the latter last

---
 pygmo_fwork/optichem/morris.py | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index 5faaed5..9440bfa 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -5,6 +5,7 @@ import multiprocessing
 import os
 import shutil
 import time
+import uuid
 from collections import namedtuple
 from numbers import Number
 from typing import Union, Sequence, Tuple, Dict
@@ -414,7 +415,7 @@ class MorrisMethod(object):
                           'model_parameters' each for one supported (coded) Morris Run types
         :return: None
         """
-        if len(os.listdir(meta_dir)):
+        if os.path.isfile(os.path.join(meta_dir, 'meta.yaml')):  # the last one of the meta files
             if not self.chemistry.check_coherence(os.path.join(meta_dir, 'chemistry_attributes.yaml')):
                 raise MorrisCoherenceError(
                     'Chemistry is not coherent with previous morris trajectories for this Morris Run ID')
@@ -452,6 +453,28 @@ class MorrisMethod(object):
         with open(os.path.join(meta_dir, 'meta.yaml'), 'w') as stream:
             yaml.dump({'trajectory_type': traj_type, 'model_backend': self.model_backend.lower()}, stream)
 
+    def _dump_meta_once(self, meta_dir, traj_type):
+        """Method to dump the meta data of a Morris Run, unless some trajectory did so already, in which case the
+        coherence with those meta data is asserted instead. The meta data appear in the meta_dir all at once, so other
+        processes never see only a part of them.
+        :param meta_dir: see self._dump_meta
+        :param traj_type: see self._dump_meta
+        :return: None
+        """
+        if not os.path.isfile(os.path.join(meta_dir, 'meta.yaml')):
+            temp_dir = '{}.{}'.format(meta_dir, uuid.uuid4().hex)
+            os.mkdir(temp_dir)
+            try:
+                self._dump_meta(temp_dir, traj_type)
+                os.rename(temp_dir, meta_dir)  # only replaces an empty directory
+                return
+            except OSError:
+                if not os.path.isfile(os.path.join(meta_dir, 'meta.yaml')):
+                    raise  # nothing to do with another process having been faster
+            finally:
+                shutil.rmtree(temp_dir, ignore_errors=True)
+        self._assert_coherence(meta_dir, traj_type)
+
     @staticmethod
     def _log_solution(solution, run_id, logs_traj_dir, compress):
         """Logs a compressed solution into logs_traj_dir/run_id/solution.csv
@@ -725,10 +748,13 @@ class MorrisMethod(object):
         meta_dict['run_ids'] = traj_run_ids
         meta_dict['deltas'] = traj_deltas
         meta_dict['factors_ids'] = traj_factors_ids
-        with open(os.path.join(self.logs_traj_dir, 'meta.yaml'), 'w') as stream:
+        # dump the morris run meta data, if this is the first trajectory to finish:
+        self._dump_meta_once(self.meta_dir, traj_type=traj_type)
+        # the trajectory is finished as soon as its meta.yaml file exists, so it has to appear last and complete:
+        meta_path = os.path.join(self.logs_traj_dir, 'meta.yaml')
+        with open(meta_path + '.part', 'w') as stream:
             yaml.dump(meta_dict, stream)
-        # dump the morris run meta data:
-        self._dump_meta(self.meta_dir, traj_type=traj_type)
+        os.replace(meta_path + '.part', meta_path)
 
         if verbosity >= 1:
             msg = ' MORRIS RUN "{}": TRAJECTORY "{}" FINISHED'.format(
-- 
2.43.0


From 443ed9e9dda2a9023e0a8e49df19c91b7905d217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:14 +0000
Subject: [PATCH 15/45] fix: evaluate Morris runs whose id has wildcard
 characters

---
 pygmo_fwork/optichem/morris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index 9440bfa..9e3be32 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -923,7 +923,7 @@ class MorrisMethod(object):
         # full paths to all the trajectory directories (the ones containing run logs for all the trajectory runs)
         # only the finished ones, the trajectory meta.yaml file is written last
         traj_dirs_paths = [
-            os.path.dirname(meta_path) for meta_path in glob.glob(os.path.join(logs_dir, '*', 'meta.yaml'))
+            os.path.dirname(meta_path) for meta_path in glob.glob(os.path.join(glob.escape(logs_dir), '*', 'meta.yaml'))
         ]
         traj_dirs_paths.sort()
 
-- 
2.43.0


From adf6bd32eb91843b62556af54d9b4f89915286ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:47 +0000
Subject: [PATCH 16/45] fix: compare Morris model backends irrespective of
 case, as they are recorded

---
 pygmo_fwork/optichem/morris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index 9e3be32..c433b0c 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -429,7 +429,7 @@ class MorrisMethod(object):
                 if not meta_meta['trajectory_type'] == traj_type:
                     raise MorrisCoherenceError(
                         'Trajectory type is not coherent with previous morris trajectories for this Morris Run ID')
-                if not meta_meta['model_backend'] == self.model_backend:
+                if not meta_meta['model_backend'] == self.model_backend.lower():
                     raise MorrisCoherenceError(
                         'Model backend is not coherent with previous morris trajectories for this Morris Run ID')
 
-- 
2.43.0


From 35729264d38467a91812aaee0e59df8a0fa5a32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:47 +0000
Subject: [PATCH 17/45] fix: run Morris trajectories also with a
 ModelParameters instance

---
 pygmo_fwork/pygmol/model_parameters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/pygmol/model_parameters.py b/pygmo_fwork/pygmol/model_parameters.py
index 7b86008..a67a3d5 100644
--- a/pygmo_fwork/pygmol/model_parameters.py
+++ b/pygmo_fwork/pygmol/model_parameters.py
@@ -220,7 +220,7 @@ class ModelParameters(_ModelParametersBase):
         if model_params is None:
             all_passed_params = {}
         else:
-            all_passed_params = model_params.copy()
+            all_passed_params = dict(model_params)
         all_passed_params.update(additional_model_params)
 
         self.parameters = {}  # this is the "master" dict holding all the values under their nominal keys
@@ -298,6 +298,9 @@ class ModelParameters(_ModelParametersBase):
     def __iter__(self):
         return self.parameters.__iter__()
 
+    def copy(self):
+        return ModelParameters(self)
+
     def keys(self):
         return self.parameters.keys()
 
-- 
2.43.0


From f304e29c5c61d83a36a3845763f508ce393bb329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:16 +0000
Subject: [PATCH 18/45] fix: record Morris model parameters given as numpy
 values in a readable form

---
 pygmo_fwork/optichem/morris.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index c433b0c..34d16f1 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -448,7 +448,8 @@ class MorrisMethod(object):
 
         model_params = dict(ModelParameters(self.model_params))  # this cleans up the dict, so ready for yaml dump
         with open(os.path.join(meta_dir, 'model_parameters.yaml'), 'w') as stream:
-            yaml.dump(model_params, stream)
+            # noinspection PyProtectedMember
+            yaml.dump(GlobalModel._plain_values(model_params), stream)
 
         with open(os.path.join(meta_dir, 'meta.yaml'), 'w') as stream:
             yaml.dump({'trajectory_type': traj_type, 'model_backend': self.model_backend.lower()}, stream)
-- 
2.43.0


From 24f4b7c810515a0328d045359a8957e20fac54df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:40 +0000
Subject: [PATCH 19/45] fix: replace the reduction history on disk all at once

---
 pygmo_fwork/optichem/reduction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygmo_fwork/optichem/reduction.py b/pygmo_fwork/optichem/reduction.py
index 09066b5..eca3228 100644
--- a/pygmo_fwork/optichem/reduction.py
+++ b/pygmo_fwork/optichem/reduction.py
@@ -280,10 +280,10 @@ class ReductionIterator(object):
         """Logs the reduction history dataframe held in self.reduction_history to the csv table in the reduction_run_id
         directory. The name of the logged file is controlled by self.reduction_history_filename
         """
-        self.reduction_history.to_csv(
-            os.path.join(self.reduction_run_dir, self.reduction_history_filename),
-            header=True, index=True, index_label='run_index'
-        )
+        history_path = os.path.join(self.reduction_run_dir, self.reduction_history_filename)
+        # written aside and renamed, so that there is a complete history on disk at any time
+        self.reduction_history.to_csv(history_path + '.part', header=True, index=True, index_label='run_index')
+        os.replace(history_path + '.part', history_path)
 
     def run_reduction(
             self,
-- 
2.43.0


From 5550c5a166a9e388fa99e05a43582bd9c8f32481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:40 +0000
Subject: [PATCH 20/45] fix: let a reduction run into an empty directory, and
 only one of several processes

---
 pygmo_fwork/optichem/reduction.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pygmo_fwork/optichem/reduction.py b/pygmo_fwork/optichem/reduction.py
index eca3228..097fb3e 100644
--- a/pygmo_fwork/optichem/reduction.py
+++ b/pygmo_fwork/optichem/reduction.py
@@ -109,12 +109,18 @@ class ReductionIterator(object):
         if not os.path.isdir(self.reduction_results_dir):
             raise ReductionInitError('Results parent directory {} does not exist!'.format(self.reduction_results_dir))
         if not os.path.isdir(self.reduction_run_dir):
-            os.mkdir(self.reduction_run_dir)
-            # log the meta data (important outputs and times)
-            with open(os.path.join(self.reduction_run_dir, self.meta_filename), 'w') as stream:
-                yaml.dump(self.meta, stream)
+            try:
+                os.mkdir(self.reduction_run_dir)
+            except FileExistsError:
+                pass  # by another process, which is found out below
         # it's allowed that the run dir already exists, but it needs to be empty!
-        elif len(os.listdir(self.reduction_run_dir)):
+        if len(os.listdir(self.reduction_run_dir)):
+            raise ReductionInitError('{} already exists!'.format(self.reduction_run_dir))
+        # log the meta data (important outputs and times), unless another process was faster to use this run dir
+        try:
+            with open(os.path.join(self.reduction_run_dir, self.meta_filename), 'x') as stream:
+                yaml.dump(self.meta, stream)
+        except FileExistsError:
             raise ReductionInitError('{} already exists!'.format(self.reduction_run_dir))
 
     def _run_model(self, run_id: str) -> None:
-- 
2.43.0


From ddb10095ec2e5033342ae4f7957bf8461de39967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:44 +0000
Subject: [PATCH 21/45] fix: record the maximal reduction error given as a
 numpy value in a readable form

---
 pygmo_fwork/optichem/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/reduction.py b/pygmo_fwork/optichem/reduction.py
index 097fb3e..dc07dac 100644
--- a/pygmo_fwork/optichem/reduction.py
+++ b/pygmo_fwork/optichem/reduction.py
@@ -48,7 +48,7 @@ class ReductionIterator(object):
         self.reduction_run_id = str(reduction_run_id)
         self.important_outputs = [str(io) for io in important_outputs]  # want it explicitly in list of strings
         self.important_times = [float(round(it, 10)) for it in important_times]  # want it explicitly in list of floats
-        self.max_error = max_error
+        self.max_error = float(max_error)  # want it explicitly in float, such as to be loaded from the meta data
         self.meta = {
             'important_outputs': self.important_outputs, 'important_times': self.important_times,
             'max_error': self.max_error
-- 
2.43.0


From 3d0618723114c730caf6c77ad75e6b2f45e65176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:44 +0000
Subject: [PATCH 22/45] fix: log implicitly removed species in an order
 independent of the hash seed

---
 pygmo_fwork/optichem/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/reduction.py b/pygmo_fwork/optichem/reduction.py
index dc07dac..52bfa65 100644
--- a/pygmo_fwork/optichem/reduction.py
+++ b/pygmo_fwork/optichem/reduction.py
@@ -251,7 +251,7 @@ class ReductionIterator(object):
             assert species in species_removed, '{} not in {}'.format(species, species_removed)  # sanity check
             implicitly_removed = species_removed - {species}
             if len(implicitly_removed):  # one or more species were removed implicitly on the back of species:
-                self.reduction_history.at[index, 'rm_additional'] = ', '.join(implicitly_removed)
+                self.reduction_history.at[index, 'rm_additional'] = ', '.join(sorted(implicitly_removed))
                 for sp in implicitly_removed:
                     self.left_eligible_species.remove(sp)
 
-- 
2.43.0


From 0d53755c08d10c68c43f0482050b743d07a33cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:44 +0000
Subject: [PATCH 23/45] fix: restore the chemistry to the last accepted state
 after a failed or over-limit reduction iteration

---
 pygmo_fwork/optichem/reduction.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pygmo_fwork/optichem/reduction.py b/pygmo_fwork/optichem/reduction.py
index 52bfa65..9e3af8e 100644
--- a/pygmo_fwork/optichem/reduction.py
+++ b/pygmo_fwork/optichem/reduction.py
@@ -86,6 +86,7 @@ class ReductionIterator(object):
         # successful run:
         self.sol_dif_base = None
         self.sol_dif_last = None
+        self.last_accepted_run_id = None  # run the current state of the chemistry belongs to
 
         # logging settings:
         self.compress_logs = True
@@ -172,6 +173,7 @@ class ReductionIterator(object):
         base_sol = self.model.get_solution()
         self.sol_dif_base = SolutionsDiff(base_sol)
         self.sol_dif_last = SolutionsDiff(base_sol)
+        self.last_accepted_run_id = run_id
 
     def remove_one_species_and_run(
             self, species: str, sp_ranking_score: float = np.nan, backtrack_if_over_max_error: bool = False):
@@ -206,12 +208,10 @@ class ReductionIterator(object):
         index = len(self.species_remove_attempted)
         assert index == list(self.reduction_history.index)[-1] + 1  # check that everything makes sense
 
-        # if not successful (either cannot disable, or ModelSolutionError or if max_error defined and
-        # backtrack_if_over_max_error is True), then the chemistry needs to be backtracked to the last "working" run id:
-        restore_mask = self.reduction_history['rm_success'].copy()
-        if backtrack_if_over_max_error:
-            restore_mask &= self.reduction_history['error_base_max'] <= self.max_error / 100
-        restore_run_id = self.reduction_history.loc[restore_mask, 'run_id'].dropna().iloc[-1]
+        # if not successful (either cannot disable, or ModelSolutionError or if max_error exceeded and
+        # backtrack_if_over_max_error is True), then the chemistry needs to be backtracked to the last "working" run id,
+        # which is the last one that has not been backtracked itself:
+        restore_run_id = self.last_accepted_run_id
         restore_chem_attrib_path = os.path.join(self.reduction_run_dir, restore_run_id, 'chemistry_attributes.yaml')
 
         # now do the removal and run the reduced model:
@@ -277,6 +277,7 @@ class ReductionIterator(object):
             else:
                 # update the last successful solution:
                 self.sol_dif_last = SolutionsDiff(sol)
+                self.last_accepted_run_id = run_id
 
         # log the reduction history:
         self.log()
-- 
2.43.0


From 0c600eef808e4ed044c06a03298e687c5f528383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:48 +0000
Subject: [PATCH 24/45] fix: do not let a reduction remove important species
 implicitly

---
 pygmo_fwork/optichem/reduction.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygmo_fwork/optichem/reduction.py b/pygmo_fwork/optichem/reduction.py
index 9e3af8e..525024a 100644
--- a/pygmo_fwork/optichem/reduction.py
+++ b/pygmo_fwork/optichem/reduction.py
@@ -224,6 +224,10 @@ class ReductionIterator(object):
             removed_successfully = True
         except ChemistryDisableError:  # species could not even be disabled... will be skipped.
             removed_successfully = False
+        if not species_left_before_remove - set(self.model.model.chemistry.get_species_name()) <= \
+                self.left_eligible_species:  # e.g. an important species would be removed implicitly... will be skipped.
+            removed_successfully = False
+            self.model.model.chemistry.load_chemistry_attributes(restore_chem_attrib_path)
         if removed_successfully:
             try:
                 try:
-- 
2.43.0


From 4d97328715cbc04594cd032b618730e26ce6a71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:48 +0000
Subject: [PATCH 25/45] fix: restore the chemistry and record the reduction
 iteration for whatever reason the model run fails

---
 pygmo_fwork/optichem/reduction.py | 38 ++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/pygmo_fwork/optichem/reduction.py b/pygmo_fwork/optichem/reduction.py
index 525024a..b62ed86 100644
--- a/pygmo_fwork/optichem/reduction.py
+++ b/pygmo_fwork/optichem/reduction.py
@@ -8,10 +8,12 @@ from matplotlib import pyplot as plt
 
 from plaschem.chemistry import ChemistryDisableError
 from pygmo_fwork.config import Config
+from pygmo_fwork.exceptions import GlobalModelInitialGuessError
 from pygmo_fwork.global_model import GlobalModel
 from pygmo_fwork.optichem.errors import SolutionsDiff
 from pygmo_fwork.optichem.exceptions import ReductionInitError, ReductionRunError
-from pygmo_fwork.pygmol.exceptions import ModelSolutionError
+from pygmo_fwork.pygmol.exceptions import \
+    ModelSolutionError, InitialSolutionError, EquationsParametersConsistencyError
 from pygmo_fwork.results import ResultsParser
 
 
@@ -24,6 +26,10 @@ class ReductionIterator(object):
     model_run_id = '{:02d}_disabled_{}'  # to be formatted by index and species_name for each removed species.
     reduction_history_filename = 'reduction_history.csv'
     meta_filename = 'meta.yaml'
+    # errors saying that the model does not run with the chemistry it has got:
+    model_run_errors = (
+        ModelSolutionError, InitialSolutionError, GlobalModelInitialGuessError, EquationsParametersConsistencyError
+    )
 
     def __init__(self,
                  model: GlobalModel, reduction_run_id: str, important_outputs: List[str], important_times: List[float],
@@ -219,28 +225,26 @@ class ReductionIterator(object):
         # add the entry:
         self.reduction_history.loc[index, ['species', 'ranking_score']] = [species, sp_ranking_score]
         species_left_before_remove = set(self.model.model.chemistry.get_species_name())
+        error = None
         try:
             self.model.model.chemistry.disable(species=[species])
+            if not species_left_before_remove - set(self.model.model.chemistry.get_species_name()) <= \
+                    self.left_eligible_species:  # e.g. an important species would be removed implicitly...
+                raise ChemistryDisableError('Species {} cannot be removed on its own!'.format(species))
+            self._run_model(run_id)
             removed_successfully = True
-        except ChemistryDisableError:  # species could not even be disabled... will be skipped.
-            removed_successfully = False
-        if not species_left_before_remove - set(self.model.model.chemistry.get_species_name()) <= \
-                self.left_eligible_species:  # e.g. an important species would be removed implicitly... will be skipped.
+            self.left_eligible_species.remove(species)  # species definitely removed
+        except BaseException as err:
             removed_successfully = False
+            # restore the chemistry:
             self.model.model.chemistry.load_chemistry_attributes(restore_chem_attrib_path)
-        if removed_successfully:
-            try:
-                try:
-                    self._run_model(run_id)
-                except KeyboardInterrupt:
-                    raise ModelSolutionError('Model solution aborted by KeyboardInterrupt')
-                self.left_eligible_species.remove(species)  # species definitely removed
-            except ModelSolutionError:
-                removed_successfully = False
-                # restore the chemistry:
-                self.model.model.chemistry.load_chemistry_attributes(restore_chem_attrib_path)
+            if isinstance(err, ChemistryDisableError):
+                pass  # species could not even be disabled... will be skipped.
+            elif isinstance(err, (KeyboardInterrupt, *self.model_run_errors)):
                 if self.verbose_level >= 2:
                     print('PyGMol solution failed, restoring chemistry to {}\n'.format(restore_run_id))
+            else:
+                error = err  # nothing the reduction can go on with, e.g. no space left for the logs: raised below
 
         # irrespective of the success of removing or running the reduced model, log these:
         species_left = set(self.model.model.chemistry.get_species_name())
@@ -285,6 +289,8 @@ class ReductionIterator(object):
 
         # log the reduction history:
         self.log()
+        if error is not None:
+            raise error
         return self.reduction_history.loc[index].copy()
 
     def log(self) -> None:
-- 
2.43.0


From 74c39395f03e5b47c907fe84e227bfd07c976ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:35 +0000
Subject: [PATCH 26/45] fix: build the return matrix with special species
 included, also with some species disabled

---
 plaschem/chemistry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index a686a1c..cf13dc8 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -883,8 +883,9 @@ class Chemistry(object):
         ret_mat = ret_mat.fillna(0.)
 
         if special:  # fill in the special species values back to NaN's...
-            ret_mat.at[self._special_sp, :] = np.nan
-            ret_mat.at[:, self._special_sp] = np.nan
+            special_ids = ret_mat.index.intersection(self.get_special_species().index)
+            ret_mat.loc[special_ids, :] = np.nan
+            ret_mat.loc[:, special_ids] = np.nan
 
         return ret_mat
 
-- 
2.43.0


From 1bee04e6e22c97dc54572c03a4e6efd72aa8fefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:35 +0000
Subject: [PATCH 27/45] fix: leave disabled species with ad-hoc return
 coefficients out of the return coefficients

---
 plaschem/chemistry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index cf13dc8..ec32d37 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -739,11 +739,11 @@ class Chemistry(object):
         """
         species = self.get_species(disabled=disabled, special=special, protected=protected)
         species_ret_coefs = pd.Series([copy.deepcopy(sp.get_ret_coefs()) for sp in species], index=species.index)
-        # update with the adhoc ret_coefs:
-        for sp_id in self.adhoc_species_attributes['ret_coefs'].index:
+        # update with the adhoc ret_coefs, leaving out any species which are not to be returned (e.g. disabled species):
+        for sp_id in species_ret_coefs.index.intersection(self.adhoc_species_attributes['ret_coefs'].index):
             species_ret_coefs.at[sp_id] = copy.deepcopy(self.adhoc_species_attributes['ret_coefs'].at[sp_id])
         # override for all species whose stick_coefs are 0.:
-        species_stick_coefs = self.get_species_stick_coef(disabled=disabled, special=special)
+        species_stick_coefs = self.get_species_stick_coef(disabled=disabled, special=special, protected=protected)
         for sp_id in species_stick_coefs.index:
             if species_stick_coefs.at[sp_id] == 0.:
                 species_ret_coefs.at[sp_id] = {}
-- 
2.43.0


From aeac4403cde5e9d030de790e05dd90a760817bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:35 +0000
Subject: [PATCH 28/45] fix: find maximum flows in chemistry graphs, in an
 order independent of the hash seed

---
 pygmo_fwork/optichem/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index 15bf7aa..b815113 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -240,7 +240,8 @@ class Graph(object):
         weighting_func, inverse = self._default_weighting_functions(weighting_func, inverse)
 
         # first build the matrix of capacities and plugging zero where edges do not exist:
-        capacity = pd.DataFrame(index=self.get_nodes(), columns=self.get_nodes())
+        nodes = sorted(self.get_nodes())  # sorted, so that the paths are found in an order independent of hash seed
+        capacity = pd.DataFrame(index=nodes, columns=nodes)
         for u in self.get_nodes():
             for v in self.get_nodes():
                 if self.has_edge(u, v):
-- 
2.43.0


From 824e0fea9cb5def8d5a02386b449d5f7a4de8042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 29/45] fix: interpolate results also for a single time

---
 pygmo_fwork/results.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index f5154c3..f1e63aa 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -238,14 +238,11 @@ class ResultsParser(object):
             assert results_df['t'].iloc[0] <= t <= results_df['t'].iloc[-1], \
                 'time={} is outside the results_df range'.format(t)
 
-        frames = pd.DataFrame(columns=results_df.columns)
-        frames.loc[:, 't'] = times
-        ignore_columns = {'t'}
+        frames = {'t': np.array(times)}
         for col in results_df.columns:
-            if col not in ignore_columns:
-                vals_at_times = np.interp(times, results_df['t'], results_df[col])
-                frames.loc[:, col] = vals_at_times
-        return frames
+            if col != 't':
+                frames[col] = np.interp(times, results_df['t'], results_df[col])
+        return pd.DataFrame(frames, columns=results_df.columns)
 
     def fetch_model_params(self, run_id, backend=None, results_dir=None, attributes_dump_name=None):
         """This method will return the model parameters dict from the logged .yaml file. Returns from
-- 
2.43.0


From 71acf931e0bd06d478280de4da33fd8e82739c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:36 +0000
Subject: [PATCH 30/45] fix: rank species by chemistry graphs with the surface
 included, and for close important times

---
 pygmo_fwork/optichem/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index b815113..1b3089a 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -320,12 +320,12 @@ class ChemistryGraph(object):
         self.important_times = np.array(rates_frames['t'])  # all timestamps for all rows in rates_frames
 
         self.stick_coefs = chemistry.get_species_stick_coef(special=True).fillna(0.).values  # fill in 0 for e, M
-        self.ret_matrix = chemistry.get_return_matrix(special=True).fillna(0.).values  # fill in 0 for e, M
+        self.ret_matrix = chemistry.get_return_matrix(special=True).fillna(0.).values.astype(float)  # fill in 0 for e, M
 
         # rates [m-3/s] matrix - each row for one important time and each column for one reaction
         self.rates = rates_frames.drop(columns='t').values  # np.array
         # wall fluxes [SI] matrix - each row for one important time and columns are species names (str) incl special
-        self.wall_fluxes = pd.DataFrame(index=wall_fluxes_frames.index, columns=['t']+list(self.species)).fillna(0.)
+        self.wall_fluxes = pd.DataFrame(0., index=wall_fluxes_frames.index, columns=['t']+list(self.species))
         self.wall_fluxes.loc[wall_fluxes_frames.index, wall_fluxes_frames.columns] = \
             wall_fluxes_frames.loc[wall_fluxes_frames.index, wall_fluxes_frames.columns]
         self.wall_fluxes = self.wall_fluxes.drop(columns='t').values  # np.array
@@ -522,7 +522,7 @@ class ChemistryGraph(object):
         for important_sp in important_species:
             for t_i, important_time in enumerate(self.important_times):
                 graph = self.graphs[t_i]
-                index = '{} ({:.3e})'.format(important_sp, important_time)
+                index = '{} ({}: {:.3e})'.format(important_sp, t_i, important_time)
                 if search_method == 'max_bottleneck':
                     paths, scores = graph.find_max_bottleneck_paths(target_node=important_sp, edge_attribute='weight')
                 elif search_method == 'shortest_path':
-- 
2.43.0


From 65a8239a7aa9e534b91124c558874dc4a972b062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:45 +0000
Subject: [PATCH 31/45] fix: rank species without any edges in the chemistry
 graph by the maximum flow

---
 pygmo_fwork/optichem/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index 1b3089a..26ab5fb 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -240,7 +240,8 @@ class Graph(object):
         weighting_func, inverse = self._default_weighting_functions(weighting_func, inverse)
 
         # first build the matrix of capacities and plugging zero where edges do not exist:
-        nodes = sorted(self.get_nodes())  # sorted, so that the paths are found in an order independent of hash seed
+        # (sorted, so that the paths are found in an order independent of the hash seed)
+        nodes = sorted(self.get_nodes() | {source_node, target_node})
         capacity = pd.DataFrame(index=nodes, columns=nodes)
         for u in self.get_nodes():
             for v in self.get_nodes():
@@ -320,7 +321,8 @@ class ChemistryGraph(object):
         self.important_times = np.array(rates_frames['t'])  # all timestamps for all rows in rates_frames
 
         self.stick_coefs = chemistry.get_species_stick_coef(special=True).fillna(0.).values  # fill in 0 for e, M
-        self.ret_matrix = chemistry.get_return_matrix(special=True).fillna(0.).values.astype(float)  # fill in 0 for e, M
+        # fill in 0 for e, M
+        self.ret_matrix = chemistry.get_return_matrix(special=True).fillna(0.).values.astype(float)
 
         # rates [m-3/s] matrix - each row for one important time and each column for one reaction
         self.rates = rates_frames.drop(columns='t').values  # np.array
-- 
2.43.0


From 9cad384afbc4c2bd163892326cc88f8af6e3e8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:23 +0000
Subject: [PATCH 32/45] fix: search chemistry graphs in an order independent of
 the hash seed

---
 pygmo_fwork/optichem/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index 26ab5fb..cde33c9 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -150,7 +150,7 @@ class Graph(object):
 
         # modified Dijkstra:
         while len(unrelaxed):
-            priority_queue = sorted(unrelaxed, key=lambda x: widths[x], reverse=True)
+            priority_queue = sorted(unrelaxed, key=lambda x: (-widths[x], x))
             node = priority_queue[0]  # pop the item with largest width
             unrelaxed.remove(node)
             for predecessor in self.predecessors[node]:
@@ -199,7 +199,7 @@ class Graph(object):
 
         # Dijkstra:
         while len(unrelaxed):
-            priority_queue = sorted(unrelaxed, key=lambda x: lengths[x])
+            priority_queue = sorted(unrelaxed, key=lambda x: (lengths[x], x))
             node = priority_queue[0]  # pop the item with shortest distance
             unrelaxed.remove(node)
             for predecessor in self.predecessors[node]:
-- 
2.43.0


From a0fd92da2f45cfcd7d4778cc225b1b1b10f007b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:30 +0000
Subject: [PATCH 33/45] fix: convert ad-hoc attributes given as text to
 numbers, and let None stand for no change

---
 plaschem/chemistry.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index ec32d37..a9fe644 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -371,9 +371,13 @@ class Chemistry(object):
             raise RPAttributeError('Adhoc changes to the {} attribute cannot be made'.format(attrib))
         if type(value) not in RP.allowed_attribute_types[attrib]:
             raise RPAttributeError('Unsupported value type for {} attribute: {}'.format(attrib, type(value)))
-        # need to convert np.float64 explicitly to float, otherwise the yaml dump will be a mess!
-        if type(value) == np.float64:
-            value = float(value)
+        # need to convert np.float64 explicitly to float, otherwise the yaml dump will be a mess! Also numbers given as
+        # str are converted, since the getters return the ad-hoc values as they are:
+        if type(value) in (np.float64, str):
+            try:
+                value = float(value)
+            except ValueError:
+                raise RPAttributeError('Unsupported value for {} attribute: {}'.format(attrib, value))
         if attrib == 'ret_coefs':
             # verify the consistency of the chemistry with new return species
             species_names_pool = set(self.get_species_name(special=True).values)
@@ -423,9 +427,13 @@ class Chemistry(object):
             raise ReactionAttributeError('Adhoc changes to the {} attribute cannot be made'.format(attrib))
         if type(value) not in Reaction.allowed_attribute_types[attrib]:
             raise ReactionAttributeError('Unsupported value type for {} attribute: {}'.format(attrib, type(value)))
-        # need to convert np.float64 explicitly to float, otherwise the yaml dump will be a mess!
-        if type(value) == np.float64:
-            value = float(value)
+        # need to convert np.float64 explicitly to float, otherwise the yaml dump will be a mess! Also numbers given as
+        # str are converted, since the getters return the ad-hoc values as they are:
+        if type(value) in (np.float64, str):
+            try:
+                value = float(value)
+            except ValueError:
+                raise ReactionAttributeError('Unsupported value for {} attribute: {}'.format(attrib, value))
         self.adhoc_reactions_attributes[attrib].at[r_id] = value
 
     def reset_adhoc_reactions_attributes(self, attrib):
@@ -802,7 +810,7 @@ class Chemistry(object):
         reactions = self.get_reactions(disabled=disabled)
         reactions_arrh_a = pd.Series([r.get_arrh_a(si_units=si_units) for r in reactions], index=reactions.index)
         # adhoc changes (here I need to take care of the SI conversion as well!):
-        adhoc_arrh_a = self.adhoc_reactions_attributes['arrh_a'].copy()
+        adhoc_arrh_a = self.adhoc_reactions_attributes['arrh_a'].dropna()  # None stands for no change
         if si_units:
             for r_id in adhoc_arrh_a.index:
                 orig_unit = self.get_reaction(r_id).get_unit('arrh_a')
-- 
2.43.0


From af026cc0e997de0dc1149a58d5620e6952a0f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:40 +0000
Subject: [PATCH 34/45] fix: label results of a run by the chemistry it was run
 with, also if the chemistry was changed since

---
 pygmo_fwork/pygmol/equations.py | 1 +
 pygmo_fwork/pygmol/model.py     | 9 +++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pygmo_fwork/pygmol/equations.py b/pygmo_fwork/pygmol/equations.py
index 039aa75..cc9ddc0 100644
--- a/pygmo_fwork/pygmol/equations.py
+++ b/pygmo_fwork/pygmol/equations.py
@@ -161,6 +161,7 @@ class Equations(object):
         self.species_stick_coef = np.array(chemistry.get_species_stick_coef())
         self.num_species = len(self.species_name)
         # reactions attributes:
+        self.reactions_id = np.array(chemistry.get_reactions_id())
         self.reactions_arrh_a = np.array(chemistry.get_reactions_arrh_a())  # arrhenius pre-exp. factor in [SI]
         self.reactions_arrh_b = np.array(chemistry.get_reactions_arrh_b())  # arrhenius n-factor
         self.reactions_arrh_c = np.array(chemistry.get_reactions_arrh_c())  # arrhenius activation en [eV] or [K]
diff --git a/pygmo_fwork/pygmol/model.py b/pygmo_fwork/pygmol/model.py
index 2f91361..7428d10 100644
--- a/pygmo_fwork/pygmol/model.py
+++ b/pygmo_fwork/pygmol/model.py
@@ -247,18 +247,19 @@ class Model(object):
             sol_primary = self.sol_primary
         values = [getattr(self.equations, 'get_{}'.format(quantity))(y).copy() for y in sol_primary]
         diagnostics = pd.DataFrame(values)
+        # labelled by what the equations were built from, the chemistry might have been changed since. Also
         # the number of columns alone might be ambiguous: there might be as many reactions as species, or only one of
         # either, so the scalar quantities and the quantities defined for reactions are recognised first
         if all(np.ndim(value) == 0 for value in values):  # one value for the whole system
             diagnostics.columns = ['value']
         elif quantity in self.reactions_quantities:  # a value for each reaction
-            diagnostics.columns = list(self.chemistry.get_reactions_id())
+            diagnostics.columns = self.equations.reactions_id.tolist()
         elif diagnostics.shape[1] == self.equations.num_species:  # a value for each species
-            diagnostics.columns = list(self.chemistry.get_species_name())
+            diagnostics.columns = self.equations.species_name.tolist()
         elif diagnostics.shape[1] == self.equations.num_reactions:  # a value for each reaction
-            diagnostics.columns = list(self.chemistry.get_reactions_id())
+            diagnostics.columns = self.equations.reactions_id.tolist()
         elif diagnostics.shape[1] == self.equations.num_species + 1:  # a value for each component of the y vector
-            diagnostics.columns = list(self.chemistry.get_species_name()) + ['rho']
+            diagnostics.columns = self.equations.species_name.tolist() + ['rho']
         else:  # one value for the whole system
             diagnostics.columns = ['value']
         # add the totals column:
-- 
2.43.0


From 1a762647590dcfb4d142ba096295db31442b63f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:49 +0000
Subject: [PATCH 35/45] fix: print production and consumption processes also
 with pandas 2

---
 pygmo_fwork/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index f1e63aa..7a588c1 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -427,7 +427,7 @@ class ResultsParser(object):
         surface_rates = \
             ResultsParser.get_surface_rates(sp=sp, chemistry=chemistry, model_params=model_params,
                                             wall_fluxes_frame=wall_fluxes_frame, annotate=True)
-        all_rates = volumetric_rates.append(surface_rates, verify_integrity=True)
+        all_rates = pd.concat([volumetric_rates, surface_rates], verify_integrity=True)
         production_rates = all_rates[all_rates > 0]
         # capping
         if n is None:
@@ -460,7 +460,7 @@ class ResultsParser(object):
         surface_rates = \
             ResultsParser.get_surface_rates(sp=sp, chemistry=chemistry, model_params=model_params,
                                             wall_fluxes_frame=wall_fluxes_frame, annotate=True)
-        all_rates = volumetric_rates.append(surface_rates, verify_integrity=True)
+        all_rates = pd.concat([volumetric_rates, surface_rates], verify_integrity=True)
         consumption_rates = all_rates[all_rates < 0]
         # capping
         if n is None:
-- 
2.43.0


From 328cbcb81442eb434c6cd6c95e15198ce1378c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:11 +0000
Subject: [PATCH 36/45] fix: copy chemistries of derived classes, such as
 neutral ones

---
 plaschem/chemistry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index a9fe644..2dc6ea7 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -96,7 +96,7 @@ class Chemistry(object):
         will still be sharing species and reactions objects.
         :return: (self instance)
         """
-        self_copy = Chemistry(species=self._species.values, reactions=self._reactions.values, xml_path=self.xml_path)
+        self_copy = self.__class__(species=self._species.values, reactions=self._reactions.values, xml_path=self.xml_path)
 
         # ENFORCE IDENTICAL STATE:
         # masks:
-- 
2.43.0


From 6c72adb1888dff6e0f5f8062e5023afeeb546314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:11 +0000
Subject: [PATCH 37/45] fix: dump ad-hoc attributes given as None

---
 plaschem/chemistry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 2dc6ea7..96bdf57 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -480,14 +480,16 @@ class Chemistry(object):
             for sp_i in sorted(self.adhoc_species_attributes[attr].index):  # must not depend on the order of setting
                 attr_value = self.adhoc_species_attributes[attr].at[sp_i]
                 # need to explicitly convert the value into the correct datatype (numpy data-types play up in yaml)
-                attr_value = RP.allowed_attribute_types[attr][0](attr_value)  # using RP.allowed_types lists
+                if attr_value is not None:
+                    attr_value = RP.allowed_attribute_types[attr][0](attr_value)  # using RP.allowed_types lists
                 adhoc_species_attributes.append([str(attr), int(sp_i), attr_value])
 
         adhoc_reactions_attributes = []
         for attr in self.adhoc_reactions_attributes:
             for r_i in sorted(self.adhoc_reactions_attributes[attr].index):
                 attr_value = self.adhoc_reactions_attributes[attr].at[r_i]
-                attr_value = Reaction.allowed_attribute_types[attr][0](attr_value)
+                if attr_value is not None:
+                    attr_value = Reaction.allowed_attribute_types[attr][0](attr_value)
                 adhoc_reactions_attributes.append([str(attr), int(r_i), attr_value])
 
         xml_path = str(self.xml_path) if self.xml_path else None
-- 
2.43.0


From bdac069e60b78f140c47ad2fdf176740c3f67126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:13 +0000
Subject: [PATCH 38/45] fix: dump ad-hoc attributes given as None as such also
 among numbers

---
 plaschem/chemistry.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 96bdf57..0722b61 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -479,8 +479,11 @@ class Chemistry(object):
         for attr in self.adhoc_species_attributes:
             for sp_i in sorted(self.adhoc_species_attributes[attr].index):  # must not depend on the order of setting
                 attr_value = self.adhoc_species_attributes[attr].at[sp_i]
-                # need to explicitly convert the value into the correct datatype (numpy data-types play up in yaml)
-                if attr_value is not None:
+                # need to explicitly convert the value into the correct datatype (numpy data-types play up in yaml), pandas
+                # might also have turned None into NaN (which would never compare as equal to the loaded one):
+                if pd.isna(attr_value):
+                    attr_value = None
+                else:
                     attr_value = RP.allowed_attribute_types[attr][0](attr_value)  # using RP.allowed_types lists
                 adhoc_species_attributes.append([str(attr), int(sp_i), attr_value])
 
@@ -488,7 +491,9 @@ class Chemistry(object):
         for attr in self.adhoc_reactions_attributes:
             for r_i in sorted(self.adhoc_reactions_attributes[attr].index):
                 attr_value = self.adhoc_reactions_attributes[attr].at[r_i]
-                if attr_value is not None:
+                if pd.isna(attr_value):
+                    attr_value = None
+                else:
                     attr_value = Reaction.allowed_attribute_types[attr][0](attr_value)
                 adhoc_reactions_attributes.append([str(attr), int(r_i), attr_value])
 
-- 
2.43.0


From 498dcdc3e1913ebbc317ff69d67e3166cb252966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:21 +0000
Subject: [PATCH 39/45] fix: rank no species as an empty ranking, rather than
 failing

---
 pygmo_fwork/optichem/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index cde33c9..e057690 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -541,7 +541,8 @@ class ChemistryGraph(object):
                         scores[sp] = max_flow
                 else:
                     raise ValueError('Unrecognised search method: {}'.format(search_method))
-                ranking_all.loc[index, :] = scores
+                # a list rather than dict, so there is an empty ranking if no species are left to be assessed
+                ranking_all.loc[index, :] = [scores.get(sp, np.nan) for sp in assessed_species]
 
         ranking = ranking_all.max(axis=0)
         # sort values (also first sorting by keys, so order for species with the same scores is consistent)
-- 
2.43.0


From 548f7803d35ac58564ac398b7460e716e4648385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:00 +0000
Subject: [PATCH 40/45] fix: wall fluxes of a neutral model failed for want of
 diffusivities

---
 pygmo_fwork/pygmol/neutral_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygmo_fwork/pygmol/neutral_model.py b/pygmo_fwork/pygmol/neutral_model.py
index 3a64024..e0d080d 100644
--- a/pygmo_fwork/pygmol/neutral_model.py
+++ b/pygmo_fwork/pygmol/neutral_model.py
@@ -67,6 +67,8 @@ class NeutralEquations(Equations):
         return self.sigma_sc
 
     def get_diffusivities(self, y, diff_c_free=None, diff_a_pos=None, diff_a_neg=None):
+        if diff_c_free is None:
+            diff_c_free = self.get_free_diffusivities(y)
         return diff_c_free
 
     # redefine the objective function factory, so it does not calculate unnecessary clutter
-- 
2.43.0


From d74ffc07dd359751ca77ef2c14e8744e9dd126dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:00 +0000
Subject: [PATCH 41/45] fix: read logged solutions, rates and wall fluxes back
 as exactly as they were logged

---
 pygmo_fwork/optichem/reduction.py | 2 +-
 pygmo_fwork/results.py            | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pygmo_fwork/optichem/reduction.py b/pygmo_fwork/optichem/reduction.py
index b62ed86..2737738 100644
--- a/pygmo_fwork/optichem/reduction.py
+++ b/pygmo_fwork/optichem/reduction.py
@@ -146,7 +146,7 @@ class ReductionIterator(object):
             log_path = os.path.join(self.reduction_run_dir, run_id, file_name)
             if log_flag and self.compress_logs:
                 # Compress the log. Faster than calling model.run with compress=True, if not saving all logs.
-                log = pd.read_csv(log_path, index_col=0)
+                log = pd.read_csv(log_path, index_col=0, float_precision='round_trip')
                 log = ResultsParser.compress_solution(log, diff_threshold=0.05, min_timestep=0.001)
                 log.to_csv(log_path)
             elif not log_flag:  # remove the log if logging turned off for this file...
diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index 7a588c1..b14839d 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -162,7 +162,8 @@ class ResultsParser(object):
         sol_path = os.path.join(run_dir, file_name)
         if not os.path.isfile(sol_path):
             raise ResultsNotFoundError('Solution not found in "{}"!'.format(sol_path))
-        solution = pd.read_csv(sol_path, index_col=0)  # read the solution from the csv log file
+        # read the solution from the csv log file, as exactly as it was logged
+        solution = pd.read_csv(sol_path, index_col=0, float_precision='round_trip')
         return solution
 
     def fetch_rates(self, run_id, backend=None, results_dir=None, file_name=None):
@@ -189,7 +190,7 @@ class ResultsParser(object):
         rates_path = os.path.join(run_dir, file_name)
         if not os.path.isfile(rates_path):
             raise ResultsNotFoundError('Rates not found in "{}"!'.format(rates_path))
-        rates = pd.read_csv(rates_path, index_col=0)  # read the csv into a DataFrame
+        rates = pd.read_csv(rates_path, index_col=0, float_precision='round_trip')  # read the csv into a DataFrame
         # change the columns for reaction ids from str to int...
         columns = np.array(rates.columns, dtype=object)
         columns[1:] = np.array(columns[1:], dtype=int)
@@ -220,7 +221,8 @@ class ResultsParser(object):
         wall_fluxes_path = os.path.join(run_dir, file_name)
         if not os.path.isfile(wall_fluxes_path):
             raise ResultsNotFoundError('Wall fluxes not found in "{}"!'.format(wall_fluxes_path))
-        wall_fluxes = pd.read_csv(wall_fluxes_path, index_col=0)  # read the csv into a DataFrame
+        # read the csv into a DataFrame
+        wall_fluxes = pd.read_csv(wall_fluxes_path, index_col=0, float_precision='round_trip')
         return wall_fluxes
 
     @staticmethod
-- 
2.43.0


From 81237700ac9a1596dcfc92ca19da370cf58401b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:48 +0000
Subject: [PATCH 42/45] fix: leave disabled species out of the return
 coefficients of a dumped chemistry

A chemistry with a disabled species, dumped by XmlBuilder.add_chemistry_from_instance, kept the return
coefficients onto the disabled species, and Chemistry(xml_path=...) refused the file.
---
 plaschem/xml_inputs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plaschem/xml_inputs.py b/plaschem/xml_inputs.py
index ea03810..b7f77d2 100644
--- a/plaschem/xml_inputs.py
+++ b/plaschem/xml_inputs.py
@@ -444,6 +444,12 @@ class XmlBuilder(object):
             self.add_reaction_from_instance(r)
         # restore the species order as it was defined in the Chemistry instance:
         self.species.sort(key=lambda x: sp_ids.index(int(x.attrib['id'])))
+        # species, which are disabled in the Chemistry instance, cannot be returned from the surface either:
+        for ret_coefs_xml in [rp_xml.find('ret_coefs') for rp_xml in self.species]:
+            if ret_coefs_xml is not None:
+                for ret_sp_xml in list(ret_coefs_xml):
+                    if ret_sp_xml.attrib['rp'] not in self.species_dict:
+                        ret_coefs_xml.remove(ret_sp_xml)
 
     def add_chemistry_from_xml(self, xml_path):
         """Method to add all reaction and rp xml elements from a previously saved xml file. This will only add species
-- 
2.43.0


From b178a3b7ba66395995acd759e63cf0ff6eecb914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:43 +0000
Subject: [PATCH 43/45] fix: compress solutions with a non-contiguous index

A solution read back from compressed logs has gaps in its index, and compressing it failed with a KeyError,
or compared the wrong frames.
---
 pygmo_fwork/results.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index b14839d..84be410 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -504,8 +504,8 @@ class ResultsParser(object):
             while True:
                 if next_index >= len(full_sol.index) - 1:
                     break
-                diff = abs(full_sol.loc[next_index] - full_sol.loc[front_index])
-                rel_diff = diff/full_sol.loc[front_index]
+                diff = abs(full_sol.iloc[next_index] - full_sol.iloc[front_index])
+                rel_diff = diff/full_sol.iloc[front_index]
                 if diff['t'] < min_step_abs:
                     drop_index.add(next_index)
                     next_index += 1
@@ -516,7 +516,8 @@ class ResultsParser(object):
                     break
             front_index = next_index
 
-        compressed_sol = full_sol.drop(drop_index, axis=0)
+        # the index might be non-contiguous (e.g. if the full_sol was itself logged as compressed):
+        compressed_sol = full_sol.iloc[[i for i in range(len(full_sol.index)) if i not in drop_index]].copy()
 
         return compressed_sol
 
-- 
2.43.0


From fd5d605f08f2a879c39ffa69195cdadef0fd9737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:19 +0000
Subject: [PATCH 44/45] fix: pretty-print annotated arrays also with pandas 2

Series.append and DataFrame.append, removed in pandas 2, made PrettyPrint.print fail for every annotated array.
---
 plaschem/pretty_print.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plaschem/pretty_print.py b/plaschem/pretty_print.py
index 303e3d1..57f959e 100644
--- a/plaschem/pretty_print.py
+++ b/plaschem/pretty_print.py
@@ -78,8 +78,8 @@ class PrettyPrint(object):
             columns_labels = pd.Series([ColorValue(str(a)) for a in columns_labels_objects],
                                        index=columns_labels_objects.index)
             to_print.insert(0, -1, index_labels[to_print.index])
-            columns_labels = pd.Series([ColorValue(''), ], index=[-1]).append(columns_labels)
-            to_print = pd.DataFrame(columns_labels[to_print.columns]).T.append(to_print)
+            columns_labels = pd.concat([pd.Series([ColorValue(''), ], index=[-1]), columns_labels])
+            to_print = pd.concat([pd.DataFrame(columns_labels[to_print.columns]).T, to_print])
 
         # colorcode the disabled values:
         for i in getattr(self.chemistry, 'get_disabled_{}'.format(structure['index']))().index:
-- 
2.43.0


From 3c9456d2d2f229c7fcc3ea8e684f9df554a1571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:19 +0000
Subject: [PATCH 45/45] fix: forget the aligned reaction strings when the
 species are sorted

Reaction strings got from a classifier before sorting its species were kept in the old order of species, or
aligned by the old order, although species indices are looked up again after sorting.
---
 plaschem/classification.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plaschem/classification.py b/plaschem/classification.py
index 783140a..005b5f7 100644
--- a/plaschem/classification.py
+++ b/plaschem/classification.py
@@ -216,7 +216,9 @@ class ReactionClassifier(object):
         self.species.sort(key=self._get_species_sort_key)
         # reset dependencies:
         self._classified_reactions = OrderedDict()
+        self._alignments = dict()
         self._memo_species_index = dict()
+        self._memo_reactions_sorted_species_names = dict()
 
     def _species_index(self, sp):
         """This is just getting index of a species inside the self.species list. Only here to optimise the lookup
-- 
2.43.0

