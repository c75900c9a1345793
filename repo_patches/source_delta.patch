From ba0900e854f3460c183fff22acd7fdde0515ce3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 01/84] fix: hash table iterator and constituent table with no
 entries

Initializing an iterator on an empty hash table ran off the end of the
table (out-of-bounds read, then an endless loop), so locking a constituent
table that holds no constituent crashed.
---
 src/ccpp_constituent_prop_mod.F90 | 2 +-
 src/ccpp_hash_table.F90           | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 1601957..ca531e6 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1258,7 +1258,7 @@ CONTAINS
       ! Clear any data
       call this%reset()
       ! Figure a log base 2 for initializing hash table
-      tbl_size = num_elements * 10 ! Hash padding
+      tbl_size = MAX(num_elements, 1) * 10 ! Hash padding
       tbl_size = int((log(real(tbl_size, kind_phys)) / log(2.0_kind_phys)) +  &
            1.0_kind_phys)
       ! Initialize hash table
diff --git a/src/ccpp_hash_table.F90 b/src/ccpp_hash_table.F90
index 147ca5f..959bb62 100644
--- a/src/ccpp_hash_table.F90
+++ b/src/ccpp_hash_table.F90
@@ -403,10 +403,12 @@ CONTAINS
       nullify(this%table_entry)
       do
          this%index = this%index + 1
-         if (associated(hash_table%table(this%index)%entry_value)) then
-            exit
-         else if (this%index > hash_table%table_size) then
+         if (this%index > hash_table%table_size) then
+            ! The table is empty, this iterator has no valid entry
             this%index = 0
+            exit
+         else if (associated(hash_table%table(this%index)%entry_value)) then
+            exit
          end if
       end do
    end subroutine hash_iterator_initialize
-- 
2.43.0


From 28a18c24bf049b9376f4d494382f312538449718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 02/84] fix: resetting a constituent object left it locked

reset() released the data but kept the lock flags, so the object could not
be initialized and filled again and reported data it no longer had.
---
 src/ccpp_constituent_prop_mod.F90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index ca531e6..5fc1bba 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1570,6 +1570,8 @@ CONTAINS
          end if
          deallocate(this%const_metadata)
       end if
+      this%table_locked = .false.
+      this%data_locked = .false.
       if (clear_table) then
          this%num_layer_vars = 0
          this%num_advected_vars = 0
-- 
2.43.0


From d2f7e7fcc4223b0e5b233b7e581de055116a7cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 03/84] fix: deallocated constituent properties leaked into the
 next use

deallocate() left units, minimum, molar mass and the thermo_active and
water_species flags behind; instantiating the object again inherited them.
---
 src/ccpp_constituent_prop_mod.F90 | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 5fc1bba..3ed7815 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -479,13 +479,20 @@ CONTAINS
       if (allocated(this%var_long_name)) then
          deallocate(this%var_long_name)
       end if
+      if (allocated(this%var_units)) then
+         deallocate(this%var_units)
+      end if
       if (allocated(this%vert_dim)) then
          deallocate(this%vert_dim)
       end if
       this%const_ind = int_unassigned
       this%advected = .false.
+      this%thermo_active = .false.
+      this%water_species = .false.
       this%const_type = int_unassigned
       this%const_water = int_unassigned
+      this%min_val = 0.0_kind_phys
+      this%molar_mass_val = kphys_unassigned
       this%const_default_value = kphys_unassigned
 
    end subroutine ccp_deallocate
-- 
2.43.0


From 77eacaa49d87234542a21b51602405fb5dfd57af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 04/84] fix: failed allocation of constituent data crashed or
 became permanent

lock_data() initialized the tendency array even if allocating it (or the
field array) had failed, and kept a partial allocation which made every
later attempt fail.
---
 src/ccpp_constituent_prop_mod.F90 | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 3ed7815..53e4bea 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1514,9 +1514,18 @@ CONTAINS
                  subname, errcode=errcode, errmsg=errmsg)
             errcode_local = astat
          end if
-         ! Initialize tendencies to 0
-         this%vars_layer_tend(:,:,:) = 0._kind_phys
+         if (astat /= 0) then
+            ! Release anything allocated above so that the call can be repeated
+            if (allocated(this%vars_layer)) then
+               deallocate(this%vars_layer)
+            end if
+            if (allocated(this%vars_layer_tend)) then
+               deallocate(this%vars_layer_tend)
+            end if
+         end if
          if (errcode_local == 0) then
+            ! Initialize tendencies to 0
+            this%vars_layer_tend(:,:,:) = 0._kind_phys
             this%num_layers = num_layers
             do index = 1, this%hash_table%num_values()
                !Set all constituents to their default values:
-- 
2.43.0


From a8f61d131d94e307c48cc2f4d3e1853ad1b439c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 05/84] fix: okay_to_add added its error to an undefined error
 code

The error code is intent(out); with a stale -1 from the caller the reported
code became zero, that is, success.
---
 src/ccpp_constituent_prop_mod.F90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 53e4bea..d0dc82e 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1168,6 +1168,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccp_model_const_okay_to_add'
 
+      call initialize_errvars(errcode, errmsg)
       ccp_model_const_okay_to_add = this%hash_table%is_initialized()
       if (ccp_model_const_okay_to_add) then
          ccp_model_const_okay_to_add = .not. (this%const_props_locked(errcode=errcode,     &
-- 
2.43.0


From 45fbf4ddda2f2ddca09768a7af540c5fba63cbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 06/84] fix: hash table messages for long keys overran the
 message variable

The list-directed internal writes stop the program when the text does not
fit, so looking up (and hence registering) a long standard name aborted.
---
 src/ccpp_hash_table.F90 | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ccpp_hash_table.F90 b/src/ccpp_hash_table.F90
index 959bb62..fc190d3 100644
--- a/src/ccpp_hash_table.F90
+++ b/src/ccpp_hash_table.F90
@@ -262,7 +262,7 @@ CONTAINS
 
       if ((.not. associated(tbl_val)) .and. present(errmsg)) then
          if (.not. have_error(errmsg)) then ! Still need to test for empty
-            write(errmsg, *) subname, ": No entry for '", trim(key), "'"
+            errmsg = subname//": No entry for '"//trim(key)//"'"
          end if
       end if
 
@@ -302,8 +302,7 @@ CONTAINS
          errmsg = trim(errmsg)//', called from '//subname
       else if (associated(this%table_value(newkey))) then
          if (present(errmsg)) then
-            write(errmsg, *) subname, " ERROR: key, '", newkey,               &
-                 "' already in table"
+            errmsg = subname//" ERROR: key, '"//newkey//"' already in table"
          end if
       else
          if (associated(this%table(hash_ind)%entry_value)) then
-- 
2.43.0


From f39f7b83b09fd0414549fd1d0832af72d155b241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 07/84] fix: lock_table used the constituent array after
 failing to allocate it

The allocation status was reported but not acted on; the first constituent
which is not advected was then stored in the unallocated array.
---
 src/ccpp_constituent_prop_mod.F90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index d0dc82e..24a9e6a 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1351,6 +1351,7 @@ CONTAINS
          allocate(this%const_metadata(num_vars), stat=astat)
          call handle_allocate_error(astat, 'const_metadata',                  &
               subname, errcode=errcode, errmsg=errmsg)
+         errcode_local = astat
          ! We want to pack the advected constituents at the beginning of
          !   the field array so we need to know how many there are
          if (astat == 0) then
-- 
2.43.0


From a7911d3ec2e0406c5dc90d696203bccaa19ea662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 08/84] fix: lock_table accepted an object which was never
 initialized

The error of the lock query was cleared again and the lookup table, which
does not exist, was read.
---
 src/ccpp_constituent_prop_mod.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 24a9e6a..510e6cf 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1342,7 +1342,7 @@ CONTAINS
               "WARNING: Model constituents properties already locked, ignoring", &
               subname, errcode=errcode, errmsg=errmsg)
          errcode_local = 1
-      else
+      else if (this%hash_table%is_initialized()) then
          ! Make sure everything is really initialized
          call this%reset(clear_hash_table=.false.)
          this%num_advected_vars = 0
-- 
2.43.0


From 711d40565f47b4d87563ef85f3f079323a9237d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 09/84] fix: constituent messages for long names overran the
 message variable

---
 src/ccpp_constituent_prop_mod.F90 | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 510e6cf..5b1308c 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -395,8 +395,9 @@ CONTAINS
 
       if (this%is_instantiated()) then
          errcode = 1
-         write(errmsg, *) 'ccpp_constituent_properties_t object, ',        &
-              trim(std_name), ', is already initialized as ', this%var_std_name
+         errmsg = ' ccpp_constituent_properties_t object, '//              &
+              trim(std_name)//', is already initialized as '//             &
+              this%var_std_name
       else
          errcode = 0
          errmsg = ''
@@ -2490,8 +2491,8 @@ CONTAINS
       if (associated(this%prop)) then
          call this%standard_name(stdname, errcode=errcode, errmsg=errmsg2)
          if (errcode == 0) then
-            write(errmsg2, *) "Pointer already allocated as '",               &
-                 trim(stdname), "'"
+            errmsg2 = " Pointer already allocated as '"//                     &
+                 trim(stdname)//"'"
          end if
          errcode = errcode + 1
          call append_errvars(1, trim(errmsg2), subname, errcode=errcode,      &
-- 
2.43.0


From 50407e15f1d69412318f78a5ba1046919a1379f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 10/84] fix: repeated registration and suites without dynamic
 constituents

---
 scripts/host_cap.py | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/scripts/host_cap.py b/scripts/host_cap.py
index f1d2880..20d4014 100644
--- a/scripts/host_cap.py
+++ b/scripts/host_cap.py
@@ -605,7 +605,8 @@ def write_host_cap(host_model, api, module_name, output_dir, run_env):
             # Create a dict of local variables for stage
             host_local_vars = VarDictionary(f"{host_model.name}_{stage}",
                                             run_env)
-            has_dyn_consts = False
+            # Names of the dynamic constituent arrays of each suite
+            suite_dyn_consts = {suite.name : [] for suite in api.suites}
             # Create part call lists
             # Look for any loop-variable mismatch
             for suite in api.suites:
@@ -621,9 +622,16 @@ def write_host_cap(host_model, api, module_name, output_dir, run_env):
                                              'local_name' : sp_var.get_prop_value('local_name'),
                                              'dimensions' : '(:)', 'units' : 'none',
                                              'allocatable' : True, 'ddt_type' : 'ccpp_constituent_properties_t'}
-                                newvar = Var(prop_dict, _API_SOURCE, run_env)
-                                host_local_vars.add_variable(newvar, run_env)
-                                has_dyn_consts = True
+                                lname = sp_var.get_prop_value('local_name')
+                                # Suites may share a dynamic constituent array
+                                hvar = host_local_vars.find_variable(standard_name=stdname,
+                                                                     any_scope=False)
+                                if ((hvar is None) or
+                                    (hvar.get_prop_value('local_name') != lname)):
+                                    newvar = Var(prop_dict, _API_SOURCE, run_env)
+                                    host_local_vars.add_variable(newvar, run_env)
+                                # end if
+                                suite_dyn_consts[suite.name].append(lname)
                                 continue
                             else:
                                 errmsg = f'ccpp_constituent_properties_t object "{stdname}" not allowed in "{spart.phase()}" phase'
@@ -639,7 +647,7 @@ def write_host_cap(host_model, api, module_name, output_dir, run_env):
                     # End for (loop over part variables)
                 # End for (loop of suite parts)
             # End for (loop over suites)
-            if has_dyn_consts:
+            if any(suite_dyn_consts.values()):
                 prop_dict = {'standard_name' : 'unused_count',
                              'local_name' : 'num_dyn_consts',
                              'dimensions' : '()', 'units' : 'count',
@@ -748,27 +756,22 @@ def write_host_cap(host_model, api, module_name, output_dir, run_env):
                     cap.write("return", 4)
                     cap.write("end if", 3)
                     # Allocate the suite's dynamic constituents array
+                    dyn_consts = suite_dyn_consts[suite.name]
                     size_string = "0+"
-                    for var in host_local_vars.variable_list():
-                        vtype = var.get_prop_value('type')
-                        if vtype == 'ccpp_constituent_properties_t':
-                            local_name = var.get_prop_value('local_name')
-                            size_string += f"size({local_name})+"
-                        # end if
+                    for local_name in dyn_consts:
+                        size_string += f"size({local_name})+"
                     # end for
-                    if not has_dyn_consts:
+                    if not dyn_consts:
                         cap.comment("Suite does not return dynamic constituents; allocate to zero", 3)
                     # end if
+                    cap.write(f"if (allocated({dyn_const_array})) then", 3)
+                    cap.write(f"deallocate({dyn_const_array})", 4)
+                    cap.write("end if", 3)
                     cap.write(f"allocate({dyn_const_array}({size_string[:-1]}))", 3)
-                    if has_dyn_consts:
+                    if dyn_consts:
                         cap.comment("Pack the suite-level dynamic, run-time constituents array", 3)
                         cap.write("num_dyn_consts = 0", 3)
-                    for var in host_local_vars.variable_list():
-                        vtype = var.get_prop_value('type')
-                        if vtype != 'ccpp_constituent_properties_t':
-                            continue
-                        # end if
-                        local_name = var.get_prop_value('local_name')
+                    for local_name in dyn_consts:
                         cap.write(f"do const_index = 1, size({local_name})", 3)
                         cap.write(f"{dyn_const_array}(num_dyn_consts + const_index) = {local_name}(const_index)", 4)
                         cap.write("end do", 3)
-- 
2.43.0


From bf1f645dbc1e99bdbc3de2421b693812fdfd545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 11/84] fix: clashing local names of schemes produced wrong or
 uncompilable caps

---
 scripts/ccpp_suite.py    | 42 ++++++++++++++++++++++++++++++++++++++++
 scripts/metavar.py       |  8 ++++++--
 scripts/suite_objects.py |  5 ++++-
 3 files changed, 52 insertions(+), 3 deletions(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index d2634c8..f7ff8ec 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -102,6 +102,8 @@ character(len=16) :: {css_var_name} = '{state}'
         self.__full_groups = {}
         self._full_phases = {}
         self.__gvar_stdnames = {} # Standard names of group-created vars
+        self.__scheme_lnames = None # Standard names for each scheme local name
+        self.__managed_lnames = {} # Standard names of group-created local names
         # Initialize our dictionary
         # Create a 'parent' to hold the constituent variables
         # The parent for the constituent dictionary is the API.
@@ -126,6 +128,46 @@ character(len=16) :: {css_var_name} = '{state}'
         """Get the name of the suite definition file."""
         return self.__sdf_name
 
+    def managed_local_name(self, newvar, scheme_library):
+        """Return a local name for <newvar>, a variable which will be declared
+        by this suite or by one of its groups.
+        The name must be different from any name used for another variable by
+        a scheme, the host model, or by this suite because all of these may
+        be visible where <newvar> is used."""
+        stdname = newvar.get_prop_value('standard_name')
+        if self.__scheme_lnames is None:
+            self.__scheme_lnames = {}
+            for entries in scheme_library.values():
+                for header in entries.values():
+                    for var in header.variable_list():
+                        lname = var.get_prop_value('local_name').lower()
+                        vset = self.__scheme_lnames.setdefault(lname, set())
+                        vset.add(var.get_prop_value('standard_name'))
+                    # end for
+                # end for
+            # end for
+        # end if
+        base = newvar.get_prop_value('local_name')
+        new_lname = base
+        index = 0
+        while True:
+            lname = new_lname.lower()
+            users = set(self.__scheme_lnames.get(lname, set()))
+            users.add(self.__managed_lnames.get(lname, stdname))
+            uvar = self.find_local_name(lname, any_scope=True)
+            if uvar is not None:
+                users.add(uvar.get_prop_value('standard_name'))
+            # end if
+            if users == {stdname}:
+                break
+            # end if
+            index += 1
+            # (different from the unique names given to dummy arguments)
+            new_lname = f"{base}_suite{index}"
+        # end while
+        self.__managed_lnames[new_lname.lower()] = stdname
+        return new_lname
+
     @classmethod
     def check_suite_state(cls, stage):
         """Return a list of CCPP state check statements for <stage>"""
diff --git a/scripts/metavar.py b/scripts/metavar.py
index 35878bc..b6776e3 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1683,6 +1683,7 @@ class VarDictionary(OrderedDict):
             if gen_unique:
                 new_lname = self.new_internal_variable_name(prefix=lname)
                 newvar = newvar.clone(new_lname)
+                lname = new_lname
             elif not exists_ok:
                 errstr = 'Invalid local_name: {} already registered{}'
                 cstr = context_string(lvar.source.context, with_comma=True)
@@ -1713,6 +1714,10 @@ class VarDictionary(OrderedDict):
         Ignore if <standard_name> is not in dict
         """
         if standard_name in self:
+            lname = self[standard_name].get_prop_value('local_name').lower()
+            if self.__local_names.get(lname) == standard_name:
+                del self.__local_names[lname]
+            # end if
             del self[standard_name]
         # end if
 
@@ -2085,7 +2090,6 @@ class VarDictionary(OrderedDict):
         else:
             var_prefix = '{}'.format(prefix)
         # end if
-        varlist = [x for x in self.__local_names.keys() if var_prefix in x]
         newvar = None
         while newvar is None:
             if index == 0:
@@ -2097,7 +2101,7 @@ class VarDictionary(OrderedDict):
             if len(newvar) > max_len:
                 var_prefix = var_prefix[:-1]
                 newvar = None
-            elif newvar in varlist:
+            elif newvar.lower() in self.__local_names:
                 newvar = None
             # end if
         # end while
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 4fac98b..a4b4b10 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2180,6 +2180,7 @@ class Group(SuiteObject):
         self._phase_check_stmts = list()
         self._set_state = None
         self._ddt_library = None
+        self._scheme_library = {}
         self.transform_locals = list()
 
     def phase_match(self, scheme_name):
@@ -2259,7 +2260,8 @@ class Group(SuiteObject):
         # end if
         # Start with an official copy of <newvar>'s prop_dict with
         #      corrected dimensions
-        subst_dict = {'dimensions':vdims}
+        lname = self.suite.managed_local_name(newvar, self._scheme_library)
+        subst_dict = {'dimensions':vdims, 'local_name':lname}
         prop_dict = newvar.copy_prop_dict(subst_dict=subst_dict)
         # Add the allocatable items
         prop_dict['allocatable'] = len(vdims) > 0 # No need to allocate scalar
@@ -2286,6 +2288,7 @@ class Group(SuiteObject):
                 check_suite_state, set_suite_state):
         """Analyze the Group's interface to prepare for writing"""
         self._ddt_library = ddt_library
+        self._scheme_library = scheme_library
         # Sanity check for Group
         if phase != self.phase():
             errmsg = 'Group {} has phase {} but analyze is phase {}'
-- 
2.43.0


From fa7005c53c07ecd892eaeab5e513ef37d98079c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 12/84] fix: transforms of intent(out), suite and
 early-dimension arguments

---
 scripts/suite_objects.py | 149 +++++++++++++++++++++++++++++++--------
 1 file changed, 119 insertions(+), 30 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index a4b4b10..9107ec3 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -112,7 +112,8 @@ class CallList(VarDictionary):
         <is_func_call> should be set to True to construct a call statement.
         If <is_func_call> is False, construct a subroutine dummy argument
         list.
-        <sub_lname_list> may be a list of local_name substitutions.
+        <sub_lname_list> may be a list of local_name substitutions, each one
+        a tuple (<substitute local name>, <standard name>).
         """
         arg_str = ""
         arg_sep = ""
@@ -160,10 +161,12 @@ class CallList(VarDictionary):
                 # Are there any variable transforms for this scheme?
                 # If so, change Var's local_name need to local dummy array containing
                 # transformed argument, var_trans_local.
+                is_transform = False
                 if sub_lname_list:
-                    for (var_trans_local, var_lname, sname, rindices, lindices, compat_obj) in sub_lname_list:
+                    for (var_trans_local, sname) in sub_lname_list:
                         if (sname == stdname):
                             lname = var_trans_local
+                            is_transform = True
                         # end if
                     # end for
                 # end if
@@ -175,7 +178,9 @@ class CallList(VarDictionary):
                     # end if
                     run_phase = self.routine.run_phase()
                     # We only need dimensions for suite variables in run phase
-                    need_dims = SuiteObject.is_suite_variable(dvar) and run_phase
+                    # (the local copy of a transform has the scheme's shape)
+                    need_dims = (SuiteObject.is_suite_variable(dvar) and
+                                 run_phase and (not is_transform))
                     vdims = var.call_dimstring(var_dicts=use_dicts,
                                                explicit_dims=need_dims,
                                                loop_subst=run_phase)
@@ -1620,6 +1625,52 @@ class Scheme(SuiteObject):
             # end if
         # end if
 
+    def __dim_local_name(self, dim_name):
+        """Return the name by which our group knows the dimension variable
+        with standard name, <dim_name>. The variable is added to the group's
+        call list if it is not available there (e.g., because the scheme
+        does not use it or uses it later in its argument list)."""
+        dvar = self.__group.call_list.find_variable(standard_name=dim_name)
+        if dvar is None:
+            self.__group.add_loop_variable(dim_name)
+            dvar = self.__group.find_variable(standard_name=dim_name)
+            if dvar is None:
+                emsg = "add_var_transform: Cannot find dimension variable, {}"
+                raise CCPPError(emsg.format(dim_name))
+            # end if
+            if ((dim_name not in CCPP_CONSTANT_VARS) and
+                (dvar.source.ptype not in _API_LOCAL_VAR_TYPES)):
+                self.__group.add_call_list_variable(dvar, exists_ok=True,
+                                                    gen_unique=True)
+                gvar = self.__group.call_list.find_variable(standard_name=dim_name)
+                if gvar is not None:
+                    dvar = gvar
+                # end if
+            # end if
+        # end if
+        return dvar.get_prop_value('local_name')
+
+    def __transform_local_name(self, var):
+        """Return a local name for the transformed copy of <var>. Schemes in
+        our group may use the same local name for different variables (or for
+        another kind of the same variable)."""
+        base = var.get_prop_value('local_name') + '_local'
+        lname = base
+        count = 0
+        while True:
+            clash = [x for x in self.__group.transform_locals
+                     if x.get_prop_value('local_name').lower() == lname.lower()]
+            same = all(x.get_prop_value(p) == var.get_prop_value(p)
+                       for x in clash for p in ('standard_name', 'type', 'kind',
+                                                'dimensions', 'optional'))
+            if same and (self.__group.call_list.find_local_name(lname) is None):
+                break
+            # end if
+            count += 1
+            lname = f"{base}{count}"
+        # end while
+        return lname
+
     def add_var_transform(self, var, compat_obj, vert_dim):
         """Register any variable transformation needed by <var> for this Scheme.
         For any transformation identified in <compat_obj>, create dummy variable
@@ -1630,7 +1681,7 @@ class Scheme(SuiteObject):
         # Do not let the Group manage this variable. Handle local var
         # when writing Group.
         prop_dict = var.copy_prop_dict()
-        prop_dict['local_name'] = var.get_prop_value('local_name')+'_local'
+        prop_dict['local_name'] = self.__transform_local_name(var)
         # This is a local variable.
         if 'intent' in prop_dict:
             del prop_dict['intent']
@@ -1639,11 +1690,17 @@ class Scheme(SuiteObject):
                               ParseSource(_API_SOURCE_NAME,
                                           _API_LOCAL_VAR_NAME, var.context),
                               self.run_env)
-        found = self.__group.find_variable(source_var=local_trans_var, any_scope=False)
+        lname = local_trans_var.get_prop_value('local_name')
+        found = [x for x in self.__group.transform_locals
+                 if x.get_prop_value('local_name') == lname]
         if not found:
             lmsg = "Adding new local variable, '{}', for variable transform"
             self.run_env.logger.info(lmsg.format(local_trans_var.get_prop_value('local_name')))
             self.__group.transform_locals.append(local_trans_var)
+            # The dimensions are needed to allocate this variable
+            for dim_name in local_trans_var.get_dim_stdnames(include_constants=False):
+                self.__dim_local_name(dim_name)
+            # end for
         # end if
 
         # Create indices (default) for transform.
@@ -1654,19 +1711,9 @@ class Scheme(SuiteObject):
         _, vdim    = find_vertical_dimension(var.get_dimensions())
         if vdim >= 0:
            vdims  = vert_dim.split(':')
-           vdim_name  = vdims[-1]
-           group_vvar = self.__group.call_list.find_variable(vdim_name)
-           if group_vvar is None:
-               raise CCPPError(f"add_var_transform: Cannot find dimension variable, {vdim_name}")
-           # end if
-           vname = group_vvar.get_prop_value('local_name')
+           vname  = self.__dim_local_name(vdims[-1])
            if len(vdims) == 2:
-               sdim_name = vdims[0]
-               group_vvar = self.find_variable(sdim_name)
-               if group_vvar is None:
-                   raise CCPPError(f"add_var_transform: Cannot find dimension variable, {sdim_name}")
-               # end if
-               sname = group_vvar.get_prop_value('local_name')
+               sname = self.__dim_local_name(vdims[0])
            else:
                sname = '1'
            # end if
@@ -1678,10 +1725,8 @@ class Scheme(SuiteObject):
            # end if
         # end if
 
-        # If needed, modify horizontal dimension for loop substitution.
-        # NOT YET IMPLEMENTED
-        #hdim = find_horizontal_dimension(var.get_dimensions())
-        #if compat_obj.has_dim_transforms:
+        # The horizontal dimension of a suite variable is modified for loop
+        # substitution when the transform is written (see transform_source).
 
         # Register any reverse (pre-Scheme) transforms. Also, save local_name used in
         # transform (used in write stage).
@@ -1708,6 +1753,34 @@ class Scheme(SuiteObject):
                                               local_trans_var.get_prop_value('local_name'),
                                               lindices, rindices, compat_obj])
         # end if
+
+    def transform_source(self, standard_name, indices, cldicts):
+        """Return the local name of the variable, <standard_name>, which is
+        transformed before or after this Scheme along with <indices> adjusted
+        for that variable.
+        As a suite variable always covers the entire horizontal dimension,
+        only the current section of it is addressed during the run phase."""
+        for cldict in cldicts:
+            lvar = cldict.find_variable(standard_name=standard_name,
+                                        any_scope=False)
+            if lvar is not None:
+                break
+            # end if
+        # end for
+        if lvar is None:
+            raise CCPPError(f"{self.name}: transform variable, '{standard_name}', not found")
+        # end if
+        if self.is_suite_variable(lvar) and self.run_phase():
+            _, hdim = find_horizontal_dimension(lvar.get_dimensions())
+            if hdim >= 0:
+                lbeg = self.__dim_local_name('horizontal_loop_begin')
+                lend = self.__dim_local_name('horizontal_loop_end')
+                indices = list(indices)
+                indices[hdim] = f"{lbeg}:{lend}"
+            # end if
+        # end if
+        return lvar.get_prop_value('local_name'), indices
+
     def write_var_transform(self, var, dummy, rindices, lindices, compat_obj,
                             outfile, indent, forward):
         """Write variable transformation needed to call this Scheme in <outfile>.
@@ -1747,10 +1820,14 @@ class Scheme(SuiteObject):
         #    or our module
         cldicts = [self.__group, self.__group.call_list]
         cldicts.extend(self.__group.suite_dicts())
+        # Any variable with a transform (either direction) is passed to the
+        #    scheme through its local transform variable.
+        trans_lnames = [(x[0], x[2]) for x in self.__reverse_transforms]
+        trans_lnames.extend([(x[2], x[1]) for x in self.__forward_transforms])
         my_args = self.call_list.call_string(cldicts=cldicts,
                                              is_func_call=True,
                                              subname=self.subroutine_name,
-                                             sub_lname_list = self.__reverse_transforms)
+                                             sub_lname_list=trans_lnames)
         #
         outfile.write('', indent)
         outfile.write('if ({} == 0) then'.format(errcode), indent)
@@ -1782,10 +1859,9 @@ class Scheme(SuiteObject):
             # Any transform(s) were added during the Group's analyze phase, but
             # the local_name(s) of the <var> assoicated with the transform(s)
             # may have since changed. Here we need to use the standard_name
-            # from <var> and replace its local_name with the local_name from the
-            # Group's call_list.
-            lvar       = self.__group.call_list.find_variable(standard_name=var_sname)
-            lvar_lname = lvar.get_prop_value('local_name')
+            # from <var> and replace its local_name with the local_name of the
+            # variable in the Group (or its Suite).
+            lvar_lname, rindices = self.transform_source(var_sname, rindices, cldicts)
             tstmt = self.write_var_transform(lvar_lname, dummy, rindices, lindices, compat_obj, outfile, indent+1, False)
         # end for
         outfile.write('',indent+1)
@@ -1830,10 +1906,9 @@ class Scheme(SuiteObject):
             # Any transform(s) were added during the Group's analyze phase, but
             # the local_name(s) of the <var> assoicated with the transform(s)
             # may have since changed. Here we need to use the standard_name
-            # from <var> and replace its local_name with the local_name from the
-            # Group's call_list.
-            lvar       = self.__group.call_list.find_variable(standard_name=var_sname)
-            lvar_lname = lvar.get_prop_value('local_name')
+            # from <var> and replace its local_name with the local_name of the
+            # variable in the Group (or its Suite).
+            lvar_lname, rindices = self.transform_source(var_sname, rindices, cldicts)
             tstmt = self.write_var_transform(lvar_lname, dummy, rindices, lindices, compat_obj, outfile, indent+1, True)
         # end for
         outfile.write('', indent)
@@ -2219,6 +2294,17 @@ class Group(SuiteObject):
         # end if
         return False
 
+    def add_loop_variable(self, standard_name):
+        """If <standard_name> is a loop variable which is not in use yet, make
+        its value available to this group (run phase only)."""
+        if self.run_phase() and (self.find_variable(standard_name=standard_name)
+                                 is None):
+            vmatch = VarDictionary.loop_var_match(standard_name)
+            if vmatch is not None:
+                self.add_variable_to_call_tree(None, vmatch=vmatch)
+            # end if
+        # end if
+
     def manage_variable(self, newvar):
         """Add <newvar> to our local dictionary making necessary
         modifications to the variable properties so that it is
@@ -2228,6 +2314,9 @@ class Group(SuiteObject):
         # Look for dimensions where we have a loop substitution and replace
         # with the correct size
         if self.run_phase():
+            for dim in newvar.get_dim_stdnames(include_constants=False):
+                self.add_loop_variable(dim)
+            # end for
             hdims = [x.missing_stdname for x in self._loop_var_matches]
         else:
             # Do not do loop substitutions in full phases
-- 
2.43.0


From dd5b329ae27b5a7dc3db072bf40493ae0738f363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 13/84] fix: subcycles: nested loops, variable counts and index
 declarations

---
 scripts/suite_objects.py | 64 ++++++++++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 19 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 9107ec3..46197c2 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2052,22 +2052,24 @@ class Subcycle(SuiteObject):
     """Class to represent a subcycled group of schemes or scheme collections"""
 
     def __init__(self, sub_xml, context, parent, run_env):
-        name = sub_xml.get('name', None) # Iteration count
-        loop_extent = sub_xml.get('loop', "1") # Number of iterations
+        name = sub_xml.get('name', None) # Loop index name
+        self._loop = sub_xml.get('loop', "1") # Number of iterations
         # See if our loop variable is an interger or a variable
         try:
-            loop_int = int(loop_extent) # pylint: disable=unused-variable
-            self._loop = loop_extent
+            loop_int = int(self._loop) # pylint: disable=unused-variable
             self._loop_var_int = True
         except ValueError:
             self._loop_var_int = False
-            lvar = parent.find_variable(standard_name=self.loop, any_scope=True)
+            lvar = parent.find_variable(standard_name=self._loop, any_scope=True)
             if lvar is None:
                 emsg = "Subcycle, {}, specifies {} iterations but {} not found"
-                raise CCPPError(emsg.format(name, self.loop, self.loop))
+                raise CCPPError(emsg.format(name, self._loop, self._loop))
             # end if
-            parent.add_call_list_variable(lvar)
+            parent.add_call_list_variable(lvar, exists_ok=True,
+                                          gen_unique=True)
         # end try
+        self._group = None
+        self._index_name = None # Local name of the loop index
         super().__init__(name, context, parent, run_env)
         for item in sub_xml:
             new_item = new_suite_object(item, context, self, run_env)
@@ -2076,15 +2078,25 @@ class Subcycle(SuiteObject):
 
     def analyze(self, phase, group, scheme_library, suite_vars, level):
         """Analyze the Subcycle's interface to prepare for writing"""
+        self._group = group
         if self.name is None:
             self.name = "subcycle_index{}".format(level)
         # end if
-        # Create a variable for the loop index
-        self.add_variable(Var({'local_name':self.name,
-                               'standard_name':'loop_variable',
-                               'type':'integer', 'units':'count',
-                               'dimensions':'()'}, _API_SOURCE, self.run_env),
-                          self.run_env)
+        # Create a variable for the loop index. Each level needs its own.
+        # The Group will manage (i.e., declare) this variable.
+        index_stdname = 'loop_variable_level{}'.format(level)
+        index_var = group.find_variable(standard_name=index_stdname,
+                                        any_scope=False)
+        if index_var is None:
+            group.manage_variable(Var({'local_name':self.name,
+                                       'standard_name':index_stdname,
+                                       'type':'integer', 'units':'count',
+                                       'dimensions':'()'},
+                                      _API_LOCAL, self.run_env))
+            index_var = group.find_variable(standard_name=index_stdname,
+                                            any_scope=False)
+        # end if
+        self._index_name = index_var.get_prop_value('local_name')
         # Handle all the suite objects inside of this subcycle
         scheme_mods = set()
         for item in self.parts:
@@ -2098,23 +2110,37 @@ class Subcycle(SuiteObject):
 
     def write(self, outfile, errcode, errmsg, indent):
         """Write code for the subcycle loop, including contents, to <outfile>"""
-        outfile.write('do {} = 1, {}'.format(self.name, self.loop), indent)
+        outfile.write('do {} = 1, {}'.format(self._index_name, self.loop), indent)
         # Note that 'scheme' may be a sybcycle or other construct
         for item in self.parts:
             item.write(outfile, errcode, errmsg, indent+1)
         # end for
-        outfile.write('end do', 2)
+        outfile.write('end do', indent)
 
     @property
     def loop(self):
         """Return the loop value or variable local_name"""
-        lvar = self.find_variable(standard_name=self.loop, any_scope=True)
+        if self._loop_var_int:
+            return self._loop
+        # end if
+        # Find the name of the variable where this loop is written
+        cldicts = [self.parent]
+        if self._group is not None:
+            cldicts = [self._group.call_list, self._group]
+            cldicts.extend(self._group.suite_dicts())
+        # end if
+        lvar = None
+        for cldict in cldicts:
+            lvar = cldict.find_variable(standard_name=self._loop, any_scope=True)
+            if lvar is not None:
+                break
+            # end if
+        # end for
         if lvar is None:
             emsg = "Subcycle, {}, specifies {} iterations but {} not found"
-            raise CCPPError(emsg.format(self.name, self.loop, self.loop))
+            raise CCPPError(emsg.format(self.name, self._loop, self._loop))
         # end if
-        lname = lvar.get_prop_value('local_name')
-        return lname
+        return lvar.get_prop_value('local_name')
 
 ###############################################################################
 
-- 
2.43.0


From 9ba31bd5d4cd384397f3549b5ab5daa59f9430c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 14/84] fix: give each suite its own dimension list and pass
 suite variables' dimensions to the group

---
 scripts/suite_objects.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 46197c2..92108bc 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -18,6 +18,7 @@ from metavar import CCPP_CONSTANT_VARS, CCPP_LOOP_VAR_STDNAMES
 from parse_tools import ParseContext, ParseSource, context_string
 from parse_tools import ParseInternalError, CCPPError
 from parse_tools import init_log, set_log_to_null
+from var_props import CCPP_LOOP_DIM_SUBSTS
 from var_props import is_horizontal_dimension, find_horizontal_dimension
 from var_props import find_vertical_dimension
 from var_props import VarCompatObj
@@ -1176,6 +1177,14 @@ class Scheme(SuiteObject):
         This is an override of the SuiteObject version"""
         return None
 
+    def __add_managed_variable(self, var):
+        """Add <var>, which our Group manages, to our call list with the
+        dimensions of the Group's variable (a copy, the Suite may change them).
+        """
+        gvar = self.__group.find_variable(source_var=var, any_scope=False)
+        subst_dict = {'dimensions':list(gvar.get_dimensions())}
+        self.add_call_list_variable(var.clone(subst_dict))
+
     def analyze(self, phase, group, scheme_library, suite_vars, level):
         """Analyze the scheme's interface to prepare for writing"""
         self.__group = group
@@ -1222,6 +1231,17 @@ class Scheme(SuiteObject):
                 if not self.has_vertical_dim:
                     self.__has_vertical_dimension = vert_dim is not None
                 # end if
+                # The dimensions of a suite variable are part of the call
+                if self.run_phase() and self.is_suite_variable(dict_var):
+                    for dim in dict_var.get_dimensions():
+                        if is_horizontal_dimension(dim):
+                            dim = CCPP_LOOP_DIM_SUBSTS.get(dim, dim)
+                        # end if
+                        for dim_name in dim.split(':'):
+                            self.__dim_local_name(dim_name)
+                        # end for
+                    # end for
+                # end if
                 # We have a match, make sure var is in call list
                 if new_dims == vdims:
                     self.add_call_list_variable(var, exists_ok=True)
@@ -1245,7 +1265,7 @@ class Scheme(SuiteObject):
                     # end if
                     # The Group will manage this variable
                     self.__group.manage_variable(var)
-                    self.add_call_list_variable(var)
+                    self.__add_managed_variable(var)
                 elif def_val and (vintent != 'out'):
                     if self.__group is None:
                         errmsg = 'Group not defined for {}'.format(self.name)
@@ -1254,7 +1274,7 @@ class Scheme(SuiteObject):
                     # The Group will manage this variable
                     self.__group.manage_variable(var)
                     # We still need it in our call list (the group uses a clone)
-                    self.add_call_list_variable(var)
+                    self.__add_managed_variable(var)
                 else:
                     errmsg = 'Input argument for {}, {}, not found.'
                     if self.find_variable(source_var=var) is not None:
@@ -2336,7 +2356,8 @@ class Group(SuiteObject):
         modifications to the variable properties so that it is
         allocated appropriately"""
         # Need new prop dict to eliminate unwanted properties (e.g., intent)
-        vdims = newvar.get_dimensions()
+        # and new dimensions (which may be modified here or by the suite)
+        vdims = list(newvar.get_dimensions())
         # Look for dimensions where we have a loop substitution and replace
         # with the correct size
         if self.run_phase():
-- 
2.43.0


From 3c10936ad10ab9c2c453d60c1893b7b505413e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:22 +0000
Subject: [PATCH 15/84] fix: capgen regeneration kept stale files and rewrote
 unchanged ones

move_modified_files moved the files which were equal and dropped the ones
which differed; the comparison was inverted.
---
 scripts/file_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/file_utils.py b/scripts/file_utils.py
index 669922b..cce8fb0 100644
--- a/scripts/file_utils.py
+++ b/scripts/file_utils.py
@@ -289,7 +289,8 @@ def move_modified_files(src_dir, dest_dir, overwrite=False, remove_src=False):
                 if overwrite:
                     fmove = True
                 else:
-                    fmove = filecmp.cmp(src_path, dest_path, shallow=False)
+                    fmove = not filecmp.cmp(src_path, dest_path,
+                                            shallow=False)
                 # end if
             else:
                 fmove = True
-- 
2.43.0


From d93432a5f95b17cbfe8a082967b52b37113d3a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:11 +0000
Subject: [PATCH 16/84] fix: capgen output depended on the order of directory
 listings

---
 scripts/file_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/file_utils.py b/scripts/file_utils.py
index cce8fb0..dee383c 100644
--- a/scripts/file_utils.py
+++ b/scripts/file_utils.py
@@ -59,7 +59,7 @@ def add_unique_files(filepath, pdesc, master_list, logger):
     Return a list of errors found
     Wildcards in <filepath> are expanded"""
     errors = list()
-    for file in glob.glob(filepath):
+    for file in sorted(glob.glob(filepath)):
         errs = check_for_existing_file(file, pdesc)
         if errs:
             errors.extend(errs)
@@ -149,7 +149,7 @@ def _create_file_list_int(files, suffices, file_type, logger,
             errs = add_unique_files(filename, pdesc, master_list, logger)
             errors.extend(errs)
         elif suff == 'txt':
-            tfiles = glob.glob(filename)
+            tfiles = sorted(glob.glob(filename))
             if tfiles:
                 for file in tfiles:
                     if file in txt_files:
-- 
2.43.0


From 49db09092def13f0a74620cf03fceb5f0d1aef5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 17/84] fix: generated files depended on the hash seed of
 Python

---
 scripts/ccpp_datafile.py |  2 +-
 scripts/ddt_library.py   |  2 +-
 scripts/metavar.py       | 11 +++++++----
 scripts/suite_objects.py |  8 ++++----
 4 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/scripts/ccpp_datafile.py b/scripts/ccpp_datafile.py
index 6bb5e53..8f4bf4c 100755
--- a/scripts/ccpp_datafile.py
+++ b/scripts/ccpp_datafile.py
@@ -1178,7 +1178,7 @@ def generate_ccpp_datatable(run_env, host_model, api, scheme_headers,
             host_depends.add(dep_file)
         # end for
     # end for
-    _add_dependencies(datatable, scheme_depends, host_depends)
+    _add_dependencies(datatable, sorted(scheme_depends), sorted(host_depends))
     # Write tree
     datatable_tree = PrettyElementTree(datatable)
     datatable_tree.write(run_env.datatable_file)
diff --git a/scripts/ddt_library.py b/scripts/ddt_library.py
index 3542559..975f865 100644
--- a/scripts/ddt_library.py
+++ b/scripts/ddt_library.py
@@ -319,7 +319,7 @@ class DDTLibrary(dict):
         <variable_list>"""
         pad = max(pad, self.__max_mod_name_len)
         ddt_mods = self.ddt_modules(variable_list)
-        for ddt_mod in ddt_mods:
+        for ddt_mod in sorted(ddt_mods):
             dmod = ddt_mod[0]
             dtype = ddt_mod[1]
             slen = ' '*(pad - len(dmod))
diff --git a/scripts/metavar.py b/scripts/metavar.py
index b6776e3..80caf79 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -938,8 +938,9 @@ class Var:
         return dims
 
     def get_dim_stdnames(self, include_constants=True):
-        """Return a set of all the dimension standard names for this Var"""
-        dimset = set()
+        """Return a list of all the dimension standard names for this Var
+        (in order of appearance, without duplicates)"""
+        dimnames = list()
         for dim in self.get_dimensions():
             for name in dim.split(':'):
                 # Weed out the integers
@@ -948,12 +949,14 @@ class Var:
                 except ValueError:
                     # Not an integer, maybe add it
                     if include_constants or (not name in CCPP_CONSTANT_VARS):
-                        dimset.add(name)
+                        if name not in dimnames:
+                            dimnames.append(name)
+                        # end if
                     # end if
                 # end try
             # end for
         # end for
-        return dimset
+        return dimnames
 
     def get_rank(self):
         """Return the variable's rank (zero for scalar)"""
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 92108bc..39aa490 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2515,7 +2515,7 @@ class Group(SuiteObject):
         allocatable_var_set = set()
         optional_var_set = set()
         pointer_var_set = list()
-        inactive_var_set = set()
+        inactive_var_set = list()
         for item in [self]:# + self.parts:
             for var in item.declarations():
                 lname = var.get_prop_value('local_name')
@@ -2536,7 +2536,7 @@ class Group(SuiteObject):
                                 subpart_optional_vars[lname] = (var, item, opt_var)
                                 optional_var_set.add(lname)
                             else:
-                                inactive_var_set.add(var)
+                                inactive_var_set.append(var)
                             # end if
                         else:
                             subpart_allocate_vars[lname] = (var, item, opt_var)
@@ -2726,7 +2726,7 @@ class Group(SuiteObject):
             alloc_str = self.allocate_dim_str(dims, var.context)
             outfile.write(alloc_stmt.format(lname, alloc_str), indent+1)
         # end for
-        for lname in optional_var_set:
+        for lname in sorted(optional_var_set):
             var = subpart_optional_vars[lname][0]
             dims = var.get_dimensions()
             alloc_str = self.allocate_dim_str(dims, var.context)
@@ -2759,7 +2759,7 @@ class Group(SuiteObject):
         for lname in sorted(allocatable_var_set):
             outfile.write('if (allocated({})) {} deallocate({})'.format(lname,' '*(20-len(lname)),lname), indent+1)
         # end for
-        for lname in optional_var_set:
+        for lname in sorted(optional_var_set):
             outfile.write('if (allocated({})) {} deallocate({})'.format(lname,' '*(20-len(lname)),lname), indent+1)
         # end for
         # Nullify local pointers
-- 
2.43.0


From 8b99f8cd666ca8e3edc3b6f9f8a9307abbd9a7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 18/84] fix: input files which do not exist were silently
 ignored

---
 scripts/file_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/file_utils.py b/scripts/file_utils.py
index dee383c..5115226 100644
--- a/scripts/file_utils.py
+++ b/scripts/file_utils.py
@@ -59,7 +59,12 @@ def add_unique_files(filepath, pdesc, master_list, logger):
     Return a list of errors found
     Wildcards in <filepath> are expanded"""
     errors = list()
-    for file in sorted(glob.glob(filepath)):
+    files = sorted(glob.glob(filepath))
+    if (not files) and (not glob.has_magic(filepath)):
+        # An explicitly named file has to be there
+        files = [filepath]
+    # end if
+    for file in files:
         errs = check_for_existing_file(file, pdesc)
         if errs:
             errors.extend(errs)
-- 
2.43.0


From 732eb2021d21ef963dc956187cbf1e26b32447ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 19/84] fix: generated files were lost when the staging
 directory could not be read

---
 scripts/file_utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scripts/file_utils.py b/scripts/file_utils.py
index 5115226..047490f 100644
--- a/scripts/file_utils.py
+++ b/scripts/file_utils.py
@@ -236,6 +236,12 @@ def replace_paths(dir_list, src_dir, dest_dir):
         dir_list[index] = path.replace(src_dir, dest_dir)
     # end for
 
+###############################################################################
+def _raise_walk_error(oserr):
+###############################################################################
+    """Error handler for os.walk, which ignores errors by default"""
+    raise oserr
+
 ###############################################################################
 def remove_dir(src_dir, force=False):
 ###############################################################################
@@ -247,7 +253,7 @@ def remove_dir(src_dir, force=False):
     os.chdir(src_parent) # Prevent removing the parent of src_dir
     if force:
         leaf_dirs = set()
-        for root, dirs, files in os.walk(src_rel):
+        for root, dirs, files in os.walk(src_rel, onerror=_raise_walk_error):
             for file in files:
                 os.remove(os.path.join(root, file))
             # end for
@@ -275,7 +281,7 @@ def move_modified_files(src_dir, dest_dir, overwrite=False, remove_src=False):
     If <remove_src> is True, remove <src_dir> when complete."""
     src_files = {} # All files in <src_dir>
     if os.path.normpath(src_dir) != os.path.normpath(dest_dir):
-        for root, _, files in os.walk(src_dir):
+        for root, _, files in os.walk(src_dir, onerror=_raise_walk_error):
             for file in files:
                 src_path = os.path.join(root, file)
                 if file in src_files:
-- 
2.43.0


From fabcfbbdc40574134b648aa41aa7a2bd299a7c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 20/84] fix: call_command crashed on a command which cannot be
 started

---
 scripts/parse_tools/xml_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/parse_tools/xml_tools.py b/scripts/parse_tools/xml_tools.py
index 164b169..1392e43 100644
--- a/scripts/parse_tools/xml_tools.py
+++ b/scripts/parse_tools/xml_tools.py
@@ -79,6 +79,10 @@ def call_command(commands, logger, silent=False):
     except (OSError, CCPPError, subprocess.CalledProcessError) as err:
         if silent:
             result = False
+        elif not isinstance(err, subprocess.CalledProcessError):
+            # The command could not be started
+            cmd = ' '.join(commands)
+            raise CCPPError(f"Execution of '{cmd}' failed:\n{err}") from err
         else:
             cmd = ' '.join(commands)
             outstr = f"Execution of '{cmd}' failed with code: {err.returncode}\n"
-- 
2.43.0


From 9a90302b56946c3df01619a6652c6e23341d17b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 21/84] fix: duplicate tables and headers crashed instead of
 being reported

---
 scripts/ccpp_capgen.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index 9eac0ec..efa7f10 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -460,10 +460,10 @@ def duplicate_item_error(title, filename, itype, orig_item):
     """Raise an error indicating a duplicate item of type, <itype>"""
     errmsg = "Duplicate {typ}, {title}, found in {file}"
     edict = {'title':title, 'file':filename, 'typ':itype}
-    ofile = orig_item.context.filename
-    if ofile is not None:
-        errmsg = errmsg + ", original found in {ofile}"
-        edict['ofile'] = ofile
+    octx = orig_item.start_context(with_comma=False, nodir=False)
+    if octx:
+        errmsg = errmsg + ", original found in {octx}"
+        edict['octx'] = octx
     # end if
     raise CCPPError(errmsg.format(**edict))
 
@@ -499,7 +499,8 @@ def parse_host_model_files(host_filenames, host_name, run_env):
         for table in mtables:
             if table.table_name in table_dict:
                 duplicate_item_error(table.table_name, filename,
-                                     table.table_type, table_dict[header.title])
+                                     table.table_type,
+                                     table_dict[table.table_name])
             else:
                 table_dict[table.table_name] = table
             # end if
@@ -557,7 +558,8 @@ def parse_scheme_files(scheme_filenames, run_env, skip_ddt_check=False):
         for table in mtables:
             if table.table_name in table_dict:
                 duplicate_item_error(table.table_name, filename,
-                                     table.table_type, table_dict[header.title])
+                                     table.table_type,
+                                     table_dict[table.table_name])
             else:
                 table_dict[table.table_name] = table
             # end if
-- 
2.43.0


From f7073333f5f181d2ad4d6b72b3eb36bbbb7cd691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:36 +0000
Subject: [PATCH 22/84] fix: --clean left all generated files in place

---
 scripts/ccpp_capgen.py   | 38 ++++++++++++++------------------------
 scripts/ccpp_datafile.py | 14 ++++++++++++++
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index efa7f10..5764408 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -16,7 +16,7 @@ import logging
 import re
 # CCPP framework imports
 from ccpp_database_obj import CCPPDatabaseObj
-from ccpp_datafile import generate_ccpp_datatable
+from ccpp_datafile import generate_ccpp_datatable, generated_files
 from ccpp_suite import API
 from file_utils import check_for_writeable_file, remove_dir, replace_paths
 from file_utils import create_file_list, move_modified_files
@@ -54,30 +54,20 @@ _CCPP_FRAMEWORK_DDT_TYPES = ["ccpp_hash_table_t",
 ###############################################################################
 def delete_pathnames_from_file(capfile, logger):
 ###############################################################################
-    """Remove all the filenames found in <capfile>, then delete <capfile>"""
-    root_path = os.path.dirname(os.path.abspath(capfile))
+    """Remove all the generated files listed in the datatable, <capfile>,
+    then delete <capfile>. Other files listed in <capfile> (such as the source
+    files of the CCPP framework) are not touched."""
     success = True
-    with open(capfile, 'r') as infile:
-        for line in infile.readlines():
-            path = line.strip()
-            # Skip blank lines and lines which appear to start with a comment.
-            if path and (path[0] != '#') and (path[0] != '!'):
-                # Check for an absolute path
-                if not os.path.isabs(path):
-                    # Assume relative pathnames are relative to pathsfile
-                    path = os.path.normpath(os.path.join(root_path, path))
-                # end if
-                logger.info("Clean: Removing {}".format(path))
-                try:
-                    os.remove(path)
-                except OSError as oserr:
-                    success = False
-                    errmsg = 'Unable to remove {}\n{}'
-                    logger.warning(errmsg.format(path, oserr))
-                # end try
-            # end if (else skip blank or comment line)
-        # end for
-    # end with open
+    for path in generated_files(capfile):
+        logger.info("Clean: Removing {}".format(path))
+        try:
+            os.remove(path)
+        except OSError as oserr:
+            success = False
+            errmsg = 'Unable to remove {}\n{}'
+            logger.warning(errmsg.format(path, oserr))
+        # end try
+    # end for
     logger.info("Clean: Removing {}".format(capfile))
     try:
         os.remove(capfile)
diff --git a/scripts/ccpp_datafile.py b/scripts/ccpp_datafile.py
index 8f4bf4c..bbe41bc 100755
--- a/scripts/ccpp_datafile.py
+++ b/scripts/ccpp_datafile.py
@@ -22,6 +22,7 @@ import os
 import sys
 import xml.etree.ElementTree as ET
 # CCPP framework imports
+from file_utils import KINDS_FILENAME
 from framework_env import CCPPFrameworkEnv
 from metadata_table import UNKNOWN_PROCESS_TYPE
 from metavar import Var
@@ -289,6 +290,19 @@ def _retrieve_ccpp_files(table, file_type=None):
     # end if
     return ccpp_files
 
+###############################################################################
+def generated_files(datatable):
+###############################################################################
+    """Return a list of the files created by the capgen run which wrote
+    <datatable>. Utility files which are part of the CCPP framework are not
+    included."""
+    table = _read_datatable(datatable)
+    utilities = _retrieve_ccpp_files(table, file_type="utilities")
+    gen_files = [x for x in utilities if os.path.basename(x) == KINDS_FILENAME]
+    gen_files += _retrieve_ccpp_files(table, file_type="host_files")
+    gen_files += _retrieve_ccpp_files(table, file_type="suite_files")
+    return gen_files
+
 ###############################################################################
 def _retrieve_process_list(table):
 ###############################################################################
-- 
2.43.0


From dfc1159561b6bfe7dafac122c33013e6d0d500cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 23/84] fix: a scheme argument whose type differs from the
 provided variable was accepted

---
 scripts/suite_objects.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 39aa490..117c537 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -953,6 +953,15 @@ class SuiteObject(VarDictionary):
         if dict_var is not None:
             dict_var = self.parent.find_variable(source_var=var, any_scope=True)
             compat_obj = var.compatible(dict_var, run_env)
+            vtype = var.get_prop_value('type')
+            dtype = dict_var.get_prop_value('type')
+            if vtype.lower() != dtype.lower():
+                errmsg = "Incompatible types for {}: '{}'{} and '{}'{}"
+                raise CCPPError(errmsg.format(vstdname, vtype,
+                                              context_string(var.context),
+                                              dtype,
+                                              context_string(dict_var.context)))
+            # end if
         # end if
         return found_var, dict_var, var_vdim, new_vdims, missing_vert, compat_obj
 
-- 
2.43.0


From 33f973f486b92d69bb8a376a4bf380716b768320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:17 +0000
Subject: [PATCH 24/84] fix: duplicate suites and groups produced caps which
 cannot be compiled

---
 scripts/ccpp_suite.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index f7ff8ec..237aa94 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -274,8 +274,15 @@ character(len=16) :: {css_var_name} = '{state}'
             # Suite item is a group or a suite-wide init or final method
             if item_type == 'group':
                 # Parse a group
-                self.__groups.append(self.new_group(suite_item, RUN_PHASE_NAME,
-                                                    run_env))
+                group = self.new_group(suite_item, RUN_PHASE_NAME, run_env)
+                used_names = [x.name.lower() for x in self.__groups]
+                used_names += [x.lower() for x in self._end_groups]
+                if group.name.lower() in used_names:
+                    emsg = "Duplicate group name, '{}', in suite, '{}'"
+                    raise CCPPError(emsg.format(suite_item.get('name'),
+                                                self.name))
+                # end if
+                self.__groups.append(group)
             else:
                 match_trans = CCPP_STATE_MACH.function_match(item_type)
                 if match_trans is None:
@@ -719,6 +726,10 @@ class API(VarDictionary):
         # Turn the SDF files into Suites
         for sdf in sdfs:
             suite = Suite(sdf, self, run_env)
+            if suite.name.lower() in [x.name.lower() for x in self.__suites]:
+                errmsg = "Duplicate suite name, '{}', found in {}"
+                raise CCPPError(errmsg.format(suite.name, sdf))
+            # end if
             suite.analyze(self.host_model, scheme_library,
                           self.__ddt_lib, run_env)
             self.__suites.append(suite)
-- 
2.43.0


From 36fb4ce6bade70a4c35ceaa32c8c37678902f3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:45 +0000
Subject: [PATCH 25/84] fix: the optional attribute of a first argument was not
 compared with its metadata

---
 scripts/ccpp_capgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index 5764408..313cc6e 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -310,7 +310,7 @@ def compare_fheader_to_mheader(meta_header, fort_header, logger):
             # missing from fortran declaration.
             # first check: if metadata says the variable is optional, does the fortran match?
             mopt  = mvar.get_prop_value('optional')
-            if find and mopt:
+            if (fvar is not None) and mopt:
                 fopt = fvar.get_prop_value('optional')
                 if (not fopt):
                     errmsg = f'Missing "optional" attribute in fortran declaration for variable {mname}, ' \
-- 
2.43.0


From ed33e1f98987ea37cc2e6a2a169dcc5b19efdaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:09 +0000
Subject: [PATCH 26/84] fix: a scheme could write a variable which the host
 declares protected

---
 scripts/suite_objects.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 117c537..df5b343 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1229,6 +1229,16 @@ class Scheme(SuiteObject):
             def_val = var.get_prop_value('default_value')
             vdims = var.get_dimensions()
             vintent = var.get_prop_value('intent')
+            host_var = self.__group.suite.parent.find_variable(source_var=var,
+                                                               any_scope=True)
+            if (host_var is not None) and (vintent != 'in') and               \
+               host_var.get_prop_value('protected'):
+                emsg = "Attempt to set '{}'{}, only intent 'in' allowed for "
+                emsg += "'protected' variable{}"
+                raise CCPPError(emsg.format(vstdname,
+                                            context_string(var.context),
+                                            context_string(host_var.context)))
+            # end if
             args = self.match_variable(var, self.run_env)
             found, dict_var, vert_dim, new_dims, missing_vert, compat_obj = args
             if found:
-- 
2.43.0


From 5f76542b2b999e3698213f56ea908bee3da86fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:47 +0000
Subject: [PATCH 27/84] fix: a suite variable used with other dimensions than
 declared was accepted

---
 scripts/suite_objects.py | 47 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index df5b343..0631c6a 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -629,6 +629,46 @@ class SuiteObject(VarDictionary):
 
         return match
 
+    @staticmethod
+    def same_dimensions(need_dims, have_dims):
+        """Return True if <need_dims> are the dimensions <have_dims> of a
+        locally-declared variable. All horizontal dimensions are considered
+        equal since they only differ by loop substitution. A vertical
+        dimension may be missing in <need_dims> (vertical loop).
+        >>> SuiteObject.same_dimensions(['ccpp_constant_one:horizontal_loop_extent'], ['ccpp_constant_one:horizontal_dimension'])
+        True
+        >>> SuiteObject.same_dimensions(['vertical_layer_dimension'], ['ccpp_constant_one:vertical_layer_dimension'])
+        True
+        >>> SuiteObject.same_dimensions(['horizontal_dimension'], ['horizontal_dimension', 'vertical_layer_dimension'])
+        True
+        >>> SuiteObject.same_dimensions(['horizontal_dimension', 'vertical_interface_dimension'], ['horizontal_dimension', 'vertical_layer_dimension'])
+        False
+        """
+        _, nvdim_index = find_vertical_dimension(need_dims)
+        _, hvdim_index = find_vertical_dimension(have_dims)
+        if nvdim_index < 0 <= hvdim_index:
+            have_dims = have_dims[0:hvdim_index] + have_dims[hvdim_index+1:]
+        # end if
+        if len(need_dims) != len(have_dims):
+            return False
+        # end if
+        for need, have in zip(need_dims, have_dims):
+            if is_horizontal_dimension(need) and is_horizontal_dimension(have):
+                continue
+            # end if
+            nparts = need.lower().split(':')
+            hparts = have.lower().split(':')
+            if ('' in nparts) or ('' in hparts):
+                continue # Unnamed dimension of an allocatable variable
+            # end if
+            nparts = ['1' if x == 'ccpp_constant_one' else x for x in nparts]
+            hparts = ['1' if x == 'ccpp_constant_one' else x for x in hparts]
+            if (['1'] + nparts)[-2:] != (['1'] + hparts)[-2:]:
+                return False
+            # end if
+        # end for
+        return True
+
     def match_dimensions(self, need_dims, have_dims):
         """Compare dimensions between <need_dims> and <have_dims>.
         Return 6 items:
@@ -895,6 +935,13 @@ class SuiteObject(VarDictionary):
             # Therefore, we have to use the declaration dimensions in the call.
             found_var = True
             new_vdims = dict_var.get_dimensions()
+            if not self.same_dimensions(vdims, new_vdims):
+                errmsg = "Incompatible dimensions for {}: ({}){} and ({}){}"
+                raise CCPPError(errmsg.format(vstdname, ', '.join(vdims),
+                                              context_string(var.context),
+                                              ', '.join(new_vdims),
+                                              context_string(dict_var.context)))
+            # end if
         else:
             # Check dimensions
             dict_dims = dict_var.get_dimensions()
-- 
2.43.0


From 475cc22b1324b2e7130ac84ab5f856a9cce13b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:35 +0000
Subject: [PATCH 28/84] fix: caps did not compile with OpenMP and let the
 second thread through

The generated check for a threaded region calls omp_get_thread_num without
using omp_lib, so that a cap with implicit none could not be compiled with
OpenMP. The check also let thread number one through.
---
 scripts/suite_objects.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 0631c6a..e2257f9 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2315,7 +2315,7 @@ class Group(SuiteObject):
 '''
 
     __thread_check = CodeBlock([('#ifdef _OPENMP', -1),
-                                ('if (omp_get_thread_num() > 1) then', 1),
+                                ('if (omp_get_thread_num() > 0) then', 1),
                                 ('{errcode} = 1', 2),
                                 (('{errmsg} = "Cannot call {phase} routine '
                                   'from a threaded region"'), 2),
@@ -2686,6 +2686,12 @@ class Group(SuiteObject):
             slen = ' '*(modmax - len(smod))
             outfile.write(scheme_use.format(smod, slen, sname), indent+1)
         # end for
+        # The threaded region check (see below) needs the OpenMP library
+        if not self.run_phase():
+            outfile.write('#ifdef _OPENMP', 0)
+            outfile.write('use omp_lib, only: omp_get_thread_num', indent+1)
+            outfile.write('#endif', 0)
+        # end if
         # Look for any DDT types
         call_vars = self.call_list.variable_list()
         self._ddt_library.write_ddt_use_statements(call_vars, outfile,
-- 
2.43.0


From 1d8875f0ac24baf26f0114115a25afab4372ee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:10 +0000
Subject: [PATCH 29/84] fix: arguments of another kind than the host's did not
 compile

The dummy arguments of a group's subroutine were declared with the kind of the
first scheme which uses them, also where that scheme receives a transformed
copy, so that the call from the host cap did not compile. For the same reason
a second scheme whose units cannot be converted directly to the first scheme's
was rejected. A group now receives each variable with the kind and units it
has outside of the schemes.
---
 scripts/suite_objects.py | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index e2257f9..025cae0 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -885,6 +885,26 @@ class SuiteObject(VarDictionary):
         # end if
         return found_var
 
+    @staticmethod
+    def provided_props(var, dict_var):
+        """Return a dictionary with the properties of <dict_var> which a
+        variable transform for <var> changes. These are the properties <var>
+        has outside of the scheme which uses it."""
+        props = {}
+        if (dict_var is not None) and (not var.is_ddt()):
+            names = ['units']
+            if dict_var.get_prop_value('type') != 'character':
+                names.append('kind')
+            # end if
+            for name in names:
+                value = dict_var.get_prop_value(name)
+                if value != var.get_prop_value(name):
+                    props[name] = value
+                # end if
+            # end for
+        # end if
+        return props
+
     def match_variable(self, var, run_env):
         """Try to find a source for <var> in this SuiteObject's dictionary
         tree. Several items are returned:
@@ -973,10 +993,9 @@ class SuiteObject(VarDictionary):
                 raise CCPPError(errmsg)
             # end if
             # Add the variable to the parent call tree
-            if dict_dims == new_dict_dims:
-                sdict = {}
-            else:
-                sdict = {'dimensions':new_dict_dims}
+            sdict = self.provided_props(var, dict_var)
+            if dict_dims != new_dict_dims:
+                sdict['dimensions'] = new_dict_dims
             # end if
             found_var = self.parent.add_variable_to_call_tree(var,
                                                               subst_dict=sdict)
@@ -1310,14 +1329,18 @@ class Scheme(SuiteObject):
                 # end if
                 # We have a match, make sure var is in call list
                 if new_dims == vdims:
-                    self.add_call_list_variable(var, exists_ok=True)
-                    self.update_group_call_list_variable(var)
+                    clone = var
                 else:
                     subst_dict = {'dimensions':new_dims}
                     clone = var.clone(subst_dict)
-                    self.add_call_list_variable(clone, exists_ok=True)
-                    self.update_group_call_list_variable(clone)
                 # end if
+                self.add_call_list_variable(clone, exists_ok=True)
+                # The group receives the variable as it is provided
+                subst_dict = self.provided_props(var, dict_var)
+                if subst_dict:
+                    clone = clone.clone(subst_dict)
+                # end if
+                self.update_group_call_list_variable(clone)
             else:
                 if missing_vert is not None:
                     # This Scheme needs to be in a VerticalLoop
-- 
2.43.0


From 257037d0c908992b7113bf8f6174e155a0d758a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:28 +0000
Subject: [PATCH 30/84] fix: conditional and optional arguments of schemes

- A scheme argument which is optional or whose host variable is active only
  under a condition is passed by a pointer which the group cap associates
  before and nullifies otherwise. These pointers had been initialized in
  their declaration and thereby were shared by all threads.
- The names of the pointers were derived from the names of schemes and
  variables and could clash or be used without having been declared.
- A variable transform was computed for inactive variables, too, and the
  transformed values were then not passed to the scheme.
- The condition '.true.' of variables which are not conditional produced code
  which does not compile; variables in conditions were not passed to the group.
- An optional argument which nobody provides crashed the generator.
---
 scripts/metavar.py       |  26 ++-
 scripts/suite_objects.py | 387 ++++++++++++++++++---------------------
 2 files changed, 198 insertions(+), 215 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 80caf79..ae0ab39 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1022,10 +1022,18 @@ class Var:
                     conditional += item
                 except ValueError:
                     dvar = None
-                    for vdict in vdicts:
-                        dvar = vdict.find_variable(standard_name=item, any_scope=True) # or any_scope=False ?
+                    # The name used in one of <vdicts> is what counts
+                    for scope in (False, True):
+                        for vdict in vdicts:
+                            dvar = vdict.find_variable(standard_name=item, any_scope=scope)
+                            if dvar:
+                                break
+                            # end if
+                        # end for
                         if dvar:
                             break
+                        # end if
+                    # end for
                     if not dvar:
                         raise Exception(f"Cannot find variable '{item}' for generating conditional for '{active}'")
                     conditional += dvar.get_prop_value('local_name')
@@ -1144,20 +1152,20 @@ class Var:
                                   name=name, dims=dimstr, cspace=cspace,
                                   sname=stdname), indent)
 
-    def write_ptr_def(self, outfile, indent, name, kind, dimstr, vtype, extra_space=0):
-        """Write the definition line for local null pointer declaration to <outfile>."""
+    @staticmethod
+    def write_ptr_def(outfile, indent, name, kind, dimstr, vtype, extra_space=0):
+        """Write the definition line for local pointer declaration to <outfile>.
+        (no initialization, it would make the pointer a static variable)"""
         comma = ', '
         if kind:
-            dstr = "{type}({kind}){cspace}pointer          :: {name}{dims}{cspace2} => null()"
+            dstr = "{type}({kind}){cspace}pointer          :: {name}{dims}"
             cspace = comma + ' '*(extra_space + 20 - len(vtype) - len(kind))
-            cspace2 = ' '*(20 -len(name) - len(dimstr))
         else:
-            dstr = "{type}{cspace}pointer          :: {name}{dims}{cspace2} => null()"
+            dstr = "{type}{cspace}pointer          :: {name}{dims}"
             cspace = comma + ' '*(extra_space + 22 - len(vtype))
-            cspace2 = ' '*(20 -len(name) - len(dimstr))
         # end if
         outfile.write(dstr.format(type=vtype, kind=kind, name=name, dims=dimstr,
-                                  cspace=cspace, cspace2=cspace2), indent)
+                                  cspace=cspace), indent)
 
     def is_ddt(self):
         """Return True iff <self> is a DDT type."""
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 025cae0..121fa57 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -106,7 +106,8 @@ class CallList(VarDictionary):
         super().add_variable(newvar, run_env, exists_ok=exists_ok,
                              gen_unique=gen_unique, adjust_intent=adjust_intent)
 
-    def call_string(self, cldicts=None, is_func_call=False, subname=None, sub_lname_list=None):
+    def call_string(self, cldicts=None, is_func_call=False, subname=None,
+                    sub_lname_list=None, ptr_lnames=None):
         """Return a dummy argument string for this call list.
         <cldict> may be a list of VarDictionary objects to search for
         local_names (default is to use self).
@@ -115,6 +116,8 @@ class CallList(VarDictionary):
         list.
         <sub_lname_list> may be a list of local_name substitutions, each one
         a tuple (<substitute local name>, <standard name>).
+        <ptr_lnames> may be a dictionary of the local pointers (by standard
+        name) which are passed instead of the variables.
         """
         arg_str = ""
         arg_sep = ""
@@ -125,69 +128,13 @@ class CallList(VarDictionary):
                 # Find the dummy argument name
                 dummy = var.get_prop_value('local_name')
                 # Now, find the local variable name
-                if cldicts is not None:
-                    for cldict in cldicts:
-                        dvar = cldict.find_variable(standard_name=stdname,
-                                                    any_scope=False)
-                        if dvar is not None:
-                            break
-                        # end if
-                    # end for
-                    if dvar is None:
-                        if subname is not None:
-                            errmsg = "{}: ".format(subname)
-                        else:
-                            errmsg = ""
-                        # end if
-                        errmsg += "'{}', not found in call list for '{}'"
-                        clnames = [x.name for x in cldicts]
-                        raise CCPPError(errmsg.format(stdname, clnames))
-                    # end if
-                    lname = dvar.get_prop_value('local_name')
-                    # Optional variables in the caps are associated with 
-                    # local pointers of <lname>_ptr
-                    if dvar.get_prop_value('optional'):
-                        lname = dummy+'_ptr'
-                    # end if
+                if ptr_lnames and (stdname in ptr_lnames):
+                    lname = ptr_lnames[stdname]
                 else:
-                    cldict = None
-                    aref = var.array_ref(local_name=dummy)
-                    if aref is not None:
-                        lname = aref.group(1)
-                    else:
-                        lname = dummy
-                    # end if
-                # end if
-                # Modify Scheme call_list to handle local_name change for this var.
-                # Are there any variable transforms for this scheme?
-                # If so, change Var's local_name need to local dummy array containing
-                # transformed argument, var_trans_local.
-                is_transform = False
-                if sub_lname_list:
-                    for (var_trans_local, sname) in sub_lname_list:
-                        if (sname == stdname):
-                            lname = var_trans_local
-                            is_transform = True
-                        # end if
-                    # end for
-                # end if
-                if is_func_call:
-                    if cldicts is not None:
-                        use_dicts = cldicts
-                    else:
-                        use_dicts = [self]
-                    # end if
-                    run_phase = self.routine.run_phase()
-                    # We only need dimensions for suite variables in run phase
-                    # (the local copy of a transform has the scheme's shape)
-                    need_dims = (SuiteObject.is_suite_variable(dvar) and
-                                 run_phase and (not is_transform))
-                    vdims = var.call_dimstring(var_dicts=use_dicts,
-                                               explicit_dims=need_dims,
-                                               loop_subst=run_phase)
-                    if _BLANK_DIMS_RE.match(vdims) is None:
-                        lname = lname + vdims
-                    # end if
+                    lname = self.call_name(var, cldicts=cldicts,
+                                           is_func_call=is_func_call,
+                                           subname=subname,
+                                           sub_lname_list=sub_lname_list)
                 # end if
                 if is_func_call:
                     arg_str += "{}{}={}".format(arg_sep, dummy, lname)
@@ -199,6 +146,74 @@ class CallList(VarDictionary):
         # end for
         return arg_str
 
+    def call_name(self, var, cldicts=None, is_func_call=False, subname=None,
+                  sub_lname_list=None):
+        """Return the actual argument (or the dummy argument name) for <var>,
+        one of the variables of this call list.
+        See call_string for the other arguments."""
+        stdname = var.get_prop_value('standard_name')
+        dummy = var.get_prop_value('local_name')
+        if cldicts is not None:
+            for cldict in cldicts:
+                dvar = cldict.find_variable(standard_name=stdname,
+                                            any_scope=False)
+                if dvar is not None:
+                    break
+                # end if
+            # end for
+            if dvar is None:
+                if subname is not None:
+                    errmsg = "{}: ".format(subname)
+                else:
+                    errmsg = ""
+                # end if
+                errmsg += "'{}', not found in call list for '{}'"
+                clnames = [x.name for x in cldicts]
+                raise CCPPError(errmsg.format(stdname, clnames))
+            # end if
+            lname = dvar.get_prop_value('local_name')
+        else:
+            cldict = None
+            aref = var.array_ref(local_name=dummy)
+            if aref is not None:
+                lname = aref.group(1)
+            else:
+                lname = dummy
+            # end if
+        # end if
+        # Modify Scheme call_list to handle local_name change for this var.
+        # Are there any variable transforms for this scheme?
+        # If so, change Var's local_name need to local dummy array containing
+        # transformed argument, var_trans_local.
+        is_transform = False
+        if sub_lname_list:
+            for (var_trans_local, sname) in sub_lname_list:
+                if (sname == stdname):
+                    lname = var_trans_local
+                    is_transform = True
+                # end if
+            # end for
+        # end if
+        if is_func_call:
+            if cldicts is not None:
+                use_dicts = cldicts
+            else:
+                use_dicts = [self]
+            # end if
+            run_phase = self.routine.run_phase()
+            # We only need dimensions for suite variables in run phase
+            # (the local copy of a transform has the scheme's shape)
+            need_dims = (SuiteObject.is_suite_variable(dvar) and
+                         run_phase and (not is_transform))
+            vdims = var.call_dimstring(var_dicts=use_dicts,
+                                       explicit_dims=need_dims,
+                                       loop_subst=run_phase)
+            if _BLANK_DIMS_RE.match(vdims) is None:
+                lname = lname + vdims
+            # end if
+        # end if
+        return lname
+
     @property
     def routine(self):
         """Return the routine for this call list (or None)"""
@@ -1216,7 +1231,7 @@ class Scheme(SuiteObject):
         self.__forward_transforms = list()
         self.__reverse_transforms = list()
         self._has_run_phase = True
-        self.__optional_vars = list()
+        self.__optional_vars = {} # (<dict_var>, <ptr_name>) by standard name
         super().__init__(name, context, parent, run_env, active_call_list=True)
 
     def update_group_call_list_variable(self, var):
@@ -1347,7 +1362,10 @@ class Scheme(SuiteObject):
                     self.needs_vertical = missing_vert
                     break # Deal with this and come back
                 # end if
-                if vintent == 'out':
+                if var.get_prop_value('optional') and (not def_val) and (vintent == 'out'):
+                    # Nobody provides this variable, it will not be present
+                    self.add_call_list_variable(var, exists_ok=True)
+                elif vintent == 'out':
                     if self.__group is None:
                         errmsg = 'Group not defined for {}'.format(self.name)
                         raise ParseInternalError(errmsg)
@@ -1391,11 +1409,19 @@ class Scheme(SuiteObject):
             # end if
 
             # Is this a conditionally allocated variable?
-            # If so, declare localpointer variable. This is needed to
+            # If so, declare local pointer variable. This is needed to
             # pass inactive (not present) status through the caps.
-            if var.get_prop_value('optional'):
-                newvar_ptr = var.clone(var.get_prop_value('local_name')+'_ptr')
-                self.__optional_vars.append([dict_var, var, newvar_ptr, has_transform])
+            if self.is_conditional(var, dict_var, found):
+                vdicts = [self.__group.call_list] + self.__group.suite_dicts()
+                if dict_var is not None:
+                    # The group needs to know when the variable is active
+                    _, vars_needed = dict_var.conditional(vdicts)
+                    for var_needed in vars_needed:
+                        self.__dim_local_name(var_needed.get_prop_value('standard_name'))
+                    # end for
+                # end if
+                ptr_name = self.__group.add_optional_pointer(var)
+                self.__optional_vars[vstdname] = (dict_var, ptr_name)
             # end if
 
         # end for
@@ -1701,38 +1727,47 @@ class Scheme(SuiteObject):
                 # end if
                 outfile.write('',indent)
 
-    def associate_optional_var(self, dict_var, var, var_ptr, has_transform, cldicts, indent, outfile):
-        """Write local pointer association for optional variables."""
-        if (dict_var):
-            (conditional, _) = dict_var.conditional(cldicts)
-            if (has_transform):
-                lname = var.get_prop_value('local_name')+'_local'
-            else:
-                lname = var.get_prop_value('local_name')
-            # end if
-            lname_ptr = var_ptr.get_prop_value('local_name')
-            outfile.write(f"if {conditional} then", indent)
-            outfile.write(f"{lname_ptr} => {lname}", indent+1)
-            outfile.write(f"end if", indent)
-        # end if
-
-    def assign_pointer_to_var(self, dict_var, var, var_ptr, has_transform, cldicts, indent, outfile):
-        """Assign local pointer to variable."""
-        if (dict_var):
-            intent = var.get_prop_value('intent')
-            if (intent == 'out' or intent == 'inout'):
-                (conditional, _) = dict_var.conditional(cldicts)
-                if (has_transform):
-                    lname = var.get_prop_value('local_name')+'_local'
-                else:
-                    lname = var.get_prop_value('local_name')
-                # end if
-                lname_ptr = var_ptr.get_prop_value('local_name')
-                outfile.write(f"if {conditional} then", indent)
-                outfile.write(f"{lname} = {lname_ptr}", indent+1)
-                outfile.write(f"end if", indent)
-            # end if
+    @staticmethod
+    def is_conditional(var, dict_var, found):
+        """Return True iff <var>, an argument of this Scheme, is optional and
+        the variable for it, <dict_var>, is not always there."""
+        if not var.get_prop_value('optional'):
+            return False
+        # end if
+        if (not found) or (dict_var is None):
+            return not var.get_prop_value('default_value')
+        # end if
+        return dict_var.get_prop_value('active').lower() != '.true.'
+
+    def active_condition(self, standard_name, cldicts):
+        """Return the condition for which the argument with standard name,
+        <standard_name>, is present or None if it is always present."""
+        dict_var, _ = self.__optional_vars.get(standard_name, (None, None))
+        if dict_var is None:
+            return None
+        # end if
+        return dict_var.conditional(cldicts)[0]
+
+    def associate_optional_var(self, standard_name, cldicts, trans_lnames,
+                               indent, outfile):
+        """Write local pointer association for an optional variable."""
+        dict_var, lname_ptr = self.__optional_vars[standard_name]
+        if dict_var is None:
+            outfile.write(f"nullify({lname_ptr})", indent)
+            return
         # end if
+        var = self.call_list.find_variable(standard_name=standard_name,
+                                           any_scope=False)
+        lname = self.call_list.call_name(var, cldicts=cldicts,
+                                         is_func_call=True,
+                                         subname=self.subroutine_name,
+                                         sub_lname_list=trans_lnames)
+        conditional = self.active_condition(standard_name, cldicts)
+        outfile.write(f"if ({conditional}) then", indent)
+        outfile.write(f"{lname_ptr} => {lname}", indent+1)
+        outfile.write("else", indent)
+        outfile.write(f"nullify({lname_ptr})", indent+1)
+        outfile.write("end if", indent)
 
     def __dim_local_name(self, dim_name):
         """Return the name by which our group knows the dimension variable
@@ -1891,7 +1926,7 @@ class Scheme(SuiteObject):
         return lvar.get_prop_value('local_name'), indices
 
     def write_var_transform(self, var, dummy, rindices, lindices, compat_obj,
-                            outfile, indent, forward):
+                            outfile, indent, forward, conditional=None):
         """Write variable transformation needed to call this Scheme in <outfile>.
         <var> is the variable that needs transformation before and after calling Scheme.
         <dummy> is the local variable needed for the transformation..
@@ -1899,6 +1934,7 @@ class Scheme(SuiteObject):
         <rindices> are the RHS indices of <var>   for reverse transforms (before Scheme).
         <lindices> are the LHS indices of <var>   for forward transforms (after  Scheme).
         <rindices> are the RHS indices of <dummy> for forward transforms (after  Scheme).
+        <conditional> is the condition for which <var> is active (if any).
         """
         #
         # Write reverse (pre-Scheme) transform.
@@ -1919,7 +1955,13 @@ class Scheme(SuiteObject):
                                                 lvar_indices=rindices,
                                                 rvar_indices=lindices)
         # end if
-        outfile.write(stmt, indent)
+        if conditional is None:
+            outfile.write(stmt, indent)
+        else:
+            outfile.write(f"if ({conditional}) then", indent)
+            outfile.write(stmt, indent+1)
+            outfile.write("end if", indent)
+        # end if
 
     def write(self, outfile, errcode, errmsg, indent):
         # Unused arguments are for consistent write interface
@@ -1933,10 +1975,13 @@ class Scheme(SuiteObject):
         #    scheme through its local transform variable.
         trans_lnames = [(x[0], x[2]) for x in self.__reverse_transforms]
         trans_lnames.extend([(x[2], x[1]) for x in self.__forward_transforms])
+        #    Any variable which may not be there is passed with a pointer.
+        ptr_lnames = {x: self.__optional_vars[x][1] for x in self.__optional_vars}
         my_args = self.call_list.call_string(cldicts=cldicts,
                                              is_func_call=True,
                                              subname=self.subroutine_name,
-                                             sub_lname_list=trans_lnames)
+                                             sub_lname_list=trans_lnames,
+                                             ptr_lnames=ptr_lnames)
         #
         outfile.write('', indent)
         outfile.write('if ({} == 0) then'.format(errcode), indent)
@@ -1971,7 +2016,8 @@ class Scheme(SuiteObject):
             # from <var> and replace its local_name with the local_name of the
             # variable in the Group (or its Suite).
             lvar_lname, rindices = self.transform_source(var_sname, rindices, cldicts)
-            tstmt = self.write_var_transform(lvar_lname, dummy, rindices, lindices, compat_obj, outfile, indent+1, False)
+            conditional = self.active_condition(var_sname, cldicts)
+            tstmt = self.write_var_transform(lvar_lname, dummy, rindices, lindices, compat_obj, outfile, indent+1, False, conditional=conditional)
         # end for
         outfile.write('',indent+1)
         #
@@ -1980,8 +2026,9 @@ class Scheme(SuiteObject):
         if self.__optional_vars:
             outfile.write('! Associate conditional variables', indent+1)
         # end if 
-        for (dict_var, var, var_ptr, has_transform) in self.__optional_vars:
-            tstmt = self.associate_optional_var(dict_var, var, var_ptr, has_transform, cldicts, indent+1, outfile)
+        for var_sname in self.__optional_vars:
+            self.associate_optional_var(var_sname, cldicts, trans_lnames,
+                                        indent+1, outfile)
         # end for
         # 
         # Write the scheme call.
@@ -1994,18 +2041,6 @@ class Scheme(SuiteObject):
             outfile.write('',indent+1)
         # end if
         #
-        # Copy any local pointers.
-        #
-        first_ptr_declaration=True
-        for (dict_var, var, var_ptr, has_transform) in self.__optional_vars:
-            if first_ptr_declaration: 
-                outfile.write('! Copy any local pointers to dummy/local variables', indent+1)
-                first_ptr_declaration=False
-            # end if
-            tstmt = self.assign_pointer_to_var(dict_var, var, var_ptr, has_transform, cldicts, indent+1, outfile)
-        # end for
-        outfile.write('',indent+1)
-        #
         # Write any forward (post-Scheme) transforms.
         #
         if len(self.__forward_transforms) > 0:
@@ -2018,7 +2053,8 @@ class Scheme(SuiteObject):
             # from <var> and replace its local_name with the local_name of the
             # variable in the Group (or its Suite).
             lvar_lname, rindices = self.transform_source(var_sname, rindices, cldicts)
-            tstmt = self.write_var_transform(lvar_lname, dummy, rindices, lindices, compat_obj, outfile, indent+1, True)
+            conditional = self.active_condition(var_sname, cldicts)
+            tstmt = self.write_var_transform(lvar_lname, dummy, rindices, lindices, compat_obj, outfile, indent+1, True, conditional=conditional)
         # end for
         outfile.write('', indent)
         outfile.write('end if', indent)
@@ -2392,6 +2428,7 @@ class Group(SuiteObject):
         self._ddt_library = None
         self._scheme_library = {}
         self.transform_locals = list()
+        self.__optional_pointers = {} # (<kind>, <dimstr>, <type>) by local name
 
     def phase_match(self, scheme_name):
         """If scheme_name matches the group phase, return the group and
@@ -2585,6 +2622,24 @@ class Group(SuiteObject):
         # end if
         return fvar
 
+    def add_optional_pointer(self, var):
+        """Return the name of a local pointer for <var>, an optional argument
+        of one of our schemes. Schemes may share a pointer if it fits."""
+        dims = var.get_dimensions()
+        dimstr = '(' + ','.join([':']*len(dims)) + ')' if dims else ''
+        vtype = 'type' if var.is_ddt() else var.get_prop_value('type')
+        props = (var.get_prop_value('kind'), dimstr, vtype)
+        base = var.get_prop_value('local_name') + '_ptr'
+        name = base
+        count = 0
+        while ((self.__optional_pointers.get(name, props) != props) or
+               self.call_list.find_local_name(name)):
+            count += 1
+            name = f"{base}{count}"
+        # end while
+        self.__optional_pointers[name] = props
+        return name
+
     def write(self, outfile, host_arglist, indent, const_mod,
               suite_vars=None, allocate=False, deallocate=False):
         """Write code for this subroutine (Group), including contents,
@@ -2599,17 +2654,12 @@ class Group(SuiteObject):
         # end if
         # Collect information on local variables
         subpart_allocate_vars = {}
-        subpart_optional_vars = {}
         subpart_scalar_vars = {}
         allocatable_var_set = set()
-        optional_var_set = set()
-        pointer_var_set = list()
-        inactive_var_set = list()
         for item in [self]:# + self.parts:
             for var in item.declarations():
                 lname = var.get_prop_value('local_name')
-                sname = var.get_prop_value('standard_name')
-                if (lname in subpart_allocate_vars) or (lname in subpart_optional_vars) or (lname in subpart_scalar_vars):
+                if (lname in subpart_allocate_vars) or (lname in subpart_scalar_vars):
                     if subpart_allocate_vars[lname][0].compatible(var, self.run_env):
                         pass # We already are going to declare this variable
                     else:
@@ -2620,61 +2670,13 @@ class Group(SuiteObject):
                     opt_var = var.get_prop_value('optional')
                     dims = var.get_dimensions()
                     if (dims is not None) and dims:
-                        if opt_var:
-                            if (self.call_list.find_variable(standard_name=sname)):
-                                subpart_optional_vars[lname] = (var, item, opt_var)
-                                optional_var_set.add(lname)
-                            else:
-                                inactive_var_set.append(var)
-                            # end if
-                        else:
-                            subpart_allocate_vars[lname] = (var, item, opt_var)
-                            allocatable_var_set.add(lname)
-                        # end if
+                        subpart_allocate_vars[lname] = (var, item, opt_var)
+                        allocatable_var_set.add(lname)
                     else:
                         subpart_scalar_vars[lname] = (var, item, opt_var)
                     # end if
                 # end if
             # end for
-            # All optional dummy variables within group need to have 
-            # an associated pointer array declared. 
-            for cvar in self.call_list.variable_list():
-                opt_var = cvar.get_prop_value('optional')
-                if opt_var:
-                    name = cvar.get_prop_value('local_name')+'_ptr'
-                    kind = cvar.get_prop_value('kind')
-                    dims = cvar.get_dimensions()
-                    if cvar.is_ddt():
-                        vtype = 'type'
-                    else:
-                        vtype = cvar.get_prop_value('type')
-                    # end if
-                    if dims:
-                        dimstr = '(:' + ',:'*(len(dims) - 1) + ')'
-                    else:
-                        dimstr = ''
-                    # end if
-                    pointer_var_set.append([name,kind,dimstr,vtype])
-                # end if
-            # end for
-            # Any optional arguments that are not requested by the host need to have
-            # a local null pointer passed from the group to the scheme.
-            for ivar in inactive_var_set:
-                name = ivar.get_prop_value('local_name')+'_ptr'
-                kind = ivar.get_prop_value('kind')
-                dims = ivar.get_dimensions()
-                if ivar.is_ddt():
-                    vtype = 'type'
-                else:
-                    vtype = ivar.get_prop_value('type')
-                # end if
-                if dims:
-                    dimstr = '(:' + ',:'*(len(dims) - 1) + ')'
-                else:
-                    dimstr = ''
-                # end if
-                pointer_var_set.append([name,kind,dimstr,vtype])
-            # end for
             # Any arguments used in variable transforms before or after the
             # Scheme call? If so, declare local copy for reuse in the Group cap.
             for ivar in self.transform_locals:
@@ -2720,8 +2722,7 @@ class Group(SuiteObject):
         self._ddt_library.write_ddt_use_statements(call_vars, outfile,
                                                    indent+1, pad=modmax)
         decl_vars = ([x[0] for x in subpart_allocate_vars.values()] +
-                     [x[0] for x in subpart_scalar_vars.values()] +
-                     [x[0] for x in subpart_optional_vars.values()])
+                     [x[0] for x in subpart_scalar_vars.values()])
         self._ddt_library.write_ddt_use_statements(decl_vars, outfile,
                                                    indent+1, pad=modmax)
         outfile.write('', 0)
@@ -2734,7 +2735,7 @@ class Group(SuiteObject):
         # end if
         self.call_list.declare_variables(outfile, indent+1, dummy=True)
         # DECLARE local variables
-        if subpart_allocate_vars or subpart_scalar_vars or subpart_optional_vars:
+        if subpart_allocate_vars or subpart_scalar_vars or self.__optional_pointers:
             outfile.write('\n! Local Variables', indent+1)
         # end if
         # Scalars
@@ -2754,18 +2755,9 @@ class Group(SuiteObject):
                           allocatable=(key in allocatable_var_set),
                           target=target)
         # end for
-        # Target arrays.
-        for key in subpart_optional_vars:
-            var = subpart_optional_vars[key][0]
-            spdict = subpart_optional_vars[key][1]
-            target = subpart_optional_vars[key][2]
-            var.write_def(outfile, indent+1, spdict,
-                          allocatable=(key in optional_var_set),
-                          target=target)
-        # end for
         # Pointer variables
-        for (name, kind, dim, vtype) in pointer_var_set:
-            var.write_ptr_def(outfile, indent+1, name,  kind, dim, vtype)
+        for name, (kind, dim, vtype) in self.__optional_pointers.items():
+            Var.write_ptr_def(outfile, indent+1, name, kind, dim, vtype)
         # end for
         outfile.write('', 0)
         # Get error variable names
@@ -2821,12 +2813,6 @@ class Group(SuiteObject):
             alloc_str = self.allocate_dim_str(dims, var.context)
             outfile.write(alloc_stmt.format(lname, alloc_str), indent+1)
         # end for
-        for lname in sorted(optional_var_set):
-            var = subpart_optional_vars[lname][0]
-            dims = var.get_dimensions()
-            alloc_str = self.allocate_dim_str(dims, var.context)
-            outfile.write(alloc_stmt.format(lname, alloc_str), indent+1)
-        # end for
         # Allocate suite vars
         if allocate:
             outfile.write('\n! Allocate suite_vars', indent+1)
@@ -2854,17 +2840,6 @@ class Group(SuiteObject):
         for lname in sorted(allocatable_var_set):
             outfile.write('if (allocated({})) {} deallocate({})'.format(lname,' '*(20-len(lname)),lname), indent+1)
         # end for
-        for lname in sorted(optional_var_set):
-            outfile.write('if (allocated({})) {} deallocate({})'.format(lname,' '*(20-len(lname)),lname), indent+1)
-        # end for
-        # Nullify local pointers
-        if pointer_var_set:
-            outfile.write('\n! Nullify local pointers', indent+1)
-        # end if
-        for (name, kind, dim, vtype) in pointer_var_set:
-            #cspace = ' '*(15-len(name))
-            outfile.write('if (associated({})) {} nullify({})'.format(name,' '*(15-len(name)),name), indent+1)
-        # end fo
         # Deallocate suite vars
         if deallocate:
             for svar in suite_vars.variable_list():
-- 
2.43.0


From ce45a6a1002758b6f426b0e9d81533dd04edcf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:59 +0000
Subject: [PATCH 31/84] fix: arithmetic operators were dropped from the
 condition of a variable

A condition such as 'active = (number - 1 > 0)' lost its minus sign on the
way into the caps.
---
 scripts/metavar.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index ae0ab39..76a51aa 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1010,8 +1010,12 @@ class Var:
 
         # Find all words in the conditional, for each of them look
         # for a matching standard name in the list of known variables
-        items = FORTRAN_CONDITIONAL_REGEX.findall(active)
-        for item in items:
+        last = 0
+        for match in FORTRAN_CONDITIONAL_REGEX.finditer(active):
+            item = match.group()
+            # Keep what is between the words (e.g., arithmetic operators)
+            conditional += active[last:match.start()]
+            last = match.end()
             item = item.lower()
             if item in FORTRAN_CONDITIONAL_REGEX_WORDS:
                 conditional += item
@@ -1038,6 +1042,7 @@ class Var:
                         raise Exception(f"Cannot find variable '{item}' for generating conditional for '{active}'")
                     conditional += dvar.get_prop_value('local_name')
                     vars_needed.append(dvar)
+        conditional += active[last:]
         return (conditional, vars_needed)
 
     def write_def(self, outfile, indent, wdict, allocatable=False, target=False,
-- 
2.43.0


From 00dcf15053f5e9bb695702ed9392340a007ca593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:02 +0000
Subject: [PATCH 32/84] fix: sections of host module arrays in use statements

A host variable which is a section of a module array, e.g.
q(:,:,index_of_x), made the host cap say 'use mod, only: q(:,:,index_of_x)'.
---
 scripts/host_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/host_model.py b/scripts/host_model.py
index c3beb44..ac2326b 100644
--- a/scripts/host_model.py
+++ b/scripts/host_model.py
@@ -195,7 +195,8 @@ class HostModel(VarDictionary):
             module = self.host_variable_module(name)
             used = self.__used_variables and (name in self.__used_variables)
             if module and used and (module != cap_modname):
-                varset.add((module, name))
+                # A reference to part of an array needs the whole array
+                varset.add((module, name.partition('(')[0].strip()))
             # No else, either no module or a zero-length module name
             # End if
         # End for
-- 
2.43.0


From 0b9b6fef0a0db93f5af51d706871e6149cde8cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:02 +0000
Subject: [PATCH 33/84] fix: literal sizes in dimensions

A dimension such as 3 was accepted, but debug checks, optional arguments,
suite variables and transformations looked for a variable of that name.
---
 scripts/metavar.py       |  5 ++++
 scripts/suite_objects.py | 58 ++++++++++++++++++++++------------------
 2 files changed, 37 insertions(+), 26 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 76a51aa..61151ab 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -625,6 +625,11 @@ class Var:
                 if (not dvar) and add_dims:
                     dnames = []
                     for stdname in dstdnames:
+                        if stdname.isdigit():
+                            # A literal size
+                            dnames.append(stdname)
+                            continue
+                        # end if
                         for vdict in var_dicts:
                             dvar = vdict.find_variable(standard_name=stdname,
                                                        any_scope=False)
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 121fa57..e22828b 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1503,15 +1503,14 @@ class Scheme(SuiteObject):
                         raise Exception(f"No dimension with standard name '{dim}'")
                     self.update_group_call_list_variable(dim_var)
                 else:
-                    (ldim, udim) = dim.split(":")
-                    ldim_var = self.find_variable(standard_name=ldim)
-                    if not ldim_var:
-                        raise Exception(f"No dimension with standard name '{ldim}'")
-                    self.update_group_call_list_variable(ldim_var)
-                    udim_var = self.find_variable(standard_name=udim)
-                    if not udim_var:
-                        raise Exception(f"No dimension with standard name '{udim}'")
-                    self.update_group_call_list_variable(udim_var)
+                    for bdim in dim.split(":"):
+                        if bdim.isdigit():
+                            # A literal bound
+                            continue
+                        bdim_var = self.find_variable(standard_name=bdim)
+                        if not bdim_var:
+                            raise Exception(f"No dimension with standard name '{bdim}'")
+                        self.update_group_call_list_variable(bdim_var)
 
         # Add the variable to the list of variables to check. Record which internal_var to use.
         self.__var_debug_checks.append([var, internal_var])
@@ -1659,23 +1658,21 @@ class Scheme(SuiteObject):
                         (dim_length, dim_string, lbound_string, ubound_string) = \
                             self.replace_horiz_dim_debug_check(dim, cldicts, var_in_call_list)
                     else:
-                        (ldim, udim) = dim.split(":")
-                        # Get dimension for lower bound
-                        for var_dict in cldicts:
-                            dvar = var_dict.find_variable(standard_name=ldim, any_scope=False)
-                            if dvar is not None:
-                                break
-                        if not dvar:
-                            raise Exception(f"No variable with standard name '{ldim}' in cldicts")
-                        ldim_lname = dvar.get_prop_value('local_name')
-                        # Get dimension for upper bound
-                        for var_dict in cldicts:
-                            dvar = var_dict.find_variable(standard_name=udim, any_scope=False)
-                            if dvar is not None:
-                                break
-                        if not dvar:
-                            raise Exception(f"No variable with standard name '{udim}' in cldicts")
-                        udim_lname = dvar.get_prop_value('local_name')
+                        # Get the local names of the lower and upper bound
+                        bnames = []
+                        for bdim in dim.split(":"):
+                            if bdim.isdigit():
+                                # A literal bound
+                                bnames.append(bdim)
+                                continue
+                            for var_dict in cldicts:
+                                dvar = var_dict.find_variable(standard_name=bdim, any_scope=False)
+                                if dvar is not None:
+                                    break
+                            if not dvar:
+                                raise Exception(f"No variable with standard name '{bdim}' in cldicts")
+                            bnames.append(dvar.get_prop_value('local_name'))
+                        (ldim_lname, udim_lname) = bnames
                         # Assemble dimensions and bounds for size checking
                         dim_length = f'{udim_lname}-{ldim_lname}+1'
                         dim_string = ":"
@@ -1774,6 +1771,10 @@ class Scheme(SuiteObject):
         with standard name, <dim_name>. The variable is added to the group's
         call list if it is not available there (e.g., because the scheme
         does not use it or uses it later in its argument list)."""
+        if dim_name.isdigit():
+            # A literal size
+            return dim_name
+        # end if
         dvar = self.__group.call_list.find_variable(standard_name=dim_name)
         if dvar is None:
             self.__group.add_loop_variable(dim_name)
@@ -2580,6 +2581,11 @@ class Group(SuiteObject):
             rdparts = list()
             dparts = dim.split(':')
             for dpart in dparts:
+                if dpart.isdigit():
+                    # A literal size
+                    rdparts.append(dpart)
+                    continue
+                # end if
                 dvar = self.find_variable(standard_name=dpart, any_scope=False)
                 if dvar is None:
                     dvar = self.call_list.find_variable(standard_name=dpart,
-- 
2.43.0


From 875bf332d4aecd2c15d733d0b3ddf272e349fbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:30 +0000
Subject: [PATCH 34/84] fix: argument names which clash with names a group
 already uses

A group named its dummy arguments after the local names of its schemes'
arguments and of the dimension variables without checking that the name
was free: clashes were either rejected ("already registered") or made a
group with two dummy arguments of one name.
---
 scripts/metavar.py       |  2 +-
 scripts/suite_objects.py | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 61151ab..74a07a4 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1769,7 +1769,7 @@ class VarDictionary(OrderedDict):
                 if dvar and (dvar.source.ptype not in ignore_sources):
                     if to_dict:
                         to_dict.add_variable(dvar, self.__run_env,
-                                             exists_ok=True,
+                                             exists_ok=True, gen_unique=True,
                                              adjust_intent=adjust_intent)
                     else:
                         self.add_variable(dvar, self.__run_env, exists_ok=True,
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index e22828b..d11331a 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -543,7 +543,8 @@ class SuiteObject(VarDictionary):
             else:
                 found_dims = True
                 for svar in svars:
-                    self.add_call_list_variable(svar, exists_ok=True)
+                    self.add_call_list_variable(svar, exists_ok=True,
+                                                gen_unique=True)
                 # end for
                 # Register the action (probably at Group level)
                 self.register_action(vmatch)
@@ -599,7 +600,8 @@ class SuiteObject(VarDictionary):
                         obj = self
                     # end if
                     for svar in svars:
-                        obj.add_call_list_variable(svar, exists_ok=True)
+                        obj.add_call_list_variable(svar, exists_ok=True,
+                                                   gen_unique=True)
                     # end for
                     dim_match = ':'.join(nloop_subst.required_stdnames)
                 # end if
@@ -1257,7 +1259,7 @@ class Scheme(SuiteObject):
                     gvar = None
                 # end if
             if gvar is None:
-                my_group.add_call_list_variable(var)
+                my_group.add_call_list_variable(var, gen_unique=True)
             # end if
         # end if
 
@@ -2452,7 +2454,8 @@ class Group(SuiteObject):
             errmsg = "Group {}, cannot move {}, variable not found"
             raise ParseInternalError(errmsg.format(self.name, standard_name))
         # end if
-        self.add_call_list_variable(gvar, exists_ok=True)
+        self.add_call_list_variable(gvar, exists_ok=True,
+                                    gen_unique=True)
         self.remove_variable(standard_name)
 
     def register_action(self, vaction):
-- 
2.43.0


From 7544cfe1f8c3ae555a2b9d090d44993d8a568b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:01 +0000
Subject: [PATCH 35/84] fix: constituents of different schemes with the same
 local name

---
 scripts/constituents.py  | 4 +++-
 scripts/suite_objects.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/constituents.py b/scripts/constituents.py
index a8c1114..414ee76 100644
--- a/scripts/constituents.py
+++ b/scripts/constituents.py
@@ -114,7 +114,9 @@ class ConstituentVarDict(VarDictionary):
             # end for
             var = source_var.clone({'dimensions' : newdims}, remove_intent=True,
                                    source_type=self.__constituent_type)
-            self.add_variable(var, self.__run_env)
+            # Constituents of different schemes may share a local name
+            self.add_variable(var, self.__run_env, gen_unique=True)
+            var = self[standard_name]
         return var
 
     @staticmethod
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index d11331a..37a68ae 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2626,7 +2626,8 @@ class Group(SuiteObject):
             if fvar.source.ptype == ConstituentVarDict.constitutent_source_type():
                 # We found this variable in the constituent dictionary,
                 #   add it to our call list
-                self.add_call_list_variable(fvar, exists_ok=True)
+                self.add_call_list_variable(fvar, exists_ok=True,
+                                            gen_unique=True)
             # end if
         # end if
         return fvar
-- 
2.43.0


From e0f065c531d4eba0183961d8a007abb655286347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:01 +0000
Subject: [PATCH 36/84] fix: units which tendencies of constituents must have

---
 scripts/var_props.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scripts/var_props.py b/scripts/var_props.py
index fcbed74..9930398 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -958,13 +958,17 @@ class VarCompatObj:
             # Check units argument
             if is_tend:
                 # A tendency variable's units should be "<var2_units> s-1"
-                tendency_split_units = var1_units.split('s-1')[0].strip()
-                if tendency_split_units != var2_units:
+                #   (where "1 s-1" is written "s-1")
+                tendency_units = f"{var2_units} s-1"
+                if var2_units == '1':
+                    tendency_units = "s-1"
+                # end if
+                if var1_units != tendency_units:
                     # We don't currently support unit conversions for tendency variables
                     emsg = f"\nMismatch tendency variable units '{var1_units}'"
                     emsg += f" for variable '{var1_stdname}'."
                     emsg += " No variable transforms supported for tendencies."
-                    emsg += f" Tendency units should be '{var2_units} s-1' to match state variable."
+                    emsg += f" Tendency units should be '{tendency_units}' to match state variable."
                     self.__equiv = False
                     self.__compat = False
                     incompat_reason.append(emsg)
-- 
2.43.0


From 9464c1aed294c314b0bfa7fc9bc1d45e3abb0b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:01 +0000
Subject: [PATCH 37/84] fix: registration copies host and dynamic constituents

The constituents object frees its fields when it is reset but was given
pointers to elements of arrays. Suites which were never registered have no
array of dynamic constituents.
---
 scripts/constituents.py | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/scripts/constituents.py b/scripts/constituents.py
index 414ee76..abd758a 100644
--- a/scripts/constituents.py
+++ b/scripts/constituents.py
@@ -450,6 +450,15 @@ class ConstituentVarDict(VarDictionary):
             cap.write(use_str.format(smod, spc, fname), indent)
         # end for
 
+    @staticmethod
+    def __write_alloc_prop(cap, indent, herrcode, herrmsg):
+        """Write code to allocate <const_prop> to <cap>"""
+        cap.write(f"allocate(const_prop, stat={herrcode})", indent)
+        cap.write(f"if ({herrcode} /= 0) then", indent)
+        cap.write(f'{herrmsg} = "ERROR allocating const_prop"', indent+1)
+        cap.write("return", indent+1)
+        cap.write("end if", indent)
+
     @staticmethod
     def write_host_routines(cap, host, reg_funcname, init_funcname, num_const_funcname,
                             query_const_funcname, copy_in_funcname, copy_out_funcname, cleanup_funcname,
@@ -526,8 +535,11 @@ class ConstituentVarDict(VarDictionary):
         cap.write(stmt, 2)
         # Register host model constituents
         cap.comment("Add host model constituent metadata", 2)
+        # (the constituents object frees its fields when it is reset, so it
+        #  is always given a copy of its own)
         cap.write("do index = 1, size(host_constituents, 1)", 2)
-        cap.write("const_prop => host_constituents(index)", 3)
+        ConstituentVarDict.__write_alloc_prop(cap, 3, herrcode, herrmsg)
+        cap.write("const_prop = host_constituents(index)", 3)
         stmt = f"call {const_obj_name}%new_field(const_prop, {obj_err_callstr})"
         cap.write(stmt, 3)
         cap.write("nullify(const_prop)", 3)
@@ -539,15 +551,19 @@ class ConstituentVarDict(VarDictionary):
         # Register dynamic constituents
         cap.comment("Add dynamic constituent properties", 2)
         for dyn_const in dyn_const_names:
-           cap.write(f"do index = 1, size({dyn_const}, 1)", 2)
-           cap.write(f"const_prop => {dyn_const}(index)", 3)
+           # (a suite which was not registered has no array)
+           cap.write(f"if (allocated({dyn_const})) then", 2)
+           cap.write(f"do index = 1, size({dyn_const}, 1)", 3)
+           ConstituentVarDict.__write_alloc_prop(cap, 4, herrcode, herrmsg)
+           cap.write(f"const_prop = {dyn_const}(index)", 4)
            stmt = f"call {const_obj_name}%new_field(const_prop, {obj_err_callstr})"
-           cap.write(stmt, 3)
-           cap.write("nullify(const_prop)", 3)
-           cap.write(f"if ({herrcode} /= 0) then", 3)
-           cap.write("return", 4)
-           cap.write("end if", 3)
-           cap.write("end do", 2)
+           cap.write(stmt, 4)
+           cap.write("nullify(const_prop)", 4)
+           cap.write(f"if ({herrcode} /= 0) then", 4)
+           cap.write("return", 5)
+           cap.write("end if", 4)
+           cap.write("end do", 3)
+           cap.write("end if", 2)
         # end for
 
         # Register suite constituents
@@ -563,11 +579,7 @@ class ConstituentVarDict(VarDictionary):
             cap.write("end if", 2)
             funcname = const_dict.copy_const_subname()
             cap.write("do index = 1, num_suite_consts", 2)
-            cap.write(f"allocate(const_prop, stat={herrcode})", 3)
-            cap.write(f"if ({herrcode} /= 0) then", 3)
-            cap.write(f'{herrmsg} = "ERROR allocating const_prop"', 4)
-            cap.write("return", 4)
-            cap.write("end if", 3)
+            ConstituentVarDict.__write_alloc_prop(cap, 3, herrcode, herrmsg)
             stmt = f"call {funcname}(index, const_prop, {errvar_str})"
             cap.write(stmt, 3)
             cap.write(f"if ({herrcode} /= 0) then", 3)
-- 
2.43.0


From 4724e48a97a9a54d8e861576622a04dc09e91e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:01 +0000
Subject: [PATCH 38/84] fix: names of dynamic constituent arrays in the host
 cap

---
 scripts/host_cap.py | 47 +++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/scripts/host_cap.py b/scripts/host_cap.py
index 20d4014..ffc6430 100644
--- a/scripts/host_cap.py
+++ b/scripts/host_cap.py
@@ -493,10 +493,12 @@ def add_constituent_vars(cap, host_model, suite_list, run_env):
 
 ###############################################################################
 def suite_part_call_list(host_model, const_dict, suite_part, subst_loop_vars,
-                         dyn_const=False):
+                         dyn_consts=None):
 ###############################################################################
     """Return the <host_model> controlled call list for <suite_part>.
-    <const_dict> is the constituent dictionary"""
+    <const_dict> is the constituent dictionary
+    <dyn_consts>, if present, has the name of the actual argument for the
+    standard name of each dynamic constituent array."""
     spart_args = suite_part.call_list.variable_list(loop_vars=subst_loop_vars)
     hmvars = list() # Host model to spart dummy args
     if subst_loop_vars:
@@ -508,8 +510,8 @@ def suite_part_call_list(host_model, const_dict, suite_part, subst_loop_vars,
         stdname = sp_var.get_prop_value('standard_name')
         sp_lname = sp_var.get_prop_value('local_name')
         if sp_var.get_prop_value('type') == 'ccpp_constituent_properties_t':
-            if dyn_const:
-                hmvars.append(f"{sp_lname}={sp_lname}")
+            if dyn_consts is not None:
+                hmvars.append(f"{sp_lname}={dyn_consts[stdname]}")
             # end if
             continue
         # end if
@@ -605,7 +607,8 @@ def write_host_cap(host_model, api, module_name, output_dir, run_env):
             # Create a dict of local variables for stage
             host_local_vars = VarDictionary(f"{host_model.name}_{stage}",
                                             run_env)
-            # Names of the dynamic constituent arrays of each suite
+            # Names of the dynamic constituent arrays (of each suite)
+            dyn_const_names = {}
             suite_dyn_consts = {suite.name : [] for suite in api.suites}
             # Create part call lists
             # Look for any loop-variable mismatch
@@ -622,15 +625,17 @@ def write_host_cap(host_model, api, module_name, output_dir, run_env):
                                              'local_name' : sp_var.get_prop_value('local_name'),
                                              'dimensions' : '(:)', 'units' : 'none',
                                              'allocatable' : True, 'ddt_type' : 'ccpp_constituent_properties_t'}
-                                lname = sp_var.get_prop_value('local_name')
                                 # Suites may share a dynamic constituent array
-                                hvar = host_local_vars.find_variable(standard_name=stdname,
-                                                                     any_scope=False)
-                                if ((hvar is None) or
-                                    (hvar.get_prop_value('local_name') != lname)):
+                                #    or use a local name for different arrays
+                                if stdname not in dyn_const_names:
                                     newvar = Var(prop_dict, _API_SOURCE, run_env)
-                                    host_local_vars.add_variable(newvar, run_env)
+                                    host_local_vars.add_variable(newvar, run_env,
+                                                                 gen_unique=True)
+                                    newvar = host_local_vars[stdname]
+                                    lname = newvar.get_prop_value('local_name')
+                                    dyn_const_names[stdname] = lname
                                 # end if
+                                lname = dyn_const_names[stdname]
                                 suite_dyn_consts[suite.name].append(lname)
                                 continue
                             else:
@@ -647,19 +652,23 @@ def write_host_cap(host_model, api, module_name, output_dir, run_env):
                     # End for (loop over part variables)
                 # End for (loop of suite parts)
             # End for (loop over suites)
-            if any(suite_dyn_consts.values()):
+            if dyn_const_names:
                 prop_dict = {'standard_name' : 'unused_count',
                              'local_name' : 'num_dyn_consts',
                              'dimensions' : '()', 'units' : 'count',
                              'type' : 'integer'}
                 newvar = Var(prop_dict, _API_SOURCE, run_env)
-                host_local_vars.add_variable(newvar, run_env)
+                host_local_vars.add_variable(newvar, run_env, gen_unique=True)
+                newvar = host_local_vars['unused_count']
+                num_dyn_consts = newvar.get_prop_value('local_name')
                 prop_dict = {'standard_name' : 'unused_index',
                              'local_name' : 'const_index',
                              'dimensions' : '()', 'units' : 'none',
                              'type': 'integer'}
                 newvar = Var(prop_dict, _API_SOURCE, run_env)
-                host_local_vars.add_variable(newvar, run_env)
+                host_local_vars.add_variable(newvar, run_env, gen_unique=True)
+                newvar = host_local_vars['unused_index']
+                const_index = newvar.get_prop_value('local_name')
             # end if
             run_stage = stage == 'run'
             # All interfaces need the suite name
@@ -750,7 +759,7 @@ def write_host_cap(host_model, api, module_name, output_dir, run_env):
                     spart = suite.phase_group(stage)
                     dyn_const_array = suite_dynamic_constituent_array_name(host_model, suite.name)
                     call_str = suite_part_call_list(host_model, const_dict, spart, False,
-                                                                       dyn_const=True)
+                                                    dyn_consts=dyn_const_names)
                     cap.write(f"call {suite.name}_{stage}({call_str})", 3)
                     cap.write(f"if ({errflg_name} /= 0) then", 3)
                     cap.write("return", 4)
@@ -770,12 +779,12 @@ def write_host_cap(host_model, api, module_name, output_dir, run_env):
                     cap.write(f"allocate({dyn_const_array}({size_string[:-1]}))", 3)
                     if dyn_consts:
                         cap.comment("Pack the suite-level dynamic, run-time constituents array", 3)
-                        cap.write("num_dyn_consts = 0", 3)
+                        cap.write(f"{num_dyn_consts} = 0", 3)
                     for local_name in dyn_consts:
-                        cap.write(f"do const_index = 1, size({local_name})", 3)
-                        cap.write(f"{dyn_const_array}(num_dyn_consts + const_index) = {local_name}(const_index)", 4)
+                        cap.write(f"do {const_index} = 1, size({local_name})", 3)
+                        cap.write(f"{dyn_const_array}({num_dyn_consts} + {const_index}) = {local_name}({const_index})", 4)
                         cap.write("end do", 3)
-                        cap.write(f"num_dyn_consts = num_dyn_consts + size({local_name})", 3)
+                        cap.write(f"{num_dyn_consts} = {num_dyn_consts} + size({local_name})", 3)
                         cap.write(f"deallocate({local_name})", 3)
                     # end for
 
-- 
2.43.0


From e218b06ac0bb17475a3347f2176e4c35b483b989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:02 +0000
Subject: [PATCH 39/84] fix: names in Fortran sources are not case sensitive

---
 scripts/ccpp_capgen.py                 | 3 ++-
 scripts/fortran_tools/parse_fortran.py | 7 +++++++
 scripts/parse_tools/__init__.py        | 2 ++
 scripts/parse_tools/parse_source.py    | 3 ++-
 4 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index 313cc6e..1027d8f 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -400,8 +400,9 @@ def check_fortran_against_metadata(meta_headers, fort_headers,
     for mheader in meta_headers:
         fheader = None
         mtitle = mheader.title
+        # (Fortran names are not case sensitive)
         for findex in range(len(fort_headers)): #pylint: disable=consider-using-enumerate
-            if fort_headers[findex].title == mtitle:
+            if fort_headers[findex].title.lower() == mtitle.lower():
                 fheader = fort_headers.pop(findex)
                 break
             # end if
diff --git a/scripts/fortran_tools/parse_fortran.py b/scripts/fortran_tools/parse_fortran.py
index e7d3c49..dd6a106 100644
--- a/scripts/fortran_tools/parse_fortran.py
+++ b/scripts/fortran_tools/parse_fortran.py
@@ -13,6 +13,7 @@ from parse_tools import ParseSyntaxError, ParseInternalError
 from parse_tools import ParseContext, context_string
 from parse_tools import check_fortran_intrinsic
 from parse_tools import check_balanced_paren, unique_standard_name
+from parse_tools import registered_fortran_ddt_names
 #pylint: disable=unused-import
 from parse_tools import ParseSource # Used in doctest
 #pylint: enable=unused-import
@@ -789,6 +790,12 @@ def parse_fortran_var_decl(line, source, run_env):
             if isinstance(tobject, FtypeTypeDecl):
                 prop_dict['ddt_type'] = tobject.typestr
             else:
+                # (Fortran names are not case sensitive)
+                for ddt_name in registered_fortran_ddt_names():
+                    if ddt_name.lower() == tobject.typestr.lower():
+                        prop_dict['ddt_type'] = ddt_name
+                    # end if
+                # end for
                 prop_dict['type'] = tobject.typestr
             # end if
             if tobject.kind() is not None:
diff --git a/scripts/parse_tools/__init__.py b/scripts/parse_tools/__init__.py
index 309bbda..743c088 100644
--- a/scripts/parse_tools/__init__.py
+++ b/scripts/parse_tools/__init__.py
@@ -20,6 +20,7 @@ from parse_checkers import check_diagnostic_id, check_diagnostic_fixed
 from parse_checkers import check_fortran_type, check_balanced_paren
 from parse_checkers import fortran_list_match
 from parse_checkers import registered_fortran_ddt_name
+from parse_checkers import registered_fortran_ddt_names
 from parse_checkers import register_fortran_ddt_name
 from parse_checkers import check_units, check_dimensions, check_cf_standard_name
 from parse_checkers import check_default_value, check_valid_values, check_molar_mass
@@ -68,6 +69,7 @@ __all__ = [
     'register_fortran_ddt_name',
     'read_xml_file',
     'registered_fortran_ddt_name',
+    'registered_fortran_ddt_names',
     'reset_standard_name_counter',
     'set_log_level',
     'set_log_to_file',
diff --git a/scripts/parse_tools/parse_source.py b/scripts/parse_tools/parse_source.py
index 2ed0e5b..3e87271 100644
--- a/scripts/parse_tools/parse_source.py
+++ b/scripts/parse_tools/parse_source.py
@@ -323,7 +323,8 @@ class ParseContext():
                                         self)
             # End if
             if (region_name is not None) and (curr_name is not None):
-                if region_name != curr_name:
+                # (Fortran names are not case sensitive)
+                if region_name.lower() != curr_name.lower():
                     emsg = "Trying to exit {} {} while currently in {} {}"
                     raise ParseContextError(emsg.format(region_type,
                                                         region_name,
-- 
2.43.0


From 7d7fae62057f6b2fa79b94c619a5a55a364b6c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:02 +0000
Subject: [PATCH 40/84] fix: end module and end program statements without a
 name

---
 scripts/fortran_tools/parse_fortran_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index 9bc39ef..afddfb2 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -32,9 +32,9 @@ from metavar import VarDictionary
 _COMMENT_RE = re.compile(r"!.*$")
 _FIXED_COMMENT_RE = re.compile(r"(?i)([C*]|(?:[ ]{0,4}!))")
 _PROGRAM_RE = re.compile(r"(?i)\s*program\s+"+FORTRAN_ID)
-_ENDPROGRAM_RE = re.compile(r"(?i)\s*end\s*program\s+"+FORTRAN_ID+r"?")
+_ENDPROGRAM_RE = re.compile(r"(?i)\s*end\s*program\b(?:\s+"+FORTRAN_ID+r")?")
 _MODULE_RE = re.compile(r"(?i)\s*module\s+"+FORTRAN_ID)
-_ENDMODULE_RE = re.compile(r"(?i)\s*end\s*module\s+"+FORTRAN_ID+r"?")
+_ENDMODULE_RE = re.compile(r"(?i)\s*end\s*module\b(?:\s+"+FORTRAN_ID+r")?")
 _CONTAINS_RE = re.compile(r"(?i)\s*contains")
 _CONTINUE_RE = re.compile(r"(?i)&\s*(!.*)?$")
 _FIXED_CONTINUE_RE = re.compile(r"(?i)     [^0 ]")
-- 
2.43.0


From 73f70dd462713a7d1dd4c2a57bde06938ab7d738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:02 +0000
Subject: [PATCH 41/84] fix: character declarations with attributes and without
 parentheses

---
 scripts/fortran_tools/parse_fortran.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran.py b/scripts/fortran_tools/parse_fortran.py
index dd6a106..b6db2f4 100644
--- a/scripts/fortran_tools/parse_fortran.py
+++ b/scripts/fortran_tools/parse_fortran.py
@@ -337,9 +337,9 @@ class FtypeCharacter(Ftype):
     """
 
     char_re = re.compile(r"(?i)(character)\s*(\([A-Za-z0-9,=*:\s\'\"()]+\))?")
-    chartrail_re = re.compile(r"\s*[,:]|\s+[A-Z]")
+    chartrail_re = re.compile(r"(?i)\s*[,:]|\s+[A-Z]")
     oldchar_re = re.compile(r"(?i)(character)\s*(\*)\s*([0-9]+\s*)")
-    oldchartrail_re = re.compile(r"\s*[,]|\s+[A-Z]")
+    oldchartrail_re = re.compile(r"(?i)\s*[,:]|\s*[A-Z]")
     len_token_re = re.compile(r"(?i)([:]|[*]|[0-9]+|[A-Z][A-Z0-9_]*)$")
 
     @classmethod
@@ -372,7 +372,7 @@ class FtypeCharacter(Ftype):
                 raise ParseSyntaxError("character declaration",
                                        token=line, context=context)
             # end if
-            clen = match.group(3)
+            clen = match.group(3).strip()
         elif match.group(2) is not None:
             # Parse attributes (strip off parentheses)
             attrs = [x.strip() for x in match.group(2)[1:-1].split(',')]
@@ -582,7 +582,8 @@ def ftype_factory(line, context):
     if ppos >= 0:
         if 0 <= cpos < ppos:
             # Whatever parentheses there are, they are not part of type
-            line = line[0:cpos]
+            # (keep the comma, character types check what follows them)
+            line = line[0:cpos+1]
         else:
             # Find matching right parenthesis
             depth = 1
@@ -599,7 +600,7 @@ def ftype_factory(line, context):
             line = line[0:pepos+1]
         # end if
     elif cpos >= 0:
-        line = line[0:cpos]
+        line = line[0:cpos+1]
     # end if
     tmatch = Ftype.type_match(line)
     if tmatch is None:
@@ -789,13 +790,13 @@ def parse_fortran_var_decl(line, source, run_env):
             prop_dict['units'] = ''
             if isinstance(tobject, FtypeTypeDecl):
                 prop_dict['ddt_type'] = tobject.typestr
-            else:
                 # (Fortran names are not case sensitive)
                 for ddt_name in registered_fortran_ddt_names():
                     if ddt_name.lower() == tobject.typestr.lower():
                         prop_dict['ddt_type'] = ddt_name
                     # end if
                 # end for
+            else:
                 prop_dict['type'] = tobject.typestr
             # end if
             if tobject.kind() is not None:
-- 
2.43.0


From 0c905b30f3137be049091f0129f65c92a05efe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:02 +0000
Subject: [PATCH 42/84] fix: Fortran type definitions without metadata may have
 any components

---
 scripts/fortran_tools/parse_fortran_file.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index afddfb2..c54da4d 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -484,10 +484,13 @@ def is_comment_statement(statement):
 
 ########################################################################
 
-def parse_type_def(statements, type_def, mod_name, pobj, run_env):
+def parse_type_def(statements, type_def, mod_name, pobj, run_env,
+                   metadata=True):
     """Parse a type definition from <statements> and return the
     remaining statements along with a MetadataTable object representing
-    the type's variables."""
+    the type's variables.
+    If <metadata> is False, the type has no metadata so its components are
+    not parsed (and may, e.g., be of types which are unknown here)."""
     psrc = ParseSource(mod_name, 'ddt', pobj)
     seen_contains = False
     mheader = None
@@ -506,7 +509,7 @@ def parse_type_def(statements, type_def, mod_name, pobj, run_env):
                 inspec = False
             elif is_contains_statement(statement, inspec):
                 seen_contains = True
-            elif not seen_contains:
+            elif metadata and (not seen_contains):
                 # Comment of variable
                 if ((not is_comment_statement(statement)) and
                     (not parse_use_statement(statement, run_env.logger))):
@@ -591,8 +594,10 @@ def parse_preamble_data(statements, pobj, spec_name, endmatch, run_env):
                 else:
                     # We found a type definition but it is not one with
                     #   metadata. Just parse it and throw away what is found.
-                    _ = parse_type_def(statements, type_def,
-                                       spec_name, pobj, run_env)
+                    statements, _ = parse_type_def(statements, type_def,
+                                                   spec_name, pobj, run_env,
+                                                   metadata=False)
+                    statements = statements or list()
                 # end if
             elif active_table is not None:
                 # We should have a variable definition to add
@@ -826,8 +831,10 @@ def parse_specification(pobj, statements, run_env, mod_name=None,
                 # Just parse it and throw away what is found.
                 # Put statement back so caller knows where we are
                 statements.insert(0, statement)
-                _ = parse_type_def(statements, type_def,
-                                   spec_name, pobj, run_env)
+                statements, _ = parse_type_def(statements, type_def,
+                                               spec_name, pobj, run_env,
+                                               metadata=False)
+                statements = statements or list()
             elif is_contains_statement(statement, inmod):
                 inspec = False
                 break
-- 
2.43.0


From 979d9eda5b44661a2607738db5b77e5a3942bc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:02 +0000
Subject: [PATCH 43/84] fix: a property which does not exist as the first of a
 variable crashed

---
 scripts/metadata_table.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 942f8d8..6ed2bd1 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -904,19 +904,19 @@ class MetadataSection(ParseSource):
                         check_prop = Var.get_prop(pname)
                         if check_prop is not None:
                             pval = check_prop.valid_value(pval_str)
+                            if pval is None:
+                                errmsg = "'{}' property value"
+                                self.__pobj.add_syntax_err(errmsg.format(pname),
+                                                           token=pval_str)
+                                self.__section_valid = False
+                                var_ok = False
+                            # end if
                         else:
                             emsg = "variable property name"
                             self.__pobj.add_syntax_err(emsg, token=pname)
                             self.__section_valid = False
                             var_ok = False
                         # end if
-                        if pval is None:
-                            errmsg = "'{}' property value"
-                            self.__pobj.add_syntax_err(errmsg.format(pname),
-                                                       token=pval_str)
-                            self.__section_valid = False
-                            var_ok = False
-                        # end if
                     # end if
                     if var_ok:
                         # If we get this far, we have a valid property.
-- 
2.43.0


From f704d560fd28a91c44832a469e20b550b90900e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:28 +0000
Subject: [PATCH 44/84] fix: continuation lines, comments and columns of
 fixed-form sources

---
 scripts/fortran_tools/parse_fortran_file.py | 64 +++++++++++++--------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index c54da4d..063c42e 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -366,6 +366,7 @@ def read_file(filename, preproc_defs=None, logger=None):
     in_dchar = False # Double quote character context
     prev_line = None
     prev_line_num = -1
+    fixed_len = 0 # Length of the last fixed-form line
     curr_line, curr_line_num = pobj.curr_line()
     while curr_line is not None:
         # Skip empty lines and comment-only lines
@@ -375,6 +376,10 @@ def read_file(filename, preproc_defs=None, logger=None):
         elif (fixed_form and
               (_FIXED_COMMENT_RE.match(curr_line) is not None)):
             skip_line = True
+            if curr_line[0] in 'Cc*':
+                # (comments are marked by exclamation points from here on)
+                pobj.write_line(curr_line_num, "")
+            # end if
         elif curr_line.lstrip()[0] == '!':
             skip_line = True
         # End if
@@ -399,46 +404,59 @@ def read_file(filename, preproc_defs=None, logger=None):
         # End if
         # scan the line for properties
         if fixed_form:
-            res = scan_fixed_line(curr_line, in_schar, in_dchar, pobj)
-            cont_in_col, in_schar, in_dchar, comment_col = res
-            continue_col = cont_in_col # No warning in fixed form
-            cont_out_col = -1
-            if (comment_col < 0) and (continue_col < 0):
-                # Real statement, grab the line # in case is continued
+            # (statements are in columns 1 to 72, continued or not)
+            res = scan_fixed_line(curr_line[0:72], in_schar, in_dchar, pobj)
+            continue_col, in_schar, in_dchar, comment_col = res
+            if comment_col >= 0:
+                fixed_line = curr_line[0:comment_col].rstrip()
+            else:
+                fixed_line = curr_line[0:72]
+            # end if
+            if in_schar or in_dchar:
+                fixed_line = fixed_line.ljust(72)
+            # end if
+            if continue_col < 0:
+                prev_line = fixed_line
                 prev_line_num = curr_line_num
-                prev_line = None
-            # End if
-        else:
-            res = scan_free_line(curr_line, (continue_col >= 0),
-                                 in_schar, in_dchar, pobj)
-            cont_in_col, cont_out_col, in_schar, in_dchar, comment_col = res
+            else:
+                if prev_line is None:
+                    raise ParseInternalError("No prev_line to continue",
+                                             context=pobj)
+                # end if
+                # Move this line to the one it continues (blanks up to
+                # column 72 are part of that)
+                if fixed_len < 72:
+                    prev_line += ' '
+                # end if
+                prev_line += fixed_line[6:]
+                pobj.write_line(curr_line_num, "")
+            # end if
+            pobj.write_line(prev_line_num, prev_line)
+            fixed_len = len(fixed_line)
+            continue_col = -1
+            curr_line, curr_line_num = pobj.next_line()
+            continue
         # End if
+        res = scan_free_line(curr_line, (continue_col >= 0),
+                             in_schar, in_dchar, pobj)
+        cont_in_col, cont_out_col, in_schar, in_dchar, comment_col = res
         # If in a continuation context, move this line to previous
         if continue_col >= 0:
-            if fixed_form and (prev_line is None):
-                prev_line = pobj.peek_line(prev_line_num)[0:72]
-            # End if
             if prev_line is None:
                 raise ParseInternalError("No prev_line to continue",
                                          context=pobj)
             # End if
             sindex = max(cont_in_col+1, 0)
-            if fixed_form:
-                sindex = 6
-                eindex = 72
-            elif cont_out_col > 0:
+            if cont_out_col > 0:
                 eindex = cont_out_col
             else:
                 eindex = len(curr_line)
             # End if
             prev_line = prev_line + curr_line[sindex:eindex]
-            if fixed_form:
-                prev_line = prev_line.rstrip()
-            # End if
             # Rewrite the file's lines
             pobj.write_line(prev_line_num, prev_line)
             pobj.write_line(curr_line_num, "")
-            if (not fixed_form) and (cont_out_col < 0):
+            if cont_out_col < 0:
                 # We are done with this line, reset prev_line
                 prev_line = None
                 prev_line_num = -1
-- 
2.43.0


From fbde1a0c5fafa18de88b473942f734e8e2e0ed5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:01 +0000
Subject: [PATCH 45/84] fix: the data table listed a scheme once for every use

Each use of a scheme (by phase, group and suite) got a scheme entry of its
own, so that the process list of ccpp_datafile named a scheme many times.
---
 scripts/ccpp_datafile.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/scripts/ccpp_datafile.py b/scripts/ccpp_datafile.py
index bbe41bc..f9fd03a 100755
--- a/scripts/ccpp_datafile.py
+++ b/scripts/ccpp_datafile.py
@@ -945,9 +945,15 @@ def _new_scheme_entry(parent, scheme, group_name, scheme_headers):
 ###############################################################################
     """Create a new XML entry for <scheme> under <parent>"""
     sch_name = scheme.name
-    sch_entry = parent.find(sch_name)
     process = None
-    if not sch_entry:
+    sch_entry = None
+    for entry in parent:
+        if entry.get("name") == sch_name:
+            sch_entry = entry
+            break
+        # end if
+    # end for
+    if sch_entry is None:
         sch_entry = ET.SubElement(parent, "scheme")
         sch_entry.set("name", sch_name)
     # end if
@@ -961,12 +967,14 @@ def _new_scheme_entry(parent, scheme, group_name, scheme_headers):
         raise CCPPDatatableError(emsg.format(sch_name, group_name))
     # end if
     phase_entry = sch_entry.find(sch_tag)
-    if phase_entry:
+    if phase_entry is not None:
         pname = phase_entry.get("name")
         if pname != sch_name:
             emsg = "Scheme entry already exists for {} but name is {}"
             raise CCPPDatatableError(emsg.format(sch_name, pname))
         # end if
+        return # <scheme> may appear several times
+    # end if
     # Special case: Scheme w/o run phase.
     if not scheme._has_run_phase:
         return
-- 
2.43.0


From c8961b7dada09a5d9858753db5ea40fae199f6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:11 +0000
Subject: [PATCH 46/84] fix: character variables of different lengths were
 accepted as the same

char_kind_check never returned the standardized form, so that every two
lengths compared equal, and the result of the comparison was not used.
---
 scripts/suite_objects.py | 15 ++++++++++-----
 scripts/var_props.py     |  2 +-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 37a68ae..ba1d908 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -909,11 +909,7 @@ class SuiteObject(VarDictionary):
         has outside of the scheme which uses it."""
         props = {}
         if (dict_var is not None) and (not var.is_ddt()):
-            names = ['units']
-            if dict_var.get_prop_value('type') != 'character':
-                names.append('kind')
-            # end if
-            for name in names:
+            for name in ('units', 'kind'):
                 value = dict_var.get_prop_value(name)
                 if value != var.get_prop_value(name):
                     props[name] = value
@@ -1045,6 +1041,15 @@ class SuiteObject(VarDictionary):
                                               dtype,
                                               context_string(dict_var.context)))
             # end if
+            if (vtype.lower() == 'character') and (not compat_obj.compat):
+                errmsg = "Incompatible {} for {}: '{}'{} and '{}'{}"
+                raise CCPPError(errmsg.format(compat_obj.incompat_reason,
+                                              vstdname,
+                                              var.get_prop_value('kind'),
+                                              context_string(var.context),
+                                              dict_var.get_prop_value('kind'),
+                                              context_string(dict_var.context)))
+            # end if
         # end if
         return found_var, dict_var, var_vdim, new_vdims, missing_vert, compat_obj
 
diff --git a/scripts/var_props.py b/scripts/var_props.py
index 9930398..9121c25 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -1349,7 +1349,7 @@ class VarCompatObj:
             kentries = [x.strip() for x in kind_str.split(',') if x.strip()]
             if len(kentries) == 1:
                 if kentries[0][0:4].lower() == 'len=':
-                    kind_ok = True
+                    kind_ok = 'len=' + kentries[0][4:].strip().lower()
                 # end if (no else, kind_ok already False)
             # end if (no else, kind_ok already False)
         # end if (no else, kind_ok already False)
-- 
2.43.0


From 7f0a114cc72e4e33f7bd916f917bb273029057de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:11 +0000
Subject: [PATCH 47/84] fix: local pointers for optional arguments: len=* and
 clashes of names

A local variable may not have an assumed length, and an argument which was
added to the group after the pointer may have the pointer's name.
---
 scripts/suite_objects.py | 60 ++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index ba1d908..538bc96 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1427,8 +1427,8 @@ class Scheme(SuiteObject):
                         self.__dim_local_name(var_needed.get_prop_value('standard_name'))
                     # end for
                 # end if
-                ptr_name = self.__group.add_optional_pointer(var)
-                self.__optional_vars[vstdname] = (dict_var, ptr_name)
+                pointer = self.__group.add_optional_pointer(var)
+                self.__optional_vars[vstdname] = (dict_var, pointer)
             # end if
 
         # end for
@@ -1755,7 +1755,8 @@ class Scheme(SuiteObject):
     def associate_optional_var(self, standard_name, cldicts, trans_lnames,
                                indent, outfile):
         """Write local pointer association for an optional variable."""
-        dict_var, lname_ptr = self.__optional_vars[standard_name]
+        dict_var, pointer = self.__optional_vars[standard_name]
+        lname_ptr = self.__group.optional_pointer_name(pointer)
         if dict_var is None:
             outfile.write(f"nullify({lname_ptr})", indent)
             return
@@ -1984,7 +1985,8 @@ class Scheme(SuiteObject):
         trans_lnames = [(x[0], x[2]) for x in self.__reverse_transforms]
         trans_lnames.extend([(x[2], x[1]) for x in self.__forward_transforms])
         #    Any variable which may not be there is passed with a pointer.
-        ptr_lnames = {x: self.__optional_vars[x][1] for x in self.__optional_vars}
+        ptr_lnames = {x: self.__group.optional_pointer_name(y[1])
+                      for x, y in self.__optional_vars.items()}
         my_args = self.call_list.call_string(cldicts=cldicts,
                                              is_func_call=True,
                                              subname=self.subroutine_name,
@@ -2436,7 +2438,7 @@ class Group(SuiteObject):
         self._ddt_library = None
         self._scheme_library = {}
         self.transform_locals = list()
-        self.__optional_pointers = {} # (<kind>, <dimstr>, <type>) by local name
+        self.__optional_pointers = {} # local name by key
 
     def phase_match(self, scheme_name):
         """If scheme_name matches the group phase, return the group and
@@ -2638,22 +2640,43 @@ class Group(SuiteObject):
         return fvar
 
     def add_optional_pointer(self, var):
-        """Return the name of a local pointer for <var>, an optional argument
-        of one of our schemes. Schemes may share a pointer if it fits."""
+        """Make sure that this Group has a local pointer for <var>, an optional
+        argument of one of our schemes. Schemes may share a pointer if it fits.
+        Return a key for use with optional_pointer_name."""
         dims = var.get_dimensions()
         dimstr = '(' + ','.join([':']*len(dims)) + ')' if dims else ''
         vtype = 'type' if var.is_ddt() else var.get_prop_value('type')
-        props = (var.get_prop_value('kind'), dimstr, vtype)
+        kind = var.get_prop_value('kind')
+        if kind == 'len=*':
+            # Only a dummy argument may have this length
+            kind = 'len=:'
+        # end if
         base = var.get_prop_value('local_name') + '_ptr'
-        name = base
-        count = 0
-        while ((self.__optional_pointers.get(name, props) != props) or
-               self.call_list.find_local_name(name)):
-            count += 1
-            name = f"{base}{count}"
-        # end while
-        self.__optional_pointers[name] = props
-        return name
+        key = (base, kind, dimstr, vtype)
+        self.__optional_pointers.setdefault(key, None)
+        return key
+
+    def optional_pointer_name(self, key):
+        """Return the name of the local pointer which add_optional_pointer
+        returned <key> for."""
+        return self.__optional_pointers[key]
+
+    def name_optional_pointers(self, local_vars):
+        """Find names for our local pointers which differ from those of our
+        dummy arguments, of our local variables, <local_vars>, and of
+        each other."""
+        names = {x.get_prop_value('local_name').lower()
+                 for x in self.call_list.variable_list() + local_vars}
+        for key in self.__optional_pointers:
+            name = key[0]
+            count = 0
+            while name.lower() in names:
+                count += 1
+                name = f"{key[0]}{count}"
+            # end while
+            names.add(name.lower())
+            self.__optional_pointers[key] = name
+        # end for
 
     def write(self, outfile, host_arglist, indent, const_mod,
               suite_vars=None, allocate=False, deallocate=False):
@@ -2738,6 +2761,7 @@ class Group(SuiteObject):
                                                    indent+1, pad=modmax)
         decl_vars = ([x[0] for x in subpart_allocate_vars.values()] +
                      [x[0] for x in subpart_scalar_vars.values()])
+        self.name_optional_pointers(decl_vars)
         self._ddt_library.write_ddt_use_statements(decl_vars, outfile,
                                                    indent+1, pad=modmax)
         outfile.write('', 0)
@@ -2771,7 +2795,7 @@ class Group(SuiteObject):
                           target=target)
         # end for
         # Pointer variables
-        for name, (kind, dim, vtype) in self.__optional_pointers.items():
+        for (_, kind, dim, vtype), name in self.__optional_pointers.items():
             Var.write_ptr_def(outfile, indent+1, name, kind, dim, vtype)
         # end for
         outfile.write('', 0)
-- 
2.43.0


From 9d53fb8287387bd13db0ad0fa9dcf51f2ff8e6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:37 +0000
Subject: [PATCH 48/84] fix: an array and references to its parts in one host
 table crashed the generator

---
 scripts/metavar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 74a07a4..7d58bf3 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -862,6 +862,10 @@ class Var:
     @parent.setter
     def parent(self, parent_var):
         """Set this variable's parent if not already set"""
+        if (self.__parent_var is not None) and (self.__parent_var is parent_var):
+            # E.g., both the metadata table and the host model set the parent
+            return
+        # end if
         if self.__parent_var is not None:
             emsg = 'Attempting to set parent for {} but parent already set'
             lname = self.get_prop_value('local_name')
-- 
2.43.0


From eb17fa9730a7f28535132001c91172777ce542e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:37 +0000
Subject: [PATCH 49/84] fix: host variables listed behind array references were
 not compared with the source

---
 scripts/ccpp_capgen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index 1027d8f..ddbe070 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -337,7 +337,9 @@ def compare_fheader_to_mheader(meta_header, fort_header, logger):
                                              errmsg.format(lname, title))
                 # end if (no else, we already reported an out-of-place error
                 # Do not break to collect all missing variables
-                continue
+                if arrayref or (fvar is None) or (fht in _ORDERED_TABLE_TYPES):
+                    continue
+                # end if (variables listed after array references are compared)
             # end if
             # At this point, we should have a Fortran variable
             if (not arrayref) and (fvar is None):
-- 
2.43.0


From 4fb96641c532ae55ef925d0281d88fb81ba12b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:09 +0000
Subject: [PATCH 50/84] fix: a suite's constituent routines used a bad index
 after they had reported it

---
 scripts/constituents.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/constituents.py b/scripts/constituents.py
index abd758a..110a4b8 100644
--- a/scripts/constituents.py
+++ b/scripts/constituents.py
@@ -217,6 +217,7 @@ class ConstituentVarDict(VarDictionary):
             stmt = f'{errmsg} = "constituent properties not '
             stmt += f'initialized for suite, {suite_name}"'
             outfile.write(stmt, indent+2)
+            outfile.write("return", indent+2)
             outfile.write("end if", indent+1)
         # end if (no else until an alternative error mechanism supported)
 
@@ -233,12 +234,14 @@ class ConstituentVarDict(VarDictionary):
                 stmt = f"write({errmsg}, '(a,i0,a)') 'ERROR: index (',index,') "
                 stmt += "too small, must be >= 1'"
                 outfile.write(stmt, indent+2)
+                outfile.write("return", indent+2)
                 stmt = f"else if (index > SIZE({self.constituent_prop_array_name()})) then"
                 outfile.write(stmt, indent+1)
                 outfile.write(f"{errcode} = 1", indent+2)
                 stmt = f"write({errmsg}, '(2(a,i0))') 'ERROR: index (',index,') "
                 stmt += f"too large, must be <= ', SIZE({self.constituent_prop_array_name()})"
                 outfile.write(stmt, indent+2)
+                outfile.write("return", indent+2)
                 outfile.write("end if", indent+1)
             else:
                 outfile.write(f"{errcode} = 1", indent+1)
-- 
2.43.0


From 8c50a0685a3a17dc1553e979366d8f617a02a6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:05 +0000
Subject: [PATCH 51/84] fix: a Fortran file could not hold a second module if
 the first had no contains statement

---
 scripts/fortran_tools/parse_fortran_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index 063c42e..d0ae315 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -820,6 +820,8 @@ def parse_specification(pobj, statements, run_env, mod_name=None,
             type_def = fortran_type_definition(statement)
             if pmatch is not None:
                 # We never found a contains statement
+                # Put statement back so caller knows where we are
+                statements.insert(0, statement)
                 inspec = False
                 break
             elif asmatch is not None:
-- 
2.43.0


From c823e7739877522cc18b0f24d3d06636e73cd71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:11 +0000
Subject: [PATCH 52/84] fix: routines of a Fortran file's earlier modules were
 forgotten

---
 scripts/fortran_tools/parse_fortran_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index d0ae315..d41d21d 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -993,6 +993,7 @@ def parse_module(pobj, statements, run_env):
 def parse_fortran_file(filename, run_env):
     """Parse a Fortran file and return all metadata tables found."""
     mtables = list()
+    additional_routines = list()
     pobj = read_file(filename, preproc_defs=run_env.preproc_defs,
                      logger=run_env.logger)
     pobj.reset_pos()
@@ -1011,8 +1012,9 @@ def parse_fortran_file(filename, run_env):
         elif _MODULE_RE.match(statement) is not None:
             # push statement back so parse_module can use it
             statements.insert(0, statement)
-            statements, ptables, additional_routines = parse_module(pobj, statements, run_env)
+            statements, ptables, routines = parse_module(pobj, statements, run_env)
             mtables.extend(ptables)
+            additional_routines.extend(routines)
         # End if
         if (statements is not None) and (len(statements) == 0):
             statements = read_statements(pobj)
-- 
2.43.0


From 66ec7dc202749c6c5b7fd304a257e3ff8f746224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:14 +0000
Subject: [PATCH 53/84] fix: a group called before its initialization returned
 success

The error flag was set in ccpp_t, but the function value stayed 0, and the
static API then overwrote the error flag with it.
---
 scripts/mkstatic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 618d3a8..4267de3 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1009,6 +1009,7 @@ end module {module}
       if (.not.initialized({ccpp_var_name}%ccpp_instance)) then
         write({target_name_msg},'(*(a))') '{name}_timestep_init called before {name}_init'
         {target_name_flag} = 1
+        ierr = 1
         return
       end if
 ''',
@@ -1016,6 +1017,7 @@ end module {module}
       if (.not.initialized({ccpp_var_name}%ccpp_instance)) then
         write({target_name_msg},'(*(a))') '{name}_run called before {name}_init'
         {target_name_flag} = 1
+        ierr = 1
         return
       end if
 ''',
@@ -1023,6 +1025,7 @@ end module {module}
       if (.not.initialized({ccpp_var_name}%ccpp_instance)) then
         write({target_name_msg},'(*(a))') '{name}_timestep_finalize called before {name}_init'
         {target_name_flag} = 1
+        ierr = 1
         return
       end if
 ''',
-- 
2.43.0


From e42218cbea15102e1d4810d85d16262d2a9ae4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:14 +0000
Subject: [PATCH 54/84] fix: finalizing one CCPP instance finalized all
 instances

---
 scripts/mkstatic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 4267de3..1a4952f 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1042,7 +1042,7 @@ end module {module}
         'run' : '',
         'timestep_finalize' : '',
         'finalize' : '''
-      initialized = .false.
+      initialized({ccpp_var_name}%ccpp_instance) = .false.
 ''',
     }
 
@@ -1902,11 +1902,11 @@ end module {module}
                 if subcycle_body:
                     body += subcycle_body_prefix + subcycle_body + subcycle_body_suffix
 
-            #For the init stage, for the case when the suite doesn't have any schemes with init phases,
-            #we still need to add the host-supplied ccpp_t variable to the init group caps so that it is
+            #For the init and finalize stages, for the case when the suite doesn't have any schemes with these
+            #phases, we still need to add the host-supplied ccpp_t variable to the group caps so that it is
             #available for setting the initialized flag for the particular instance being called. Otherwise,
-            #the initialized_set_block for the init phase tries to reference the unavailable ccpp_t variable.
-            if (ccpp_stage == 'init' and not self.parents[ccpp_stage]):
+            #the initialized_set_block for these phases tries to reference the unavailable ccpp_t variable.
+            if (ccpp_stage in ['init', 'finalize'] and not self.parents[ccpp_stage]):
                 ccpp_var.intent = 'in'
                 self.parents[ccpp_stage].update({ccpp_var.standard_name:ccpp_var})
 
-- 
2.43.0


From 71a165d07a6a05eabfc45dde8e459fb7c9a4289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:14 +0000
Subject: [PATCH 55/84] fix: unit conversions which do not end with the
 variable (prebuild)

The dimensions were appended to the whole expression.
---
 scripts/mkstatic.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 1a4952f..83c068c 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1753,10 +1753,9 @@ end module {module}
                                 actions_in += f'        allocate({tmpvar.local_name}{dim_string_allocate})\n'
                             if var.actions['in']:
                                 # Add unit conversion before entering the subroutine
-                                actions_in += '        {t} = {c}{d}\n'.format(t=tmpvar.local_name,
-                                                                              c=var.actions['in'].format(var=tmpvar.target.replace(dim_string_target_name, ''),
-                                                                                                         kind=kind_string),
-                                                                              d=dim_string)
+                                actions_in += '        {t} = {c}\n'.format(t=tmpvar.local_name,
+                                                                           c=var.actions['in'].format(var=tmpvar.target.replace(dim_string_target_name, '') + dim_string,
+                                                                                                      kind=kind_string))
                                 # If the variable is conditionally allocated, assign pointer
                                 if not conditional == '.true.':
                                     actions_in += '        {p} => {t}{d}\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p",
-- 
2.43.0


From 8f713465bd5acc614ccd7cd5cdaf88fb46355943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:14 +0000
Subject: [PATCH 56/84] fix: variables of schemes with the name of a phase in
 theirs were dropped

filter_metadata abbreviated every occurrence of a phase's name in the name of a
subroutine, e.g. finalizer_run became finalr_run.
---
 scripts/ccpp_prebuild.py | 5 +----
 scripts/mkstatic.py      | 2 +-
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index b8829b6..7a0c923 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -14,7 +14,7 @@ import sys
 
 # CCPP framework imports
 from common import encode_container, decode_container, decode_container_as_dict, execute
-from common import CCPP_STAGES, CCPP_INTERNAL_VARIABLES, CCPP_STATIC_API_MODULE, CCPP_INTERNAL_VARIABLE_DEFINITON_FILE
+from common import CCPP_INTERNAL_VARIABLES, CCPP_STATIC_API_MODULE, CCPP_INTERNAL_VARIABLE_DEFINITON_FILE
 from common import STANDARD_VARIABLE_TYPES, STANDARD_INTEGER_TYPE, CCPP_TYPE
 from common import SUITE_DEFINITION_FILENAME_PATTERN
 from common import split_var_name_and_array_reference
@@ -380,9 +380,6 @@ def filter_metadata(metadata, arguments, dependencies, schemes_in_files, suites)
         for var in metadata[var_name][:]:
             container_string = decode_container(var.container)
             subroutine = container_string[container_string.find('SUBROUTINE')+len('SUBROUTINE')+1:]
-            # Replace the full CCPP stage name with the abbreviated version
-            for ccpp_stage in CCPP_STAGES.keys():
-                subroutine = subroutine.replace(ccpp_stage, CCPP_STAGES[ccpp_stage])
             for suite in suites:
                 if subroutine in suite.all_subroutines_called:
                     keep = True
diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 83c068c..d6f0208 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -745,7 +745,7 @@ end module {module}
                     schemes.append(scheme_xml.text)
                     loop=int(subcycle_xml.get('loop'))
                     for ccpp_stage in CCPP_STAGES:
-                        self._all_subroutines_called.append(scheme_xml.text + '_' + CCPP_STAGES[ccpp_stage])
+                        self._all_subroutines_called.append(scheme_xml.text + '_' + ccpp_stage)
 
                 subcycles.append(Subcycle(loop=loop, schemes=schemes))
 
-- 
2.43.0


From 53a93e9223a8f8d73476345838c155aac0c0773d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:11 +0000
Subject: [PATCH 57/84] fix: conditional output arguments with unit conversion
 were not passed on (prebuild)

The pointer was associated only where a conversion before the call was needed.
---
 scripts/mkstatic.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index d6f0208..2415875 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1756,19 +1756,19 @@ end module {module}
                                 actions_in += '        {t} = {c}\n'.format(t=tmpvar.local_name,
                                                                            c=var.actions['in'].format(var=tmpvar.target.replace(dim_string_target_name, '') + dim_string,
                                                                                                       kind=kind_string))
-                                # If the variable is conditionally allocated, assign pointer
-                                if not conditional == '.true.':
-                                    actions_in += '        {p} => {t}{d}\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p",
-                                                                                   t=tmpvar.local_name, d=dim_string_allocate)
+                            # If the variable is conditionally allocated, assign pointer
+                            if not conditional == '.true.':
+                                actions_in += '        {p} => {t}{d}\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p",
+                                                                               t=tmpvar.local_name, d=dim_string_allocate)
                             if var.actions['out']:
                                 # Add unit conversion after returning from the subroutine
                                 actions_out  += '        {v}{d} = {c}\n'.format(v=tmpvar.target.replace(dim_string_target_name, ''),
                                                                                 d=dim_string,
                                                                                 c=var.actions['out'].format(var=tmpvar.local_name,
                                                                                                             kind=kind_string))
-                                # If the variable is conditionally allocated, nullify pointer
-                                if not conditional == '.true.':
-                                    actions_out += '        nullify({p})\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p")
+                            # If the variable is conditionally allocated, nullify pointer
+                            if not conditional == '.true.':
+                                actions_out += '        nullify({p})\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p")
 
                             if tmpvar.rank:
                                 # Add deallocate statement if the variable has a rank > 0
-- 
2.43.0


From bed296a1211f74bdba50b668e4cf57a032958838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:34 +0000
Subject: [PATCH 58/84] fix: writing a component of a derived type lost its
 other components (prebuild)

The derived type was passed with intent(out), which deallocates and undefines
everything in it.
---
 scripts/mkstatic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 2415875..ae8bb28 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1300,7 +1300,12 @@ end module {module}
                                         self.parents[ccpp_stage][parent_standard_name] = copy.deepcopy(parent_var)
                                         # Copy the intent of the actual variable being processed
                                         if local_name_define == parent_local_name_define:
-                                            self.parents[ccpp_stage][parent_standard_name].intent = var.intent
+                                            # If the variable is only a part of its parent, then the
+                                            # rest of the parent must keep its value
+                                            if var.intent == 'out' and not parent_standard_name == var_standard_name:
+                                                self.parents[ccpp_stage][parent_standard_name].intent = 'inout'
+                                            else:
+                                                self.parents[ccpp_stage][parent_standard_name].intent = var.intent
                                         # It's an index for the actual variable being processed --> intent(in)
                                         else:
                                             self.parents[ccpp_stage][parent_standard_name].intent = 'in'
-- 
2.43.0


From 97ea84d986927acff768c7a87a3062efa334abc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:33 +0000
Subject: [PATCH 59/84] fix: ccpp_prebuild lists suite definition files in a
 defined order

Without --suites, the order of os.listdir decided the order of the suites
in the static API: the generated code differed between machines and runs.
---
 scripts/ccpp_prebuild.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index 7a0c923..f41c6c3 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -167,7 +167,8 @@ def get_all_suites(suites_dir):
     success = False
     logging.info("No suites were given, compiling a list of all suites")
     sdfs = []
-    for f in os.listdir(suites_dir):
+    # Sort the files so that the auto-generated code does not depend on the order of the listing
+    for f in sorted(os.listdir(suites_dir)):
         match = SUITE_DEFINITION_FILENAME_PATTERN.match(f)
         if match:
             logging.info('Adding suite definition file {}'.format(f))
-- 
2.43.0


From d8ce62033d9279003932b6772757018312e92617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:33 +0000
Subject: [PATCH 60/84] fix: ccpp_prebuild compares each list file of its own

Only the makefile was compared: a cmake or shell list which was missing or
stale (an interrupted run, a deleted file) stayed so as long as the makefile
was up to date.
---
 scripts/ccpp_prebuild.py | 61 +++++++++++-----------------------------
 1 file changed, 16 insertions(+), 45 deletions(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index f41c6c3..02c46f0 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -571,6 +571,13 @@ def generate_static_api(suites, static_api_dir, namespace):
     os.chdir(BASEDIR)
     return (success, api)
 
+def replace_if_different(new_file, old_file):
+    """Replace old_file with new_file if the contents differ, else remove new_file"""
+    if os.path.isfile(old_file) and filecmp.cmp(old_file, new_file, shallow=False):
+        os.remove(new_file)
+    else:
+        os.replace(new_file, old_file)
+
 def generate_typedefs_makefile(metadata_define, typedefs_makefile, typedefs_cmakefile, typedefs_sourcefile):
     """Generate list of Fortran modules containing CCPP type/kind definitions,
        and create makefile/cmakefile snippets for host model build system"""
@@ -627,21 +634,9 @@ def generate_typedefs_makefile(metadata_define, typedefs_makefile, typedefs_cmak
     makefile.write(typedefs)
     cmakefile.write(typedefs)
     sourcefile.write(typedefs)
-    if os.path.isfile(typedefs_makefile) and \
-            filecmp.cmp(typedefs_makefile, makefile.filename):
-        os.remove(makefile.filename)
-        os.remove(cmakefile.filename)
-        os.remove(sourcefile.filename)
-    else:
-        if os.path.isfile(typedefs_makefile):
-            os.remove(typedefs_makefile)
-        if os.path.isfile(typedefs_cmakefile):
-            os.remove(typedefs_cmakefile)
-        if os.path.isfile(typedefs_sourcefile):
-            os.remove(typedefs_sourcefile)
-        os.rename(makefile.filename, typedefs_makefile)
-        os.rename(cmakefile.filename, typedefs_cmakefile)
-        os.rename(sourcefile.filename, typedefs_sourcefile)
+    replace_if_different(makefile.filename, typedefs_makefile)
+    replace_if_different(cmakefile.filename, typedefs_cmakefile)
+    replace_if_different(sourcefile.filename, typedefs_sourcefile)
     #
     logging.info('Added {0} typedefs to {1}, {2}, {3}'.format(
            len(typedefs), typedefs_makefile, typedefs_cmakefile, typedefs_sourcefile))
@@ -664,21 +659,9 @@ def generate_schemes_makefile(schemes, schemes_makefile, schemes_cmakefile, sche
     makefile.write(schemes_with_abspath)
     cmakefile.write(schemes_with_abspath)
     sourcefile.write(schemes_with_abspath)
-    if os.path.isfile(schemes_makefile) and \
-            filecmp.cmp(schemes_makefile, makefile.filename):
-        os.remove(makefile.filename)
-        os.remove(cmakefile.filename)
-        os.remove(sourcefile.filename)
-    else:
-        if os.path.isfile(schemes_makefile):
-            os.remove(schemes_makefile)
-        if os.path.isfile(schemes_cmakefile):
-            os.remove(schemes_cmakefile)
-        if os.path.isfile(schemes_sourcefile):
-            os.remove(schemes_sourcefile)
-        os.rename(makefile.filename, schemes_makefile)
-        os.rename(cmakefile.filename, schemes_cmakefile)
-        os.rename(sourcefile.filename, schemes_sourcefile)
+    replace_if_different(makefile.filename, schemes_makefile)
+    replace_if_different(cmakefile.filename, schemes_cmakefile)
+    replace_if_different(sourcefile.filename, schemes_sourcefile)
     #
     logging.info('Added {0} schemes to {1}, {2}, {3}'.format(
            len(schemes_with_abspath), schemes_makefile, schemes_cmakefile, schemes_sourcefile))
@@ -701,21 +684,9 @@ def generate_caps_makefile(caps, caps_makefile, caps_cmakefile, caps_sourcefile,
     makefile.write(caps_with_abspath)
     cmakefile.write(caps_with_abspath)
     sourcefile.write(caps_with_abspath)
-    if os.path.isfile(caps_makefile) and \
-            filecmp.cmp(caps_makefile, makefile.filename):
-        os.remove(makefile.filename)
-        os.remove(cmakefile.filename)
-        os.remove(sourcefile.filename)
-    else:
-        if os.path.isfile(caps_makefile):
-            os.remove(caps_makefile)
-        if os.path.isfile(caps_cmakefile):
-            os.remove(caps_cmakefile)
-        if os.path.isfile(caps_sourcefile):
-            os.remove(caps_sourcefile)
-        os.rename(makefile.filename, caps_makefile)
-        os.rename(cmakefile.filename, caps_cmakefile)
-        os.rename(sourcefile.filename, caps_sourcefile)
+    replace_if_different(makefile.filename, caps_makefile)
+    replace_if_different(cmakefile.filename, caps_cmakefile)
+    replace_if_different(sourcefile.filename, caps_sourcefile)
     #
     logging.info('Added {0} auto-generated caps to {1} and {2}, {3}'.format(
            len(caps_with_abspath), caps_makefile, caps_cmakefile, caps_sourcefile))
-- 
2.43.0


From ad85923d2cdf361d137e63faee04a4d679becb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:47 +0000
Subject: [PATCH 61/84] fix: ccpp_prebuild --clean removes the cmake file of
 the static API

---
 scripts/ccpp_prebuild.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index 02c46f0..3c91af7 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -156,6 +156,7 @@ def clean_files(config, namespace):
         os.path.join(config['caps_dir'], 'ccpp_*_cap.F90'),
         os.path.join(config['static_api_dir'], static_api_file),
         config['static_api_sourcefile'],
+        config['static_api_cmakefile'],
         ]
     # Not very pythonic, but the easiest way w/o importing another Python module
     cmd = 'rm -vf {0}'.format(' '.join(files_to_remove))
-- 
2.43.0


From df36439cd98995da92dc3ad4310503fdc97a278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:56 +0000
Subject: [PATCH 62/84] fix: order of arguments in the caps of ccpp_prebuild
 depended on the hash seed

---
 scripts/mkstatic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index ae8bb28..98baa84 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -96,7 +96,7 @@ def extract_parents_and_indices_from_local_name(local_name):
         # Remove this innermost index group (...) from local_name
         local_name = local_name.replace(local_name[last_open:last_closed+1], '')
     # Remove duplicates from indices
-    indices = list(set(indices))
+    indices = sorted(set(indices))
     # Derive parent of actual variable (now that all subsets have been processed)
     if '%' in local_name:
         parent = local_name[:local_name.find('%')]
@@ -1921,7 +1921,7 @@ end module {module}
             sub_argument_list = create_argument_list_wrapped(self.arguments[ccpp_stage])
 
             # Remove duplicates from additional manual variable definitions
-            var_defs_manual = list(set(var_defs_manual))
+            var_defs_manual = sorted(set(var_defs_manual))
 
             # Write cap - shorten certain ccpp_stages to stay under the 63 character limit for Fortran function names
             subroutine = self._suite + '_' + self._name + '_' + CCPP_STAGES[ccpp_stage] + '_cap'
-- 
2.43.0


From 6329081f0f9c58e779790c03ed178b794715bd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:56 +0000
Subject: [PATCH 63/84] fix: report an undefined index of a host variable as an
 error (prebuild)

---
 scripts/ccpp_prebuild.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index 3c91af7..2a1449d 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -210,6 +210,10 @@ def convert_local_name_from_new_metadata(metadata, standard_name, typedefs_new_m
     """Convert local names in new metadata format (no old-style DDT references, array references as
     standard names) to old metadata format (with old-style DDT references, array references as local names)."""
     success = True
+    if not standard_name in metadata.keys():
+        logging.error("Standard name {0} is not defined by the host model".format(standard_name))
+        success = False
+        return (success, None, converted_variables)
     var = metadata[standard_name][0]
     # Check if this variable has already been converted
     if standard_name in converted_variables:
@@ -313,12 +317,12 @@ def gather_variable_definitions(variable_definition_files, typedefs_new_metadata
             if len(metadata_define[key])>1:
                 logging.error("Multiple definitions of standard_name {0} in type/variable defintions".format(key))
                 success = False
-                return
+                return (success, metadata_define, dependencies_define)
             (success, local_name, converted_variables) = convert_local_name_from_new_metadata(
                              metadata_define, key, typedefs_new_metadata, converted_variables)
             if not success:
                 logging.error("An error occurred during the conversion of variable {0} from new to old metadata format".format(key))
-                return (success, metadata_define)
+                return (success, metadata_define, dependencies_define)
             # Update the local name of the variable, if necessary
             if not metadata_define[key][0].local_name == local_name:
                 logging.debug("Updating local name of variable {0} from {1} to {2}".format(key,
-- 
2.43.0


From 4e1eba0ed53a4498800efa8f29711acbe5703abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:56 +0000
Subject: [PATCH 64/84] fix: report an optional host variable as the error it
 is (prebuild)

---
 scripts/metadata_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/metadata_parser.py b/scripts/metadata_parser.py
index d1277eb..6f562de 100755
--- a/scripts/metadata_parser.py
+++ b/scripts/metadata_parser.py
@@ -214,7 +214,7 @@ def read_new_metadata(filename, module_name, table_name, scheme_name = None, sub
                     raise Exception("Unexpected result: no optional attribute received from metadata parser for {} / {}".format(standard_name,table_name))
                 elif not scheme_name and new_var.get_prop_value('optional'):
                     raise Exception("Host variable {} in table {} has metadata attribute optional={}, which is not allowed".format(
-                                    standard_name,table_name, new_var.get_prop_value('optional').lower()))
+                                    standard_name,table_name, new_var.get_prop_value('optional')))
                 elif new_var.get_prop_value('optional'):
                     optional = 'T'
                 else:
-- 
2.43.0


From d50aecd9d93530e92cc01140ab640fef4664b53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:15 +0000
Subject: [PATCH 65/84] fix: a table missing from the metadata file was taken
 as empty (prebuild)

---
 scripts/metadata_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scripts/metadata_parser.py b/scripts/metadata_parser.py
index 6f562de..fc8c7b7 100755
--- a/scripts/metadata_parser.py
+++ b/scripts/metadata_parser.py
@@ -119,6 +119,7 @@ def read_new_metadata(filename, module_name, table_name, scheme_name = None, sub
     dependencies = []
 
     # Convert new metadata for requested table to old metadata dictionary
+    table_found = False
     metadata = collections.OrderedDict()
     for new_metadata_header in new_metadata_headers:
         for metadata_section in new_metadata_header.sections():
@@ -154,6 +155,7 @@ def read_new_metadata(filename, module_name, table_name, scheme_name = None, sub
                 else:
                     dependencies += new_metadata_header.dependencies
 
+            table_found = True
             for new_var in metadata_section.variable_list():
                 standard_name = new_var.get_prop_value('standard_name')
                 # DH* 2020-05-26
@@ -247,6 +249,9 @@ def read_new_metadata(filename, module_name, table_name, scheme_name = None, sub
                    raise Exception("Error, multiple definitions of standard name {} in new metadata table {}".format(standard_name, table_name))
                 metadata[standard_name] = [var]
 
+    if not table_found:
+        raise Exception("Table {0} not found in metadata file {1}".format(table_name, filename))
+
     return (metadata, dependencies)
 
 def parse_variable_tables(filepath, filename):
-- 
2.43.0


From 12b425571d418ac48bdaf727e640c3077c587f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:15 +0000
Subject: [PATCH 66/84] fix: unnamed, duplicate and suite-level init and
 finalize groups in ccpp_prebuild

---
 scripts/mkstatic.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 98baa84..4c9cc3b 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -724,7 +724,6 @@ end module {module}
         for group_xml in suite_xml:
             subcycles = []
 
-            self._call_tree[group_xml.attrib['name']] = []
             # Add suite-wide init scheme to group 'init', similar for finalize
             if group_xml.tag.lower() == 'init' or group_xml.tag.lower() == 'finalize':
                 self._all_schemes_called.append(group_xml.text)
@@ -737,6 +736,17 @@ end module {module}
                     self._groups.append(Group(name=group_xml.tag.lower(), subcycles=subcycles, suite=self._name, finalize=True))
                 continue
 
+            group_name = group_xml.get('name')
+            if not group_name:
+                logging.critical("Group without a name in suite definition file {0}.".format(self._sdf_name))
+                success = False
+                return success
+            if group_name.lower() in [group.name.lower() for group in self._groups]:
+                logging.critical("Duplicate group name {0} in suite definition file {1}.".format(group_name, self._sdf_name))
+                success = False
+                return success
+            self._call_tree[group_name] = []
+
             # Parse subcycles of all regular groups
             for subcycle_xml in group_xml:
                 schemes = []
@@ -753,9 +763,9 @@ end module {module}
                     # Populate call tree from SDF's heirarchical structure, including multiple calls in subcycle loops
                     for loop in range(0,int(subcycle_xml.get('loop'))):
                         for scheme_xml in subcycle_xml:
-                            self._call_tree[group_xml.attrib['name']].append(scheme_xml.text)
+                            self._call_tree[group_name].append(scheme_xml.text)
 
-            self._groups.append(Group(name=group_xml.get('name'), subcycles=subcycles, suite=self._name))
+            self._groups.append(Group(name=group_name, subcycles=subcycles, suite=self._name))
 
         # Remove duplicates from list of all subroutines an schemes
         self._all_schemes_called = list(set(self._all_schemes_called))
-- 
2.43.0


From d0b4799dc2345d87a4add82eb377ba3c82e5fd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:09 +0000
Subject: [PATCH 67/84] fix: refuse horizontal_loop_extent as a dimension
 outside the run phase (prebuild)

---
 scripts/metadata_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/metadata_parser.py b/scripts/metadata_parser.py
index fc8c7b7..6e6f1b6 100755
--- a/scripts/metadata_parser.py
+++ b/scripts/metadata_parser.py
@@ -182,7 +182,7 @@ def read_new_metadata(filename, module_name, table_name, scheme_name = None, sub
                 # Adjust dimensions
                 dimensions = new_var.get_prop_value('dimensions')
                 if scheme_name and (table_name.endswith("_init") or table_name.endswith("_finalize")) \
-                        and 'horizontal_loop_extent' in dimensions:
+                        and any('horizontal_loop_extent' in x.split(':') for x in dimensions):
                     #logging.warn("Legacy extension - replacing dimension 'horizontal_loop_extent' with 'horizontal_dimension' " + \
                     #             "for variable {} in table {}".format(standard_name,table_name))
                     #dimensions = ['horizontal_dimension' if x=='horizontal_loop_extent' else x for x in dimensions]
-- 
2.43.0


From 7db3228f825dcbccea60552525fffd3f06f9c80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:58 +0000
Subject: [PATCH 68/84] fix: ccpp_prebuild compares the caps by content, not by
 size and time

---
 scripts/mkstatic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 4c9cc3b..a4e0d07 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -509,7 +509,7 @@ end module {module}
             f.close()
             # See comment above on updating the API or not
             if write_to_test_file:
-                if filecmp.cmp(self.filename, test_filename):
+                if filecmp.cmp(self.filename, test_filename, shallow=False):
                     # Files are equal, delete the test API and set update flag to False
                     os.remove(test_filename)
                     self.update_api = False
@@ -568,7 +568,7 @@ set(API \"{filename}\")
         f.close()
         # See comment above on updating the API or not
         if write_to_test_file:
-            if filecmp.cmp(source_filename, test_filename):
+            if filecmp.cmp(source_filename, test_filename, shallow=False):
                 # Files are equal, delete the test file
                 os.remove(test_filename)
             else:
@@ -928,7 +928,7 @@ end module {module}
             f.close()
             # See comment above on updating the suite cap or not
             if write_to_test_file:
-                if filecmp.cmp(self.filename, test_filename):
+                if filecmp.cmp(self.filename, test_filename, shallow=False):
                     # Files are equal, delete the test cap
                     # and set update flag to False
                     os.remove(test_filename)
@@ -1992,7 +1992,7 @@ end module {module}
             f.close()
             # See comment above on updating the group cap or not
             if write_to_test_file:
-                if filecmp.cmp(self.filename, test_filename):
+                if filecmp.cmp(self.filename, test_filename, shallow=False):
                     # Files are equal, delete the test cap
                     # and set update flag to False
                     os.remove(test_filename)
-- 
2.43.0


From 9c04818843c72ee2d82a8a49884af37056b4dbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:39 +0000
Subject: [PATCH 69/84] fix: the suite-level finalize scheme never ran and the
 init scheme only once (prebuild)

---
 scripts/mkstatic.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index a4e0d07..828ed21 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1939,7 +1939,10 @@ end module {module}
             # Test and set blocks for initialization status - check that at least
             # the mandatory CCPP error handling arguments are present (i.e. there is
             # at least one subroutine that gets called from this group), or skip.
-            if self.arguments[ccpp_stage]:
+            # The special groups 'init' and 'finalize' have one stage only and are
+            # therefore called whenever the suite is initialized or finalized.
+            special_group = self._init or self._finalize
+            if self.arguments[ccpp_stage] and not special_group:
                 initialized_test_block = Group.initialized_test_blocks[ccpp_stage].format(
                                             ccpp_var_name = ccpp_var.local_name,
                                             target_name_flag=ccpp_error_code_target_name,
@@ -1947,11 +1950,14 @@ end module {module}
                                             name=self._name)
             else:
                 initialized_test_block = ''
-            initialized_set_block = Group.initialized_set_blocks[ccpp_stage].format(
-                                        ccpp_var_name = ccpp_var.local_name,
-                                        target_name_flag=ccpp_error_code_target_name,
-                                        target_name_msg=ccpp_error_msg_target_name,
-                                        name=self._name)
+            if special_group:
+                initialized_set_block = ''
+            else:
+                initialized_set_block = Group.initialized_set_blocks[ccpp_stage].format(
+                                            ccpp_var_name = ccpp_var.local_name,
+                                            target_name_flag=ccpp_error_code_target_name,
+                                            target_name_msg=ccpp_error_msg_target_name,
+                                            name=self._name)
             # Create subroutine
             local_subs += Group.sub.format(subroutine=subroutine,
                                            argument_list=sub_argument_list,
-- 
2.43.0


From 8868b35883b89947caa428641418ca90ad62283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:42 +0000
Subject: [PATCH 70/84] fix: comments, continued lines and module procedures in
 sources (prebuild)

---
 scripts/metadata_parser.py | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/scripts/metadata_parser.py b/scripts/metadata_parser.py
index 6e6f1b6..cf79962 100755
--- a/scripts/metadata_parser.py
+++ b/scripts/metadata_parser.py
@@ -101,6 +101,25 @@ def merge_dictionaries(x, y):
             z[key] = y[key]
     return z
 
+def remove_trailing_comment(line):
+    """Remove a comment at the end of a line of Fortran code; exclamation
+    marks in character strings do not start a comment."""
+    quote = None
+    for i, char in enumerate(line):
+        if quote:
+            if char == quote:
+                quote = None
+        elif char in ['"', "'"]:
+            quote = char
+        elif char == '!':
+            return line[:i].rstrip()
+    return line
+
+def is_continued(line):
+    """Return True if a line of Fortran code is continued on the next line.
+    An ampersand at the end of a comment does not continue the line."""
+    return remove_trailing_comment(line).endswith('&')
+
 def read_new_metadata(filename, module_name, table_name, scheme_name = None, subroutine_name = None):
     """Read metadata in new format and convert output to ccpp_prebuild metadata dictionary"""
     if not os.path.isfile(filename):
@@ -287,9 +306,12 @@ def parse_variable_tables(filepath, filename):
         # Skip empty lines
         if line == '' or line == '&':
             continue
+        # Skip comments between continued lines
+        if buffer and line.startswith('!'):
+            continue
         # Remove line continuations: concatenate with following lines
-        if line.endswith('&'):
-            buffer += file_lines[i].rstrip('\n').replace('&', ' ')
+        if is_continued(line):
+            buffer += remove_trailing_comment(file_lines[i].rstrip('\n')).replace('&', ' ')
             continue
         # Write out line with buffer and reset buffer
         lines.append(buffer + file_lines[i].rstrip('\n').replace('&', ' '))
@@ -301,7 +323,7 @@ def parse_variable_tables(filepath, filename):
     line_counter = 0
     for line in lines:
         words = line.split()
-        if len(words) > 1 and words[0].lower() in ['module', 'program'] and not words[1].lower() == 'procedure':
+        if len(words) > 1 and words[0].lower() in ['module', 'program'] and not words[1].lower().split(':')[0] == 'procedure':
             module_name = words[1].strip()
             if module_name in registry.keys():
                 raise Exception('Duplicate module name {0}'.format(module_name))
@@ -560,9 +582,12 @@ def parse_scheme_tables(filepath, filename):
         # Skip empty lines
         if line == '' or line == '&':
             continue
+        # Skip comments between continued lines
+        if buffer and line.startswith('!'):
+            continue
         # Remove line continuations: concatenate with following lines
-        if line.endswith('&'):
-            buffer += file_lines[i].rstrip('\n').replace('&', ' ')
+        if is_continued(line):
+            buffer += remove_trailing_comment(file_lines[i].rstrip('\n')).replace('&', ' ')
             continue
         # Write out line with buffer and reset buffer
         lines.append(buffer + file_lines[i].rstrip('\n').replace('&', ' '))
@@ -578,7 +603,7 @@ def parse_scheme_tables(filepath, filename):
         if '!' in line and not line.startswith('!'):
             line = line[:line.find('!')]
         words = line.split()
-        if len(words) > 1 and words[0].lower() == 'module' and not words[1].lower() == 'procedure':
+        if len(words) > 1 and words[0].lower() == 'module' and not words[1].lower().split(':')[0] == 'procedure':
             module_name = words[1].strip()
             if module_name in registry.keys():
                 raise Exception('Duplicate module name {0}'.format(module_name))
-- 
2.43.0


From 193512a21bbb000a1d3044e176d6e0f8ee54e8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:08 +0000
Subject: [PATCH 71/84] fix: metadata2html could not import
 registered_fortran_ddt_names

---
 scripts/metadata2html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/metadata2html.py b/scripts/metadata2html.py
index 7e4a540..6551c0f 100755
--- a/scripts/metadata2html.py
+++ b/scripts/metadata2html.py
@@ -8,7 +8,7 @@ import sys
 
 # CCPP framework imports
 from common import CCPP_INTERNAL_VARIABLE_DEFINITON_FILE
-from parse_checkers import registered_fortran_ddt_names
+from parse_tools import registered_fortran_ddt_names
 from parse_tools import init_log, set_log_level
 from metadata_table import MetadataTable, parse_metadata_file
 from framework_env import CCPPFrameworkEnv
-- 
2.43.0


From 948c01a7aede70d7cc3d7a4555a7527962f44d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:38 +0000
Subject: [PATCH 72/84] fix: characters special in HTML were not escaped in the
 pages of metadata tables

---
 scripts/metadata_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 6ed2bd1..ac50c5a 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -127,6 +127,7 @@ Notes on the input format:
 # Python library imports
 import difflib
 import logging
+import html
 import os.path
 import re
 # CCPP framework imports
@@ -1239,7 +1240,7 @@ class MetadataSection(ParseSource):
                     value = '(' + ', '.join(value) + ')'
                 elif value is None:
                     value = f"n/a"
-                row += f"<td>{value}</td>".format(value=value)
+                row += f"<td>{html.escape(str(value), quote=False)}</td>"
             row += f"</tr>\n"
             contents += row
         filename = os.path.join(outdir, self.title + '.html')
-- 
2.43.0


From 20cb147f26a5da06edd09486a985afa297d930f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:38 +0000
Subject: [PATCH 73/84] fix: metadata2html refused tables with types defined in
 other files

---
 scripts/metadata2html.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/metadata2html.py b/scripts/metadata2html.py
index 6551c0f..4ec13b1 100755
--- a/scripts/metadata2html.py
+++ b/scripts/metadata2html.py
@@ -101,7 +101,8 @@ def convert_to_html(filename_in, outdir, logger, run_env):
     logger.info("Converting file {} to HTML".format(filename_in))
     metadata_headers = parse_metadata_file(filename_in,
                                            known_ddts=registered_fortran_ddt_names(),
-                                           run_env=run_env)
+                                           run_env=run_env,
+                                           skip_ddt_check=True)
     for metadata_header in metadata_headers:
         for metadata_section in metadata_header.sections():
             filename_out = metadata_section.to_html(outdir, ATTRIBUTES)
-- 
2.43.0


From 43a66d01520b3d5e5baaac6e37c7de90ac2d9e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:56 +0000
Subject: [PATCH 74/84] fix: prototype metadata lacked optional, and sources
 using types of other files were refused

---
 scripts/ccpp_fortran_to_metadata.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/scripts/ccpp_fortran_to_metadata.py b/scripts/ccpp_fortran_to_metadata.py
index 4c301d1..74e6381 100755
--- a/scripts/ccpp_fortran_to_metadata.py
+++ b/scripts/ccpp_fortran_to_metadata.py
@@ -33,11 +33,13 @@ import argparse
 import sys
 import os
 import os.path
+import re
 import logging
 # CCPP framework imports
 from framework_env import CCPPFrameworkEnv
 from parse_tools import init_log, set_log_level
 from parse_tools import CCPPError, ParseInternalError
+from parse_tools import register_fortran_ddt_name
 from parse_tools import reset_standard_name_counter, unique_standard_name
 from fortran_tools import parse_fortran_file
 from file_utils import create_file_list
@@ -160,12 +162,32 @@ def write_metadata_file(mfilename, ftables, sep):
                         prop = var.get_prop_value('intent')
                         outfile.write('  intent = {}{}'.format(prop,
                                                                os.linesep))
+                        if var.get_prop_value('optional'):
+                            outfile.write('  optional = True' + os.linesep)
+                        # end if
                     # end if
                 # end for
             # end for
         # end for
     # end with
 
+###############################################################################
+def register_ddt_types(filename):
+###############################################################################
+    """
+    Register the derived types of the variables declared in <filename>. These
+    types may be defined in files which are not being processed.
+    """
+    with open(filename, 'r', encoding='utf-8') as infile:
+        text = infile.read()
+    # end with
+    # Join continued lines
+    text = re.sub(r'&[ \t]*(![^\n]*)?\n(\s*(![^\n]*)?\n)*\s*&?', ' ', text)
+    for name in re.findall(r'\btype\s*\(\s*([a-z]\w*)\s*\)', text,
+                           flags=re.IGNORECASE):
+        register_fortran_ddt_name(name)
+    # end for
+
 ###############################################################################
 def parse_fortran_files(filenames, run_env, output_dir, sep, logger):
 ###############################################################################
@@ -177,6 +199,7 @@ def parse_fortran_files(filenames, run_env, output_dir, sep, logger):
     for filename in filenames:
         logger.info('Looking for arg_tables from {}'.format(filename))
         reset_standard_name_counter()
+        register_ddt_types(filename)
         ftables, _ = parse_fortran_file(filename, run_env)
         # Create metadata filename
         filepath = '.'.join(os.path.basename(filename).split('.')[0:-1])
-- 
2.43.0


From 11efba25ec17607587cf8a274c168596f81a32cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:48 +0000
Subject: [PATCH 75/84] fix: a prototype had several tables of a scheme whose
 name is spelled in other cases

---
 scripts/ccpp_fortran_to_metadata.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scripts/ccpp_fortran_to_metadata.py b/scripts/ccpp_fortran_to_metadata.py
index 74e6381..666de5a 100755
--- a/scripts/ccpp_fortran_to_metadata.py
+++ b/scripts/ccpp_fortran_to_metadata.py
@@ -95,14 +95,17 @@ def write_metadata_file(mfilename, ftables, sep):
         header_sep = ''
         table_name = ''
         for table in ftables:
+            # Fortran names are not case sensitive, names of schemes are
+            is_scheme = table.table_type == 'scheme'
+            tname = table.table_name.lower() if is_scheme else table.table_name
             # Write the table properties section
             # Note that there may be extra tables depending on how the
             # Fortran was parsed.
-            if (not table_name) or (table_name != table.table_name):
+            if (not table_name) or (table_name != tname):
                 outfile.write("{}[ccpp-table-properties]{}".format(header_sep,
                                                                    os.linesep))
                 header_sep = sep + os.linesep
-                table_name = table.table_name
+                table_name = tname
                 outfile.write("  name = {}{}".format(table_name, os.linesep))
                 outfile.write("  type = {}{}".format(table.table_type,
                                                      os.linesep))
@@ -111,8 +114,8 @@ def write_metadata_file(mfilename, ftables, sep):
                 lname_dict = {'1':'ccpp_constant_one'}
                 outfile.write('{}[ccpp-arg-table]{}'.format(header_sep,
                                                             os.linesep))
-                outfile.write('  name  = {}{}'.format(header.title,
-                                                      os.linesep))
+                title = header.title.lower() if is_scheme else header.title
+                outfile.write('  name  = {}{}'.format(title, os.linesep))
                 outfile.write('  type  = {}{}'.format(header.header_type,
                                                       os.linesep))
                 for var in header.variable_list():
-- 
2.43.0


From f97efb018a8664d6f659e918b648a653c0f42f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:17 +0000
Subject: [PATCH 76/84] fix: extents spelled in another case got names of their
 own in prototypes

---
 scripts/ccpp_fortran_to_metadata.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/ccpp_fortran_to_metadata.py b/scripts/ccpp_fortran_to_metadata.py
index 666de5a..80879d8 100755
--- a/scripts/ccpp_fortran_to_metadata.py
+++ b/scripts/ccpp_fortran_to_metadata.py
@@ -124,7 +124,8 @@ def write_metadata_file(mfilename, ftables, sep):
                     prop = var.get_prop_value('standard_name')
                     outfile.write('  standard_name = {}{}'.format(prop,
                                                                   os.linesep))
-                    lname_dict[lname] = prop
+                    # (Fortran names are not case sensitive)
+                    lname_dict[lname.lower()] = prop
                     prop = var.get_prop_value('units')
                     if not prop:
                         prop = 'enter_units'
@@ -148,8 +149,8 @@ def write_metadata_file(mfilename, ftables, sep):
                         for dim in dims:
                             dslist = list()
                             for dimspec in dim.split(':'):
-                                if dimspec and (dimspec in lname_dict):
-                                    dstr = lname_dict[dimspec]
+                                if dimspec and (dimspec.lower() in lname_dict):
+                                    dstr = lname_dict[dimspec.lower()]
                                 else:
                                     dstr = unique_standard_name()
                                 # end if
-- 
2.43.0


From e3bc4608381333310e9fb29ae1174e1da015c581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:08 +0000
Subject: [PATCH 77/84] fix: blanks in the extents of a source crashed the
 comparison with its metadata

---
 scripts/ccpp_fortran_to_metadata.py | 2 +-
 scripts/metadata_table.py           | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/ccpp_fortran_to_metadata.py b/scripts/ccpp_fortran_to_metadata.py
index 80879d8..22b3863 100755
--- a/scripts/ccpp_fortran_to_metadata.py
+++ b/scripts/ccpp_fortran_to_metadata.py
@@ -148,7 +148,7 @@ def write_metadata_file(mfilename, ftables, sep):
                     if dims:
                         for dim in dims:
                             dslist = list()
-                            for dimspec in dim.split(':'):
+                            for dimspec in [x.strip() for x in dim.split(':')]:
                                 if dimspec and (dimspec.lower() in lname_dict):
                                     dstr = lname_dict[dimspec.lower()]
                                 else:
diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index ac50c5a..6dabd5b 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -1081,7 +1081,7 @@ class MetadataSection(ParseSource):
                     std_dim.append(std)
                 # end if
             # end if
-            for item in dim.split(':'):
+            for item in [x.strip() for x in dim.split(':')]:
                 try:
                     _ = int(item)
                     dvar = CCPP_CONSTANT_VARS.find_local_name(item)
@@ -1111,7 +1111,7 @@ class MetadataSection(ParseSource):
                         errmsg += context_string(context)
                         if logger is not None:
                             errmsg = "ERROR: " + errmsg
-                            logger.error(errmsg.format(item, std, ctx))
+                            logger.error(errmsg)
                             dname = unique_standard_name()
                         else:
                             raise CCPPError(errmsg) from verr
-- 
2.43.0


From 03d4113b635bb5e3743576d9bc2bdf855839d8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:12 +0000
Subject: [PATCH 78/84] fix: an #else was taken after an #elif which was taken

---
 scripts/parse_tools/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/parse_tools/preprocess.py b/scripts/parse_tools/preprocess.py
index 06b9414..fd1f8d9 100755
--- a/scripts/parse_tools/preprocess.py
+++ b/scripts/parse_tools/preprocess.py
@@ -394,7 +394,7 @@ class PreprocStack(object):
         if curr_region[0]:
             self._region_stack.append([curr_region[0], False])
         else:
-            self._region_stack.append([curr_region[0], valid])
+            self._region_stack.append([valid, valid])
         # end if
 
     def in_true_region(self):
-- 
2.43.0


From 4e6755fbb2e2a03bfc53325e716ad46b523803e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:12 +0000
Subject: [PATCH 79/84] fix: macros of one source were defined in the next one,
 ones without a value nowhere

---
 scripts/fortran_tools/parse_fortran_file.py | 4 ++++
 scripts/parse_tools/preprocess.py           | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index d41d21d..39cc690 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -347,6 +347,10 @@ def read_file(filename, preproc_defs=None, logger=None):
     Remvoved code results in blank lines, not removed lines
     """
     preproc_status = PreprocStack()
+    if preproc_defs is not None:
+        # (what a file defines ends with the file)
+        preproc_defs = dict(preproc_defs)
+    # end if
     if not os.path.exists(filename):
         raise IOError("read_file: file, '{}', does not exist".format(filename))
     # end if
diff --git a/scripts/parse_tools/preprocess.py b/scripts/parse_tools/preprocess.py
index fd1f8d9..6b622b4 100755
--- a/scripts/parse_tools/preprocess.py
+++ b/scripts/parse_tools/preprocess.py
@@ -202,7 +202,7 @@ class PreprocStack(object):
     ifelif_re = re.compile(r"#\s*(?:el)?if\s(.*)")
     else_re = re.compile(r"#\s*else")
     end_re = re.compile(r"#\s*endif")
-    define_re = re.compile(r"#\s*define\s+([A-Za-z0-9_]+)\s+([^\s]*)")
+    define_re = re.compile(r"#\s*define\s+([A-Za-z0-9_]+)(?:\s+([^\s]+))?")
     undef_re = re.compile(r"#\s*undef\s+([A-Za-z0-9_]+)")
 
     def __init__(self):
-- 
2.43.0


From 527f7db9a34e210c8bbb99bed9b4d7228c1694cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:12 +0000
Subject: [PATCH 80/84] fix: conditions of the preprocessor were misread
 (chains, !=, !NAME, values of -D, no blank)

---
 scripts/parse_tools/preprocess.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/scripts/parse_tools/preprocess.py b/scripts/parse_tools/preprocess.py
index 6b622b4..7b4ac24 100755
--- a/scripts/parse_tools/preprocess.py
+++ b/scripts/parse_tools/preprocess.py
@@ -30,7 +30,8 @@ def preproc_bool(value):
             ival = int(value)
             line_val = ival != 0
         except ValueError:
-            line_val = value != "0"
+            # The name of something which is not defined
+            line_val = False
         # end try
     # end if
     return line_val
@@ -66,13 +67,13 @@ def preproc_item_value(item, preproc_defs):
             raise PreprocError("Cannot parse function {}".format(func))
         # end if
     elif isinstance(item, ast.BoolOp):
-        left_val = preproc_item_value(item.values[0], preproc_defs)
-        right_val = preproc_item_value(item.values[1], preproc_defs)
+        values = [preproc_bool(preproc_item_value(x, preproc_defs))
+                  for x in item.values]
         oper = item.op
         if isinstance(oper, ast.And):
-            value = preproc_bool(left_val) and preproc_bool(right_val)
+            value = all(values)
         elif isinstance(oper, ast.Or):
-            value = preproc_bool(left_val) or preproc_bool(right_val)
+            value = any(values)
         else:
             raise PreprocError("Unknown binary operator, {}".format(oper))
         # end if
@@ -121,6 +122,15 @@ def preproc_item_value(item, preproc_defs):
         id_key = item.id
         if id_key in preproc_defs:
             value = preproc_defs[id_key]
+            if value is None:
+                # As for a compiler, -DFOO means -DFOO=1
+                value = 1
+            # end if
+            try:
+                value = int(value)
+            except ValueError:
+                pass
+            # end try
         else:
             value = id_key
         # end if
@@ -158,8 +168,8 @@ def parse_preproc_line(line, preproc_defs):
         elif line[index:index+2] == '||':
             pline = pline + 'or'
             index = index + 1
-        elif line[index] == '!':
-            pline = pline + "not"
+        elif (line[index] == '!') and (line[index+1:index+2] != '='):
+            pline = pline + "not "
         else:
             match = __defined_re__.match(line[index:])
             if match is None:
@@ -184,7 +194,7 @@ def parse_preproc_line(line, preproc_defs):
             line_val = preproc_bool(value)
             success = True
         # end if
-    except SyntaxError:
+    except (SyntaxError, PreprocError):
         line_val = False
         success = False
     # end try
@@ -198,8 +208,8 @@ class PreprocStack(object):
     ifdef_re = re.compile(r"#\s*ifdef\s+(.*)")
     ifndef_re = re.compile(r"#\s*ifndef\s+(.*)")
     if_re = re.compile(r"#\s*if([^dn].*)")
-    elif_re = re.compile(r"#\s*elif\s(.*)")
-    ifelif_re = re.compile(r"#\s*(?:el)?if\s(.*)")
+    elif_re = re.compile(r"#\s*elif\b(.*)")
+    ifelif_re = re.compile(r"#\s*(?:el)?if\b(.*)")
     else_re = re.compile(r"#\s*else")
     end_re = re.compile(r"#\s*endif")
     define_re = re.compile(r"#\s*define\s+([A-Za-z0-9_]+)(?:\s+([^\s]+))?")
-- 
2.43.0


From b90eecd8a369622000e217191ba63d4cffc3b5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:43 +0000
Subject: [PATCH 81/84] fix: a value which is no number of a numeric property
 crashed the tools

---
 scripts/var_props.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/var_props.py b/scripts/var_props.py
index 9121c25..a0bbca5 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -689,7 +689,7 @@ class VariableProperty:
                         valid_val = None # i.e. pass
                 else:
                     valid_val = tval
-            except CCPPError:
+            except (CCPPError, ValueError):
                 valid_val = None # Redundant but more expressive than pass
         elif self.ptype is float:
             try:
@@ -703,7 +703,7 @@ class VariableProperty:
                 else:
                     valid_val = tval
                 # end if
-            except CCPPError:
+            except (CCPPError, ValueError):
                 valid_val = None
             # end try
         elif self.ptype is list:
-- 
2.43.0


From b0f3686c2080056fc8d6111ea1737e5aee6b5a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:58 +0000
Subject: [PATCH 82/84] fix: a vertical dimension which is a member of a DDT
 broke the caps of hosts with constituents

---
 scripts/host_cap.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/scripts/host_cap.py b/scripts/host_cap.py
index ffc6430..3ad9f15 100644
--- a/scripts/host_cap.py
+++ b/scripts/host_cap.py
@@ -465,27 +465,19 @@ def add_constituent_vars(cap, host_model, suite_list, run_env):
     pver = host_model.find_variable(standard_name=vert_layer_dim,
                                     any_scope=False)
     if pver is not None:
-        prop_dict = {'standard_name' : vert_layer_dim,
-                     'local_name' : pver.get_prop_value('local_name'),
-                     'units' : 'count', 'type' : 'integer',
-                     'protected' : 'True', 'dimensions' : '()'}
         if const_dict.find_variable(standard_name=vert_layer_dim,
                                     any_scope=False) is None:
-            ind_var = Var(prop_dict, _API_SOURCE, _API_DUMMY_RUN_ENV)
-            const_dict.add_variable(ind_var, run_env)
+            # (the host variable itself, it may be a member of a DDT)
+            const_dict.add_variable(pver, run_env)
         # end if
     # end if
     pver = host_model.find_variable(standard_name=vert_interface_dim,
                                     any_scope=False)
     if pver is not None:
-        prop_dict = {'standard_name' : vert_interface_dim,
-                     'local_name' : pver.get_prop_value('local_name'),
-                     'units' : 'count', 'type' : 'integer',
-                     'protected' : 'True', 'dimensions' : '()'}
         if const_dict.find_variable(standard_name=vert_interface_dim,
                                     any_scope=False) is None:
-            ind_var = Var(prop_dict, _API_SOURCE, run_env)
-            const_dict.add_variable(ind_var, run_env)
+            # (the host variable itself, it may be a member of a DDT)
+            const_dict.add_variable(pver, run_env)
         # end if
     # end if
 
-- 
2.43.0


From aab862c6a8cfd26e5f82828939c3b417ebdf2285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:57 +0000
Subject: [PATCH 83/84] fix: protected members of DDTs were listed although
 protected variables were excluded

---
 scripts/ccpp_datafile.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/scripts/ccpp_datafile.py b/scripts/ccpp_datafile.py
index f9fd03a..0f55c54 100755
--- a/scripts/ccpp_datafile.py
+++ b/scripts/ccpp_datafile.py
@@ -1030,9 +1030,21 @@ def _new_variable_dictionary(dictionaries, var_dict, dict_type, parent=None):
         sd_entry = ET.SubElement(dict_entry, "sub_dictionaries")
         sd_entry.text = " ".join([x.name for x in sub_dicts])
     # end if
+    host = parent if dict_type.endswith("_call_list") else None
+    while (host is not None) and (host.parent is not None):
+        host = host.parent
+    # end while
     vars_entry = ET.SubElement(dict_entry, "variables")
     for var in var_dict.variable_list():
         _new_var_entry(vars_entry, var, full_entry=True)
+        if host is not None:
+            # The host variable may be protected (also as a member of a DDT)
+            stdname = var.get_prop_value("standard_name")
+            pvar = host.find_variable(standard_name=stdname)
+            if (pvar is not None) and pvar.get_prop_value("protected"):
+                vars_entry[-1].set("protected", "True")
+            # end if
+        # end if
     # end for
 
 ###############################################################################
-- 
2.43.0


From 8a582eeabf18f71ce3d81563c6296bdb186ded01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:27 +0000
Subject: [PATCH 84/84] fix: fields of a DDT within a DDT were accessed as
 fields of the outer one

---
 scripts/ddt_library.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/ddt_library.py b/scripts/ddt_library.py
index 975f865..7ca7dcb 100644
--- a/scripts/ddt_library.py
+++ b/scripts/ddt_library.py
@@ -38,12 +38,12 @@ class VarDDT(Var):
         source = var_ref.source
         super().__init__(var_ref, source, run_env, context=source.context)
         # Find the correct place for <new_field>
-        if isinstance(var_ref, Var):
-            # We are at a top level DDT var, set our field
-            self.__field = new_field
-        else:
+        if isinstance(var_ref, VarDDT) and (var_ref.field is not None):
             # Recurse to find correct (tail) location for <new_field>
             self.__field = VarDDT(new_field, var_ref.field, run_env, recur=True)
+        else:
+            # We are at a top level DDT var, set our field
+            self.__field = new_field
         # end if
         if ((not recur) and
             run_env.verbose):
-- 
2.43.0

