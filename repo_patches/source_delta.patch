From cf162884979431788779518aa048c894a9d6cb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:11 +0000
Subject: [PATCH 01/54] fix: do not allocate the thread sample while
 samples_mutex is held

talp_update_sample is called with samples_mutex held when aggregating all
samples. With PAPI enabled it called talp_get_thread_sample, which locks the
same (non recursive) mutex if the calling thread does not have a sample yet.
---
 src/LB_core/DLB_talp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 63905c1..831c7c0 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -829,7 +829,7 @@ static void talp_update_sample(talp_sample_t *sample, bool papi, int64_t timesta
 #ifdef PAPI_LIB
     if (papi) {
         /* Only read counters if we are updating this thread's sample */
-        if (sample == talp_get_thread_sample(thread_spd)) {
+        if (sample == _tls_sample) {
             if (sample->state == useful) {
                 /* Read */
                 long long papi_values[2];
-- 
2.43.0


From 3ce610da55f80ce310d09889a01d909c1ce415e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:18 +0000
Subject: [PATCH 02/54] fix: enable the CPU request queues under the cpuinfo
 lock

---
 src/LB_comm/shmem_cpuinfo.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 35cdc36..745d44c 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2147,8 +2147,13 @@ bool shmem_cpuinfo__exists(void) {
 void shmem_cpuinfo__enable_request_queues(void) {
     if (shm_handler == NULL) return;
 
-    /* Enable asynchronous request queues */
-    shdata->flags.queues_enabled = true;
+    /* Enable asynchronous request queues. The flags share the same word, which must
+     * not be updated while other process is modifying another flag. */
+    shmem_lock(shm_handler);
+    {
+        shdata->flags.queues_enabled = true;
+    }
+    shmem_unlock(shm_handler);
 }
 
 void shmem_cpuinfo__remove_requests(pid_t pid) {
-- 
2.43.0


From 19c2dcc7d63910455370d66b8ebdc8ac722796be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:18 +0000
Subject: [PATCH 03/54] fix: set the initial number of idle CPUs under the
 segment lock

---
 src/LB_comm/comm_lend_light.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/LB_comm/comm_lend_light.c b/src/LB_comm/comm_lend_light.c
index f14ef41..1863f63 100644
--- a/src/LB_comm/comm_lend_light.c
+++ b/src/LB_comm/comm_lend_light.c
@@ -77,16 +77,21 @@ void ConfigShMem(int defCPUS, int is_greedy, const char *shmem_key) {
     // Shared memory creation
     open_shmem(shmem_key);
 
-    if (__sync_fetch_and_add(&shdata->attached_nprocs, 1) == 0) {
-        // Initialize shared memory if this is the 1st process attached
-        verbose(VB_SHMEM, "setting values to the shared mem");
+    /* Other processes must not be able to attach and lend CPUs until the counter is set */
+    shmem_lock(shm_handler);
+    {
+        if (__sync_fetch_and_add(&shdata->attached_nprocs, 1) == 0) {
+            // Initialize shared memory if this is the 1st process attached
+            verbose(VB_SHMEM, "setting values to the shared mem");
 
-        /* idleCPUS */
-        shdata->idleCpus = 0;
-        add_event(IDLE_CPUS_EVENT, 0);
+            /* idleCPUS */
+            shdata->idleCpus = 0;
+            add_event(IDLE_CPUS_EVENT, 0);
 
-        verbose(VB_SHMEM, "Finished setting values to the shared mem");
+            verbose(VB_SHMEM, "Finished setting values to the shared mem");
+        }
     }
+    shmem_unlock(shm_handler);
 }
 
 static void close_shmem(void) {
-- 
2.43.0


From 0b660ec428e3b60035e3821861040a5afbdc041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:11 +0000
Subject: [PATCH 04/54] fix: check again under the lock that an available CPU
 was not reclaimed or disabled

---
 src/LB_comm/shmem_cpuinfo.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 745d44c..0c8c317 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2124,7 +2124,10 @@ int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpuid) {
         /* Assign new guest if the CPU is empty */
         shmem_lock(shm_handler);
         {
-            if (cpuinfo->guest == NOBODY) {
+            /* The CPU may have been reclaimed or disabled before acquiring the lock */
+            if (cpuinfo->owner != pid && cpuinfo->state != CPU_LENT) {
+                error = DLB_ERR_PERM;
+            } else if (cpuinfo->guest == NOBODY) {
                 cpuinfo->guest = pid;
                 CPU_CLR(cpuid, &shdata->free_cpus);
                 error = DLB_SUCCESS;
-- 
2.43.0


From 3295c8f93348766339a502da5989853ba0cde898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:49 +0000
Subject: [PATCH 05/54] fix: let enable_cpu fall back on the add_active_mask
 callback it tests for

---
 src/LB_numThreads/numThreads.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_numThreads/numThreads.c b/src/LB_numThreads/numThreads.c
index 2405a27..09febe3 100644
--- a/src/LB_numThreads/numThreads.c
+++ b/src/LB_numThreads/numThreads.c
@@ -231,7 +231,7 @@ int enable_cpu(const pm_interface_t *pm, int cpuid) {
         cpu_set_t cpu_set;
         CPU_ZERO(&cpu_set);
         CPU_SET(cpuid, &cpu_set);
-        return enable_cpu_set(pm, &cpu_set);
+        return add_mask(pm, &cpu_set);
     }
 
     if (pm->dlb_callback_enable_cpu_ptr == NULL) {
-- 
2.43.0


From 3e15022d092e1e55d5a4d72e7c2ac6ef063f60f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:16 +0000
Subject: [PATCH 06/54] fix: make the Fortran interface blocks match the C
 prototypes they bind to

---
 src/apis/dlbf.h      | 13 ++++++++-----
 src/apis/dlbf_talp.h |  2 +-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/apis/dlbf.h b/src/apis/dlbf.h
index 7a607aa..6613692 100644
--- a/src/apis/dlbf.h
+++ b/src/apis/dlbf.h
@@ -65,20 +65,22 @@
             integer(kind=c_int) :: ierr
         end function dlb_unsetmaxparallelism
 
-        function dlb_callbackset(which, callback) result (ierr)         &
+        function dlb_callbackset(which, callback, arg) result (ierr)    &
      &          bind(c, name='DLB_CallbackSet')
             use iso_c_binding
             integer(kind=c_int) :: ierr
             integer(kind=c_int), value, intent(in) :: which
             type(c_funptr), value, intent(in) :: callback
+            type(c_ptr), value, intent(in) :: arg
         end function dlb_callbackset
 
-        function dlb_callbackget(which, callback) result (ierr)         &
+        function dlb_callbackget(which, callback, arg) result (ierr)    &
      &          bind(c, name='DLB_CallbackGet')
             use iso_c_binding
             integer(kind=c_int) :: ierr
             integer(kind=c_int), value, intent(in) :: which
             type(c_funptr), intent(out) :: callback
+            type(c_ptr), intent(out) :: arg
         end function dlb_callbackget
 
         function dlb_lend() result (ierr)                               &
@@ -224,7 +226,7 @@
             use iso_c_binding
             integer(kind=c_int) :: ierr
             integer(kind=c_int), intent(out) :: ncpus
-            type(c_ptr), intent(out) :: mask
+            type(c_ptr), value, intent(in) :: mask
         end function dlb_polldrom
 
         function dlb_polldrom_update() result (ierr)                    &
@@ -313,10 +315,11 @@
             character(kind=c_char), intent(out) :: val(*)
         end function dlb_getvariable
 
-        function dlb_printvariables() result (ierr)                     &
+        function dlb_printvariables(print_extended) result (ierr)       &
      &          bind(c, name='DLB_PrintVariables')
             use iso_c_binding
             integer(kind=c_int) :: ierr
+            integer(kind=c_int), value, intent(in) :: print_extended
         end function dlb_printvariables
 
         function dlb_printshmem(num_columns, flags) result (ierr)       &
@@ -338,7 +341,7 @@
      &          bind(c, name='DLB_SetObserverRole')
             use iso_c_binding
             integer(kind=c_int) :: ierr
-            logical(kind=c_bool) :: thread_is_observer
+            logical(kind=c_bool), value, intent(in) :: thread_is_observer
         end function dlb_setobserverrole
 
         function dlb_getversion(major, minor, patch) result (ierr)  &
diff --git a/src/apis/dlbf_talp.h b/src/apis/dlbf_talp.h
index c1ba824..27e2115 100644
--- a/src/apis/dlbf_talp.h
+++ b/src/apis/dlbf_talp.h
@@ -61,7 +61,7 @@
      &          bind(c,name='DLB_TALP_GetNumCPUs')
             use iso_c_binding
             integer(kind=c_int) :: ierr
-            real(c_double), intent(out) :: ncpus
+            integer(kind=c_int), intent(out) :: ncpus
         end function dlb_talp_getnumcpus
 
         function dlb_monitoringregiongetglobal()                        &
-- 
2.43.0


From b1aa3f755df67fec720c70344abca24f149f70b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:53 +0000
Subject: [PATCH 07/54] fix: do not return the text of an earlier call from the
 *_tostr functions

---
 src/support/types.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/support/types.c b/src/support/types.c
index 961747b..146271f 100644
--- a/src/support/types.c
+++ b/src/support/types.c
@@ -153,6 +153,7 @@ const char* verbose_opts_tostr(verbose_opts_t value) {
     }
 
     static char str[sizeof(verbose_opts_choices_str)] = "";
+    str[0] = '\0';
     char *p = str;
     int i;
     for (i=2; i<verbose_opts_nelems; ++i) {
@@ -218,6 +219,7 @@ int parse_verbose_fmt(const char *str, verbose_fmt_t *value) {
 
 const char* verbose_fmt_tostr(verbose_fmt_t value) {
     static char str[sizeof(verbose_fmt_choices_str)] = "";
+    str[0] = '\0';
     char *p = str;
     int i;
     for (i=0; i<verbose_fmt_nelems; ++i) {
@@ -303,6 +305,7 @@ const char* instrument_items_tostr(instrument_items_t value) {
     }
 
     static char str[sizeof(instrument_items_choices_str)] = "";
+    str[0] = '\0';
     char *p = str;
     int i;
     for (i=2; i<instrument_items_nelems; ++i) {
@@ -352,6 +355,7 @@ int parse_debug_opts(const char *str, debug_opts_t *value) {
 
 const char* debug_opts_tostr(debug_opts_t value) {
     static char str[sizeof(debug_opts_choices_str)] = "";
+    str[0] = '\0';
     char *p = str;
     int i;
     for (i=0; i<debug_opts_nelems; ++i) {
@@ -506,6 +510,7 @@ const char* talp_summary_tostr(talp_summary_t value) {
     }
 
     static char str[sizeof(talp_summary_choices_str)] = "";
+    str[0] = '\0';
     char *p = str;
     int i;
     for (i=2; i<talp_summary_nelems; ++i) {
@@ -726,7 +731,13 @@ int parse_omptool_opts(const char *str, omptool_opts_t *value) {
 }
 
 const char* omptool_opts_tostr(omptool_opts_t value) {
+    /* particular case */
+    if (value == OMPTOOL_OPTS_NONE) {
+        return "none";
+    }
+
     static char str[sizeof(omptool_opts_choices_str)] = "";
+    str[0] = '\0';
     char *p = str;
     int i;
     for (i=0; i<omptool_opts_nelems; ++i) {
-- 
2.43.0


From 279f02085733e50d5e6609bab4b5ad39a7023f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:53 +0000
Subject: [PATCH 08/54] fix: compare path options by their text

---
 src/support/options.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/support/options.c b/src/support/options.c
index c3f3da6..00394fc 100644
--- a/src/support/options.c
+++ b/src/support/options.c
@@ -673,8 +673,7 @@ static bool values_are_equivalent(option_type_t type, const char *value1, const
         case OPT_STR_T:
             return strcmp(value1, value2) == 0;
         case OPT_PTR_PATH_T:
-            return *(const char**)value1 && *(const char**)value2
-                && strcmp(*(const char**)value1, *(const char**)value2) == 0;
+            return strcmp(value1, value2) == 0;
         case OPT_VB_T:
             return equivalent_verbose_opts(value1, value2);
         case OPT_VBFMT_T:
-- 
2.43.0


From cd17e8674484c706f10357b1f2648a0e1bf29b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:37 +0000
Subject: [PATCH 09/54] fix: check CPU numbers and CPU masks given by the user
 against both ends of the node

---
 src/LB_comm/shmem_cpuinfo.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 0c8c317..0ebb3c6 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -396,7 +396,7 @@ static int register_process(pid_t pid, pid_t preinit_pid, const cpu_set_t *mask,
     if (!steal) {
         // Check first that my mask is not already owned
         for (int cpuid = mu_get_first_cpu(mask);
-                cpuid >= 0;
+                cpuid >= 0 && cpuid < node_size;
                 cpuid = mu_get_next_cpu(mask, cpuid)) {
 
             pid_t owner = shdata->node_info[cpuid].owner;
@@ -412,7 +412,7 @@ static int register_process(pid_t pid, pid_t preinit_pid, const cpu_set_t *mask,
 
     // Register mask
     for (int cpuid = mu_get_first_cpu(mask);
-            cpuid >= 0;
+            cpuid >= 0 && cpuid < node_size;
             cpuid = mu_get_next_cpu(mask, cpuid)) {
 
         cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
@@ -668,7 +668,7 @@ static void lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks)
 
 int shmem_cpuinfo__lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error = DLB_SUCCESS;
     //DLB_DEBUG( cpu_set_t freed_cpus; )
@@ -720,7 +720,7 @@ int shmem_cpuinfo__lend_cpu_mask(pid_t pid, const cpu_set_t *restrict mask,
     shmem_lock(shm_handler);
     {
         for (int cpuid = mu_get_first_cpu(mask);
-                cpuid >= 0;
+                cpuid >= 0 && cpuid < node_size;
                 cpuid = mu_get_next_cpu(mask, cpuid)) {
             lend_cpu(pid, cpuid, tasks);
 
@@ -865,7 +865,7 @@ int shmem_cpuinfo__reclaim_all(pid_t pid, array_cpuinfo_task_t *restrict tasks)
 
 int shmem_cpuinfo__reclaim_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     //DLB_DEBUG( cpu_set_t recovered_cpus; )
@@ -1181,7 +1181,7 @@ static int acquire_cpus_in_array_cpuid_t(pid_t pid,
 
 int shmem_cpuinfo__acquire_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     shmem_lock(shm_handler);
@@ -1534,7 +1534,7 @@ static int borrow_cpus_in_cpu_set_t(pid_t pid,
 
 int shmem_cpuinfo__borrow_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     shmem_lock(shm_handler);
@@ -1707,7 +1707,7 @@ int shmem_cpuinfo__return_all(pid_t pid, array_cpuinfo_task_t *restrict tasks) {
 
 int shmem_cpuinfo__return_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     shmem_lock(shm_handler);
@@ -2110,6 +2110,9 @@ int shmem_cpuinfo__get_number_of_non_owned_cpus(pid_t pid) {
 }
 
 int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpuid) {
+
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
+
     int error = DLB_NOTED;
     cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
 
-- 
2.43.0


From cffd67eeff219d0b63af9baf3aaea9204e6aeff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:37 +0000
Subject: [PATCH 10/54] fix: reject the first id past the end in mu_get_core_id
 and mu_get_core_mask*

---
 src/support/mask_utils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index bed6b9e..2821e89 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -552,7 +552,7 @@ int mu_get_num_cores(void) {
 
 int mu_get_core_id(int cpuid) {
 
-    if (cpuid < 0 || (unsigned)cpuid > sys.num_cpus) return -1;
+    if (cpuid < 0 || (unsigned)cpuid >= sys.num_cpus) return -1;
 
     for (unsigned int core_id = 0; core_id < sys.num_cores; ++core_id) {
         if (CPU_ISSET_S(cpuid, mu_cpuset_alloc_size,
@@ -566,14 +566,14 @@ int mu_get_core_id(int cpuid) {
 
 const mu_cpuset_t* mu_get_core_mask(int cpuid) {
 
-    if (cpuid < 0 || (unsigned)cpuid > sys.num_cpus) return NULL;
+    if (cpuid < 0 || (unsigned)cpuid >= sys.num_cpus) return NULL;
 
     return sys.core_masks_by_cpuid[cpuid];
 }
 
 const mu_cpuset_t* mu_get_core_mask_by_coreid(int core_id) {
 
-    if (core_id < 0 || (unsigned)core_id > sys.num_cores) return NULL;
+    if (core_id < 0 || (unsigned)core_id >= sys.num_cores) return NULL;
 
     return &sys.core_masks_by_coreid[core_id];
 }
-- 
2.43.0


From 6c8edd596bc9dc86ddf0529faa5376401e423f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:31 +0000
Subject: [PATCH 11/54] fix: do not write past max_len == 0 in the process list
 queries

---
 src/LB_comm/shmem_procinfo.c | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index e990399..742c95f 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -987,14 +987,11 @@ int shmem_procinfo__getpidlist(pid_t *pidlist, int *nelems, int max_len) {
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             pid_t pid = shdata->process_info[p].pid;
             if (pid != NOBODY) {
                 pidlist[(*nelems)++] = pid;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
@@ -1044,13 +1041,10 @@ void shmem_procinfo__getcpuusage_list(double *usagelist, int *nelems, int max_le
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             if (shdata->process_info[p].pid != NOBODY) {
                 usagelist[(*nelems)++] = shdata->process_info[p].cpu_usage;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
@@ -1062,13 +1056,10 @@ void shmem_procinfo__getcpuavgusage_list(double *avgusagelist, int *nelems, int
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             if (shdata->process_info[p].pid != NOBODY) {
                 avgusagelist[(*nelems)++] = shdata->process_info[p].cpu_avg_usage;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
@@ -1131,13 +1122,10 @@ void shmem_procinfo__getactivecpus_list(pid_t *cpuslist, int *nelems, int max_le
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             if (shdata->process_info[p].pid != NOBODY) {
                 cpuslist[(*nelems)++] = shdata->process_info[p].active_cpus;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
-- 
2.43.0


From 7d08bf31d7e81b47ca24c8a4ec3f9dd704541f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:24 +0000
Subject: [PATCH 12/54] fix: terminate the scontrol child when it cannot be
 executed, and wait for it

---
 src/LB_core/DLB_kernel.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 2b23cc7..08c9b73 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -46,7 +46,10 @@
 
 #include <limits.h>
 #include <sched.h>
+#include <stdlib.h>
 #include <string.h>
+#include <sys/wait.h>
+#include <unistd.h>
 
 
 /* By default all threads are participants.
@@ -752,6 +755,7 @@ int drom_setprocessmask(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flag
         }
         if (!secure_getenv("SLURM_JOBID")) {
             warning("SLURM_JOBID is mandatory");
+            free(mask_str);
             return DLB_ERR_UNKNOWN;
         }
         char hostname[HOST_NAME_MAX];
@@ -764,12 +768,15 @@ int drom_setprocessmask(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flag
         args[4] = NULL;
 
         int res_pid = fork();
-        if (res_pid < 0) {
-            warning("fork error while invoking scontrol");
-            return DLB_ERR_UNKNOWN;
-        } else if (res_pid == 0) {
+        if (res_pid == 0) {
             verbose(VB_DROM, "%s %s %s %s", args[0], args[1], args[2], args[3]);
             execvp("scontrol", args);
+            _exit(EXIT_FAILURE);
+        } else if (res_pid < 0) {
+            warning("fork error while invoking scontrol");
+            error = DLB_ERR_UNKNOWN;
+        } else {
+            waitpid(res_pid, NULL, 0);
         }
 
         for (int i = 0; i < 5; ++i) {
-- 
2.43.0


From 861a7d6595a8c7de26e6e712b8c1f707c06b45cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:24 +0000
Subject: [PATCH 13/54] fix: close the shared memory file descriptor once it is
 mapped

---
 src/LB_comm/shmem.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index 9b37f5a..d7eff44 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -167,6 +167,9 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
         fatal("mmap error: %s",  strerror(errno));
     }
 
+    /* The mapping does not need the file descriptor */
+    close(fd);
+
     /* Set the address for both structs */
     handler->shsync = (shmem_sync_t*) handler->shm_addr;
     *shdata = handler->shm_addr + shsync_size;
-- 
2.43.0


From 2216ccb03e37d2c4d870f7b3adcf52dc8f7df78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:24 +0000
Subject: [PATCH 14/54] fix: restore the previous locale on every path when
 writing the TALP report

---
 src/support/talp_output.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/support/talp_output.c b/src/support/talp_output.c
index 2ef4173..dbcd9cb 100644
--- a/src/support/talp_output.c
+++ b/src/support/talp_output.c
@@ -1443,10 +1443,9 @@ void talp_output_finalize(const char *output_file) {
     /* If the process has changed the locale, temporarily push the C locale to
      * print floats with the expected notation (a comma as a decimal separator
      * will break CSV and JSON files). The object associated with the locale
-     * can be safely freed after it has been set. */
+     * cannot be freed until the previous one is restored. */
     locale_t new_locale = newlocale(LC_ALL, "C", 0);
-    uselocale(new_locale);
-    freelocale(new_locale);
+    locale_t old_locale = uselocale(new_locale);
 
     if (output_file == NULL) {
         /* No output file, just print all records */
@@ -1457,7 +1456,11 @@ void talp_output_finalize(const char *output_file) {
         /* Do not open file if process has no data */
         if (pop_metrics_records == NULL
                 && node_records == NULL
-                && region_records == NULL) return;
+                && region_records == NULL) {
+            uselocale(old_locale);
+            freelocale(new_locale);
+            return;
+        }
 
         /* Check file extension */
         typedef enum Extension {
@@ -1620,7 +1623,8 @@ void talp_output_finalize(const char *output_file) {
     }
 
     // Restore locale
-    uselocale(LC_GLOBAL_LOCALE);
+    uselocale(old_locale);
+    freelocale(new_locale);
 
     // De-allocate all records
     common_finalize();
-- 
2.43.0


From 618f9c638304df906135799ea2f4cd050bda0b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:24 +0000
Subject: [PATCH 15/54] fix: release the file names of the split CSV reports

---
 src/support/talp_output.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/support/talp_output.c b/src/support/talp_output.c
index dbcd9cb..c0b30b9 100644
--- a/src/support/talp_output.c
+++ b/src/support/talp_output.c
@@ -1517,6 +1517,7 @@ void talp_output_finalize(const char *output_file) {
                     pop_metrics_to_csv(pop_file, append_to_csv);
                     fclose(pop_file);
                 }
+                free(pop_filename);
             }
 
             /* Node */
@@ -1540,6 +1541,7 @@ void talp_output_finalize(const char *output_file) {
                     node_to_csv(node_file, append_to_csv);
                     fclose(node_file);
                 }
+                free(node_filename);
             }
 
             /* Process */
@@ -1563,6 +1565,7 @@ void talp_output_finalize(const char *output_file) {
                     process_to_csv(process_file, append_to_csv);
                     fclose(process_file);
                 }
+                free(process_filename);
             }
         }
 
-- 
2.43.0


From 7119c86d873c918cef4d569d856d14fa0fe9050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:24 +0000
Subject: [PATCH 16/54] fix: close the directory after listing the shared
 memories

---
 src/utils/dlb_shm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/dlb_shm.c b/src/utils/dlb_shm.c
index f69d7f3..babbf1b 100644
--- a/src/utils/dlb_shm.c
+++ b/src/utils/dlb_shm.c
@@ -211,6 +211,8 @@ void list_shdata(int list_columns, dlb_printshmem_flags_t print_flags) {
         fprintf( stderr, "Looking for %s...\n", userdef_shm_filename );
         list_shdata_item(&userdef_shm_filename[9], list_columns, print_flags);
     }
+
+    closedir(dp);
 }
 
 void delete_shdata_item( const char* name ) {
-- 
2.43.0


From 7fa5874565d53f11abfc1e6ef18e4eb7d07271a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:01 +0000
Subject: [PATCH 17/54] fix: name DLB_ERR_NOLEWI in its own error message

---
 src/support/error.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/support/error.c b/src/support/error.c
index 325770a..02bf8db 100644
--- a/src/support/error.c
+++ b/src/support/error.c
@@ -42,7 +42,7 @@ static const char* error_msg[] = {
     "DLB_ERR_NOMEM (-14): DLB cannot allocate more processes into the shared memory",
     "DLB_ERR_NOPOL (-15): The operation is not defined in the current policy",
     "DLB_ERR_NOTALP (-16): TALP is not initialized",
-    "DLB_ERR_NOTALP (-17): LeWI is not initialized"
+    "DLB_ERR_NOLEWI (-17): LeWI is not initialized"
 };
 
 const char* error_get_str(int errnum) {
-- 
2.43.0


From 3467edb99cd77e37fadbf4cc208cf862000a2274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:42 +0000
Subject: [PATCH 18/54] fix: apply the ownership and name filters to every file
 that dlb_shm deletes

---
 src/utils/dlb_shm.c | 46 +++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/utils/dlb_shm.c b/src/utils/dlb_shm.c
index babbf1b..9c619bf 100644
--- a/src/utils/dlb_shm.c
+++ b/src/utils/dlb_shm.c
@@ -224,6 +224,17 @@ void delete_shdata_item( const char* name ) {
     }
 }
 
+/* Check whether filename, relative to the shm directory, is a DLB shared
+ * memory owned by the current user */
+static bool is_own_shm( const char *filename ) {
+    struct stat statbuf;
+    return lstat( filename, &statbuf ) == 0
+        && S_ISREG( statbuf.st_mode )
+        && getuid() == statbuf.st_uid
+        && ( fnmatch( "DLB_*", filename, FNM_PATHNAME ) == 0
+                || fnmatch( "sem.DLB_*", filename, FNM_PATHNAME ) == 0 );
+}
+
 void delete_shdata( void ) {
     // Ignore them if the filename is not specified
     bool created_shm_deleted = created_shm_filename == NULL;
@@ -232,39 +243,38 @@ void delete_shdata( void ) {
     const char dir[] = "/dev/shm";
     DIR *dp;
     struct dirent *entry;
-    struct stat statbuf;
 
-    if ( (dp = opendir(dir)) == NULL ) {
+    if ( (dp = opendir(dir)) == NULL || chdir(dir) != 0 ) {
         perror( "DLB ERROR: can't open /dev/shm" );
         exit( EXIT_FAILURE );
     }
 
-    chdir(dir);
     while ( (entry = readdir(dp)) != NULL ) {
-        lstat( entry->d_name, &statbuf );
-        if( S_ISREG( statbuf.st_mode ) && getuid() == statbuf.st_uid ) {
-            if ( fnmatch( "DLB_*", entry->d_name, 0) == 0    ||
-                    fnmatch( "sem.DLB_*", entry->d_name, 0) == 0 ) {
-                delete_shdata_item( entry->d_name );
-
-                // Double-check if recently created or user defined
-                // Shared Memories are detected. (BG/Q needs it)
-                created_shm_deleted = created_shm_deleted || strstr( created_shm_filename, entry->d_name );
-                userdef_shm_deleted = userdef_shm_deleted || strstr( userdef_shm_filename, entry->d_name );
-            }
+        if ( is_own_shm( entry->d_name ) ) {
+            delete_shdata_item( entry->d_name );
+
+            // Double-check if recently created or user defined
+            // Shared Memories are detected. (BG/Q needs it)
+            created_shm_deleted = created_shm_deleted || strstr( created_shm_filename, entry->d_name );
+            userdef_shm_deleted = userdef_shm_deleted || strstr( userdef_shm_filename, entry->d_name );
         }
     }
 
+    // Skip the leading slash, file names are relative to the shm directory
     if ( !created_shm_deleted ) {
         fprintf( stderr, "Previously created Shared Memory file not found.\n" );
-        fprintf( stderr, "Trying to delete %s...\n", created_shm_filename );
-        delete_shdata_item( created_shm_filename );
+        if ( is_own_shm( &created_shm_filename[1] ) ) {
+            fprintf( stderr, "Trying to delete %s...\n", created_shm_filename );
+            delete_shdata_item( &created_shm_filename[1] );
+        }
     }
 
     if ( !userdef_shm_deleted ) {
         fprintf( stderr, "User defined Shared Memory file not found.\n" );
-        fprintf( stderr, "Trying to delete %s...\n", userdef_shm_filename );
-        delete_shdata_item( userdef_shm_filename );
+        if ( is_own_shm( &userdef_shm_filename[1] ) ) {
+            fprintf( stderr, "Trying to delete %s...\n", userdef_shm_filename );
+            delete_shdata_item( &userdef_shm_filename[1] );
+        }
     }
 
     closedir(dp);
-- 
2.43.0


From 89b3ebd4f7c844abd54b4e02a3d232e817b5a6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:11 +0000
Subject: [PATCH 19/54] fix: read the samples of a nested parallel region
 before they are freed

---
 src/LB_core/DLB_talp.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 831c7c0..7013fc0 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -1978,10 +1978,6 @@ void talp_openmp_parallel_end(omptool_parallel_data_t *parallel_data) {
             talp_aggregate_samples_parallel(spd,
                     &parallel_samples[1],
                     parallel_data->actual_parallelism-1);
-
-            /* free local data */
-            free(parallel_data->talp_parallel_data);
-            parallel_data->talp_parallel_data = NULL;
         }
 
         /* Update current threads's state */
@@ -1997,6 +1993,12 @@ void talp_openmp_parallel_end(omptool_parallel_data_t *parallel_data) {
                 worker_sample->state = not_useful_omp_out;
             }
         }
+
+        if (parallel_data->level > 1) {
+            /* free local data */
+            free(parallel_data->talp_parallel_data);
+            parallel_data->talp_parallel_data = NULL;
+        }
     }
 }
 
-- 
2.43.0


From c9cd5c0cdd3fe3f0c424460ec1599d8ec7ae3311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:47 +0000
Subject: [PATCH 20/54] fix: create the application reduction operation through
 the profiling interface

The library's own call went through its MPI interception and was counted as
an MPI call of the program.
---
 src/LB_core/DLB_talp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 7013fc0..0a23922 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -1501,7 +1501,7 @@ static void talp_reduce_pop_metrics_app_reduction(app_reduction_t *app_reduction
 
     /* Define MPI operation */
     MPI_Op app_reduction_op;
-    MPI_Op_create(talp_mpi_reduction_fn, true, &app_reduction_op);
+    PMPI_Op_create(talp_mpi_reduction_fn, true, &app_reduction_op);
 
     /* MPI reduction */
     if (!all_to_all) {
-- 
2.43.0


From 94b3e6373c6df0a0d334bfb6565b09624bf53bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:14 +0000
Subject: [PATCH 21/54] fix: node load balance of a region without useful time

The division by the maximum useful time was 0/0 when every process of the
node had only spent time in MPI, and the query reported a NaN.
---
 src/support/perf_metrics.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/support/perf_metrics.h b/src/support/perf_metrics.h
index 8ae6a8f..a38ed05 100644
--- a/src/support/perf_metrics.h
+++ b/src/support/perf_metrics.h
@@ -77,7 +77,8 @@ static inline void perf_metrics__infer_mpi_model(
         *metrics = (const perf_metrics_mpi_t) {
             .parallel_efficiency = (float)node_sum_useful / (node_sum_useful + node_sum_mpi),
             .communication_efficiency = (float)max_useful_time / elapsed_time,
-            .load_balance = ((float)node_sum_useful / processes_per_node) / max_useful_time,
+            .load_balance = max_useful_time > 0
+                ? ((float)node_sum_useful / processes_per_node) / max_useful_time : 0.0f,
         };
     } else {
         *metrics = (const perf_metrics_mpi_t) {};
-- 
2.43.0


From c1e492cff4abaaa021aac2469c97706a39e0e56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:14 +0000
Subject: [PATCH 22/54] fix: node summary without registered processes

If no process of the node could publish its global region, the averages were
divided by zero (or by an uninitialised count without shared memory).
---
 src/LB_core/DLB_talp.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 0a23922..c8d2497 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -1055,7 +1055,7 @@ static void talp_record_node_summary(const subprocess_descriptor_t *spd) {
         /* Obtain a list of regions associated with the Global Region Name, sorted by PID */
         int max_procs = mu_get_system_size();
         talp_region_list_t *region_list = malloc(max_procs * sizeof(talp_region_list_t));
-        int nelems;
+        int nelems = 0;
         shmem_talp__get_regionlist(region_list, &nelems, max_procs, global_region_name);
 
         /* Allocate and initialize node summary structure */
@@ -1085,8 +1085,10 @@ static void talp_record_node_summary(const subprocess_descriptor_t *spd) {
         free(region_list);
 
         /* Compute average values */
-        node_summary->avg_useful_time /= node_summary->nelems;
-        node_summary->avg_mpi_time /= node_summary->nelems;
+        if (nelems > 0) {
+            node_summary->avg_useful_time /= nelems;
+            node_summary->avg_mpi_time /= nelems;
+        }
     }
 
     /* Perform a final barrier so that all processes let the _process_id 0 to
-- 
2.43.0


From f29eba4148b64b95b13ddfa19067293a605d4ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:14 +0000
Subject: [PATCH 23/54] fix: report of a timer that was never started

The average was computed with an integer division by zero.
---
 src/support/mytime.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/support/mytime.c b/src/support/mytime.c
index 1cd69d8..b478c76 100644
--- a/src/support/mytime.c
+++ b/src/support/mytime.c
@@ -234,6 +234,7 @@ void timer_finalize(void) {
     int i;
     for (i=0; i<ntimers; ++i) {
         timer_data_t *timer = &timers[i];
+        if (timer->count == 0) continue;
         int64_t avg = timer->acc/timer->count;
         int64_t stdev = sqrt(timer->asq/timer->count - avg*avg);
         info("Timer \"%s\" "
-- 
2.43.0


From 58fb30b0e3a6fe98ac4d115b844139ad1abb8304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:46 +0000
Subject: [PATCH 24/54] fix: do not truncate the normalized useful time in the
 MPI reduction

max_int64 was applied to doubles: the fraction was lost at every step, and a
value below one became zero, which is later used as a divisor.
---
 src/LB_core/DLB_talp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index c8d2497..801afc1 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -1418,8 +1418,9 @@ static void talp_mpi_reduction_fn(void *invec, void *inoutvec, int *len,
         inout[i].omp_load_imbalance_time += in[i].omp_load_imbalance_time;
         inout[i].omp_scheduling_time     += in[i].omp_scheduling_time;
         inout[i].omp_serialization_time  += in[i].omp_serialization_time;
-        inout[i].max_useful_normd_node  =
-            max_int64(inout[i].max_useful_normd_node, in[i].max_useful_normd_node);
+        if (in[i].max_useful_normd_node > inout[i].max_useful_normd_node) {
+            inout[i].max_useful_normd_node = in[i].max_useful_normd_node;
+        }
         if (in[i].max_useful_normd_proc > inout[i].max_useful_normd_proc) {
             inout[i].max_useful_normd_proc = in[i].max_useful_normd_proc;
             inout[i].mpi_normd_of_max_useful = in[i].mpi_normd_of_max_useful;
-- 
2.43.0


From 1106cd2ef462991637e72fffc0c84d770e6c8055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:50 +0000
Subject: [PATCH 25/54] fix: close a started region when it is reset

---
 src/LB_core/DLB_talp.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 801afc1..9251cbd 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -291,8 +291,8 @@ dlb_monitor_t* monitoring_region_register(const subprocess_descriptor_t *spd,
 }
 
 int monitoring_region_reset(const subprocess_descriptor_t *spd, dlb_monitor_t *monitor) {
+    talp_info_t *talp_info = spd->talp_info;
     if (monitor == DLB_GLOBAL_REGION) {
-        talp_info_t *talp_info = spd->talp_info;
         monitor = talp_info->monitor;
     }
 
@@ -303,8 +303,16 @@ int monitoring_region_reset(const subprocess_descriptor_t *spd, dlb_monitor_t *m
         ._data = monitor->_data,
     };
 
+    /* If the region was started, it needs to be closed as well */
     monitor_data_t *monitor_data = monitor->_data;
-    monitor_data->flags.started = false;
+    pthread_mutex_lock(&talp_info->regions_mutex);
+    {
+        if (monitor_data->flags.started) {
+            monitor_data->flags.started = false;
+            talp_info->open_regions = g_slist_remove(talp_info->open_regions, monitor);
+        }
+    }
+    pthread_mutex_unlock(&talp_info->regions_mutex);
 
     return DLB_SUCCESS;
 }
-- 
2.43.0


From c4f3f8e1103f0dbaa3948eedceb3903b33b2195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:50 +0000
Subject: [PATCH 26/54] fix: keep the assigned CPUs of a region when it is
 reset

---
 src/LB_core/DLB_talp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 9251cbd..cdfe540 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -299,6 +299,7 @@ int monitoring_region_reset(const subprocess_descriptor_t *spd, dlb_monitor_t *m
     /* Reset everything except these fields: */
     *monitor = (const dlb_monitor_t) {
         .name = monitor->name,
+        .avg_cpus = monitor->avg_cpus,
         .num_resets = monitor->num_resets + 1,
         ._data = monitor->_data,
     };
-- 
2.43.0


From 900be17c06848e04e2b7c32336c676fd7327ca09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:50 +0000
Subject: [PATCH 27/54] fix: check again whether a region is started under the
 lock

---
 src/LB_core/DLB_talp.c | 57 ++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index cdfe540..5f07347 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -327,38 +327,41 @@ int monitoring_region_start(const subprocess_descriptor_t *spd, dlb_monitor_t *m
         monitor = talp_info->monitor;
     }
 
-    int error;
+    int error = DLB_NOUPDT;
     monitor_data_t *monitor_data = monitor->_data;
 
     if (!monitor_data->flags.started && monitor_data->flags.enabled) {
         /* Gather samples from all threads and update regions */
         talp_aggregate_samples(spd);
 
-        verbose(VB_TALP, "Starting region %s", monitor->name);
-        instrument_event(MONITOR_REGION, monitor_data->id, EVENT_BEGIN);
-
-        /* Thread sample was just updated, use timestamp as starting time */
         talp_sample_t *thread_sample = talp_get_thread_sample(spd);
-        monitor->start_time = thread_sample->last_updated_timestamp;
-        monitor->stop_time = 0;
 
         pthread_mutex_lock(&talp_info->regions_mutex);
         {
-            monitor_data->flags.started = true;
-            talp_info->open_regions = g_slist_prepend(talp_info->open_regions, monitor);
+            /* Check again, other thread may have started the region meanwhile */
+            if (!monitor_data->flags.started) {
+                /* Thread sample was just updated, use timestamp as starting time */
+                monitor->start_time = thread_sample->last_updated_timestamp;
+                monitor->stop_time = 0;
+
+                monitor_data->flags.started = true;
+                talp_info->open_regions = g_slist_prepend(talp_info->open_regions, monitor);
+                error = DLB_SUCCESS;
+            }
         }
         pthread_mutex_unlock(&talp_info->regions_mutex);
 
+        if (error == DLB_SUCCESS) {
+            verbose(VB_TALP, "Starting region %s", monitor->name);
+            instrument_event(MONITOR_REGION, monitor_data->id, EVENT_BEGIN);
+        }
+
         /* Normally, the sample state will be 'useful' at this point, but on
          * certain cases where neither talp_mpi_init nor talp_openmp_init have
          * been called, this is necessary */
         if (thread_sample->state != useful) {
             set_sample_state(thread_sample, useful, talp_info->flags.papi);
         }
-
-        error = DLB_SUCCESS;
-    } else {
-        error = DLB_NOUPDT;
     }
 
     return error;
@@ -379,31 +382,35 @@ int monitoring_region_stop(const subprocess_descriptor_t *spd, dlb_monitor_t *mo
         }
     }
 
-    int error;
+    int error = DLB_NOUPDT;
     monitor_data_t *monitor_data = monitor->_data;
 
     if (monitor_data->flags.started) {
         /* Gather samples from all threads and update regions */
         talp_aggregate_samples(spd);
 
-        /* Stop timer */
         talp_sample_t *thread_sample = talp_get_thread_sample(spd);
-        monitor->stop_time = thread_sample->last_updated_timestamp;
-        monitor->elapsed_time += monitor->stop_time - monitor->start_time;
-        ++(monitor->num_measurements);
 
         pthread_mutex_lock(&talp_info->regions_mutex);
         {
-            monitor_data->flags.started = false;
-            talp_info->open_regions = g_slist_remove(talp_info->open_regions, monitor);
+            /* Check again, other thread may have stopped the region meanwhile */
+            if (monitor_data->flags.started) {
+                /* Stop timer */
+                monitor->stop_time = thread_sample->last_updated_timestamp;
+                monitor->elapsed_time += monitor->stop_time - monitor->start_time;
+                ++(monitor->num_measurements);
+
+                monitor_data->flags.started = false;
+                talp_info->open_regions = g_slist_remove(talp_info->open_regions, monitor);
+                error = DLB_SUCCESS;
+            }
         }
         pthread_mutex_unlock(&talp_info->regions_mutex);
 
-        verbose(VB_TALP, "Stopping region %s", monitor->name);
-        instrument_event(MONITOR_REGION, monitor_data->id, EVENT_END);
-        error = DLB_SUCCESS;
-    } else {
-        error = DLB_NOUPDT;
+        if (error == DLB_SUCCESS) {
+            verbose(VB_TALP, "Stopping region %s", monitor->name);
+            instrument_event(MONITOR_REGION, monitor_data->id, EVENT_END);
+        }
     }
 
     return error;
-- 
2.43.0


From 88bf489be9ee38ab4982d9648b9ae55f8a8a5c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:14 +0000
Subject: [PATCH 28/54] fix: shmem_async_init kept its attach to the segment
 when there was no free helper

---
 src/LB_comm/shmem_async.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/LB_comm/shmem_async.c b/src/LB_comm/shmem_async.c
index 467632c..b600eb4 100644
--- a/src/LB_comm/shmem_async.c
+++ b/src/LB_comm/shmem_async.c
@@ -219,6 +219,18 @@ static void cleanup_shmem(void *shdata_ptr, int pid) {
     }
 }
 
+static void close_shmem(void) {
+    pthread_mutex_lock(&mutex);
+    {
+        if (--subprocesses_attached == 0) {
+            shmem_finalize(shm_handler, NULL /* do not check if empty */);
+            shm_handler = NULL;
+            shdata = NULL;
+        }
+    }
+    pthread_mutex_unlock(&mutex);
+}
+
 int shmem_async_init(pid_t pid, const pm_interface_t *pm, const cpu_set_t *process_mask,
         const char *shmem_key) {
     int error = DLB_ERR_UNKNOWN;
@@ -289,6 +301,8 @@ int shmem_async_init(pid_t pid, const pm_interface_t *pm, const cpu_set_t *proce
     if (helper == NULL) {
         error = DLB_ERR_NOMEM;
         warn_error(DLB_ERR_NOMEM);
+        // Not registered, this attach does not count
+        close_shmem();
     }
 
     return error;
@@ -316,15 +330,7 @@ int shmem_async_finalize(pid_t pid) {
         shmem_unlock(shm_handler);
 
         /* Shared memory destruction */
-        pthread_mutex_lock(&mutex);
-        {
-            if (--subprocesses_attached == 0) {
-                shmem_finalize(shm_handler, NULL /* do not check if empty */);
-                shm_handler = NULL;
-                shdata = NULL;
-            }
-        }
-        pthread_mutex_unlock(&mutex);
+        close_shmem();
     }
 
     return helper ? DLB_SUCCESS : DLB_ERR_NOPROC;
-- 
2.43.0


From 7982331e5be1f331facbac163ef67635bc07ecf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:14 +0000
Subject: [PATCH 29/54] fix: shmem_barrier__finalize kept the pointer to the
 unmapped segment

---
 src/LB_comm/shmem_barrier.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LB_comm/shmem_barrier.c b/src/LB_comm/shmem_barrier.c
index ad1ca41..dba539d 100644
--- a/src/LB_comm/shmem_barrier.c
+++ b/src/LB_comm/shmem_barrier.c
@@ -121,6 +121,7 @@ void shmem_barrier__finalize(const char *shmem_key) {
 
     shmem_finalize(shm_handler, NULL /* do not check if empty */);
     shm_handler = NULL;
+    shdata = NULL;
 }
 
 int shmem_barrier_ext__finalize(void) {
-- 
2.43.0


From ca327850205b28c8844d35b2ea0e40e09b5e53e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:27 +0000
Subject: [PATCH 30/54] fix: Finish detached from cpuinfo and procinfo segments
 that Initialize had not attached

---
 src/LB_core/DLB_kernel.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 08c9b73..f79d609 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -233,12 +233,15 @@ int Finish(subprocess_descriptor_t *spd) {
         node_barrier_finalize(spd);
         shmem_barrier__finalize(spd->options.shm_key);
     }
-    if (spd->lb_policy == POLICY_LEWI_MASK
+    /* Only the shared memories attached in Initialize */
+    bool mask_was_needed = (
+            spd->lb_policy == POLICY_LEWI_MASK
             || spd->options.drom
-            || spd->options.talp
-            || spd->options.ompt
-            || spd->options.preinit_pid) {
+            || spd->options.preinit_pid);
+    if (mask_was_needed) {
         shmem_cpuinfo__finalize(spd->id, spd->options.shm_key, spd->options.lewi_color);
+    }
+    if (mask_was_needed || spd->options.talp) {
         shmem_procinfo__finalize(spd->id, spd->options.debug_opts & DBG_RETURNSTOLEN,
                 spd->options.shm_key);
     }
-- 
2.43.0


From d1e1045c896190e79b12ce7dab523ebfb1cc2974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:12 +0000
Subject: [PATCH 31/54] fix: classic LeWI created or destroyed CPUs when the
 idle counter changed between its reads

---
 src/LB_comm/comm_lend_light.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/LB_comm/comm_lend_light.c b/src/LB_comm/comm_lend_light.c
index 1863f63..ff222ff 100644
--- a/src/LB_comm/comm_lend_light.c
+++ b/src/LB_comm/comm_lend_light.c
@@ -135,7 +135,11 @@ int acquireCpus(int current_cpus) {
 //I don't care if there aren't enough cpus
 
     if((__sync_sub_and_fetch (&(shdata->idleCpus), cpus)>0) && greedy) {
-        cpus+=__sync_val_compare_and_swap(&(shdata->idleCpus), shdata->idleCpus, 0);
+        int idle;
+        do {
+            idle = shdata->idleCpus;
+        } while (idle > 0 && !__sync_bool_compare_and_swap(&(shdata->idleCpus), idle, 0));
+        if (idle > 0) { cpus+=idle; }
     }
     add_event(IDLE_CPUS_EVENT, shdata->idleCpus);
 
@@ -152,21 +156,22 @@ int checkIdleCpus(int myCpus, int maxResources) {
     verbose(VB_SHMEM, "Checking idle CPUS... %d", shdata->idleCpus);
     int cpus;
     int aux;
+    /* Other processes may change it at any time, decide and update on the same value */
+    int idle = shdata->idleCpus;
 //WARNING//
     //if more CPUS than the availables are used release some
-    if ((shdata->idleCpus < 0) && (myCpus>defaultCPUS) ) {
-        aux=shdata->idleCpus;
-        cpus=min_int(abs(aux), myCpus-defaultCPUS);
-        if(__sync_bool_compare_and_swap(&(shdata->idleCpus), aux, aux+cpus)) {
+    if ((idle < 0) && (myCpus>defaultCPUS) ) {
+        cpus=min_int(abs(idle), myCpus-defaultCPUS);
+        if(__sync_bool_compare_and_swap(&(shdata->idleCpus), idle, idle+cpus)) {
             myCpus-=cpus;
         }
 
         //if there are idle CPUS use them
-    } else if( shdata->idleCpus > 0) {
-        aux=shdata->idleCpus;
+    } else if( idle > 0) {
+        aux=idle;
         if(aux>maxResources) { aux=maxResources; }
 
-        if(__sync_bool_compare_and_swap(&(shdata->idleCpus), shdata->idleCpus, shdata->idleCpus-aux)) {
+        if(__sync_bool_compare_and_swap(&(shdata->idleCpus), idle, idle-aux)) {
             myCpus+=aux;
         }
     }
-- 
2.43.0


From f874af0d2dbb54f30d7e85f7b8d8400405c40e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:12 +0000
Subject: [PATCH 32/54] fix: shmem_lock_maintenance overwrote a concurrent
 READY -> BUSY transition

---
 src/LB_comm/shmem.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index d7eff44..21d9f73 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -288,10 +288,10 @@ void shmem_lock_maintenance( shmem_handler_t* handler ) {
     volatile shmem_state_t *state = &handler->shsync->state;
     while(1) {
         pthread_mutex_lock(&handler->shsync->shmem_mutex);
-        switch(*state) {
+        /* shmem_acquire_busy does not take the lock, the state must be swapped atomically */
+        switch(__sync_val_compare_and_swap(state, SHMEM_READY, SHMEM_MAINTENANCE)) {
             case SHMEM_READY:
                 /* Lock successfully acquired: READY -> MAINTENANCE */
-                *state = SHMEM_MAINTENANCE;
                 return;
             case SHMEM_BUSY:
                 /* Shmem cannot be put in maintenance while BUSY */
-- 
2.43.0


From e89060650cc801926c3f04a8f2615d2e5b307eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:08 +0000
Subject: [PATCH 33/54] fix: a failed initialization left its trace event open

---
 src/LB_core/DLB_kernel.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index f79d609..dd2d124 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -105,6 +105,7 @@ int Initialize(subprocess_descriptor_t *spd, pid_t id, int ncpus,
             (spd->lb_policy == POLICY_LEWI || spd->lb_policy == POLICY_LEWI_ASYNC)) {
         warning("Classic LeWI support with no cpuset binding is not compatible"
                 " with newer DLB modules. DLB_Init cannot continue.");
+        instrument_event(RUNTIME_EVENT, EVENT_INIT, EVENT_END);
         return DLB_ERR_NOCOMP;
     }
 
@@ -147,12 +148,18 @@ int Initialize(subprocess_descriptor_t *spd, pid_t id, int ncpus,
                     &spd->process_mask, spd->options.shm_key);
         }
 
-        if (error != DLB_SUCCESS) return error;
+        if (error != DLB_SUCCESS) {
+            instrument_event(RUNTIME_EVENT, EVENT_INIT, EVENT_END);
+            return error;
+        }
 
         // Initialize cpuinfo
         error = shmem_cpuinfo__init(spd->id, spd->options.preinit_pid,
                 &spd->process_mask, spd->options.shm_key, spd->options.lewi_color);
-        if (error != DLB_SUCCESS) return error;
+        if (error != DLB_SUCCESS) {
+            instrument_event(RUNTIME_EVENT, EVENT_INIT, EVENT_END);
+            return error;
+        }
     } else if (spd->options.talp) {
         // If mask is not needed but TALP is enabled, we still need to
         // initialize shmem_procinfo but allowing CPU sharing
@@ -165,12 +172,18 @@ int Initialize(subprocess_descriptor_t *spd, pid_t id, int ncpus,
     }
     if (spd->options.mode == MODE_ASYNC) {
         error = shmem_async_init(spd->id, &spd->pm, &spd->process_mask, spd->options.shm_key);
-        if (error != DLB_SUCCESS) return error;
+        if (error != DLB_SUCCESS) {
+            instrument_event(RUNTIME_EVENT, EVENT_INIT, EVENT_END);
+            return error;
+        }
     }
 
     // Initialise LeWI
     error = spd->lb_funcs.init(spd);
-    if (error != DLB_SUCCESS) return error;
+    if (error != DLB_SUCCESS) {
+        instrument_event(RUNTIME_EVENT, EVENT_INIT, EVENT_END);
+        return error;
+    }
 
     // Initialize TALP
     if  (spd->options.talp) {
-- 
2.43.0


From d82d995d699834ab56fe2a83dea5d6544164ad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:27 +0000
Subject: [PATCH 34/54] fix: reset of a started region left its trace event
 open

---
 src/LB_core/DLB_talp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 5f07347..a304ef3 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -311,6 +311,7 @@ int monitoring_region_reset(const subprocess_descriptor_t *spd, dlb_monitor_t *m
         if (monitor_data->flags.started) {
             monitor_data->flags.started = false;
             talp_info->open_regions = g_slist_remove(talp_info->open_regions, monitor);
+            instrument_event(MONITOR_REGION, monitor_data->id, EVENT_END);
         }
     }
     pthread_mutex_unlock(&talp_info->regions_mutex);
-- 
2.43.0


From 192ecabf143df4e07d1b45c4f2d337e8ecd0ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:57 +0000
Subject: [PATCH 35/54] fix: attaching with a smaller size does not truncate a
 shared segment in use

---
 src/LB_comm/shmem.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index 21d9f73..4329cfc 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -156,8 +156,15 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
         fatal("shm_open error: %s", strerror(errno));
     }
 
-    /* Truncate the regular file to a precise size */
-    if (ftruncate(fd, handler->shm_size) == -1) {
+    /* Extend the regular file if needed. An existing shared memory may be bigger,
+     * never truncate it while other processes are using it */
+    struct stat shm_stat;
+    if (fstat(fd, &shm_stat) == -1) {
+        fatal("fstat error: %s", strerror(errno));
+    }
+    if ((size_t)shm_stat.st_size > handler->shm_size) {
+        handler->shm_size = shm_stat.st_size;
+    } else if (ftruncate(fd, handler->shm_size) == -1) {
         fatal("ftruncate error: %s", strerror(errno));
     }
 
-- 
2.43.0


From 9348f51e2f4a2485b72261b02f178d35a5edd74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:26 +0000
Subject: [PATCH 36/54] fix: barrier cleanup no longer uncounts barriers
 without participants

The cleanup run for a dead process decremented the participants of every slot,
including empty ones, whose unsigned counter wrapped: such slots could neither
be found nor reused, so no barrier could be registered any more.
---
 src/LB_comm/shmem_barrier.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_barrier.c b/src/LB_comm/shmem_barrier.c
index dba539d..42b31d9 100644
--- a/src/LB_comm/shmem_barrier.c
+++ b/src/LB_comm/shmem_barrier.c
@@ -71,7 +71,8 @@ static void cleanup_shmem(void *shdata_ptr, int pid) {
     int i;
     for (i = 0; i < max_barriers; i++) {
         barrier_t *barrier = &shared_data->barriers[i];
-        if (--barrier->participants == 0) {
+        if (barrier->participants > 0
+                && --barrier->participants == 0) {
             *barrier = (const barrier_t){};
         }
     }
-- 
2.43.0


From 654e3a787d6fa9d7460e6ef457819bd08495c53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:00 +0000
Subject: [PATCH 37/54] fix: lewi_async finalize does not use an undefined
 number of CPUs when the process was not registered

---
 src/LB_policies/lewi_async.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/LB_policies/lewi_async.c b/src/LB_policies/lewi_async.c
index 8487d06..ec30641 100644
--- a/src/LB_policies/lewi_async.c
+++ b/src/LB_policies/lewi_async.c
@@ -104,14 +104,16 @@ int lewi_async_Init(subprocess_descriptor_t *spd) {
 
 int lewi_async_Finalize(subprocess_descriptor_t *spd) {
 
-    unsigned int new_ncpus;
+    unsigned int new_ncpus = 0;
     unsigned int num_requests;
     SMALL_ARRAY(lewi_request_t, requests, node_size);
     shmem_lewi_async__finalize(spd->id, &new_ncpus, requests,
             &num_requests, node_size);
 
-    /* Set num_threads = new_ncpus */
-    lewi_async_set_num_threads(&spd->pm, new_ncpus);
+    /* Set num_threads = new_ncpus, if the process was registered */
+    if (new_ncpus > 0) {
+        lewi_async_set_num_threads(&spd->pm, new_ncpus);
+    }
 
     /* Trigger other processes's helper thread */
     for (unsigned int i=0; i<num_requests; ++i) {
-- 
2.43.0


From da5300a4f1d118eb61fa0f75ca3563f40273021a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:00 +0000
Subject: [PATCH 38/54] fix: initialise the mask of idle CPUs that the
 free-agents manager lends

---
 src/LB_numThreads/omptm_free_agents.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LB_numThreads/omptm_free_agents.c b/src/LB_numThreads/omptm_free_agents.c
index 2b4ac16..76f8aff 100644
--- a/src/LB_numThreads/omptm_free_agents.c
+++ b/src/LB_numThreads/omptm_free_agents.c
@@ -245,6 +245,7 @@ static void omptm_free_agents__lend(void) {
     if (lewi && omptool_opts & OMPTOOL_OPTS_LEND) {
         /* Lend all IDLE worker CPUs */
         cpu_set_t mask;
+        CPU_ZERO(&mask);
         int cpuid;
         for (cpuid=0; cpuid<system_size; ++cpuid) {
             if (CPU_ISSET(cpuid, &worker_threads_mask) &&
-- 
2.43.0


From 8c9873b2e93a8eae9ef5e65d66874da21844ebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:00 +0000
Subject: [PATCH 39/54] fix: node metrics query does not use an undefined count
 when the segment is not attached

---
 src/LB_core/DLB_talp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index a304ef3..6d9e52e 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -2143,7 +2143,7 @@ int talp_query_pop_node_metrics(const char *name, dlb_node_metrics_t *node_metri
     /* Obtain a list of regions in the node associated with given region */
     int max_procs = mu_get_system_size();
     talp_region_list_t *region_list = malloc(max_procs * sizeof(talp_region_list_t));
-    int nelems;
+    int nelems = 0;
     shmem_talp__get_regionlist(region_list, &nelems, max_procs, name);
 
     /* Count how many processes have started the region */
-- 
2.43.0


From 0d12f24446b689f3621b52c1f41b41bd9d169dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:00 +0000
Subject: [PATCH 40/54] fix: parsing an empty, missing or unreadable CPU mask
 yields an empty mask instead of an undefined one

---
 src/support/mask_utils.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index 2821e89..28a9235 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -328,6 +328,7 @@ static int parse_int_from_file(const char *filename) {
 static void parse_system_files(void) {
     /*** System ***/
     cpu_set_t system_mask;
+    CPU_ZERO(&system_mask);
     parse_mask_from_file(PATH_SYSTEM_MASK, &system_mask);
     sys.num_cpus = mu_get_last_cpu(&system_mask) + 1;
     mu_cpuset_setsize = sys.num_cpus;
@@ -972,6 +973,8 @@ static void parse_64_bits_mask(cpu_set_t *mask, unsigned int offset, const char
 }
 
 void mu_parse_mask( const char *str, cpu_set_t *mask ) {
+    CPU_ZERO( mask );
+
     if (!str) return;
 
     size_t str_len = strnlen(str, CPU_SETSIZE+1);
@@ -981,7 +984,6 @@ void mu_parse_mask( const char *str, cpu_set_t *mask ) {
     regex_t regex_hexmask;
     regex_t regex_range;
     regex_t old_regex_bitmask;
-    CPU_ZERO( mask );
 
     /* Compile regular expressions */
     if ( regcomp(&regex_bitmask, "^0[bB][0-1]+$", REG_EXTENDED|REG_NOSUB) ) {
-- 
2.43.0


From c0d3a086403e1ca072434dc0db087c3cea039a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:00 +0000
Subject: [PATCH 41/54] fix: initialise the placeholder process used to
 register the CPUs added on inheritance

---
 src/LB_comm/shmem_procinfo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 742c95f..6d10186 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -341,7 +341,7 @@ static int shmem_procinfo__init_(pid_t pid, pid_t preinit_pid, const cpu_set_t *
                     error = DLB_ERR_PDIRTY;
                 } else {
                     // Register the new CPUs in a placeholder process
-                    pinfo_t new_process;
+                    pinfo_t new_process = (const pinfo_t) {.pid = pid};
                     cpu_set_t new_cpus;
                     CPU_ZERO(&new_cpus);
                     mu_substract(&new_cpus, process_mask, preinit_mask);
@@ -391,7 +391,7 @@ static int shmem_procinfo__init_(pid_t pid, pid_t preinit_pid, const cpu_set_t *
                     error = DLB_ERR_NOMEM;
                 } else {
                     // Register the new CPUs in a placeholder process
-                    pinfo_t new_process;
+                    pinfo_t new_process = (const pinfo_t) {.pid = pid};
                     cpu_set_t new_cpus;
                     CPU_ZERO(&new_cpus);
                     mu_substract(&new_cpus, process_mask, preinit_mask);
-- 
2.43.0


From c4031e0a418db2cea3a2c62b950336538c5f25ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:12 +0000
Subject: [PATCH 42/54] fix: talp_output: process CSV rows lacked the separator
 after NumCpus and their end of line

---
 src/support/talp_output.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/support/talp_output.c b/src/support/talp_output.c
index c0b30b9..e180f36 100644
--- a/src/support/talp_output.c
+++ b/src/support/talp_output.c
@@ -1105,7 +1105,7 @@ static void process_to_csv(FILE *out_file, bool append) {
                     "%d,"           /* NodeId */
                     "%s,"           /* Hostname */
                     "%s,"           /* CpuSet */
-                    "%d"            /* NumCpus */
+                    "%d,"           /* NumCpus */
                     "%.1f,"         /* AvgCpus */
                     "%"PRId64","    /* Cycles */
                     "%"PRId64","    /* Instructions */
@@ -1119,7 +1119,7 @@ static void process_to_csv(FILE *out_file, bool append) {
                     "%"PRId64","    /* MPITime */
                     "%"PRId64","    /* OMPLoadImbalance */
                     "%"PRId64","    /* OMPSchedulingTime */
-                    "%"PRId64",",   /* OMPSerializationTime */
+                    "%"PRId64"\n",  /* OMPSerializationTime */
                     region_record->name,
                     process_record->rank,
                     process_record->pid,
-- 
2.43.0


From 60950c82e5d726b92a94c56bff98a99b2aef31e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:18 +0000
Subject: [PATCH 43/54] fix: talp_output: quote the region name in the process
 CSV, as the POP CSV does

---
 src/support/talp_output.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/support/talp_output.c b/src/support/talp_output.c
index e180f36..cb82ccd 100644
--- a/src/support/talp_output.c
+++ b/src/support/talp_output.c
@@ -1099,7 +1099,7 @@ static void process_to_csv(FILE *out_file, bool append) {
             process_record_t *process_record = &region_record->process_records[i];
 
             fprintf(out_file,
-                    "%s,"           /* Region */
+                    "\"%s\","       /* Region */
                     "%d,"           /* Rank */
                     "%d,"           /* PID */
                     "%d,"           /* NodeId */
-- 
2.43.0


From 2cb06f571093136da0e0c4d5553330d9a350f993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:41 +0000
Subject: [PATCH 44/54] fix: options: room for every int in the text of an
 option value

---
 src/support/options.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/support/options.c b/src/support/options.c
index 00394fc..2c3225d 100644
--- a/src/support/options.c
+++ b/src/support/options.c
@@ -621,7 +621,7 @@ static int set_value(option_type_t type, void *option, const char *str_value) {
 }
 
 static const char * get_value(option_type_t type, const void *option) {
-    static char int_value[8];
+    static char int_value[16];
     switch(type) {
         case OPT_BOOL_T:
             return *(bool*)option ? "yes" : "no";
-- 
2.43.0


From d5f161e0765d47c08c005dbf74d84c63dad8e1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:41 +0000
Subject: [PATCH 45/54] fix: mask_utils: allocate the last digit of a slurm
 mask when the number of CPUs is not a multiple of four

---
 src/support/mask_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index 28a9235..b0e4874 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -1171,7 +1171,7 @@ void mu_get_quoted_mask(const cpu_set_t *mask, char *str, size_t namelen) {
 }
 
 char * mu_parse_to_slurm_format(const cpu_set_t *mask) {
-    char *str = malloc((mu_cpuset_setsize >> 2) + 3);
+    char *str = malloc(((mu_cpuset_setsize + 3) >> 2) + 3);
     if (str < 0)
         return NULL;
     unsigned int offset = 2;
-- 
2.43.0


From 577fcd1c5fde754f330b15a91fd6b5acbaab1d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:41 +0000
Subject: [PATCH 46/54] fix: debug: grow the print buffer until the line fits

---
 src/support/debug.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/support/debug.c b/src/support/debug.c
index 32f6a2a..f6f9f1e 100644
--- a/src/support/debug.c
+++ b/src/support/debug.c
@@ -399,7 +399,9 @@ void printbuffer_append(print_buffer_t *buffer, const char *line) {
     size_t line_len = strlen(line) + 2; /* + '\n\0' */
     size_t buffer_len = strlen(buffer->addr);
     if (buffer_len + line_len > buffer->size) {
-        buffer->size *= 2;
+        while (buffer_len + line_len > buffer->size) {
+            buffer->size *= 2;
+        }
         void *p = realloc(buffer->addr, buffer->size*sizeof(char));
         if (p) {
             buffer->addr = p;
-- 
2.43.0


From 0fcb340259ed9cebc1779316cc847daccc81f9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:41 +0000
Subject: [PATCH 47/54] fix: types: room for every combination of talp-summary
 values, deprecated ones included

---
 src/support/types.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/support/types.c b/src/support/types.c
index 146271f..9b7540c 100644
--- a/src/support/types.c
+++ b/src/support/types.c
@@ -509,7 +509,7 @@ const char* talp_summary_tostr(talp_summary_t value) {
         return "all";
     }
 
-    static char str[sizeof(talp_summary_choices_str)] = "";
+    static char str[sizeof(talp_summary_choices_str) + sizeof(":pop-raw:node")] = "";
     str[0] = '\0';
     char *p = str;
     int i;
-- 
2.43.0


From bcc774ec4b96f49e5891f63e6b6756880e4f1060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:41 +0000
Subject: [PATCH 48/54] fix: dlb_shm: count the separator when DLB_ARGS is not
 set

---
 src/utils/dlb_shm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/dlb_shm.c b/src/utils/dlb_shm.c
index 9c619bf..3300c72 100644
--- a/src/utils/dlb_shm.c
+++ b/src/utils/dlb_shm.c
@@ -154,7 +154,7 @@ void list_shdata_item(const char* shm_suffix, int list_columns,
         fprintf( stdout, "Found DLB shmem with id: %s\n", p );
         /* Modify DLB_ARGS */
         const char *dlb_args_env = getenv("DLB_ARGS");
-        size_t dlb_args_env_len = dlb_args_env ? strlen(dlb_args_env) + 1 : 0;
+        size_t dlb_args_env_len = (dlb_args_env ? strlen(dlb_args_env) : 0) + 1;
         const char * const new_dlb_args_base = "--verbose-format=node --shm-key=";
         char *dlb_args = malloc(dlb_args_env_len + strlen(new_dlb_args_base) + strlen(p) + 1);
         sprintf(dlb_args, "%s %s%s", dlb_args_env ? dlb_args_env : "", new_dlb_args_base, p);
-- 
2.43.0


From cfa89ade0242e2d1f0fa1617d8a7dd82f27350ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:25 +0000
Subject: [PATCH 49/54] fix: cpuinfo: keep the print position inside the line
 when its text is truncated

---
 src/LB_comm/shmem_cpuinfo.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 0ebb3c6..fd9d48b 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2256,7 +2256,7 @@ void shmem_cpuinfo__print_info(const char *shmem_key, int shmem_color, int colum
     /* Set up line buffer */
     enum { MAX_LINE_LEN = 512 };
     char line[MAX_LINE_LEN];
-    char *l;
+    size_t len;
 
     /* Calculate number of rows and cpus per column (same) */
     int rows = (node_size+columns-1) / columns;
@@ -2271,7 +2271,6 @@ void shmem_cpuinfo__print_info(const char *shmem_key, int shmem_color, int colum
     for (row=0; row<rows; ++row) {
         /* Init line */
         line[0] = '\0';
-        l = line;
 
         /* Iterate columns */
         int column;
@@ -2289,7 +2288,8 @@ void shmem_cpuinfo__print_info(const char *shmem_key, int shmem_color, int colum
                         state == CPU_BUSY                       ? ANSI_COLOR_YELLOW :
                         guest == NOBODY                         ? ANSI_COLOR_GREEN :
                                                                   ANSI_COLOR_BLUE;
-                    l += snprintf(l, MAX_LINE_LEN-strlen(line),
+                    len = strlen(line);
+                    snprintf(&line[len], MAX_LINE_LEN-len,
                             " %4d %s[ %*d / %*d ]" ANSI_COLOR_RESET,
                             cpuid,
                             code_color,
@@ -2302,7 +2302,8 @@ void shmem_cpuinfo__print_info(const char *shmem_key, int shmem_color, int colum
                         state == CPU_BUSY                   ? "recl" :
                         guest == NOBODY                     ? "idle" :
                                                               "lent";
-                    l += snprintf(l, MAX_LINE_LEN-strlen(line),
+                    len = strlen(line);
+                    snprintf(&line[len], MAX_LINE_LEN-len,
                             " %4d [ %*d / %*d / %s ]",
                             cpuid,
                             max_digits, owner,
@@ -2342,17 +2343,16 @@ void shmem_cpuinfo__print_info(const char *shmem_key, int shmem_color, int colum
             queue_pid_t *requests = &shdata_copy->node_info[cpuid].requests;
             if (queue_pid_t_size(requests) > 0) {
                 /* Set up line */
-                line[0] = '\0';
-                l = line;
-                l += snprintf(l, MAX_LINE_LEN-strlen(line), "  %4d: ", cpuid);
+                snprintf(line, MAX_LINE_LEN, "  %4d: ", cpuid);
                 /* Iterate requests */
                 for (pid_t *it = queue_pid_t_front(requests);
                         it != NULL;
                         it = queue_pid_t_next(requests, it)) {
-                    l += snprintf(l, MAX_LINE_LEN-strlen(line), " %u,", *it);
+                    len = strlen(line);
+                    snprintf(&line[len], MAX_LINE_LEN-len, " %u,", *it);
                 }
                 /* Remove trailing comma and append line */
-                *(l-1) = '\0';
+                line[strlen(line)-1] = '\0';
                 printbuffer_append(&buffer, line);
             }
         }
-- 
2.43.0


From d90eccde7aae65a2c79c14b2f81d5979bee2d253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:31 +0000
Subject: [PATCH 50/54] fix: shmem: limit the wait for the creator of a shared
 memory to initialise it

---
 src/LB_comm/shmem.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index 4329cfc..bf14caf 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -207,7 +207,19 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
         handler->shsync->initialized = 1;
     } else {
         /* Shared Memory already created */
-        while(!handler->shsync->initialized) __sync_synchronize();
+        struct timespec start, now;
+        get_time_coarse(&start);
+        while(!handler->shsync->initialized) {
+            __sync_synchronize();
+            get_time_coarse(&now);
+            if (now.tv_sec - start.tv_sec > SHMEM_TIMEOUT_SECONDS) {
+                fatal("The shared memory is not being initialized.\n"
+                        "This may have been caused by a previous process crashing"
+                        " while creating the DLB shared memory.\n"
+                        "Please, run 'dlb_shm --delete' and try again.\n"
+                        "Contact us at " PACKAGE_BUGREPORT " if the issue persists.");
+            }
+        }
         verbose(VB_SHMEM, "Attached to Shared Memory (%s)", shmem_module);
     }
 
-- 
2.43.0


From aeb0c04175a8bfc7fd65a939b3acb51c3d562688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:22 +0000
Subject: [PATCH 51/54] fix: shmem: clean up only processes that do not exist,
 and record the attaching process when their places are the only free ones

---
 src/LB_comm/shmem.c | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index bf14caf..7f7d4ce 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -57,28 +57,26 @@ static bool shmem_consistency_check_pids(pid_t *pidlist, pid_t pid,
     bool registered = false;
     int i;
     for(i=0; i<mu_get_system_size(); ++i) {
-        if (pidlist[i] == 0) {
-            if (!registered) {
-                pidlist[i] = pid;
-                registered = true;
-            }
-        } else {
-            if (kill(pidlist[i], 0) == -1) {
-                /* Process pidlist[i] is registered and does not exist */
-                if (cleanup_fn) {
-                    verbose(VB_SHMEM,
-                            "Process %d is registered in DLB but does not exist, probably"
-                            " due to a bad termination of such process.\n"
-                            "DLB is cleaning up the shared memory. If it fails,"
-                            " please run 'dlb_shm --delete' and try again.", pidlist[i]);
-                    cleanup_fn(shdata, pidlist[i]);
-                    pidlist[i] = 0;
-                } else {
-                    verbose(VB_SHMEM, "Process %d attached to shmem not found, "
-                            "you may want to run \"dlb_shm -d\"", pidlist[i]);
-                }
+        if (pidlist[i] != 0
+                && kill(pidlist[i], 0) == -1 && errno == ESRCH) {
+            /* Process pidlist[i] is registered and does not exist */
+            if (cleanup_fn) {
+                verbose(VB_SHMEM,
+                        "Process %d is registered in DLB but does not exist, probably"
+                        " due to a bad termination of such process.\n"
+                        "DLB is cleaning up the shared memory. If it fails,"
+                        " please run 'dlb_shm --delete' and try again.", pidlist[i]);
+                cleanup_fn(shdata, pidlist[i]);
+                pidlist[i] = 0;
+            } else {
+                verbose(VB_SHMEM, "Process %d attached to shmem not found, "
+                        "you may want to run \"dlb_shm -d\"", pidlist[i]);
             }
         }
+        if (pidlist[i] == 0 && !registered) {
+            pidlist[i] = pid;
+            registered = true;
+        }
     }
     return registered;
 }
-- 
2.43.0


From a5ae9a2d732fbbf65d9f78e2b285879774b58b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:22 +0000
Subject: [PATCH 52/54] fix: cpuinfo: the cleanup of a dead process removes its
 process requests and announces the CPUs released

---
 src/LB_comm/shmem_cpuinfo.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index fd9d48b..019d95d 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -324,6 +324,13 @@ static void cleanup_shmem(void *shdata_ptr, int pid) {
         cpuinfo_t *cpuinfo = &shared_data->node_info[cpuid];
         deregister_cpu(cpuinfo, pid);
     }
+
+    // Remove any previous global request
+    if (shared_data->flags.queues_enabled) {
+        queue_lewi_mask_request_t_remove(&shared_data->lewi_mask_requests, pid);
+    }
+
+    update_shmem_timestamp();
 }
 
 static void open_shmem(const char *shmem_key, int shmem_color) {
-- 
2.43.0


From cb838fe41329abb1223756170153a297050fe6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:22 +0000
Subject: [PATCH 53/54] fix: lewi_async: the cleanup of a dead process removes
 its slot, its requests and the CPUs it had borrowed

---
 src/LB_comm/shmem_lewi_async.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/LB_comm/shmem_lewi_async.c b/src/LB_comm/shmem_lewi_async.c
index e47f070..38362a1 100644
--- a/src/LB_comm/shmem_lewi_async.c
+++ b/src/LB_comm/shmem_lewi_async.c
@@ -69,6 +69,24 @@ static int reclaim_from_shmem(lewi_process_t *process, unsigned int ncpus,
 
 static void cleanup_shmem(void *shdata_ptr, int pid) {
     lewi_async_shdata_t *shared_data = shdata_ptr;
+    for (unsigned int p = 0; p < shared_data->proc_list_head; ++p) {
+        lewi_process_t *process = &shared_data->processes[p];
+        if (process->pid == pid) {
+            // Remove requests
+            queue_lewi_reqs_remove(&shared_data->requests, pid);
+
+            // Return borrowed CPUs, or take back the lent ones that nobody is using
+            if (process->current_ncpus > process->initial_ncpus) {
+                shared_data->idle_cpus += process->current_ncpus - process->initial_ncpus;
+            } else {
+                shared_data->idle_cpus -= min_uint(shared_data->idle_cpus,
+                        process->initial_ncpus - process->current_ncpus);
+            }
+
+            // Remove process data
+            *process = (const lewi_process_t) {};
+        }
+    }
     if (shared_data->attached_nprocs > 0) {
         --shared_data->attached_nprocs;
     }
-- 
2.43.0


From 49cf5f11b702d66c03b202ca9ad044e7ae70a6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:08 +0000
Subject: [PATCH 54/54] fix: out of blocking call in async mode only resolves
 the DISABLE tasks

---
 src/LB_policies/lewi_mask.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 0e1430c..b10efe6 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -470,7 +470,8 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
              * Only if asynchronous mode, keep DISABLE tasks, otherwise remove all. */
             if (error == DLB_NOTED
                     && spd->options.mode == MODE_ASYNC) {
-                for (size_t i = 0, i_write = 0; i < tasks->count; ++i) {
+                size_t i_write = 0;
+                for (size_t i = 0; i < tasks->count; ++i) {
                     const cpuinfo_task_t *task = &tasks->items[i];
                     if (task->action == DISABLE_CPU) {
                         if (i != i_write) {
@@ -479,6 +480,7 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
                         ++i_write;
                     }
                 }
+                tasks->count = i_write;
                 /* Async: resolve only DISABLE tasks */
                 resolve_cpuinfo_tasks(spd, tasks);
             } else {
-- 
2.43.0

